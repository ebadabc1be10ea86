"""C18 reserve recursions reproduce policy values forwards and backwards."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, life, build, rate, rate0
from lib import ref, pol
from lib.pol import contract
import actuarialmath as am
from checks.c08 import prep, domain

RULE = ("cases draw a model, start [x]+s, a contract with expenses, a term, which reserves are known (issue, maturity, any in between), whether the benefit includes the reserve, and "
        "histories of set/fill/query calls on one object; the oracle is the prospective value of remaining cash flows (or, for reserve benefits, the savings account), and a fresh object for "
        "histories; non-trivial = term over 2 years and a known reserve in between, or an earlier policy on the same object")
ASSUMPTIONS = ["annual policies", "some lives survive to each duration used (survival with interest to the term above 2%)",
               "known reserves are those of the policy; a value at issue of zero is the documented default"]


@st.composite
def lifeR(draw):
    L = prep(draw, draw(life(("table", "ltab", "law", "base", "select", "sult"))))
    if L["kind"] == "select" and L["left"] < 1:
        L["x"], L["s"], L["left"] = L["t"]["x0"], 0, len(L["t"]["rows"]) - 1
    return L


@st.composite
def strat(draw, tier="quick"):
    L = draw(lifeR())
    n = draw(st.integers(1, max(1, min(draw(st.sampled_from([12] * 7 + [70])), L["left"] if L["left"] is not None else 60))))
    return {"life": L, "n": n, "c": draw(contract()), "known": draw(st.lists(st.integers(1, max(1, n - 1)), max_size=2, unique=True)),
            "equiv": draw(st.booleans()), "resben": draw(st.integers(0, 2)) == 0, "setT": draw(st.booleans()), "i": draw(rate0)}


def values(R, v, x, s, k, n, resben):
    """prospective reserves of the contract at 0..n"""
    V = {}
    for t in range(n + 1):
        tot = pol.initial(k) if t == 0 else 0.
        for j in range(t, n):
            q = R.tq(x, s + j, 1)
            if resben:
                tot += v**(j - t) * (v * q * pol.claims(k) - pol.profit(k))
            else:
                tot += v**(j - t) * (v * q * pol.claims(k) - pol.profit(k)) * R.S(x, s + t, j - t)
        tot += k["endowment"] * v**(n - t) * (1 if resben or t == n else R.S(x, s + t, n - t))
        V[t] = tot
    return V


def equivalence(R, v, x, s, k, n, resben):
    """premium which makes the value at issue zero (value is linear in the premium)"""
    a = values(R, v, x, s, dict(k, premium=0.), n, resben)[0]
    b = values(R, v, x, s, dict(k, premium=1.), n, resben)[0]
    return -a / (b - a) if abs(b - a) > 1e-3 else None


def check(c):
    L, n, k, resben = c["life"], c["n"], c["c"], c["resben"]
    v = 1 / (1 + c["i"])
    obj, R = build(L, c["i"])
    x, s = L["x"], L["s"]
    cond = v**n * R.S(x, s, n - 1)
    if cond < 0.02:
        return False
    if c["equiv"]:
        P = equivalence(R, v, x, s, k, n, resben)
        if P is None:
            return False
        k = dict(k, premium=P)
    want = values(R, v, x, s, k, n, resben)
    size = pol.claims(k) + k["endowment"] + abs(pol.profit(k)) * n + abs(pol.initial(k)) + max(abs(y) for y in want.values())
    tol = 2e-6 * size / cond
    known = {t: want[t] for t in c["known"] if t < n}
    if not c["equiv"]:
        known[0] = want[0]
    con = pol.make(k, **({"T": n} if c["setT"] else {}))
    call("set_reserves", obj.set_reserves, T=n, endowment=k["endowment"], **({"V": known} if known else {}))
    call("fill_reserves", obj.fill_reserves, x, s=s, contract=con, reserve_benefit=resben)
    lab = f"(x={x},s={s},n={n},contract={k},reserve_benefit={resben},known={sorted(known)},i={c['i']})"
    fr = call("reserves_frame", obj.reserves_frame)
    got = {int(t): float(y) for t, y in fr["V_t"].items()}
    same("durations of the reserves table" + lab, sorted(got), list(range(n + 1)))
    for t in range(n + 1):
        eq(f"reserve at {t}" + lab, got[t], want[t], 0, tol)
    if not resben and L["kind"] != "select":
        for t in (0, n // 2, n):
            g = num("gross_policy_value", obj.gross_policy_value, x, s=s, t=t, n=n, contract=con)
            eq(f"gross_policy_value({t}) = recursive reserve" + lab, g, got[t], 0, 2 * tol)
    return n > 2 and (len(known) > 0 or resben) and R.S(x, s, n - 1) < 1 - 1e-9


@st.composite
def s_step(draw, tier="quick"):
    L = draw(lifeR())
    return {"life": L, "t": draw(st.integers(0, max(0, min(20, (L["left"] if L["left"] is not None else 20) - 1)))), "V": draw(rnd(-2, 5, 2)),
            "P": draw(rnd(0, 1, 2)), "b": draw(st.sampled_from([0, 1, 10]) | rnd(0, 5, 1)), "db": draw(rnd(0, 1, 1)), "pp": draw(rnd(0, .9, 2)), "ppol": draw(rnd(0, .5, 2)),
            "resben": draw(st.booleans()), "i": draw(rate0)}


def check_step(c):
    """one step forwards, then backwards, on arbitrary data"""
    L, t = c["life"], c["t"]
    v = 1 / (1 + c["i"])
    obj, R = build(L, c["i"])
    x, s = L["x"], L["s"]
    p = R.S(x, s + t, 1)
    if p < 1e-3:
        return False
    q = 1 - p
    ben = lambda z: c["b"] + c["db"] * z
    kw = dict(premium=c["P"], benefit=ben, per_premium=c["pp"], per_policy=c["ppol"], reserve_benefit=c["resben"])
    T = t + 30
    call("set_reserves", obj.set_reserves, T=T, V={t: c["V"]})
    lab = f"(x={x},s={s},t={t},V={c['V']},premium={c['P']},benefit(t)={c['b']}+{c['db']}t,per_premium={c['pp']},per_policy={c['ppol']},reserve_benefit={c['resben']})"
    f = num("t_V_forward" + lab, obj.t_V_forward, x, s=s, t=t + 1, **kw)
    acc = (c["V"] + c["P"] * (1 - c["pp"]) - c["ppol"]) / v
    want = acc - q * ben(t + 1) if c["resben"] else (acc - q * ben(t + 1)) / p
    eq("t_V_forward" + lab, f, want, 1e-6, 1e-5 / p)
    eq("t_V" + lab, num("t_V", obj.t_V, x, s=s, t=t + 1, **kw), f, 1e-12)
    same("unknown neighbours give no value", (call("t_V_forward", obj.t_V_forward, x, s=s, t=t + 3, **kw), call("t_V_backward", obj.t_V_backward, x, s=s, t=t + 3, **kw),
                                              call("t_V", obj.t_V, x, s=s, t=t + 3, **kw)), (None, None, None))
    o2, _ = build(L, c["i"])
    call("set_reserves", o2.set_reserves, T=T, V={t + 1: f})
    if t > 0 or True:
        b = num("t_V_backward" + lab, o2.t_V_backward, x, s=s, t=t, **kw)
        eq("backward undoes forward" + lab, b, c["V"], 1e-6, 1e-5)
        if t > 1:
            eq("t_V uses the following reserve" + lab, num("t_V", o2.t_V, x, s=s, t=t, **kw), b, 1e-12)
    eq("a known reserve is returned as it is", num("t_V", obj.t_V, x, s=s, t=t, **kw), c["V"], 0, 1e-12)
    return t > 0 and ben(t + 1) != 0 and 1e-9 < q < 1


@st.composite
def s_hist(draw, tier="quick"):
    L = draw(lifeR())
    top = max(1, min(9, L["left"] if L["left"] is not None else 9))
    ops = []
    for _ in range(draw(st.integers(2, 6))):
        k = draw(st.sampled_from(["policy", "policy", "add", "fill", "query", "frame"]))
        if k == "policy":
            n = draw(st.integers(1, top))
            ops.append({"op": k, "n": n, "end": draw(st.sampled_from([0, 1, 2.5])), "V": {str(t): y for t, y in draw(st.dictionaries(st.integers(0, n), rnd(0, 2, 2), max_size=2)).items()}})
        elif k == "add":
            ops.append({"op": k, "V": {str(t): y for t, y in draw(st.dictionaries(st.integers(1, top), rnd(0, 2, 2), min_size=1, max_size=2)).items()}})
        elif k == "fill":
            ops.append({"op": k, "c": draw(contract()), "resben": draw(st.booleans())})
        else:
            ops.append({"op": k, "t": draw(st.integers(0, top))})
    return {"life": L, "ops": ops, "i": draw(rate0)}


def apply(obj, op, x, s):
    k = op["op"]
    if k == "policy":
        call("set_reserves", obj.set_reserves, T=op["n"], endowment=op["end"], **({"V": {int(t): y for t, y in op["V"].items()}} if op["V"] else {}))
    elif k == "add":
        call("set_reserves", obj.set_reserves, V={int(t): y for t, y in op["V"].items()})
    elif k == "fill":
        call("fill_reserves", obj.fill_reserves, x, s=s, contract=pol.make(op["c"]), reserve_benefit=op["resben"])
    elif k == "query":
        call("t_V", obj.t_V, x, s=s, t=op["t"], premium=0.1)
    else:
        call("reserves_frame", obj.reserves_frame)


def table(obj):
    f = call("reserves_frame", obj.reserves_frame)
    return {int(t): float(y) for t, y in f["V_t"].items()} if len(f) else {}


def check_hist(c):
    L = c["life"]
    obj, R = build(L, c["i"])
    x, s = L["x"], L["s"]
    n = max([o["n"] for o in c["ops"] if o["op"] == "policy"] + [9])
    if R.S(x, s, n) < 0.01:
        return False
    start = max([j for j, o in enumerate(c["ops"]) if o["op"] == "policy"], default=None)
    for j, op in enumerate(c["ops"]):
        before = table(obj)
        apply(obj, op, x, s)
        after = table(obj)
        if op["op"] in ("query", "frame"):
            same(f"{op['op']} leaves the table alone", after, before)
        elif op["op"] == "fill":
            for t, y in before.items():
                eq(f"fill keeps the known reserve at {t} (ops={c['ops'][:j + 1]})", after[t], y, 0, 0)
        else:
            for t, y in op["V"].items():
                if not (int(t) == op.get("n") and op.get("end")):
                    eq(f"set_reserves stores the reserve given at {t} (ops={c['ops'][:j + 1]})", after[int(t)], y, 0, 1e-12)
            if op["op"] == "policy":
                if str(op["n"]) not in op["V"] or op["end"]:
                    eq(f"maturity value is the endowment (ops={c['ops'][:j + 1]})", after[op["n"]], op["end"], 0, 1e-12)
                if "0" not in op["V"]:
                    eq("reserve at issue is zero unless given", after[0], 0, 0, 0)
                same(f"a new policy holds only its own reserves (ops={c['ops'][:j + 1]})", set(after) <= {0, op["n"]} | {int(t) for t in op["V"]}, True)
            else:
                for t, y in before.items():
                    if str(t) not in op["V"] and len(op["V"]) < 2:
                        eq(f"adding a reserve keeps that at {t} (ops={c['ops'][:j + 1]})", after[t], y, 0, 0)
    if start is None:
        return False
    fresh, _ = build(L, c["i"])
    for op in c["ops"][start:]:
        apply(fresh, op, x, s)
    a, b = table(obj), table(fresh)
    same(f"durations after a history {c['ops']}", sorted(a), sorted(b))
    for t in b:
        eq(f"reserve at {t} does not depend on earlier policies (ops={c['ops']})", a[t], b[t], 1e-12, 1e-12)
    return start > 0


SUBS = [Sub("fill", lambda tier: strat(), check, 1200, what="filled tables equal prospective values for any known reserves"),
        Sub("step", lambda tier: s_step(), check_step, 900, what="one step forward and back, select durations, expenses, reserve benefits"),
        Sub("histories", lambda tier: s_hist(), check_hist, 800, what="sequences of set/add/fill/query on one object vs a fresh object")]
