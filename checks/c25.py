"""C25 extra mortality risk modifies exactly the stated quantity."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, life, build, rate, rate0
from lib import ref
import actuarialmath as am

RULE = ("cases draw a base model of any kind, a kind and size of extra risk (or none), an age and select duration; modified one-year probabilities are compared with the base "
        "distribution modified directly (force integrated over the year, rate multiplied, age shifted), whole columns with the same at every age, and insurances on tables "
        "loaded with them with sums over the modified probabilities; non-trivial = the modification changes the probability by more than 1e-6")
ASSUMPTIONS = ["ages the base model covers; a multiplied rate above one means certain death"]
RISKS = ["ADD_FORCE", "MULTIPLY_FORCE", "ADD_AGE", "MULTIPLY_RATE", ""]


@st.composite
def s_one(draw, tier="quick"):
    L = draw(life(("table", "ltab", "law", "base", "select", "sult")))
    risk = draw(st.sampled_from(RISKS))
    extra = {"ADD_FORCE": draw(rnd(0, .3, 3) | rnd(0, .3, 3) | rnd(.3, 3, 1)), "MULTIPLY_FORCE": draw(rnd(.1, 4, 2) | rnd(.1, 4, 2) | rnd(4, 25, 1)), "ADD_AGE": draw(st.integers(0, 8)), "MULTIPLY_RATE": draw(rnd(0, 3, 2)), "": 0.}[risk]
    return {"life": L, "risk": risk, "extra": extra, "col": draw(st.sampled_from(["q", "p", "qx", "p_x"]))}


def modified(c, R, x, s):
    """the true modified one-year survival probability"""
    e, k = c["extra"], c["risk"]
    p = R.S(x, s, 1) if R.end(x, s) > 0 else 0.
    if k == "ADD_FORCE":
        return p * math.exp(-e)
    if k == "MULTIPLY_FORCE":
        return p ** e
    if k == "ADD_AGE":
        return R.S(x + e, s, 1) if R.end(x + e, s) > 0 else 0.
    if k == "MULTIPLY_RATE":
        return 1 - min(1., e * (1 - p))
    return p


def mk(c):
    obj, R = build(c["life"])
    kw = {"risk": c["risk"], "extra": c["extra"]} if c["risk"] else {}
    return obj, R, call("ExtraRisk", am.ExtraRisk, life=obj, **kw)


def inside(c, R, x, s):
    L = c["life"]
    y = x + (c["extra"] if c["risk"] == "ADD_AGE" else 0)
    if L["kind"] == "select":
        t = L["t"]
        return y in {t["x0"] + k for k in range(len(t["rows"]))} and y + s <= t["x0"] + len(t["rows"]) - 1
    if L["kind"] == "base" and L["law"].get("omega"):
        return y + s + 1 < L["law"]["omega"]     # the user's own functions end at the limiting age
    return R.end(y, s) > 0


def tolp(c, R):
    """table lives are rounded to 7 decimals, which a multiple of the risk multiplies"""
    L, k = c["life"], max(1., c["extra"]) if c["risk"] == "MULTIPLY_FORCE" else 1.
    if L["kind"] in ("table", "ltab"):
        return k * (1e-9 + 2e-12 / max(R.S(L["t"]["x0"], 0, L["x"] + L["s"] - L["t"]["x0"] + (c["extra"] if c["risk"] == "ADD_AGE" else 0)), 1e-9))
    return 2e-5 if L["kind"] == "base" else 1e-9 * k


def check_one(c):
    obj, R, ex = mk(c)
    L = c["life"]
    x, s = L["x"], L["s"]
    if not inside(c, R, x, s):
        return False
    want, base = modified(c, R, x, s), R.S(x, s, 1)
    lab = f"({c['risk']},{c['extra']}) at [{x}]+{s}"
    p = eq("p_x" + lab, call("p_x", ex.p_x, x, s=s), want, tolp(c, R), 1e-9)
    q = eq("q_x" + lab, call("q_x", ex.q_x, x, s=s), 1 - want, tolp(c, R), 1e-9)
    between("p_x" + lab, p, 0, 1)
    eq("p+q" + lab, p + q, 1, 0, 1e-9)
    # against the base model's own answers, and leaving them alone
    eq("base p_x unchanged", call("p_x", obj.p_x, x, s=s), base, tolp(c, R), 1e-9)
    if s == 0:
        eq("default duration", call("p_x", ex.p_x, x), want, tolp(c, R), 1e-9)
    return abs(want - base) > 1e-6


@st.composite
def s_col(draw, tier="quick"):
    c = draw(s_one())
    c["life"] = draw(life(("table", "ltab", "select", "sult", "law")))
    if c["life"]["kind"] == "law" and not c["life"]["law"].get("omega"):
        c["life"]["law"] = {"law": "makeham", "A": .0002, "B": .0003, "c": 1.08}
    if c["life"]["kind"] == "select" and c["risk"] == "ADD_AGE":
        c["risk"], c["extra"] = "ADD_FORCE", .05
    if c["risk"] == "ADD_FORCE" and c["extra"] > .2:
        c["extra"] = .2
    c["i"], c["t"], c["u"] = draw(rate0), draw(st.integers(1, 8)), draw(st.integers(0, 4))
    c["per"] = draw(st.integers(1, 2))
    return c


def check_col(c):
    obj, R, ex = mk(c)
    L = c["life"]
    name = c["col"]
    col = call(f"extra[{name}]", ex.__getitem__, name)
    lo, hi = obj._MINAGE, obj._MAXAGE
    seen, diff = 0, 0
    mod = {}
    for x in range(lo, hi + 1):
        if x not in col:
            fail(f"extra[{name}] has no age {x}")
        if not inside(c, R, x, 0):
            continue
        mod[x] = modified(c, R, x, 0)
        seen += 1
        diff = max(diff, abs(mod[x] - R.S(x, 0, 1)))
        eq(f"extra({c['risk']},{c['extra']})[{name}][{x}]", col[x], mod[x] if name[0] == "p" else 1 - mod[x], 1e-8, 1e-9 * max(1, c['extra']) * 5)
    if seen < 3:
        return False
    # a life table loaded with the column values insurances on the modified mortality
    x0 = min(mod)
    run = [x for x in range(x0, x0 + 15) if x in mod]
    i, v = c["i"], 1 / (1 + c["i"])
    tab = call("LifeTable.set_table", am.LifeTable().set_interest(i=i).set_table, **{name[0]: {x: col[x] for x in run}})
    RM = ref.TableRef({x: 1 - mod[x] for x in run}, True)
    x = L["x"] if L["x"] in run else x0
    t = min(c["t"], run[-1] + 1 - x)
    if RM.S(x0, 0, x - x0) < 1e-3:        # (practically) nobody reaches age x: nothing to value there
        x = x0
    t = min(t, run[-1] + 1 - x)
    eq(f"insurance on modified mortality x={x} t={t}", call("A_x", tab.A_x, x, t=t), ref.ins(RM, v, x, 0, t=t), 2e-6, 1e-6)     # tables keep seven digits
    eq(f"annuity on modified mortality x={x} t={t}", call("a_x", tab.a_x, x, t=t), ref.ann(RM, v, x, 0, t=t), 2e-6, 6e-6)
    # modified select year(s) followed by the base model's ultimate mortality
    if c["risk"] and L["kind"] in ("table", "sult") and len(run) > c["per"] + t + c["u"] and name[0] == "q":
        n = c["per"]
        sel = call("SelectLife", am.SelectLife, periods=n).set_interest(i=i)
        for s in range(n):
            call("set_select", sel.set_select, s=s, age_selected=False, q={a: col[a] for a in run})
        call("set_select", sel.set_select, s=n, age_selected=False, q={a: 1 - R.S(a, 0, 1) for a in run})
        call("fill_table", sel.fill_table)
        a0 = run[0]
        surv, A = 1., 0.
        for k in range(t):
            q = 1 - (mod[a0 + k] if k < n else R.S(a0 + k, 0, 1))
            A += surv * q * v ** (k + 1)
            surv *= 1 - q
        eq(f"select then ultimate: term insurance {t} on [{a0}]", call("A_x", sel.A_x, a0, t=t), A, 2e-6, 1e-6)
    return diff > 1e-6


SUBS = [Sub("one-year", lambda tier: s_one(), check_one, 1200, what="modified one-year probabilities at any age and duration"),
        Sub("column", lambda tier: s_col(), check_col, 500, what="whole columns; insurances on life and select tables loaded with them")]
