"""C34 every payment is discounted from its own date when the discount function varies."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, life, build
from lib import ref
import actuarialmath as am
from checks.c08 import amount, prep, terms
from checks.c09 import ok_domain
from checks.c10 import benefit, bens
from checks import c06
from checks.c26 import lifeM, okm, mref, Ms

RULE = ("cases draw a discount function with v(0)=1 that is not a power (yearly forward rates, hyperbolic, Nelson-Siegel yield curve; sometimes a power, to be compared with "
        "a stated rate), a model, start [x]+s, a contract (insurances, annuities, varying benefits, net premiums, m-thly insurances), term, deferral, amounts, moment or variance, "
        "discrete or continuous; the oracle sums or integrates amount x v(time of payment) x probability; non-trivial = forward rates differ by over 0.2% within the contract and "
        "survival to its middle is in (0,1)")
ASSUMPTIONS = [
               "infinite lifetimes: survivors at the model's maximum age have a present value below 1e-9",
               "variances of annuities and identities that need a rate (twins, equivalence shortcuts) are outside; smooth discount functions when continuous"]


class Curve:
    """a discount function, written like a constant factor: V**t"""
    def __init__(self, d):
        self.d = d
        k = d["k"]
        if k == "fwd":
            r = d["r"]
            acc = [1.]
            for z in r:
                acc.append(acc[-1] / (1 + z))
            n = len(r)

            def f(t):
                j = min(int(math.floor(t)), n - 1) if t >= 0 else 0
                return acc[j] * (1 + r[j]) ** -(t - j)
        elif k == "hyp":
            def f(t):
                return (1 + d["a"] * t) ** -d["p"]
        elif k == "ns":
            def f(t):
                return math.exp(-d["a"] * t - d["b"] * (1 - math.exp(-t * d["h"])))
        else:
            def f(t):
                return (1 + d["i"]) ** -t
        self.f = f

    def __pow__(self, t):
        return self.f(t)

    def bends(self, lo, hi):
        fw = [self.f(z) / self.f(z + 1) for z in range(int(lo), int(max(hi, lo + 1)))]
        return len(fw) > 1 and max(fw) - min(fw) > .002


def curve(smooth=False):
    ns = st.fixed_dictionaries({"k": st.just("ns"), "a": rnd(.02, .1, 3), "b": rnd(-.02, .2, 3), "h": rnd(.1, 1, 1)})
    hyp = st.fixed_dictionaries({"k": st.just("hyp"), "a": rnd(.02, .2, 2), "p": rnd(1, 3, 1)})
    pw = st.fixed_dictionaries({"k": st.just("pow"), "i": rnd(.01, .12, 3)})
    fwd = st.fixed_dictionaries({"k": st.just("fwd"), "r": st.lists(rnd(0, .12, 3), min_size=2, max_size=8).map(lambda r: r[:-1] + [max(r[-1], .02)])})
    return st.one_of(ns, hyp, pw) if smooth else st.one_of(fwd, fwd, ns, hyp, pw)


KINDS = ("table", "ltab", "law", "base", "select", "sult")
INS = ["E", "term", "deferred_t", "endow", "A", "inc", "dec"]
ANN = ["a_temp", "a_deferred_t", "a_x", "a_imm", "a_inc", "a_dec"]
WH = ["whole", "deferred", "a_whole", "a_deferred"]


@st.composite
def strat(draw, tier="quick"):
    disc = draw(st.sampled_from([True, True, True, False]))
    if disc:
        kind = draw(st.sampled_from(KINDS))
        L = prep(draw, draw(life((kind,), laws=("gompertz", "makeham", "beta", "cf", "uniform") if kind == "law" else None)))
    else:
        kind = draw(st.sampled_from(["law", "base", "table"]))
        L = draw(life((kind,), maxlen=8, laws=("gompertz", "makeham", "beta", "cf", "uniform") if kind == "law" else None))
        if kind == "base":
            L["form"], L["maxage"] = draw(st.sampled_from(["S+f", "l+f"] if L["law"].get("omega") else ["S+f", "S+mu"])), 160
    if kind == "law" and draw(st.integers(0, 3)) == 0:
        L["asbeta"] = True
    prod = draw(st.sampled_from(INS + ANN + ([] if kind == "select" else WH + ["P", "P"])))
    u, t = terms(draw, L, "deferred" in prod or prod in ("A", "a_x", "P"))
    if prod in ("dec", "a_dec", "P"):
        t = max(1, t)
    if not disc and L["left"] is not None and L["kind"] == "base" and u + t >= L["left"]:
        u, t = 0, max(1, min(t, L["left"] - 1))
    mo = draw(st.sampled_from([1, 1, 2, -2])) if prod in ("E", "term", "deferred_t", "endow", "A", "whole", "deferred") else 1
    if prod == "A" and mo < 0:
        mo = 2
    if kind == "select" and prod != "E":
        mo = 1
    ben = draw(bens)
    if not disc and ben["k"] == "step":
        ben["k"] = "lin"
    return {"life": L, "v": draw(curve(not disc)), "prod": prod, "u": u, "t": t, "b": draw(amount), "end": draw(amount), "mo": mo, "disc": disc, "ben": ben,
            "rate": draw(st.sampled_from([.03, .1])), "before": draw(st.booleans())}


def okv(L, R, V):
    if L["kind"] in ("law", "base") and L["law"].get("omega") is None:
        n = (160 if L["kind"] == "base" else 1000) - L["x"] - L["s"]
        return R.S(L["x"], L["s"], n) * (V ** n) * 100 < 1e-9
    return True


def oracle(c, R, V, x, s):
    p, u, t, b, e, disc, d = c["prod"], c["u"], c["t"], c["b"], c["end"], c["disc"], int(c["disc"])
    ben = benefit(c["ben"])
    k = dict(discrete=disc)
    one = lambda z: b

    def m(j):
        if p == "E":
            return (e * V ** t) ** j * R.S(x, s, t)
        if p == "whole":
            return ref.ins(R, V, x, s, b=one, moment=j, **k)
        if p == "deferred":
            return ref.ins(R, V, x, s, u=u, b=one, moment=j, **k)
        if p == "term":
            return ref.ins(R, V, x, s, t=t, b=one, moment=j, **k)
        if p == "deferred_t":
            return ref.ins(R, V, x, s, u=u, t=t, b=one, moment=j, **k)
        if p == "endow":
            return ref.ins(R, V, x, s, t=t, b=one, moment=j, end=e, **k)
        if p == "A":
            return ref.ins(R, V, x, s, t=t, u=u, b=lambda z: ben(x + s, z), moment=j, end=e, **k)
        if p == "inc":
            return ref.ins(R, V, x, s, t=t, b=lambda z: b * z, **k)
        return ref.ins(R, V, x, s, t=t, b=lambda z: b * (t + d - z), **k)     # dec
    if p in INS or p in ("whole", "deferred"):
        m1 = m(1)
        return m1 if c["mo"] == 1 else m(2) if c["mo"] == 2 else m(2) - m1 * m1
    if p == "a_temp":
        return ref.ann(R, V, x, s, t=t, b=one, **k)
    if p == "a_whole":
        return ref.ann(R, V, x, s, b=one, **k)
    if p == "a_deferred":
        return ref.ann(R, V, x, s, u=u, b=one, **k)
    if p == "a_deferred_t":
        return ref.ann(R, V, x, s, u=u, t=t, b=one, **k)
    if p == "a_x":
        return ref.ann(R, V, x, s, u=u, t=t, b=lambda z: ben(x + s, z), **k)
    if p == "a_imm":
        return ref.ann(R, V, x, s, t=t + 1, b=lambda z: b if z else 0.)
    if p == "a_inc":
        return ref.ann(R, V, x, s, t=t, b=lambda z: b * (z + d), **k)
    if p == "a_dec":
        return ref.ann(R, V, x, s, t=t, b=lambda z: b * (t - z), **k)
    A = ref.ins(R, V, x, s, t=t, u=u, b=one, end=e, **k)
    return A / ref.ann(R, V, x, s, t=u or t, **k)


def lib(c, obj, x, s):
    p, u, t, b, e, disc, mo = c["prod"], c["u"], c["t"], c["b"], c["end"], c["disc"], c["mo"]
    ben = benefit(c["ben"])
    k = dict(s=s, discrete=disc)
    m = {} if mo == 1 else {"moment": mo}
    lab = f"{p}(x={x},s={s},u={u},t={t},b={b},endowment={e},moment={mo},discrete={disc}, v_t={c['v']})"
    f = {"E": lambda: obj.E_x(x, s=s, t=t, endowment=e, **m),
         "whole": lambda: obj.whole_life_insurance(x, b=b, **k, **m),
         "deferred": lambda: obj.deferred_insurance(x, u=u, b=b, **k, **m),
         "term": lambda: obj.term_insurance(x, t=t, b=b, **k, **m),
         "deferred_t": lambda: obj.deferred_insurance(x, u=u, t=t, b=b, **k, **m),
         "endow": lambda: obj.endowment_insurance(x, t=t, b=b, endowment=e, **k, **m),
         "A": lambda: obj.A_x(x, t=t, u=u, benefit=ben, endowment=e, **k, **m),
         "inc": lambda: obj.increasing_insurance(x, t=t, b=b, **k),
         "dec": lambda: obj.decreasing_insurance(x, t=t, b=b, **k),
         "a_temp": lambda: obj.temporary_annuity(x, t=t, b=b, **k),
         "a_whole": lambda: obj.whole_life_annuity(x, b=b, **k),
         "a_deferred": lambda: obj.deferred_annuity(x, u=u, b=b, **k),
         "a_deferred_t": lambda: obj.deferred_annuity(x, u=u, t=t, b=b, **k),
         "a_x": lambda: obj.a_x(x, t=t, u=u, benefit=ben, **k),
         "a_imm": lambda: obj.immediate_annuity(x, s=s, t=t, b=b),
         "a_inc": lambda: obj.increasing_annuity(x, t=t, b=b, **k),
         "a_dec": lambda: obj.decreasing_annuity(x, t=t, b=b, **k),
         "P": lambda: obj.net_premium(x, t=t, u=u, b=b, endowment=e, **k)}[p]
    return num(lab, f)


def check(c):
    L, u, t, disc = c["life"], c["u"], c["t"], c["disc"]
    V = Curve(c["v"])
    obj, R = build(L, c["rate"] if c["before"] else None)
    if not okv(L, R, V) or not disc and not ok_domain(L, R, 1 / 1.5):
        return False
    x, s = L["x"], L["s"]
    call("set_interest(v_t)", obj.set_interest, v_t=V.f)
    if c["prod"] == "P" and ref.ann(R, V, x, s, t=u or t, discrete=disc) < .05:
        return False
    got, w = lib(c, obj, x, s), oracle(c, R, V, x, s)
    B = max(abs(c["b"]), abs(c["end"]))
    if c["prod"] in ("A", "a_x"):
        B = max(B, 200)
    if c["prod"] in ("inc", "dec", "a_inc", "a_dec"):
        B *= 10
    r = 2e-6 if disc else 4e-5
    lab = f"{c['prod']} x={x} s={s} u={u} t={t} b={c['b']} end={c['end']} moment={c['mo']} discrete={disc} v_t={c['v']}"
    eq(lab, got, w, r, r * .3 * B ** (1 if c["mo"] == 1 else 2) * (10 if c["prod"][:2] in ("a_", "P") else 1))
    if c["v"]["k"] == "pow":            # a power is a level rate
        obj2, _ = build(L, c["v"]["i"])
        if c["prod"] not in ("whole", "a_whole", "deferred", "a_deferred", "P") or L["left"] is not None:
            eq("v_t a power = level rate: " + lab, got, lib(c, obj2, x, s), r, r * B ** (1 if c["mo"] == 1 else 2) * 10)
    hi = u + t if c["prod"] not in ("whole", "a_whole", "deferred", "a_deferred") else u + 20
    return V.bends(0, hi) and 1e-6 < R.S(x, s, max(1, hi // 2)) < 1 - 1e-9


@st.composite
def s_m(draw, tier="quick"):
    L = draw(lifeM(("table", "ltab", "base", "sult", "select")))
    left = L["left"] if L["left"] is not None else 45
    prod = draw(st.sampled_from(["whole", "term", "deferred", "deferred_t", "endow", "A", "E"]))
    u = draw(st.integers(0, max(0, left))) if "deferred" in prod or prod == "A" else 0
    t = draw(st.sampled_from([1, 2, 5]) | st.integers(0, max(1, left - u) + 2))
    mo = draw(st.sampled_from([1, 1, 2, -2]))
    if prod in ("E", "A") and mo < 0:
        mo = 2
    if L["kind"] == "select":
        mo = 1
    return {"life": L, "m": draw(st.sampled_from(Ms)), "prod": prod, "u": u, "t": t, "b": draw(amount), "end": draw(amount), "g": draw(rnd(0, .1, 2)), "mo": mo,
            "v": draw(curve())}


def check_m(c):
    """m-thly insurances; present values at issue of a payment on death"""
    from checks import c26
    L, m = c["life"], c["m"]
    V = Curve(c["v"])
    obj, R = build(L)
    if not okm(L, R, 1 / 1.0001, c["u"] + c["t"], c["u"]) or not okv(L, R, V):
        return False
    call("set_interest(v_t)", obj.set_interest, v_t=V.f)
    Q = mref(L, R)
    x, s = L["x"], L["s"]
    M = call("Mthly", am.Mthly, m=m, life=obj)
    got = c26.lib(c, M, x, s)
    if c["mo"] < 0:
        m1, m2 = c26.want(c, Q, V, x, s, 1), c26.want(c, Q, V, x, s, 2)
        w = m2 - m1 * m1
    else:
        w = c26.want(c, Q, V, x, s, c["mo"])
    eq(f"m={m} {c['prod']} x={x} s={s} u={c['u']} t={c['t']} b={c['b']} end={c['end']} moment={c['mo']} v_t={c['v']}", got, w, 2e-6, 6e-7 * c26.scale(c, .05))
    for k in (0, 1, m, 5 * m + 1):
        eq(f"v_m({k})", call("v_m", M.v_m, k), V ** (k / m), 1e-12, 1e-12)
    for t in (0, .25, 1, 2.5, 7):
        eq(f"Z_from_t({t})", call("Z_from_t", obj.Z_from_t, t), V ** (math.floor(t) + 1), 1e-12, 1e-12)
        eq(f"Z_from_t({t}) continuous", call("Z_from_t", obj.Z_from_t, t, discrete=False), V ** t, 1e-12, 1e-12)
    for t in range(0, min(5, L["left"] or 5) if L["kind"] != "select" else 0):
        eq(f"Z_x at {t}", call("Z_x", obj.Z_x, x, s=s, t=t), (R.S(x, s, t) - R.S(x, s, t + 1)) * V ** (t + 1), 1e-6, 1e-9)
        eq(f"Y_x at {t}", call("Y_x", obj.Y_x, x, s=s, t=t), R.S(x, s, t) * V ** t, 1e-6, 1e-9)
    mid = c["u"] + max(1, c["t"] // 2)
    return V.bends(0, c["u"] + c["t"]) and 1e-6 < Q.S(x, s, mid) < 1 - 1e-9


SUBS = [Sub("contracts", lambda tier: strat(), check, 3000, what="every contract under a varying discount function vs payments discounted from their own dates"),
        Sub("mthly", lambda tier: s_m(), check_m, 1000, what="m-thly insurances, Z_m, Z_from_t, Z_x, Y_x under a varying discount function")]


# ------------------------------------------------------------------ pure endowments over fractions of a year
@st.composite
def s_frac(draw, tier="quick"):
    c = draw(c06.strat())
    return dict(c, v=draw(curve()), before=draw(st.booleans()), m=draw(st.sampled_from([1, 2, 3, 4, 12])), k=draw(st.integers(0, 60)))


def check_frac(c):
    L, r, t, V = c["life"], c["r"], c["t"], Curve(c["v"])
    obj, R = c06.refmodel(dict(c, i=.05 if c["before"] else None))
    x, s = L["x"], L["s"]
    if not c06.alive(L, R, r) or (L["kind"] == "base" and not c06.alive(L, R, r + t)):
        return False
    call("set_interest(v_t)", obj.set_interest, v_t=V.f)
    eq(f"E_r({x},s={s},r={r},t={t}), v_t={c['v']}", num("E_r", obj.E_r, x, s=s, r=r, t=t), R.S(x, s, r + t) / R.S(x, s, r) * V**t, **c06.tols(L))
    y = call("Mthly", am.Mthly, m=c["m"], life=obj)
    eq(f"v_m({c['k']}) m={c['m']}, v_t={c['v']}", num("v_m", y.v_m, c["k"]), V ** (c["k"] / c["m"]), 1e-9)
    eq(f"interest.v_t, v_t={c['v']}", num("v_t", obj.interest.v_t, t), V**t, 1e-12)
    return t % 1 > 0 and V.bends(0, max(2, t))


SUBS.append(Sub("fractional", lambda tier: s_frac(), check_frac, 400, what="pure endowments over fractions of a year, m-thly discount factors"))
