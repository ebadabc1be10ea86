"""C07 expectation of life, curtate/complete/temporary, moments and variance."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, life, build
from lib import ref
from lib.ref import FracRef
import actuarialmath as am

RULE = ("cases draw a model, a start [x]+s, a limit (none, 0, 1, several years, past the end, fractional for complete lifetimes), curtate or "
        "complete, first/second moment/variance; the oracle sums or integrates the survival function; non-trivial = limit is not 0 and survival "
        "to the first year is in (0,1)")
ASSUMPTIONS = ["models survive to their maximum age with probability < 1e-12", "complete expectation of a life table is the UDD value (documented)",
               "select tables are asked for limits inside the table"]


@st.composite
def strat(draw, tier="quick"):
    L = draw(life(("table", "ltab", "law", "base", "select", "sult")))
    left = L["left"] if L["left"] is not None else 60
    if L["kind"] == "base":
        L["form"] = draw(st.sampled_from(["S", "l", "mu"])) if L["law"].get("omega") is None else draw(st.sampled_from(["S", "l"]))
        L["maxage"] = 160
    cur = draw(st.booleans())
    if L["kind"] in ("ltab", "select"):
        cur = True
    if L["kind"] == "table" and not L["t"]["udd"] or L["kind"] == "sult" and not L["udd"]:
        cur = True
    t = draw(st.sampled_from([None, None, 1, 1, 0, 2]) | st.integers(0, max(1, left) + 3))
    if not cur and t is not None and L["kind"] in ("law", "base") and draw(st.booleans()):
        t = round(t + draw(rnd(0, 0.99, 2)), 2)
    if L["kind"] == "select":
        t = 1 if t is None else max(1, min(t, max(left, 0)))
        if left < 1:
            L["s"], L["left"] = 0, L["left"] + L["s"]
            t = 1
    return {"life": L, "t": t, "curtate": cur, "moment": draw(st.sampled_from([1, 1, 1, 2, -2])) if L["kind"] != "select" else 1}


def in_domain(L, R):
    if L["kind"] in ("law", "base") and L["law"].get("omega") is None:
        return R.S(0, L["x"] + L["s"], (160 if L["kind"] == "base" else 1000) - L["x"] - L["s"]) < 1e-12
    return True


def check(c):
    L, t, cur, mo = c["life"], c["t"], c["curtate"], c["moment"]
    obj, R = build(L)
    if not in_domain(L, R):
        return False
    x, s = L["x"], L["s"]
    lim = t
    want = ref.expect(R, x, s, lim, cur, mo)
    kw = {} if mo == 1 and L["kind"] == "select" else {"moment": mo}
    got = num(f"e_x({x},s={s},t={t},curtate={cur},moment={mo})", obj.e_x, x, s=s, curtate=cur, **({} if t is None else {"t": t}), **kw)
    e2 = ref.expect(R, x, s, lim, cur, 2)
    loose = L["kind"] in ("base", "law") and L["law"]["law"] == "beta" and L["law"]["alpha"] < 1
    loose = loose or (mo != 1 and not cur and L["kind"] in ("table", "sult"))       # quadrature over a kinked function
    eq(f"e_x({x},s={s},t={t},curtate={cur},moment={mo})", got, want, 2e-6, (5e-5 if loose else 1e-6) * (1 + e2 if mo != 1 else 1))
    if mo == 1 and t is not None and t >= 1 and t == int(t) and L["kind"] != "select":
        # limited + survival x the rest = whole
        if R.S(x, s, t) > 1e-6 and (L["left"] is None or t < L["left"]):
            w = num("e_x", obj.e_x, x, s=s, curtate=cur)
            rest = num("e_x", obj.e_x, x, s=s + t, curtate=cur)
            eq(f"e = e:{t} + {t}_p e_(x+{t})", w, got + num("p_x", obj.p_x, x, s=s, t=t) * rest, 1e-5, 1e-5)
    if mo == 1 and not cur and t is None:
        k = num("e_x", obj.e_x, x, s=s, curtate=True)
        between("complete expectation", got, k, k + 1, 1e-6)
    return t != 0 and 0 < R.S(x, s, 1) < 1


@st.composite
def s_er(draw, tier="quick"):
    L = draw(life(("table", "ltab", "law", "base", "sult", "select")))
    if L["kind"] == "base":
        L["form"], L["maxage"] = draw(st.sampled_from(["S", "l", "mu"] if L["law"].get("omega") is None else ["S", "l"])), 160
    left = L["left"] if L["left"] is not None else 50
    cfm = not (L.get("t", L).get("udd", True))
    whole = draw(st.booleans())
    if L["kind"] == "select":
        whole = False
    if cfm and L["kind"] in ("table", "ltab"):
        whole = False
        left -= 1
    if L["kind"] == "base" and L["law"].get("omega"):
        left -= 1
        whole = whole and not cfm
    t = None if whole else min(max(left, 0), draw(st.integers(0, max(0, left)))) + 0.
    if t is not None and t < left:
        t = round(t + draw(st.sampled_from([0., 0.5]) | rnd(0, 0.99, 2)), 2)
    return {"life": L, "t": t, "p1": draw(st.booleans()), "r": draw(st.sampled_from([0, 0.5, 1, 1.25]) | rnd(0, 2, 2))}


def check_er(c):
    L, t = c["life"], c["t"]
    if c["p1"] and L["kind"] in ("table", "ltab"):       # a year without deaths
        k = L["x"] + L["s"] - L["t"]["x0"]
        L["t"]["q"][k] = 0.0
    obj, R = build(L)
    if not in_domain(L, R):
        return False
    x, s = L["x"], L["s"]
    if L["kind"] == "base":
        R = FracRef(R, L["udd"])
        if not L["udd"] and any(R.q1(x, s + k) > 0.9999 and R.S(x, s, k) > 1e-9 for k in range(int(R.end(x, s)))):
            return False                        # all but certain death within a year has no constant force
    want = ref.expect(R, x, s, t, False, 1)
    kw = {} if t is None else {"t": t}
    got = num(f"e_r({x},s={s},t={t})", obj.e_r, x, s=s, **kw)
    beta = L["kind"] == "law" and L["law"]["law"] == "beta"
    eq(f"e_r({x},s={s},t={t})", got, want, 1e-5 if beta and L["law"]["alpha"] < 1 else 2e-6, 2e-6)
    if L["kind"] == "law" and not beta:
        r = c["r"]
        got = num(f"e_r({x},s={s},r={r},t={t})", obj.e_r, x, s=s, r=r, **kw)
        eq(f"e_r({x},s={s},r={r},t={t})", got, ref.expect(R, x, s + r, t, False, 1), 2e-6, 2e-6)
    return t != 0 and 0 < R.S(x, s, 1) < 1


@st.composite
def s_mom(draw, tier="quick"):
    L = draw(life(("table", "law", "base", "sult")))
    if L["kind"] == "base":
        L["form"], L["maxage"] = draw(st.sampled_from(["S", "l"])), 160
    t = draw(st.sampled_from([None, 1, 2]) | st.integers(1, 30))
    return {"life": L, "t": t, "curtate": draw(st.booleans())}


def check_mom(c):
    """variance = second moment - mean squared, non-negative, whichever way asked"""
    L, t, cur = c["life"], c["t"], c["curtate"]
    obj, R = build(L)
    if not in_domain(L, R):
        return False
    if not cur and (L["kind"] == "table" and not L["t"]["udd"] or L["kind"] == "sult" and not L["udd"]):
        cur = True
    x, s = L["x"], L["s"]
    kw = dict(s=s, curtate=cur, **({} if t is None else {"t": t}))
    m1, m2, v = (num(f"e_x(moment={m})", obj.e_x, x, moment=m, **kw) for m in (1, 2, obj.VARIANCE))
    eq("Var = E[T^2] - E[T]^2", v, m2 - m1 * m1, 1e-5, 6e-5 * (1 + m2))
    if v < -6e-5 * (1 + m2):
        fail(f"negative variance {v}")
    if t is not None and t == 1 and cur:
        eq("Bernoulli variance", v, R.S(x, s, 1) * (1 - R.S(x, s, 1)), 1e-5, 1e-6)
    return True


SUBS = [Sub("expectation", lambda tier: strat(), check, 1500, what="e_x vs summed/integrated survival; limited + deferred = whole; curtate vs complete"),
        Sub("fractional", lambda tier: s_er(), check_er, 900, what="e_r for whole, fractional limits under UDD/CFM/special laws"),
        Sub("moments", lambda tier: s_mom(), check_mom, 500, what="variance, second moment, mean coherent")]
