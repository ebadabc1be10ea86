"""C12 present-value random variables, their inverses and their distribution agree."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, life, build, rate, rate0, law
from lib import ref
import actuarialmath as am

RULE = ("cases draw a life of any kind, an age, interest (zero for annuities), a probability and a time; the oracle is an independent "
        "survival function and the closed form of the present value; non-trivial = probability in (0.01, 0.99) and the percentile falls after the first year")
ASSUMPTIONS = ["discrete percentiles: the survival function does not cross the level within 1e-4 of a whole year",
               "integer arguments: ages"]


@st.composite
def lifeS(draw):
    L = draw(life(("law", "law", "base", "table", "select", "sult")))
    if L["kind"] == "select":           # certain death at the end of the table
        L["t"]["rows"][-1][-1] = 1.
    if L["kind"] == "base":
        L["form"], L["maxage"] = draw(st.sampled_from(["S", "l", "S+mu"] if not L["law"].get("omega") else ["S", "l"])), 160
    return L


@st.composite
def strat(draw, tier="quick"):
    return {"life": draw(lifeS()), "i": draw(rate | st.sampled_from([2e-5, 1e-4, 5e-4, .002])), "prob": draw(rnd(0.005, 0.995, 3)), "t": draw(rnd(0, 40, 2) | st.integers(0, 40)),
            "zero": draw(st.integers(0, 5)) == 0}


def inv(R, x, p):
    """time t with S(t) = p by bisection on the reference law"""
    lo, hi = 0., R.end(x, 0) + 1.
    for _ in range(80):
        m = (lo + hi) / 2
        if R.S(x, 0, m) > p:
            lo = m
        else:
            hi = m
    return (lo + hi) / 2


def clear(R, x, p, T):
    """the survival function crosses p inside one year (no year without deaths stays at p)"""
    return 1e-4 < T % 1 < 1 - 1e-4 and math.floor(inv(R, x, p + 1e-5)) == math.floor(inv(R, x, p - 1e-5))


def beyond(L, x, T, R=None):
    if R is not None and L["kind"] in ("table", "select") and not L["t"]["udd"]:
        k = math.floor(T + 1e-6)        # constant force is undefined in a year of certain death
        return R.S(x, 0, k + 1) < .01 * R.S(x, 0, k)
    return L["kind"] == "base" and not L["law"].get("omega") and T > 155 - x


def check_Z(c):
    L, i, p, t = c["life"], c["i"], c["prob"], c["t"]
    v = 1 / (1 + i)
    obj, R = build(L, i)
    x = L["x"]
    T = inv(R, x, p)
    if beyond(L, x, T, R):
        return False
    got = num(f"Z_t(prob={p})", obj.Z_t, x, prob=p, discrete=False)
    eq(f"S(Z_t(prob))", R.S(x, 0, got), p, 0, 2e-6)
    Z = num("Z_from_prob", obj.Z_from_prob, x, prob=p, discrete=False)
    eq("Z_from_prob = v^T", Z, v**got, 1e-6, 1e-7)
    eq("Z_to_t(Z_from_prob)", num("Z_to_t", obj.Z_to_t, Z), got, 1e-5, 1e-5)
    eq("Z_to_prob(Z_from_prob(prob))", num("Z_to_prob", obj.Z_to_prob, x, Z), p, 0, 1e-5)
    if clear(R, x, p, T):
        k = num(f"Z_t(prob={p},discrete)", obj.Z_t, x, prob=p, discrete=True)
        eq("Z_t discrete = floor(T): S(K) >= prob > S(K+1)", k, math.floor(T), 0, 0)
        eq("Z_from_prob discrete = v^(K+1)", num("Z_from_prob", obj.Z_from_prob, x, prob=p, discrete=True), v**(math.floor(T) + 1), 1e-9)
    # at a given time of death
    eq(f"Z_from_t({t})", num("Z_from_t", obj.Z_from_t, t, discrete=False), v**t, 1e-12)
    eq(f"Z_from_t({t},discrete)", num("Z_from_t", obj.Z_from_t, t), v**(math.floor(t) + 1), 1e-12)
    eq("Z_to_t(Z_from_t(t))", num("Z_to_t", obj.Z_to_t, v**t), t, 1e-9, 1e-9)
    if not beyond(L, x, t, R) and abs(R.end(x, 0) - t) > 1e-6 and (R.end(x, 0) > t or L["kind"] == "law"):
        eq(f"Z_to_prob(v^{t})", num("Z_to_prob", obj.Z_to_prob, x, v**t), R.S(x, 0, t), 1e-6, 1e-8)
    return 0.01 < p < 0.99 and T > 1


def check_Y(c):
    L, i, p, t = c["life"], c["i"] * (not c["zero"]), c["prob"], c["t"]
    v = 1 / (1 + i)
    obj, R = build(L, i)
    x = L["x"]
    T = inv(R, x, 1 - p)
    if beyond(L, x, T, R):
        return False
    ac = lambda z: ref.annsum(v, z, False)
    ad = lambda n: ref.annsum(v, n, True)
    got = num(f"Y_t(prob={p})", obj.Y_t, x, prob=p, discrete=False)
    eq("1 - S(Y_t(prob))", 1 - R.S(x, 0, got), p, 0, 2e-6)
    Y = num("Y_from_prob", obj.Y_from_prob, x, prob=p, discrete=False)
    eq("Y_from_prob = annuity-certain for T", Y, ac(got), 1e-6, 1e-7)
    ill = 1e-13 / v**got if i else 0.
    if ill > 1e-3:
        return False               # 1 - delta Y has lost its digits
    eq("Y_to_t(Y_from_prob)", num("Y_to_t", obj.Y_to_t, Y), got, 1e-5, 1e-5 + ill / 0.005)
    eq("Y_to_prob(Y_from_prob(prob))", num("Y_to_prob", obj.Y_to_prob, x, Y), p, 0, 1e-5)
    if clear(R, x, 1 - p, T):
        k = num(f"Y_t(prob={p},discrete)", obj.Y_t, x, prob=p, discrete=True)
        eq("Y_t discrete = ceil(T): S(K) <= 1-prob", k, math.ceil(T), 0, 0)
        eq("Y_from_prob discrete: smallest y with Pr(Y<=y) >= prob", num("Y_from_prob", obj.Y_from_prob, x, prob=p, discrete=True), ad(math.ceil(T)), 1e-9)
    eq(f"Y_from_t({t})", num("Y_from_t", obj.Y_from_t, t, discrete=False), ac(t), 1e-9)
    eq(f"Y_from_t({t},discrete)", num("Y_from_t", obj.Y_from_t, t), ad(math.floor(t) + 1), 1e-9)
    eq("Y_to_t(Y_from_t(t))", num("Y_to_t", obj.Y_to_t, ac(t)), t, 1e-6, 1e-6)
    if not beyond(L, x, t, R) and abs(R.end(x, 0) - t) > 1e-6 and (R.end(x, 0) > t or L["kind"] == "law"):
        eq(f"Y_to_prob(a{t})", num("Y_to_prob", obj.Y_to_prob, x, ac(t)), 1 - R.S(x, 0, t), 1e-6, 1e-7)
    return 0.01 < p < 0.99 and T > 1


@st.composite
def s_epv(draw, tier="quick"):
    L = draw(life(("table", "law", "base", "select", "sult")))
    if L["kind"] == "base":
        L["form"], L["maxage"] = draw(st.sampled_from(["S", "l", "S+f"])), 160
    left = L["left"] if L["left"] is not None else 45
    k = draw(st.integers(0, max(0, left - 1)))
    return {"life": L, "i": draw(rate0), "k": k, "r": draw(rnd(0, 0.99, 2))}


def check_epv(c):
    """Z_x, Y_x: expected present value of the benefit of one year (or instant)"""
    L, i, k, r = c["life"], c["i"], c["k"], c["r"]
    v = 1 / (1 + i)
    obj, R = build(L, i)
    x, s = L["x"], L["s"]
    t = k + r
    eq(f"Z_x(x={x},s={s},t={t})", num("Z_x", obj.Z_x, x, s=s, t=t), v**(k + 1) * R.tq(x, s, 1, k), 1e-6, 1e-9)
    eq(f"Y_x(x={x},s={s},t={t})", num("Y_x", obj.Y_x, x, s=s, t=t), v**k * R.S(x, s, k), 1e-6, 1e-9)
    F = R
    if L["kind"] == "base":
        F = ref.FracRef(R, L["udd"])
    cfm = L["kind"] in ("table", "select", "base") and not F.udd
    if cfm and (F.q1(x, s + k) > 0.99 or k > 0 and F.q1(x, s + k - 1) > 0.99):
        return False
    eq(f"Y_x(x={x},s={s},t={t},continuous)", num("Y_x", obj.Y_x, x, s=s, t=t, discrete=False), v**t * F.S(x, s, t), 1e-5, 1e-8)
    if r == 0 and L["kind"] != "law":
        return False                # the density jumps at whole years
    eq(f"Z_x(x={x},s={s},t={t},continuous)", num("Z_x", obj.Z_x, x, s=s, t=t, discrete=False), v**t * F.f(x, s, t), 1e-5, 1e-8)
    return r > 0 and k > 0 and 1e-6 < R.S(x, s, k) < 1 - 1e-6


SUBS = [Sub("insurance", lambda tier: strat(), check_Z, 900, what="Z(t), its inverse, probability and percentile vs the law"),
        Sub("annuity", lambda tier: strat(), check_Y, 900, what="Y(t), its inverse, probability and percentile vs the law"),
        Sub("yearly_epv", lambda tier: s_epv(), check_epv, 700, what="Z_x and Y_x are one year's discounted probability, also at fractional times")]
