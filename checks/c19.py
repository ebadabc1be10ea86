"""C19 interim reserves connect consecutive year-end reserves."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, life, build, rate
from lib import ref
import actuarialmath as am

RULE = ("cases draw a model with its fractional-age assumption, a policy duration, a fraction of the year (given as r or spilling over from s), a starting reserve, premium and benefit; the year-end "
        "reserve follows from one exact recursion step; the oracle is the fractional-age survival of the model and the accumulation over the part-year; non-trivial = "
        "0 < r < 1, benefit and mortality are not zero")
ASSUMPTIONS = ["the life is selected at issue (duration since selection = policy duration), as in the library", "constant force: not in a year of certain death"]


@st.composite
def strat(draw, tier="quick"):
    L = draw(life(("table", "law", "base", "select", "sult", "ltab")))
    if L["kind"] == "base":
        L["form"], L["maxage"] = draw(st.sampled_from(["S", "l"])), 160
    left = L["left"] if L["left"] is not None else 30
    left += L["s"]
    s = draw(st.integers(0, max(0, min(left - 1, 25))))
    spill = draw(st.integers(0, min(s, 2)))
    return {"life": L, "t": s, "spill": spill, "r": draw(rnd(0, 0.999, 3)), "V": draw(st.sampled_from([0, 0]) | rnd(-1, 8, 2)), "P": draw(rnd(0, 1, 2)),
            "b": draw(st.sampled_from([0, 1, 5]) | rnd(0.1, 20, 1)), "i": draw(rate)}


def check(c):
    L, t, r, V0, P, b = c["life"], c["t"], c["r"], c["V"], c["P"], c["b"]
    i = c["i"]
    v = 1 / (1 + i)
    obj, R = build(L, i)
    x = L["x"]
    if L["kind"] == "base":
        F = ref.FracRef(R, L["udd"])
    elif L["kind"] == "ltab":
        F = R
    else:
        F = R
    p = F.S(x, t, 1)
    if p < 1e-3 or R.S(x, 0, t) <= 0:
        return False
    V1 = ((V0 + P) / v - (1 - p) * b) / p
    call("set_reserves", obj.set_reserves, T=t + 40, V={t: V0, t + 1: V1})
    s, rr = t - c["spill"], r + c["spill"]
    lab = f"(x={x},s={s},r={rr},V={V0},P={P},b={b},i={i})"
    f = num("r_V_forward" + lab, obj.r_V_forward, x, s=s, r=rr, premium=P, benefit=b)
    g = num("r_V_backward" + lab, obj.r_V_backward, x, s=s, r=rr, benefit=b)
    rp = F.S(x, t, r)
    want_f = ((V0 + P) * (1 + i)**r - (1 - rp) * b * v**(1 - r)) / rp
    rest = F.S(x, t, 1) / rp
    want_g = v**(1 - r) * (rest * V1 + (1 - rest) * b)
    tol = 1e-5 * (abs(V0) + P + b) / p
    eq("r_V_forward" + lab, f, want_f, 1e-6, tol)
    eq("r_V_backward" + lab, g, want_g, 1e-6, tol)
    eq("forward = backward" + lab, f, g, 1e-6, 2 * tol)
    # ends of the year
    e = 1e-6
    if p < 0.02:
        return False
    z = dict(rtol=1e-4, atol=tol + 1e-4 / p * (abs(V0) + P + b + abs(V1)))
    eq("start of the year: reserve plus premium" + lab, num("r_V_forward", obj.r_V_forward, x, s=t, r=0, premium=P, benefit=b), V0 + P, 1e-9, 1e-9)
    eq("just after the start" + lab, num("r_V_backward", obj.r_V_backward, x, s=t, r=e, benefit=b), V0 + P, **z)
    eq("just before the end, forwards" + lab, num("r_V_forward", obj.r_V_forward, x, s=t, r=1 - e, premium=P, benefit=b), V1, **z)
    eq("just before the end, backwards" + lab, num("r_V_backward", obj.r_V_backward, x, s=t, r=1 - e, benefit=b), V1, **z)
    o2, _ = build(L, i)
    same("no reserve known", (call("r_V_forward", o2.r_V_forward, x, s=t + 1, r=r, premium=P, benefit=b), call("r_V_backward", o2.r_V_backward, x, s=t + 1, r=r, benefit=b)), (None, None))
    return 0 < r < 1 and b > 0 and p < 1


SUBS = [Sub("interim", lambda tier: strat(), check, 1500, what="interim reserves forwards, backwards, and at both ends of the year")]
