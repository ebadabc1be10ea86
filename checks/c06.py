"""C06 fractional ages follow the declared assumption (UDD / constant force / the law itself)."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, life, build, rate
from lib.ref import FracRef
import actuarialmath as am

RULE = ("cases draw a model and assumption (UDD or constant force between ages, or the law itself for special laws), a start [x]+s, fractional "
        "offset r (possibly over a year), durations t and u (several years); non-trivial = r or t or u is not an integer and survival is in (0,1)")
ASSUMPTIONS = ["instantaneous quantities (mu_r, f_r) are asked strictly inside a year of age, where the density is unambiguous, and not in a "
               "year of certain death under constant force", "somebody is alive at the starting age"]
KINDS = ("table", "ltab", "law", "base", "select", "sult")
frac = st.sampled_from([0., .25, .5, .75, .25, .5, .75, .9996, .0004, .99995]) | rnd(0, 0.99, 2) | rnd(0, 0.999, 3)


@st.composite
def strat(draw, tier="quick"):
    L = draw(life(KINDS))
    left = L["left"] if L["left"] is not None else 50
    if L["kind"] == "base":
        left = left - 2 if L["law"].get("omega") else 40
    ints = lambda hi: st.integers(0, max(0, min(3, hi))) | st.integers(0, max(0, hi))
    r = draw(ints(left - 1)) + draw(frac)
    room = left - math.ceil(r)
    t = draw(ints(room - 1)) + draw(frac)
    u = draw(ints(room - math.ceil(t) - 1)) + draw(frac)
    if room < 1:
        t = u = 0.
    elif math.ceil(r + t + u + 1e-9) > left:
        u = 0.
        if math.ceil(r + t + 1e-9) > left:
            t = 0.
    return {"life": L, "r": round(r, 5), "t": round(t, 5), "u": round(u, 5), "i": draw(rate)}


def refmodel(c):
    L = c["life"]
    obj, R = build(L, c.get("i"))
    if L["kind"] == "base":
        R = FracRef(R, L["udd"])
    return obj, R


def tols(L):
    if L["kind"] == "base" and L["form"] in ("f", "mu"):
        return dict(rtol=1e-5, atol=3e-6)
    return dict(rtol=2e-6, atol=1e-7)


def alive(L, R, r):
    """survival so far is well above the rounding of the model"""
    if L["kind"] in ("base", "law", "sult"):
        return R.S(0 if L["kind"] != "sult" else L["sult"]["minage"], 0,
                   L["x"] + L["s"] + r - (L["sult"]["minage"] if L["kind"] == "sult" else 0)) > 1e-3
    return R.S(L["x"], L["s"], r) > 1e-4


def check(c):
    L, r, t, u = c["life"], c["r"], c["t"], c["u"]
    obj, R = refmodel(c)
    x, s = L["x"], L["s"]
    if not alive(L, R, r) or (L["kind"] == "base" and not alive(L, R, r + t + u)):
        return False
    tol = tols(L)
    S = lambda z: R.S(x, s, z)
    S0 = S(r)
    p = lambda t, r=r, s=s: num(f"p_r({x},s={s},r={r},t={t})", obj.p_r, x, s=s, r=r, t=t)
    eq(f"p_r({x},s={s},r={r},t={t})", p(t), S(r + t) / S0, **tol)
    eq("p_r at t=0", p(0.), 1.0, 1e-9)
    eq(f"q_r({x},s={s},r={r},t={t})", num("q_r", obj.q_r, x, s=s, r=r, t=t), 1 - S(r + t) / S0, **tol)
    eq(f"q_r({x},s={s},r={r},t={t},u={u})", num("q_r", obj.q_r, x, s=s, r=r, t=t, u=u), (S(r + u) - S(r + u + t)) / S0, **tol)
    eq("E_r", num("E_r", obj.E_r, x, s=s, r=r, t=t), S(r + t) / S0 * (1 + c["i"])**-t, **tol)
    # lives at fractional ages, relative to lives at the start
    l = lambda r: num(f"l_r({x},s={s},r={r})", obj.l_r, x, s=s, r=r)
    if L["kind"] != "law" or L["law"].get("omega"):
        if L["kind"] != "law" or r + t < L["left"]:
            eq(f"l_r({r + t})/l_r({r})", l(r + t) / l(r), S(r + t) / S0, **tol)
    if L["kind"] in ("table", "sult", "select"):        # the model's own survival function, lives and density
        for z in (r, round(r + t, 6)):
            eq(f"S({x},{s},{z})", num("S", obj.S, x, s, z), S(z), **tol)
            eq(f"l({x},{s}+{z})/l", num("l", obj.l, x, s + z) / num("l", obj.l, x, s), S(z), **tol)
            if 1e-6 < z % 1 < 1 - 1e-6 and (R.udd or R.q1(x, s + math.floor(z)) < .9999):
                eq(f"f({x},{s},{z})", num("f", obj.f, x, s, z), R.f(x, s, z), 1e-5, 1e-6)
    # whole-year offsets may be given through s or r
    k = math.floor(r)
    if k:
        eq("p_r: r = k + r' is s+k, r'", p(t, r=round(r - k, 6), s=s + k), p(t), 1e-8, 1e-9)
    # chain rule over a fractional split
    if 0 < u and S(r + u) > 1e-4:
        eq(f"p_r({u}+{t}) = p_r({u}) p_r({t})", p(round(u + t, 6)), p(u) * p(t, r=round(r + u, 6)), 3e-6, 1e-6)
    return bool(r % 1 or t % 1 or u % 1) and 1e-9 < S(r + t) / S0 < 1 - 1e-9


@st.composite
def s_inst(draw, tier="quick"):
    c = draw(strat())
    return c


def check_inst(c):
    """force and density strictly inside a year of age"""
    L, r, t, u = c["life"], c["r"], c["t"], 0
    obj, R = refmodel(c)
    x, s = L["x"], L["s"]
    if not alive(L, R, r) or (L["kind"] == "base" and not alive(L, R, r + t + u)):
        return False
    law = L["kind"] == "law"
    tol = dict(rtol=1e-5, atol=1e-6)
    ok = False
    fr = round(r % 1, 6)
    cfm1 = (not law) and (not R.udd)
    if 0 < fr < 1 or law:
        if not (cfm1 and R.q1(x, s + math.floor(r)) > 0.9999):
            if not (law and L["law"].get("omega") and r >= L["left"]):
                eq(f"mu_r({x},s={s},r={r})", num("mu_r", obj.mu_r, x, s=s, r=r), R.mu(x, s + r) if law else mu_sel(R, x, s, r), **tol)
                ok = True
    z = round((r + t) % 1, 6)
    if 0 < z < 1 or law:
        if not (cfm1 and R.q1(x, s + math.floor(r + t)) > 0.9999) and not (law and L["law"].get("omega") and r + t >= L["left"]):
            want = R.f(x, s, r + t) / R.S(x, s, r)
            eq(f"f_r({x},s={s},r={r},t={t})", num("f_r", obj.f_r, x, s=s, r=r, t=t), want, **tol)
            # density = survival x force (checked against the library's own p_r, mu_r)
            if 0 < z and want > 0:
                eq("f_r = p_r mu_r", num("p_r", obj.p_r, x, s=s, r=r, t=t) * num("mu_r", obj.mu_r, x, s=s, r=round(r + t, 6)), want, **tol)
            ok = True
    return ok


def mu_sel(R, x, s, r):
    k = math.floor(r + 1e-12)
    q = R.q1(x, s + k)
    f = r - k
    return q / (1 - f * q) if R.udd else -math.log(1 - q)


@st.composite
def s_appr(draw, tier="quick"):
    return {"e": draw(rnd(0, 90, 2)), "var": draw(st.booleans())}


def check_appr(c):
    F = am.Fractional.e_approximate
    k = 1 / 12 if c["var"] else 0.5
    a = num("e_approximate", F, e_curtate=c["e"], variance=c["var"])
    eq("complete from curtate", a, c["e"] + k, 1e-12)
    eq("round trip", num("e_approximate", F, e_complete=a, variance=c["var"]), c["e"], 1e-9, 1e-9)
    return True


SUBS = [Sub("interval", lambda tier: strat(), check, 2000, what="p_r, q_r (deferred), l_r, E_r vs interpolated reference; chain; r vs s offsets"),
        Sub("instant", lambda tier: s_inst(), check_inst, 1400, what="mu_r, f_r inside a year of age"),
        Sub("e_approx", lambda tier: s_appr(), check_appr, 100, what="curtate/complete approximation round trip")]


# ------------------------------------------------------------------ terms that end after the last age
@st.composite
def s_after(draw, tier="quick"):
    L = draw(life(("table", "table", "table", "ltab", "sult", "law"), laws=("uniform", "beta")))
    left = L["left"] if L["left"] is not None else None
    if left is None or left < 1:
        return {"life": L, "skip": True}
    r = draw(st.integers(0, left - 1)) + draw(frac)
    over = draw(rnd(0, 3, 2) | st.integers(0, 40))
    return {"life": L, "skip": False, "r": round(r, 5), "t": round(left - r + over, 5), "u": round(draw(rnd(0, 1, 2)) * (left - r), 3), "i": draw(rate)}


def check_after(c):
    """nobody survives beyond the last age"""
    if c["skip"]:
        return False
    L, r, t, u = c["life"], c["r"], c["t"], c["u"]
    obj, R = refmodel(c)
    x, s = L["x"], L["s"]
    if not alive(L, R, r):
        return False
    tol = tols(L)
    lab = f"({x},s={s},r={r},t={t}) with {L['left']} years to the last age"
    eq("p_r" + lab, num("p_r" + lab, obj.p_r, x, s=s, r=r, t=t), 0., 0, 1e-7)
    eq("q_r" + lab, num("q_r" + lab, obj.q_r, x, s=s, r=r, t=t), 1., 1e-7)
    eq("E_r" + lab, num("E_r" + lab, obj.E_r, x, s=s, r=r, t=t), 0., 0, 1e-7)
    eq(f"q_r(u={u})" + lab, num(f"q_r(u={u})" + lab, obj.q_r, x, s=s, r=r, t=t, u=u), R.S(x, s, r + u) / R.S(x, s, r), **tol)
    eq(f"q_r(t={u},u={t})" + lab, num("q_r deferred" + lab, obj.q_r, x, s=s, r=r, t=u, u=t), 0., 0, 1e-7)
    if L["kind"] != "law":
        eq("l_r" + lab, num("l_r" + lab, obj.l_r, x, s=s, r=r + t), 0., 0, 1e-4 * num("l_r", obj.l_r, x, s=s, r=r))
        eq("S" + lab, num("S" + lab, obj.S, x, s, r + t), 0., 0, 1e-7)
    return t % 1 > 0 or r % 1 > 0


SUBS.append(Sub("after", lambda tier: s_after(), check_after, 400, what="terms that end after the last age"))
