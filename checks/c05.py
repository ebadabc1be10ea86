"""C05 laws of annual survival and mortality probabilities, in every model of mortality."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, life, build
import actuarialmath as am

RULE = ("cases draw a model (life table UDD/CFM, lives function, survival function/force/density/lives form of a law, select table, SULT, "
        "Makeham/Gompertz/exponential/beta/uniform class), a start [x]+s and integer durations, some past the end of the table; "
        "non-trivial = survival to one of the durations lies strictly between 0 and 1")
ASSUMPTIONS = ["life tables end with q=1 except where durations stay inside the table; nobody survives the year after the oldest age of a select table"]
KINDS = ("table", "ltab", "law", "base", "select", "sult")


@st.composite
def strat(draw, tier="quick"):
    L = draw(life(KINDS))
    left = L["left"] if L["left"] is not None else 60
    over = 3
    ts = draw(st.lists(st.integers(0, max(0, left) + over), min_size=2, max_size=2))
    u = draw(st.integers(0, max(0, left)))
    t = draw(st.integers(0, max(0, left - u) + over))
    if L["kind"] == "base" and L["law"].get("omega") and L["form"] in ("S", "f", "mu"):
        # functions given by the user are only meaningful before the limiting age
        lim = L["left"] - (1 if L["form"] != "S" else 0)
        ts, u = [min(z, lim) for z in ts], min(u, lim)
        t = min(t, lim - u)
    return {"life": L, "ts": ts, "u": u, "t": t}


def tols(c):
    L = c["life"]
    if L["kind"] == "base" and L["form"] in ("f", "mu"):
        return dict(rtol=2e-6, atol=2e-6)
    if L["kind"] in ("table", "select", "sult"):
        return dict(rtol=1e-6, atol=1e-8)
    return dict(rtol=1e-8, atol=1e-9)


def check(c):
    L = c["life"]
    obj, R = build(L)
    x, s, u, t = L["x"], L["s"], c["u"], c["t"]
    tol = tols(c)
    p = lambda x, s, t: num(f"p_x({x},s={s},t={t})", obj.p_x, x, s=s, t=t)
    q = lambda x, s, t, u=0: num(f"q_x({x},s={s},t={t},u={u})", obj.q_x, x, s=s, t=t, u=u)
    eps = max(tol["atol"], 1e-9)
    prev = None
    for k in sorted(set(c["ts"]) | {0, 1 if L["left"] is None or L["left"] >= 1 else 0}):
        a, b = p(x, s, k), q(x, s, k)
        between("p", a, 0, 1, eps)
        between("q", b, 0, 1, eps)
        eq(f"p_x({x},s={s},t={k})", a, R.S(x, s, k), **tol)
        eq(f"q_x({x},s={s},t={k})", b, 1 - R.S(x, s, k), **tol)
        eq("p + q", a + b, 1.0, 1e-9, 2 * eps)
        if prev is not None and a > prev + eps:
            fail(f"survival increases: p({k}) = {a} > {prev}")
        prev = a
    # defaults are one year
    if L["left"] is None or L["left"] >= 1:
        eq("p_x default", num("p_x", obj.p_x, x, s=s), R.S(x, s, 1), **tol)
        eq("q_x default", num("q_x", obj.q_x, x, s=s), 1 - R.S(x, s, 1), **tol)
    # deferral and chain rules
    b = q(x, s, t, u)
    eq(f"{u}|{t}_q", b, R.S(x, s, u) - R.S(x, s, u + t), **tol)
    between("deferred q", b, 0, 1, eps)
    if R.S(x, s, u) > 1e-5:
        pu = p(x, s, u)
        eq(f"p({u}+{t}) = p({u}) p_(s+{u})({t})", p(x, s, u + t), pu * p(x, s + u, t), tol["rtol"] * 3, 3 * eps)
        eq(f"{u}|{t}_q = {u}_p x {t}_q", b, pu * q(x, s + u, t), tol["rtol"] * 3, 3 * eps)
    return any(1e-6 < R.S(x, s, k) < 1 - 1e-9 for k in list(c["ts"]) + [u, u + t])


@st.composite
def s_lives(draw, tier="quick"):
    L = draw(life(("table", "ltab", "law", "base", "select", "sult")))
    left = L["left"] if L["left"] is not None else 40
    if L["kind"] == "base":
        L["form"] = draw(st.sampled_from(["S", "l"]))
        left -= 1 if L["law"].get("omega") else 0
    if L["kind"] == "law":
        left -= 1
    if L["kind"] in ("table", "select") and draw(st.booleans()):
        left += 4
    return {"life": L, "k": draw(st.integers(0, max(0, left))), "j": draw(st.integers(0, max(0, left)))}


def check_lives(c):
    """l proportional to survival; deaths are decrements; select tables included"""
    L = c["life"]
    obj, R = build(L)
    x, s = L["x"], L["s"]
    if L["kind"] == "law" or L["kind"] == "base":
        if R.S(0, 0, x + s) < 1e-4:
            return False
    l = lambda k: num(f"l_x({x},s={s + k})", obj.l_x, x, s=s + k)
    base = l(0)
    if not base > 0:
        fail(f"l_x({x},{s}) = {base} although lives survive to that age")
    tol = dict(rtol=1e-6, atol=1e-7 if L["kind"] in ("table", "select", "sult", "ltab") else 1e-6)
    for k in (c["k"], c["j"]):
        eq(f"l({x},{s + k})/l({x},{s})", l(k) / base, R.S(x, s, k), **tol)
        if L["kind"] != "select":
            eq(f"d_x({x},s={s + k}) / l", num("d_x", obj.d_x, x, s=s + k) / base, R.S(x, s, k) - R.S(x, s, k + 1), **tol)
    a, b = sorted((c["k"], c["j"]))
    if L["kind"] != "select" and b - a <= 40:
        tot = math.fsum(num("d_x", obj.d_x, x, s=s + k) for k in range(a, b))
        eq("sum of deaths = l - l", tot / base, (l(a) - l(b)) / base, 1e-8, 1e-7)
    return 0 < R.S(x, s, c["k"]) < 1


SUBS = [Sub("probabilities", lambda tier: strat(), check, 2000, what="p, q, deferred q vs reference; range, monotonicity, complement, chain"),
        Sub("lives", lambda tier: s_lives(), check_lives, 900, what="lives proportional to survival, deaths are decrements")]
