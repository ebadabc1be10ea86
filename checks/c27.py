"""C27 the UDD approximation is exact for lives with uniform deaths."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import past, rnd, life, build, rate, rate0
from lib import ref
import actuarialmath as am
from checks.c08 import amount
from checks import c26

RULE = ("cases draw a life whose deaths are uniform within each year (tables, lives functions, user-given survival read at integer ages, standard and select tables), m in "
        "{1,2,3,4,6,12} or 0 (continuous), a start [x]+s, interest, a contract, term, deferral (0 and past the end included), amounts and moment or variance; the oracle sums "
        "over 1/m-year periods, or integrates, under uniform deaths; non-trivial = survival to the middle of the contract is in (0,1) and m differs from 1")
ASSUMPTIONS = ["non-negative interest (formulas that divide by the rate: positive)", "deaths uniform within each year of age", "infinite lifetimes: survivors at the model's maximum age have a present value below 1e-9",
               "select tables end with certain death; first moments"]
PRODS = [p for p in c26.PRODS if p != "A"] + ["a_deferred", "a_deferred_t", "a_temp"]


@st.composite
def lifeU(draw):
    L = draw(c26.lifeM(("table", "table", "ltab", "base", "select", "sult")))
    if "t" in L:
        L["t"]["udd"] = True
    else:
        L["udd"] = True
    return L


@st.composite
def strat(draw, tier="quick"):
    prod = draw(st.sampled_from(PRODS))
    L = draw(lifeU())
    left = L["left"] if L["left"] is not None else 45
    u = draw(st.integers(0, max(0, left))) if "deferred" in prod else 0
    u = left + past(draw, L) if u and u > left - 3 else u
    t = draw(st.sampled_from([1, 2, 5]) | st.integers(0, max(1, left - u) + 3))
    mo = draw(st.sampled_from([1, 1, 2, -2]))
    if prod == "E" and mo < 0:
        mo = 2
    if prod[:2] == "a_":
        mo = -2 if mo < 0 and "imm" not in prod else 1
    if L["kind"] == "select":
        mo = 1
    return {"life": L, "m": draw(st.sampled_from([0, 0] + c26.Ms)), "prod": prod, "u": u, "t": t, "b": draw(amount),
            "end": draw(st.sampled_from([None]) | amount | st.just(0)), "g": 0., "mo": mo, "i": draw(rate0)}


def lib(c, M, x, s):
    p, u, t, b = c["prod"], c["u"], c["t"], c["b"]
    lab = f"m={c['m']} {p}(x={x},s={s},u={u},t={t},b={b},variance={c['mo'] < 0})"
    if p == "a_deferred":
        return num(lab, M.deferred_annuity, x, s=s, u=u, b=b, **({"variance": True} if c["mo"] < 0 else {}))
    if p == "a_deferred_t":
        return num(lab, M.deferred_annuity, x, s=s, u=u, t=t, b=b, **({"variance": True} if c["mo"] < 0 else {}))
    return c26.lib(c, M, x, s)


def deferred_var(c, R, v, x, s):
    m, u = c["m"], c["u"]
    t = c["t"] if c["prod"] == "a_deferred_t" else None
    if R.end(x, s) <= u or R.S(x, s, u) <= 0 or t == 0:
        return 0.
    if m == 0:
        m1, var = ref.ann_moments(R, v, x, s + u, t, discrete=False)
        m2 = var + m1 * m1
    else:
        m1, m2 = c26.ann_mom_m(R, v, x, s + u, t, m)
    Su = R.S(x, s, u)
    return c["b"] ** 2 * (v ** (2 * u) * Su * m2 - (v ** u * Su * m1) ** 2)


def check(c):
    L, m = c["life"], c["m"]
    v = 1 / (1 + c["i"])
    obj, R = build(L, c["i"])
    if not c26.okm(L, R, v, c["u"] + c["t"], c["u"]):
        return False
    Q = c26.mref(L, R)
    x, s = L["x"], L["s"]
    M = call("UDD", am.UDD, m=m, life=obj)
    got = lib(c, M, x, s)
    if c["prod"][:10] == "a_deferred" and c["mo"] < 0:
        w = deferred_var(c, Q, v, x, s)
    elif c["prod"][:2] == "a_":
        w = c26.want_ann(c, Q, v, x, s)
    elif c["mo"] < 0:
        m1, m2 = c26.want(c, Q, v, x, s, 1), c26.want(c, Q, v, x, s, 2)
        w = m2 - m1 * m1
    else:
        w = c26.want(c, Q, v, x, s, c["mo"])
    r = 2e-6
    eq(f"UDD m={m} {c['prod']} x={x} s={s} u={c['u']} t={c['t']} b={c['b']} end={c['end']} moment={c['mo']}", got, w, r, r * .3 * c26.scale(c, 1 - v))
    mid = c["u"] + max(1, c["t"] // 2)
    return m != 1 and 1e-6 < Q.S(x, s, mid) < 1 - 1e-9


@st.composite
def s_ab(draw, tier="quick"):
    return {"m": draw(st.sampled_from([0, 1, 2, 3, 4, 6, 12, 24, 52, 365])), "i": draw(st.just(0) | rnd(.001, .5, 4) | rnd(.001, .5, 4) | rnd(.001, .5, 4)), "L": draw(lifeU()), "n": draw(st.integers(0, 25))}


def check_ab(c):
    """alpha and beta from the annuities-certain they stand for; the table of interest functions; reduction to annual values"""
    m, i = c["m"], c["i"]
    v = 1 / (1 + i)
    dl = math.log1p(i)
    if m:
        s1 = math.fsum((1 + i) ** (k / m) for k in range(m)) / m
        a1 = math.fsum(v ** (k / m) for k in range(m)) / m
        dm = m * (1 - v ** (1 / m))
    else:
        s1, a1, dm = (i / dl, (1 - v) / dl, dl) if i else (1., 1., 0.)
    al, be = s1 * a1, (s1 - 1) / dm if i else (m - 1) / (2 * m) if m else .5        # their limits without interest
    eq(f"alpha({m},{i})", call("alpha", am.UDD.alpha, m=m, i=i), al, 1e-8, 1e-9)
    eq(f"beta({m},{i})", call("beta", am.UDD.beta, m=m, i=i), be, 1e-7, 1e-8)
    F = call("interest_frame", am.UDD.interest_frame, i=i)
    same("interest_frame rows", list(F.index), [1, 2, 4, 12, 0])
    for k in F.index:
        im = k * ((1 + i) ** (1 / k) - 1) if k else dl
        dm_ = k * (1 - v ** (1 / k)) if k else dl
        if i == 0:
            for col, w in (("i(m)", 0.), ("d(m)", 0.), ("i/i(m)", 1.), ("d/d(m)", 1.), ("alpha(m)", 1.), ("beta(m)", (k - 1) / (2 * k) if k else .5)):
                eq(f"interest_frame(0)[{col}][{k}]", F[col].loc[k], w, 0, 5.1e-6)
            continue
        for col, w in (("i(m)", im), ("d(m)", dm_), ("i/i(m)", i / im), ("d/d(m)", (1 - v) / dm_),
                       ("alpha(m)", i * (1 - v) / im / dm_), ("beta(m)", (i - im) / im / dm_)):
            eq(f"interest_frame({i})[{col}][{k}]", F[col].loc[k], w, 0, 5.1e-6)
    L = c["L"]
    obj, R = build(L, i)
    if not c26.okm(L, R, v):
        return False
    x, s = L["x"], L["s"]
    M = call("UDD", am.UDD, m=m, life=obj)
    eq("alpha_m of the model", M.alpha_m, al, 1e-8, 1e-9)
    eq("beta_m of the model", M.beta_m, be, 1e-7, 1e-8)
    a, am_ = num("annual", obj.whole_life_annuity, x, s=s), num("UDD", M.whole_life_annuity, x, s=s)
    eq("a(m) = alpha a - beta", am_, al * a - be, 1e-7, 1e-7)
    if m == 1:
        eq("annual at m=1", am_, a, 1e-9, 1e-9)
        eq("annual insurance at m=1", num("UDD", M.whole_life_insurance, x, s=s), num("annual", obj.whole_life_insurance, x, s=s), 1e-9, 1e-9)
    A_ = num("UDD A", M.whole_life_insurance, x, s=s)
    eq("A = 1 - d(m) a", A_, 1 - dm * am_, 1e-7, 1e-7)
    n = c["n"]
    At, at = num("UDD endowment", M.endowment_insurance, x, s=s, t=n), num("UDD temporary", M.temporary_annuity, x, s=s, t=n)
    eq(f"A:{n} = 1 - d(m) a:{n}", At, 1 - dm * at, 1e-7, 1e-7)
    eq("insurance_twin", num("insurance_twin", M.insurance_twin, am_), A_, 1e-7, 1e-7)
    if i:
        eq("annuity_twin", num("annuity_twin", M.annuity_twin, A_), am_, 1e-7, 1e-7 / dm)
        eq("annuity_twin of the endowment", num("annuity_twin", M.annuity_twin, At), at, 1e-7, 1e-7 / dm)
        eq("annuity_variance", num("annuity_variance", M.annuity_variance, A2=.5, A1=.6, b=3), 9 * .14 / dm ** 2, 1e-9, 1e-9)
    if 0 < m < 13 and L["kind"] != "select":
        Q = c26.mref(L, R)
        k = min(n, L["left"] or 45)
        eq(f"A_x:{k} over 1/m-year periods", num("A_x", M.A_x, x, s=s, t=k), math.fsum((Q.S(x, s, (j - 1) / m) - Q.S(x, s, j / m)) * v ** (j / m) for j in range(1, k * m + 1)), 1e-6, 1e-7)
    return m > 1 or m == 0


SUBS = [Sub("contracts", lambda tier: strat(), check, 3000, what="every contract under UDD, moments and variance vs exact sums / integrals"),
        Sub("factors", lambda tier: s_ab(), check_ab, 700, what="alpha, beta, interest_frame, annual values at m=1, twins")]
