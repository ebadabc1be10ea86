"""C26 true m-thly insurances and annuities sum over their payment dates."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import past, rnd, life, build, rate, rate0, select
from lib import ref
import actuarialmath as am
from checks.c08 import amount
from checks.c09 import lifeC, ok_domain, tol as tolC

RULE = ("cases draw a life of any kind (tables under both fractional-age assumptions, special laws, user-given survival functions, select tables), m in {1,2,3,4,6,12} "
        "(0 for continuous), a start [x]+s, interest, a contract, term, deferral (0 and past the end included), amounts and moment or variance; the oracle sums "
        "over 1/m-year periods with the fractional-age survival of an independent model; non-trivial = survival to the middle of the contract is in (0,1) and m > 1")
ASSUMPTIONS = ["non-negative interest (formulas that divide by the rate: positive)", "benefit functions receive the age x+s and the time at the start of the payment period",
               "infinite lifetimes: survivors at the model's maximum age have a present value below 1e-9",
               "constant-force tables: no year of certain death while anyone survives; select tables end with certain death"]
KINDS = ("table", "table", "ltab", "law", "base", "select", "sult")
Ms = [1, 2, 3, 4, 6, 12]


@st.composite
def lifeM(draw, kinds=KINDS):
    kind = draw(st.sampled_from(kinds))
    L = draw(life((kind,), maxlen=10))
    if kind == "base":
        L["form"], L["maxage"] = draw(st.sampled_from(["S", "l"])), 160
    if kind == "select":
        L["t"] = draw(select(terminal=True, maxrows=7))
        n, rows = len(L["t"]["rows"][0]) - 1, len(L["t"]["rows"])
        k = draw(st.integers(0, rows - n - 1))
        L["x"], L["s"] = L["t"]["x0"] + k, draw(st.integers(0, n + 1)) if k < rows - n - 1 else draw(st.integers(0, n))
        L["left"] = rows - 1 - k - L["s"] + n + 1
    return L


def mref(L, R):
    """the model under its fractional-age assumption"""
    return ref.FracRef(R, L["udd"]) if L["kind"] == "base" else R


def cfm(L):
    return not (L["t"]["udd"] if L["kind"] in ("table", "ltab", "select") else L.get("udd", True))


def okm(L, R, v, reach=0, U=0):
    if L["kind"] in ("law", "base") and L["law"].get("omega") is None:
        x, s = L["x"], L["s"]
        n = (160 if L["kind"] == "base" else 1000) - x - s
        if R.S(x, s, n) * v ** n / max(1 - v, 1e-3) > 1e-9:
            return False
    if L["kind"] == "base" and L["law"].get("omega") is None and R.S(0, 0, L["x"] + L["s"] + reach) < 1e-200:
        return False            # number of survivors underflows to zero
    if L["kind"] == "base" and L["left"] is not None and U >= L["left"]:
        return False            # the user's own functions end at the limiting age
    if cfm(L) and L["kind"] != "law":     # constant force is undefined in a year of certain death
        x, s, k = L["x"], L["s"], 0
        while k < R.end(x, s) and k < 200:
            S0 = R.S(x, s, k)
            if S0 > 1e-7 and R.S(x, s, k + 1) / S0 < .01:
                return False
            k += 1
    return True


PRODS = ["whole", "term", "deferred", "deferred_t", "endow", "A", "E", "a_whole", "a_temp", "a_deferred", "a_deferred_t", "a_imm", "a_imm_t"]


@st.composite
def strat(draw, tier="quick"):
    prod = draw(st.sampled_from(PRODS))
    cont = draw(st.integers(0, 7)) == 0
    L = draw(lifeC()) if cont else draw(lifeM())
    left = L["left"] if L["left"] is not None else 45
    u = draw(st.integers(0, max(0, left))) if "deferred" in prod or prod == "A" else 0
    u = left + past(draw, L) if u and u > left - 3 else u
    t = draw(st.sampled_from([1, 2, 5]) | st.integers(0, max(1, left - u) + 3))
    mo = draw(st.sampled_from([1, 1, 2, -2]))
    if prod in ("E", "A") and mo < 0:
        mo = 2
    if prod[:2] == "a_":
        mo = -2 if prod in ("a_whole", "a_temp") and mo < 0 else 1
    if L["kind"] == "select" and mo != 1 and prod == "E":
        mo = 1
    return {"life": L, "m": 0 if cont else draw(st.sampled_from(Ms)), "prod": prod, "u": u, "t": t, "b": draw(amount),
            "end": draw(st.sampled_from([None]) | amount | st.just(0)), "g": draw(rnd(-.05, .1, 2)), "mo": mo, "i": draw(rate0)}


def ann_mom_m(R, v, x, s, t, m):
    """first two moments of the present value of an m-thly annuity-due of 1 a year"""
    e = math.ceil(R.end(x, s) * m - 1e-9)
    n = e if t is None else min(e, t * m)
    pv, m1, m2 = 0., 0., 0.
    S0 = 1.
    for k in range(n):
        pv += v ** (k / m) / m
        S1 = R.S(x, s, (k + 1) / m) if k < n - 1 else 0.
        m1 += (S0 - S1) * pv
        m2 += (S0 - S1) * pv * pv
        S0 = S1
    return m1, m2


def want(c, R, v, x, s, k):
    """k-th moment of the contract"""
    p, m, u, t, b, e = c["prod"], c["m"], c["u"], c["t"], c["b"], c["end"]
    end = b if e is None else e
    T = {"whole": None, "deferred": None}.get(p, t)
    if p == "E":
        return ((1 if e is None else e) * v ** t) ** k * R.S(x, s, t)
    U = u if "deferred" in p or p == "A" else 0
    g = c["g"] if p == "A" else 0.
    E = end if p == "endow" else 0.
    if m == 0:
        return ref.ins(R, v, x, s, t=T, u=U, b=lambda z: b * (1 + g * (x + s + z - 40)), moment=k, end=E, discrete=False)
    e_ = math.ceil(R.end(x, s) * m - 1e-9)
    n = e_ if T is None else min(e_, (U + T) * m)
    tot = 0.
    for j in range(U * m, n):
        bb = b * (1 + g * (x + s + j / m - 40))
        tot += (bb * v ** ((j + 1) / m)) ** k * (R.S(x, s, j / m) - R.S(x, s, (j + 1) / m))
    if E and T is not None:
        tot += (E * v ** (U + T)) ** k * R.S(x, s, U + T)
    return tot


def want_ann(c, R, v, x, s):
    p, m, u, t, b = c["prod"], c["m"], c["u"], c["t"], c["b"]
    T = None if p in ("a_whole", "a_deferred", "a_imm") else t
    U = u if "deferred" in p else 0
    if c["mo"] < 0:
        if m == 0:
            return b * b * (ref.ann_moments(R, v, x, s, T, discrete=False)[1] if T != 0 else 0.)
        m1, m2 = ann_mom_m(R, v, x, s, T, m)
        return b * b * (m2 - m1 * m1)
    if m == 0:
        return ref.ann(R, v, x, s, u=U, t=T, b=lambda z: b, discrete=False)
    a = ref.ann_m(R, v, x, s, t=T, u=U, m=m, b=b)
    if "imm" in p:
        a += b / m * ((v ** T * R.S(x, s, T) if T is not None else 0.) - 1)
    return a


def lib(c, M, x, s):
    p, u, t, b, e, mo = c["prod"], c["u"], c["t"], c["b"], c["end"], c["mo"]
    ek = {} if e is None else {"endowment": e}
    lab = f"m={c['m']} {p}(x={x},s={s},u={u},t={t},b={b},endowment={e},moment={mo})"
    m = {} if mo == 1 else {"moment": mo}
    var = {"variance": True} if mo < 0 else {}
    if p == "E":
        return num(lab, M.E_x, x, s=s, t=t, **m, **ek)
    if p == "whole":
        return num(lab, M.whole_life_insurance, x, s=s, b=b, **m)
    if p == "term":
        return num(lab, M.term_insurance, x, s=s, t=t, b=b, **m)
    if p == "deferred":
        return num(lab, M.deferred_insurance, x, s=s, u=u, b=b, **m)
    if p == "deferred_t":
        return num(lab, M.deferred_insurance, x, s=s, u=u, t=t, b=b, **m)
    if p == "endow":
        return num(lab, M.endowment_insurance, x, s=s, t=t, b=b, **m, **ek)
    if p == "A":
        return num(lab, M.A_x, x, s=s, u=u, t=t, benefit=lambda a, z: b * (1 + c["g"] * (a + z - 40)), **m)
    if p == "a_whole":
        return num(lab, M.whole_life_annuity, x, s=s, b=b, **var)
    if p == "a_temp":
        return num(lab, M.temporary_annuity, x, s=s, t=t, b=b, **var)
    if p == "a_deferred":
        return num(lab, M.deferred_annuity, x, s=s, u=u, b=b)
    if p == "a_deferred_t":
        return num(lab, M.deferred_annuity, x, s=s, u=u, t=t, b=b)
    if p == "a_imm":
        return num(lab, M.immediate_annuity, x, s=s, b=b)
    return num(lab, M.immediate_annuity, x, s=s, t=t, b=b)


def scale(c, d):
    """size of the terms that make up the value"""
    B = max(abs(c["b"]), abs(c["end"] or 0), 1)
    if c["prod"] == "A":
        B *= 1 + abs(c["g"]) * 100
    if c["prod"][:2] == "a_":
        B = abs(c["b"]) / max(d, .01)
    return B ** (1 if c["mo"] == 1 else 2)


def check(c):
    L, m = c["life"], c["m"]
    v = 1 / (1 + c["i"])
    obj, R = build(L, c["i"])
    if not (ok_domain(L, R, v) if m == 0 else okm(L, R, v, c["u"] + c["t"], c["u"])):
        return False
    Q = R if m == 0 else mref(L, R)
    x, s = L["x"], L["s"]
    if m == 0 and L["kind"] == "base" and L["law"].get("omega") and c["u"] + c["t"] >= L["left"] and c["prod"] not in ("whole", "a_whole", "a_imm"):
        return False            # the user's own functions end at the limiting age
    M = call("Mthly", am.Mthly, m=m, life=obj)
    got = lib(c, M, x, s)
    if c["prod"][:2] == "a_":
        w = want_ann(c, Q, v, x, s)
    elif c["mo"] < 0:
        m1, m2 = want(c, Q, v, x, s, 1), want(c, Q, v, x, s, 2)
        w = m2 - m1 * m1
    else:
        w = want(c, Q, v, x, s, c["mo"])
    r = tolC(L) if m == 0 else 2e-6
    d = 1 - v
    eq(f"m={m} {c['prod']} x={x} s={s} u={c['u']} t={c['t']} b={c['b']} end={c['end']} moment={c['mo']} g={c['g']}", got, w, r, r * .3 * scale(c, d))
    mid = c["u"] + max(1, c["t"] // 2)
    return m != 1 and 1e-6 < Q.S(x, s, mid) < 1 - 1e-9


@st.composite
def s_period(draw, tier="quick"):
    L = draw(lifeM())
    m = draw(st.sampled_from(Ms))
    left = min(L["left"] if L["left"] is not None else 20, 20)
    k = draw(st.integers(0, max(0, (left - 1) * m)))
    T = draw(st.integers(0, max(0, left * m - k)))
    return {"life": L, "m": m, "k": k, "t": T, "u": draw(st.integers(0, max(0, left * m - k - T))), "i": draw(rate), "b": draw(amount), "g": draw(st.integers(0, 3)),
            "n": draw(st.integers(1, 3)), "mo": draw(st.sampled_from([1, 2]))}


def check_period(c):
    """probabilities, discount factors and the distribution of the present value over m-thly periods; annual values at m=1; A = 1 - d(m) a"""
    L, m, i = c["life"], c["m"], c["i"]
    v = 1 / (1 + i)
    obj, R = build(L, i)
    if not okm(L, R, v):
        return False
    Q = mref(L, R)
    x, s = L["x"], L["s"]
    M = call("Mthly", am.Mthly, m=m, life=obj)
    k, t, u, b, g = c["k"], c["t"], c["u"], c["b"], c["g"]
    eq(f"v_m({k})", call("v_m", M.v_m, k), v ** (k / m), 1e-12, 1e-12)
    k0 = s * m + k
    S0 = Q.S(x, 0, k0 / m)
    if S0 > 1e-4 or s > 0 and k == 0:
        k0, p0 = (k0, lambda z: Q.S(x, k0 // m, (k0 % m) / m + z) / Q.S(x, k0 // m, (k0 % m) / m))
        if Q.S(x, k0 // m, (k0 % m) / m) > 1e-3:
            eq(f"p_m(x={x},s_m={k0},t_m={t}) m={m}", call("p_m", M.p_m, x, s_m=k0, t_m=t), p0(t / m), 1e-6, 1e-8)
            eq(f"q_m(x={x},s_m={k0},t_m={t},u_m={u}) m={m}", call("q_m", M.q_m, x, s_m=k0, t_m=t, u_m=u), p0(u / m) - p0((u + t) / m), 1e-6, 1e-8)
    left = L["left"] if L["left"] is not None else 45
    n = min(c["n"], left)
    f = lambda a, z: b * (1 + g * (a + z))
    Z = call("Z_m", M.Z_m, x, s=s, t=n, benefit=f, moment=c["mo"])
    same("Z_m periods", list(Z.index), list(range(1, n * m + 1)))
    tot = 0.
    for j in range(1, n * m + 1):
        z = (b * (1 + g * (x + s + (j - 1) / m)) * v ** (j / m)) ** c["mo"]
        pr = Q.S(x, s, (j - 1) / m) - Q.S(x, s, j / m)
        eq(f"Z_m Z at period {j} (m={m}, moment={c['mo']})", Z["Z"].loc[j], z, 1e-9, 1e-9)
        eq(f"Z_m q at period {j} (m={m}, x={x}, s={s})", Z["q"].loc[j], pr, 1e-6, 1e-8)
        tot += z * pr
    A = num("A_x", M.A_x, x, s=s, t=n, benefit=f, moment=c["mo"])
    eq("A_x = sum of Z_m", A, tot, 1e-6, 1e-7 * (b * (1 + g * 150)) ** c["mo"])
    # twins
    d_m = m * (1 - v ** (1 / m))
    A, a = num("whole", M.whole_life_insurance, x, s=s), num("whole a", M.whole_life_annuity, x, s=s)
    eq("A = 1 - d(m) a", A, 1 - d_m * a, 1e-9, 1e-8)
    eq("insurance_twin", call("insurance_twin", M.insurance_twin, a), A, 1e-9, 1e-8)
    eq("annuity_twin", call("annuity_twin", M.annuity_twin, A), a, 1e-9, 1e-8 / d_m)
    A, a = num("endowment", M.endowment_insurance, x, s=s, t=n), num("temporary", M.temporary_annuity, x, s=s, t=n)
    eq("A:n = 1 - d(m) a:n", A, 1 - d_m * a, 1e-7, 1e-7)
    eq("annuity_variance", call("annuity_variance", M.annuity_variance, A2=.5, A1=.6, b=b), b * b * (.5 - .36) / d_m ** 2, 1e-9, 1e-9)
    if m == 1 and L["kind"] != "law":
        eq("m=1 term insurance", num("term", M.term_insurance, x, s=s, t=n, b=b), num("annual term", obj.term_insurance, x, s=s, t=n, b=b), 1e-6, 1e-6 * b)
        eq("m=1 temporary annuity", num("temp", M.temporary_annuity, x, s=s, t=n, b=b), num("annual temp", obj.temporary_annuity, x, s=s, t=n, b=b), 1e-6, 1e-6 * b)
        eq("m=1 endowment", num("endow", M.endowment_insurance, x, s=s, t=n, b=b), num("annual endow", obj.endowment_insurance, x, s=s, t=n, b=b), 1e-6, 1e-6 * b)
    return m > 1 and 1e-6 < Q.S(x, s, n) < 1 - 1e-9


SUBS = [Sub("contracts", lambda tier: strat(), check, 3000, what="every m-thly contract, moments and variance vs sums over payment dates"),
        Sub("periods", lambda tier: s_period(), check_period, 900, what="m-thly probabilities, Z_m, twins, annual values at m=1")]
