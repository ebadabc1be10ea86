"""C28 Woolhouse's formula is applied with the stated terms."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import past, rnd, life, build, rate, rate0
from lib import ref
import actuarialmath as am
from checks.c08 import amount
from checks import c26

RULE = ("cases draw a life of any kind, m in {1,2,3,4,6,12} or 0 (continuous), two or three terms, the force given explicitly, by a function, exact or approximated from the two "
        "neighbouring one-year survival probabilities, a start [x]+s, interest, a contract, term, deferral (0 and past the end included) and amounts; the oracle applies the stated "
        "formula to annual annuities summed from an independent model; non-trivial = survival to the middle of the contract is in (0,1) and m differs from 1")
ASSUMPTIONS = ["non-negative interest (formulas that divide by the rate: positive)", "approximate force: the year before and after is neither before selection nor certain death", "exact force of special laws and user-given survival below 1",
               "infinite lifetimes: survivors at the model's maximum age have a present value below 1e-9"]
PRODS = ["whole", "term", "endow", "deferred", "deferred_t", "a_whole", "a_temp", "a_deferred", "a_deferred_t", "a_imm", "a_imm_t"]


@st.composite
def strat(draw, tier="quick"):
    L = draw(c26.lifeM())
    if L["kind"] == "base":
        L["form"] = draw(st.sampled_from(["S", "l", "S+f+mu"]))
    prod = draw(st.sampled_from(PRODS))
    left = L["left"] if L["left"] is not None else 45
    u = draw(st.integers(0, max(0, left))) if "deferred" in prod else 0
    u = left + past(draw, L) if u and u > left - 3 else u
    t = draw(st.sampled_from([1, 2, 5]) | st.integers(0, max(1, left - u) + 2))
    mode = draw(st.sampled_from(["two", "approx", "approx", "exact", "fun", "given"]))
    if mode == "exact" and L["kind"] == "ltab":
        mode = "approx"
    return {"life": L, "m": draw(st.sampled_from([0] + c26.Ms)), "prod": prod, "u": u, "t": t, "b": draw(amount), "end": draw(st.sampled_from([None]) | amount | st.just(0)),
            "mode": mode, "only": draw(st.integers(0, 3)) == 0, "mu": draw(rnd(.001, .2, 3)), "mu1": draw(rnd(.001, .2, 3)), "i": draw(rate0)}


def exact(L, R, x, s):
    """the survival model's own force: of the law, or a life table's (constant force within the year)"""
    if L["kind"] in ("law", "base"):
        return R.mu(x, s)
    return -math.log(max(1e-5, 1 - R.q1(x, s)))


class Skip(Exception):
    pass


def oracle(c, R, v):
    L, m, mode, i = c["life"], c["m"], c["mode"], c["i"]
    x, s0 = L["x"], L["s"]
    inv = 1 / m if m else 0.
    delta = math.log1p(i)
    d_m = m * (1 - v ** (1 / m)) if m else delta

    def mu(s, which):
        if mode == "given" and (which == 0 or not c.get("only")):
            return c["mu"] if which == 0 else c["mu1"]
        if mode == "fun":
            return .001 * (x + 2 * s)
        if mode == "exact":
            if R.end(x, s) <= 1e-9 or R.mu(x, s) > 1:
                raise Skip
            return exact(L, R, x, s)
        p0 = R.S(x, s, 1) if R.end(x, s) > 0 else 0
        if s > 0:
            p1 = R.S(x, s - 1, 1)
        elif L["kind"] == "select" or x < 1 or (L["kind"] in ("table", "ltab") and x <= L["t"]["x0"]) or (L["kind"] == "sult" and x <= L["sult"]["minage"]):
            raise Skip          # the year before is before selection or outside the table
        else:
            p1 = R.S(x - 1, 0, 1)
        if min(p0, p1) < 1e-5:
            raise Skip
        return -.5 * (math.log(p0) + math.log(p1))

    def a(s, which=0):
        if R.end(x, s) <= 0:
            return 0.
        r = ref.ann(R, v, x, s) - (1 - inv) / 2
        if mode != "two":
            r -= (1 - inv ** 2) / 12 * (delta + mu(s, which))
        return r

    def E(s, t):
        return v ** t * R.S(x, s, t)

    def part(f, s, t, mid):
        """value of a contract over [s, s+t] as whole life less deferred whole life"""
        if R.end(x, s) <= 0:
            return 0.
        r = f(s, 0)
        if t == 0:
            return 0.
        if t is not None and E(s, t) > 0:
            r -= E(s, t) * f(s + t, 1)
        return r
    A = lambda s, which=0: 1 - d_m * a(s, which)
    p, u, t, b = c["prod"], c["u"], c["t"], c["b"]
    end = b if c["end"] is None else c["end"]
    f = a if p[:2] == "a_" else A
    T = None if p in ("whole", "deferred", "a_whole", "a_deferred", "a_imm") else t
    U = u if "deferred" in p else 0
    if U and E(s0, U) <= 0:
        return 0.
    w = E(s0, U) * part(f, s0 + U, T, 0) * b
    if p == "endow":
        w += end * E(s0, t)
    if "imm" in p and m:
        w -= b / m * (1 - (E(s0, t) if T is not None else 0.))
    return w


def lib(c, M, x, s):
    p, u, t, b, e = c["prod"], c["u"], c["t"], c["b"], c["end"]
    lab = f"{p}(x={x},s={s},u={u},t={t},b={b},endowment={e}) m={c['m']} {c['mode']}"
    k = {"mu": c["mu"]} if c["mode"] == "given" else {}
    k2 = dict(k, **({} if c.get("only") else {"mu1": c["mu1"]})) if c["mode"] == "given" else {}
    ek = {} if e is None else {"endowment": e}
    if p == "whole":
        return num(lab, M.whole_life_insurance, x, s=s, b=b, **k)
    if p == "term":
        return num(lab, M.term_insurance, x, s=s, t=t, b=b, **k2)
    if p == "endow":
        return num(lab, M.endowment_insurance, x, s=s, t=t, b=b, **ek, **k)
    if p == "deferred":
        return num(lab, M.deferred_insurance, x, s=s, u=u, b=b, **k2)
    if p == "deferred_t":
        return num(lab, M.deferred_insurance, x, s=s, u=u, t=t, b=b, **k2)
    if p == "a_whole":
        return num(lab, M.whole_life_annuity, x, s=s, b=b, **k)
    if p == "a_temp":
        return num(lab, M.temporary_annuity, x, s=s, t=t, b=b, **k2)
    if p == "a_deferred":
        return num(lab, M.deferred_annuity, x, s=s, u=u, b=b, **k2)
    if p == "a_deferred_t":
        return num(lab, M.deferred_annuity, x, s=s, u=u, t=t, b=b, **k2)
    if p == "a_imm":
        return num(lab, M.immediate_annuity, x, s=s, b=b)
    return num(lab, M.immediate_annuity, x, s=s, t=t, b=b)


def check(c):
    L, m = c["life"], c["m"]
    v = 1 / (1 + c["i"])
    if c["mode"] == "given" and (c["prod"] == "endow" and not c["only"] or "imm" in c["prod"]):
        c["mode"] = "fun"
    obj, R = build(L, c["i"])
    if not c26.okm(L, R, v, c["u"] + c["t"], c["u"]):
        return False
    if L["kind"] == "base" and L["left"] is not None and c["u"] + c["t"] >= L["left"]:
        return False
    if L["kind"] == "sult" and c["u"] + c["t"] > L["left"] - 12 or c["t"] == 0 and c["mode"] == "given":
        return False            # the standard table's last years; two different forces at the same age
    x, s = L["x"], L["s"]
    try:
        w = oracle(c, R, v)
    except Skip:
        return False
    kw = {"three_term": c["mode"] != "two"}
    if c["mode"] == "exact":
        kw["approximate_mu"] = False
    elif c["mode"] == "fun":
        kw["approximate_mu"] = lambda x, s: .001 * (x + 2 * s)
    elif c["i"] > .07:
        kw["approximate_mu"] = True             # otherwise the default
    M = call("Woolhouse", am.Woolhouse, m=m, life=obj, **kw)
    got = lib(c, M, x, s)
    r = 4e-4 if c["mode"] == "exact" and L["kind"] == "base" and "mu" not in L["form"] else 2e-6
    B = max(c["b"], c["end"] or 0)
    eq(f"Woolhouse {c['mode']} m={m} {c['prod']} x={x} s={s} u={c['u']} t={c['t']} b={c['b']} end={c['end']}", got, w, r, r * B * (1 if c["prod"][:2] != "a_" else .3 / max(1 - v, .005)))
    mid = c["u"] + max(1, c["t"] // 2)
    return m != 1 and 1e-6 < R.S(x, s, mid) < 1 - 1e-9


@st.composite
def s_mu(draw, tier="quick"):
    return {"life": draw(c26.lifeM()), "i": draw(rate0), "z": draw(st.integers(0, 3))}


def check_mu(c):
    """the force used, and with m=1 nothing is subtracted"""
    L = c["life"]
    v = 1 / (1 + c["i"])
    obj, R = build(L, c["i"])
    if not c26.okm(L, R, v, 3):
        return False
    x, s = L["x"], L["s"]
    M = call("Woolhouse", am.Woolhouse, m=1, life=obj, three_term=False)
    eq("m=1: the annual annuity", num("Woolhouse", M.whole_life_annuity, x, s=s), ref.ann(R, v, x, s), 2e-6, 1e-6)
    if s == 0:
        return False
    s1 = s + c["z"]
    if R.end(x, s1) <= 1:
        return False
    p0, p1 = R.S(x, s1, 1), R.S(x, s1 - 1, 1)
    if min(p0, p1) < 1e-5:
        return False
    W = call("Woolhouse", am.Woolhouse, m=2, life=obj, three_term=True)
    eq(f"approximate mu at [{x}]+{s1}", num("mu_x", W.mu_x, x, s=s1), -.5 * math.log(p0 * p1), 1e-6, 1e-8)
    W = call("Woolhouse", am.Woolhouse, m=2, life=obj, three_term=True, approximate_mu=lambda a, b: a + 100 * b)
    eq("given function for mu", num("mu_x", W.mu_x, x, s=s1), x + 100 * s1, 1e-9, 0)
    if L["kind"] != "ltab" and R.mu(x, s1) < 1:
        W = call("Woolhouse", am.Woolhouse, m=2, life=obj, three_term=True, approximate_mu=False)
        eq(f"exact mu at {x}+{s1}", num("mu_x", W.mu_x, x, s=s1), exact(L, R, x, s1), *((4e-4, 1e-6) if L["kind"] == "base" else (1e-6, 1e-8)))
    return True


SUBS = [Sub("contracts", lambda tier: strat(), check, 3000, what="every contract, two or three terms, exact / approximate / given force"),
        Sub("force", lambda tier: s_mu(), check_mu, 600, what="force of mortality used; m=1")]
