"""C08 discrete insurances and pure endowments are worth their expected present value."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import past, rnd, life, build, rate, rate0
from lib import ref
import actuarialmath as am

RULE = ("cases draw a model, start [x]+s, interest, a contract type (pure endowment, whole life, term, deferred, endowment, custom), term and deferral "
        "(0, 1, several years, past the end), amounts (benefit and endowment differ), first/second moment or variance; the oracle sums squared or plain "
        "discounted amounts times probabilities; non-trivial = survival to the middle of the contract is in (0,1) and the value is not 0")
ASSUMPTIONS = ["non-negative interest (formulas that divide by the rate: positive)", "infinite lifetimes: survivors at the model's maximum age have a present value below 1e-9",
               "select tables: first moments; certain death at the end of the table"]
amount = st.sampled_from([1, 1, 2, 1000]) | rnd(0.5, 20, 1) | st.integers(2, 100000)


def terms(draw, L, u=False):
    left = L["left"] if L["left"] is not None else 45
    over = 3
    z = past(draw, L)
    U = left + z if u and z else draw(st.integers(0, max(0, left))) if u else 0
    t = draw(st.sampled_from([0, 1, 2, 5]) | st.integers(0, max(1, left - U) + over))
    if L["kind"] == "law" and L["left"] is None and draw(st.integers(0, 7)) == 0:
        t = draw(st.integers(60, 400))
    return U, t


def prep(draw, L):
    if L["kind"] == "base":
        L["form"] = draw(st.sampled_from(["S", "l"]))
        L["maxage"] = 160
    if L["kind"] == "select":           # certain death at the end of the table
        L["t"]["rows"][-1][-1] = 1.
    return L


def domain(L, R, v):
    if L["kind"] in ("law", "base") and L["law"].get("omega") is None:
        n = (160 if L["kind"] == "base" else 1000) - L["x"] - L["s"]
        return R.S(L["x"], L["s"], n) * v**n / max(1 - v, 1e-3) < 1e-9
    return True


@st.composite
def strat(draw, tier="quick", kinds=("table", "ltab", "law", "base", "select", "sult")):
    L = prep(draw, draw(life(kinds)))
    prods = ["E", "term", "deferred_t", "endow", "A"] + ["whole", "deferred"]
    prod = draw(st.sampled_from(prods))
    U, t = terms(draw, L, prod in ("deferred", "deferred_t", "A"))
    mo = 1 if L["kind"] == "select" and prod != "E" else draw(st.sampled_from([1, 1, 2, -2]))
    if prod == "A" and mo == -2:
        mo = 2
    return {"life": L, "prod": prod, "u": U, "t": t, "b": draw(amount), "end": draw(st.sampled_from([None]) | amount | st.just(0)),
            "moment": mo, "i": draw(rate0)}


def oracle(c, R, v, x, s, discrete=True):
    """first and second moments of the contract, from first principles"""
    p, u, t, b, e = c["prod"], c["u"], c["t"], c["b"], c["end"]
    end = b if e is None else e

    def m(k):
        bb = lambda z: b
        if p == "E":
            return ((1 if e is None else e) * v**t)**k * R.S(x, s, t)
        if p == "whole":
            return ref.ins(R, v, x, s, b=bb, moment=k, discrete=discrete)
        if p == "deferred":
            return ref.ins(R, v, x, s, u=u, b=bb, moment=k, discrete=discrete)
        tt = t
        if p == "term":
            return ref.ins(R, v, x, s, t=tt, b=bb, moment=k, discrete=discrete)
        if p == "deferred_t":
            return ref.ins(R, v, x, s, t=tt, u=u, b=bb, moment=k, discrete=discrete)
        if p == "endow":
            return ref.ins(R, v, x, s, t=tt, b=bb, moment=k, end=end, discrete=discrete)
        if p == "A":
            return ref.ins(R, v, x, s, t=tt, u=u, b=bb, moment=k, end=(e or 0), discrete=discrete)
    return m(1), m(2)


def lib(c, obj, x, s, moment, discrete=True):
    p, u, t, b, e = c["prod"], c["u"], c["t"], c["b"], c["end"]
    kw = dict(s=s) if moment == 1 and c["life"]["kind"] == "select" else dict(s=s, moment=moment)
    d = dict(discrete=discrete)
    if p == "E":
        return num(f"E_x(t={t},moment={moment})", obj.E_x, x, t=t, **kw, **({} if e is None else {"endowment": e}))
    lab = f"{p}(x={x},s={s},u={u},t={t},b={b},endowment={e},moment={moment},discrete={discrete})"
    if p == "whole":
        return num(lab, obj.whole_life_insurance, x, b=b, **kw, **d)
    if p == "term":
        return num(lab, obj.term_insurance, x, t=t, b=b, **kw, **d)
    if p == "deferred":
        return num(lab, obj.deferred_insurance, x, u=u, b=b, **kw, **d)
    if p == "deferred_t":
        return num(lab, obj.deferred_insurance, x, u=u, t=t, b=b, **kw, **d)
    if p == "endow":
        return num(lab, obj.endowment_insurance, x, t=t, b=b, **({} if e is None else {"endowment": e}), **kw, **d)
    return num(lab, obj.A_x, x, u=u, t=t, benefit=lambda x, k: b, endowment=e or 0, **kw, **d)


def check(c):
    L = c["life"]
    v = 1 / (1 + c["i"])
    obj, R = build(L, c["i"])
    if not domain(L, R, v):
        return False
    x, s, mo = L["x"], L["s"], c["moment"]
    m1, m2 = oracle(c, R, v, x, s)
    B = max(abs(c["b"]), abs(c["end"] or 0))
    got = lib(c, obj, x, s, mo)
    want = {1: m1, 2: m2, -2: m2 - m1 * m1}[mo]
    at = 2e-7 * B ** (1 if mo == 1 else 2)
    eq(f"{c['prod']} x={x} s={s} u={c['u']} t={c['t']} b={c['b']} end={c['end']} moment={mo}", got, want, 2e-6, at)
    if mo == -2 and got < -at:
        fail(f"negative variance {got}")
    mid = c["u"] + max(1, c["t"] // 2)
    return 1e-6 < R.S(x, s, mid) < 1 - 1e-9 and m1 > 0


@st.composite
def s_rel(draw, tier="quick"):
    L = prep(draw, draw(life(("table", "ltab", "law", "base", "sult"))))
    left = L["left"] if L["left"] is not None else 40
    t = draw(st.integers(0, max(1, left)))
    u = draw(st.integers(0, max(0, left - t)))
    return {"life": L, "t": t, "u": u, "b": draw(amount), "end": draw(amount), "k": draw(st.integers(2, 50)), "i": draw(rate0)}


def check_rel(c):
    """decompositions and scaling, on the library's own values"""
    L, t, u, b, e, k = c["life"], c["t"], c["u"], c["b"], c["end"], c["k"]
    obj, R = build(L, c["i"])
    v = 1 / (1 + c["i"])
    if not domain(L, R, v):
        return False
    x, s, V = L["x"], L["s"], obj.VARIANCE
    W = num("whole", obj.whole_life_insurance, x, s=s, b=b)
    T = num("term", obj.term_insurance, x, s=s, t=t, b=b, discrete=True)
    D = num("deferred", obj.deferred_insurance, x, s=s, u=t, b=b)
    E = num("E_x", obj.E_x, x, s=s, t=t)
    N = num("endowment", obj.endowment_insurance, x, s=s, t=t, b=b, endowment=e)
    tol = 1e-6 * max(b, e)
    eq("whole life = term + deferred", T + D, W, 1e-7, tol)
    eq("endowment = term + endowment x pure endowment", N, T + e * E, 1e-7, tol)
    if t > 0 and (L["left"] is None or t < L["left"]):
        eq("deferred = E x whole life at s+t", D, E * num("whole", obj.whole_life_insurance, x, s=s + t, b=b), 1e-7, tol)
    D1 = num("deferred term", obj.deferred_insurance, x, s=s, u=t, t=u, b=b)
    T2 = num("term", obj.term_insurance, x, s=s, t=t + u, b=b, discrete=True)
    eq("t|u A = A:t+u - A:t", D1, T2 - T, 1e-7, tol)
    # variance and second moment scale with the square of the benefit
    for name, f in (("whole", lambda B, m: obj.whole_life_insurance(x, s=s, b=B, moment=m)),
                    ("term", lambda B, m: obj.term_insurance(x, s=s, t=t, b=B, moment=m, discrete=True)),
                    ("deferred", lambda B, m: obj.deferred_insurance(x, s=s, u=u, b=B, moment=m)),
                    ("endowment", lambda B, m: obj.endowment_insurance(x, s=s, t=t, b=B, moment=m))):
        v1, vk = num(f"{name} variance", f, b, V), num(f"{name} variance", f, b * k, V)
        eq(f"{name}: variance scales with the square of the benefit", vk, v1 * k * k, 1e-6, 1e-6 * (b * k)**2)
        m1, m2 = num(name, f, b, 1), num(name, f, b, 2)
        eq(f"{name}: variance = m2 - m1^2", v1, m2 - m1 * m1, 1e-6, 1e-6 * b * b)
    return 1e-6 < R.S(x, s, max(1, t)) < 1 - 1e-9


SUBS = [Sub("contracts", lambda tier: strat(), check, 2000, what="every discrete contract, moments and variance vs summed present values"),
        Sub("relations", lambda tier: s_rel(), check_rel, 600, what="decomposition and scaling of the library's own values")]
