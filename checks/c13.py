"""C13 net premiums satisfy the equivalence principle."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, life, build, rate, rate0
from lib import ref
import actuarialmath as am
from checks.c08 import amount, prep, domain
from checks.c09 import ok_domain
from checks.c10 import lifeV, dom

RULE = ("cases draw a model, start [x]+s, interest, benefit (insurance or annuity, whole life/term/deferred/endowment, amounts), premium paying period (stated, or left to the "
        "documented default), timing (annual, semi-continuous, continuous), initial cost, return of premiums; the oracle computes EPV of benefits over EPV of a unit "
        "premium from first principles; non-trivial = the premium term or deferral is over a year, survival through it is in (0,1) and benefit is not plain whole life at s=0")
ASSUMPTIONS = ["non-negative interest (formulas that divide by the rate: positive)", "infinite lifetimes: survivors at the model's maximum age have a present value below 1e-9", "select tables: inside the table's rows"]


@st.composite
def strat(draw, tier="quick"):
    disc = draw(st.sampled_from([True, True, None, False]))
    L = draw(lifeV(disc is not False))
    left = L["left"] if L["left"] is not None else 40
    sel = L["kind"] == "select"
    if sel and left < 1:
        L["x"], L["s"], left = L["t"]["x0"], 0, len(L["t"]["rows"]) - 1
    u = draw(st.sampled_from([0, 0]) | st.integers(0, max(0, left - 1)))
    t = draw(st.sampled_from([1, 2, 5]) | st.integers(1, max(1, left - u) + 2))
    whole = not sel and draw(st.integers(0, 2)) == 0
    n = draw(st.sampled_from([0, 1, 3]) | st.integers(0, max(1, left)))
    if sel:
        u = min(u, left - 1)
        t = max(1, min(t, left - u))
        n = min(n, left)
    return {"life": L, "u": u, "t": -1 if whole else t, "n": n, "b": draw(amount), "end": 0 if whole else draw(st.sampled_from([0, 0]) | amount),
            "disc": disc, "ann": draw(st.integers(0, 3)) == 0, "ret": draw(st.integers(0, 3)) == 0, "ic": draw(st.sampled_from([0, 0, 5, 0.5])), "i": draw(rate0)}


def want(c, R, v, x, s):
    u, t, n, b, disc = c["u"], c["t"], c["n"], c["b"], c["disc"]
    d = disc is not False
    tt = None if t < 0 else t
    if c["ann"]:
        A = ref.ann(R, v, x, s, t=tt, u=u, b=lambda z: b, discrete=d)
    else:
        A = ref.ins(R, v, x, s, t=tt, u=u, b=lambda z: b, discrete=d, end=c["end"])
    m = n or u or tt
    a = a0 = ref.ann(R, v, x, s, t=m, discrete=d)
    if c["ret"]:
        a -= ref.ins(R, v, x, s, t=m, b=lambda z: z, discrete=d)
    return A + c["ic"], a, a0


def check(c):
    L, u, t, n = c["life"], c["u"], c["t"], c["n"]
    v = 1 / (1 + c["i"])
    obj, R = build(L, c["i"])
    if not dom({"disc": c["disc"] is not False}, L, R, v):
        return False
    x, s = L["x"], L["s"]
    if R.S(x, s, u) < 1e-6:
        return False
    A, a, a0 = want(c, R, v, x, s)
    if a < 0.02 * a0 or a0 < 1e-3:
        return False
    kw = dict(s=s, u=u, n=n, b=c["b"], discrete=c["disc"], return_premium=c["ret"], annuity=c["ann"], initial_cost=c["ic"])
    if t >= 0:
        kw["t"] = t
    if not c["ann"] and c["end"]:
        kw["endowment"] = c["end"]
    lab = f"net_premium(x={x},{kw},i={c['i']})"
    got = num(lab, obj.net_premium, x, **kw)
    cont = c["disc"] is False
    r = (1e-4 if L["kind"] == "law" and L["law"].get("alpha", 1) < 1 else 3e-5) if cont else 5e-6
    k = a0 / a
    eq(lab, got, A / a, r * k, r * k * max(c["b"], c["end"], c["ic"]) / max(a0, .1))
    return 1e-6 < R.S(x, s, max(1, n)) < 1 - 1e-9 and (u > 0 or n > 1 or t > 1 or s > 0)


@st.composite
def s_eqv(draw, tier="quick"):
    disc = draw(st.booleans())
    L = draw(lifeV(disc))
    left = L["left"] if L["left"] is not None else 40
    sel = L["kind"] == "select"
    if sel and left < 1:
        L["x"], L["s"], left = L["t"]["x0"], 0, len(L["t"]["rows"]) - 1
    return {"life": L, "disc": disc, "t": draw(st.integers(1, max(1, left))), "b": draw(amount), "i": draw(rate), "whole": not sel and draw(st.booleans()),
            "P": draw(rnd(0.001, 2, 3)), "A": draw(rnd(0.01, 0.98, 2))}


def check_eqv(c):
    L, t, b, disc = c["life"], c["t"], c["b"], c["disc"]
    i = c["i"]
    v = 1 / (1 + i)
    obj, R = build(L, i)
    d = i * v if disc else math.log1p(i)
    # algebra of the formulas, at arbitrary premiums and factors
    P = c["P"] * b
    A = num("insurance_equivalence", obj.insurance_equivalence, premium=P, b=b, discrete=disc)
    a = num("annuity_equivalence", obj.annuity_equivalence, premium=P, b=b, discrete=disc)
    eq("A = P/(P + d b)", A, P / (P + d * b), 1e-10)
    eq("a = (1-A)/d", a, (1 - A) / d, 1e-9)
    eq("premium_equivalence(A)", num("premium_equivalence", obj.premium_equivalence, A=A, b=b, discrete=disc), P, 1e-8)
    eq("premium_equivalence(a)", num("premium_equivalence", obj.premium_equivalence, a=a, b=b, discrete=disc), P, 1e-8)
    eq("premium_equivalence(A,a)", num("premium_equivalence", obj.premium_equivalence, A=c["A"], a=a, b=b, discrete=disc), b * c["A"] / a, 1e-9)
    eq("premium_equivalence(A)", num("premium_equivalence", obj.premium_equivalence, A=c["A"], b=b, discrete=disc), b * d * c["A"] / (1 - c["A"]), 1e-9)
    if not dom(c, L, R, v):
        return False
    x, s = L["x"], L["s"]
    # values computed from mortality
    if c["whole"]:
        got = num("net_premium whole life", obj.net_premium, x, s=s, b=b, discrete=disc)
        A, a = ref.ins(R, v, x, s, discrete=disc), ref.ann(R, v, x, s, discrete=disc)
    else:
        got = num("net_premium endowment insurance", obj.net_premium, x, s=s, t=t, b=b, endowment=b, discrete=disc)
        A, a = ref.ins(R, v, x, s, t=t, discrete=disc, end=1), ref.ann(R, v, x, s, t=t, discrete=disc)
    if a < 0.05:
        return False
    r = 1e-4 if not disc else 1e-5
    eq("net premium = b A/a", got, b * A / a, r, r * b)
    eq("net premium recovers A", num("insurance_equivalence", obj.insurance_equivalence, premium=got, b=b, discrete=disc), A, r, r)
    eq("net premium recovers a", num("annuity_equivalence", obj.annuity_equivalence, premium=got, b=b, discrete=disc), a, r, r / d)
    return 1e-6 < R.S(x, s, t) < 1 - 1e-9 and (s > 0 or b != 1)


SUBS = [Sub("premium", lambda tier: strat(), check, 2000, what="net premium vs EPV(benefits)/EPV(unit premium) from first principles"),
        Sub("equivalence", lambda tier: s_eqv(), check_eqv, 800, what="premium, insurance and annuity equivalence formulas with mortality values")]
