"""C17 loss at issue as a random variable."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, life, build, rate, rate0
from lib import ref, pol
from lib.pol import contract
import actuarialmath as am
from checks.c10 import lifeV, dom
from checks.c12 import lifeS, inv, beyond

RULE = ("cases draw contract terms (premium positive after expenses), whole life or a term with an endowment, timing, interest, a time of death, a probability and a survival law; the oracle is "
        "the cash flow of the policy itself; non-trivial = expenses or finite term, and the time of death is after year 1")
ASSUMPTIONS = ["non-negative interest (formulas that divide by the rate: positive)", "losses that do not increase with the time of death (a later claim and more premiums), as documented for the inverse",
               "percentile and probability functions apply to lives defined by a survival function"]


@st.composite
def con(draw):
    k = draw(contract())
    T = draw(st.just(-999) | st.integers(1, 40))
    if T < 0:
        k["endowment"] = 0.
    return k, T


@st.composite
def strat(draw, tier="quick"):
    k, T = draw(con())
    return {"c": k, "T": T, "disc": draw(st.booleans()), "i": draw(rate0), "t": draw(rnd(0, 45, 2) | st.integers(0, 45) | st.integers(0, 45) | rnd(0, 400, 1)), "life": draw(lifeS()), "p": draw(rnd(0.01, 0.99, 3))}


def mono(k, v, n, disc):
    """loss does not increase with the time of death"""
    if pol.profit(k) < 0:
        return False
    if n is not None:
        f = pol.loss(k, v, n, disc)
        return f(n) <= f(n - 1 if disc else n - 1e-9) + 1e-12
    return True


def check(c):
    k, T, disc, i, t, p = c["c"], c["T"], c["disc"], c["i"], c["t"], c["p"]
    v = 1 / (1 + i)
    obj, R = build(c["life"], i)
    x = c["life"]["x"]
    C = pol.make(k, discrete=disc, T=T)
    n = None if T < 0 else T
    f = pol.loss(k, v, n, disc)
    size = pol.claims(k) + k["endowment"] + abs(pol.profit(k)) * 20 + abs(pol.initial(k))
    lab = f"(t={t},T={T},contract={k},discrete={disc},i={i})"
    L = num("L_from_t" + lab, obj.L_from_t, t, contract=C)
    eq("L_from_t" + lab, L, f(t), 1e-9, 1e-9 * size)
    if not mono(k, v, n, disc):
        return False
    LL = c["life"]
    limit = 160 if LL["kind"] == "base" else 1000
    if LL["kind"] in ("table", "select", "sult"):
        limit = x + LL["s"] + LL["left"]           # the last age of the table
    elif LL["law"].get("omega"):
        limit = LL["law"]["omega"]
    if t < limit - 1 and v**t > 1e-7:
        got = num("L_to_t" + lab, obj.L_to_t, L, contract=C)
        if disc:
            first = next(j for j in range(math.floor(t) + 1) if f(j) <= f(t) + 2e-9 * max(1., abs(f(t))))
            eq("L_to_t(L_from_t(t))" + lab, got, first, 0, 0)
        elif n is None or t < n:
            eq("L_to_t(L_from_t(t))" + lab, got, t, 1e-6, 1e-6 + 1e-10 / v**t)
        else:
            eq("L_to_t(L_from_t(t))" + lab, got, n, 1e-6, 1e-6)
        # earliest time at which the loss is within any level
        lev = f(t) + 0.3 * (f(0) - f(t))
        g = num("L_to_t" + lab, obj.L_to_t, lev, contract=C)
        if not f(g + (0 if disc else 1e-6)) <= lev + 1e-6 * size:
            fail(f"L_to_t({lev}){lab} = {g}: loss there is {f(g)}")
        if g > 1e-3 and not f(g - (1 if disc else 1e-3)) > lev - 1e-9 * size and f(0) > lev:
            fail(f"L_to_t({lev}){lab} = {g}: already within the level before")
        if not beyond(c["life"], x, g, R) and abs(R.end(x, 0) - g) > 1e-3 and (g < R.end(x, 0) or c["life"]["kind"] == "law"):
            eq("L_to_prob = Pr(L <= level)" + lab, num("L_to_prob", obj.L_to_prob, x, lev, contract=C), R.S(x, 0, g), 1e-5, 1e-7)
    # percentile
    tt = inv(R, x, p)
    if beyond(c["life"], x, tt, R):
        return False
    if disc and not 1e-4 < tt % 1 < 1 - 1e-4 or n is not None and abs(tt - n) < 1e-4:
        return False
    got = num(f"L_from_prob(prob={p})" + lab, obj.L_from_prob, x, prob=p, contract=C)
    eq(f"L_from_prob(prob={p})" + lab, got, f(tt), 1e-5, 1e-5 * size)
    return t > 1 and (k["initial_policy"] > 0 or T > 0)


@st.composite
def s_mean(draw, tier="quick"):
    disc = draw(st.sampled_from([True, True, False]))
    L = draw(lifeV(disc))
    left = L["left"] if L["left"] is not None else 40
    sel = L["kind"] == "select"
    if sel and left < 1:
        L["x"], L["s"], left = L["t"]["x0"], 0, len(L["t"]["rows"]) - 1
    k, T = draw(con())
    if sel and T < 0:
        T = left
    if T > 0 and L["left"] is not None:
        T = min(T, max(1, left))
    return {"life": L, "disc": disc, "c": k, "T": T, "i": draw(rate0)}


def check_mean(c):
    """the expectation of the library's own loss is its gross policy value at issue"""
    L, disc, k, T = c["life"], c["disc"], c["c"], c["T"]
    v = 1 / (1 + c["i"])
    obj, R = build(L, c["i"])
    if not dom(c, L, R, v):
        return False
    x, s = L["x"], L["s"]
    n = None if T < 0 else T
    C = pol.make(k, discrete=disc, T=T)
    f = lambda z: num("L_from_t", obj.L_from_t, z, contract=C)
    m, var = pol.moments(R, x, s, f, n, disc)
    V = num("gross_policy_value", obj.gross_policy_value, x, s=s, contract=C, **({} if n is None else {"n": n}))
    size = pol.claims(k) + k["endowment"] + abs(pol.profit(k)) * min(20, 1 / max(c["i"], .01)) + abs(pol.initial(k))
    r = 1e-5 if disc else 3e-4
    eq(f"E[L] (x={x},s={s},T={T},contract={k},discrete={disc})", m, V, r, r * size)
    if L["kind"] != "select" and (n is None or k["endowment"] == pol.claims(k)):
        w = num("gross_policy_variance", obj.gross_policy_variance, x, s=s, contract=C, **({} if n is None else {"n": n}))
        eq(f"Var[L] (x={x},s={s},T={T},contract={k},discrete={disc})", w, var, 10 * r, 2 * r * (pol.claims(k) + abs(pol.profit(k)) / max(c["i"], .02))**2)
    return (n is None or n > 1) and k["initial_policy"] > 0


SUBS = [Sub("loss", lambda tier: strat(), check, 1500, what="loss at a time of death, its inverse, percentile and probability"),
        Sub("expectation", lambda tier: s_mean(), check_mean, 600, what="mean and variance of the loss over the lifetime distribution")]
