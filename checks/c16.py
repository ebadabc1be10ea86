"""C16 gross policy values are expected future losses of the contract."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, life, build, rate, rate0
from lib import ref, pol
from lib.pol import contract
import actuarialmath as am
from checks.c10 import lifeV, dom

RULE = ("cases draw contract terms with expenses, a model, start [x]+s, whole life or a term n with no, equal or other endowment, duration t from issue to maturity, timing, value or "
        "variance; the oracle adds up remaining claims, endowment and expenses less premiums at [x]+s+t (initial expenses only at issue), and the law of the loss for variances; "
        "non-trivial = 0 < t < n, survival from t is in (0,1)")
ASSUMPTIONS = ["non-negative interest (formulas that divide by the rate: positive)", "infinite lifetimes: survivors at the model's maximum age have a present value below 1e-9", "select tables: inside the table's rows"]


@st.composite
def strat(draw, tier="quick"):
    disc = draw(st.sampled_from([True, True, False]))
    L = draw(lifeV(disc))
    left = L["left"] if L["left"] is not None else 40
    sel = L["kind"] == "select"
    if sel and left < 1:
        L["x"], L["s"], left = L["t"]["x0"], 0, len(L["t"]["rows"]) - 1
    whole = not sel and draw(st.integers(0, 2)) == 0
    n = draw(st.integers(1, max(1, left)))
    t = draw(st.integers(0, max(0, left - 1))) if whole else draw(st.sampled_from([0, n]) | st.integers(0, n) | st.integers(0, n))
    k = draw(contract(endow=not whole))
    var = not sel and (whole or k["endowment"] == pol.claims(k)) and draw(st.booleans())
    return {"life": L, "disc": disc, "n": -1 if whole else n, "t": t, "c": k, "var": var, "i": draw(rate0), "T": draw(st.booleans())}


def check(c):
    L, disc, n, t, k = c["life"], c["disc"], c["n"], c["t"], c["c"]
    v = 1 / (1 + c["i"])
    obj, R = build(L, c["i"])
    if not dom(c, L, R, v):
        return False
    x, s = L["x"], L["s"]
    if R.S(x, s, t) < 1e-7 or (n < 0 and R.end(x, s) <= t) or (n < 0 and L["kind"] == "sult" and t > L["left"] - 12):
        return False
    N = None if n < 0 else n
    rem = None if N is None else n - t
    con = pol.make(k, discrete=disc, **({"T": n} if c["T"] else {}))
    kw = dict(s=s, t=t, contract=con, **({} if N is None else {"n": n}))
    lab = f"(x={x},s={s},t={t},n={N},contract={k},discrete={disc},i={c['i']})"
    r = 1e-5 if disc else 3e-4 if L["kind"] == "law" and L["law"].get("alpha", 1) < 1 else 6e-5
    size = max(pol.claims(k), k["endowment"]) + (abs(pol.profit(k)) + abs(pol.initial(k))) * min(10, 1 / max(c["i"], .01))
    if c["var"]:
        got = num("gross_policy_variance" + lab, obj.gross_policy_variance, x, **kw)
        want = pol.moments(R, x, s + t, pol.loss(k, v, rem, disc, t), rem, disc)[1]
        at = r * (pol.claims(k) + abs(pol.profit(k)) / max(c["i"], .02))**2
        eq("gross_policy_variance" + lab, got, want, r, at)
        if got < -at:
            fail(f"negative variance {got}")
    else:
        got = num("gross_policy_value" + lab, obj.gross_policy_value, x, **kw)
        A = ref.ins(R, v, x, s + t, t=rem, discrete=disc)
        a = ref.ann(R, v, x, s + t, t=rem, discrete=disc)
        E = v**rem * R.S(x, s + t, rem) if rem is not None else 0.
        want = pol.claims(k) * A + k["endowment"] * E + (pol.initial(k) if t == 0 else 0.) - pol.profit(k) * a
        eq("gross_policy_value" + lab, got, want, r, 2 * r * size)
        if rem == 0:
            eq("gross value at maturity is the endowment" + lab, got, k["endowment"], 1e-9, 1e-9)
        if N is None or k["endowment"] == pol.claims(k):
            # formulas starting from given factors
            A1 = A + E
            cc = con if t == 0 else con.renewals(t)
            for what, f in (("A", dict(A=A1)), ("a", dict(a=a)), ("A,a", dict(A=A1, a=a)))[2 * (c["i"] == 0):]:
                eq(f"gross_future_loss({what})" + lab, num("gross_future_loss", obj.gross_future_loss, contract=cc, **f), want, 4 * r, 8 * r * size * (1 + 0.05 / max(c["i"], .005)))
            if c["i"] == 0:         # the variance formula needs interest
                return 0 < t and (rem is None or rem > 0) and 1e-6 < R.S(x, s + t, 1) < 1 - 1e-9
            A2 = ref.ins(R, v, x, s + t, t=rem, moment=2, discrete=disc, end=1 if N is not None else 0)
            got = num("gross_variance_loss", obj.gross_variance_loss, A1=A1, A2=A2, contract=cc)
            d = (1 - v) if disc else -math.log(v)
            eq("gross_variance_loss", got, (pol.claims(k) + pol.profit(k) / d)**2 * (A2 - A1 * A1), 1e-9, 1e-12 * (pol.claims(k) + pol.profit(k) / d)**2)
    return 0 < t and (rem is None or rem > 0) and 1e-6 < R.S(x, s + t, 1) < 1 - 1e-9


@st.composite
def s_chain(draw, tier="quick"):
    c = draw(strat())
    return dict(c, var=False, T=False)


def check_chain(c):
    """equal policies valued two ways: the value is linear in the cash flows, and expenses-free net-premium contracts give net values"""
    L, disc, n, t, k = c["life"], c["disc"], c["n"], c["t"], c["c"]
    v = 1 / (1 + c["i"])
    obj, R = build(L, c["i"])
    if not dom(c, L, R, v):
        return False
    x, s = L["x"], L["s"]
    if R.S(x, s, t) < 1e-7 or (n < 0 and R.end(x, s) <= t):
        return False
    kn = {} if n < 0 else {"n": n}
    e = {} if n < 0 or not k["endowment"] else {"endowment": k["endowment"]}
    P = num("net_premium", obj.net_premium, x, s=s, b=k["benefit"], discrete=disc, **({} if n < 0 else {"t": n}), **e)
    if P > 1e4 * k["benefit"]:
        return False
    net = dict(k, premium=P, settlement_policy=0., initial_policy=0., initial_premium=0., renewal_policy=0., renewal_premium=0.)
    g = num("gross_policy_value(net premium, no expenses)", obj.gross_policy_value, x, s=s, t=t, contract=pol.make(net, discrete=disc), **kn)
    w = num("net_policy_value", obj.net_policy_value, x, s=s, t=t, b=k["benefit"], discrete=disc, **kn, **({} if n < 0 else {"endowment": k["endowment"]}))
    r = 2e-5 if disc else 4e-4
    if L["kind"] == "sult" and n < 0 and t > L["left"] - 12:
        return False
    eq(f"gross value with net premium = net value (x={x},s={s},t={t},n={n},contract={k})", g, w, r, r * (max(k["benefit"], k["endowment"]) + 10 * P))
    V1 = num("gross_policy_value", obj.gross_policy_value, x, s=s, t=t, contract=pol.make(k, discrete=disc), **kn)
    k2 = {f: (q if f in ("initial_premium", "renewal_premium") else 3 * q) for f, q in k.items()}
    V3 = num("gross_policy_value", obj.gross_policy_value, x, s=s, t=t, contract=pol.make(k2, discrete=disc), **kn)
    eq("value scales with the contract", V3, 3 * V1, 1e-6, 1e-6 * pol.claims(k))
    return 0 < t and (n < 0 or n > t) and (k["initial_policy"] > 0 or s > 0)


SUBS = [Sub("policies", lambda tier: strat(), check, 2000, what="gross policy values and variances vs first principles; formulas from given factors"),
        Sub("consistency", lambda tier: s_chain(), check_chain, 600, what="net premium without expenses gives net values; scaling")]


@st.composite
def s_formula(draw, tier="quick"):
    return {"A": draw(st.sampled_from([0., 1.]) | rnd(0, 3, 3)), "a": draw(st.sampled_from([0., 1.]) | rnd(0, 30, 2)), "A2": draw(rnd(0, 1, 3)), "i": draw(rate), "c": draw(contract()),
            "disc": draw(st.booleans()), "T": draw(st.just(-999) | st.integers(1, 30)), "t": draw(st.sampled_from([None, 0, 1, 5]))}


def check_formula(c):
    """the formulas on arbitrary factors, none and twins"""
    o = call("set_interest", am.PolicyValues().set_interest, i=c["i"])
    k, A, a, disc = c["c"], c["A"], c["a"], c["disc"]
    con = pol.make(k, discrete=disc, T=c["T"])
    k = dict(k)
    if c["t"] is not None:
        con = call("renewals", con.renewals, c["t"])
        k.update(initial_policy=k["renewal_policy"], initial_premium=k["renewal_premium"])
    r = c["i"] / (1 + c["i"]) if disc else math.log1p(c["i"])
    for what, kw, A_, a_ in (("A, a", dict(A=A, a=a), A, a), ("A", dict(A=A), A, (1 - A) / r), ("a", dict(a=a), 1 - r * a, a)):
        want = pol.claims(k) * A_ + pol.initial(k) - pol.profit(k) * a_
        size = pol.claims(k) * (1 + abs(A_)) + abs(pol.initial(k)) + abs(pol.profit(k)) * (1 + abs(a_))
        eq(f"gross_future_loss({what} = {kw})", num("gross_future_loss", o.gross_future_loss, contract=con, **kw), want, 1e-9, 1e-11 * size * (1 + 1 / r))
    A1 = min(A, 1.)
    A2 = A1 * A1 + (A1 - A1 * A1) * c["A2"]
    f = (pol.claims(k) + pol.profit(k) / r)**2
    eq("gross_variance_loss", num("gross_variance_loss", o.gross_variance_loss, A1=A1, A2=A2, contract=con), f * (A2 - A1 * A1), 1e-9, 1e-12 * f)
    return k["initial_policy"] > 0 and (A in (0., 1.) or a in (0., 1.) or not disc)


SUBS.append(Sub("formulas", lambda tier: s_formula(), check_formula, 1000, what="value and variance formulas on arbitrary factors"))
