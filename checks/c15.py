"""C15 net policy values are expected future losses at the net premium."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, life, build, rate, rate0
from lib import ref, pol
import actuarialmath as am
from checks.c08 import amount
from checks.c10 import lifeV, dom

RULE = ("cases draw a model, start [x]+s, policy (whole life, endowment of equal or other amount, term), term n, duration t from issue to maturity, amounts, timing, value or variance; "
        "the oracle is EPV(benefits) - P EPV(premiums) at [x]+s+t with P from first principles, and the law of the present value for variances; "
        "non-trivial = 0 < t < n, survival from t is in (0,1)")
ASSUMPTIONS = ["non-negative interest (formulas that divide by the rate: positive)", "infinite lifetimes: survivors at the model's maximum age have a present value below 1e-9", "select tables: inside the table's rows"]


@st.composite
def strat(draw, tier="quick"):
    disc = draw(st.sampled_from([True, True, False]))
    L = draw(lifeV(disc))
    left = L["left"] if L["left"] is not None else 40
    sel = L["kind"] == "select"
    if sel and left < 1:
        L["x"], L["s"], left = L["t"]["x0"], 0, len(L["t"]["rows"]) - 1
    prod = draw(st.sampled_from(["endow", "special", "term"] + ([] if sel else ["whole", "whole"])))
    n = draw(st.integers(1, max(1, left)))
    if prod == "whole":
        t = draw(st.integers(0, max(0, left - 1)))
    else:
        t = draw(st.sampled_from([0, n]) | st.integers(0, n) | st.integers(0, n))
    b = draw(amount)
    var = prod in ("whole", "endow") and not sel and draw(st.booleans())
    return {"life": L, "disc": disc, "prod": prod, "n": n, "t": t, "b": b, "end": {"endow": b, "term": 0, "whole": 0}.get(prod, draw(amount)), "var": var, "i": draw(rate0)}


def check(c):
    L, disc, prod, n, t, b, e = c["life"], c["disc"], c["prod"], c["n"], c["t"], c["b"], c["end"]
    v = 1 / (1 + c["i"])
    obj, R = build(L, c["i"])
    if not dom(c, L, R, v):
        return False
    x, s = L["x"], L["s"]
    if R.S(x, s, t) < 1e-7 or (prod == "whole" and R.end(x, s) <= t):
        return False
    if prod == "whole" and L["kind"] == "sult" and t > L["left"] - 12:
        return False                # some still alive when the table ends
    N = None if prod == "whole" else n
    rem = None if N is None else n - t
    A0 = ref.ins(R, v, x, s, t=N, b=lambda z: b, discrete=disc, end=e)
    a0 = ref.ann(R, v, x, s, t=N, discrete=disc)
    if a0 < 0.05:
        return False
    P = A0 / a0
    kw = dict(s=s, t=t, b=b, discrete=disc)
    if N is not None:
        kw.update(n=n, endowment=e)
    B = max(b, e)
    r = 1e-5 if disc else 3e-4 if L["kind"] == "law" and L["law"].get("alpha", 1) < 1 else 6e-5
    lab = f"(x={x},{kw},i={c['i']})"
    con = {"benefit": b, "settlement_policy": 0., "premium": P, "renewal_premium": 0., "renewal_policy": 0., "initial_policy": 0., "initial_premium": 0., "endowment": e}
    if c["var"]:
        got = num("net_policy_variance" + lab, obj.net_policy_variance, x, **kw)
        want = pol.moments(R, x, s + t, pol.loss(con, v, rem, disc, 1), rem, disc)[1]
        at = r * (B + P / max(c["i"], .02))**2
        eq("net_policy_variance" + lab, got, want, r, at)
        if got < -at:
            fail(f"negative variance {got}")
    else:
        got = num("net_policy_value" + lab, obj.net_policy_value, x, **kw)
        want = ref.ins(R, v, x, s + t, t=rem, b=lambda z: b, discrete=disc, end=e) - P * ref.ann(R, v, x, s + t, t=rem, discrete=disc)
        if rem == 0:
            want = e
        at = r * (B + P * 10)
        eq("net_policy_value" + lab, got, want, r, at)
        if t == 0:
            eq("net policy value at issue" + lab, got, 0., 0, at)
        if prod == "endow" or prod == "whole":
            # 1 - a(t)/a(0), from the library's own annuities
            if prod == "whole":
                f = lambda k: num("whole_life_annuity", obj.whole_life_annuity, x, s=s + k, discrete=disc)
                g = lambda k: num("whole_life_insurance", obj.whole_life_insurance, x, s=s + k, discrete=disc)
            else:
                f = lambda k: num("temporary_annuity", obj.temporary_annuity, x, s=s + k, t=n - k, discrete=disc)
                g = lambda k: num("endowment_insurance", obj.endowment_insurance, x, s=s + k, t=n - k, discrete=disc)
            eq("b (1 - a(t)/a(0))" + lab, b * (1 - f(t) / f(0)), want, r, 2 * at)
            if c["i"] == 0:         # the other forms need interest
                return 0 < t and (rem is None or rem > 0) and 1e-6 < R.S(x, s + t, 1) < 1 - 1e-9
            eq("net_future_loss = b (A(t)-A(0))/(1-A(0))", num("net_future_loss", obj.net_future_loss, A=g(0), A1=g(t), b=b), want, r, 2 * at)
            if rem != 0:
                P0, Pt = (num("premium_equivalence", obj.premium_equivalence, A=g(k), b=b, discrete=disc) for k in (0, t))
                eq("(P(t) - P(0)) a(t)", (Pt - P0) * f(t), want, r, 2 * at)
    return 0 < t and (rem is None or rem > 0) and 1e-6 < R.S(x, s + t, 1) < 1 - 1e-9


@st.composite
def s_alg(draw, tier="quick"):
    return {"A": draw(rnd(0.01, 0.9, 3)), "A1": draw(rnd(0.01, 1, 3)), "d": draw(rnd(0, 0.2, 3)), "b": draw(amount)}


def check_alg(c):
    """the shortcut formulas on arbitrary factors"""
    o = am.PolicyValues()
    A, A1, b = c["A"], c["A1"], c["b"]
    A2 = min(1., A1**2 + c["d"])
    eq("net_future_loss", num("net_future_loss", o.net_future_loss, A=A, A1=A1, b=b), b * (1 - (1 - A1) / (1 - A)), 1e-9, 1e-9 * b)
    eq("net_variance_loss", num("net_variance_loss", o.net_variance_loss, A=A, A1=A1, A2=A2, b=b), b * b * (A2 - A1 * A1) / (1 - A)**2, 1e-9, 1e-9 * b * b)
    if A1 < 0.95:
        eq("net_variance_loss at issue", num("net_variance_loss", o.net_variance_loss, A1=A1, A2=A2, b=b), b * b * (A2 - A1 * A1) / (1 - A1)**2, 1e-9, 1e-9 * b * b)
    return b != 1 and c["d"] > 0


SUBS = [Sub("policies", lambda tier: strat(), check, 1800, what="net policy values and variances vs first principles, and the three shortcut forms"),
        Sub("formulas", lambda tier: s_alg(), check_alg, 200, what="shortcut formulas on arbitrary factors")]
