"""C20 full preliminary term reserves are net reserves of the shifted policy."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, life, build, rate, rate0
from lib import ref, pol
import actuarialmath as am
from checks.c08 import amount
from checks.c10 import lifeV, dom

RULE = ("cases draw a model, start [x]+s, whole life or term n (with or without endowment), duration t, benefit, timing; the oracle values the remaining cash flows of the policy with the "
        "full-preliminary-term premiums from first principles; non-trivial = t >= 2 within the term and survival from t is in (0,1)")
ASSUMPTIONS = ["non-negative interest (formulas that divide by the rate: positive)", "terms of at least two years", "infinite lifetimes: survivors at the model's maximum age have a present value below 1e-9"]


@st.composite
def strat(draw, tier="quick"):
    disc = draw(st.sampled_from([True, True, True, False]))
    L = draw(lifeV(disc))
    left = L["left"] if L["left"] is not None else 40
    sel = L["kind"] == "select"
    if sel and left < 2:
        L["x"], L["s"], left = L["t"]["x0"], 0, len(L["t"]["rows"]) - 1
    n = draw(st.integers(2, max(2, left)))
    if sel:
        n = min(n, left)
    whole = not sel and draw(st.booleans())
    b = draw(amount)
    end = 0 if whole else draw(st.sampled_from([0, b]) | amount)
    t = draw(st.sampled_from([0, 1]) | st.integers(0, max(1, left - 1) if whole else n) | st.integers(2, max(2, left - 1) if whole else n))
    return {"life": L, "disc": disc, "n": -1 if whole else n, "t": t, "b": b, "end": end, "i": draw(rate0)}


def check(c):
    L, disc, n, t, b, e = c["life"], c["disc"], c["n"], c["t"], c["b"], c["end"]
    i = c["i"]
    v = 1 / (1 + i)
    obj, R = build(L, i)
    if not dom(c, L, R, v):
        return False
    x, s = L["x"], L["s"]
    if R.S(x, s, t) < 1e-7 or R.S(x, s, 1) < 1e-4 or (n < 0 and (R.end(x, s) <= t or L["kind"] == "sult" and t > L["left"] - 12)):
        return False
    N = None if n < 0 else n - 1
    kn = {} if n < 0 else {"n": n}
    lab = f"(x={x},s={s},n={n},t={t},b={b},endowment={e},discrete={disc},i={i})"
    # premiums of the term/whole life policy, annual
    if disc or L["kind"] in ("law", "table", "sult", "base"):
        first = num("FPT_premium(first)" + lab, obj.FPT_premium, x, s=s, b=b, first=True, **kn)
        eq("first-year premium is the one-year term net premium" + lab, first, b * v * R.tq(x, s, 1), 1e-6, 1e-7 * b)
        ren = num("FPT_premium" + lab, obj.FPT_premium, x, s=s, b=b, **kn)
        a = ref.ann(R, v, x, s + 1, t=N)
        want = ref.ins(R, v, x, s + 1, t=N, b=lambda z: b) / a
        eq("renewal premium is the net premium one year older" + lab, ren, want, 1e-5, 1e-6 * b)
        eq("renewal premium is the net premium one year older (library)" + lab, ren, num("net_premium", obj.net_premium, x, s=s + 1, b=b, **({} if N is None else {"t": N})), 1e-9)
        # the two premiums pay for the policy
        A = ref.ins(R, v, x, s, t=None if n < 0 else n, b=lambda z: b)
        eq("premiums pay for the policy" + lab, first + ren * v * R.S(x, s, 1) * a, A, 1e-5, 1e-6 * b)
    V = num("FPT_policy_value" + lab, obj.FPT_policy_value, x, s=s, t=t, b=b, endowment=e, discrete=disc, **kn)
    if t <= 1:
        eq("reserve is zero at issue and at the end of year one" + lab, V, 0., 0, 0)
        return False
    rem = None if n < 0 else n - t
    A1 = ref.ins(R, v, x, s + 1, t=N, b=lambda z: b, discrete=disc, end=e)
    a1 = ref.ann(R, v, x, s + 1, t=N, discrete=disc)
    if a1 < 0.05:
        return False
    P = A1 / a1
    want = ref.ins(R, v, x, s + t, t=rem, b=lambda z: b, discrete=disc, end=e) - P * ref.ann(R, v, x, s + t, t=rem, discrete=disc)
    if rem == 0:
        want = e
    r = 1e-5 if disc else 3e-4 if L["kind"] == "law" and L["law"].get("alpha", 1) < 1 else 6e-5
    eq("FPT_policy_value" + lab, V, want, r, r * (max(b, e) + 10 * P))
    eq("FPT reserve = net value of the policy issued a year later" + lab, V,
       num("net_policy_value", obj.net_policy_value, x, s=s + 1, t=t - 1, b=b, endowment=e, discrete=disc, **({} if n < 0 else {"n": n - 1})), 1e-9, 1e-9 * b)
    return (n < 0 or t < n) and 1e-6 < R.S(x, s + t, 1) < 1 - 1e-9


SUBS = [Sub("fpt", lambda tier: strat(), check, 1500, what="full preliminary term premiums and reserves vs remaining cash flows")]
