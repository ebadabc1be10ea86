"""C11 life annuities are worth their expected present value; variance is that of the payments."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import past, rnd, life, build, rate, rate0
from lib import ref
import actuarialmath as am
from checks.c08 import amount, prep, domain
from checks.c09 import s_ann, check_ann

RULE = ("cases draw a model, start [x]+s, interest (0 for values too), a contract type (whole life, temporary, deferred, immediate, certain-and-life, "
        "by first principles), term, deferral, amount, value or variance; the oracle sums payments times survival, and for variances the law of the "
        "present value itself; non-trivial = survival to the middle of the contract is in (0,1) and amount != 1 or s > 0 or variance")
ASSUMPTIONS = ["infinite lifetimes: survivors at the model's maximum age have a present value below 1e-9",
               "select tables: values, and certain death at the end of the table"]


@st.composite
def strat(draw, tier="quick"):
    L = prep(draw, draw(life(("table", "ltab", "law", "base", "select", "sult"))))
    left = L["left"] if L["left"] is not None else 45
    sel = L["kind"] == "select"
    prod = draw(st.sampled_from(["temp", "deferred_t", "immediate_t", "certain_t", "a_x", "E+"] + ["whole", "deferred", "immediate", "certain"]))
    u = draw(st.integers(0, max(0, left))) if prod in ("deferred", "deferred_t", "certain", "certain_t", "a_x") else 0
    u = left + past(draw, L) if u and u > left - 3 else u
    if prod.startswith("certain") and draw(st.integers(0, 9)) == 0:
        u += 4
    t = draw(st.sampled_from([0, 1, 2, 5]) | st.integers(0, max(1, left - u) + 3))
    var = prod in ("whole", "temp", "immediate", "immediate_t") and draw(st.integers(0, 2)) == 0 and not sel
    i = draw(rate0)
    if not var and draw(st.integers(0, 7)) == 0:
        i = 0.
    return {"life": L, "prod": prod, "u": u, "t": t, "b": draw(amount), "var": var, "i": i}


def dom(L, R, v):
    if v == 1 and L["kind"] in ("law", "base") and L["law"].get("omega") is None:
        return R.S(L["x"], L["s"], (160 if L["kind"] == "base" else 1000) - L["x"] - L["s"]) < 1e-11
    return v == 1 or domain(L, R, v)


def check(c):
    L, prod, u, t, b, var = c["life"], c["prod"], c["u"], c["t"], c["b"], c["var"]
    v = 1 / (1 + c["i"])
    obj, R = build(L, c["i"])
    if not dom(L, R, v):
        return False
    x, s = L["x"], L["s"]
    lab = f"{prod}(x={x},s={s},u={u},t={t},b={b},var={var},i={c['i']})"
    kw = dict(s=s, b=b)
    dd = dict(discrete=True)
    if var:
        kw["variance"] = True
        tt = None if prod in ("whole", "immediate") else t
        if prod == "whole":
            got = num(lab, obj.whole_life_annuity, x, **kw, **dd)
        elif prod == "temp":
            got = num(lab, obj.temporary_annuity, x, t=t, **kw, **dd)
        else:
            got = num(lab, obj.immediate_annuity, x, **kw, **({} if tt is None else {"t": t}))
            tt = None if tt is None else tt + 1
        want = ref.ann_moments(R, v, x, s, tt)[1] * b * b if tt != 0 else 0.
        d = max(1 - v, .005)
        eq(lab, got, want, 2e-5, 1e-7 * b * b / d**2)
        if got < -1e-7 * b * b / d**2:
            fail(f"{lab} is a negative variance {got}")
        return 1e-6 < R.S(x, s, max(1, t // 2)) < 1 - 1e-9
    bb = lambda k: b
    if prod == "whole":
        got, want = num(lab, obj.whole_life_annuity, x, **kw, **dd), ref.ann(R, v, x, s, b=bb)
    elif prod == "temp":
        got, want = num(lab, obj.temporary_annuity, x, t=t, **kw, **dd), ref.ann(R, v, x, s, t=t, b=bb)
    elif prod == "deferred":
        got, want = num(lab, obj.deferred_annuity, x, u=u, **kw, **dd), ref.ann(R, v, x, s, u=u, b=bb)
    elif prod == "deferred_t":
        got, want = num(lab, obj.deferred_annuity, x, u=u, t=t, **kw, **dd), ref.ann(R, v, x, s, u=u, t=t, b=bb)
    elif prod == "immediate":
        got, want = num(lab, obj.immediate_annuity, x, **kw), ref.ann(R, v, x, s, u=1, b=bb)
    elif prod == "immediate_t":
        got, want = num(lab, obj.immediate_annuity, x, t=t, **kw), ref.ann(R, v, x, s, u=1, t=t, b=bb)
    elif prod.startswith("certain"):
        tk = {} if prod == "certain" else {"t": t}
        got = num(lab, obj.certain_life_annuity, x, u=u, **tk, **kw, **dd)
        want = b * ref.annsum(v, u) + ref.ann(R, v, x, s, u=u, t=tk.get("t"), b=bb)
    elif prod == "a_x":
        got = num(lab, obj.a_x, x, s=s, u=u, t=t, benefit=lambda x, k: b)
        want = ref.ann(R, v, x, s, u=u, t=t, b=bb)
    else:        # one payment at a time
        got = math.fsum(b * num("E_x", obj.E_x, x, s=s, t=k) for k in range(t))
        want = ref.ann(R, v, x, s, t=t, b=bb)
    d = max(1 - v, 0.005)
    eq(lab, got, want, 2e-6, 4e-7 * b / d)
    return 1e-6 < R.S(x, s, max(1, u + t // 2)) < 1 - 1e-9 and (b != 1 or s > 0)


@st.composite
def s_rel(draw, tier="quick"):
    L = prep(draw, draw(life(("table", "ltab", "law", "base", "sult"))))
    left = L["left"] if L["left"] is not None else 40
    t = draw(st.integers(1, max(1, left - 1)))
    return {"life": L, "t": t, "u": draw(st.integers(0, max(0, left - t))), "b": draw(amount), "k": draw(st.integers(2, 50)), "i": draw(rate)}


def check_rel(c):
    L, t, u, b, k = c["life"], c["t"], c["u"], c["b"], c["k"]
    v, d = 1 / (1 + c["i"]), c["i"] / (1 + c["i"])
    obj, R = build(L, c["i"])
    if not dom(L, R, v):
        return False
    x, s, D = L["x"], L["s"], dict(discrete=True)
    n = lambda lab, f, *a, **q: num(lab, f, *a, **q)
    W = n("whole", obj.whole_life_annuity, x, s=s, **D)
    T = n("temporary", obj.temporary_annuity, x, s=s, t=t, **D)
    A = n("A", obj.whole_life_insurance, x, s=s, **D)
    AE = n("A:t", obj.endowment_insurance, x, s=s, t=t, **D)
    tol = 1e-6 / d
    eq("a = (1 - A)/d", W, (1 - A) / d, 1e-8, tol)
    eq("a:t = (1 - A:t)/d", T, (1 - AE) / d, 1e-8, tol)
    eq("annuity_twin", n("annuity_twin", obj.annuity_twin, A, **D), (1 - A) / d, 1e-10, 1e-10)
    eq("insurance_twin", n("insurance_twin", obj.insurance_twin, W, **D), 1 - d * W, 1e-10, 1e-10)
    eq("twins are inverse", n("insurance_twin", obj.insurance_twin, n("annuity_twin", obj.annuity_twin, A, **D), **D), A, 1e-9, 1e-9)
    A2 = n("2A", obj.whole_life_insurance, x, s=s, moment=2, **D)
    eq("annuity_variance", n("annuity_variance", obj.annuity_variance, A2=A2, A1=A, b=b, **D), b * b * max(0, A2 - A * A) / d**2, 1e-9, 1e-9)
    eq("continuous annuity_twin", n("annuity_twin", obj.annuity_twin, A, discrete=False), (1 - A) / math.log1p(c["i"]), 1e-10, 1e-10)
    eq("continuous insurance_twin", n("insurance_twin", obj.insurance_twin, W, discrete=False), 1 - W * math.log1p(c["i"]), 1e-10, 1e-10)
    if L["left"] is None or t < L["left"]:
        Df = n("deferred", obj.deferred_annuity, x, s=s, u=t, **D)
        eq("whole = temporary + deferred", W, T + Df, 1e-7, tol)
        if L["left"] is None or t + u < L["left"]:
            eq("deferred temporary", n("deferred temporary", obj.deferred_annuity, x, s=s, u=t, t=u, **D),
               n("temporary", obj.temporary_annuity, x, s=s, t=t + u, **D) - T, 1e-7, tol)
    for name, f in (("whole", lambda B, q: obj.whole_life_annuity(x, s=s, b=B, variance=q, **D)),
                    ("temporary", lambda B, q: obj.temporary_annuity(x, s=s, t=t, b=B, variance=q, **D)),
                    ("immediate", lambda B, q: obj.immediate_annuity(x, s=s, t=t, b=B, variance=q))):
        eq(f"{name} scales with the amount", n(name, f, b * k, False), k * n(name, f, b, False), 1e-8, 1e-7)
        eq(f"{name} variance scales with its square", n(name, f, b * k, True), k * k * n(name, f, b, True), 1e-7, 1e-7)
    eq("one payment", n("temporary", obj.temporary_annuity, x, s=s, t=1, b=b, **D), b, 1e-7, 1e-6 * b / d)
    return 1e-6 < R.S(x, s, t) < 1 - 1e-9


SUBS = [Sub("contracts", lambda tier: strat(), check, 2000, what="every discrete annuity and its variance vs payments times survival"),
        Sub("relations", lambda tier: s_rel(), check_rel, 600, what="twins, decompositions, scaling"),
        Sub("continuous", lambda tier: s_ann(), check_ann, 600, what="continuous annuities and their variance vs integrals, at zero interest too")]
