"""C24 special mortality laws and their shortcuts agree with first principles."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd
from lib import ref
import actuarialmath as am

RULE = ("cases draw a law and its parameters over wide ranges, an age, duration and fraction, interest (0 included), a term, deferral and amount; every method with a "
        "shortcut is compared with sums and integrals of the law's own formula; non-trivial = survival to the middle of the term is in (0.001, 0.9999)")
ASSUMPTIONS = ["force of mortality at the starting age at most 1.5 for unlimited laws", "infinite lifetimes: survivors at the library's oldest age 1000 are worth less than 1e-10"]


@st.composite
def wide(draw):
    k = draw(st.sampled_from(["makeham", "gompertz", "cf", "beta", "beta", "uniform"]))
    if k in ("makeham", "gompertz"):
        B = draw(rnd(0.000001, 0.001, 6))
        d = {"law": k, "B": B, "c": draw(rnd(1.02, 1.2, 3))}
        if k == "makeham":
            d["A"] = draw(st.sampled_from([-B / 2, 0.]) | rnd(0, .03, 4))
        return d
    if k == "cf":
        return {"law": k, "mu": draw(rnd(.002, .8, 3))}
    return {"law": "beta", "omega": draw(st.integers(30, 150)), "alpha": 1 if k == "uniform" else draw(rnd(.3, 5, 2)), "asbeta": k == "beta"}


def build(lw):
    k = lw["law"]
    if k == "makeham":
        return call("Makeham", am.Makeham, A=lw["A"], B=lw["B"], c=lw["c"])
    if k == "gompertz":
        return call("Gompertz", am.Gompertz, B=lw["B"], c=lw["c"])
    if k == "cf":
        return call("ConstantForce", am.ConstantForce, mu=lw["mu"])
    if lw["alpha"] == 1 and not lw["asbeta"]:
        return call("Uniform", am.Uniform, omega=lw["omega"])
    return call("Beta", am.Beta, omega=lw["omega"], alpha=lw["alpha"])


@st.composite
def point(draw, lw):
    top = lw.get("omega")
    s = draw(st.integers(0, 5))
    x = draw(st.integers(0, top - s - 1)) if top and top - s - 1 > 0 else draw(st.integers(0, 90))
    if top:
        s = min(s, top - 1 - x)
    return x, s


@st.composite
def s_surv(draw, tier="quick"):
    lw = draw(wide())
    x, s = draw(point(lw))
    left = lw["omega"] - x - s if lw.get("omega") else 60
    r = draw(st.sampled_from([0., .5]) | rnd(0, .99, 2))
    return {"law": lw, "x": x, "s": s, "r": min(r, left - .01), "t": draw(rnd(0, 40, 2)), "u": draw(st.sampled_from([0., 1.]) | rnd(0, 20, 2)), "n": draw(st.integers(0, 60))}


def check_surv(c):
    lw, x, s, r, t, u, n = c["law"], c["x"], c["s"], c["r"], c["t"], c["u"], c["n"]
    life, R = build(lw), ref.LawRef(lw)
    R.step = .5
    y, w = x + s, lw.get("omega")
    if not w and R._mu(y) > 1.5:
        return False
    tol = dict(rtol=1e-9, atol=1e-12)
    lab = f"({lw}, x={x}, s={s}, r={r}, t={t}, u={u})"
    S = lambda a, z: R._S(a, z)
    eq("S" + lab, call("S", life.S, x, s, t), S(y, t), **tol)
    eq("p_x" + lab, call("p_x", life.p_x, x, s=s, t=t), S(y, t), **tol)
    eq("q_x" + lab, call("q_x", life.q_x, x, s=s, t=t, u=u), S(y, u) - S(y, u + t), 1e-7, 1e-9)
    eq("p_r" + lab, call("p_r", life.p_r, x, s=s, r=r, t=t), S(y + r, t), **tol)
    eq("q_r" + lab, call("q_r", life.q_r, x, s=s, r=r, t=t, u=u), S(y + r, u) - S(y + r, u + t), 1e-9, 1e-11)
    if not w or y + r + t < w - 1e-6:
        f = R._f
        eq("f" + lab, call("f", life.f, x, s, t), f(y, t), 1e-8, 1e-11)
        eq("f_x" + lab, call("f_x", life.f_x, x, s=s, t=t), f(y, t), 1e-8, 1e-11)
        eq("f_r" + lab, call("f_r", life.f_r, x, s=s, r=r, t=t), f(y + r, t), 1e-8, 1e-11)
        eq("mu_x" + lab, call("mu_x", life.mu_x, x, s=s, t=t), R._mu(y + t), 1e-8, 1e-11) if not w or y + t < w else None
    eq("mu" + lab, call("mu", life.mu, x, s), R._mu(y), **tol)
    eq("mu_r" + lab, call("mu_r", life.mu_r, x, s=s, r=r), R._mu(y + r), **tol)
    eq("l_x ratio" + lab, call("l_x", life.l_x, x, s=s + 1) / call("l_x", life.l_x, x, s=s), S(y, 1), **tol)
    eq("l_r ratio" + lab, call("l_r", life.l_r, x, s=s, r=r) / call("l_x", life.l_x, x, s=s), S(y, r), **tol)
    # expectations
    far = w or S(y, 1000 - y) < 1e-12
    rt = 3e-5 if w and lw["alpha"] < 1 else 1e-6
    rest = [n, None] if far else [n]
    for m in rest:
        kt = {} if m is None else {"t": m}
        for cur in (True, False):
            for mo in (1, 2, -2):
                if mo == -2 and m is not None and not cur and False:
                    continue
                e = ref.expect(R, x, s, m, curtate=cur, moment=mo)
                eq(f"e_x(t={m},curtate={cur},moment={mo})" + lab, call("e_x", life.e_x, x, s=s, curtate=cur, moment=mo, **kt), e, rt,
                   rt * (1 if mo == 1 else ref.expect(R, x, s, m, curtate=cur, moment=2)) + 2e-8)
        if lw["law"] != "beta":
            for tt in ([t] if m is not None else [None]):
                hi = R.end(x, s) if tt is None else tt
                want = R.integrate(lambda z: R._S(y + r, z), x, s + r, 0, hi)
                eq(f"e_r(r,t={tt})" + lab, call("e_r", life.e_r, x, s=s, r=r, **({} if tt is None else {"t": tt})), want, rt, 1e-7)
        else:
            for tt in ([t] if m is not None else [None]):
                want = R.integrate(lambda z: R._S(y, z), x, s, 0, w - y if tt is None else min(tt, w - y))
                eq(f"e_r(t={tt})" + lab, call("e_r", life.e_r, x, s=s, **({} if tt is None else {"t": tt})), want, rt, 1e-7)
    return .001 < S(y, max(t, 1)) < .9999


@st.composite
def s_epv(draw, tier="quick"):
    lw = draw(wide())
    x, s = draw(point(lw))
    left = lw["omega"] - x - s if lw.get("omega") else 60
    u = draw(st.integers(0, max(0, min(30, left - 1))))
    return {"law": lw, "x": x, "s": s, "u": u, "t": draw(st.integers(0, min(60, left - u + 2)) if lw.get("omega") or draw(st.integers(0, 6)) else st.integers(61, 400)), "b": draw(st.sampled_from([1, 1, 100]) | rnd(.5, 9, 1)),
            "i": draw(st.sampled_from([0., .05]) | rnd(.001, .3, 3)), "disc": draw(st.booleans()), "mo": draw(st.sampled_from([1, 1, 2, -2])), "end": draw(rnd(0.5, 3, 1))}


def check_epv(c):
    lw, x, s, u, t, b, i, disc, mo = (c[k] for k in ("law", "x", "s", "u", "t", "b", "i", "disc", "mo"))
    life, R = build(lw), ref.LawRef(lw)
    call("set_interest", life.set_interest, i=i)
    v, w, y = 1 / (1 + i), lw.get("omega"), x + s
    R.step = .5
    if not w and R._mu(y) > 1.5:
        return False
    lab = f"({lw}, x={x}, s={s}, u={u}, t={t}, b={b}, i={i}, moment={mo}, discrete={disc})"
    rt = 1e-7 if disc else 3e-4 if w and lw["alpha"] < 1 else 1e-5
    B = max(b, c["end"])
    tol = dict(rtol=rt, atol=rt * .1 * B ** abs(mo) * (1 if mo == 1 else 2) + 1e-9)
    far = bool(w) or R._S(y, 1000 - y) * v ** (1000 - y) / (1 - v if v < 1 else 1e-3) < 1e-10

    def I(**k):
        k.setdefault("b", lambda z: b)
        m1 = ref.ins(R, v, x, s, discrete=disc, **k)
        if mo == 1:
            return m1
        m2 = ref.ins(R, v, x, s, discrete=disc, moment=2, **k)
        return m2 if mo == 2 else m2 - m1 * m1
    E = v ** t * R._S(y, t)
    eq("E_x" + lab, call("E_x", life.E_x, x, s=s, t=t, endowment=b, moment=mo),
       b * E if mo == 1 else b * b * v ** t * E if mo == 2 else b * b * v ** (2 * t) * R._S(y, t) * (1 - R._S(y, t)), 1e-9, 1e-10 * b * b)
    kw = dict(s=s, b=b, moment=mo, discrete=disc)
    kA = dict(s=s, moment=mo, discrete=disc) if mo > 0 else None
    if kA:
        eq("A_x" + lab, call("A_x", life.A_x, x, t=t, u=u, benefit=lambda a, z: b, **kA), I(t=t, u=u), **tol)
    if far:
        eq("whole_life_insurance" + lab, call("wl", life.whole_life_insurance, x, **kw), I(), **tol)
        eq("term_insurance" + lab, call("term", life.term_insurance, x, t=t, **kw), I(t=t), **tol)
        eq("endowment_insurance" + lab, call("endow", life.endowment_insurance, x, t=t, endowment=c["end"], **kw), I(t=t, end=c["end"]), **tol)
        eq("deferred_insurance" + lab, call("def", life.deferred_insurance, x, u=u, t=t, **kw), I(t=t, u=u), **tol)
        eq("deferred whole" + lab, call("def", life.deferred_insurance, x, u=u, **kw), I(u=u), **tol)
        eq("term_insurance for life" + lab, call("term", life.term_insurance, x, t=life.WHOLE, **kw), I(), **tol)
        eq("endowment_insurance of the benefit" + lab, call("endow", life.endowment_insurance, x, t=t, **kw), I(t=t, end=b), **tol)
        if mo == 1:
            n = max(t, 1)
            ki = dict(s=s, b=b, discrete=disc)
            big = dict(rtol=rt * 3, atol=tol["atol"] * 60)
            eq("increasing_insurance" + lab, call("IA", life.increasing_insurance, x, t=n, **ki), ref.ins(R, v, x, s, t=n, discrete=disc, b=lambda z: b * z), **big)
            if not w or y + n <= w:
                eq("decreasing_insurance" + lab, call("DA", life.decreasing_insurance, x, t=n, **ki), ref.ins(R, v, x, s, t=n, discrete=disc, b=lambda z: b * (n + int(disc) - z)), **big)
    elif lw["law"] == "cf" and not disc:
        eq("term_insurance" + lab, call("term", life.term_insurance, x, t=t, **kw), I(t=t), **tol)
    if mo == 2:
        return False
    var = mo == -2
    an = lambda **k: ref.ann(R, v, x, s, discrete=disc, b=lambda z: b, **k)
    ka = dict(s=s, b=b, discrete=disc)
    ta = dict(rtol=rt, atol=(rt * .2 * B * 20 + 1e-8) * (1 if not var else B * 20))
    if far or (lw["law"] == "cf" and not disc and not (var and i == 0)):     # (without interest the variance is summed to the last age)
        if var:
            if disc and 0 < i < .004:
                return False
            f = min(1, i * 5) if i else .02
            ta = dict(rtol=rt * 10, atol=(rt * .3 + 1e-9) * B * B / f ** 2 * 4)
            eq("var whole_life_annuity" + lab, call("wa", life.whole_life_annuity, x, variance=True, **ka), b * b * ref.ann_moments(R, v, x, s, discrete=disc)[1], **ta)
            eq("var temporary_annuity for life" + lab, call("ta", life.temporary_annuity, x, variance=True, **ka), b * b * ref.ann_moments(R, v, x, s, discrete=disc)[1], **ta)
            eq("var temporary_annuity" + lab, call("ta", life.temporary_annuity, x, t=t, variance=True, **ka), b * b * ref.ann_moments(R, v, x, s, t=t, discrete=disc)[1], **ta)
        else:
            eq("whole_life_annuity" + lab, call("wa", life.whole_life_annuity, x, **ka), an(), **ta)
            eq("temporary_annuity" + lab, call("ta", life.temporary_annuity, x, t=t, **ka), an(t=t), **ta)
            eq("temporary_annuity for life" + lab, call("ta", life.temporary_annuity, x, **ka), an(), **ta)
            eq("a_x" + lab, call("a_x", life.a_x, x, s=s, t=t, u=u, benefit=lambda a, z: b, discrete=disc), an(u=u, t=t), **ta)
            if disc and far:
                eq("immediate_annuity" + lab, call("ia", life.immediate_annuity, x, s=s, t=t, b=b), an(t=t) - b * (1 - E), **ta)
            if far:
                certain = b * (u if i == 0 else (1 - v ** u) / (1 - v if disc else math.log1p(i)))
                if not w or y + u < w:
                    eq("certain_life_annuity" + lab, call("ca", life.certain_life_annuity, x, u=u, t=t, **ka), certain + an(u=u, t=t), **ta)
                n = max(t, 1)
                big = dict(rtol=rt * 3, atol=ta["atol"] * 60)
                eq("increasing_annuity" + lab, call("Ia", life.increasing_annuity, x, t=n, **ka), ref.ann(R, v, x, s, t=n, discrete=disc, b=lambda z: b * (z + int(disc))), **big)
                if not w or y + n <= w:
                    eq("decreasing_annuity" + lab, call("Da", life.decreasing_annuity, x, t=n, **ka), ref.ann(R, v, x, s, t=n, discrete=disc, b=lambda z: b * (n - z)), **big)
            eq("deferred_annuity" + lab, call("da", life.deferred_annuity, x, u=u, t=t, **ka), an(u=u, t=t), **ta)
            eq("deferred whole annuity" + lab, call("da", life.deferred_annuity, x, u=u, **ka), an(u=u), **ta)
    return .001 < R._S(y, u + max(1, t // 2)) < .9999


@st.composite
def s_pct(draw, tier="quick"):
    return {"mu": draw(rnd(.002, .8, 3)), "p": draw(rnd(.01, .99, 3)), "disc": draw(st.booleans()), "x": draw(st.integers(0, 90)), "i": draw(rnd(.01, .2, 2))}


def check_pct(c):
    """quantiles of the constant force: present values at the indicated time bracket the probability"""
    mu, p, disc, x, i = c["mu"], c["p"], c["disc"], c["x"], c["i"]
    life = build({"law": "cf", "mu": mu})
    call("set_interest", life.set_interest, i=i)
    S = lambda t: math.exp(-mu * t)
    t = num("Z_t", life.Z_t, x, prob=p, discrete=disc)
    if disc:
        if not (t == int(t) and S(t + 1) <= p + 1e-9 and S(t) >= p - 1e-9):
            fail(f"Z_t(prob={p}, mu={mu}) = {t}: survival there {S(t)}, a year later {S(t + 1)}")
    else:
        eq("Z_t", S(t), p, 1e-9)
    t = num("Y_t", life.Y_t, x, prob=p, discrete=disc)
    if disc:
        if not (t == int(t) and 1 - S(t) >= p - 1e-9 and 1 - S(t - 1) <= p + 1e-9):
            fail(f"Y_t(prob={p}, mu={mu}) = {t}: death by then {1 - S(t)}, a year earlier {1 - S(t - 1)}")
    else:
        eq("Y_t", 1 - S(t), p, 1e-9)
    return True


SUBS = [Sub("survival", lambda tier: s_surv(), check_surv, 700, what="survival, density, force, lives and expectations at whole and fractional ages"),
        Sub("epv", lambda tier: s_epv(), check_epv, 1200, what="pure endowments, insurances and annuities, moments and variances"),
        Sub("quantile", lambda tier: s_pct(), check_pct, 300, what="constant-force quantile shortcuts")]
