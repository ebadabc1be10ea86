"""C04 survival, density, lives and force are one distribution whichever form is given."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, law, law_funs, sel
import actuarialmath as am

RULE = ("cases draw a law of mortality (Makeham, Gompertz, exponential, Weibull, beta, power), the form(s) it is given in (S, f, l, mu or two "
        "forms), a class, a start [x]+s, durations; non-trivial = s > 0 or a duration > 0 with survival in (0.01, 0.99)")
ASSUMPTIONS = ["survival functions are smooth on the tested range (x >= 5, two years away from the limiting age) with a force below 1 because the library "
               "differentiates numerically; survival at least 1e-3 where a force is divided out"]
CLS = ["Survival", "Lifetime", "Insurance", "Reserves"]
FORMS = ["S", "f", "l", "mu", "S+mu", "S+f", "l+mu", "S+l", "l+S+f+mu"]


@st.composite
def s_forms(draw, tier="quick"):
    lw = draw(law())
    if draw(st.booleans()):
        lw["sel"] = draw(sel())
    top = lw.get("omega")
    x = draw(st.integers(5, 85)) if top is None else draw(st.integers(5, top - 12))
    s = draw(st.integers(0, 6))
    lim = 60 if top is None else top - x - s - 2.5
    ts = draw(st.lists(rnd(0, 1, 2).map(lambda z: round(z * lim, 2)) | st.integers(0, max(0, int(lim))), min_size=1, max_size=3))
    return {"law": lw, "x": x, "s": s, "ts": ts, "form": draw(st.sampled_from(FORMS)), "cls": draw(st.sampled_from(CLS)),
            "minage": draw(st.sampled_from([None, None, 0, 1]) | st.integers(0, x)), "first": draw(st.sampled_from([None, None, None] + FORMS))}


def check(c):
    R, S, f, l, mu = law_funs(c["law"])
    F = {"S": S, "f": f, "l": l, "mu": mu}
    kw = {k: F[k] for k in c["form"].split("+")}
    maxage = c["law"].get("omega", 300)
    L = getattr(am, c["cls"])()
    if c["first"]:      # a setting that the next one replaces
        R1, S1, f1, l1, mu1 = law_funs({"law": "makeham", "A": .001, "B": .0001, "c": 1.1})
        call("set_survival first", L.set_survival, **{k: {"S": S1, "f": f1, "l": l1, "mu": mu1}[k] for k in c["first"].split("+")})
    more = {} if c["minage"] is None else {"minage": c["minage"]}
    L = call(f"set_survival({c['form']})", L.set_survival, maxage=maxage, **kw, **more)
    x, s = c["x"], c["s"]
    tol = dict(rtol=2e-4, atol=1e-6)
    nt = False
    for t in c["ts"]:
        want = S(x, s, t)
        eq(f"p_x({x},s={s},t={t})", num("p_x", L.p_x, x, s=s, t=t), want, 1e-6, 1e-6)
        if "S" in kw or "l" in kw or want > 1e-3:
            eq(f"S({x},{s},{t})", num("S", L.S, x, s, t), want, 1e-6, 1e-6)
        if want > 1e-3 and mu(x, s + t) < 1:
            wf = f(x, s, t)
            eq(f"f({x},{s},{t})", num("f", L.f, x, s, t), wf, **tol)
            eq(f"f_x({x},s={s},t={t})", num("f_x", L.f_x, x, s=s, t=t), wf, **tol)
            if S(x, 0, s + t) > 1e-3:
                eq(f"mu({x},{s}+{t})", num("mu", L.mu, x, s + t), mu(x, s + t), 3e-4, 5e-6)
                eq(f"mu_x({x},s={s},t={t})", num("mu_x", L.mu_x, x, s=s, t=t), mu(x, s + t), 3e-4, 5e-6)
        u = round(c["ts"][0] * 0.4, 2)
        v = max(round(t - u, 2), 0)
        eq(f"q_x({x},s={s},t={v},u={u})", num("q_x", L.q_x, x, s=s, t=v, u=u), S(x, s, u) - S(x, s, v + u), 1e-6, 1e-6)
        nt = nt or (0.01 < want < 0.99)
    # lives in proportion to survival, deaths = decrements (while a life table from age 0 still has lives)
    k = int(c["ts"][0])
    young = c["minage"] or 0
    alive = S(young, 0, x - young) * S(x, 0, s)
    if "l" not in kw and alive > 1e-3:
        base = num("l_x", L.l_x, young)
        eq("lives at the youngest age are the radix", base, 100000, 1e-9)
        eq(f"l_{x} / l_{young} (youngest age)", num("l_x", L.l_x, x) / base, S(young, 0, x - young), 1e-6, 1e-6)
    if alive > 1e-3 or "l" in kw:
        l0, l1, l2 = (num("l_x", L.l_x, x, s=z) for z in (s, s + k, s + k + 1))
        if not (l0 > 0):
            fail(f"l_x({x},{s}) = {l0}")
        eq("l_[x]+s+k / l_[x]+s = k_p", l1 / l0, S(x, s, k), 1e-5, 2e-6 / max(alive, 1e-3))
        eq("d = l - l", num("d_x", L.d_x, x, s=s + k), l1 - l2, 1e-7, 1e-6)
        if "l" in kw:
            eq("l_x as given", l0, l(x, s), 1e-12)
    return nt


def s_link(tier):
    return s_forms()


def c_link(c):
    """metamorphic: integral of the density = mortality; derivative of S = -density"""
    R, S, f, l, mu = law_funs(c["law"])
    form = c["form"].split("+")[0]
    L = call("set_survival", lambda: am.Lifetime().set_survival(maxage=c["law"].get("omega", 300),
                                                               **{form: {"S": S, "f": f, "l": l, "mu": mu}[form]}))
    x, s, t = c["x"], c["s"], c["ts"][0]
    if S(x, s, t) < 1e-3 or mu(x, s + t) > 1:
        return False
    from lib.ref import gl
    if t > 0:
        n = max(1, int(math.ceil(t / 5)))
        tot = sum(gl(lambda z: num("f", L.f, x, s, z), t * j / n, t * (j + 1) / n) for j in range(n))
        eq(f"integral of f over [0,{t}] vs 1-S", tot, 1 - num("S", L.S, x, s, t), 2e-5, 2e-6)
    eq("f = S mu", num("f", L.f, x, s, t), num("S", L.S, x, s, t) * num("mu", L.mu, x, s + t), 4e-4, 2e-6)
    return t > 0


SUBS = [Sub("forms", lambda tier: s_forms(), check, 1600, what="each form and pair of forms gives the same p,q,f,mu,l,d"),
        Sub("links", s_link, c_link, 500, what="density integrates to mortality, f = S mu")]
