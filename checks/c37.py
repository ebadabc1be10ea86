"""C37 impossible requests are refused."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, life, build, rate, law_funs
from lib import pol
import actuarialmath as am

RULE = ("cases draw an impossible request (negative ages, years, fractions or durations, probabilities outside [0, 1], rates that are negative or missing, laws outside their parameters, unknown kinds, "
        "moments and timings a model does not support, terms a shortcut does not cover) with generated values on a generated model; it must raise; the same request with a possible value in place of the "
        "impossible one must be answered; non-trivial = the possible request was answered with a number or a model")
ASSUMPTIONS = ["only requests the library itself declares impossible, on the models that declare them", "any exception is a refusal"]
KINDS = {"curved": ("table", "sult", "base", "select"), "nosel": ("table", "sult", "base", "ltab", "law"), "smooth": ("base",), "frac": ("table", "sult", "base", "select", "ltab"), "all": ("table", "sult", "base", "select", "ltab", "law"), "sel": ("select",),
         "curve": ("base", "ltab"), "tab": ("table",), "std": ("sult",)}


def neg(draw):
    return -draw(st.integers(1, 9)), 0


def negr(draw):
    return -draw(rnd(.1, 3, 1)), .3


def prob(draw):
    return draw(rnd(1, 3, 1)), .4


def pro2(draw):
    return draw(st.sampled_from([-.1, 1.1]) | rnd(1.01, 3, 2) | rnd(.01, 2, 2).map(lambda z: -z)), .4


# label: (models, generator of an impossible and a possible value, request)
R = {}


def req(label, kinds, gen, fn):
    R[label] = (kinds, gen, fn)


for k in ("l_x", "d_x", "p_x", "q_x", "f_x", "mu_x"):
    req(k + " x<0", "curve", lambda d: (-d(st.integers(1, 60)), None), lambda o, x, s, z, k=k: getattr(o, k)(x if z is None else z))
    req(k + " s<0", "curve", neg, lambda o, x, s, z, k=k: getattr(o, k)(x, s=z))
for k in ("l_r", "p_r", "q_r", "mu_r", "f_r"):
    req(k + " x<0", "frac", lambda d: (-d(st.integers(1, 60)), None), lambda o, x, s, z, k=k: getattr(o, k)(x if z is None else z, s=0, r=.3))
    req(k + " s<0", "frac", neg, lambda o, x, s, z, k=k: getattr(o, k)(x, s=z, r=.3))
    req(k + " r<0", "frac", negr, lambda o, x, s, z, k=k: getattr(o, k)(x, s=s, r=z))
for k in ("p_r", "q_r", "f_r", "E_r"):
    req(k + " t<0", "frac", negr, lambda o, x, s, z, k=k: getattr(o, k)(x, s=s, r=.2, t=z))
req("E_r x<0", "frac", lambda d: (-d(st.integers(1, 60)), None), lambda o, x, s, z: o.E_r(x if z is None else z, s=0, r=.3, t=.5))
req("E_r s<0", "frac", neg, lambda o, x, s, z: o.E_r(x, s=z, r=.3, t=.5))
req("E_r r<0", "frac", negr, lambda o, x, s, z: o.E_r(x, s=s, r=z, t=.5))
req("e_x x<0", "frac", lambda d: (-d(st.integers(1, 60)), None), lambda o, x, s, z: o.e_x(x if z is None else z, t=1, curtate=True))
req("e_x s<0", "curve", neg, lambda o, x, s, z: o.e_x(x, s=z, t=1, curtate=True))
req("e_x moment", "curve", lambda d: (d(st.sampled_from([0, 3, 4, -1, -3])), 2), lambda o, x, s, z: o.e_x(x, s=s, t=1, moment=z, curtate=True))
req("A_x moment", "all", lambda d: (d(st.sampled_from([0, -1, -2, -5])), 1), lambda o, x, s, z: o.A_x(x, s=s, moment=z))
req("Z_t prob", "curved", prob, lambda o, x, s, z: o.Z_t(x, z))
req("Y_t prob", "curved", prob, lambda o, x, s, z: o.Y_t(x, z))
req("Z_x t<0", "all", negr, lambda o, x, s, z: o.Z_x(x, t=z if z < 0 else 0))
req("Y_x t<0", "all", negr, lambda o, x, s, z: o.Y_x(x, t=z if z < 0 else 1))
req("decreasing insurance for life", "all", lambda d: (d(st.sampled_from([am.Actuarial.WHOLE, 0])), 2), lambda o, x, s, z: o.decreasing_insurance(x, s=s, t=z))
req("decreasing annuity for life", "all", lambda d: (am.Actuarial.WHOLE, 2), lambda o, x, s, z: o.decreasing_annuity(x, s=s, t=z))
req("net variance of term policies", "nosel", lambda d: (d(st.sampled_from([0, 2, .5])), 1), lambda o, x, s, z: o.net_policy_variance(x, n=2, t=0, endowment=z, b=1))
req("gross variance of term policies", "nosel", lambda d: (d(st.sampled_from([0, 2, .5])), 1), lambda o, x, s, z: o.gross_policy_variance(x, n=2, t=0, contract=am.Contract(premium=.1, benefit=1, endowment=z)))
req("select second moment A", "sel", lambda d: (d(st.sampled_from([2, -2])), 1), lambda o, x, s, z: o.A_x(x, s=s, moment=z))
req("select continuous A", "sel", lambda d: (False, True), lambda o, x, s, z: o.A_x(x, s=s, discrete=z))
req("select continuous a", "sel", lambda d: (False, True), lambda o, x, s, z: o.a_x(x, s=s, discrete=z))
for k, f in (("", lambda o: o), (" with A and a", lambda o: o.set_select(s=o.periods_, age_selected=True, A={max(o["q"]): .5}, a={max(o["q"]): 9.}, fill=True))):
    req("select second moment of whole life" + k, "sel", lambda d: (d(st.sampled_from([2, -2])), 1), lambda o, x, s, z, f=f: f(o).whole_life_insurance(x, s=s, moment=z))
    req("select continuous whole life" + k, "sel", lambda d: (False, True), lambda o, x, s, z, f=f: f(o).whole_life_insurance(x, s=s, discrete=z))
    req("select annuity variance" + k, "sel", lambda d: (True, False), lambda o, x, s, z, f=f: f(o).whole_life_annuity(x, s=s, variance=z))
    req("select continuous annuity" + k, "sel", lambda d: (False, True), lambda o, x, s, z, f=f: f(o).whole_life_annuity(x, s=s, discrete=z))
req("select complete e", "sel", lambda d: (False, True), lambda o, x, s, z: o.e_x(x, s=s, curtate=z))
req("table column", "tab", lambda d: (d(st.sampled_from(["z", "x", "A", "mu"])), "q"), lambda o, x, s, z: o[z])
req("standard table column", "std", lambda d: (d(st.sampled_from(["z", "mu", "e"])), "q"), lambda o, x, s, z: o[z])
for k, t in (("whole_life_insurance", 0), ("term_insurance", 1), ("endowment_insurance", 1), ("deferred_insurance", 0)):
    for M in ("Mthly", "UDD"):
        req(f"{M} {k} moment", "tab", lambda d: (d(st.sampled_from([0, 3, -1])), 1),
            lambda o, x, s, z, k=k, t=t, M=M: getattr(getattr(am, M)(m=2, life=o), k)(x, **({"t": 2} if t else {}), **({"u": 1} if k[0] == "d" else {}), moment=z))
for r in ("i", "delta", "d", "v"):
    req(f"interest {r}<0", None, lambda d: (-d(rnd(.001, .5, 3)), .5), lambda o, x, s, z, r=r: am.Interest(**{r: z}))
    req(f"set_interest {r}<0", "tab", lambda d: (-d(rnd(.001, .5, 3)), .5), lambda o, x, s, z, r=r: o.set_interest(**{r: z}))
req("no interest", None, lambda d: ({}, {"i": .05}), lambda o, x, s, z: am.Interest(**z))
req("interest d>=1", None, lambda d: (d(st.just(1.) | rnd(1, 3, 1)), .5), lambda o, x, s, z: am.Interest(d=z))
req("interest v=0", None, lambda d: (0, .9), lambda o, x, s, z: am.Interest(v=z))
req("discount not 1 at 0", None, lambda d: (d(rnd(.1, .99, 2) | rnd(1.01, 3, 2)), 1.), lambda o, x, s, z: am.Interest(v_t=lambda t: z * .9 ** t))
req("discount not a function", None, lambda d: (d(rnd(.1, 1, 1)), lambda t: .9 ** t), lambda o, x, s, z: am.Interest(v_t=z))
for k in ("i", "d", "i_m", "d_m"):
    req(f"mthly m<0 ({k})", None, lambda d: (-d(st.integers(1, 12)), 4), lambda o, x, s, z, k=k: am.Interest.mthly(m=z, **{k: .05}))
req("mthly no rate", None, lambda d: ({}, {"i": .05}), lambda o, x, s, z: am.Interest.mthly(m=4, **z))
req("double no rate", None, lambda d: ({}, {"i": .05}), lambda o, x, s, z: am.Interest.double_force(**z))
req("annuity m<0", None, lambda d: (-d(st.integers(1, 12)), 4), lambda o, x, s, z: am.Interest(i=.05).annuity(t=5, m=z))
req("bernoulli p", None, pro2, lambda o, x, s, z: am.Life.bernoulli(z))
req("binomial p", None, pro2, lambda o, x, s, z: am.Life.binomial(z, 3))
req("binomial N", None, lambda d: (-d(st.integers(0, 3)), 3), lambda o, x, s, z: am.Life.binomial(.4, z))
for j in range(3):
    req(f"mixture p{j}", None, pro2, lambda o, x, s, z, j=j: am.Life.mixture(*[z if k == j else .3 for k in range(3)]))
    req(f"conditional variance p{j}", None, pro2, lambda o, x, s, z, j=j: am.Life.conditional_variance(*[z if k == j else .3 for k in range(3)]))
for k in ("mixture", "conditional_variance"):
    req(f"{k} N", None, lambda d: (-d(st.integers(0, 3)), 3), lambda o, x, s, z, k=k: getattr(am.Life, k)(.4, .2, .1, z))
req("portfolio percentile", None, prob, lambda o, x, s, z: am.Life.portfolio_percentile(10, 4, z))
req("extra risk kind", "tab", lambda d: (d(st.sampled_from(["ADD", "RATING", "add_force"])), "ADD_FORCE"), lambda o, x, s, z: am.ExtraRisk(o, risk=z, extra=.01))
req("extra risk amount", "tab", negr, lambda o, x, s, z: am.ExtraRisk(o, risk="ADD_FORCE", extra=z))
req("Makeham c", None, lambda d: (d(rnd(0, 1, 2)), 1.1), lambda o, x, s, z: am.Makeham(A=.01, B=.001, c=z))
req("Makeham B", None, lambda d: (-d(rnd(0, 1, 2)), .001), lambda o, x, s, z: am.Makeham(A=.01, B=z, c=1.1))
req("Makeham A", None, lambda d: (-d(rnd(.002, 1, 3)), .001), lambda o, x, s, z: am.Makeham(A=z, B=.001, c=1.1))
req("Gompertz c", None, lambda d: (d(rnd(0, 1, 2)), 1.1), lambda o, x, s, z: am.Gompertz(B=.001, c=z))
req("Gompertz B", None, lambda d: (-d(rnd(0, 1, 2)), .001), lambda o, x, s, z: am.Gompertz(B=z, c=1.1))
req("law with a fractional assumption", None, lambda d: ({"udd": d(st.booleans())}, {}), lambda o, x, s, z: am.Gompertz(B=.001, c=1.1, **z))
req("constant force with a fractional assumption", None, lambda d: ({"udd": d(st.booleans())}, {}), lambda o, x, s, z: am.ConstantForce(mu=.1, **z))
for k in ("S", "l", "mu", "f"):
    req(f"{k} not a function", None, lambda d: (d(rnd(.1, 1, 1)), lambda x, s, t=0: .5), lambda o, x, s, z, k=k: am.Survival().set_survival(**{k: z}))
req("no survival function", None, lambda d: ({}, {"S": lambda x, s, t: .9 ** t}), lambda o, x, s, z: am.Reserves().set_survival(**z).p_x(50))
req("e approximate", None, lambda d: (d(st.sampled_from([{}, {"e_complete": 3., "e_curtate": 2.5}])), {"e_curtate": 2.}), lambda o, x, s, z: am.Fractional.e_approximate(**z))
req("gross premium without pure endowment", None, lambda d: (0, .5), lambda o, x, s, z: am.Premiums().set_interest(i=.05).gross_premium(a=10, A=.3, endowment=2, E=z))
req("gross premium without values", None, lambda d: ({}, {"a": 10., "A": .4}), lambda o, x, s, z: am.Premiums().set_interest(i=.05).gross_premium(**z))
req("recursion decreasing insurance for life", None, lambda d: (am.Actuarial.WHOLE, 1),
    lambda o, x, s, z: am.Recursion(verbose=False).set_interest(i=.05).set_p(.9, x=50).set_q(.1, x=50).decreasing_insurance(50, t=z))
LABELS = sorted(R)


@st.composite
def strat(draw, tier="quick"):
    label = draw(st.sampled_from(LABELS))
    kinds, gen, fn = R[label]
    c = {"label": label}
    if kinds:
        L = draw(life(KINDS[kinds], maxlen=8))
        if L["kind"] == "base":
            L["form"], L["maxage"] = draw(st.sampled_from(["S", "l"])), 130
        if L["kind"] == "select":
            L["t"]["rows"][-1][-1] = 1.
            L["x"], L["s"] = L["t"]["x0"], draw(st.integers(0, 1))
        c["life"], c["i"] = L, draw(rate)
    c["bad"] = gen(draw)[0]
    return c


def check(c):
    kinds, gen, fn = R[c["label"]]
    good = gen(lambda strategy: 1)[1]

    def ask(z):
        o = build(c["life"], c["i"])[0] if kinds else None
        x, s = (c["life"]["x"], c["life"]["s"]) if kinds else (0, 0)
        return fn(o, x, s, z)
    try:
        got = ask(c["bad"])
    except (Violation, CpuTimeout):
        raise
    except Exception:
        pass
    else:
        fail(f"{c['label']}: answered {got!r} to an impossible request ({c['bad']!r})")
    call(f"{c['label']}: possible request", ask, good)
    return True


SUBS = [Sub("refused", lambda tier: strat(), check, 4000, what="impossible requests raise; possible ones next to them are answered")]
