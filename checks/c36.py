"""C36 omitted arguments take their documented values."""
import math, re
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, life, build, rate, select, seldict, table, qdict
from lib import pol
import actuarialmath as am

RULE = ("cases draw a life (tables, select tables, laws, user functions, the standard table), an m-thly model of it, interest, a contract, a method, values of all of its arguments and a "
        "random set of arguments left out; the answer with the arguments left out is compared with the answer with every one of them written out at its documented value, by keyword and by "
        "position; settings: the same for constructors and for facts given to a recursion; non-trivial = the answer depends on an argument left out")
ASSUMPTIONS = ["documented values are those of the reference documentation: amounts 1, first moments, no years since selection, no deferral, whole life or one year, annual payments, the contract's own defaults"]
WHOLE = am.Actuarial.WHOLE

# name: arguments in order, with documented values.  CON: Contract(); ONE: benefit of 1; SAME: the benefit amount
BASE = """
l_x x s=0 ; p_x x s=0 t=1 ; q_x x s=0 t=1 u=0 ; f_x x s=0 t=0 ; mu_x x s=0 t=0
e_x x s=0 t=WHOLE curtate=True moment=1
l_r x s=0 r=0 ; p_r x s=0 r=0 t=1 ; q_r x s=0 r=0 t=1 u=0 ; mu_r x s=0 r=0 ; f_r x s=0 r=0 t=0 ; E_r x s=0 r=0 t=1
E_x x s=0 t=1 endowment=1 moment=1
A_x x s=0 t=WHOLE u=0 benefit=ONE endowment=0 moment=1 discrete=True
whole_life_insurance x s=0 moment=1 b=1 discrete=True
term_insurance x s=0 t=1 b=1 moment=1 discrete=True
deferred_insurance x s=0 u=0 t=WHOLE b=1 moment=1 discrete=True
endowment_insurance x s=0 t=1 b=1 endowment=SAME moment=1 discrete=True
increasing_insurance x s=0 t=WHOLE b=1 discrete=True
decreasing_insurance x s=0 t=1 b=1 discrete=True
insurance_variance A2 A1 b=1
Z_x x s=0 t=0 discrete=True ; Z_t x prob discrete=True ; Z_from_t t discrete=True ; Z_from_prob x prob discrete=True
a_x x s=0 t=WHOLE u=0 benefit=ONE discrete=True
immediate_annuity x s=0 t=WHOLE b=1 variance=False
annuity_twin A discrete=True ; insurance_twin a moment=1 discrete=True ; annuity_variance A2 A1 b=1 discrete=True
whole_life_annuity x s=0 b=1 variance=False discrete=True
temporary_annuity x s=0 t=WHOLE b=1 variance=False discrete=True
deferred_annuity x s=0 u=0 t=WHOLE b=1 discrete=True
certain_life_annuity x s=0 u=0 t=WHOLE b=1 discrete=True
increasing_annuity x s=0 t=WHOLE b=1 discrete=True
decreasing_annuity x s=0 t=0 b=1 discrete=True
Y_t x prob discrete=True ; Y_x x s=0 t=1 discrete=True ; Y_from_t t discrete=True ; Y_from_prob x prob discrete=True
net_premium x s=0 t=WHOLE u=0 n=0 b=1 endowment=0 discrete=True return_premium=False annuity=False initial_cost=0
insurance_equivalence premium b=1 discrete=True ; annuity_equivalence premium b=1 discrete=True
gross_premium a A IA=0 discrete=True benefit_amount=1 E=0 endowment=0 settlement_policy=0 initial_policy=0 initial_premium=0 renewal_policy=0 renewal_premium=0
net_future_loss A A1 b=1 ; net_variance_loss A1 A2 A=0 b=1
net_policy_variance x s=0 t=0 b=1 n=WHOLE endowment=0 discrete=True
net_policy_value x s=0 t=0 b=1 n=WHOLE endowment=0 discrete=True
gross_variance_loss A1 A2=0 contract=CON
gross_policy_variance x s=0 t=0 n=WHOLE contract=CON
gross_policy_value x s=0 t=0 n=WHOLE contract=CON
L_from_t t contract=CON ; L_from_prob x prob contract=CON ; L_to_t L contract=CON ; L_to_prob x L contract=CON
FPT_premium x s=0 n=WHOLE b=1 first=False
FPT_policy_value x s=0 t=0 b=1 n=WHOLE endowment=0 discrete=True
t_V_forward x s=0 t=0 premium=0 benefit=UNIT per_premium=0 per_policy=0 reserve_benefit=False
t_V_backward x s=0 t=0 premium=0 benefit=UNIT per_premium=0 per_policy=0 reserve_benefit=False
t_V x s=0 t=0 premium=0 benefit=UNIT reserve_benefit=False per_premium=0 per_policy=0
r_V_forward x s=0 r=0 premium=0 benefit_amount=1
r_V_backward x s=0 r=0 benefit_amount=1
fill_reserves x s=0 reserve_benefit=False contract=CON
variance a b var_a var_b cov_ab ; bernoulli p a=1 b=0 variance=False ; binomial p N variance=False ; mixture p p1 p2 N=1 variance=False ; conditional_variance p p1 p2 N=1
portfolio_percentile mean variance_value prob N=1 ; portfolio_cdf mean variance_value value N=1
isclose r target=0 abs_tol=1e-6
interest.annuity t=WHOLE m=1 due=True
max_term x t u=0
"""
CLOSED = """
e_x x s=0 t=WHOLE curtate=False moment=1
"""
TABLE = """
d_x x s=0 t=1
"""
SELECT = """
A_x x s=0 moment=1 discrete=True
a_x x s=0 moment=1 discrete=True
e_x x s=0 t=WHOLE curtate=True
"""
MTHLY = """
q_m x s_m=0 t_m=1 u_m=0 ; p_m x s_m=0 t_m=1
E_x x s=0 t=1 moment=1 endowment=1
A_x x s=0 t=1 u=0 benefit=ONE moment=1
whole_life_insurance x s=0 moment=1 b=1
term_insurance x s=0 t=1 b=1 moment=1
deferred_insurance x s=0 u=0 b=1 t=WHOLE moment=1
endowment_insurance x s=0 t=1 b=1 endowment=SAME moment=1
annuity_variance A2 A1 b=1
whole_life_annuity x s=0 b=1 variance=False
temporary_annuity x s=0 t=WHOLE b=1 variance=False
deferred_annuity x s=0 u=0 t=WHOLE b=1
immediate_annuity x s=0 t=WHOLE b=1
"""
WOOL = """
mu_x x s=0
whole_life_insurance x s=0 b=1 mu=MU
term_insurance x s=0 t=WHOLE b=1 mu=MU mu1=MUT
endowment_insurance x s=0 t=WHOLE b=1 endowment=SAME
deferred_insurance x s=0 u=0 t=WHOLE b=1
whole_life_annuity x s=0 b=1 mu=MU
temporary_annuity x s=0 t=WHOLE b=1 mu=MU mu1=MUT
deferred_annuity x s=0 t=WHOLE u=0 b=1
"""
REQ = object()


def parse(text):
    out = {}
    for item in re.split(r"[;\n]", text):
        w = item.split()
        if w:
            out[w[0]] = [(p.split("=")[0], p.split("=")[1] if "=" in p else REQ) for p in w[1:]]
    return out


def tables():
    base = parse(BASE)
    beta = dict(base, **parse(CLOSED))
    cf = {k: z for k, z in beta.items() if k != "E_x"}            # (pure endowments of some laws have a term of their own)
    uni = {k: z for k, z in cf.items() if k != "term_insurance"}
    tab = dict(base, **parse(TABLE))
    sel = dict(tab, **parse(SELECT))
    return {"base": base, "ltab": base, "law": base, "beta": beta, "cf": cf, "uniform": uni, "table": tab, "sult": tab, "select": sel,
            "UDD": parse(MTHLY), "Mthly": parse(MTHLY), "Woolhouse": parse(WOOL)}


DOC = tables()
KW = {"benefit_amount": "benefit", "variance_value": "variance"}     # two meanings of one name


@st.composite
def values(draw, L, name, ps, m):
    """a value of every argument"""
    left = L["left"] if L["left"] is not None else 30
    t = draw(st.integers(0, max(1, left - 2)))
    n = draw(st.integers(t + 1, t + 6))
    out = {}
    for p, dflt in ps:
        if p == "x":
            z = L["x"]
        elif p == "s":
            z = L["s"]
        elif p in ("t", "n", "u"):
            z = {"t": t if name in ("p_x", "q_x", "net_policy_value", "gross_policy_value", "net_policy_variance", "gross_policy_variance", "t_V", "t_V_forward", "t_V_backward",
                                    "FPT_policy_value") else draw(st.integers(1, 6)), "n": n, "u": draw(st.integers(1, 4))}[p]
            if name == "net_premium" and p == "n":
                z = draw(st.integers(1, 5))
            if p == "t" and "r" in [q for q, _ in ps] or name in ("Z_x", "Y_x", "f_x", "mu_x", "Z_from_t", "Y_from_t", "L_from_t"):
                z = draw(rnd(.1, 5, 1)) if L["kind"] in ("law", "base") else draw(st.integers(1, 4))
            if name == "interest.annuity":
                z = draw(st.integers(1, 30))
        elif p in ("s_m", "t_m", "u_m"):
            z = draw(st.integers(1, 2 * m))
        elif p == "r":
            z = draw(rnd(.1, .5, 1))
        elif p == "moment":
            z = draw(st.sampled_from([2, 2, -2]))
        elif p in ("discrete", "curtate", "variance", "first", "reserve_benefit", "return_premium", "annuity", "due"):
            z = draw(st.booleans())
        elif p in ("prob", "p", "A1", "A2", "A"):
            z = draw(rnd(.1, .7, 2))
        elif p in ("a", "mean", "value"):
            z = draw(rnd(1, 12, 1))
        elif p in ("p1", "p2", "variance_value", "var_a", "var_b", "cov_ab", "per_premium", "per_policy", "initial_premium", "renewal_premium"):
            z = draw(rnd(.01, .5, 2))
        elif p in ("mu", "mu1"):
            z = draw(rnd(.01, .5, 2))
        elif p in ("N", "m"):
            z = draw(st.integers(2, 30))
        elif p == "abs_tol":
            z = .5
        elif p in ("target",):
            z = 1.2
        elif p in ("benefit", "contract"):
            z = draw(rnd(1.5, 9, 1)) if p == "benefit" else draw(pol.contract())
        else:
            z = draw(rnd(1.5, 9, 1))
        out[p] = z
    return out


OWN = {"cf": ["whole_life_annuity", "temporary_annuity", "whole_life_insurance", "term_insurance", "Z_t", "Y_t", "e_x"], "uniform": ["e_x", "whole_life_insurance"], "beta": ["e_x"],
       "select": ["whole_life_insurance", "whole_life_annuity", "l_x", "p_x", "q_x", "max_term"], "table": ["mu_x", "l_x", "p_x", "q_x", "e_x", "E_x"]}
MT = ("UDD", "Mthly", "Woolhouse")


@st.composite
def strat(draw, tier="quick"):
    kind = draw(st.sampled_from(sorted(DOC)))
    own = sorted(k for k in DOC[kind] if kind in MT or DOC[kind][k] != DOC["base"].get(k)) + OWN.get(kind, [])      # (what a class says for itself more often)
    kinds, laws = {"law": (("law",), ("makeham", "gompertz")), "cf": (("law",), ("cf",)), "beta": (("law",), ("beta",)), "uniform": (("law",), ("uniform",))}.get(
        kind, (("table", "sult", "law", "select") if kind in MT else (kind,), ("cf",)))
    L = draw(life(kinds, maxlen=9, laws=laws if kinds == ("law",) or kind in MT else None))
    if kind == "beta" and L["law"]["alpha"] == 1:
        L["law"]["alpha"] = 1.1
    if kind == "base":
        L["form"], L["maxage"] = draw(st.sampled_from(["S", "l"])), 120
    if L["kind"] == "select":
        L["t"]["rows"][-1][-1] = 1.
    m = draw(st.sampled_from([1, 2, 4, 12]))
    if own and draw(st.booleans()):
        name = draw(st.sampled_from(own))
    else:
        name = draw(st.sampled_from(sorted(DOC[kind])))
    ps = DOC[kind][name]
    vals = draw(values(L, name, ps, m))
    can = [p for p, d in ps if d is not REQ]
    omit = draw(st.lists(st.sampled_from(can), min_size=1, max_size=len(can), unique=True)) if can else []
    return {"life": L, "doc": kind, "m": m, "name": name, "vals": vals, "omit": sorted(omit), "three": kind == "Woolhouse" and draw(st.booleans()), "i": draw(rate), "disc": draw(st.booleans()), "T": draw(st.sampled_from([0, 3])), "res": draw(rnd(.5, 3, 1))}


def doc_value(d, given):
    """an argument's documented value, written out"""
    if d == "CON":
        return am.Contract(premium=1, initial_policy=0, initial_premium=0, renewal_policy=0, renewal_premium=0, settlement_policy=0, benefit=1, endowment=0, T=WHOLE, discrete=True)
    if d == "ONE":
        return lambda x, t: 1
    if d == "UNIT":
        return lambda t: 1
    if d == "SAME":
        return given["b"]
    if d in ("MU", "MUT"):      # the force of mortality at the start, at the end
        o, e = given["model"], given["s"] if d == "MU" else given["s"] + given["t"]
        try:
            return o.mu_x(given["x"], s=e) if given["t"] >= 0 or d == "MU" else None
        except (Violation, CpuTimeout):
            raise
        except Exception:
            return None
    return {"WHOLE": WHOLE, "True": True, "False": False}[d] if d in ("WHOLE", "True", "False") else float(d) if "." in d or "e" in d else int(d)


def real(c, name, p, z):
    if p == "contract":
        return pol.make(z, discrete=c["disc"])
    if p == "benefit":
        return (lambda t: z + t) if name.startswith("t_V") else (lambda x, t: z + .1 * t)
    return z


def model(c):
    o = build(c["life"], c["i"])[0]
    if c["doc"] in MT:
        return getattr(am, c["doc"])(m=c["m"], life=o, **({"three_term": True} if c["three"] else {}))
    if c["name"][:3] in ("t_V", "r_V"):
        o = call("set_reserves", o.set_reserves, V={k: c["res"] * (k + 1) for k in range(200)})
    if c["name"] == "fill_reserves":
        o = call("set_reserves", o.set_reserves, T=c["T"], endowment=0)
    return o


def run(c, name, args, kw):
    """the outcome in comparable form"""
    try:
        o = model(c)
        f = o
        for part in name.split("."):
            f = getattr(f, part)
    except Violation:
        raise
    try:
        z = f(*args, **kw)
        if name == "fill_reserves":
            z = [float(a) for a in z.reserves_frame().to_numpy().ravel()]
        elif z is None or isinstance(z, (bool, str)):
            pass
        elif isinstance(z, (int, float)) or hasattr(z, "dtype"):
            z = [float(a) for a in getattr(z, "flat", [z])] if not isinstance(z, (int, float)) else float(z)
        else:
            z = [float(a) for a in z]
        return "value", z
    except (Violation, CpuTimeout):
        raise
    except Exception as e:
        return "raises", None


def agree(a, b):
    if a[0] != b[0]:
        return False
    x, y = a[1], b[1]
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(agree(("", p), ("", q)) for p, q in zip(x, y))
    if isinstance(x, float) and isinstance(y, float):
        return x == y or x != x and y != y or close(x, y, 1e-9, 1e-12)
    return x == y


def check(c):
    name, ps, vals, omit = c["name"], DOC[c["doc"]][c["name"]], c["vals"], set(c["omit"])
    given = {p: z for p, z in vals.items() if p not in omit}
    nb = dict({"t": 0}, **vals, model=model(c))
    nb.update({p: doc_value(d, nb) for p, d in ps if p in omit and p in ("b", "s", "t")})
    short = {KW.get(p, p): real(c, name, p, z) for p, z in given.items()}
    order = [p for p, _ in ps]
    full = {KW.get(p, p): short[KW.get(p, p)] if p in given else doc_value(d, nb) for p, d in ps}
    alt = {KW.get(p, p): real(c, name, p, vals[p]) for p in order}
    lab = f"{type(model(c)).__name__}.{name}({', '.join(f'{p}={given[p]}' for p in order if p in given)})"
    a = run(c, name, (), short)
    b = run(c, name, (), full)
    if not agree(a, b):
        fail(f"{lab} {show(a)}, with {', '.join(f'{p}={dict(ps)[p]}' for p in order if p in omit)} written out {show(b)}")
    k = next((j for j, p in enumerate(order) if p in omit), len(order))
    pos = run(c, name, [full[KW.get(p, p)] for p in order], {})
    if not agree(pos, b):
        fail(f"{lab}: all arguments by position {show(pos)}, by keyword {show(b)}")
    return b[0] == "value" and not agree(run(c, name, (), alt), b)


def show(a):
    return "raises" if a[0] == "raises" else f"gives {a[1]}"


# ------------------------------------------------------------------ settings
CONTRACT = dict(premium=1, initial_policy=0, initial_premium=0, renewal_policy=0, renewal_premium=0, settlement_policy=0, benefit=1, endowment=0, T=WHOLE, discrete=True)
FACTS = parse("""
set_q x s=0 t=1 u=0 ; set_p x s=0 t=1 ; set_e x s=0 t=WHOLE curtate=False moment=1 ; set_E x s=0 t=1 endowment=1 moment=1
set_IA x s=0 t=WHOLE b=1 discrete=True ; set_DA x s=0 t=WHOLE b=1 discrete=True
set_A x s=0 t=WHOLE u=0 b=1 moment=1 endowment=0 discrete=True ; set_a x s=0 t=WHOLE u=0 b=1 variance=False discrete=True
""")
QUERIES = parse("""
q_x x s=0 t=1 u=0 ; p_x x s=0 t=1 ; e_x x s=0 t=WHOLE curtate=False moment=1 ; E_x x s=0 t=1 endowment=1 moment=1
increasing_insurance x s=0 t=WHOLE b=1 discrete=True ; decreasing_insurance x s=0 t=WHOLE b=1 discrete=True
whole_life_insurance x s=0 b=1 discrete=True moment=1 ; term_insurance x s=0 t=1 b=1 moment=1 discrete=True
deferred_insurance x s=0 b=1 u=0 t=WHOLE moment=1 discrete=True ; endowment_insurance x s=0 t=1 b=1 endowment=SAME moment=1 discrete=True
whole_life_annuity x s=0 b=1 variance=False discrete=True ; temporary_annuity x s=0 t=WHOLE b=1 variance=False discrete=True
deferred_annuity x s=0 t=WHOLE u=0 b=1 discrete=True
""")
ASKS = {"set_q": "q_x", "set_p": "p_x", "set_e": "e_x", "set_E": "E_x", "set_IA": "increasing_insurance", "set_DA": "decreasing_insurance"}


@st.composite
def s_set(draw, tier="quick"):
    what = draw(st.sampled_from(["Contract", "fact", "fact", "fact", "Survival", "LifeTable", "SelectLife", "SULT"]))
    c = {"what": what}
    if what == "Contract":
        c["vals"] = {k: draw(rnd(0, 5, 1)) if k not in ("T", "discrete") else 7 if k == "T" else False for k in CONTRACT}
        c["omit"] = sorted(draw(st.lists(st.sampled_from(sorted(CONTRACT)), min_size=1, unique=True)))
    elif what == "fact":
        c["name"] = draw(st.sampled_from(sorted(FACTS)))
        v = {"x": draw(st.integers(0, 60)), "s": draw(st.integers(1, 3)), "t": draw(st.integers(1, 6)), "u": draw(st.integers(1, 3)), "curtate": True, "moment": 2, "endowment": draw(rnd(1.5, 9, 1)),
             "b": draw(rnd(1.5, 9, 1)), "discrete": False, "variance": True}
        if c["name"] in ("set_a", "set_e", "set_IA", "set_DA") and v["t"] == 1:
            v["t"] = 2
        c["vals"] = {p: v[p] for p, _ in FACTS[c["name"]]}
        can = [p for p in c["vals"] if p != "x"]
        c["omit"] = sorted(draw(st.lists(st.sampled_from(can), min_size=1, unique=True)))
        c["val"] = draw(rnd(.05, .9, 2))
        c["way"], c["way2"] = draw(st.booleans()), draw(st.integers(0, 3)) == 0
    elif what == "Survival":
        L = draw(life(("base",)))
        c["life"], c["minage"] = dict(L, form="S"), draw(st.booleans())
    elif what == "SelectLife":
        c["t"], c["udd"] = draw(select()), draw(st.booleans())
    elif what == "LifeTable":
        c["t"], c["udd"] = draw(table()), draw(st.booleans())
    else:
        c["x"] = draw(st.integers(20, 99))
    return c


def facts_of(c, kw):
    o = am.Recursion(verbose=False).set_interest(i=.05)
    return getattr(o, c["name"])(c["val"], **kw)


def check_set(c):
    w = c["what"]
    if w == "Contract":
        vals = {k: z for k, z in c["vals"].items() if k not in c["omit"]}
        a = call(f"Contract({vals})", lambda: am.Contract(**vals))
        for k, z in dict(CONTRACT, **vals).items():
            same(f"Contract({vals}).{k}", getattr(a, k), z)
        order = list(CONTRACT)
        b = call("Contract, by position", lambda: am.Contract(*[dict(CONTRACT, **vals)[k] for k in order]))
        for k in order:
            same(f"Contract by position .{k}", getattr(b, k), dict(CONTRACT, **vals)[k])
        return True
    if w == "fact":
        ps = FACTS[c["name"]]
        short = {p: c["vals"][p] for p, _ in ps if p not in c["omit"]}
        full = {p: short.get(p, doc_value(d, {}) if d is not REQ else None) for p, d in ps}
        put = short if c["way"] else full
        o = call(f"{c['name']}({put})", facts_of, c, put)
        q = ASKS.get(c["name"])
        if q == "decreasing_insurance" and full["t"] == WHOLE:
            return False
        ask, drop = dict(full), []
        if q is None:
            W = full["t"] == WHOLE
            if c["name"] == "set_a":
                q = "deferred_annuity" if full["u"] or c["way2"] and not full["variance"] else "whole_life_annuity" if W else "temporary_annuity"
                if full["u"] and full["variance"]:
                    return False
                drop = ["variance"] if q[0] == "d" else ["u"] + (["t"] if W else [])
            else:
                if W and full["endowment"] or full["u"] and full["endowment"]:
                    return False
                q = "deferred_insurance" if full["u"] or c["way2"] and not full["endowment"] else "whole_life_insurance" if W else "endowment_insurance" if full["endowment"] else "term_insurance"
                drop = {"deferred_insurance": ["endowment"], "whole_life_insurance": ["endowment", "t", "u"], "term_insurance": ["u", "endowment"], "endowment_insurance": ["u"]}[q]
            ask = {k: z for k, z in ask.items() if k not in drop}
        if not c["way"]:      # leave out of the question what it may leave out
            ask = {p: ask[p] for p, d in QUERIES[q] if p in ask and (d is REQ or ask[p] != doc_value(d, ask))}
        got = call(f"{q}({ask}) after {c['name']}({c['val']}, {put})", getattr(o, q), **ask)
        eq(f"{q}({ask}) after {c['name']}({c['val']}, {put})", tofloat(q, got), c["val"], 1e-9, 1e-9)
        return True
    if w == "Survival":
        from lib.zoo import law_funs
        R, S, f, l, mu = law_funs(c["life"]["law"])
        a = call("set_survival(S)", lambda: am.Reserves().set_survival(S=S))
        b = call("set_survival(S, minage=0, maxage=1000)", lambda: am.Reserves(udd=True).set_survival(S=S, minage=0, maxage=1000))
        p = call("set_survival(S, None, None, None, 0, 1000)", lambda: am.Reserves().set_survival(S, None, None, None, 0, 1000))
    elif w == "LifeTable":
        q = qdict(c["t"])
        n = len(q)
        a = call("set_table(q)", lambda: am.LifeTable().set_table(q=q))
        b = call("set_table(q, radix, ages)", lambda: am.LifeTable(udd=True, verbose=False).set_table(q=q, radix=100000, minage=c["t"]["x0"], maxage=c["t"]["x0"] + n, fill=True))
        p = None
    elif w == "SelectLife":
        q = seldict(c["t"])
        a = call("set_table(q)", lambda: am.SelectLife().set_table(q=q))
        n = len(next(iter(q.values()))) - 1
        b = call("set_table(q, radix)", lambda: am.SelectLife(periods=n, udd=True, verbose=False).set_table(q=q, radix=100000, fill=True))
        p = None
    else:
        a, p = am.SULT(), None
        b = am.SULT(i=.05, radix=100000, minage=20, maxage=130)
        same("SULT().interest.i", round(a.interest.i, 12), .05)
    for o in (a, b, p):
        if o is not None and w != "SULT":
            o.set_interest(i=.04)
    x = c["life"]["x"] if w == "Survival" else c["x"] if w == "SULT" else c["t"]["x0"]
    asks = [("l_x", (x,)), ("l_x", (x + 1,)), ("p_x", (x, 0, 2)), ("p_r", (x, 0, .3, .4)), ("q_r", (x, 1, .5, .3)), ("whole_life_insurance", (x,)), ("temporary_annuity", (x, 0, 2))]
    if w == "Survival":
        asks = asks[:5] + [("term_insurance", (x, 0, 3)), ("temporary_annuity", (x, 0, 3))]
    for o in (b, p):
        if o is None:
            continue
        for nm, args in asks:
            eq(f"{w} with settings written out: {nm}{args}", num(nm, getattr(o, nm), *args), num(nm, getattr(a, nm), *args), 1e-9, 1e-12)
        same("oldest age", o._MAXAGE, a._MAXAGE)
    return True


SUBS = [Sub("queries", lambda tier: strat(), check, 5000, what="answers with arguments left out, written out, and by position"),
        Sub("settings", lambda tier: s_set(), check_set, 1500, what="contracts, models and recursion facts with settings left out")]
