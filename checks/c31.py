"""C31 objects are independent and queries have no side effects."""
import math, copy, io, contextlib
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, rate, law, table, select, qdict, ldict, seldict, law_funs
from lib import pol
import actuarialmath as am

RULE = ("histories: cases draw 2-4 live models of any kind (life tables, select tables, special laws, user-given survival functions, the standard table, recursion solvers, m-thly "
        "wrappers and extra risks over a shared life), and a sequence of 4-14 operations on them (interest set before or after the survival data and set again in any form, facts added, "
        "queries of every kind, some asked repeatedly); each answer is compared with the same query on a fresh model, built from the same data with the last interest only; "
        "non-trivial = at least two models were queried (in the single-model cases that one, again after new data or interest), and at least three queries returned a number or a frame")
ASSUMPTIONS = ["queries that raise on a fresh model must raise in the history too", "select tables carry no insurance or annuity values (those are facts at one interest rate)",
               "a fixed policy's reserves are part of the query (set_reserves with a term starts a new policy)"]
CPOOL = 2


# ---------------------------------------------------------------- models
@st.composite
def s_model(draw, others):
    kinds = ["table", "table", "ltab", "law", "base", "select", "select", "sult", "rec"]
    shared = [k for k, o in enumerate(others) if o["kind"] in ("table", "ltab", "law", "base", "sult", "select")]
    if shared:
        kinds += ["mthly", "mthly", "extra"]
    kind = draw(st.sampled_from(kinds))
    d = {"kind": kind, "first": draw(st.booleans())}
    if kind in ("table", "ltab"):
        d["t"] = draw(table(maxlen=8, x0max=60))
        d["how"] = draw(st.sampled_from(["q", "p", "l", "parts"])) if kind == "table" else draw(st.sampled_from(["l", "S"]))
        d["x"], d["n"] = d["t"]["x0"], len(d["t"]["q"])
        d["cut"] = draw(st.integers(1, d["n"] - 1))
    elif kind == "select":
        d["t"] = draw(select(terminal=True, maxrows=6))
        d["x"], d["n"] = d["t"]["x0"], len(d["t"]["rows"])
    elif kind == "sult":
        d["x"], d["n"], d["udd"] = draw(st.integers(20, 95)), 20, draw(st.booleans())
    elif kind in ("law", "base"):
        d["law"] = draw(law() if kind == "base" else law(("makeham", "gompertz", "cf", "beta", "uniform")))
        d["x"], d["n"], d["udd"] = draw(st.integers(20, 50)), 8, draw(st.booleans())
        d["form"] = draw(st.sampled_from(["S", "l", "S", "l", "mu"]))
        if kind == "base":
            d["law2"], d["form2"] = draw(law()), draw(st.sampled_from(["S", "l", "S+mu", "f"]))
    elif kind == "rec":
        n = draw(st.integers(2, 5))
        d["x"], d["n"] = draw(st.sampled_from([0, 30])), n
        d["facts"] = [[draw(st.sampled_from(["q", "p"])), k, draw(rnd(.01, .4, 2))] for k in draw(st.permutations(range(n)))]
        d["cut"] = draw(st.integers(1, n))
        d["A"] = draw(rnd(.2, .7, 2))
    else:
        d["of"] = draw(st.sampled_from(shared))
        o = others[d["of"]]
        d["x"], d["n"] = o["x"], o["n"]
        if kind == "mthly":
            d["cls"], d["m"] = draw(st.sampled_from(["Mthly", "UDD", "Woolhouse"])), draw(st.sampled_from([1, 2, 4, 12]))
            d["three"] = draw(st.booleans())
        else:
            d["risk"], d["extra"] = draw(st.sampled_from([["ADD_FORCE", .03], ["MULTIPLY_FORCE", 1.7], ["ADD_AGE", 1], ["MULTIPLY_RATE", 1.4]]))
    return d


FORMS = ("i", "delta", "d", "v", "i_m", "d_m", "i", "delta", "d", "v", "i_m", "d_m", "v_t")


def ikw(i, form, m=4):
    return {"v_t": {"v_t": lambda t: 1 / (1 + i * t)}, "i": {"i": i}, "delta": {"delta": math.log(1 + i)}, "d": {"d": i / (1 + i)}, "v": {"v": 1 / (1 + i)}, "i_m": {"i_m": m * ((1 + i) ** (1 / m) - 1), "m": m},
            "d_m": {"d_m": m * (1 - (1 + i) ** (-1 / m)), "m": m}}[form]


def more(d, o, give=lambda v: v):
    """load the second part of the data of a model (a new law for a user-given one)"""
    k = d["kind"]
    if k == "table" and d["how"] == "parts":
        q = qdict(d["t"])
        call("set_table", o.set_table, p=give({a: 1 - q[a] for a in sorted(q)[d["cut"]:]}))
    elif k == "rec":
        for w, a, z in d["facts"][d["cut"]:]:
            o = (o.set_q if w == "q" else o.set_p)(z, x=d["x"] + a)
    elif k == "sult":                   # lives of another law for every age
        call("set_table", o.set_table, l=give({a: 1000 * math.exp(-.001 * (a - 20) - 2e-5 * (1.11 ** (a - 20) - 1)) for a in range(20, 126)}), minage=20, maxage=125)
    elif k == "select":                 # another table of the same shape
        call("set_table", o.set_table, q=give({a: [z if z == 1 else .8 * z for z in row] for a, row in seldict(d["t"]).items()}))
    elif k == "ltab":
        l = ldict(d["t"], 1000.)
        l2 = {a: (z / 1000) ** 1.5 for a, z in l.items()}
        call("set_survival", o.set_survival, minage=d["t"]["x0"], maxage=d["t"]["x0"] + len(d["t"]["q"]), l=lambda x, s: l2.get(x + s, 0.))
    elif k == "base":
        R, S, f, l, mu = law_funs(d["law2"])
        call("set_survival", o.set_survival, maxage=d["law2"].get("omega") or 100, **{z: {"S": S, "l": l, "mu": mu, "f": f}[z] for z in d["form2"].split("+")})


def setup(d, seq, objs=None, full=False):
    """build a model; seq = list of (i, form) to set around the loading of data; returns (object, copies of the inputs handed in)"""
    kind = d["kind"]
    ins = []

    def give(v):
        ins.append((v, copy.deepcopy(v)))
        return v

    def made(o):
        for i, f in pre:
            call("set_interest", o.set_interest, **ikw(i, f))
        return o
    k = 1 if d["first"] and len(seq) > 0 else 0
    pre, post = seq[:k], seq[k:]
    if kind == "table":
        t = d["t"]
        q, l = qdict(t), ldict(t, 1000.)
        o = made(am.LifeTable(udd=t["udd"]))
        if d["how"] == "q":
            call("set_table", o.set_table, q=give(q))
        elif d["how"] == "p":
            call("set_table", o.set_table, p=give({a: 1 - z for a, z in q.items()}))
        elif d["how"] == "l":
            call("set_table", o.set_table, l=give({a: z for a, z in l.items() if z > 0}), maxage=t["x0"] + len(t["q"]))
        else:
            ages = sorted(q)
            call("set_table", o.set_table, q=give({a: q[a] for a in ages[:d["cut"]]}))
    elif kind == "ltab":
        t = d["t"]
        l = give(ldict(t, 1000.))
        kw = {"l": lambda x, s: l.get(x + s, 0.)} if d["how"] == "l" else {"S": lambda x, s, t: (l.get(x + s + t, 0.) / l[x + s]) if l.get(x + s, 0.) else 0.}
        o = made(am.Reserves(udd=t["udd"]))
        call("set_survival", o.set_survival, minage=t["x0"], maxage=t["x0"] + len(t["q"]), **kw)
    elif kind == "select":
        o = made(am.SelectLife(udd=d["t"]["udd"]))
        call("set_table", o.set_table, q=give(seldict(d["t"])))
    elif kind == "sult":
        o = call("SULT", am.SULT, udd=d["udd"], minage=20, maxage=125)
        post = pre + post
    elif kind == "law":
        lw, k = d["law"], d["law"]["law"]
        o = {"makeham": lambda: am.Makeham(A=lw["A"], B=lw["B"], c=lw["c"]), "gompertz": lambda: am.Gompertz(B=lw["B"], c=lw["c"]), "cf": lambda: am.ConstantForce(mu=lw["mu"]),
             "beta": lambda: am.Uniform(lw["omega"]) if lw["alpha"] == 1 else am.Beta(omega=lw["omega"], alpha=lw["alpha"])}[k]()
        post = pre + post
    elif kind == "base":
        R, S, f, l, mu = law_funs(d["law"])
        o = made(am.Reserves(udd=d["udd"]))
        if full != "new":       # otherwise only the last data, on a fresh model
            call("set_survival", o.set_survival, maxage=d["law"].get("omega") or 100, **{d["form"]: {"S": S, "l": l, "mu": mu}[d["form"]]})
    elif kind == "rec":
        o = made(am.Recursion(verbose=False))
        o = o.set_A(d["A"], x=d["x"] + d["n"])
        for w, k, z in d["facts"][:d["cut"]]:
            o = (o.set_q if w == "q" else o.set_p)(z, x=d["x"] + k)
    elif kind == "mthly":
        kw = {"three_term": d["three"]} if d["cls"] == "Woolhouse" else {}
        o = call(d["cls"], getattr(am, d["cls"]), m=d["m"], life=objs[d["of"]], **kw)
        post = []
    else:
        o = call("ExtraRisk", am.ExtraRisk, life=objs[d["of"]], risk=d["risk"], extra=d["extra"])
        post = []
    if full:
        more(d, o, give)
    for i, f in post:
        call("set_interest", o.set_interest, **ikw(i, f))
    return o, ins


# ---------------------------------------------------------------- queries
def reserves(o, x, s, c, n, how):
    o.set_reserves(T=n, endowment=c.endowment)
    o.fill_reserves(x=x, s=s, contract=c, reserve_benefit=how)
    return o.reserves_frame()


def arr(o, name, x, s, t):
    return [getattr(o, name)(x, s, r) for r in (0, .3, t)]


Qs = {
    "p1": lambda o, q, c: o.p_x(q["x"], s=q["s"]), "q1": lambda o, q, c: o.q_x(q["x"], s=q["s"]), "p": lambda o, q, c: o.p_x(q["x"], s=q["s"], t=q["t"]), "q": lambda o, q, c: o.q_x(q["x"], s=q["s"], t=q["t"], u=q["u"]), "l": lambda o, q, c: o.l_x(q["x"], s=q["s"]),
    "d": lambda o, q, c: o.d_x(q["x"], s=q["s"]), "mu": lambda o, q, c: o.mu_x(q["x"], s=q["s"]), "S": lambda o, q, c: o.S(q["x"], q["s"], q["t"] + q["r"]),
    "f": lambda o, q, c: o.f(q["x"], q["s"], q["t"] + q["r"]), "f_x": lambda o, q, c: o.f_x(q["x"], q["s"], q["t"]),
    "e": lambda o, q, c: o.e_x(q["x"], s=q["s"], t=q["t"], curtate=q["b1"]), "ew": lambda o, q, c: o.e_x(q["x"], s=q["s"], curtate=True),
    "p_r": lambda o, q, c: o.p_r(q["x"], s=q["s"], r=q["r"], t=q["t"] * .4), "q_r": lambda o, q, c: o.q_r(q["x"], s=q["s"], r=q["r"], t=q["t"] * .4, u=.3),
    "l_r": lambda o, q, c: o.l_r(q["x"], s=q["s"], r=q["r"]), "mu_r": lambda o, q, c: o.mu_r(q["x"], s=q["s"], r=q["r"]), "E_r": lambda o, q, c: o.E_r(q["x"], s=q["s"], r=q["r"], t=q["t"]),
    "e_r": lambda o, q, c: o.e_r(q["x"], s=q["s"], t=q["t"]),
    "E": lambda o, q, c: o.E_x(q["x"], s=q["s"], t=q["t"], endowment=q["b"], moment=q["mo"]),
    "A": lambda o, q, c: o.A_x(q["x"], s=q["s"], t=q["t"], u=q["u"], benefit=lambda x, t: q["b"] * (1 + t)),
    "whole": lambda o, q, c: o.whole_life_insurance(q["x"], s=q["s"], b=q["b"], moment=q["mo"]), "whole0": lambda o, q, c: o.whole_life_insurance(q["x"], s=q["s"]),
    "wholec": lambda o, q, c: o.whole_life_insurance(q["x"], s=q["s"], discrete=False),
    "term": lambda o, q, c: o.term_insurance(q["x"], s=q["s"], t=q["t"], b=q["b"], moment=q["mo"]), "term0": lambda o, q, c: o.term_insurance(q["x"], s=q["s"], t=q["t"]),
    "termc": lambda o, q, c: o.term_insurance(q["x"], s=q["s"], t=q["t"], discrete=False),
    "defer": lambda o, q, c: o.deferred_insurance(q["x"], s=q["s"], t=q["t"], u=q["u"], b=q["b"], moment=q["mo"]),
    "endow": lambda o, q, c: o.endowment_insurance(q["x"], s=q["s"], t=q["t"], b=q["b"], endowment=q["b"] + 1, moment=q["mo"]),
    "IA": lambda o, q, c: o.increasing_insurance(q["x"], s=q["s"], t=q["t"], b=q["b"]), "DA": lambda o, q, c: o.decreasing_insurance(q["x"], s=q["s"], t=q["t"], b=q["b"]),
    "Z_x": lambda o, q, c: o.Z_x(q["x"], s=q["s"], t=q["t"], discrete=q["b1"]),
    "Z_t": lambda o, q, c: o.Z_t(q["x"], q["prob"], discrete=q["b1"]), "Z_from_prob": lambda o, q, c: o.Z_from_prob(q["x"], q["prob"], discrete=q["b1"]),
    "Z_to_prob": lambda o, q, c: o.Z_to_prob(q["x"], q["prob"]), "Z_from_t": lambda o, q, c: o.Z_from_t(q["t"] + q["r"], discrete=q["b1"]),
    "aw": lambda o, q, c: o.whole_life_annuity(q["x"], s=q["s"], b=q["b"], variance=q["mo"] < 0), "aw0": lambda o, q, c: o.whole_life_annuity(q["x"], s=q["s"]),
    "at": lambda o, q, c: o.temporary_annuity(q["x"], s=q["s"], t=q["t"], b=q["b"], variance=q["mo"] < 0), "at0": lambda o, q, c: o.temporary_annuity(q["x"], s=q["s"], t=q["t"]),
    "atc": lambda o, q, c: o.temporary_annuity(q["x"], s=q["s"], t=q["t"], discrete=False), "ad": lambda o, q, c: o.deferred_annuity(q["x"], s=q["s"], u=q["u"], t=q["t"]),
    "ac": lambda o, q, c: o.certain_life_annuity(q["x"], s=q["s"], u=q["u"] + 1), "ai": lambda o, q, c: o.immediate_annuity(q["x"], s=q["s"], t=q["t"]),
    "Ia": lambda o, q, c: o.increasing_annuity(q["x"], s=q["s"], t=q["t"], b=q["b"]), "Da": lambda o, q, c: o.decreasing_annuity(q["x"], s=q["s"], t=q["t"]),
    "Y_x": lambda o, q, c: o.Y_x(q["x"], s=q["s"], t=q["t"]), "Y_t": lambda o, q, c: o.Y_t(q["x"], q["prob"], discrete=q["b1"]),
    "Y_from_prob": lambda o, q, c: o.Y_from_prob(q["x"], q["prob"], discrete=q["b1"]), "Y_to_prob": lambda o, q, c: o.Y_to_prob(q["x"], q["t"]),
    "twinA": lambda o, q, c: o.insurance_twin(1 + q["prob"]), "twina": lambda o, q, c: o.annuity_twin(q["prob"]), "avar": lambda o, q, c: o.annuity_variance(A2=.5, A1=.4, b=q["b"]),
    "P": lambda o, q, c: o.net_premium(q["x"], s=q["s"], t=q["t"], u=0, b=q["b"]), "Pw": lambda o, q, c: o.net_premium(q["x"], s=q["s"]),
    "Pe": lambda o, q, c: o.net_premium(q["x"], s=q["s"], t=q["t"], b=q["b"], endowment=q["b"]), "Prc": lambda o, q, c: o.net_premium(q["x"], s=q["s"], t=q["t"], return_premium=True, initial_cost=1),
    "G": lambda o, q, c: o.gross_premium(a=5, A=.4, **c.premium_terms), "Peq": lambda o, q, c: o.premium_equivalence(A=q["prob"], b=q["b"]),
    "V": lambda o, q, c: o.net_policy_value(q["x"], s=q["s"], t=q["u"], n=q["t"] + q["u"], b=q["b"], endowment=q["b"]), "Vw": lambda o, q, c: o.net_policy_value(q["x"], s=q["s"], t=q["u"]),
    "Vt": lambda o, q, c: o.net_policy_value(q["x"], s=q["s"], t=q["u"], n=q["t"] + q["u"], b=q["b"], endowment=0), "Vvar": lambda o, q, c: o.net_policy_variance(q["x"], s=q["s"], t=q["u"]),
    "gV": lambda o, q, c: o.gross_policy_value(q["x"], s=q["s"], t=q["u"], n=q["t"] + q["u"], contract=c), "gVw": lambda o, q, c: o.gross_policy_value(q["x"], s=q["s"], t=q["u"], contract=c),
    "gVvar": lambda o, q, c: o.gross_policy_variance(q["x"], s=q["s"], t=q["u"], contract=c), "gV0": lambda o, q, c: o.gross_policy_value(q["x"], s=q["s"], t=q["u"]),
    "gfl": lambda o, q, c: o.gross_future_loss(A=q["prob"], contract=c), "gfl0": lambda o, q, c: o.gross_future_loss(A=q["prob"]),
    "L_t": lambda o, q, c: o.L_from_t(q["t"] + q["r"], contract=c), "L_p": lambda o, q, c: o.L_from_prob(q["x"], q["prob"], contract=c), "L_to_t": lambda o, q, c: o.L_to_t(q["prob"], contract=c),
    "L_to_p": lambda o, q, c: o.L_to_prob(q["x"], q["prob"], contract=c), "L_to_p0": lambda o, q, c: o.L_to_prob(q["x"], q["prob"]),
    "FPT": lambda o, q, c: o.FPT_premium(q["x"], s=q["s"], n=q["t"] + 1), "FPTV": lambda o, q, c: o.FPT_policy_value(q["x"], s=q["s"], t=q["u"], n=q["t"] + q["u"] + 1),
    "res": lambda o, q, c: reserves(o, q["x"], q["s"], c, q["t"], q["b1"]), "frame": lambda o, q, c: o.frame(), "col": lambda o, q, c: dict(o["q"]), "colA": lambda o, q, c: dict(o["A"]),
    "cola": lambda o, q, c: dict(o["a"]), "colp": lambda o, q, c: dict(o["p"]), "coll": lambda o, q, c: dict(o["l"]), "cole": lambda o, q, c: dict(o["e"]), "cold": lambda o, q, c: dict(o["d"]),
    "loss": lambda o, q, c: (c.renewals(q["u"]).renewal_profit, c.renewals(q["u"]).initial_cost, c.claims_cost, c.renewal_profit, c.initial_cost, sorted(c.premium_terms.items())),
    "p_m": lambda o, q, c: o.p_m(q["x"], s_m=q["s"], t_m=q["t"]), "q_m": lambda o, q, c: o.q_m(q["x"], s_m=q["s"], t_m=q["t"], u_m=q["u"]), "v_m": lambda o, q, c: o.v_m(q["t"]),
    "avi": lambda o, q, c: o.immediate_annuity(q["x"], s=q["s"], t=q["t"], b=q["b"], variance=True), "aiw": lambda o, q, c: o.immediate_annuity(q["x"], s=q["s"]),
    "ax": lambda o, q, c: o.a_x(q["x"], s=q["s"], t=q["t"], u=q["u"], benefit=lambda x, t: q["b"] * (1 + t)), "axc": lambda o, q, c: o.a_x(q["x"], s=q["s"], t=q["t"], u=q["u"], discrete=False),
    "ax0": lambda o, q, c: o.a_x(q["x"], s=q["s"]), "Ax0": lambda o, q, c: o.A_x(q["x"], s=q["s"]), "aw_c": lambda o, q, c: o.whole_life_annuity(q["x"], s=q["s"], discrete=False),
    "IAc": lambda o, q, c: o.increasing_insurance(q["x"], s=q["s"], t=q["t"], discrete=False), "Iac": lambda o, q, c: o.increasing_annuity(q["x"], s=q["s"], t=q["t"], discrete=False),
    "acc": lambda o, q, c: o.certain_life_annuity(q["x"], s=q["s"], u=q["u"], t=q["t"], discrete=False), "E0": lambda o, q, c: o.E_x(q["x"], s=q["s"]), "ev": lambda o, q, c: o.e_x(q["x"], s=q["s"], curtate=True, moment=2),
    "Pa": lambda o, q, c: o.net_premium(q["x"], s=q["s"], u=q["u"] + 1, annuity=True, b=q["b"]), "Pn": lambda o, q, c: o.net_premium(q["x"], s=q["s"], n=q["t"], b=q["b"]), "Ia_eq": lambda o, q, c: (o.insurance_equivalence(q["prob"], b=q["b"]), o.annuity_equivalence(q["prob"], b=q["b"])),
    "Vn": lambda o, q, c: o.net_policy_variance(q["x"], s=q["s"], t=q["u"], n=q["t"] + q["u"], b=q["b"], endowment=q["b"]), "Vsp": lambda o, q, c: o.net_policy_value(q["x"], s=q["s"], t=q["u"], n=q["t"] + q["u"], b=q["b"], endowment=q["b"] / 2),
    "gVn": lambda o, q, c: o.gross_policy_variance(q["x"], s=q["s"], t=q["u"], n=q["t"] + q["u"], contract=am.Contract(**dict(vars(c), endowment=c.claims_cost))),
    "gVe": lambda o, q, c: o.gross_policy_value(q["x"], s=q["s"], t=q["u"], n=q["t"] + q["u"], contract=am.Contract(**dict(vars(c), endowment=c.claims_cost))), "gVr": lambda o, q, c: o.gross_policy_value(q["x"], s=q["s"] + q["u"], n=q["t"], contract=c.renewals(q["u"])),
    "nfl": lambda o, q, c: (o.net_future_loss(A=q["prob"], A1=.5, b=q["b"]), o.net_variance_loss(A1=.5, A2=.4, A=q["prob"], b=q["b"]), o.gross_variance_loss(A1=.5, A2=.4, contract=c)),
    "rV": lambda o, q, c: (o.set_reserves(T=3, V={0: 0, 1: 5., 2: 9., 3: 20.}) and [o.r_V_forward(q["x"], s=q["u"], r=q["r"], premium=6., benefit=q["b"]), o.r_V_backward(q["x"], s=q["u"], r=q["r"], benefit=q["b"])]),
    "tV": lambda o, q, c: (o.set_reserves(T=4, V={2: 9.}) and [o.t_V(q["x"], s=q["s"], t=k, premium=6., benefit=lambda t: q["b"], per_policy=.5, reserve_benefit=q["b1"]) for k in (1, 2, 3)]),
    "int": lambda o, q, c: (o.interest.i, o.interest.d, o.interest.v, o.interest.delta, o.interest.v_t(q["t"]), o.interest.annuity(q["t"], m=q["u"])), "vt": lambda o, q, c: o.interest.v_t(q["t"] + q["r"]),
    "udv": lambda o, q, c: o.deferred_annuity(q["x"], s=q["s"], u=q["u"], t=q["t"], variance=True), "atv": lambda o, q, c: o.temporary_annuity(q["x"], s=q["s"], t=q["t"], variance=True),
    "termv": lambda o, q, c: o.term_insurance(q["x"], s=q["s"], t=q["t"], b=q["b"], moment=-2), "mu3": lambda o, q, c: o.mu_x(q["x"], s=q["s"]), "endow0": lambda o, q, c: o.endowment_insurance(q["x"], s=q["s"], t=q["t"], b=q["b"]), "defer0": lambda o, q, c: o.deferred_insurance(q["x"], s=q["s"], u=q["u"], t=q["t"], b=q["b"]),
    "Z_m": lambda o, q, c: o.Z_m(q["x"], s=q["s"], t=q["t"]), "alpha": lambda o, q, c: (o.alpha_m, o.beta_m), "m": lambda o, q, c: (o.m, q["x"] and 1),
}
LIFE = [k for k in Qs if k not in ("p_m", "q_m", "v_m", "Z_m", "alpha", "m", "frame", "udv") and not k.startswith("col")]
MTH = ["whole0", "term0", "at0", "aw0", "ad", "twinA", "twina", "avar", "p_m", "q_m", "v_m", "Z_m"]
NOCONT = ("wholec", "termc", "atc", "e_r", "f", "f_x", "axc", "aw_c", "IAc", "Iac", "acc")
SPECIFIC = {"Mthly": MTH + ["whole", "term", "defer", "endow", "E", "A", "aw", "at", "ai", "atv", "termv", "endow0", "defer0"],
            "UDD": MTH + ["whole", "term", "endow", "E", "aw", "at", "alpha", "udv", "atv", "termv", "endow0", "defer0", "ai"],
            "Woolhouse": ["whole0", "term0", "at0", "aw0", "ad", "aw0", "at0", "twinA", "endow0", "defer0", "mu3"],
            "extra": ["p1", "q1", "col", "colp"], "rec": ["p", "q", "e", "E", "whole", "whole0", "term", "term0", "endow", "IA", "DA", "aw", "aw0", "at", "at0", "ad", "P", "Pw", "V", "Vw", "gV",
                                                  "gVw", "L_t", "G", "Peq", "twinA", "twina"],
            "table": LIFE + ["frame", "col", "coll", "cold"], "select": [k for k in LIFE if k not in NOCONT] + ["frame", "col", "coll", "cole", "cold"],
            "sult": [k for k in LIFE if k not in ("wholec", "e_r", "aw_c")] + ["col", "colA", "cola", "colp"] * 4,
            "ltab": [k for k in LIFE if k not in NOCONT + ("Z_t", "Z_from_prob", "Y_t", "Y_from_prob", "mu", "L_p", "L_to_p", "Z_to_prob", "Y_to_prob")]}


@st.composite
def s_query(draw, models, k=None):
    k = draw(st.integers(0, len(models) - 1)) if k is None else k
    d = models[k]
    n = d["n"]
    s = draw(st.integers(0, min(2, n - 1)))
    a = draw(st.integers(0, max(0, n - 2 - s)))
    q = draw(st.sampled_from(SPECIFIC.get(d.get("cls", d["kind"]), LIFE)))
    return {"op": "query", "k": k, "q": q, "x": d["x"] + a, "s": s, "t": draw(st.integers(1, 4)), "u": draw(st.integers(0, 2)), "b": draw(st.sampled_from([1, 2, 100])),
         "mo": draw(st.sampled_from([1, 1, 2, -2])), "prob": draw(rnd(.05, .95, 2)), "r": draw(rnd(0, .9, 1)), "b1": draw(st.booleans()), "c": draw(st.integers(0, CPOOL - 1))}


@st.composite
def s_hist(draw, tier="quick"):
    models = []
    for _ in range(draw(st.integers(2, 4))):
        models.append(draw(s_model(models)))
    cs = [dict(draw(pol.contract()), discrete=draw(st.booleans()), T=draw(st.sampled_from([-999, 3, 6]))) for _ in range(CPOOL)]
    ops, pool = [], []
    for k, d in enumerate(models):      # construct; interest may come later, twice, or before the data
        if d["kind"] not in ("mthly", "extra"):
            d["seq"] = [[draw(rate), draw(st.sampled_from(FORMS))] for _ in range(draw(st.sampled_from([1, 1, 2])))]
    own = [k for k, d in enumerate(models) if d["kind"] not in ("mthly", "extra")]
    for _ in range(draw(st.integers(4, 14))):
        r = draw(st.integers(0, 9))
        if r == 0 and draw(st.booleans()):
            ops.append({"op": draw(st.sampled_from(["load", "load", "touch"])), "k": draw(st.sampled_from(own))})
        elif r < 2:
            ops.append({"op": "interest", "k": draw(st.sampled_from(own)), "i": draw(rate), "form": draw(st.sampled_from(FORMS))})
        elif r < 5 and pool:
            ops.append(draw(st.sampled_from(pool)))
        else:
            o = draw(s_query(models))
            pool.append(o)
            ops.append(o)
    return {"models": models, "contracts": cs, "ops": ops}


@st.composite
def s_again(draw, tier="quick"):
    """the same questions before and after new data or another interest rate"""
    models = [draw(s_model([]))]
    for _ in range(draw(st.sampled_from([0, 0, 1]))):
        models.append(draw(s_model(models)))
    cs = [dict(draw(pol.contract()), discrete=draw(st.booleans()), T=draw(st.sampled_from([-999, 3, 6]))) for _ in range(CPOOL)]
    for d in models:
        if d["kind"] not in ("mthly", "extra"):
            d["seq"] = [[draw(rate), draw(st.sampled_from(FORMS))]]
    qs = [draw(s_query(models)) for _ in range(draw(st.integers(2, 6)))]
    ops = list(qs)
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        k = draw(st.sampled_from([k for k, d in enumerate(models) if "seq" in d]))
        ops.append({"op": "load", "k": k} if draw(st.integers(0, 2)) else {"op": "interest", "k": k, "i": draw(rate), "form": draw(st.sampled_from(FORMS))})
        ops += draw(st.permutations(qs))
    return {"models": models, "contracts": cs, "ops": ops}


def run(label, o, op, con):
    """('ok', value) or ('raise', exception type)"""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return "ok", Qs[op["q"]](o, op, con)
    except (Violation, CpuTimeout):
        raise
    except RecursionError as e:
        return "raise", "RecursionError", ""
    except Exception as e:
        return "raise", type(e).__name__, str(e)[:100]


def flat(v):
    import pandas as pd, numpy as np
    if isinstance(v, pd.DataFrame):
        return [[str(z) for z in v.columns], [str(z) for z in v.index], [flat(z) for z in v.to_numpy().reshape(-1).tolist()]]
    if isinstance(v, dict):
        return [[str(k), flat(z)] for k, z in v.items()]
    if isinstance(v, (list, tuple)):
        return [flat(z) for z in v]
    if isinstance(v, np.ndarray):
        return flat(v.tolist())
    if isinstance(v, np.generic):
        return v.item()
    return v


def agree(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b or abs(a - b) <= 1e-9 + 1e-7 * max(abs(a), abs(b))
    return a == b


def check(c):
    ms = c["models"]
    mk = lambda k: call("Contract", am.Contract, **c["contracts"][k])
    cons = [mk(k) for k in range(CPOOL)]
    clean = [dict(vars(z)) for z in cons]
    objs, inputs, last, loaded = {}, [], {}, set()

    def need(k):            # models come into being when first used
        if k not in objs:
            d = ms[k]
            if "of" in d:
                need(d["of"])
            objs[k], ins = setup(d, [tuple(z) for z in d.get("seq", [])], objs)
            inputs.extend(ins)
            if d.get("seq"):
                last[k] = tuple(d["seq"][-1])
            hist.append(f"new {k}")

    def fresh(k):
        d = ms[k]
        if "of" in d:
            return setup(d, [], {d["of"]: fresh(d["of"])})[0]
        return setup(d, [last[k]], full="new" if k in loaded else False)[0]
    used, good, hist = set(), 0, []
    for n, op in enumerate(c["ops"]):
        k = op["k"]
        need(k)
        if op["op"] == "touch":
            continue
        if op["op"] == "load":
            if k not in loaded:
                loaded.add(k)
                more(ms[k], objs[k])
                hist.append(f"load {k}")
            continue
        if op["op"] == "interest":
            call("set_interest again", objs[k].set_interest, **ikw(op["i"], op["form"]))
            last[k] = (op["i"], op["form"])
            hist.append(f"{k}.set_interest({op['form']}~{op['i']})")
            continue
        z = {a: op[a] for a in ("x", "s", "t", "u", "b", "mo", "prob", "r", "b1")}
        got = run("", objs[k], op, cons[op["c"]])
        lab = f"model {k} ({ms[k].get('cls', ms[k]['kind'])}) query {op['q']} {z} after [{'; '.join(hist)}]"
        want = run("", fresh(k), op, mk(op["c"]))
        if got[0] != want[0] or got[0] == "raise" and got[1] != want[1]:
            fail(f"{lab}: {got}, on a fresh model {want}")
        if got[0] == "ok":
            g, w = flat(got[1]), flat(want[1])
            if not agree(g, w):
                fail(f"{lab}: got {str(g)[:300]}, on a fresh model {str(w)[:300]}")
            used.add(k)
            good += got[1] is not None
        hist.append(f"{k}.{op['q']}")
        for j, con in enumerate(cons):
            if vars(con) != clean[j]:
                fail(f"{lab}: contract {j} passed in was modified: { {a: (clean[j].get(a), b) for a, b in vars(con).items() if clean[j].get(a) != b} }")
        for v, keep in inputs:
            if v != keep:
                fail(f"{lab}: survival data passed in was modified: {v} was {keep}")
    return (len(used) > 1 or len(ms) == 1) and good > 2


SUBS = [Sub("history", lambda tier: s_hist(), check, 1500, what="operation sequences over several live models vs each query alone on a fresh model"),
        Sub("again", lambda tier: s_again(), check, 900, what="the same questions before and after new data or another interest rate, vs a fresh model")]
