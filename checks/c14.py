"""C14 gross premiums and contract terms satisfy the equivalence principle."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, life, build, rate, rate0
from lib import ref, pol
from lib.pol import contract
import actuarialmath as am
from checks.c10 import lifeV, dom

RULE = ("cases draw contract terms (benefit, endowment, settlement, initial and renewal expenses), a model, term (or whole life), timing, which factors are given and an optional "
        "return-of-premium factor; the oracle is the equation EPV(premiums) = EPV(benefits and expenses) itself, and the gross value of the policy at issue; "
        "non-trivial = the contract has expenses or an endowment and the term is over a year")
ASSUMPTIONS = ["non-negative interest (formulas that divide by the rate: positive)", "premium net of renewal expense rates covers some of its annuity (denominator bounded away from zero)"]


@st.composite
def strat(draw, tier="quick"):
    disc = draw(st.booleans())
    L = draw(lifeV(disc))
    left = L["left"] if L["left"] is not None else 40
    sel = L["kind"] == "select"
    if sel and left < 1:
        L["x"], L["s"], left = L["t"]["x0"], 0, len(L["t"]["rows"]) - 1
    whole = not sel and draw(st.booleans())
    c = draw(contract(endow=not whole))
    return {"life": L, "disc": disc, "c": c, "t": -1 if whole else draw(st.integers(1, max(1, left))), "give": draw(st.sampled_from(["both", "A", "a"])),
            "IA": draw(st.booleans()), "i": draw(rate0)}


def check(c):
    L, disc, k, t = c["life"], c["disc"], c["c"], c["t"]
    v = 1 / (1 + c["i"])
    obj, R = build(L, c["i"])
    if not dom({"disc": disc}, L, R, v):
        return False
    x, s = L["x"], L["s"]
    n = None if t < 0 else t
    term = n is not None and k["endowment"] != pol.claims(k)
    a = ref.ann(R, v, x, s, t=n, discrete=disc)
    A = ref.ins(R, v, x, s, t=n, discrete=disc, end=0 if term else 1)
    E = v**n * R.S(x, s, n) if term else 0.
    IA = 0.
    kw = dict(benefit=k["benefit"], settlement_policy=k["settlement_policy"], initial_policy=k["initial_policy"], initial_premium=k["initial_premium"],
              renewal_policy=k["renewal_policy"], renewal_premium=k["renewal_premium"], discrete=disc)
    if term and k["endowment"] and E > 1e-9:
        kw.update(E=E, endowment=k["endowment"])
    elif term:
        k = dict(k, endowment=0.)
    if c["IA"]:
        IA = ref.ins(R, v, x, s, t=n, b=lambda z: z, discrete=disc)
        kw["IA"] = IA
    den = a - (k["renewal_premium"] * (a - 1) + k["initial_premium"]) - IA
    if abs(den) < 0.05:
        return False
    both = term or c["i"] == 0      # without interest neither follows from the other
    if c["give"] != "A" or both:
        kw["a"] = a
    if c["give"] != "a" or both:
        kw["A"] = A
    P = num(f"gross_premium({kw})", obj.gross_premium, **kw)
    # equivalence: premiums = claims + endowment + expenses + returned premiums
    inc = P * a
    out = (A * pol.claims(k) + E * k["endowment"] + k["initial_policy"] + k["renewal_policy"] * (a - 1)
           + P * (k["initial_premium"] + k["renewal_premium"] * (a - 1)) + P * IA)
    tol = 1e-7 if "A" in kw and "a" in kw else 2e-5 if disc else 1e-4
    size = abs(inc) + abs(out) + pol.claims(k)
    eq(f"EPV premiums = EPV outgo (P={P}, {kw})", inc, out, 0, tol * size)
    if not c["IA"]:
        con = pol.make(dict(k, premium=P), discrete=disc)
        same("premium_terms", con.premium_terms, {f: k[f] for f in ("benefit", "initial_policy", "initial_premium", "renewal_policy", "renewal_premium", "settlement_policy")})
        V = num("gross_policy_value at issue", obj.gross_policy_value, x, s=s, t=0, contract=con, **({} if n is None else {"n": n}))
        eq(f"gross value at issue is zero (P={P}, contract={k}, n={n})", V, 0., 0, (2e-5 if disc else 2e-4) * size)
        G = num("gross_premium(**premium_terms)", obj.gross_premium, A=A, a=a, **{z: kw[z] for z in ("E", "endowment", "discrete") if z in kw}, **con.premium_terms)
        eq("premium from premium_terms", G, P, 1e-4, 1e-5 * size)
    return (n is None or n > 1) and (k["initial_policy"] > 0 or k["renewal_premium"] > 0 or k["endowment"] > 0)


@st.composite
def s_con(draw, tier="quick"):
    return {"c": draw(contract()), "disc": draw(st.booleans()), "T": draw(st.just(-999) | st.integers(1, 30)), "t": draw(st.integers(0, 12)),
            "upd": draw(st.dictionaries(st.sampled_from(list(pol.FIELDS)), rnd(0, 5, 2), max_size=4)), "bogus": draw(st.booleans())}


def check_con(c):
    k, T, t = c["c"], c["T"], c["t"]
    con = pol.make(k, discrete=c["disc"], T=T)
    for step in range(2):
        for f in pol.FIELDS:
            same(f"contract.{f}", getattr(con, f), k[f])
        eq("renewal_profit", num("renewal_profit", lambda: con.renewal_profit), pol.profit(k), 1e-12, 1e-9)
        eq("initial_cost", num("initial_cost", lambda: con.initial_cost), pol.initial(k), 1e-12, 1e-9)
        eq("claims_cost", num("claims_cost", lambda: con.claims_cost), pol.claims(k), 1e-12)
        same(f"premium_terms (T={T}, discrete={c['disc']})", con.premium_terms,
             {f: getattr(con, f) for f in ("benefit", "initial_policy", "initial_premium", "renewal_policy", "renewal_premium", "settlement_policy")})
        # first-year and renewal cash flow of a premium-paying year
        eq("first year net income = profit - initial cost", con.renewal_profit - con.initial_cost,
           k["premium"] * (1 - k["initial_premium"]) - k["initial_policy"], 1e-12, 1e-8)
        if T < 0 or t < T:
            r = call("renewals", con.renewals, t)
            for f in pol.FIELDS:
                same(f"renewals().{f}", getattr(r, f), k[{"initial_policy": "renewal_policy", "initial_premium": "renewal_premium"}.get(f, f)])
            same("renewals().discrete", r.discrete, c["disc"])
            same("renewals().T", r.T, T if T < 0 else T - t)
            eq("renewals().initial_cost", r.initial_cost, 0., 0, 1e-12)
            same("renewals leaves the contract alone", (con.T, con.initial_policy), (T, k["initial_policy"]))
        up = dict(c["upd"])
        k = dict(k, **up)
        same("set_contract returns the contract", call("set_contract", con.set_contract, **up, **({"nonesuch": 1} if c["bogus"] else {})) is con, True)
        same("unknown terms are ignored", hasattr(con, "nonesuch"), False)
    return bool(c["upd"]) and k["initial_policy"] > 0


SUBS = [Sub("premium", lambda tier: strat(), check, 1500, what="gross premium balances the account; the policy is worth nothing at issue"),
        Sub("contract", lambda tier: s_con(), check_con, 400, what="derived cash flows of a contract, its renewals, and updates")]
