"""C29 values solved by recursion are implied by the facts given."""
import math, io, contextlib
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, rate
from lib import ref, pol
from lib.pol import contract
import actuarialmath as am

RULE = ("cases draw a hidden life (one-year rates, uniform deaths, never-ending tail), interest, a set of facts of every kind about it in random order and with random amounts, and a "
        "sequence of queries interleaved with them; every number the solver returns is compared with the hidden life's own value; non-trivial = at least one query that is not itself "
        "a given fact was answered with a number")
ASSUMPTIONS = ["positive interest, probabilities strictly between 0 and 1", "facts are mutually consistent (taken from one life)", "undetermined quantities may be reported by None or by raising",
               "ages such that all terms end before the solver's oldest age"]
WHOLE = am.Recursion.WHOLE
TAIL = 150


@st.composite
def s_life(draw):
    n = draw(st.integers(4, 12))
    return {"x0": draw(st.sampled_from([0, 0, 1, 30, 55])), "q": [draw(rnd(.005, .4, 3)) for _ in range(n)], "tail": draw(rnd(.15, .45, 2)), "i": draw(rate)}


def truth_life(c):
    return ref.TableRef({c["x0"] + k: q for k, q in enumerate(c["q"] + [c["tail"]] * TAIL)}, True)


amt = st.sampled_from([1, 1, 1, 2, 1000]) | rnd(.5, 9, 1)
KINDS = ["p", "p", "q", "q", "e", "E", "IA", "DA", "A", "A", "A", "a", "a"]
QK = KINDS + ["imm", "cert"]


@st.composite
def quantity(draw, x0, hi=3, kinds=KINDS, tmax=4, query=False):
    k = draw(st.sampled_from(kinds))
    a = draw(st.integers(0, hi))
    s = draw(st.integers(0, a))
    d = {"k": k, "x": x0 + a - s, "s": s, "t": draw(st.integers(1, tmax))}
    if k in ("A", "a", "e", "IA") and draw(st.integers(0, 1)):
        d["t"] = WHOLE
    if k == "q":
        d["u"] = draw(st.sampled_from([0, 0, 0, 1, 2]))
        if d["u"] == 0 and draw(st.integers(0, 1)):
            d["t"] = 1
    if k == "p" and draw(st.integers(0, 1)):
        d["t"] = 1
    if k == "e":
        d["curtate"], d["mo"] = draw(st.booleans()), draw(st.sampled_from([1, 1, 1, 2]))
    if k in ("E", "A"):
        d["mo"] = draw(st.sampled_from([1, 1, 1, 2, -2]))
    if k == "E":
        d["end"] = draw(amt)
        if draw(st.integers(0, 1)):
            d["t"] = 1
    if k in ("IA", "DA", "A", "a"):
        d["b"] = draw(amt)
        d["disc"] = draw(st.sampled_from([True, True, False]))
    if k in ("A", "a"):
        d["u"] = draw(st.sampled_from([0, 0, 0, 1, 2]))
    if k == "A":
        d["end"] = 0 if d["t"] == WHOLE else draw(st.sampled_from([0, 0, -1, d["b"]]) | amt)
        if d["u"] and query:
            d["end"] = 0
    if k == "a":
        d["var"] = d["u"] == 0 and draw(st.integers(0, 5)) == 0
    if k in ("imm", "cert"):
        d["b"], d["disc"] = draw(amt), draw(st.booleans())
        d["u"] = draw(st.integers(1, 3)) if k == "cert" else 0
        d["disc"] = d["disc"] or k == "imm"
    return d


@st.composite
def strat(draw, tier="quick"):
    c = draw(s_life())
    n = draw(st.integers(1, 9))
    mode = draw(st.sampled_from(["any", "probs", "simple", "dense", "dense", "near", "near"]))
    kinds = {"near": ["A", "A", "a", "e", "IA", "DA", "E"], "any": KINDS, "dense": ["A", "a", "e", "IA", "DA", "E"], "probs": ["p", "q", "p", "q", "E", "A", "a"], "simple": ["p", "q", "A", "a", "E"]}[mode]
    ops = [dict(draw(quantity(c["x0"], kinds=kinds)), op="fact") for _ in range(n)]
    if mode == "near":
        ops = ops[:4]
    if mode in ("dense", "near"):   # yearly mortality from mixed sources, and a few values
        ops = ops[:3]
        for a in range(draw(st.integers(0, 1)), draw(st.integers(3, 5))):
            k = draw(st.sampled_from(["p", "q", "p", "q", "E"]))
            o = {"op": "fact", "k": k, "x": c["x0"] + a, "s": 0, "t": 1}
            o.update({"q": {"u": 0}, "E": {"mo": 1, "end": 1}}.get(k, {}))
            ops.insert(draw(st.integers(0, len(ops))), o)
    if mode == "simple":            # one benefit amount, first moments: facts combine more often
        for o in ops:
            o.update({k: v for k, v in dict(b=1, mo=1, disc=True, u=0, var=False).items() if k in o})
    qs = [dict(draw(quantity(c["x0"], kinds=QK, query=True)), op="query") for _ in range(draw(st.integers(2, 6)))]
    if mode == "simple":
        for o in qs:
            if draw(st.integers(0, 2)):
                o.update({k: v for k, v in dict(mo=1, disc=True, u=0, var=False).items() if k in o and o["k"] != "cert"})
    if mode == "dense":
        for o in qs:
            if "disc" in o and draw(st.integers(0, 4)):
                o["disc"] = True
            if o["t"] == WHOLE and o["k"] != "e" or o["t"] == 4:
                o["t"] = draw(st.integers(1, 3))
    if mode == "near":              # one year older or younger, sooner or later, other amounts, of something given
        given = [o for o in ops if o["k"] not in ("p", "q")] or ops
        qs = []
        for _ in range(draw(st.integers(2, 5))):
            o = dict(draw(st.sampled_from(given)), op="query")
            dx, how = draw(st.sampled_from([-1, 1, 1, 0])), draw(st.sampled_from(["t", "u", "both", "none"]))
            o["x"] = max(o["x"] + dx, 0)
            if how in ("t", "both") and o["t"] != WHOLE:
                o["t"] = max(1, o["t"] - (dx or 1))
            if how in ("u", "both") and "u" in o:
                o["u"] = max(0, o["u"] - (dx or 1))
            if "b" in o:
                rel = o["end"] / o["b"] if o.get("end", 0) > 0 else None
                o["b"] = draw(amt)
                if rel is not None:
                    o["end"] = rel * o["b"]
            if o["k"] == "A" and o["u"]:
                o["end"] = 0
            if o["k"] == "a" and o["u"]:
                o["var"] = False
            qs.append(o)
    for q in qs:
        if q["k"] not in ("imm", "cert") and draw(st.integers(0, 11)) == 0:
            q["t"] = 0                      # nothing left of the term
            if q.get("var"):
                q["var"] = False
        elif q["k"] == "q" and draw(st.integers(0, 7)) == 0:
            q["t"] = WHOLE
        ops.insert(draw(st.integers(len(ops) // 2, len(ops))), q)
    for o in ops:                           # facts corrected, or withdrawn and given again
        if o["op"] == "fact" and draw(st.integers(0, 7)) == 0:
            o["redo"] = draw(st.sampled_from(["set", "drop"]) if o["k"] in ("p", "q", "e") else st.just("set"))
    return dict(c, mode=mode, ops=ops, depth=draw(st.sampled_from([3, 3, 3, 2, 1, 4])), verbose=draw(st.integers(0, 3)) == 0)


def truth(R, v, d):
    k, x, s = d["k"], d["x"], d["s"]
    y = x + s
    t = None if d["t"] == WHOLE else d["t"]
    b, u, mo, disc = d.get("b", 1), d.get("u", 0), d.get("mo", 1), d.get("disc", True)
    if k == "p":
        return R.S(y, 0, t)
    if k == "q":
        return R.S(y, 0, u) - (R.S(y, 0, u + t) if t is not None else 0.)
    if k == "e":
        return ref.expect(R, y, 0, t, curtate=d["curtate"], moment=mo)
    if k == "E":
        p, z = R.S(y, 0, t), d["end"] * v ** t
        return p * (1 - p) * z * z if mo < 0 else p * z ** mo
    if k == "IA":
        return ref.ins(R, v, y, 0, t=t, b=lambda z: b * z, discrete=disc)
    if k == "DA":
        return ref.ins(R, v, y, 0, t=t, b=lambda z: b * (t + disc - z), discrete=disc)
    if k == "A":
        end = b if d["end"] < 0 else d["end"]
        m = lambda r: ref.ins(R, v, y, 0, t=t, u=u, b=lambda z: b, moment=r, discrete=disc, end=end)
        return m(2) - m(1) ** 2 if mo < 0 else m(mo)
    if k == "a":
        if d["var"]:
            return b * b * ref.ann_moments(R, v, y, 0, t, discrete=disc)[1]
        return ref.ann(R, v, y, 0, t=t, u=u, b=lambda z: b, discrete=disc)
    if k == "imm":
        return ref.ann(R, v, y, 0, t=t, u=1, b=lambda z: b)
    return b * ref.annsum(v, u, disc) + ref.ann(R, v, y, 0, u=u, b=lambda z: b, discrete=disc)


def show(d):
    return d["k"] + "(" + ",".join(f"{a}={'WHOLE' if z == WHOLE else z}" for a, z in d.items() if a not in ("k", "op")) + ")"


def put(life, d, val):
    k = d["k"]
    kw = dict(x=d["x"], s=d["s"], t=d["t"])
    lab = "set_" + show(d)
    if k == "p":
        return call(lab, life.set_p, val, **kw)
    if k == "q":
        return call(lab, life.set_q, val, u=d["u"], **kw)
    if k == "e":
        return call(lab, life.set_e, val, curtate=d["curtate"], moment=d["mo"], **kw)
    if k == "E":
        return call(lab, life.set_E, val, endowment=d["end"], moment=d["mo"], **kw)
    if k in ("IA", "DA"):
        return call(lab, getattr(life, "set_" + k), val, b=d["b"], discrete=d["disc"], **kw)
    if k == "A":
        return call(lab, life.set_A, val, u=d["u"], b=d["b"], moment=d["mo"], endowment=d["end"], discrete=d["disc"], **kw)
    return call(lab, life.set_a, val, u=d["u"], b=d["b"], variance=d["var"], discrete=d["disc"], **kw)


def ask(life, d):
    k = d["k"]
    x, s, t = d["x"], d["s"], d["t"]
    kt = {} if t == WHOLE else {"t": t}
    if k == "p":
        return life.p_x(x, s=s, t=t)
    if k == "q":
        return life.q_x(x, s=s, t=t, u=d["u"])
    if k == "e":
        return life.e_x(x, s=s, curtate=d["curtate"], moment=d["mo"], **kt)
    if k == "E":
        return life.E_x(x, s=s, t=t, endowment=d["end"], moment=d["mo"])
    if k == "IA":
        return life.increasing_insurance(x, s=s, b=d["b"], discrete=d["disc"], **kt)
    if k == "DA":
        return life.decreasing_insurance(x, s=s, t=t, b=d["b"], discrete=d["disc"])
    if k == "A":
        kw = dict(s=s, b=d["b"], moment=d["mo"], discrete=d["disc"])
        if d["u"]:
            return life.deferred_insurance(x, u=d["u"], **kt, **kw)
        if t == WHOLE:
            return life.whole_life_insurance(x, **kw)
        if d["end"]:
            return life.endowment_insurance(x, t=t, **({} if d["end"] < 0 else {"endowment": d["end"]}), **kw)
        return life.term_insurance(x, t=t, **kw)
    kw = dict(s=s, b=d["b"], discrete=d["disc"])
    if k == "a":
        if d["u"]:
            return life.deferred_annuity(x, u=d["u"], **kt, **kw)
        if t == WHOLE:
            return life.whole_life_annuity(x, variance=d["var"], **kw)
        return life.temporary_annuity(x, t=t, variance=d["var"], **kw)
    if k == "imm":
        return life.immediate_annuity(x, s=s, b=d["b"], **kt)
    return life.certain_life_annuity(x, u=d["u"], **kw)


def answer(life, d):
    """the solver's number, or None when it reports the quantity as undetermined"""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            got = ask(life, d)
    except (Violation, CpuTimeout):
        raise
    except Exception as e:
        return None
    return None if got is None else tofloat("answer to " + show(d), got)


def size(c, d):
    v = 1 / (1 + c["i"])
    B = max(abs(d.get("b", 1)), abs(d.get("end", 0)), 1) * (1 / (1 - v) if d["k"] in ("a", "imm", "cert", "e", "IA", "DA") else 1)
    return B ** 2 if d.get("mo", 1) != 1 or d.get("var") else B


def known(facts, d):
    z = lambda o: (o["k"], o["x"] + o["s"], o["t"], o.get("u", 0), o.get("mo", 1), o.get("disc"), o.get("curtate"), o.get("var"), o.get("end", 0) and o.get("end") / o.get("b", 1))
    return z(d) in {z(f) for f in facts}


def check(c):
    R, v = truth_life(c), 1 / (1 + c["i"])
    life = call("Recursion", am.Recursion, depth=c["depth"], verbose=c["verbose"])
    life = call("set_interest", life.set_interest, i=c["i"])
    facts, solved = [], 0
    for d in c["ops"]:
        if d["op"] == "fact":
            if d.get("redo"):
                life = put(life, d, truth(R, v, d) * .9)
                if d["redo"] == "drop":
                    life = put(life, d, None)
            if d.get("redo") != "drop":
                life = put(life, d, truth(R, v, d))
            facts.append(d)
            continue
        got = answer(life, d)
        if got is None:
            continue
        eq(f"depth={c['depth']} facts [{'; '.join(map(show, facts))}]: {show(d)}", got, truth(R, v, d), 2e-6, 2e-7 * size(c, d))
        solved += not known(facts, d)
    return solved > 0


def s_rules(tier):
    from checks import c30
    return c30.strat()


def check_rules(c):
    """a fact chosen so that a stated rule applies, other facts around it: the number is that of the hidden life"""
    R, v = truth_life(c), 1 / (1 + c["i"])
    life = call("Recursion", am.Recursion, depth=c["depth"], verbose=c.get("modes", ["off"])[0] != "off")
    life = call("set_interest", life.set_interest, i=c["i"])
    for d in c["facts"]:
        life = put(life, d, truth(R, v, d))
    d = c["query"]
    got = answer(life, d)
    if got is not None:
        eq(f"depth={c['depth']} facts [{'; '.join(map(show, c['facts']))}]: {show(d)}", got, truth(R, v, d), 2e-6, 2e-7 * size(c, d))
    return got is not None and c["nf"] > 1


SUBS = [Sub("facts", lambda tier: strat(), check, 3000, what="random facts in random order, interleaved queries, answers vs the hidden life"),
        Sub("rules", lambda tier: s_rules(tier), check_rules, 1500, what="facts for one application of a rule, answers vs the hidden life")]


# ------------------------------------------------------------------ premiums, values and reserves worked from the facts


PRODS = ["P", "P", "Pr", "Pa", "V", "V", "Vvar", "G", "G", "Gvar", "FPT", "FPTV", "res"]


@st.composite
def s_contracts(draw, tier="quick"):
    c = draw(s_life())
    a = draw(st.integers(0, 2))
    s = draw(st.integers(0, a))
    n = draw(st.integers(1, 4) | st.just(WHOLE))
    p = draw(st.sampled_from(PRODS))
    if p in ("Pr", "res") and n == WHOLE or p == "FPT" and n == 1:
        n = 2
    t = draw(st.integers(0, 3 if n == WHOLE else n))
    k = draw(contract(endow=n != WHOLE))
    if p == "Gvar" and n != WHOLE:
        k["endowment"] = pol.claims(k)
    b = draw(amt)
    end = 0 if n == WHOLE or p in ("FPT", "Pa") else draw(st.sampled_from([0, b, b]) | amt)
    if p == "Vvar" and n != WHOLE:
        end = b
    d = {"p": p, "x": c["x0"] + a - s, "s": s, "n": n, "t": t, "u": draw(st.sampled_from([0, 0, 1, 2])) if p in ("P", "Pa") else 0, "b": b, "end": end, "c": k, "first": draw(st.booleans()),
         "cost": draw(st.sampled_from([0, 0, .5])), "disc": draw(st.sampled_from([True, True, True, False])) if p not in ("Pr", "FPT", "FPTV", "res") else True}
    if d["u"] and n == WHOLE and p == "P":
        d["end"] = 0
    if p == "Pa":
        d["u"] = max(1, d["u"])
    # what the definition needs, each given as it is, or as something worth the same, or not at all
    y = c["x0"] + a
    unit = lambda kind, x, t, **kw: dict({"A": {"b": 1, "mo": 1, "u": 0, "end": 0, "disc": d["disc"]}, "a": {"b": 1, "u": 0, "var": False, "disc": d["disc"]},
                                          "E": {"mo": 1, "end": 1}, "IA": {"b": 1, "disc": d["disc"]}, "q": {"u": 0}, "p": {}}[kind], k=kind, x=x, s=0, t=t, op="fact", **kw)
    need = []
    for z, m in {(y, n), (y + t, n if n == WHOLE else n - t), (y + 1, n if n == WHOLE else n - 1), (y + d["u"], n)}:
        if m == 0:
            continue
        need += [unit("A", z, m), unit("a", z, m)]
        if m != WHOLE:
            need += [dict(unit("A", z, m), end=1), unit("E", z, m)] + ([unit("IA", z, m)] if p == "Pr" else [])
        if p in ("Vvar", "Gvar"):
            need.append(dict(unit("A", z, m), mo=2, end=0 if m == WHOLE else 1))
    if d["u"]:
        need += [dict(unit("A", y, n), u=d["u"]), dict(unit("a", y, n), u=d["u"]), unit("E", y, d["u"]), unit("a", y, d["u"])] + ([unit("E", y, n + d["u"])] if n != WHOLE else [])
    for j in range(draw(st.sampled_from([0, 3, 6]))):
        need.append(unit(draw(st.sampled_from(["p", "q", "q"])), c["x0"] + j, 1))
    facts = []
    keep = draw(st.sampled_from([10, 10, 9, 7]))
    for f in draw(st.permutations(need)):
        if draw(st.integers(1, 10)) <= keep:
            f = dict(f)
            if "b" in f and draw(st.integers(0, 3)) == 0:
                f["b"] = draw(amt)
                f["end"] = f["b"] if f.get("end") else 0
                if f["k"] != "A":
                    f.pop("end")
            facts.append(f)
    return dict(c, facts=facts, d=d, full=keep == 10, depth=draw(st.sampled_from([3, 3, 4, 2])))


def worth(c, R, v, d):
    """value of the contract for the hidden life, from the definitions"""
    p, y, n, t, u, b, end, k, disc = d["p"], d["x"] + d["s"], None if d["n"] == WHOLE else d["n"], d["t"], d["u"], d["b"], d["end"], d["c"], d["disc"]
    A = lambda z, m, **kw: ref.ins(R, v, z, 0, t=m, discrete=disc, **kw)
    a = lambda z, m, **kw: ref.ann(R, v, z, 0, t=m, discrete=disc, **kw)
    left = lambda j: None if n is None else n - j
    if p in ("P", "Pr"):
        pay = u or n
        x = A(y, n, u=u, b=lambda z: b, end=end) + d["cost"]
        return x / (a(y, pay) - (A(y, pay, b=lambda z: z) if p == "Pr" else 0.))
    if p == "Pa":
        return a(y, n, u=u, b=lambda z: b) / a(y, u)
    if p == "FPT":
        return b * A(y, 1) if d["first"] else b * A(y + 1, left(1)) / a(y + 1, left(1))
    if p in ("V", "FPTV"):
        w, m, j = (y, n, t) if p == "V" else (y + 1, left(1), t - 1)
        if j < 0 or p == "FPTV" and j == 0:
            return 0.
        P = A(w, m, b=lambda z: b, end=end) / a(w, m)
        r = None if m is None else m - j
        return A(w + j, r, b=lambda z: b, end=end) - P * a(w + j, r) if r != 0 else float(end)
    dd = 1 - v if disc else -math.log(v)
    if p in ("Vvar", "Gvar"):
        one = lambda z, m, mo=1: (A(z, m, moment=mo, end=0 if m is None else 1) if m != 0 else 1.)
        f = b + b * one(y, n) / a(y, n) / dd if p == "Vvar" else pol.claims(k) + pol.profit(k) / dd
        return f * f * (one(y + t, left(t), 2) - one(y + t, left(t)) ** 2)
    m = left(t)
    if m == 0:
        return float(k["endowment"]) + (0. if t else pol.initial(k))
    return pol.claims(k) * A(y + t, m) + (k["endowment"] * A(y + t, m, b=lambda z: 0., end=1) if n is not None else 0.) + (0. if t else pol.initial(k)) - pol.profit(k) * a(y + t, m)


def work(life, d):
    x, s, n, t, b, disc = d["x"], d["s"], d["n"], d["t"], d["b"], d["disc"]
    kn = {} if n == WHOLE else {"n": n}
    ke = {"endowment": d["end"]} if d["end"] else {}
    ki = {"initial_cost": d["cost"]} if d["cost"] else {}
    con = pol.make(d["c"], discrete=disc)
    kt = {} if n == WHOLE else {"t": n}
    return {"P": lambda: life.net_premium(x, s=s, u=d["u"], b=b, discrete=disc, **kt, **ke, **ki),
            "Pr": lambda: life.net_premium(x, s=s, b=b, discrete=disc, return_premium=True, **kt, **ke, **ki),
            "Pa": lambda: life.net_premium(x, s=s, u=d["u"], b=b, discrete=disc, annuity=True, **kt),
            "V": lambda: life.net_policy_value(x, s=s, t=t, b=b, discrete=disc, **kn, **ke),
            "Vvar": lambda: life.net_policy_variance(x, s=s, t=t, b=b, discrete=disc, **kn, **ke),
            "G": lambda: life.gross_policy_value(x, s=s, t=t, contract=con, **kn),
            "Gvar": lambda: life.gross_policy_variance(x, s=s, t=t, contract=con, **kn),
            "FPT": lambda: life.FPT_premium(x, s=s, b=b, first=d["first"], **kn),
            "FPTV": lambda: life.FPT_policy_value(x, s=s, t=t, b=b, **kn, **ke)}[d["p"]]()


def check_contracts(c):
    R, v, d = truth_life(c), 1 / (1 + c["i"]), c["d"]
    life = call("Recursion", am.Recursion, depth=c["depth"], verbose=False)
    life = call("set_interest", life.set_interest, i=c["i"])
    for f in c["facts"]:
        life = put(life, f, truth(R, v, f))
    lab = f"depth={c['depth']} i={c['i']} facts [{'; '.join(map(show, c['facts']))}]: {d}"
    B = (d["b"] + d["end"] + pol.claims(d["c"]) + d["c"]["endowment"] + 20 * abs(pol.profit(d["c"]))) * (1 + (c["i"] < .03))
    if d["p"] == "res":             # reserves of a policy whose premium is worth its benefits
        y, n, k = d["x"] + d["s"], d["n"], dict(d["c"])
        A, a, E = ref.ins(R, v, y, 0, t=n), ref.ann(R, v, y, 0, t=n), R.S(y, 0, n) * v**n
        den = a * (1 - k["renewal_premium"]) - (k["initial_premium"] - k["renewal_premium"])
        if den < .05:
            return False
        k["premium"] = (A * pol.claims(k) + E * k["endowment"] + k["renewal_policy"] * a + k["initial_policy"] - k["renewal_policy"]) / den
        try:
            life.set_reserves(T=n, endowment=k["endowment"])
            with contextlib.redirect_stdout(io.StringIO()):
                life.fill_reserves(d["x"], s=d["s"], contract=pol.make(k, T=n))
            got = dict(zip(life.reserves_frame().index, life.reserves_frame()["V_t"]))
        except (Violation, CpuTimeout):
            raise
        except Exception:
            return False
        for j, z in got.items():
            w = worth(c, R, v, dict(d, p="G", t=j, c=k)) if j else 0.
            eq(lab + f" premium={k['premium']}: {j}_V", tofloat("reserve", z), w, 1e-5, 2e-6 * (B + 20 * k["premium"]) / R.S(y, 0, n))
        return len(got) == n + 1 and n > 1
    if d["p"] in ("Pr", "P") and d["n"] != WHOLE and ref.ann(R, v, d["x"] + d["s"], 0, t=d["u"] or d["n"]) < .1:
        return False
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            got = work(life, d)
    except (Violation, CpuTimeout):
        raise
    except Exception:
        return False
    if got is None:
        return False
    got, w = tofloat(lab, got), worth(c, R, v, d)
    eq(lab, got, w, 2e-6, 1e-6 * (B * B * 100 if d["p"] in ("Vvar", "Gvar") else B))
    return True


SUBS.append(Sub("contracts", lambda tier: s_contracts(), check_contracts, 2000, what="premiums, policy values, variances, preliminary term and reserves worked from facts, vs the hidden life"))


# ------------------------------------------------------------------ m-thly payments worked from the facts
MPRODS = ["whole", "term", "endow", "deferred", "deferred_t", "a_whole", "a_temp", "a_deferred", "a_deferred_t", "a_imm", "a_var"]


@st.composite
def s_mthly(draw, tier="quick"):
    c = draw(s_life())
    a = draw(st.integers(0, 2))
    s = draw(st.integers(0, a))
    p = draw(st.sampled_from(MPRODS))
    d = {"p": p, "x": c["x0"] + a - s, "s": s, "t": draw(st.integers(1, 4)), "u": draw(st.integers(1, 2)) if "deferred" in p else 0, "m": draw(st.sampled_from([0, 2, 4, 12, 1])), "b": draw(amt),
         "how": draw(st.sampled_from(["udd", "udd", "wh2", "wh3"])), "mu": draw(rnd(.001, .2, 3)), "mu1": draw(rnd(.001, .2, 3))}
    d["end"] = draw(st.sampled_from([0, d["b"]]) | amt) if p == "endow" else 0
    y, u, t = c["x0"] + a, d["u"], d["t"]
    ends = {WHOLE: [0, u], 1: [0, u, u + t]}[1 if p in ("term", "endow", "a_temp", "deferred_t", "a_deferred_t") else WHOLE]
    need = []
    for z in set(ends):
        need += [{"k": "A", "x": y + z, "s": 0, "t": WHOLE, "b": 1, "mo": 1, "u": 0, "end": 0, "disc": True}, {"k": "a", "x": y + z, "s": 0, "t": WHOLE, "b": 1, "u": 0, "var": False, "disc": True}]
        if z:
            need += [{"k": "E", "x": y, "s": 0, "t": z, "mo": 1, "end": 1}, {"k": "A", "x": y, "s": 0, "t": z, "b": 1, "mo": 1, "u": 0, "end": 0, "disc": True},
                     {"k": "a", "x": y, "s": 0, "t": z, "b": 1, "u": 0, "var": False, "disc": True}]
        if z and z != u + t:
            need += [{"k": "E", "x": y + z, "s": 0, "t": t, "mo": 1, "end": 1}]
    if u:
        T = t if p[-2:] == "_t" else WHOLE
        need += [{"k": "A", "x": y, "s": 0, "t": T, "b": 1, "mo": 1, "u": u, "end": 0, "disc": True}, {"k": "a", "x": y, "s": 0, "t": T, "b": 1, "u": u, "var": False, "disc": True}]
        if T != WHOLE:
            need += [dict(need[-2], x=y + u, u=0), dict(need[-1], x=y + u, u=0)]
    if p == "a_var":
        need.append({"k": "A", "x": y, "s": 0, "t": WHOLE, "b": 1, "mo": 2, "u": 0, "end": 0, "disc": True})
    for j in range(draw(st.sampled_from([0, 3, 6]))):
        need.append({"k": "q", "u": 0, "x": c["x0"] + j, "s": 0, "t": 1})
    facts, keep = [], draw(st.sampled_from([10, 10, 8, 6]))
    for f in draw(st.permutations(need)):
        if draw(st.integers(1, 10)) <= keep:
            f = dict(f, op="fact")
            if "b" in f and draw(st.integers(0, 3)) == 0:
                f["b"] = draw(amt)
            facts.append(f)
    return dict(c, facts=facts, d=d, depth=draw(st.sampled_from([3, 3, 4, 2])))


def worth_m(c, R, v, d):
    """by the definition of the payments (deaths of the hidden life are uniform within the year), or by Woolhouse's formula"""
    p, y, m, b, u, t = d["p"], d["x"] + d["s"], d["m"], d["b"], d["u"], d["t"]
    T = None if p in ("whole", "deferred", "a_whole", "a_deferred", "a_imm", "a_var") else t
    if d["how"] == "udd":
        if p == "a_var":
            mean, sq = [ref.ins_m(R, v, y, 0, m=m, moment=k) if m else ref.ins(R, v, y, 0, moment=k, discrete=False) for k in (1, 2)]
            dm = m * (1 - v ** (1 / m)) if m else -math.log(v)
            return b * b * (sq - mean * mean) / dm ** 2
        if p[:2] == "a_":
            if p == "a_imm":
                return ref.ann_m(R, v, y, 0, m=m, b=b) - b / m if m else ref.ann(R, v, y, 0, discrete=False, b=lambda z: b)
            return ref.ann_m(R, v, y, 0, t=T, u=u, m=m, b=b) if m else ref.ann(R, v, y, 0, t=T, u=u, discrete=False, b=lambda z: b)
        return (ref.ins_m(R, v, y, 0, t=T, u=u, m=m, b=b) if m else ref.ins(R, v, y, 0, t=T, u=u, discrete=False, b=lambda z: b)) + (d["end"] * R.S(y, 0, t) * v ** t if d["end"] else 0.)
    inv, delta = 1 / m if m else 0., -math.log(v)
    dm = m * (1 - v ** (1 / m)) if m else delta

    def whole(z, mu):
        r = ref.ann(R, v, z, 0) - (1 - inv) / 2
        return r - (1 - inv ** 2) / 12 * (delta + mu) if d["how"] == "wh3" else r
    E = lambda k: v ** k * R.S(y, 0, k)
    f = (lambda z, mu: whole(z, mu)) if p[:2] == "a_" else (lambda z, mu: 1 - dm * whole(z, mu))
    r = E(u) * f(y + u, d["mu"]) - (E(u + t) * f(y + u + t, d["mu1"]) if T is not None else 0.)
    return b * r + d["end"] * E(t) * (p == "endow") - (b / m if p == "a_imm" and m else 0.)


def work_m(life, d):
    x, s, p, b, u, t = d["x"], d["s"], d["p"], d["b"], d["u"], d["t"]
    if d["how"] == "udd":
        M, k, k2 = am.UDD(m=d["m"], life=life), {}, {}
    else:
        M = am.Woolhouse(m=d["m"], life=life, three_term=d["how"] == "wh3")
        k, k2 = {"mu": d["mu"]}, {"mu": d["mu"], "mu1": d["mu1"]}
    return {"whole": lambda: M.whole_life_insurance(x, s=s, b=b, **k), "term": lambda: M.term_insurance(x, s=s, t=t, b=b, **k2),
            "endow": lambda: M.endowment_insurance(x, s=s, t=t, b=b, endowment=d["end"]), "deferred": lambda: M.deferred_insurance(x, s=s, u=u, b=b, **k),
            "deferred_t": lambda: M.deferred_insurance(x, s=s, u=u, t=t, b=b, **k2), "a_whole": lambda: M.whole_life_annuity(x, s=s, b=b, **k),
            "a_temp": lambda: M.temporary_annuity(x, s=s, t=t, b=b, **k2), "a_deferred": lambda: M.deferred_annuity(x, s=s, u=u, b=b, **k),
            "a_deferred_t": lambda: M.deferred_annuity(x, s=s, u=u, t=t, b=b, **k2), "a_imm": lambda: M.immediate_annuity(x, s=s, b=b),
            "a_var": lambda: M.whole_life_annuity(x, s=s, b=b, variance=True)}[p]()


def check_mthly(c):
    R, v, d = truth_life(c), 1 / (1 + c["i"]), c["d"]
    if d["how"] != "udd" and (d["p"] == "a_var" or d["how"] == "wh3" and d["p"] in ("endow", "a_imm")):
        return False
    life = call("Recursion", am.Recursion, depth=c["depth"], verbose=False)
    life = call("set_interest", life.set_interest, i=c["i"])
    for f in c["facts"]:
        life = put(life, f, truth(R, v, f))
    lab = f"depth={c['depth']} i={c['i']} facts [{'; '.join(map(show, c['facts']))}]: {d}"
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            got = work_m(life, d)
    except (Violation, CpuTimeout):
        raise
    except Exception:
        return False
    if got is None:
        return False
    eq(lab, tofloat(lab, got), worth_m(c, R, v, d), 5e-6, 5e-6 * (d["b"] + d["end"]) ** (2 if d["p"] == "a_var" else 1) / ((1 - v) ** 2 if d["p"] == "a_var" else 1))
    return d["m"] != 1


SUBS.append(Sub("mthly", lambda tier: s_mthly(), check_mthly, 1500, what="m-thly and continuous payments under UDD and Woolhouse worked from facts, vs the hidden life's uniform deaths and the stated formula"))
