"""C30 textbook recursions are derivable and answers are repeatable."""
import math, io, contextlib
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, rate
from lib import ref
import actuarialmath as am
from checks import c29
from checks.c29 import WHOLE, amt, s_life, truth, truth_life, put, ask, show, size, quantity

RULE = ("rules: cases draw a stated rule (complement, deferral, chain, decomposition, twin, forward or backward recursion), an age, terms, amounts and a moment, supply exactly the "
        "facts the rule needs (plus unrelated facts) in random order and amounts, and ask for the value it implies, printing steps in every display mode or not; histories: cases draw "
        "facts and a sequence of queries asked repeatedly, in different orders, with and without printing; non-trivial = (rules) the rule combines two or more facts, (histories) a query "
        "was answered with a number")
ASSUMPTIONS = ["positive interest, probabilities strictly between 0 and 1", "facts are mutually consistent"]


def P(x, t=1):
    return {"k": "p", "x": x, "t": t}


def Q(x, t=1, u=0):
    return {"k": "q", "x": x, "t": t, "u": u}


def e(x, t=WHOLE, **k):
    return dict({"k": "e", "x": x, "t": t, "mo": 1}, **k)


def E(x, t=1, mo=1):
    return {"k": "E", "x": x, "t": t, "mo": mo}


def IA(x, t=WHOLE, disc=True):
    return {"k": "IA", "x": x, "t": t, "disc": disc}


def DA(x, t, disc=True):
    return {"k": "DA", "x": x, "t": t, "disc": disc}


def A(x, t=WHOLE, u=0, mo=1, rel=0, disc=True):
    """rel: endowment as a multiple of the benefit"""
    return {"k": "A", "x": x, "t": t, "u": u, "mo": mo, "rel": rel, "disc": disc}


def a(x, t=WHOLE, u=0, disc=True, var=False):
    return {"k": "a", "x": x, "t": t, "u": u, "disc": disc, "var": var}


def plus(t, n):
    return WHOLE if t == WHOLE else t + n


def rules(x, t, u, T, mo, disc, rel, cur):
    """name -> (facts, query); t >= 1 term, T term or whole life, u >= 1 deferral, T > 1"""
    S = T if T == WHOLE else max(T, 2)
    R2 = rel if S != WHOLE else 0
    out = {
        "q=1-p": ([P(x, t)], Q(x, t)), "p=1-q": ([Q(x, t)], P(x, t)),
        "u|q=up q": ([P(x, u), Q(x + u, t)], Q(x, t, u)), "u|q=q-q": ([Q(x, u), Q(x, u + t)], Q(x, t, u)), "u|q=p-p": ([P(x, u), P(x, u + t)], Q(x, t, u)),
        "chain": ([P(x), P(x + 1, t)], P(x, t + 1)), "chain end": ([P(x, t), P(x + t)], P(x, t + 1)),
        "inverse chain": ([P(x - 1, t + 1), P(x - 1)], P(x, t)), "inverse chain end": ([P(x, t + 1), P(x + t)], P(x, t)),
        "p=E/v": ([E(x)], P(x)), "p from a": ([a(x, S), a(x + 1, plus(S, -1))], P(x)),
        "p from A": ([A(x, S, rel=int(R2 == 1)), A(x + 1, plus(S, -1), rel=int(R2 == 1))], P(x)),
        "e:1=p": ([P(x)], e(x, 1, curtate=True)),
        "temporary e": ([e(x, curtate=cur), e(x + t + 1, curtate=cur), P(x, t + 1)], e(x, t + 1, curtate=cur)),
        "e forward": ([e(x - 1, plus(T, 1), curtate=cur), e(x - 1, 1, curtate=cur), P(x - 1, 1)], e(x, T, curtate=cur)),
        "e forward u": ([e(x - u, plus(S, u), curtate=cur), e(x - u, u, curtate=cur), P(x - u, u)], e(x, S, curtate=cur)),
        "e backward": ([e(x, u, curtate=cur), e(x + u, T, curtate=cur), P(x, u)], e(x, plus(T, u), curtate=cur)),
        "E=vp": ([P(x, t)], E(x, t, mo)), "2E": ([E(x, t)], E(x, t, 2)), "Var E": ([P(x, t)], E(x, t, -2)),
        "E=A-A": ([A(x, t, rel=1, mo=mo), A(x, t, mo=mo)], E(x, t, mo)), "E chain": ([E(x, 1, mo), E(x + 1, t, mo)], E(x, t + 1, mo)),
        "IA=A-DA": ([A(x, t, disc=disc), DA(x, t, disc)], IA(x, t, disc)), "DA=A-IA": ([A(x, t, disc=disc), IA(x, t, disc)], DA(x, t, disc)),
        "IA backward": ([A(x, S), P(x), IA(x + 1, plus(S, -1))], IA(x, S)), "DA backward": ([P(x), DA(x + 1, t)], DA(x, t + 1)),
        "defer A": ([A(x + 1, T, u - 1, mo, rel, disc), E(x, 1, mo)], A(x, T, u, mo, rel, disc)),
        "defer A forward": ([A(x - 1, T, u + 1, mo, 0, disc), E(x - 1, 1, mo)], A(x, T, u, mo, 0, disc)),
        "defer A=E A": ([E(x, u, mo), A(x + u, T, 0, mo, 0, disc)], A(x, T, u, mo, 0, disc)),
        "term=whole-E whole": ([A(x, disc=disc, mo=mo), E(x, t + 1, mo), A(x + t + 1, disc=disc, mo=mo)], A(x, t + 1, disc=disc, mo=mo)),
        "endowment=term+E": ([A(x, t, disc=disc, mo=mo), E(x, t, mo)], A(x, t, rel=rel or 1, disc=disc, mo=mo)),
        "term=endowment-E": ([A(x, t, disc=disc, mo=mo, rel=1), E(x, t, mo)], A(x, t, disc=disc, mo=mo)),
        "1-year endowment": ([], A(x, 1, rel=1, mo=mo)), "1-year A": ([P(x)], A(x, 1, rel=rel, mo=mo)), "1-year A q": ([Q(x)], A(x, 1, rel=rel, mo=mo)),
        "A backward": ([P(x), A(x + 1, plus(S, -1), rel=R2, mo=mo)], A(x, S, rel=R2, mo=mo)),
        "A forward": ([P(x - 1), A(x - 1, plus(T, 1), rel=0 if T == WHOLE else rel, mo=mo)], A(x, T, rel=0 if T == WHOLE else rel, mo=mo)),
        "A twin": ([a(x, disc=disc)], A(x, disc=disc)), "endowment twin": ([a(x, t + 1, disc=disc)], A(x, t + 1, rel=1, disc=disc)),
        "Var A": ([A(x, disc=disc), A(x, disc=disc, mo=2)], A(x, disc=disc, mo=-2)),
        "a:1": ([], a(x, 1)), "defer a": ([a(x + 1, T, u - 1, disc), E(x)], a(x, T, u, disc)), "defer a forward": ([a(x - 1, T, u + 1, disc), E(x - 1)], a(x, T, u, disc)),
        "defer a=E a": ([E(x, u), a(x + u, T, disc=disc)], a(x, T, u, disc)), "defer a=a-a": ([a(x, plus(T, u), disc=disc), a(x, u, disc=disc)], a(x, T, u, disc)),
        "a backward": ([E(x), a(x + 1, plus(S, -1))], a(x, S)), "a backward p": ([P(x), a(x + 1, plus(S, -1))], a(x, S)),
        "a forward": ([E(x - 1), a(x - 1, plus(T, 1))], a(x, T)), "a forward p": ([P(x - 1), a(x - 1, plus(T, 1))], a(x, T)),
        "a twin": ([A(x, disc=disc)], a(x, disc=disc)), "a:t twin": ([A(x, t, rel=1, disc=disc)], a(x, t, disc=disc)),
        "temporary a": ([a(x, disc=disc), E(x, t + 1), a(x + t + 1, disc=disc)], a(x, t + 1, disc=disc)),
        "Var a": ([A(x, disc=disc), A(x, mo=2, disc=disc)], a(x, disc=disc, var=True)),
        "Var a:t": ([A(x, t, rel=1, disc=disc), A(x, t, rel=1, mo=2, disc=disc)], a(x, t, disc=disc, var=True)),
        "immediate a": ([a(x, T)] + ([] if T == WHOLE else [E(x, T)]), {"k": "imm", "x": x, "t": T, "disc": True, "u": 0}),
        "p:0": ([], P(x, 0)), "q:0": ([], Q(x, 0)), "u|q:0": ([], Q(x, 0, u)), "E:0": ([], E(x, 0, mo)), "a:0": ([], a(x, 0, disc=disc)), "A:0": ([], A(x, 0, rel=rel, disc=disc, mo=mo)),
        "u|q whole": ([P(x, u)], Q(x, WHOLE, u)), "IA:0": ([], IA(x, 0, disc)),
    }
    return out


NAMES = sorted(rules(5, 2, 1, 3, 1, True, 1, True))
MODES = ["off", "text", "latex", "notebook text", "notebook latex"]


@st.composite
def strat(draw, tier="quick"):
    c = draw(s_life())
    name = draw(st.sampled_from(NAMES))
    x = c["x0"] + draw(st.integers(7, 10))
    t, u, T = draw(st.integers(1, 5)), draw(st.integers(1, 4)), draw(st.sampled_from([WHOLE, 1, 2, 3]))
    if name in ("p from a", "p from A"):
        T = draw(st.sampled_from([WHOLE, 2, 3, 4]))
    mo, disc, cur = draw(st.sampled_from([1, 1, 2])), draw(st.sampled_from([True, True, False])), draw(st.booleans())
    if name in ("e:1=p",):
        cur = True
    if name in ("e forward u", "e backward") and draw(st.booleans()):
        u = draw(st.integers(1, 48))        # several decades
        x, c["tail"] = x + max(0, u - 4), draw(rnd(.002, .03, 3))
    rel = draw(st.sampled_from([0, 1, 2]))
    if name == "defer A":
        rel = 0
    facts, q = rules(x, t, u, T, mo, disc, rel, cur)[name]
    facts = draw(st.permutations(facts))

    def dress(d, query=False):
        d = dict(d)
        s = draw(st.integers(0, 2))
        d["x"], d["s"] = d["x"] - s, s
        if d["k"] in ("A", "a", "IA", "DA", "imm"):
            d["b"] = draw(amt)
        if d["k"] == "E":
            d["end"] = draw(amt)
        if d["k"] == "A":
            r = d.pop("rel")
            d["end"] = 0 if d["t"] == WHOLE else -1 if r == 1 and draw(st.booleans()) else r * d["b"]
        return d
    more = [draw(quantity(c["x0"] + 40)) for _ in range(draw(st.integers(0, 2)))]
    ops = [dress(f) for f in facts]
    for m in more:
        ops.insert(draw(st.integers(0, len(ops))), m)
    return dict(c, rule=name, nf=len(facts), facts=ops, query=dress(q, True), depth=draw(st.sampled_from([3, 3, 2, 1, 4])),
                modes=[draw(st.sampled_from(MODES)), draw(st.sampled_from(MODES))])


def asked(life, d, mode):
    """the answer (None if undetermined) and what was printed"""
    R = am.Recursion
    out = io.StringIO()
    R.blog_options(latex="latex" in mode, notebook="notebook" in mode)
    try:
        with contextlib.redirect_stdout(out):
            return ask(life, d), out.getvalue()
    finally:
        R.blog_options(latex=False, notebook=False)


def model(c, mode):
    R = am.Recursion
    R.blog_options(latex="latex" in mode, notebook="notebook" in mode)
    try:
        return call("Recursion", R, depth=c["depth"], verbose=mode != "off").set_interest(i=c["i"])
    finally:
        R.blog_options(latex=False, notebook=False)


def check(c):
    R, v = truth_life(c), 1 / (1 + c["i"])
    d = c["query"]
    want = truth(R, v, d)
    lab = f"{c['rule']}: facts [{'; '.join(map(show, c['facts']))}] depth={c['depth']}: {show(d)}"
    first = None
    for mode in c["modes"]:
        life = model(c, mode)
        for f in c["facts"]:
            life = put(life, f, truth(R, v, f))
        got = call(lab + f" printing={mode}", asked, life, d, mode)[0]
        if got is None:
            fail(f"{lab} printing={mode}: not found")
        got = eq(lab, got, want, 2e-6, 2e-7 * size(c, d))
        if first is not None and got != first:
            fail(f"{lab}: {got!r} when printing={mode}, {first!r} when printing={c['modes'][0]}")
        first = got
        again = tofloat(lab, call(lab, asked, life, d, mode)[0])
        if again != got:
            fail(f"{lab}: asked again {again!r}, first {got!r}")
    return c["nf"] > 1


@st.composite
def s_hist(draw, tier="quick"):
    c = draw(c29.strat())
    nq = sum(o["op"] == "query" for o in c["ops"])
    c["order"] = draw(st.lists(st.integers(0, nq - 1), min_size=2, max_size=8))
    c["modes"] = [draw(st.sampled_from(MODES)), draw(st.sampled_from(MODES))]
    c["depth"] = min(c["depth"], 3)
    return c


def check_hist(c):
    """every query answered alone on a fresh model, versus in a sequence on one model"""
    R, v = truth_life(c), 1 / (1 + c["i"])
    facts = [o for o in c["ops"] if o["op"] == "fact"]
    qs = [o for o in c["ops"] if o["op"] == "query"]

    def load(mode):
        life = model(c, mode)
        for f in facts:
            life = put(life, f, truth(R, v, f))
        return life

    def get(life, d, mode):
        try:
            got = asked(life, d, mode)[0]
        except (Violation, CpuTimeout):
            raise
        except Exception as e:
            return type(e).__name__
        return got if got is None else tofloat(show(d), got)
    alone = {k: get(load(c["modes"][0]), qs[k], c["modes"][0]) for k in set(c["order"])}
    life = load(c["modes"][1])
    lab = f"facts [{'; '.join(map(show, facts))}]"
    for n, k in enumerate(c["order"]):
        got = get(life, qs[k], c["modes"][1])
        if isinstance(got, str) and isinstance(alone[k], str):
            continue
        if got != alone[k]:
            fail(f"{lab}: {show(qs[k])} after {[show(qs[j]) for j in c['order'][:n]]} printing={c['modes'][1]}: {got!r}; alone printing={c['modes'][0]}: {alone[k]!r}")
    return any(isinstance(z, float) for z in alone.values())


SUBS = [Sub("rules", lambda tier: strat(), check, 2500, what="one application of each stated rule, all display modes"),
        Sub("histories", lambda tier: s_hist(), check_hist, 600, what="answers alone vs in sequences of queries, printing or not")]


# ------------------------------------------------------------------ contracts whose every factor is given
@st.composite
def s_contracts(draw, tier="quick"):
    return draw(c29.s_contracts().filter(lambda c: c["full"] and c["d"]["p"] != "res"))


def check_contracts(c):
    """premiums and policy values whose insurance, annuity and pure endowment factors are all given are answered"""
    d = c["d"]
    c = dict(c, depth=max(3, c["depth"]))
    if d["p"] in ("Pr", "P") and d["n"] != WHOLE and ref.ann(truth_life(c), 1 / (1 + c["i"]), d["x"] + d["s"], 0, t=d["u"] or d["n"]) < .1:
        return False
    if not c29.check_contracts(c):
        fail(f"depth={c['depth']} i={c['i']} facts [{'; '.join(map(show, c['facts']))}], not answered: {d}")
    return len(c["facts"]) > 3


SUBS.append(Sub("contracts", lambda tier: s_contracts(), check_contracts, 700, what="premiums and policy values whose every factor is given"))
