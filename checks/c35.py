"""C35 the derivation a recursion prints is true."""
import math, io, re, contextlib
from hypothesis import strategies as st
from lib.harness import *
from lib import ref
from lib.zoo import table, select, qdict, ldict, seldict, rate
import actuarialmath as am
from checks import c29, c30
from checks.c29 import truth, truth_life, put, show

RULE = ("cases draw a hidden life, interest, facts of every kind about it in random order and with random amounts, and queries, as for C29; every line printed for an answered query is "
        "parsed and both sides evaluated on the hidden life, the title is compared with the answer, and quiet models must print nothing; non-trivial = two lines of different rules were printed")
ASSUMPTIONS = ["positive interest, probabilities strictly between 0 and 1", "facts are mutually consistent (taken from one life)", "plain text display; discrete insurances and annuities "
               "(the text does not tell timings apart)", "quantities written without amount are those of a unit amount"]
WHOLE = c29.WHOLE
FN = re.compile(r"\b(IA|DA|A|a|E|e|p|q)_(-?\d+)(?:\(([^()]*)\))?")


def spec(kind, age, args):
    """the quantity a printed term denotes"""
    d = {"k": kind, "x": int(age), "s": 0, "t": {"q": 1, "p": 1, "E": 1}.get(kind, WHOLE), "b": 1, "u": 0, "mo": 1, "end": 1 if kind == "E" else 0, "disc": True, "var": False,
         "curtate": None}
    for a in filter(None, (args or "").split(",")):
        if a in ("curtate", "complete"):
            d["curtate"] = a == "curtate"
        elif a == "var":
            d["var"] = True
        else:
            k, z = a.split("=")
            d[{"t": "t", "defer": "u", "u": "u", "b": "b", "endow": "end", "mom": "mo"}[k]] = WHOLE if z == "WL" else int(z) if re.fullmatch(r"-?\d+", z) else float(z)
    return d


class Line:
    def __init__(self, text):
        self.msg, self.rule = (z.strip() for z in text.rsplit("~", 1))
        self.lhs, self.rhs = self.split()

    def split(self):
        m = FN.match(self.msg)
        if not m:
            fail(f"derivation line does not start with a quantity: {self.msg!r}")
        rest = self.msg[m.end():].strip()
        if not rest.startswith("="):
            fail(f"derivation line is not an equation: {self.msg!r}")
        self.d = spec(*m.groups())
        return m.group(0), rest[1:].strip()


def value(c, R, v, d):
    if d["x"] < c["x0"]:
        return None                 # before the hidden life's first age
    if d["t"] == 0:
        return {"p": 1., "E": d["end"] ** d["mo"] if d["mo"] > 0 else 0., "A": float(d["end"]) ** abs(d["mo"])}.get(d["k"], 0.)
    if d["t"] == WHOLE and d["k"] in ("E", "p"):
        return 0.
    if d["t"] == WHOLE and d["k"] == "A":
        d = dict(d, end=0)
    return c29.truth(R, v, d)


def evaluate(c, R, v, text, d):
    terms = []

    def name(m):
        terms.append(spec(*m.groups()))
        return f"@{len(terms) - 1}@"
    e = FN.sub(name, text)
    e = e.replace("[", "(").replace("]", ")").replace("^", "**")
    e = re.sub(r"(\d) @", r"\1 * @", e)          # "2 A_40" is twice A_40
    e = re.sub(r"@(\d+)@", r"X[\1]", e)
    if not re.fullmatch(r"[\dX\[\]().+*/ \-vdbtenow]*", e):
        fail(f"derivation cannot be read: {text!r}")
    X = [value(c, R, v, z) for z in terms]
    if any(z is None for z in X):
        return None, terms
    try:
        return eval(e, {"__builtins__": {}}, {"X": X, "v": v, "d": 1 - v, "b": d["b"], "endow": d["end"], "t": d["t"]}), terms
    except ZeroDivisionError:
        return None, terms
    except SyntaxError:
        fail(f"derivation is not a formula: {text!r}")


def blocks(out):
    res = []
    for ln in out.splitlines():
        if ln.startswith(" *"):
            res.append((ln.strip(), []))
        elif ln.strip():
            if not res:
                fail(f"line outside a derivation: {ln!r}")
            res[-1][1].append(ln)
    return res


@st.composite
def strat(draw, tier="quick"):
    c = draw(c29.strat())
    for o in c["ops"]:
        if "disc" in o:
            o["disc"] = True
    c["ops"] = [o for o in c["ops"] if o["k"] != "cert"]
    c["verbose"] = draw(st.integers(0, 9)) > 0
    return c


def mag(c, d):
    return c29.size(c, d)


def key(d):
    """what a quantity is of, whatever its amounts"""
    return d["k"], d["x"] + d["s"], d["t"], d.get("u", 0), d.get("mo", 1), d.get("curtate"), d.get("var", False), d["k"] == "A" and d["end"] != 0


def derivations(c, R, v, where, d, out, got):
    """check everything printed for one query; the rules used"""
    rules = set()
    bl = blocks(out)
    for title, lines in bl:
        if not lines:
            fail(f"{where}: derivation without steps: {title!r}")
        L = [Line(ln) for ln in lines]
        for z in L:
            lhs = value(c, R, v, z.d)
            rhs, terms = evaluate(c, R, v, z.rhs, z.d)
            rules.add(z.rule)
            for q in terms:
                if key(q) == key(z.d):
                    fail(f"{where}: the step {z.msg!r} ({z.rule}) derives a quantity from itself")
            if lhs is not None and rhs is not None:
                eq(f"{where}: the step {z.msg!r} ({z.rule})", rhs, lhs, 1e-6, 1e-8 * max(mag(c, q) for q in terms + [z.d]))
    if got is not None and len(bl) == 1 and d["k"] in ("A", "a", "IA", "DA", "e", "E", "q", "p"):
        m = FN.search(bl[0][0])
        if not m:
            fail(f"{where}: no quantity in title {bl[0][0]!r}")
        q = spec(*m.groups())
        if key(q) == key(dict(d, x=d["x"] + d["s"], s=0)):      # (else of a part of what was asked for, derived on its own)
            w = value(c, R, v, q)
            if w is not None:
                eq(f"{where}: titled {bl[0][0]!r}, answered", tofloat("answer", got), w, 2e-6, 2e-7 * mag(c, q))
    return rules


def query(c, life, d, where):
    """the answer and what was printed"""
    buf, got = io.StringIO(), None
    try:
        with contextlib.redirect_stdout(buf):
            got = c29.ask(life, d)
    except (Violation, CpuTimeout):
        raise
    except Exception:
        pass
    if not c["verbose"]:
        same(f"{where}: printed by a model that is not verbose", buf.getvalue(), "")
    return got, buf.getvalue()


def check(c):
    R, v = truth_life(c), 1 / (1 + c["i"])
    life = call("Recursion", am.Recursion, depth=c["depth"], verbose=c["verbose"])
    life = call("set_interest", life.set_interest, i=c["i"])
    facts, rules = [], set()
    for d in c["ops"]:
        if d["op"] == "fact":
            life = put(life, d, truth(R, v, d))
            facts.append(d)
            continue
        where = f"depth={c['depth']} facts [{'; '.join(map(show, facts))}], asked {show(d)}"
        got, out = query(c, life, d, where)
        rules |= derivations(c, R, v, where, d, out, got)
    return len(rules) >= 2


@st.composite
def s_rules(draw, tier="quick"):
    c = draw(c30.strat())
    for o in c["facts"] + [c["query"]]:
        if "disc" in o:
            o["disc"] = True
    c["verbose"] = True
    return c


def check_rules(c):
    R, v, d = truth_life(c), 1 / (1 + c["i"]), c["query"]
    life = call("Recursion", am.Recursion, depth=c["depth"], verbose=True)
    life = call("set_interest", life.set_interest, i=c["i"])
    for f in c["facts"]:
        life = put(life, f, truth(R, v, f))
    where = f"{c['rule']}: facts [{'; '.join(map(show, c['facts']))}] depth={c['depth']}, asked {show(d)}"
    got, out = query(c, life, d, where)
    return len(derivations(c, R, v, where, d, out, got)) > 0


SUBS = [Sub("lines", lambda tier: strat(), check, 3000, what="every printed step evaluated on the hidden life; titles vs answers; nothing derived from itself"),
        Sub("rules", lambda tier: s_rules(), check_rules, 2000, what="the same for every textbook rule in turn")]


# ------------------------------------------------------------------ tables echo the cells they fill
@st.composite
def s_echo(draw, tier="quick"):
    sel = draw(st.booleans())
    c = {"select": sel, "t": draw(select(maxrows=7) if sel else table(maxlen=9)), "form": draw(st.sampled_from(["q", "q", "l", "d"] if not sel else ["q", "q", "l"])), "verbose": draw(st.integers(0, 3)) > 0,
         "i": draw(st.none() | rate), "radix": draw(st.sampled_from([100000, 1000]))}
    return c


def check_echo(c):
    t = c["t"]
    if c["select"]:
        q = seldict(t)
        n = len(t["rows"][0]) - 1
        kw = {"q": q}
        if c["form"] == "l":        # lives of select rows
            base = am.SelectLife(periods=n, udd=t["udd"]).set_table(q=q)
            kw = {"l": {x: [base.l_x(x, s=s) for s in range(n + 1)] for x in q}}
            if any(z is None or not z for r in kw["l"].values() for z in r):
                return False
        mk = lambda v: am.SelectLife(periods=n, udd=t["udd"], verbose=v)
        loaded = {(k, x, s) for k, d in kw.items() for x, r in d.items() for s in range(len(r))}
        pat = re.compile(r"^(\d+) (\w)\(x=(\d+), s=(\d+)\) = (.*)$")
    else:
        l = ldict(t, 1000.)
        kw = {"q": {"q": qdict(t)}, "l": {"l": l}, "d": {"d": {x: l[x] - l[x + 1] for x in qdict(t)}, "l": {t["x0"]: l[t["x0"]]}}}[c["form"]]
        mk = lambda v: am.LifeTable(udd=t["udd"], verbose=v)
        loaded = {(k, x, 0) for k, d in kw.items() for x in d}
        pat = re.compile(r"^(\d+) (\w)\(x=(\d+)()\) = (.*)$")
    outs, tabs = [], []
    for v in (False, c["verbose"]):
        buf = io.StringIO()
        o = mk(v)
        with contextlib.redirect_stdout(buf):
            if c["i"] is not None:
                o = o.set_interest(i=c["i"])
            o = call(f"{type(o).__name__}(verbose={v}).set_table({c['form']})", o.set_table, radix=c["radix"], **kw)
        outs.append(buf.getvalue()), tabs.append(o)
    same("printed by a table that is not verbose", outs[0], "")
    if not c["verbose"]:
        return False

    def cells(o):
        d = {k: o[k] for k in ("lqdeaA" if c["select"] else "lqdp")}
        return {(k, x, s): z for k, col in d.items() for x, r in col.items() for s, z in (r.items() if c["select"] else [(0, r)])}
    quiet, loud = cells(tabs[0]), cells(tabs[1])
    same("cells of a verbose and a quiet table", quiet, loud)
    seen = []
    for j, ln in enumerate(outs[1].splitlines()):
        m = pat.match(ln)
        if not m:
            fail(f"echo {ln!r} is not a cell and its value")
        same("number of the echoed step", int(m.group(1)), j + 1)
        k = (m.group(2), int(m.group(3)), int(m.group(4) or 0))
        if k not in loud:
            fail(f"echoed cell {k} is not in the table")
        eq(f"echoed {ln!r}, in the table", float(m.group(5)), loud[k], 1e-9, 6e-8)
        seen.append(k)
    same("cells echoed twice", sorted(k for k in set(seen) if seen.count(k) > 1), [])
    missing = set(loud) - loaded - set(seen)
    if len(missing) > 1 or any(k[0] != "l" for k in missing):         # (the radix is assumed, not derived)
        fail(f"cells filled without an echo: {sorted(missing)}")
    same("loaded cells echoed as derived", sorted(set(seen) & loaded), [])
    return len(seen) > 3


SUBS.append(Sub("echo", lambda tier: s_echo(), check_echo, 1000, what="cells echoed by verbose tables"))


# ------------------------------------------------------------------ actuarial notation
LSUB = r"_\{\{(?:x\+(\d+)|x)(?::\\overline\{(-?\d+)\|\})?\}\}"
LX = re.compile("|".join([
    r"~(?:_\{\{(?:(?P<qu>\d+)\|)?(?P<qt>\d+)?\}\})?q_\{(?:x\+(?P<qx>\d+)|x)\}",
    r"~(?:_\{(?P<pt>-?\d+)\})?(?P<pE>p|E)_\{(?:x\+(?P<px>\d+)|x)\}",
    r"~(?P<ev>Var\[|E\[)?(?P<ek>\\overset\{\{\\circ\}\}\{\{e\}\}|e)_\{\{(?:x\+(?P<ex>\d+)|x)(?::\\overline\{(?P<et>\d+)\|\})?\}\}(?:\^\{(?P<em>\d+)\})?(?(ev)\])",
    r"~\((?P<ik>IA|DA)\)_\{\{(?:x\+(?P<ix>\d+)|x)(?::\\overline\{(?P<it>\d+)\|\})?\}\}(?:\* (?P<ib>[-\d.e+]+))?",
    r"~(?:_\{(?P<Au>\d+)\|\})?(?:\^(?P<Am>\d+))?A(?P<A1>\^1)?_\{\{(?:x\+(?P<Ax>\d+)|x)(?::\\overline\{(?P<At>\d+)\|\})?\}\}(?:\* (?P<Ab>[-\d.e+]+))?",
    r"~(?P<av>Var\[)?(?:_\{(?P<au>\d+)\|\})?\\ddot\{a\}_\{\{(?:x\+(?P<ax>\d+)|x)(?::\\overline\{(?P<at>\d+)\|\})?\}\}(?:\* (?P<ab>[-\d.e+]+))?(?(av)\])"]))


def whole(t):
    """terms as the notation tells them apart: years, or for life"""
    return WHOLE if t is None or int(t) < 0 else int(t)


def seen(kind, x, t=WHOLE, u=0, mo=1, var=False, curtate=None, b="1", one=None):
    return kind, int(x or 0), t, int(u or 0), int(mo or 1), var, curtate, float(b or 1), one


def from_latex(m):
    g = m.groupdict()
    text = m.group(0)
    if g["ik"]:
        return seen(g["ik"], g["ix"], whole(g["it"]), b=g["ib"])
    if g["ek"]:
        return seen("e", g["ex"], whole(g["et"]), mo=-2 if g["ev"] == "Var[" else g["em"], curtate=g["ek"] == "e")
    if g["pE"]:
        return seen(g["pE"], g["px"], int(g["pt"] or 1) if int(g["pt"] or 1) >= 0 else WHOLE)
    if "ddot" in text:
        return seen("a", g["ax"], whole(g["at"]), g["au"], var=bool(g["av"]), b=g["ab"])
    if re.match(r"~(_\{\{[^}]*\}\})?q_", text):
        return seen("q", g["qx"], int(g["qt"] or 1), g["qu"])
    return seen("A", g["Ax"], whole(g["At"]), g["Au"], g["Am"], b=g["Ab"], one=bool(g["A1"]))


def from_text(m):
    d = spec(*m.groups())
    k, t = d["k"], WHOLE if d["t"] < 0 else d["t"]
    if k == "E":
        return seen("E", d["x"], t)
    if k == "A":
        return seen("A", d["x"], t, d["u"], d["mo"] if d["mo"] > 0 else 1, b=d["b"], one=d["end"] == 0 and t >= 0)
    if k in ("p", "q"):
        return seen(k, d["x"], t, d["u"])
    return seen(k, d["x"], t, d["u"], d["mo"], d["var"], d["curtate"], d["b"])


def plain_steps(out):
    return [(Line(z).rule, [from_text(m) for m in FN.finditer(Line(z).msg)], re.sub(r"\s+", "", FN.sub("#", Line(z).msg))) for _, lines in blocks(out) for z in lines]


def latex_steps(out):
    res = []
    for arr in re.findall(r"\\begin\{array\}\{llll\}\n(.*?)\\end\{array\}", out, re.S):
        lines = arr.split("\\\\\n")
        if not re.match(r"~\\texttt\{[^{}]*\}.*~:=$", lines[0]):
            fail(f"title {lines[0]!r} of a typeset derivation")
        for z in lines[1:]:
            m = re.fullmatch(r"((?:~~)+)(.*)& \\quad \\texttt\{([^{}]*)\}", z)
            if not m:
                fail(f"typeset line {z!r} is not a formula and its rule")
            msg = z[:m.start(3)][:m.end(2)]
            msg = re.sub(r"^(~~)+(?=~|\\|[^~])", "", msg)
            msg = msg if msg.startswith("~") else "~" + msg
            terms = [from_latex(k) for k in LX.finditer(msg)]
            rest = LX.sub("#", msg)
            for a, b in (("\\left(", "("), ("\\right)", ")"), ("~", "")):
                rest = rest.replace(a, b)
            rest = re.sub(r"\^\{(\d+)\}", r"^\1", rest)
            res.append((m.group(3), terms, re.sub(r"\s+", "", rest)))
    left = re.sub(r"\\begin\{array\}\{llll\}\n(.*?)\\end\{array\}", "", out, flags=re.S)
    if left.strip():
        fail(f"printed outside a typeset derivation: {left!r}")
    return res


@st.composite
def s_latex(draw, tier="quick"):
    return draw(s_rules() if draw(st.booleans()) else s_one())


@st.composite
def s_one(draw):
    c = draw(strat())
    ops = c["ops"]
    q = [o for o in ops if o["op"] != "fact"]
    return dict(c, facts=[o for o in ops if o["op"] == "fact"], query=q[-1] if q else None, rule="facts")


def check_latex(c):
    if c["query"] is None:
        return False
    R, v, d = truth_life(c), 1 / (1 + c["i"]), c["query"]
    got, outs = [], []
    where = f"{c['rule']}: facts [{'; '.join(map(show, c['facts']))}] depth={c['depth']}, asked {show(d)}"
    try:
        for latex in (False, True):
            am.Recursion.blog_options(latex=latex)
            life = call("Recursion", am.Recursion, depth=c["depth"], verbose=c["verbose"])
            life = call("set_interest", life.set_interest, i=c["i"])
            for f in c["facts"]:
                life = put(life, f, truth(R, v, f))
            g, o = query(c, life, d, where + f" (latex={latex})")
            got.append(g), outs.append(o)
    finally:
        am.Recursion.blog_options()
    same(f"{where}: answers in text and typeset", *[repr(z) for z in got])
    a, b = plain_steps(outs[0]), latex_steps(outs[1])
    same(f"{where}: derivations shown, in text and typeset", bool(a), bool(b))
    if len(a) != len(b):            # (steps told apart only by amounts are one when typeset)
        return False
    for (r1, t1, m1), (r2, t2, m2) in zip(a, b):
        same(f"{where}: rule of the typeset step", r2, r1)
        same(f"{where}: quantities of the typeset step ({r1})", t2, t1)
        same(f"{where}: the typeset step ({r1})", m2, m1)
    return len(a) > 1


SUBS.append(Sub("latex", lambda tier: s_latex(), check_latex, 1500, what="the same derivation typeset: answers, rules, quantities"))
