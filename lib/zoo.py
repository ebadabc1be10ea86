"""Strategies for mortality models (JSON-able specs) and builders producing the
library object and the independent reference model for the same spec."""
import math
from hypothesis import strategies as st
from . import ref
from .harness import call, fail


def rnd(lo, hi, nd=4):
    """floats with few digits: readable, shrink to the low end"""
    n = int(round((hi - lo) * 10**nd))
    return st.integers(0, n).map(lambda k: round(lo + k / 10**nd, nd))


rate = rnd(0.005, 0.15, 3)          # positive effective interest
rate0 = st.sampled_from([0., None, None, None, None]).flatmap(lambda z: st.just(z) if z is not None else rate)     # or none at all
BIG = rnd


@st.composite
def law(draw, kinds=("makeham", "gompertz", "cf", "weibull", "beta", "uniform", "pow")):
    k = draw(st.sampled_from(kinds))
    if k == "makeham":
        return {"law": k, "A": draw(rnd(0, 0.01, 4)), "B": draw(rnd(0.00001, 0.0005, 5)),
                "c": draw(rnd(1.06, 1.14, 3))}
    if k == "gompertz":
        return {"law": k, "B": draw(rnd(0.00001, 0.0005, 5)), "c": draw(rnd(1.06, 1.14, 3))}
    if k == "cf":
        return {"law": k, "mu": draw(rnd(0.005, 0.2, 3))}
    if k == "weibull":
        return {"law": k, "k": draw(rnd(0.0001, 0.002, 4)), "n": draw(rnd(0.5, 2, 1))}
    if k == "uniform":
        return {"law": "beta", "omega": draw(st.integers(60, 130)), "alpha": 1}
    if k == "beta":
        return {"law": k, "omega": draw(st.integers(60, 130)), "alpha": draw(rnd(0.4, 3, 1))}
    return {"law": "pow", "omega": draw(st.integers(60, 130)), "p": draw(st.integers(1, 3))}


@st.composite
def table(draw, minlen=3, maxlen=18, maxq=0.5, minq=0.001, terminal=True, x0max=90):
    n = draw(st.integers(minlen, maxlen))
    x0 = draw(st.integers(0, x0max))
    q = [draw(rnd(minq, maxq, 3)) for _ in range(n - 1)]
    if maxq >= 0.3 and draw(st.integers(0, 5)) == 3:      # a year without deaths, or nearly without survivors
        q[draw(st.integers(0, n - 2))] = draw(st.sampled_from([0., 0., 0.93, 0.97]))
    q.append(1.0 if terminal else draw(rnd(minq, maxq, 3)))
    return {"x0": x0, "q": q, "udd": draw(st.booleans())}


def qdict(t):
    return {t["x0"] + k: q for k, q in enumerate(t["q"])}


def ldict(t, radix=100000.):
    out, l = {}, float(radix)
    for k, q in enumerate(t["q"]):
        out[t["x0"] + k] = l
        l *= 1 - q
    out[t["x0"] + len(t["q"])] = l
    return out


@st.composite
def select(draw, minrows=3, maxrows=10, maxn=3, terminal=False):
    n = draw(st.integers(1, maxn))
    rows = draw(st.integers(max(minrows, n + 2), maxrows))
    x0 = draw(st.integers(20, 80))
    tab = [[draw(rnd(0.002, 0.35, 3)) for _ in range(n + 1)] for _ in range(rows)]
    if draw(st.integers(0, 7)) == 3:
        tab[draw(st.integers(0, rows - 2))][draw(st.integers(0, n))] = draw(st.sampled_from([0., 0., 0.93]))
    if terminal:
        tab[-1][-1] = 1.0
    return {"x0": x0, "rows": tab, "udd": draw(st.booleans())}


def seldict(t):
    return {t["x0"] + k: list(r) for k, r in enumerate(t["rows"])}


# --------------------------------------------------------- survival functions of a law
def law_funs(lw):
    """S(x,s,t), f, l(x,s), mu(x,s) as a user would code them (scalar, math functions)"""
    R = ref.LawRef(lw)
    S, f, mu = R.S, R.f, R.mu

    def l(x, s):
        k = R._S(0., x)
        return 1000. * k * R.S(x, 0, s) if k else 0.
    return R, S, f, l, mu


@st.composite
def sel(draw):
    """extra force of mortality g exp(-h s) at s years since selection"""
    return {"g": draw(rnd(0.002, 0.06, 3)), "h": draw(st.sampled_from([0.1, 0.3, 1.0]))}


def interest_kw(spec):
    return {spec.get("iform", "i"): spec["i"]}


@st.composite
def life(draw, kinds=("table", "law", "base"), maxlen=16, laws=None, age=None):
    """A life and an admissible starting point ([x]+s) in it."""
    kind = draw(st.sampled_from(kinds))
    if kind == "table":
        t = draw(table(maxlen=maxlen))
        n = len(t["q"])
        k = draw(st.integers(0, n - 2))
        s = draw(st.integers(0, min(k, 3)))
        return {"kind": kind, "t": t, "x": t["x0"] + k - s, "s": s, "left": n - k}
    if kind == "ltab":
        t = draw(table(maxlen=maxlen))
        n = len(t["q"])
        k = draw(st.integers(0, n - 2))
        s = draw(st.integers(0, min(k, 3)))
        return {"kind": kind, "t": t, "x": t["x0"] + k - s, "s": s, "left": n - k, "how": draw(st.sampled_from(["l", "S"]))}
    if kind == "select":
        t = draw(select(maxrows=maxlen))
        n, rows = len(t["rows"][0]) - 1, len(t["rows"])
        k = draw(st.integers(0, rows - n - 1))
        s = draw(st.integers(0, n + 1)) if k < rows - n - 1 else draw(st.integers(0, n))
        # table runs out at age x0+rows-1+n; library's stated maximum age is the last row
        return {"kind": kind, "t": t, "x": t["x0"] + k, "s": s, "left": rows - 1 - k - s}
    if kind == "sult":
        d = {"minage": draw(st.sampled_from([20, 20, 20, 0, 35])), "maxage": draw(st.sampled_from([130, 130, 120]))}
        x = draw(st.integers(d["minage"], 100))
        s = draw(st.integers(0, 5))
        return {"kind": kind, "sult": d, "udd": draw(st.booleans()), "x": x, "s": s, "left": d["maxage"] - x - s}
    lw = draw(law(laws) if laws else
              (law() if kind == "base" else law(("makeham", "gompertz", "cf", "beta", "uniform"))))
    s = draw(st.integers(0, 4))
    top = lw.get("omega")
    x = draw(st.integers(20, 85)) if top is None else draw(st.integers(5, top - s - 3))
    out = {"kind": kind, "law": lw, "x": x, "s": s,
           "left": (top - x - s) if top else None}
    if kind == "base":
        if draw(st.booleans()):
            lw["sel"] = draw(sel())
        out["form"] = draw(st.sampled_from(["S", "mu", "l", "f"]))
        out["udd"] = draw(st.booleans())
    return out


def build(spec, i=None, cls=None, form=None):
    """-> (library object, Ref)"""
    import actuarialmath as am
    kind = spec["kind"]
    if kind == "table":
        t = spec["t"]
        R = ref.TableRef(qdict(t), t["udd"])
        obj = call("LifeTable().set_table(q)", lambda: am.LifeTable(udd=t["udd"]).set_table(q=qdict(t)))
    elif kind == "ltab":
        t = spec["t"]
        R = ref.TableRef(qdict(t), t["udd"])
        l = ldict(t, 1000.)
        c = cls or am.Reserves
        if spec.get("how", "l") == "l":
            kw = {"l": lambda x, s: l.get(x + s, 0.)}
        else:
            kw = {"S": lambda x, s, t: (l.get(x + s + t, 0.) / l[x + s]) if l.get(x + s, 0.) else 0.}
        obj = call("set_survival(l from a table)",
                   lambda: c(udd=t["udd"]).set_survival(minage=t["x0"], maxage=t["x0"] + len(t["q"]), **kw))
    elif kind == "sult":
        d = spec["sult"]
        base = ref.LawRef({"law": "makeham", "A": 0.00022, "B": 0.0000027, "c": 1.124})
        R = ref.TableRef({a: 1 - base.S(a, 0, 1) for a in range(d["minage"], d["maxage"])}, spec["udd"])
        obj = call("SULT()", lambda: am.SULT(minage=d["minage"], maxage=d["maxage"], udd=spec["udd"]))
    elif kind == "select":
        t = spec["t"]
        R = ref.SelectRef(seldict(t), t["udd"])
        obj = call("SelectLife().set_table(q)", lambda: am.SelectLife(udd=t["udd"]).set_table(q=seldict(t)))
    elif kind == "law":
        lw = spec["law"]
        R = ref.LawRef(lw)
        k = lw["law"]
        if k == "makeham":
            mk = lambda: am.Makeham(A=lw["A"], B=lw["B"], c=lw["c"])
        elif k == "gompertz":
            mk = lambda: am.Gompertz(B=lw["B"], c=lw["c"])
        elif k == "cf":
            mk = lambda: am.ConstantForce(mu=lw["mu"])
        elif k == "beta" and lw["alpha"] == 1 and not spec.get("asbeta"):
            mk = lambda: am.Uniform(lw["omega"])
        elif k == "beta":
            mk = lambda: am.Beta(omega=lw["omega"], alpha=lw["alpha"])
        else:
            raise ValueError(k)
        obj = call(f"construct {k}", mk)
    elif kind == "base":
        lw = spec["law"]
        R, S, f, l, mu = law_funs(lw)
        form = form or spec["form"]
        kw = {k: {"S": S, "mu": mu, "l": l, "f": f}[k] for k in form.split("+")}
        maxage = lw["omega"] if R.omega is not None else spec.get("maxage", 200)
        c = cls or am.Reserves
        obj = call(f"set_survival({form})",
                   lambda: c(udd=spec.get("udd", True)).set_survival(maxage=maxage, **kw))
    else:
        raise ValueError(kind)
    if i is not None:
        call("set_interest", obj.set_interest, i=i)
    return obj, R


def past(draw, L):
    """years to add to the longest deferral: now and then it runs past the last age of the model"""
    if L["left"] is None or L["kind"] not in ("table", "ltab", "law", "sult", "select") or draw(st.integers(0, 7)):
        return 0
    return draw(st.integers(1, 4))
