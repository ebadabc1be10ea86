"""C33 tables and plots show the values the methods return."""
import math, re, io, contextlib
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, life, build, rate, rate0, table, select, qdict, ldict, seldict
from lib import ref, pol
from checks.c12 import beyond
import actuarialmath as am

RULE = ("plots: cases draw a life of any kind, a start [x]+s, a contract or benefit, interest, discrete or continuous, an end time, an annotated time, with or without the survival curve; bar "
        "heights, their times, the curve, the markers and the numbers in the legends are compared with independent present values and survival probabilities and with the methods; frames: "
        "cases draw a life table, select table, standard table or reserves and compare every cell with the method of that name; models and contracts are compared before and after; "
        "non-trivial = more than two bars with an annotated point or a curve, or a frame of more than two rows")
ASSUMPTIONS = ["benefit functions depend on the attained age x+k when s > 0", "constant-force tables: no curve through a year of certain death",
               "recursion solvers are not plotted (they have no survival function)"]


def state(o, x, s):
    """answers of the model before and after drawing"""
    out = []
    for f in (lambda: o.p_x(x, s=s), lambda: o.q_x(x, s=s, t=2), lambda: o.term_insurance(x, s=s, t=2), lambda: o.temporary_annuity(x, s=s, t=2), lambda: o.interest.i, lambda: o._MINAGE,
              lambda: o._MAXAGE, lambda: o.S(x, s, 1), lambda: o.net_premium(x, s=s, t=2)):
        try:
            out.append(f())
        except Exception as e:
            out.append(type(e).__name__)
    return out


@st.composite
def s_plot(draw, tier="quick"):
    L = draw(life(("table", "law", "base", "select", "sult", "ltab")))
    disc = draw(st.sampled_from([True, True, True, False]))
    if L["kind"] == "base":
        L["form"], L["maxage"] = draw(st.sampled_from(["S", "l"])), 130
    if L["kind"] == "select":
        L["t"]["rows"][-1][-1] = 1.
        L["x"], L["s"] = L["t"]["x0"], draw(st.integers(0, 1))
    if L["kind"] == "ltab":
        disc = True
    left = L["left"] if L["left"] is not None else 60
    top = max(2, left if L["kind"] != "select" else len(L["t"]["rows"]) - 1 - L["s"])
    stop = draw(st.integers(1, top)) if L["kind"] in ("law",) or draw(st.booleans()) else 0
    T = draw(st.just(None) | rnd(0, min(top, 40) - .01, 2) | st.integers(0, min(top, 40) - 1))
    c = {"life": L, "disc": disc, "what": draw(st.sampled_from(["Z", "Y", "L"])), "stop": stop, "T": T, "dual": draw(st.booleans()), "i": draw(rate0), "b": draw(st.sampled_from([1, 1000]) | rnd(.5, 9, 1)),
         "g": draw(st.sampled_from([0, 0, .5])), "g2": draw(st.sampled_from([0, .25])), "ownax": draw(st.booleans())}
    if c["what"] == "L":
        c["con"] = draw(st.none() | pol.contract())
        c["term"] = draw(st.sampled_from([None, 3, 10]))
        if c["con"] is None:
            c["disc"] = True
    return c


def numbers(leg):
    """(shown in brackets, value) pairs of legend labels"""
    out = []
    for t in leg.get_texts():
        m = re.search(r"([\d.]+)[\]\)]=(-?[\d.]+)$", t.get_text())
        if not m:
            fail(f"legend label {t.get_text()!r} shows no value")
        out.append((t.get_text(), float(m.group(1)), float(m.group(2))))
    return out


def check_plot(c):
    import matplotlib.pyplot as plt
    L, disc, T, w = c["life"], c["disc"], c["T"], c["what"]
    i = c["i"]
    v = 1 / (1 + i)
    obj, R = build(L, i)
    x, s = L["x"], L["s"]
    Q = R
    if L["kind"] in ("table", "select", "ltab") and not L["t"]["udd"]:
        if not disc or T is not None and T % 1:
            k = 0
            while k < R.end(x, s):
                if R.S(x, s, k + 1) < .01 * R.S(x, s, k) and R.S(x, s, k) > 0:
                    return False
                k += 1
    g = (lambda a, k: c["b"] * (1 + c["g"] * (a + k) + c["g2"] * k)) if s == 0 else (lambda a, k: c["b"] * (1 + c["g"] * (a + k)))
    con = None
    if w == "L":
        kw = {"discrete": disc}
        if c["term"]:
            kw["T"] = c["term"]
        con = pol.make(c["con"], **kw) if c["con"] is not None else None
        cc = c["con"] or {"premium": 1, "benefit": 1, "settlement_policy": 0, "initial_policy": 0, "initial_premium": 0, "renewal_policy": 0, "renewal_premium": 0, "endowment": 0}
        loss = pol.loss(cc, v, c["term"] if c["con"] is not None else None, disc)
        keep = dict(vars(con)) if con is not None else None
    val = {"Z": lambda t: g(x, s + t) * v ** (math.floor(t) + 1 if disc else t), "Y": lambda t: g(x, s + t) * ref.annsum(v, math.floor(t) + 1 if disc else t, disc), "L": lambda t: loss(t)}[w]
    before = state(obj, x, s)
    kw = dict(s=s, stop=c["stop"], T=T, dual=c["dual"])
    if w == "L":
        kw["contract"] = con
    else:
        kw["discrete"] = disc
        kw["benefit"] = g
    if c["ownax"]:
        fig, ax = plt.subplots()
        kw["ax"] = ax
    lab = f"{w}_plot({x},s={s},stop={c['stop']},T={T},discrete={disc},dual={c['dual']})"
    got = call(lab, getattr(obj, f"{w}_plot"), x, **kw)
    fig = plt.gcf()
    ax = fig.axes[0]
    if T is None:
        same(f"{lab} returns", got, None)
    else:
        eq(f"{lab} returns the value at T", got, val(T), 1e-9, 1e-9)
    # bars
    stop = c["stop"] or obj._MAXAGE - (x + s)
    bars = [(p.get_x() + p.get_width() / 2, p.get_height()) for p in ax.patches]
    if disc:
        same(f"{lab} bars at", [round(t, 6) for t, _ in bars], [float(k) for k in range(stop + 1)])
    else:
        between(f"{lab}: first bar", bars[0][0], 0, 0, 1e-6)
        between(f"{lab}: last bar", bars[-1][0], stop, stop + stop / 500, 1e-6)
        if not 990 < len(bars) < 1010:
            fail(f"{lab}: {len(bars)} bars")
    for t, y in bars[::1 if disc else 13]:
        t = round(t) if disc else t
        if not disc and w == "L" and con is not None and con.T > 0 and abs(t - con.T) < 1e-6:
            continue                    # benefits jump at the term
        eq(f"{lab} bar at {t}", y, val(t), 1e-6, 1e-8 * max(1, abs(y)))
    # survival curve
    end = stop
    if c["dual"]:
        bx = fig.axes[1]
        xs, ys = bx.lines[0].get_xdata(), bx.lines[0].get_ydata()
        same(f"{lab}: points of the curve", len(xs), len(bars))
        for (t, _), t2, p in list(zip(bars, xs, ys))[::1 if disc else 17]:
            eq(f"{lab}: curve drawn at", t2, t, 1e-6, 1e-6)
            t = round(t) if disc else t
            if L["kind"] in ("base", "ltab") and L["left"] is not None and t >= L["left"] or beyond(L, x, t + s):
                continue                # the user's own functions end at the limiting age
            if L["kind"] == "select" and R.end(x, s) < t:
                continue
            eq(f"{lab}: survival curve at {t}", p, R.S(x, s, t), 1e-5, 1e-7)
    # the annotated point
    legs = [a.get_legend() for a in fig.axes]
    if T is not None:
        m = ax.lines[-1]
        eq(f"{lab}: marker drawn at", float(m.get_xdata()[0]), T, 1e-12, 1e-12)
        eq(f"{lab}: marker height", float(m.get_ydata()[0]), val(T), 1e-9, 1e-9)
        for text, a, b in numbers(legs[0]):
            if abs(a - T) > .0051 or abs(b - val(T)) > 5.1e-5 + 1e-9 * abs(val(T)):
                fail(f"{lab}: legend {text!r}, the value at {T} is {val(T)}")
        skip = L["kind"] == "ltab" and T % 1 or L["kind"] in ("base", "ltab") and L["left"] is not None and T >= L["left"] or beyond(L, x, T + s)
        if c["dual"] and not skip:
            m = fig.axes[1].lines[-1]
            p = R.S(x, s, T)
            eq(f"{lab}: marker on the curve drawn at", float(m.get_xdata()[0]), T, 1e-12, 1e-12)
            eq(f"{lab}: survival probability marked at {T}", float(m.get_ydata()[0]), p, 1e-5, 1e-7)
            for text, a, b in numbers(legs[1]):
                if abs(a - T) > .0051 or abs(b - p) > 6e-5:
                    fail(f"{lab}: legend {text!r}, the probability of surviving {T} is {p}")
    same(f"{lab}: the model's answers after drawing", state(obj, x, s), before)
    if con is not None:
        same(f"{lab}: the contract after drawing", dict(vars(con)), keep)
    return len(bars) > 2 and (T is not None or c["dual"])


# ---------------------------------------------------------------- frames
@st.composite
def s_frame(draw, tier="quick"):
    k = draw(st.sampled_from(["table", "table", "select", "select", "sult", "res", "res"]))
    c = {"k": k, "i": draw(rate)}
    if k in ("table", "res"):
        c["t"] = draw(table(minlen=4 if k == "res" else 3))
        c["how"] = draw(st.sampled_from(["q", "p", "l"]))
    if k == "select":
        c["t"] = draw(select(terminal=True))
        c["how"] = draw(st.sampled_from(["q", "l"]))
    if k == "sult":
        c["lo"], c["hi"], c["udd"] = draw(st.integers(20, 90)), draw(st.integers(20, 125)), draw(st.booleans())
        c["max"] = draw(st.sampled_from([130, 120]))
    if k == "res":
        c["T"] = draw(st.integers(2, len(c["t"]["q"]) - 1))
        c["con"] = draw(pol.contract())
        c["rb"], c["end"] = draw(st.booleans()), draw(st.booleans())
    return c


def cells(lab, F, fun, rtol=1e-9, atol=1e-9):
    n = 0
    for r in F.index:
        for k in F.columns:
            z = F[k].loc[r]
            if z is None or z != z:
                continue
            w = fun(r, k)
            if w is not None:
                eq(f"{lab}[{k!r}] at {r!r}", float(z), w, rtol, atol)
                n += 1
    return n


def check_frame(c):
    k, i = c["k"], c["i"]
    if k == "sult":
        o = call("SULT", am.SULT, i=i, maxage=c["max"], udd=c["udd"])
        before = state(o, 60, 0)
        lo, hi = min(c["lo"], c["hi"]), max(c["lo"], c["hi"])
        F = call("SULT.frame", o.frame, minage=lo, maxage=hi)
        same("SULT.frame ages", list(F.index), list(range(lo, min(hi, c["max"]) + 1)))
        m = {"l_x": (lambda a: o.l_x(a), 1), "q_x": (lambda a: o.q_x(a), 6), "a_x": (lambda a: o.whole_life_annuity(a), 4), "A_x": (lambda a: o.whole_life_insurance(a), 5),
             "2A_x": (lambda a: o.whole_life_insurance(a, moment=2), 5), "a_x:10": (lambda a: o.temporary_annuity(a, t=10), 4), "A_x:10": (lambda a: o.endowment_insurance(a, t=10), 5),
             "a_x:20": (lambda a: o.temporary_annuity(a, t=20), 4), "A_x:20": (lambda a: o.endowment_insurance(a, t=20), 5), "5_E_x": (lambda a: o.E_x(a, t=5), 5),
             "10_E_x": (lambda a: o.E_x(a, t=10), 5), "20_E_x": (lambda a: o.E_x(a, t=20), 5)}
        same("SULT.frame columns", list(F.columns), list(m))
        v = 1 / (1 + i)
        R = ref.TableRef({a: 1 - ref.LawRef({"law": "makeham", "A": 0.00022, "B": 0.0000027, "c": 1.124}).S(a, 0, 1) for a in range(20, c["max"])}, c["udd"])
        for a in list(F.index)[::7]:
            if a >= c["max"] - 22:
                continue
            for col, (f, d) in m.items():
                text = F[col].loc[a]
                if text != f"{f(a):.{d}f}":
                    fail(f"SULT.frame {col} at {a}: shows {text}, the method returns {f(a)}")
            want = ref.ann(R, v, a, 0, t=10)
            if abs(float(F["a_x:10"].loc[a]) - want) > 6e-5:
                fail(f"SULT.frame a_x:10 at {a}: shows {F['a_x:10'].loc[a]}, expected {want}")
        for col, f in (("q", o.q_x), ("p", o.p_x), ("a", o.whole_life_annuity), ("A", o.whole_life_insurance)):
            D = call(f"SULT[{col}]", lambda: o[col])
            same(f"SULT[{col}] ages", list(D), list(range(20, c["max"])))
            for a in list(D)[::9]:
                eq(f"SULT[{col}] at {a}", D[a], f(a), 1e-12, 1e-12)
        same("answers after making the frame", state(o, 60, 0), before)
        return len(F) > 2
    t = c["t"]
    if k == "select":
        o = am.SelectLife(udd=t["udd"]).set_interest(i=i)
        R = ref.SelectRef(seldict(t), t["udd"])
        n, rows = len(t["rows"][0]) - 1, len(t["rows"])
        if c["how"] == "q":
            call("set_table", o.set_table, q=seldict(t))
        else:
            l = {}
            lu = {t["x0"] + n: 1000.}           # ultimate lives
            for a in range(t["x0"] + n, t["x0"] + rows - 1 + n):
                lu[a + 1] = lu[a] * (1 - t["rows"][a - n - t["x0"]][n])
            for r in range(rows):
                row = [lu[t["x0"] + r + n]]
                for j in range(n - 1, -1, -1):
                    row.insert(0, row[0] / (1 - t["rows"][r][j]))
                l[t["x0"] + r] = row
            call("set_table", o.set_table, l=l)
        before = state(o, t["x0"], 0)
        tot = 0
        for tab, f in (("l", o.l_x), ("q", o.q_x), ("e", o.e_x), ("d", None), ("A", o.whole_life_insurance), ("a", o.whole_life_annuity)):
            F = call(f"frame({tab})", o.frame, tab)
            def want(r, k):
                if f is not None:
                    return float(f(int(r), int(k)))
                nxt = o.l_x(int(r), int(k) + 1)
                return None if nxt is None else float(o.l_x(int(r), int(k)) - nxt)
            tot += cells(f"select frame({tab})", F, want, 1e-7, 1e-6)
            same(f"frame({tab}) sorted ages", list(F.index), sorted(F.index))
            if tab == "q":
                cells("select frame(q) vs the data", F, lambda r, k: t["rows"][r - t["x0"]][k], 1e-7, 1e-7)
                if F.size != rows * (n + 1) or c["how"] == "q" and F.isna().sum().sum():
                    fail(f"select frame(q) has {F.shape} cells")
        same("answers after making the frame", state(o, t["x0"], 0), before)
        return tot > 6
    q, l = qdict(t), ldict(t)
    o = am.LifeTable(udd=t["udd"]).set_interest(i=i)
    call("set_table", o.set_table, **({"q": q} if c["how"] == "q" else {"p": {a: 1 - z for a, z in q.items()}} if c["how"] == "p" else {"l": {a: z for a, z in l.items()}}))
    x0 = t["x0"]
    if k == "table":
        before = state(o, x0, 0)
        F = call("frame", o.frame)
        cells("life table frame vs methods", F, lambda a, k: {"l": o.l_x, "d": o.d_x, "q": o.q_x, "p": o.p_x}[k](int(a)) if a < x0 + len(q) else None, 1e-5, 2e-6)
        cells("life table frame vs the data", F, lambda a, k: None if a >= x0 + len(q) else {"l": l[a], "d": l[a] * q[a], "q": q[a], "p": 1 - q[a]}[k], 1e-5, 2e-6)
        same("frame ages", [a for a in F.index if a < x0 + len(q)], sorted(q))
        same("frame sorted", list(F.index), sorted(F.index))
        for col in "ldqp":
            D = call(f"life['{col}']", lambda: o[col])
            for a in q:
                eq(f"life['{col}'][{a}]", D[a], float(F[col].loc[a]), 1e-12, 1e-12)
        same("answers after making the frame", state(o, x0, 0), before)
        return len(F) > 2
    import matplotlib.pyplot as plt
    T = c["T"]
    con = pol.make(c["con"], T=T)
    keep = dict(vars(con))
    o.set_reserves(T=T, endowment=c["con"]["endowment"] if c["end"] else 0)
    call("fill_reserves", o.fill_reserves, x=x0, contract=con, reserve_benefit=c["rb"])
    before = state(o, x0, 0)
    F = call("reserves_frame", o.reserves_frame)
    same("reserves_frame times", sorted(F.index), list(range(T + 1)))
    same("reserves_frame columns", list(F.columns), ["V_t"])
    tot = cells("reserves_frame", F, lambda t_, k: float(o.t_V(x0, t=t_)))
    fig, ax = plt.subplots()
    call("V_plot", o.V_plot, ax=ax)
    line = ax.lines[0]
    same("V_plot times", [int(z) for z in line.get_xdata()], list(range(T + 1)))
    for z, y in zip(line.get_xdata(), line.get_ydata()):
        eq(f"V_plot at {z}", float(y), float(o.t_V(x0, t=int(z))), 1e-12, 1e-12)
    same("answers after making the frame", state(o, x0, 0), before)
    same("contract after filling reserves", dict(vars(con)), keep)
    return tot > 2


SUBS = [Sub("plots", lambda tier: s_plot(), check_plot, 700, what="bars, survival curves, markers and legends of Z_plot, Y_plot and L_plot"),
        Sub("frames", lambda tier: s_frame(), check_frame, 600, what="life table, select table, standard table and reserves frames, V_plot")]
