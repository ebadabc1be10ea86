"""C21 a life table is completed identically from any sufficient data."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, table, qdict
import actuarialmath as am

RULE = ("cases draw a true table (rates, radix), then loaded cells chosen at random among lives, deaths, mortality and survival rates until a reference closure of "
        "the definitional relations (d = l q, next l = l - d, p + q = 1) determines everything, and a split of those cells into several calls in a random order; "
        "the completed table is compared cell by cell with the true one; non-trivial = at least two kinds of cell are loaded and at least three ages")
ASSUMPTIONS = ["lives large enough that the table's own rounding to 7 decimals is below the tolerance", "loaded cells are consistent with each other"]
COLS = ("l", "d", "q", "p")


def truth(t, radix):
    x0, n = t["x0"], len(t["q"])
    l, out = float(radix), {k: {} for k in COLS}
    for k in range(n):
        q = t["q"][k]
        out["l"][x0 + k], out["q"][x0 + k], out["p"][x0 + k], out["d"][x0 + k] = l, q, 1 - q, l * q
        l *= 1 - q
    out["l"][x0 + n] = l
    return out


def closure(x0, n, cells, T):
    """cells known -> all cells derivable through the relations, by fixed point (uses values only to avoid dividing by zero)"""
    known = set(cells)
    while True:
        new = set()
        for x in range(x0, x0 + n):
            L0, L1, D, Q, P = ("l", x), ("l", x + 1), ("d", x), ("q", x), ("p", x)
            q = T["q"][x]
            has = lambda *c: all(k in known for k in c)
            if has(P): new.add(Q)
            if has(Q): new.add(P)
            if has(L0, L1): new.add(D)
            if has(L0, D): new |= {L1} | ({Q} if T["l"][x] > 0 else set())
            if has(L1, D): new.add(L0)
            if has(L0, Q): new |= {D, L1}
            if has(L1, Q) and q < 1: new |= {L0, D}
            if has(D, Q) and q > 0: new |= {L0, L1}
        if new <= known:
            return known
        known |= new


@st.composite
def s_fill(draw, tier="quick"):
    few = draw(st.integers(0, 5)) == 0              # a table of few lives (radix 1 or 20), or of rates: rounding matters more
    t = draw(table(minlen=2, maxlen=5 if few else 10, maxq=0.28 if few else 0.4, minq=0.02 if few else 0.01, terminal=False, x0max=draw(st.sampled_from([90, 120]))))
    if draw(st.booleans()):
        t["q"][-1] = 1.0
    if draw(st.integers(0, 5)) == 0:
        t["q"][draw(st.integers(0, len(t["q"]) - 1))] = 0.0
    radix = draw(st.sampled_from([1, 20] if few else [100000, 10000, 1000000, 5000.]))
    T, x0, n = truth(t, radix), t["x0"], len(t["q"])
    style = draw(st.sampled_from(["mix", "mix", "l", "q", "p", "ld", "qp", "dq", "back"]))
    allc = [(c, x) for c in COLS for x in range(x0, x0 + n)] + [("l", x0 + n)]
    if style == "mix":
        order = draw(st.permutations(allc))
    elif style == "back":            # lives at one age only, rates everywhere
        a = draw(st.integers(0, n))
        order = [("l", x0 + a)] + [(draw(st.sampled_from("qp")), x0 + k) for k in range(n)]
    else:
        order = [c for c in draw(st.permutations(allc)) if c[0] in style]
    cells, need = [], set(allc)
    for c in order:
        if set(closure(x0, n, cells, T)) >= need:
            break
        if c not in closure(x0, n, cells, T) or draw(st.integers(0, 4)) == 0:
            cells.append(c)
    k = draw(st.integers(1, min(3, len(cells))))
    part = [draw(st.integers(0, k - 1)) for _ in cells]
    return {"t": t, "radix": radix, "cells": [list(c) for c in cells], "part": part, "k": k,
            "explicit": draw(st.booleans()) if k == 1 else False, "fills": [draw(st.booleans()) for _ in range(k - 1)] + [True],
            "dup": draw(st.booleans())}


def load(c, life=None):
    """the calls the case describes"""
    t, T = c["t"], truth(c["t"], c["radix"])
    x0, n = t["x0"], len(t["q"])
    life = life or call("LifeTable()", am.LifeTable, udd=t["udd"])
    for g in range(c["k"]):
        kw = {}
        for (col, x), p in zip(c["cells"], c["part"]):
            if p == g or (c["dup"] and g == c["k"] - 1 and p < g and x % 3 == 0):
                kw.setdefault(col, {})[x] = T[col][x]
        if not kw:
            continue
        if c["explicit"]:
            kw.update(minage=x0, maxage=x0 + n)
        call(f"set_table({kw})", life.set_table, radix=int(c["radix"]), fill=c["fills"][g], **kw)
    call("fill_table", life.fill_table, radix=int(c["radix"]))
    return life


def check_fill(c):
    t, T = c["t"], truth(c["t"], c["radix"])
    x0, n = t["x0"], len(t["q"])
    known = closure(x0, n, [tuple(z) for z in c["cells"]], T)
    lives = any(z[0] == "l" for z in known)
    life = load(c)
    R = c["radix"]
    few = 1e-3 if R < 100 else 1e-6     # 7 decimals of a small number of lives
    if not lives:                       # only rates were given: the radix applies to the first age
        known = closure(x0, n, list(known) + [("l", x0)], T)
    for col in COLS:
        got = call(f"table[{col}]", life.__getitem__, col)
        for x in range(x0, x0 + n + (col == "l")):
            if (col, x) not in known:
                continue
            if x not in got:
                fail(f"{col}[{x}] not filled although determined by the cells loaded: {c['cells']}")
            tol = 1e-7 if col in "qp" else 1e-7 * R
            if col in "qp":
                tol += 2e-7 * R / max(T["l"][x], 1e-9)          # rounded deaths over lives
            tol = few if R < 100 else min(tol * 3, 1e-3 * (R if col in "ld" else 1))
            eq(f"{col}[{x}] from {len(c['cells'])} cells", got[x], T[col][x], 1e-6, tol)
    for (col, x) in c["cells"]:
        same(f"loaded entry {col}[{x}]", life[col][x], T[col][x])
    # consistency of the completed table at every age, and the frame shows it
    tab = {col: life[col] for col in COLS}
    for x in range(x0, x0 + n):
        if all(x in tab[col] for col in COLS):
            eq(f"p+q=1 at {x}", tab["p"][x] + tab["q"][x], 1., 0, 2e-7)
            eq(f"d=lq at {x}", tab["d"][x], tab["l"][x] * tab["q"][x], 1e-6, 3e-7 * max(R, 100))
            if x + 1 in tab["l"]:
                eq(f"l[x+1]=l[x]-d[x] at {x}", tab["l"][x + 1], tab["l"][x] - tab["d"][x], 1e-6, 3e-7 * max(R, 100))
    fr = call("frame", life.frame)
    same("frame columns", sorted(fr.columns), sorted(COLS))
    same("frame is in order of age", list(fr.index), sorted(fr.index))
    for col in COLS:
        for x, v in tab[col].items():
            same(f"frame[{col}][{x}]", float(fr[col][x]), float(v))
    # probabilities read from it
    for k in range(0, n):
        S = 1.
        if ("l", x0 + k) not in known or T["l"][x0 + k] < 1e-3 * R:
            continue
        for j in range(0, n - k + 1):
            want = T["l"][x0 + k + j] / T["l"][x0 + k]
            r = R / T["l"][x0 + k] * few
            eq(f"p_x({x0 + k},t={j})", call("p_x", life.p_x, x0 + k, t=j), want, 1e-6, r)
            if j:
                eq(f"q_x({x0},s={k},t={j})", call("q_x", life.q_x, x0, s=k, t=j), 1 - want if j <= n - k else 1., 1e-6, r)
    return len({z[0] for z in c["cells"]}) > 1 and n >= 3


@st.composite
def s_reload(draw, tier="quick"):
    t = draw(table(minlen=3, maxlen=8, maxq=0.4, minq=0.01))
    x = t["x0"] + draw(st.integers(0, len(t["q"]) - 2))
    return {"t": t, "x": x, "new": draw(rnd(0.01, 0.4, 2)), "how": draw(st.sampled_from("qp")), "radix": draw(st.sampled_from([100000, 1000, 20000]))}


def check_reload(c):
    """changing an entry and filling again = a fresh table with the new entry"""
    t = c["t"]
    q = qdict(t)
    col = {"q": q, "p": {x: 1 - v for x, v in q.items()}}[c["how"]]
    life = call("set_table", am.LifeTable(udd=t["udd"]).set_table, **{c["how"]: dict(col)})
    new = c["new"] if c["how"] == "q" else 1 - c["new"]
    call("set_table again", life.set_table, radix=c["radix"], **{c["how"]: {c["x"]: new}})
    col2 = {**col, c["x"]: new}
    fresh = call("set_table", am.LifeTable(udd=t["udd"]).set_table, radix=c["radix"], **{c["how"]: col2})
    for k in COLS:
        a, b = life[k], fresh[k]
        same(f"ages of column {k}", sorted(a), sorted(b))
        for x in a:
            eq(f"{k}[{x}] after changing {c['how']}[{c['x']}]", a[x], b[x], 1e-12, 1e-9)
    same("radix", life["l"][t["x0"]], c["radix"])
    return abs(c["new"] - q[c["x"]]) > 1e-9


SUBS = [Sub("fill", lambda tier: s_fill(), check_fill, 1600, what="random sufficient sets of cells, split into calls: every cell, relation, frame and probability"),
        Sub("reload", lambda tier: s_reload(), check_reload, 400, what="changing an entry and filling again equals loading it fresh")]
