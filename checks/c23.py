"""C23 select tables are completed consistently from any sufficient data."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, select, seldict, rate
from lib import ref
import actuarialmath as am

RULE = ("cases draw a true select table (period, rows, rates), values of A, a and e that its ultimate column implies, loaded cells chosen at random among lives, deaths, rates, "
        "insurances, annuities and expectations until a reference closure of the one-year relations determines every value, by table or by column, and contracts on [x]+s; every cell "
        "and contract value is compared with the true one; non-trivial = a select period of at least one year and at least two kinds of cell or a contract of two years or more")
ASSUMPTIONS = ["loaded cells are consistent", "interest is set before insurances or annuities are filled", "first moments and annual payments, as documented"]
COLS = ("l", "d", "q", "A", "a", "e")


def nxt(n, x, s):
    return (x, s + 1) if s < n else (x + 1, s)


def truth(c):
    """every cell [x]+s; A, a, e of the last ultimate age continue with the drawn anchors"""
    rows, x0, v = c["t"]["rows"], c["t"]["x0"], 1 / (1 + c["i"])
    n, R = len(rows[0]) - 1, len(rows)
    T = {k: {} for k in COLS}
    last = (x0 + R - 1, n)
    end = rows[-1][n] == 1.0
    for x in range(x0 + R - 1, x0 - 1, -1):
        for s in range(n, -1, -1):
            q = rows[x - x0][s]
            T["q"][x, s] = q
            y = nxt(n, x, s)
            if (x, s) == last:
                A1, a1, e1 = (1., 1., 0.) if end else (c["A1"], (1 - c["A1"]) / (1 - v) if v < 1 else 10., c["e1"])
            else:
                A1, a1, e1 = T["A"][y], T["a"][y], T["e"][y]
            T["A"][x, s] = v * (q + (1 - q) * A1)
            T["a"][x, s] = 1 + v * (1 - q) * a1
            T["e"][x, s] = (1 - q) * (1 + e1)
    # lives: ultimate column from the top, select rows back from it
    l = float(c["radix"])
    for k in range(R):
        T["l"][x0 + k, n] = l
        l *= 1 - rows[k][n]
    T["l"][x0 + R, n] = l
    for k in range(R):
        for s in range(n - 1, -1, -1):
            T["l"][x0 + k, s] = T["l"][x0 + k, s + 1] / (1 - rows[k][s])
    for (x, s), q in T["q"].items():
        T["d"][x, s] = T["l"][x, s] * q
    return T


def closure(n, R, x0, cells, T):
    known = set(cells)
    pos = [(x, s) for x in range(x0, x0 + R) for s in range(n + 1)]
    inside = set(pos)
    while True:
        new = set()
        for (x, s) in pos:
            y = nxt(n, x, s)
            q = T["q"][x, s]
            L0, D, Q = ("l", x, s), ("d", x, s), ("q", x, s)
            L1 = ("l", *y) if y in inside else None
            has = lambda *k: all(z is not None and z in known for z in k)
            if has(L0, L1): new.add(D)
            if has(L0, D): new |= {Q} | ({L1} if L1 else set())
            if has(L1, D): new.add(L0)
            if has(L0, Q): new |= {D} | ({L1} if L1 else set())
            if has(L1, Q) and q < 1: new.add(L0)
            if has(D, Q) and q > 0: new.add(L0)
            if y in inside:
                for k in "Aae":
                    c0, c1 = (k, x, s), (k, *y)
                    if has(c1, Q): new.add(c0)
                    if has(c0, Q) and q < 1: new.add(c1)
                if has(("e", x, s), ("e", *y)): new.add(Q)
        if new <= known:
            return known
        known |= new


@st.composite
def s_fill(draw, tier="quick"):
    t = draw(select(minrows=2, maxrows=6, terminal=draw(st.integers(0, 3)) == 0))
    n, R, x0 = len(t["rows"][0]) - 1, len(t["rows"]), t["x0"]
    c = {"t": t, "i": draw(rate), "A1": draw(rnd(.2, .7, 2)), "e1": draw(rnd(1, 30, 1)), "radix": draw(st.sampled_from([100000, 1000, 5e5]))}
    T = truth(c)
    allc = [(k, x, s) for k in COLS for x in range(x0, x0 + R) for s in range(n + 1)]
    style = draw(st.sampled_from(["mix", "mix", "l", "q", "ld", "dq", "e", "qA", "qa", "qe", "le", "Ae", "one"]))
    if style == "one":               # an anchor of each kind at one place, rates elsewhere
        a = draw(st.sampled_from([(x, s) for x in range(x0, x0 + R) for s in range(n + 1)]))
        order = [(k, *a) for k in draw(st.permutations("lAae"))] + [z for z in draw(st.permutations(allc)) if z[0] == "q"]
    elif style == "mix":
        order = list(draw(st.permutations(allc)))
    else:
        order = [z for z in draw(st.permutations(allc)) if z[0] in style]
    cells, known = [], set()
    for z in order:
        if z not in known or draw(st.integers(0, 5)) == 0:
            cells.append(z)
            known = closure(n, R, x0, cells, T)
            if len(known) >= len(allc):
                break
    c["cells"] = [list(z) for z in cells]
    c["how"] = draw(st.sampled_from(["table", "table", "column", "column_age", "both"]))
    c["before"] = [draw(st.sampled_from(["q", "qA", "l", "qa", "e", "d", "qlAae"])), draw(st.booleans())] if draw(st.integers(0, 3)) == 0 else None
    c["share"] = [draw(st.booleans()) for _ in cells]
    c["perm"] = list(draw(st.permutations(range(n + 1))))
    return c


def load(c, T, verbose=False):
    t = c["t"]
    n, R, x0 = len(t["rows"][0]) - 1, len(t["rows"]), t["x0"]
    life = call("SelectLife", am.SelectLife, periods=n, udd=t["udd"])
    call("set_interest", life.set_interest, i=c["i"])
    cells = [tuple(z) for z in c["cells"]]
    if c.get("before") and c["how"] in ("table", "both"):         # another table, which set_table replaces
        some = {"q": .111, "l": 777., "A": .5, "a": 9., "e": 11., "d": 8.}
        call("set_table (earlier)", life.set_table, fill=c["before"][1], **{k: {x: [some[k]] * (n + 1) for x in range(x0, x0 + R)} for k in c["before"][0]})
    if c["how"] == "both":          # some cells by table, the others by column
        given = {z for z, h in zip(cells, c["share"]) if h} if c.get("share") else set()
        if not given:
            given = set(cells)
    else:
        given = set(cells) if c["how"] == "table" else set()
    if given:
        kw = {}
        for k, x, s in [z for z in cells if z in given]:
            kw.setdefault(k, {}).setdefault(x, [None] * (n + 1))[s] = T[k][x, s]
        call("set_table", life.set_table, radix=int(c["radix"]), fill=given == set(cells), **kw)
    cells = [z for z in cells if z not in given]
    if cells:
        sel = c["how"] == "column_age"
        for s in c["perm"]:
            kw = {}
            for k, x, ss in cells:
                if ss == s:
                    kw.setdefault(k, {})[x if sel else x + s] = T[k][x, s]
            if kw:
                call(f"set_select(s={s})", life.set_select, s=s, age_selected=sel, **kw)
        call("fill_table", life.fill_table, radix=int(c["radix"]))
    return life


def check_fill(c):
    t = c["t"]
    n, R, x0 = len(t["rows"][0]) - 1, len(t["rows"]), t["x0"]
    T = truth(c)
    xs = [z[1] for z in c["cells"]]
    if min(xs) != x0 or max(xs) != x0 + R - 1:
        return False                # the range of the table is taken from what is loaded
    cells = [tuple(z) for z in c["cells"]]
    known = closure(n, R, x0, cells, T)
    scale = 1.
    life = load(c, T)
    if not any(k[0] == "l" for k in known):          # only rates: the radix goes to the first row
        known = closure(n, R, x0, list(known) + [("l", x0, 0)], T)
        scale = c["radix"] / T["l"][x0, 0]
    small = min(1 - q for q in T["q"].values() if q < 1)
    for k in COLS:
        tab = call(f"table[{k}]", life.__getitem__, k)
        f = scale if k in "ld" else 1.
        for x in range(x0, x0 + R):
            for s in range(n + 1):
                if (k, x, s) not in known:
                    continue
                got = tab.get(x, {}).get(s)
                if got is None:
                    fail(f"{k} at [{x}]+{s} not filled although determined by the {len(cells)} cells loaded: {cells}")
                eq(f"{k} at [{x}]+{s}", got, f * T[k][x, s], 1e-6, 1e-6 * (T["l"][x0, 0] if k in "ld" else 1))
    for k, x, s in cells:
        same(f"loaded entry {k} at [{x}]+{s}", life[k][x][s], T[k][x, s])
    for k in COLS:
        fr = call(f"frame({k})", life.frame, k)
        for x in range(x0, x0 + R):
            for s in range(n + 1):
                got = life[k].get(x, {}).get(s)
                if got is not None and (x not in fr.index or float(fr.iloc[list(fr.index).index(x), s]) != float(got)):
                    fail(f"frame({k}) at [{x}]+{s} does not show {got}")
    return len({z[0] for z in cells}) > 1 and n >= 1


@st.composite
def s_val(draw, tier="quick"):
    t = draw(select(minrows=2, maxrows=8, terminal=draw(st.booleans())))
    n, R, x0 = len(t["rows"][0]) - 1, len(t["rows"]), t["x0"]
    end = t["rows"][-1][-1] == 1.0
    k = draw(st.integers(0, R - 1))
    s = draw(st.integers(0, R - 1 - k + n))
    left = R - 1 - k - s + n + 1                 # whole years for which rates are known
    u = draw(st.integers(0, max(0, left - 1)))
    return {"t": t, "x": x0 + k, "s": s, "left": left, "u": u, "term": draw(st.integers(1, max(1, left - u))), "b": draw(st.sampled_from([1, 100, 2.5])),
            "i": draw(rate), "from": draw(st.sampled_from(["q", "q", "q", "lq", "qA", "qa", "qe"])), "A1": .5, "e1": 3.5, "radix": 100000, "endow": draw(rnd(.5, 3, 1))}


def check_val(c):
    t = c["t"]
    n, R, x0 = len(t["rows"][0]) - 1, len(t["rows"]), t["x0"]
    end = t["rows"][-1][-1] == 1.0
    T = truth(c)
    v = 1 / (1 + c["i"])
    kw = {}
    for k in c["from"]:
        if k in "lq" or end:
            kw[k] = {x: [T[k][x, s] for s in range(n + 1)] for x in range(x0, x0 + R)}
    life = call("set_table", am.SelectLife(udd=t["udd"]).set_interest(i=c["i"]).set_table, **kw)
    rf = ref.SelectRef(seldict(t), t["udd"])
    x, s, u, b, left = c["x"], c["s"], c["u"], c["b"], c["left"]
    m = min(c["term"], left - u)
    lab = f"[{x}]+{s} u={u} t={m} b={b}"
    tol = dict(rtol=1e-8, atol=1e-9 * b)
    S = lambda k: rf.S(x, s, k)
    for k in (0, 1, m, left):
        eq(f"p_x {lab} over {k}", call("p_x", life.p_x, x, s=s, t=k), S(k), 1e-9, 1e-12)
    eq(f"q_x {lab}", call("q_x", life.q_x, x, s=s, t=m, u=u), S(u) - S(u + m), 1e-9, 1e-12)
    eq(f"E_x {lab}", call("E_x", life.E_x, x, s=s, t=m, endowment=b), b * v ** m * S(m), **tol)
    eq(f"A_x {lab}", call("A_x", life.A_x, x, s=s, t=m, u=u, benefit=lambda y, z: b), ref.ins(rf, v, x, s, t=m, u=u, b=lambda z: b), **tol)
    eq(f"a_x {lab}", call("a_x", life.a_x, x, s=s, t=m, u=u, benefit=lambda y, z: b), ref.ann(rf, v, x, s, t=m, u=u, b=lambda z: b), **tol)
    # some of the terms of the contract given, the others left out
    eq(f"A_x of unit amount {lab}", call("A_x", life.A_x, x, s=s, t=m), ref.ins(rf, v, x, s, t=m), **tol)
    eq(f"a_x of unit amount {lab}", call("a_x", life.a_x, x, s=s, t=m), ref.ann(rf, v, x, s, t=m), **tol)
    eq(f"A_x with endowment {lab}", call("A_x", life.A_x, x, s=s, t=m, endowment=c["endow"]), ref.ins(rf, v, x, s, t=m, end=c["endow"]), **tol)
    eq(f"A_x deferred {lab}", call("A_x", life.A_x, x, s=s, t=m, u=u), ref.ins(rf, v, x, s, t=m, u=u), **tol)
    eq(f"a_x deferred {lab}", call("a_x", life.a_x, x, s=s, t=m, u=u), ref.ann(rf, v, x, s, t=m, u=u), **tol)
    if end:
        eq(f"A_x whole {lab}", call("A_x", life.A_x, x, s=s), ref.ins(rf, v, x, s), **tol)
        eq(f"a_x whole {lab}", call("a_x", life.a_x, x, s=s), ref.ann(rf, v, x, s), **tol)
        eq(f"A_x whole, deferred {lab}", call("A_x", life.A_x, x, s=s, u=u), ref.ins(rf, v, x, s, u=u), **tol)
        eq(f"a_x whole, deferred {lab}", call("a_x", life.a_x, x, s=s, u=u), ref.ann(rf, v, x, s, u=u), **tol)
        eq(f"A_x whole, amount {lab}", call("A_x", life.A_x, x, s=s, benefit=lambda y, z: b * z), ref.ins(rf, v, x, s, b=lambda z: b * z), **tol)
        eq(f"a_x whole, amount {lab}", call("a_x", life.a_x, x, s=s, benefit=lambda y, z: b * (1 + z)), ref.ann(rf, v, x, s, b=lambda z: b * (1 + z)), **tol)
    eq(f"e_x {lab}", call("e_x", life.e_x, x, s=s, t=m), ref.expect(rf, x, s, m), **tol)
    if S(m) > 0:
        eq(f"term_insurance {lab}", call("term_insurance", life.term_insurance, x, s=s, t=m, b=b), ref.ins(rf, v, x, s, t=m, b=lambda z: b), **tol)
        eq(f"temporary_annuity {lab}", call("temporary_annuity", life.temporary_annuity, x, s=s, t=m, b=b), ref.ann(rf, v, x, s, t=m, b=lambda z: b), **tol)
        eq(f"endowment_insurance {lab}", call("endowment_insurance", life.endowment_insurance, x, s=s, t=m, b=b, endowment=c["endow"]),
           ref.ins(rf, v, x, s, t=m, b=lambda z: b, end=c["endow"]), **tol)
        P = ref.ins(rf, v, x, s, t=m) / ref.ann(rf, v, x, s, t=m)
        eq(f"net_premium {lab}", call("net_premium", life.net_premium, x, s=s, t=m, b=b), b * P, **tol)
    if S(u) > 0 and u + m < left:
        eq(f"deferred_insurance {lab}", call("deferred_insurance", life.deferred_insurance, x, s=s, u=u, t=m, b=b), ref.ins(rf, v, x, s, t=m, u=u, b=lambda z: b), **tol)
        eq(f"deferred_annuity {lab}", call("deferred_annuity", life.deferred_annuity, x, s=s, u=u, t=m, b=b), ref.ann(rf, v, x, s, t=m, u=u, b=lambda z: b), **tol)
    if end:
        eq(f"whole_life_insurance {lab}", call("whole_life_insurance", life.whole_life_insurance, x, s=s, b=b), ref.ins(rf, v, x, s, b=lambda z: b), **tol)
        eq(f"whole_life_annuity {lab}", call("whole_life_annuity", life.whole_life_annuity, x, s=s, b=b), ref.ann(rf, v, x, s, b=lambda z: b), **tol)
        eq(f"whole e_x {lab}", call("e_x", life.e_x, x, s=s), ref.expect(rf, x, s), **tol)
        if S(u) > 0:
            eq(f"deferred whole {lab}", call("deferred_insurance", life.deferred_insurance, x, s=s, u=u, b=b), ref.ins(rf, v, x, s, u=u, b=lambda z: b), **tol)
            eq(f"deferred whole annuity {lab}", call("deferred_annuity", life.deferred_annuity, x, s=s, u=u, b=b), ref.ann(rf, v, x, s, u=u, b=lambda z: b), **tol)
    # lives follow the rates along the row and into the ultimate column
    if s <= n and S(1) > 0 and left > 1:
        eq(f"l_x ratio {lab}", life.l_x(x, s=s + 1) / life.l_x(x, s=s), S(1), 1e-9, 1e-12) if life.l_x(x, s=s) is not None and life.l_x(x, s=s + 1) is not None else None
    return n >= 1 and m >= 2


SUBS = [Sub("fill", lambda tier: s_fill(), check_fill, 900, what="random sufficient sets of cells, by table or by column: every cell and every loaded entry"),
        Sub("values", lambda tier: s_val(), check_val, 1200, what="probabilities, expectations, insurances, annuities, premiums of [x]+s against the row's rates")]
