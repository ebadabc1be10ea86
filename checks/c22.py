"""C22 the standard ultimate life table is its defining law."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, law, rate
from lib import ref
import actuarialmath as am

RULE = ("cases draw the survival law (default or generated), interest, radix, age range, fractional-age assumption and a contract, sometimes with the lives of another law loaded over the table afterwards; values read from the table "
        "are compared with sums over the law's own survival probabilities, the frame's strings with those values rounded; "
        "non-trivial = the age range is wider than 10 and survival over the contract is in (0,1)")
ASSUMPTIONS = ["whole life and deferred values: survivors at the table's last age have a present value below 1e-9, and below 5e-9 of the discount rate"]
MAKEHAM = {"law": "makeham", "A": 0.00022, "B": 0.0000027, "c": 1.124}


@st.composite
def sultspec(draw, narrow=False):
    d = {"udd": draw(st.booleans())}
    if draw(st.booleans()):
        d["law"] = draw(law(("makeham", "gompertz", "weibull", "beta", "uniform")))
    lw = d.get("law") or MAKEHAM
    if draw(st.integers(0, 2)):
        d["minage"] = draw(st.sampled_from([0, 20, 25, 40, 50]))
    if lw.get("omega"):
        d["minage"] = min(d.get("minage", 20), lw["omega"] - 20)
        d["maxage"] = lw["omega"]
    elif draw(st.booleans()):
        d["maxage"] = draw(st.sampled_from([100, 120, 130, 150]))
    if draw(st.booleans()):
        d["radix"] = draw(st.sampled_from([1000, 100000, 1, 5e6]))
    if draw(st.integers(0, 3)):
        d["i"] = draw(rate)
    d["post"] = draw(st.sampled_from([None, None, "delta"]))       # interest set again afterwards
    if draw(st.integers(0, 5)) == 0:                               # lives of another law loaded over the table
        d["law2"] = draw(law(("makeham", "gompertz", "weibull")))
    return d


def build(d):
    lw = d.get("law")
    kw = {k: d[k] for k in ("minage", "maxage", "radix", "i", "udd") if k in d}
    if lw:
        RL = ref.LawRef(lw)
        kw["S"] = lambda x, t: RL._S(x, t)
    else:
        RL = ref.LawRef(MAKEHAM)
    life = call(f"SULT({kw})", am.SULT, **kw)
    lo, hi, i = d.get("minage", 20), d.get("maxage", 130), d.get("i", .05)
    if d["post"]:
        i = round(i / 2 + .01, 4)
        call("set_interest", life.set_interest, delta=math.log(1 + i))
    if d.get("law2"):
        RL = ref.LawRef(d["law2"])
        for col in "qpaA":
            call(f"sult[{col}]", life.__getitem__, col)
        call("set_table", life.set_table, l={a: d.get("radix", 100000) * RL.S(lo, 0, a - lo) for a in range(lo, hi + 1)}, minage=lo, maxage=hi)
    R = ref.TableRef({a: 1 - RL.S(a, 0, 1) for a in range(lo, hi)}, d["udd"])
    return life, R, lo, hi, i


@st.composite
def s_val(draw, tier="quick"):
    d = draw(sultspec())
    lo, hi = d.get("minage", 20), d.get("maxage", 130)
    x = draw(st.integers(lo, hi - 2))
    s = draw(st.integers(0, min(5, x - lo)))
    return {"d": d, "x": x - s, "s": s, "t": draw(st.sampled_from([1, 5, 10, 20]) | st.integers(1, hi - x)), "u": draw(st.integers(0, min(30, hi - x - 1))),
            "b": draw(st.sampled_from([1, 1000, 2.5])), "m": draw(st.sampled_from([1, 2])), "r": draw(rnd(0, .99, 2)), "tr": draw(rnd(0, 6, 2)),
            "disc": draw(st.sampled_from([True, True, False]))}


def check_val(c):
    life, R, lo, hi, i = build(c["d"])
    v = 1 / (1 + i)
    x, s, t, u, b, m = c["x"], c["s"], c["t"], c["u"], c["b"], c["m"]
    n = hi - x - s
    radix = c["d"].get("radix", 100000)
    eq(f"l_x({x},s={s})", call("l_x", life.l_x, x, s=s), radix * R.S(lo, 0, x + s - lo), 1e-9, 1e-9 * radix)
    RL = ref.LawRef(c["d"].get("law2") or c["d"].get("law") or MAKEHAM)
    p0 = RL._S(lo, x + s - lo)
    if p0 * radix < 1e-4:
        return False                       # nothing left in the table but rounding
    t = min(t, n)
    eq(f"p_x(t={t}) is the law's", call("p_x", life.p_x, x, s=s, t=t), RL._S(x + s, t), 1e-7, 1e-9)
    eq(f"q_x(t={t},u={u})", call("q_x", life.q_x, x, s=s, t=t, u=min(u, n - t)), R.S(x, s, min(u, n - t)) - R.S(x, s, min(u, n - t) + t), 1e-7, 1e-9)
    lab = f"(x={x},s={s},t={t},u={u},b={b},moment={m})"
    tol = dict(rtol=1e-6, atol=1e-7 * b ** m)
    eq("E_x" + lab, call("E_x", life.E_x, x, s=s, t=t, moment=m), v ** (m * t) * R.S(x, s, t), **tol)
    if R.S(x, s, t) > 0 and t + u <= n:
        eq("term_insurance" + lab, call("term_insurance", life.A_x, x, s=s, t=t, benefit=lambda y, z: b, moment=m), ref.ins(R, v, x, s, t=t, b=lambda z: b, moment=m), **tol)
    eq("temporary_annuity" + lab, call("a_x", life.a_x, x, s=s, t=t, benefit=lambda y, z: b), ref.ann(R, v, x, s, t=t, b=lambda z: b), **tol)
    if R.S(x, s, n) * v ** n < min(1e-9, 5e-9 * (1 - v)) and n > 12:
        kw = dict(s=s, b=b)
        eq("whole_life_insurance" + lab, call("whole_life_insurance", life.whole_life_insurance, x, moment=m, **kw), ref.ins(R, v, x, s, b=lambda z: b, moment=m), **tol)
        eq("whole_life_annuity" + lab, call("whole_life_annuity", life.whole_life_annuity, x, **kw), ref.ann(R, v, x, s, b=lambda z: b), **tol)
        eq("term_insurance" + lab, call("term_insurance", life.term_insurance, x, t=t, moment=m, **kw), ref.ins(R, v, x, s, t=t, b=lambda z: b, moment=m), **tol)
        eq("endowment_insurance" + lab, call("endowment_insurance", life.endowment_insurance, x, t=t, moment=m, **kw),
           ref.ins(R, v, x, s, t=t, b=lambda z: b, moment=m, end=b), **tol)
        eq("temporary_annuity" + lab, call("temporary_annuity", life.temporary_annuity, x, t=t, **kw), ref.ann(R, v, x, s, t=t, b=lambda z: b), **tol)
        if u < n - 12:
            eq("deferred_annuity" + lab, call("deferred_annuity", life.deferred_annuity, x, u=u, **kw), ref.ann(R, v, x, s, u=u, b=lambda z: b), **tol)
            eq("deferred_insurance" + lab, call("deferred_insurance", life.deferred_insurance, x, u=u, moment=m, **kw), ref.ins(R, v, x, s, u=u, b=lambda z: b, moment=m), **tol)
        P = ref.ins(R, v, x, s) / ref.ann(R, v, x, s)
        eq("net_premium" + lab, call("net_premium", life.net_premium, x, **kw), b * P, **tol)
        P = ref.ins(R, v, x, s, t=t, end=1.) / ref.ann(R, v, x, s, t=t)
        eq("net_premium endowment" + lab, call("net_premium", life.net_premium, x, t=t, endowment=b, **kw), b * P, **tol)
        eq("gross_premium" + lab, call("gross_premium", life.gross_premium, A=ref.ins(R, v, x, s), a=ref.ann(R, v, x, s), benefit=b, initial_policy=b * .1, renewal_premium=.04,
                                       initial_premium=.3), (b * ref.ins(R, v, x, s) + b * .1) / (ref.ann(R, v, x, s) * .96 - .26), **tol)
        eq("e_x" + lab, call("e_x", life.e_x, x, s=s, curtate=True), ref.expect(R, x, s), 1e-6, 1e-6)
    # fractional ages
    r, tr = c["r"], min(c["tr"], max(0, n - 1 - c["r"]))
    if tr > 0 and R.S(x, s, r + tr) > 1e-6:
        kw = dict(s=s, r=r, t=tr)
        want = R.S(x, s + r, tr)
        eq(f"p_r({kw})", call("p_r", life.p_r, x, **kw), want, 1e-7, 1e-9)
        eq(f"q_r({kw})", call("q_r", life.q_r, x, **kw), 1 - want, 1e-7, 1e-9)
        eq(f"E_r({kw})", call("E_r", life.E_r, x, **kw), want * v ** tr, 1e-7, 1e-9)
        eq(f"mu_r", call("mu_r", life.mu_r, x, s=s, r=r), R.mu(x, s + r), 1e-5, 1e-7) if r > 0 else None
        eq(f"l_r", call("l_r", life.l_r, x, s=s, r=r), R.S(lo, 0, x + s - lo + r) * radix, 1e-7, 1e-9 * radix)
    return hi - lo > 10 and 1e-6 < R.S(x, s, t) < 1 - 1e-9


@st.composite
def s_frame(draw, tier="quick"):
    d = draw(sultspec())
    if d.get("radix", 0) == 1:
        d.pop("radix")
    return {"d": d, "lo": draw(st.none() | st.integers(0, 60)), "hi": draw(st.none() | st.integers(60, 120)), "col": draw(st.sampled_from("qpaA"))}


def check_frame(c):
    life, R, lo, hi, i = build(c["d"])
    v = 1 / (1 + i)
    radix = c["d"].get("radix", 100000)
    kw = {k: c[n] for k, n in (("minage", "lo"), ("maxage", "hi")) if c[n] is not None}
    fr = call(f"frame({kw})", life.frame, **kw)
    a, b = kw.get("minage", 20), kw.get("maxage", 100)
    ages = [x for x in range(lo, hi + 1) if a <= x <= b]
    same("ages displayed", list(fr.index), ages)
    cols = {"l_x": (1, lambda x: radix * R.S(lo, 0, x - lo)), "q_x": (6, lambda x: 1 - R.S(x, 0, 1)), "a_x": (4, lambda x: ref.ann(R, v, x)),
            "A_x": (5, lambda x: ref.ins(R, v, x)), "2A_x": (5, lambda x: ref.ins(R, v, x, moment=2)),
            "a_x:10": (4, lambda x: ref.ann(R, v, x, t=10)), "A_x:10": (5, lambda x: ref.ins(R, v, x, t=10, end=1.)),
            "a_x:20": (4, lambda x: ref.ann(R, v, x, t=20)), "A_x:20": (5, lambda x: ref.ins(R, v, x, t=20, end=1.)),
            "5_E_x": (5, lambda x: v ** 5 * R.S(x, 0, 5)), "10_E_x": (5, lambda x: v ** 10 * R.S(x, 0, 10)), "20_E_x": (5, lambda x: v ** 20 * R.S(x, 0, 20))}
    same("columns", list(fr.columns), list(cols))
    seen = 0
    for x in ages:
        n = hi - x
        if R.S(lo, 0, x - lo) * radix < 1e-2 or R.S(x, 0, n) * v ** n > min(1e-9, 5e-9 * (1 - v)) or n <= 20:
            continue
        seen += 1
        for col, (dig, f) in cols.items():
            got, want = fr[col][x], f(x)
            if not isinstance(got, str) or len(got.split(".")[-1]) != dig:
                fail(f"frame[{col}][{x}] = {got!r}: expected {dig} decimals")
            eq(f"frame[{col}][{x}]", float(got), want, 1e-6, .5000001 * 10 ** -dig + 1e-6 * (x > 100))
    col = c["col"]
    got = call(f"sult[{col}]", life.__getitem__, col)
    f = {"q": lambda x: 1 - R.S(x, 0, 1), "p": lambda x: R.S(x, 0, 1), "a": lambda x: ref.ann(R, v, x), "A": lambda x: ref.ins(R, v, x)}[col]
    for x in range(lo, hi):
        if x not in got:
            fail(f"sult[{col}] has no age {x}")
        n = hi - x
        if R.S(lo, 0, x - lo) * radix < 1e-2 or (col in "aA" and (R.S(x, 0, n) * v ** n > min(1e-9, 5e-9 * (1 - v)) or n <= 12)):
            continue
        eq(f"sult[{col}][{x}]", got[x], f(x), 1e-6, 1e-7)
    return seen > 5


SUBS = [Sub("values", lambda tier: s_val(), check_val, 1200, what="table, insurance, annuity, premium and fractional-age values against the law"),
        Sub("frame", lambda tier: s_frame(), check_frame, 60, what="every displayed cell of frame() and of the indexed columns")]
