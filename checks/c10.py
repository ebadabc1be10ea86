"""C10 varying benefits are valued year by year."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, life, build, rate, rate0
from lib import ref
import actuarialmath as am
from checks.c08 import prep, domain
from checks.c09 import ok_domain

RULE = ("cases draw a model, start [x]+s, interest, a benefit function of age and time (linear, geometric, step, age-dependent, table of amounts) or an "
        "increasing/decreasing form with its amount, insurance or annuity, term, deferral, moment, discrete or continuous; the oracle sums or integrates "
        "benefit(time) x discount x probability; non-trivial = the benefit takes two values within the contract and survival to its middle is in (0,1)")
ASSUMPTIONS = ["non-negative interest (formulas that divide by the rate: positive)", "infinite lifetimes: survivors at the model's maximum age have a present value below 1e-9",
               "benefit functions are smooth within each policy year when continuous", "select tables: first moments, inside the table's rows"]


def benefit(d):
    k, a, g = d["k"], d["a"], d["g"]
    if k == "lin":
        return lambda y, z: a + g * z
    if k == "geo":
        return lambda y, z: a * (1 + g / 10) ** z
    if k == "dec":
        return lambda y, z: a * math.exp(-g * z / 10)
    if k == "age":
        return lambda y, z: a + g * (y + z) / 10
    if k == "step":
        return lambda y, z: a if z <= d["n"] else a * (1 + g)
    return lambda y, z: a * math.sqrt(1 + g * z)


bens = st.fixed_dictionaries({"k": st.sampled_from(["lin", "geo", "dec", "age", "step", "sqrt"]), "a": rnd(0.5, 10, 1), "g": rnd(0.1, 2, 1),
                              "n": st.integers(1, 6)})


@st.composite
def lifeV(draw, disc):
    if disc:
        return prep(draw, draw(life(("table", "ltab", "law", "base", "select", "sult"))))
    kind = draw(st.sampled_from(["law", "law", "base", "table", "sult"]))
    L = draw(life((kind,), maxlen=8, laws=None))
    if kind == "base":
        L["form"], L["maxage"] = draw(st.sampled_from(["S+f", "l+f"] if L["law"].get("omega") else ["S+f", "S+mu", "S+f+mu"])), 160
    return L


def dom(c, L, R, v):
    if not c["disc"] and v == 1 and L["kind"] in ("table", "sult") and not (L["t"]["udd"] if "t" in L else L["udd"]):
        return False                # without interest a continuous annuity is e_x, which is documented as approximate under constant force
    return domain(L, R, v) if c["disc"] else ok_domain(L, R, v)


@st.composite
def s_fun(draw, tier="quick"):
    disc = draw(st.sampled_from([True, True, False]))
    L = draw(lifeV(disc))
    left = L["left"] if L["left"] is not None else 40
    sel = L["kind"] == "select"
    u = draw(st.integers(0, max(0, left - 1)))
    t = draw(st.sampled_from([1, 2, 5]) | st.integers(0, max(1, left - u) + 2))
    whole = not sel and draw(st.integers(0, 3)) == 0
    ann = draw(st.booleans())
    ben = draw(bens)
    if not disc and ben["k"] == "step":
        ben["k"] = "lin"
    if whole and ben["k"] == "geo":
        ben["k"] = "lin"            # growing benefits of an unlimited term need not have a finite value
    if sel:
        u = min(u, max(0, left))
        t = max(0, min(t, left - u))
    return {"life": L, "u": u, "t": -1 if whole else t, "ben": ben, "ann": ann, "disc": disc, "end": draw(st.sampled_from([0, 0, 5, 0.5])),
            "moment": 1 if sel or ann else draw(st.sampled_from([1, 1, 2])), "i": draw(rate0)}


def check_fun(c):
    L, u, t, ann, disc, mo = c["life"], c["u"], c["t"], c["ann"], c["disc"], c["moment"]
    v = 1 / (1 + c["i"])
    obj, R = build(L, c["i"])
    if not dom(c, L, R, v):
        return False
    x, s = L["x"], L["s"]
    B = benefit(c["ben"])
    bb = lambda z: B(x + s, z)
    tt = None if t < 0 else t
    kw = dict(s=s, u=u, benefit=B, discrete=disc, **({} if tt is None else {"t": t}))
    lab = f"{'a_x' if ann else 'A_x'}(x={x},s={s},u={u},t={tt},benefit={c['ben']},endowment={c['end']},moment={mo},discrete={disc})"
    if ann:
        got, want = num(lab, obj.a_x, x, **kw), ref.ann(R, v, x, s, t=tt, u=u, b=bb, discrete=disc)
    else:
        got = num(lab, obj.A_x, x, endowment=c["end"], moment=mo, **kw)
        want = ref.ins(R, v, x, s, t=tt, u=u, b=bb, moment=mo, discrete=disc, end=c["end"])
    n = min(R.end(x, s), u + (tt if tt is not None else 60))
    top = max(abs(bb(z)) for z in range(0, int(n) + 2)) ** mo
    r = 3e-6 if disc else 1e-4 if L["kind"] == "law" and L["law"].get("alpha", 1) < 1 else 2e-5
    eq(lab, got, want, r, r * 0.3 * top)
    return 1e-6 < R.S(x, s, u + max(1, t // 2)) < 1 - 1e-9 and t not in (0, 1)


@st.composite
def s_arith(draw, tier="quick"):
    disc = draw(st.sampled_from([True, True, False]))
    L = draw(lifeV(disc))
    left = L["left"] if L["left"] is not None else 40
    sel = L["kind"] == "select"
    t = draw(st.sampled_from([1, 2, 5]) | st.integers(1, max(1, left) + 3))
    if sel:
        if left < 1:
            L["x"], L["s"], left = L["t"]["x0"], 0, len(L["t"]["rows"]) - 1
        t = max(1, min(t, left))
    return {"life": L, "t": t, "whole": not sel and draw(st.integers(0, 4)) == 0, "b": draw(st.sampled_from([1, 2, 500]) | rnd(0.5, 9, 1)),
            "disc": disc, "i": draw(rate0)}


def check_arith(c):
    L, t, b, disc = c["life"], c["t"], c["b"], c["disc"]
    v = 1 / (1 + c["i"])
    obj, R = build(L, c["i"])
    if not dom(c, L, R, v):
        return False
    x, s = L["x"], L["s"]
    kw = dict(s=s, b=b, discrete=disc)
    r = 3e-6 if disc else 1e-4 if L["kind"] == "law" and L["law"].get("alpha", 1) < 1 else 2e-5
    lab = f"(x={x},s={s},t={t},b={b},discrete={disc})"
    tol = dict(rtol=r, atol=r * 0.5 * b * (t + 1) * (1 + 1 / max(c["i"], .01) * .3))
    ia = num("increasing_insurance" + lab, obj.increasing_insurance, x, t=t, **kw)
    eq("increasing_insurance" + lab, ia, ref.ins(R, v, x, s, t=t, b=lambda z: b * z, discrete=disc), **tol)
    da = num("decreasing_insurance" + lab, obj.decreasing_insurance, x, t=t, **kw)
    n1 = t + 1 if disc else t
    eq("decreasing_insurance" + lab, da, ref.ins(R, v, x, s, t=t, b=lambda z: b * (n1 - z), discrete=disc), **tol)
    Ia = num("increasing_annuity" + lab, obj.increasing_annuity, x, t=t, **kw)
    eq("increasing_annuity" + lab, Ia, ref.ann(R, v, x, s, t=t, b=lambda z: b * (z + disc), discrete=disc), **tol)
    Da = num("decreasing_annuity" + lab, obj.decreasing_annuity, x, t=t, **kw)
    eq("decreasing_annuity" + lab, Da, ref.ann(R, v, x, s, t=t, b=lambda z: b * (t - z), discrete=disc), **tol)
    A = num("term_insurance", obj.term_insurance, x, s=s, t=t, discrete=disc)
    a = num("temporary_annuity", obj.temporary_annuity, x, s=s, t=t, discrete=disc)
    eq("(IA) + (DA) = (n+1) A", ia + da, b * n1 * A, r, 2 * tol["atol"])
    eq("(Ia) + (Da) = (n+1) a", Ia + Da, b * n1 * a, r, 2 * tol["atol"])
    if c["whole"]:
        tol["atol"] = r * 40 * b
        eq("increasing whole life" + lab, num("IA", obj.increasing_insurance, x, **kw), ref.ins(R, v, x, s, b=lambda z: b * z, discrete=disc), **tol)
        eq("increasing whole life annuity" + lab, num("Ia", obj.increasing_annuity, x, **kw), ref.ann(R, v, x, s, b=lambda z: b * (z + disc), discrete=disc), **tol)
    return t > 1 and 1e-6 < R.S(x, s, max(1, t // 2)) < 1 - 1e-9


SUBS = [Sub("functions", lambda tier: s_fun(), check_fun, 1500, what="custom benefit functions, deferral, endowment, second moment"),
        Sub("arithmetic", lambda tier: s_arith(), check_arith, 1200, what="increasing/decreasing insurances and annuities, complement identity")]
