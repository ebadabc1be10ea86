"""C09 continuous insurances and annuities integrate the benefit over the lifetime distribution."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import past, rnd, life, build, rate, rate0
from lib import ref
import actuarialmath as am
from checks.c08 import amount, oracle, lib as call_ins

RULE = ("cases draw a special law, a survival law given by functions (S, l, mu, S+f, S+mu) or a UDD/CFM table, a start [x]+s, interest, a contract "
        "(whole life, term, deferred, endowment, custom; insurance or annuity), term, deferral, amounts, moment or variance; the oracle integrates by "
        "Gauss-Legendre over the law's own pieces; non-trivial = survival to the middle of the contract is in (0,1), and s > 0 or amount != 1 or deferral")
ASSUMPTIONS = ["non-negative interest", "infinite lifetimes: survivors at the model's maximum age have a present value below 1e-9",
               "tolerance is relative 2e-5, and 4e-4 where the library differentiates numerically"]


@st.composite
def lifeC(draw):
    kind = draw(st.sampled_from(["law", "law", "law", "base", "base", "table", "sult"]))
    L = draw(life((kind,), maxlen=8))
    if kind == "base":
        om = L["law"].get("omega")
        forms = ["S+f", "l+f", "S+f+mu"] if om else ["S+f", "S+mu", "S+f+mu", "S", "l", "mu"]
        L["form"], L["maxage"] = draw(st.sampled_from(forms)), 160
    return L


@st.composite
def strat(draw, tier="quick"):
    L = draw(lifeC())
    left = L["left"] if L["left"] is not None else 45
    prod = draw(st.sampled_from(["whole", "term", "deferred", "deferred_t", "endow", "A"]))
    u = draw(st.integers(0, max(0, left - 1))) if prod in ("deferred", "deferred_t", "A") else 0
    u = left + past(draw, L) if u > left - 3 else u
    t = draw(st.sampled_from([1, 2, 5]) | st.integers(0, max(1, left - u) + 2))
    if L["kind"] == "law" and L["left"] is None and draw(st.integers(0, 7)) == 0:
        t = draw(st.integers(60, 400))
    mo = draw(st.sampled_from([1, 1, 2, -2]))
    return {"life": L, "prod": prod, "u": u, "t": t, "b": draw(amount), "end": draw(st.sampled_from([None]) | amount | st.just(0)),
            "moment": 2 if prod == "A" and mo < 0 else mo, "i": draw(rate0)}


def ok_domain(L, R, v):
    if L["kind"] in ("law", "base") and L["law"].get("omega") is None:
        x, s = L["x"], L["s"]
        n = (160 if L["kind"] == "base" else 1000) - x - s
        if R.S(x, s, n) * v**n / max(1 - v, 1e-3) > 1e-9:
            return False
        # numerical differentiation of the survival function: force below 1 while anyone survives
        if L["kind"] == "base" and not ({"f", "mu"} & set(L["form"].split("+"))):
            z = 0
            while R.S(x, s, z) > 1e-7 and z < n:
                if R.mu(x, s + z) > 1:
                    return False
                z += 1
    if L["kind"] == "table" and not R.udd or L["kind"] == "sult" and not L["udd"]:
        return not any(R.q1(L["x"], L["s"] + k) > 0.99 and R.S(L["x"], L["s"], k) > 1e-6 for k in range(int(R.end(L["x"], L["s"]))))
    return True


def tol(L):
    if L["kind"] in ("table", "sult"):
        return 2e-5
    if L["kind"] == "base" and not ({"f", "mu"} & set(L["form"].split("+"))):
        return 4e-4
    if L["law"]["law"] == "beta" and L["law"]["alpha"] < 1:
        return 2e-4
    return 2e-5


def check(c):
    L = c["life"]
    v = 1 / (1 + c["i"])
    obj, R = build(L, c["i"])
    if not ok_domain(L, R, v):
        return False
    x, s, mo = L["x"], L["s"], c["moment"]
    m1, m2 = oracle(c, R, v, x, s, discrete=False)
    B = max(abs(c["b"]), abs(c["end"] or 0))
    got = call_ins(c, obj, x, s, mo, discrete=False)
    want = {1: m1, 2: m2, -2: m2 - m1 * m1}[mo]
    r = tol(L)
    at = r * 0.2 * B ** (1 if mo == 1 else 2) * (1 if mo > 0 else 4)
    eq(f"{c['prod']} x={x} s={s} u={c['u']} t={c['t']} b={c['b']} end={c['end']} moment={mo} discrete=False", got, want, r, at)
    if mo < 0 and got < -at:
        fail(f"negative variance {got}")
    mid = c["u"] + max(1, c["t"] // 2)
    return 1e-6 < R.S(x, s, mid) < 1 - 1e-9 and (s > 0 or c["b"] != 1 or c["u"] > 0)


@st.composite
def s_ann(draw, tier="quick"):
    L = draw(lifeC())
    left = L["left"] if L["left"] is not None else 45
    prod = draw(st.sampled_from(["whole", "temp", "deferred", "deferred_t", "certain", "certain_t", "a_x"]))
    u = draw(st.integers(0, max(0, left - 1))) if prod not in ("whole", "temp") else 0
    u = left + past(draw, L) if u > left - 3 else u
    t = draw(st.sampled_from([1, 2, 5]) | st.integers(0, max(1, left - u) + 2))
    if L["kind"] == "law" and L["left"] is None and draw(st.integers(0, 7)) == 0:
        t = draw(st.integers(60, 400))
    var = prod in ("whole", "temp") and draw(st.integers(0, 2)) == 0
    i = draw(rate0)
    return {"life": L, "prod": prod, "u": u, "t": t, "b": draw(amount), "var": var, "i": i}


def check_ann(c):
    L, prod, u, t, b, var, i = c["life"], c["prod"], c["u"], c["t"], c["b"], c["var"], c["i"]
    v = 1 / (1 + i)
    obj, R = build(L, i)
    x, s = L["x"], L["s"]
    if L["kind"] == "base" and L["law"].get("omega") and u + t >= L["left"]:
        return False                # the user's own functions end at the limiting age
    if i == 0:
        if L["kind"] in ("table", "sult") and not R.udd:
            return False            # complete expectation of a table is documented as its UDD value
        if L["kind"] in ("law", "base") and L["law"].get("omega") is None and R.S(x, s, (160 if L["kind"] == "base" else 1000) - x - s) > 1e-11:
            return False
        if not ok_domain(L, R, 1 / 1.02):
            return False
    elif not ok_domain(L, R, v):
        return False
    lab = f"{prod}(x={x},s={s},u={u},t={t},b={b},var={var},i={i},discrete=False)"
    kw = dict(s=s, b=b, discrete=False)
    bb = lambda z: b
    delta = max(math.log1p(i), 0.01)
    r = tol(L)
    if var:
        if prod == "whole":
            got = num(lab, obj.whole_life_annuity, x, variance=True, **kw)
        else:
            got = num(lab, obj.temporary_annuity, x, t=t, variance=True, **kw)
        want = b * b * ref.ann_moments(R, v, x, s, None if prod == "whole" else t, discrete=False)[1] if (prod == "whole" or t > 0) else 0.
        eq(lab, got, want, r, r * b * b / max(delta, .01)**2)
        if got < -r * b * b / max(delta, .01)**2:
            fail(f"{lab}: negative variance {got}")
    else:
        if prod == "whole":
            got, want = num(lab, obj.whole_life_annuity, x, **kw), ref.ann(R, v, x, s, b=bb, discrete=False)
        elif prod == "temp":
            got, want = num(lab, obj.temporary_annuity, x, t=t, **kw), ref.ann(R, v, x, s, t=t, b=bb, discrete=False)
        elif prod == "deferred":
            got, want = num(lab, obj.deferred_annuity, x, u=u, **kw), ref.ann(R, v, x, s, u=u, b=bb, discrete=False)
        elif prod == "deferred_t":
            got, want = num(lab, obj.deferred_annuity, x, u=u, t=t, **kw), ref.ann(R, v, x, s, u=u, t=t, b=bb, discrete=False)
        elif prod == "certain":
            got = num(lab, obj.certain_life_annuity, x, u=u, **kw)
            want = b * ref.annsum(v, u, False) + ref.ann(R, v, x, s, u=u, b=bb, discrete=False)
        elif prod == "certain_t":
            got = num(lab, obj.certain_life_annuity, x, u=u, t=t, **kw)
            want = b * ref.annsum(v, u, False) + ref.ann(R, v, x, s, u=u, t=t, b=bb, discrete=False)
        else:
            got = num(lab, obj.a_x, x, s=s, u=u, t=t, benefit=lambda x, k: b, discrete=False)
            want = ref.ann(R, v, x, s, u=u, t=t, b=bb, discrete=False)
        eq(lab, got, want, r, r * 0.3 * b / max(delta, .01))
    return 1e-6 < R.S(x, s, max(1, u + t // 2)) < 1 - 1e-9 and (s > 0 or b != 1 or u > 0)


@st.composite
def s_twin(draw, tier="quick"):
    L = draw(lifeC())
    left = L["left"] if L["left"] is not None else 40
    return {"life": L, "t": draw(st.integers(1, max(1, left - 1))), "i": draw(rate)}


def check_twin(c):
    """A + delta a = 1, continuous between discrete bounds: on the library's own first-principles values"""
    L, t, i = c["life"], c["t"], c["i"]
    v, delta = 1 / (1 + i), math.log1p(i)
    obj, R = build(L, i)
    if not ok_domain(L, R, v):
        return False
    x, s = L["x"], L["s"]
    a = num("a_x", obj.a_x, x, s=s, discrete=False)
    A = num("A_x", obj.A_x, x, s=s, discrete=False)
    r = tol(L)
    eq("A + delta a = 1 (whole life)", A + delta * a, 1.0, 0, r * 2)
    a = num("a_x", obj.a_x, x, s=s, t=t, discrete=False)
    A = num("A_x", obj.A_x, x, s=s, t=t, endowment=1, discrete=False)
    eq("A + delta a = 1 (endowment)", A + delta * a, 1.0, 0, r * 2)
    d = num("A_x", obj.A_x, x, s=s, t=t, discrete=True)
    cont = num("A_x", obj.A_x, x, s=s, t=t, discrete=False)
    between("v^(1 year) ordering of insurances", cont, d, d * (1 + i), r)
    return 1e-6 < R.S(x, s, t) < 1 - 1e-9


SUBS = [Sub("insurances", lambda tier: strat(), check, 1500, what="continuous insurances, moments, variance vs integrals"),
        Sub("annuities", lambda tier: s_ann(), check_ann, 1200, what="continuous annuities and variance vs integrals"),
        Sub("twins", lambda tier: s_twin(), check_twin, 400, what="A = 1 - delta a; continuous between discrete bounds")]
