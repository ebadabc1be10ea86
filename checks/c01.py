"""C01 interest-rate forms are one rate."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd
import actuarialmath as am

RULE = ("cases draw an effective rate (including 0 and very small and large rates), the form it is given in, an m'thly "
        "frequency and times; non-trivial = the rate is positive and, when a frequency is drawn, m >= 2")
ASSUMPTIONS = ["rates are effective annual rates in [0, 1.0]; m'thly rates have m >= 1"]

# effective force of interest drawn on several scales
force = st.one_of(rnd(0.001, 0.7, 3), rnd(0.001, 0.7, 11), rnd(0.000001, 0.001, 6), st.just(0.))
FORMS = ["i", "d", "v", "delta", "i_m", "d_m"]


def forms(delta, m):
    i = math.expm1(delta)
    return {"i": i, "v": math.exp(-delta), "d": -math.expm1(-delta), "delta": delta,
            "i_m": m * math.expm1(delta / m), "d_m": -m * math.expm1(-delta / m)}


def case_forms(tier):
    return st.fixed_dictionaries({"delta": force, "m": st.sampled_from([1, 2, 3, 4, 6, 12, 52, 365]) | st.integers(1, 400),
                                  "form": st.sampled_from(FORMS), "ts": st.lists(rnd(0, 120, 2), min_size=1, max_size=4),
                                  "via": st.sampled_from(["Interest", "Life", "LifeTable", "Reserves"])})


def mk(c):
    F = forms(c["delta"], c["m"])
    kw = {c["form"]: F[c["form"]]}
    if c["form"] in ("i_m", "d_m"):
        kw["m"] = c["m"]
    if c["via"] == "Interest":
        return F, call(f"Interest({kw})", lambda: am.Interest(**kw))
    obj = {"Life": am.Life, "LifeTable": am.LifeTable, "Reserves": am.Reserves}[c["via"]]()
    r = call(f"set_interest({kw})", lambda: obj.set_interest(**kw))
    if r is not obj:
        fail("set_interest must return the object itself")
    return F, obj.interest


def check_forms(c):
    F, I = mk(c)
    for k in ("i", "d", "v", "delta"):
        eq(f"{k} of Interest given {c['form']}", getattr(I, k), F[k], 1e-9, 2e-12 if c["delta"] else 1e-15)
    for t in c["ts"]:
        eq(f"v_t({t})", call("v_t", I.v_t, t), math.exp(-c["delta"] * t), 1e-9, 1e-12)
    eq("v_t(0)", call("v_t", I.v_t, 0), 1.0)
    eq("(1+i)v", (1 + I.i) * I.v, 1.0, 1e-12)
    eq("d = iv", I.d, I.i * I.v, 1e-9, 1e-12)
    return c["delta"] > 0


def case_conv(tier):
    return st.fixed_dictionaries({"delta": force, "m": st.sampled_from([1, 2, 4, 12, 52, 365]) | st.integers(1, 400),
                                  "n": st.integers(1, 12)})


def check_conv(c):
    F, m = forms(c["delta"], c["m"]), c["m"]
    G = am.Interest.mthly
    a = dict(rtol=1e-8, atol=1e-12)
    eq(f"mthly(m={m}, i)", num("mthly i", G, m=m, i=F["i"]), F["i_m"], **a)
    eq(f"mthly(m={m}, d)", num("mthly d", G, m=m, d=F["d"]), F["d_m"], **a)
    eq(f"mthly(m={m}, i_m)", num("mthly i_m", G, m=m, i_m=F["i_m"]), F["i"], **a)
    eq(f"mthly(m={m}, d_m)", num("mthly d_m", G, m=m, d_m=F["d_m"]), F["d"], **a)
    eq("mthly(m=0, i) is the force", num("mthly", G, m=0, i=F["i"]), c["delta"], **a)
    eq("mthly(m=0, d) is the force", num("mthly", G, m=0, d=F["d"]), c["delta"], **a)
    # round trip through a different object, ordering d <= d_m <= delta <= i_m <= i
    im, dm = G(m=m, i=F["i"]), G(m=m, d=F["d"])
    between("d^(m)", dm, F["d"], c["delta"], 1e-10)
    between("i^(m)", im, c["delta"], F["i"], 1e-10)
    eq("round trip i", num("mthly", G, m=m, i_m=im), F["i"], **a)
    eq("round trip d", num("mthly", G, m=m, d_m=dm), F["d"], **a)
    return c["delta"] > 0 and m >= 2


def check_double(c):
    F, F2 = forms(c["delta"], 1), forms(2 * c["delta"], 1)
    for k in ("i", "d", "v", "delta"):
        got = num(f"double_force({k})", am.Interest.double_force, **{k: F[k]})
        eq(f"double_force({k}={F[k]})", got, F2[k], 1e-10, 1e-13)
    # repeated doubling, and squaring of the discount factor
    x, n = F["i"], 0
    while n < c["n"] and c["delta"] * 2**n < 3:
        x = num("double_force", am.Interest.double_force, i=x)
        n += 1
    eq(f"{n} doublings", x, math.expm1(c["delta"] * 2**n), 1e-9, 1e-12)
    A, B = am.Interest(i=F["i"]), am.Interest(i=F2["i"])
    for t in (1, c["n"]):
        eq("v_t at doubled force", B.v_t(t), A.v_t(t)**2, 1e-9)
    return c["delta"] > 0


def case_vt(tier):
    return st.fixed_dictionaries({"k": st.sampled_from(["power", "twostep", "exp"]), "a": rnd(0.01, 0.3, 2),
                                  "b": rnd(0.01, 0.3, 2), "ts": st.lists(rnd(0, 60, 2), min_size=1, max_size=5),
                                  "bad": st.booleans()})


def check_vt(c):
    a, b = c["a"], c["b"]
    fn = {"power": lambda t: (1 + a * t)**-2, "exp": lambda t: math.exp(-a * t),
          "twostep": lambda t: math.exp(-a * min(t, 5) - b * max(t - 5, 0))}[c["k"]]
    I = call("Interest(v_t)", lambda: am.Interest(v_t=fn))
    for t in c["ts"]:
        eq(f"v_t({t})", call("v_t", I.v_t, t), fn(t), 1e-12)
    if c["bad"]:
        try:
            am.Interest(v_t=lambda t: 0.9 * fn(t))
        except Exception:
            pass
        else:
            fail("a discount function with v_t(0) != 1 must be rejected")
    try:
        am.Interest()
    except Exception:
        return True
    fail("an Interest without any rate must be rejected")


SUBS = [Sub("forms", case_forms, check_forms, 1200, what="every form of the same rate yields the same i,d,v,delta,v_t"),
        Sub("mthly", case_conv, check_conv, 1500, what="m'thly conversions, round trips, ordering"),
        Sub("double", case_conv, check_double, 800, what="doubling the force of interest in each form"),
        Sub("vt", case_vt, check_vt, 300, what="discount functions are used as given, v_t(0)=1 enforced")]
