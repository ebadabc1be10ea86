"""C02 annuity-certain = sum of its discounted payments."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd
import actuarialmath as am

RULE = ("cases draw a rate (0 included), the form it is given in, a term (or a perpetuity), a payment frequency and timing; "
        "non-trivial = positive rate and at least two payments")
ASSUMPTIONS = ["term times frequency is an integer; perpetuities only at positive interest"]


FORMS = ["i", "d", "v", "delta", "i_m", "d_m"]
DELTA = st.one_of(rnd(0.001, 0.5, 3), rnd(0.001, 0.5, 3), rnd(0.001, 0.1, 3), st.sampled_from([0., 0., 1e-5, 1e-4, 1., 2.5]))
M = st.sampled_from([0, 1, 1, 2, 4, 12]) | st.integers(1, 60) | st.sampled_from([52, 365])


def strat(tier):
    return st.fixed_dictionaries({
        "delta": DELTA, "t": st.integers(0, 60) | st.sampled_from([100, 150]), "part": st.integers(0, 11), "perp": st.sampled_from([False, False, True]),
        "m": M, "due": st.booleans(), "form": st.sampled_from(FORMS), "k": st.sampled_from([1, 2, 12]), "neg": st.sampled_from([-1, -999, -5])})


def mk(delta, form, k=4):
    kw = {form: {"i": math.expm1(delta), "d": -math.expm1(-delta), "v": math.exp(-delta), "delta": delta, "i_m": k * math.expm1(delta / k), "d_m": -k * math.expm1(-delta / k)}[form]}
    if form in ("i_m", "d_m"):
        kw["m"] = k
    return am.Interest(**kw)


def ref(delta, t, m, due):
    if m == 0:
        return t if delta == 0 else -math.expm1(-delta * t) / delta
    return math.fsum(math.exp(-delta * (k + (0 if due else 1)) / m) / m for k in range(round(t * m)))


def check(c):
    I = call("Interest", mk, c["delta"], c["form"], c["k"])
    d, t, m, due = c["delta"], c["t"], c["m"], c["due"]
    if m != 1:      # part of a year: a whole number of payments, or any time if continuous
        t += c["part"] / 12 if m == 0 else (c["part"] % m) / m
    tol = 1e-8 + 3e-14 * max(m, 1) / d if d else 1e-8
    if c["perp"] and d > 0:
        got = num(f"annuity(perpetuity,m={m},due={due})", I.annuity, t=c["neg"], m=m, due=due)
        want = 1 / d if m == 0 else 1 / (-m * math.expm1(-d / m)) * (1 if due else math.exp(-d / m))
        eq(f"perpetuity m={m} due={due}", got, want, tol)
        return True
    got = num(f"annuity(t={t},m={m},due={due})", I.annuity, t=t, m=m, due=due)
    eq(f"annuity(t={t},m={m},due={due}) at delta={d}", got, ref(d, t, m, due), tol, 1e-9)
    if m and t:   # accumulation: paying one period earlier
        a, b = (num("annuity", I.annuity, t=t, m=m, due=z) for z in (True, False))
        eq("due = immediate x (1+i)^(1/m)", a, b * math.exp(d / m), tol)
        eq("due = 1/m + immediate - last", a, b + (1 - math.exp(-d * t)) / m, tol, 1e-9)
    return d > 0 and t * max(m, 1) >= 2


def strat_split(tier):
    return st.fixed_dictionaries({"delta": rnd(0.001, 0.4, 3) | st.just(0.), "t": st.integers(0, 40), "u": st.integers(0, 40), "part": st.integers(0, 11), "part2": st.integers(0, 11),
                                  "m": st.integers(0, 24), "due": st.booleans(), "form": st.sampled_from(FORMS)})


def check_split(c):
    I = call("Interest", mk, c["delta"], c["form"])
    m = c["m"]
    k = dict(m=m, due=c["due"])
    A = lambda t: num(f"annuity({t})", I.annuity, t=t, **k)
    t, u = c["t"], c["u"]
    if m != 1:
        t, u = (z + (p / 12 if m == 0 else (p % m) / m) for z, p in ((t, c["part"]), (u, c["part2"])))
    eq(f"a({t}+{u}) = a({t}) + v^{t} a({u})", A(t + u), A(t) + I.v_t(t) * A(u), 1e-9, 1e-9)
    if c["delta"] == 0:
        return t > 0 and u > 0
    p = num("perp", I.annuity, m=c["m"], due=c["due"])
    if A(t) > p + 1e-9:
        fail("a finite annuity exceeds the perpetuity")
    eq("perpetuity = a(t) + v^t perpetuity", p, A(t) + I.v_t(t) * p, 1e-9, 1e-9)
    return t > 0 and u > 0


SUBS = [Sub("certain", strat, check, 2500, what="annuity = sum of discounted payments"),
        Sub("split", strat_split, check_split, 1000, what="splitting at any time; perpetuity as the limit")]
