"""Contracts for the policy-value checks: strategies, builders and first-principles cash flows."""
import math
from hypothesis import strategies as st
from . import ref
from .zoo import rnd
from .harness import call

FIELDS = ("premium", "benefit", "endowment", "settlement_policy", "initial_policy", "initial_premium", "renewal_policy", "renewal_premium")


@st.composite
def contract(draw, endow=True):
    scale = draw(st.sampled_from([1, 1, 100, 10000]))
    exp = draw(st.booleans())
    c = {"benefit": scale * draw(st.sampled_from([1, 1, 2]) | rnd(0.5, 5, 1)), "premium": scale * draw(rnd(0.001, 0.5, 3)),
         "settlement_policy": 0., "initial_policy": 0., "initial_premium": 0., "renewal_policy": 0., "renewal_premium": 0., "endowment": 0.}
    if exp:
        c["settlement_policy"] = scale * draw(st.sampled_from([0, 0]) | rnd(0.01, 0.3, 2))
        c["initial_policy"] = scale * draw(rnd(0, 0.1, 3))
        c["renewal_policy"] = scale * draw(rnd(0, 0.02, 3))
        c["initial_premium"] = draw(rnd(0, 1, 2))
        c["renewal_premium"] = draw(rnd(0, 0.3, 2))
    if endow:
        k = draw(st.integers(0, 3))
        c["endowment"] = {0: 0., 1: c["benefit"] + c["settlement_policy"]}.get(k, scale * draw(rnd(0.1, 3, 1)))
    return {k: round(v, 6) for k, v in c.items()}


def make(c, **kw):
    import actuarialmath as am
    return call("Contract", lambda: am.Contract(**{k: c[k] for k in FIELDS if k in c}, **kw))


def claims(c):
    return c["benefit"] + c["settlement_policy"]


def profit(c):
    return c["premium"] * (1 - c["renewal_premium"]) - c["renewal_policy"]


def initial(c):
    return (c["initial_policy"] - c["renewal_policy"]) + c["premium"] * (c["initial_premium"] - c["renewal_premium"])


def loss(c, v, n, disc, t0=0):
    """PV at time t0 of claims and expenses less premiums, by time of death z after t0 (n: remaining term or None)"""
    def L(z):
        ini = initial(c) if t0 == 0 else 0.
        if disc:
            k = math.floor(z)
            if n is not None and k >= n:
                return c["endowment"] * v**n + ini - profit(c) * ref.annsum(v, n)
            return claims(c) * v**(k + 1) + ini - profit(c) * ref.annsum(v, k + 1)
        if n is not None and z >= n:
            return c["endowment"] * v**n + ini - profit(c) * ref.annsum(v, n, False)
        return claims(c) * v**z + ini - profit(c) * ref.annsum(v, z, False)
    return L


def moments(R, x, s, L, n, disc):
    """mean and variance of L(T) (deaths within n, else the value on survival)"""
    e = R.end(x, s)
    if disc:
        N = math.ceil(e - 1e-9) if n is None else n
        w = [(R.S(x, s, k) - R.S(x, s, k + 1), L(k)) for k in range(N)]
        if n is not None:
            w.append((R.S(x, s, n), L(n)))
        elif w:
            w.append((R.S(x, s, N), L(N)))
        m = math.fsum(p * y for p, y in w)
        return m, math.fsum(p * (y - m)**2 for p, y in w)
    hi = e if n is None else min(e, n)
    tail = R.S(x, s, n) if n is not None else 0.
    end = L(n) if n is not None else 0.
    m = R.integrate(lambda z: L(z) * R.f(x, s, z), x, s, 0, hi) + tail * end
    return m, R.integrate(lambda z: (L(z) - m)**2 * R.f(x, s, z), x, s, 0, hi) + tail * (end - m)**2
