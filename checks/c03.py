"""C03 probability helpers agree with the distributions they describe."""
import math
from statistics import NormalDist
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd
import actuarialmath as am

RULE = ("cases draw probabilities, amounts, counts and moments; the oracle enumerates the probability mass function (N <= 40) or uses "
        "the closed moments, and an independent normal distribution; non-trivial = no probability is 0 or 1 and N >= 2 (or variance > 0)")
ASSUMPTIONS = ["variances passed to the normal approximation are positive"]
prob = rnd(0, 1, 3)
amt = rnd(-50, 1000, 2)
CLS = ["Life", "LifeTable", "Insurance", "Reserves"]


def pmf(N, p):
    return [math.comb(N, k) * p**k * (1 - p)**(N - k) for k in range(N + 1)]


def moments(vals, ps):
    m = math.fsum(v * p for v, p in zip(vals, ps))
    return m, math.fsum((v - m)**2 * p for v, p in zip(vals, ps))


def s_bern(tier):
    return st.fixed_dictionaries({"p": prob, "a": amt, "b": amt, "default": st.booleans(), "cls": st.sampled_from(CLS)})


def c_bern(c):
    L = getattr(am, c["cls"])
    kw = {} if c["default"] else dict(a=c["a"], b=c["b"])
    a, b = (1, 0) if c["default"] else (c["a"], c["b"])
    m, v = moments([a, b], [c["p"], 1 - c["p"]])
    eq("bernoulli mean", num("bernoulli", L.bernoulli, c["p"], **kw), m, 1e-10, 1e-9)
    eq("bernoulli variance", num("bernoulli", L.bernoulli, c["p"], variance=True, **kw), v, 1e-10, 1e-8)
    return 0 < c["p"] < 1 and a != b


def s_binom(tier):
    return st.fixed_dictionaries({"p": prob, "p1": prob, "p2": prob, "N": st.integers(1, 40) | st.sampled_from([100, 2000, 100000]),
                                  "cls": st.sampled_from(CLS)})


def bm(N, p):
    return moments(range(N + 1), pmf(N, p)) if N <= 40 else (N * p, N * p * (1 - p))


def c_binom(c):
    L, N = getattr(am, c["cls"]), c["N"]
    m, v = bm(N, c["p"])
    eq("binomial mean", num("binomial", L.binomial, c["p"], N), m, 1e-9, 1e-9)
    eq("binomial variance", num("binomial", L.binomial, c["p"], N, variance=True), v, 1e-9, 1e-9)
    if N <= 40:
        mix = [c["p"] * a + (1 - c["p"]) * b for a, b in zip(pmf(N, c["p1"]), pmf(N, c["p2"]))]
        M, V = moments(range(N + 1), mix)
    else:
        (m1, v1), (m2, v2) = bm(N, c["p1"]), bm(N, c["p2"])
        M = c["p"] * m1 + (1 - c["p"]) * m2
        V = c["p"] * v1 + (1 - c["p"]) * v2 + c["p"] * (1 - c["p"]) * (m1 - m2)**2
    t = dict(rtol=1e-7, atol=1e-8 * (1 + N**2 * 1e-6))
    eq("mixture mean", num("mixture", L.mixture, c["p"], c["p1"], c["p2"], N), M, **t)
    eq("mixture variance", num("mixture", L.mixture, c["p"], c["p1"], c["p2"], N, variance=True), V, **t)
    eq("conditional variance", num("cv", L.conditional_variance, c["p"], c["p1"], c["p2"], N), V, **t)
    if N == 1:
        eq("mixture default N", num("mixture", L.mixture, c["p"], c["p1"], c["p2"]), M, **t)
        eq("conditional variance default N", num("cv", L.conditional_variance, c["p"], c["p1"], c["p2"]), V, **t)
    return N >= 2 and 0 < c["p"] < 1 and c["p1"] != c["p2"]


def s_cov(tier):
    return st.fixed_dictionaries({"w": st.tuples(amt, amt), "pts": st.lists(st.tuples(rnd(-20, 20, 1), rnd(-20, 20, 1), st.integers(1, 9)),
                                                                            min_size=1, max_size=6), "cls": st.sampled_from(CLS)})


def c_cov(c):
    L = getattr(am, c["cls"])
    tot = sum(p[2] for p in c["pts"])
    E = lambda f: math.fsum(f(a, b) * k / tot for a, b, k in c["pts"])
    ea, eb, eab = E(lambda a, b: a), E(lambda a, b: b), E(lambda a, b: a * b)
    va, vb = E(lambda a, b: (a - ea)**2), E(lambda a, b: (b - eb)**2)
    cov = num("covariance", L.covariance, a=ea, b=eb, ab=eab)
    eq("covariance of a joint law", cov, E(lambda a, b: (a - ea) * (b - eb)), 1e-8, 1e-7)
    wa, wb = c["w"]
    m = wa * ea + wb * eb
    want = E(lambda a, b: (wa * a + wb * b - m)**2)
    eq("variance of a weighted sum", num("variance", L.variance, a=wa, b=wb, var_a=va, var_b=vb, cov_ab=cov), want, 1e-8,
       1e-7 * (1 + wa * wa + wb * wb))
    return len({p[:2] for p in map(tuple, c["pts"])}) > 1


def s_port(tier):
    return st.fixed_dictionaries({"mean": amt, "var": rnd(0.01, 5000, 2), "unit": st.sampled_from([1, 1, 1, 1e-3, 1e-6, 1e4]), "prob": rnd(0.001, 0.999, 3), "prob2": rnd(0.001, 0.999, 3),
                                  "N": st.integers(1, 20) | st.sampled_from([100, 600, 10000]), "cls": st.sampled_from(CLS)})


def c_port(c):
    L, N = getattr(am, c["cls"]), c["N"]
    c = dict(c, mean=c["mean"] * c["unit"], var=c["var"] * c["unit"] ** 2)
    nd = NormalDist(c["mean"] * N, math.sqrt(c["var"] * N))
    x = num("percentile", L.portfolio_percentile, c["mean"], c["var"], c["prob"], N)
    scale = nd.stdev
    eq("portfolio percentile", x, nd.inv_cdf(c["prob"]), 1e-8, 1e-7 * scale)
    eq("cdf of the percentile", num("cdf", L.portfolio_cdf, c["mean"], c["var"], x, N), c["prob"], 1e-7, 1e-9)
    v = nd.mean + scale * (c["prob2"] - 0.5) * 5
    eq("portfolio cdf", num("cdf", L.portfolio_cdf, c["mean"], c["var"], v, N), nd.cdf(v), 1e-7, 1e-9)
    y = num("percentile", L.portfolio_percentile, c["mean"], c["var"], c["prob2"], N)
    if (c["prob"] - c["prob2"]) * (x - y) < -1e-9:
        fail("percentiles are not monotone in probability")
    if N == 1:
        eq("percentile default N", num("pp", L.portfolio_percentile, c["mean"], c["var"], c["prob"]), x, 1e-12)
        eq("cdf default N", num("pc", L.portfolio_cdf, c["mean"], c["var"], v), nd.cdf(v), 1e-7, 1e-9)
    return N >= 2


def s_quant(tier):
    return st.fixed_dictionaries({"qs": st.lists(rnd(0.01, 0.999, 3), min_size=1, max_size=6, unique=True), "cls": st.sampled_from(CLS)})


def c_quant(c):
    L = getattr(am, c["cls"])
    tab = call("quantiles_frame", L.quantiles_frame, c["qs"])
    nd = NormalDist()
    cols, vals = list(tab.columns), list(tab.iloc[0])
    same("number of columns", len(cols), len(c["qs"]))
    for q, z, v in zip(c["qs"], cols, vals):
        eq(f"z of {q}", z, nd.inv_cdf(q), 0, 6e-4)
        eq(f"probability of {q}", v, q, 0, 6e-4)
    return len(c["qs"]) > 1


SUBS = [Sub("bernoulli", s_bern, c_bern, 500), Sub("binomial", s_binom, c_binom, 900, what="binomial, mixture, conditional variance vs pmf"),
        Sub("covariance", s_cov, c_cov, 500), Sub("portfolio", s_port, c_port, 900, what="percentile and cdf are inverse, equal the normal law"),
        Sub("quantiles", s_quant, c_quant, 150)]
