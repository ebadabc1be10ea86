"""C32 numerical primitives deliver what they promise."""
import math
from hypothesis import strategies as st
from lib.harness import *
from lib.zoo import rnd, table, select, qdict, seldict, law
from lib import ref
import actuarialmath as am

RULE = ("solve: cases draw a smooth monotone function (linear, exponential, power, reciprocal, logarithm, annuity value of a rate, survival function; increasing or decreasing, any "
        "scale), its root, and a guess near the root, a bracket (tuple or list, either order, integers or floats) around it, next to it, or the minimising solver; calculus: cases draw a "
        "function with a known derivative and integral; models: cases solve for interest, premium or mortality inside a model; terms: cases draw terms, ages and a model's age range; "
        "non-trivial = the root is not an end of the bracket nor the guess, the interval is not empty, the term is capped or whole life respectively")
ASSUMPTIONS = ["functions are smooth and strictly monotone on the bracket; a single guess is within a few widths of the curvature scale", "derivatives use points up to 1 away: functions vary slowly on that scale",
               "integrands decay or oscillate on a scale of a year or more"]
amt = st.sampled_from([1, -1, 1, -1, 10, -10, 1000, -1000, .01]) | rnd(.1, 20, 1)


@st.composite
def s_fun(draw):
    k = draw(st.sampled_from(["lin", "exp", "pow", "inv", "log", "ann", "surv", "cubic"]))
    d = {"k": k, "a": draw(rnd(-50, 50, 1)), "b": draw(amt)}
    if k == "exp":
        d["c"] = draw(rnd(.01, .3, 2)) * draw(st.sampled_from([1, -1]))
    if k == "pow":
        d["c"] = draw(st.sampled_from([.5, 1.5, 2, 3, -1, -2]))
    if k in ("inv", "log"):
        d["c"] = draw(rnd(1, 30, 1))
    if k == "ann":
        d["c"] = draw(st.integers(2, 40))
    if k == "surv":
        d["c"] = draw(rnd(1.05, 1.15, 2))
    # natural range of the root
    lo, hi = {"lin": (-100, 100), "exp": (-10, 10), "pow": (.5, 50), "inv": (0, 100), "log": (0, 100), "ann": (.005, .5), "surv": (1, 80), "cubic": (-20, 20)}[k]
    d["root"] = draw(rnd(lo, hi, 3))
    d["lo"], d["hi"] = lo, hi
    return d


def fun(d):
    a, b, c = d["a"], d["b"], d.get("c")
    return {"lin": lambda x: a + b * x, "exp": lambda x: a + b * math.exp(c * x), "pow": lambda x: a + b * x ** c, "inv": lambda x: a + b / (x + c), "log": lambda x: a + b * math.log(x + c),
            "ann": lambda x: a + b * (1 - (1 + x) ** (-c)) / x, "surv": lambda x: a + b * math.exp(-.0005 * (c ** x - 1) / math.log(c)), "cubic": lambda x: a + b * (x ** 3 + 10 * x)}[d["k"]]


@st.composite
def s_solve(draw, tier="quick"):
    d = draw(s_fun())
    r, lo, hi = d["root"], d["lo"], d["hi"]
    how = draw(st.sampled_from(["guess", "bracket", "bracket", "beside", "mad"]))
    if how == "mad" and d["k"] not in ("lin", "exp", "cubic"):
        how = "bracket"         # the minimiser may leave the bracket: only functions defined everywhere
    if how == "guess" or how == "beside" and d["k"] in ("pow", "inv", "log", "ann", "surv"):
        near = (1 + draw(rnd(-.3, .3, 2))) if d["k"] != "lin" else 1
        off = draw(rnd(-50, 50, 1)) if d["k"] == "lin" else draw(rnd(-2, 2, 1)) if d["k"] in ("exp", "cubic") else 0
        g = r * near + off
        grid, how = max(lo, min(hi, g)) if d["k"] not in ("lin", "exp", "cubic") else g, "guess"
        if draw(st.booleans()) and d["k"] in ("lin", "exp", "cubic"):
            grid = int(round(grid))
    elif how in ("bracket", "mad"):
        below, above = draw(rnd(0, 1, 3)), draw(rnd(0, 1, 3))
        grid = [r - below * (r - lo), r + above * (hi - r)]
        if d["k"] in ("lin", "cubic", "exp") and draw(st.booleans()):
            grid = [math.floor(grid[0]), math.ceil(grid[1])]
    else:
        w = draw(rnd(.5, 3, 1))
        e = r + draw(rnd(.01, 1, 2)) * draw(st.sampled_from([1, -1]))
        grid = [e, e + w if e > r else e - w]
    if isinstance(grid, list):
        if draw(st.booleans()):
            grid = grid[::-1]
        if draw(st.integers(0, 4)) == 0 and how == "bracket":     # a list of guesses
            grid = [grid[0], (grid[0] + grid[1]) / 2, grid[1]]
    return {"f": d, "how": how, "grid": grid, "tuple": draw(st.booleans())}


def check_solve(c):
    d, how, grid = c["f"], c["how"], c["grid"]
    f, r = fun(d), d["root"]
    target = f(r)
    if isinstance(grid, list):
        if max(grid) - min(grid) < 1e-3:
            return False
        if c["tuple"]:
            grid = tuple(grid)
    h_ = 1e-4
    slope = abs(f(r + h_) - f(r - h_)) / (2 * h_) if d["k"] != "pow" or r > 1 else abs(f(r + h_) - f(r)) / h_
    if slope < 1e-7 * max(1, abs(target)) or d["k"] == "surv" and slope < 1e-4 * abs(d["b"]):
        return False            # the target does not determine the root
    calls = []

    def g(x):
        calls.append(float(x if not hasattr(x, "__len__") else x[0]))
        return f(x)
    x = num(f"solve({d['k']}, target={target}, grid={grid}, {how})", am.Actuarial.solve, fun=g, target=target, grid=grid, **({"mad": True} if how == "mad" else {}))
    lab = f"solve {d['k']} a={d['a']} b={d['b']} c={d.get('c')} root {r} {how} {grid}"
    tol = 1e-5 if how == "mad" else 1e-6
    eq(f"{lab}: value at the solution", f(x), target, 0, (tol * max(1, abs(r)) * slope + 1e-9 * max(1, abs(target))) * 3)
    if how != "mad":
        eq(f"{lab}: the function was last called at the solution", calls[-1], x, 0, 0)
    return abs(x - r) < 1e-3 * max(1, abs(r)) and (isinstance(grid, (int, float)) and abs(grid - r) > 1e-3 or not isinstance(grid, (int, float)) and min(abs(z - r) for z in grid) > 1e-3)


@st.composite
def s_calc(draw, tier="quick"):
    k = draw(st.sampled_from(["poly", "exp", "sin", "makeham", "power"]))
    d = {"k": k, "x": draw(rnd(2, 60, 2) | st.integers(2, 60)), "lo": draw(rnd(0, 20, 2) | st.integers(0, 20)), "len": draw(rnd(0, 5, 2) | rnd(0, 200, 1) | st.integers(0, 100)), "flip": draw(st.integers(0, 5)) == 0,
         "inf": draw(st.integers(0, 7)) == 0}
    if k == "poly":
        d["co"] = [draw(rnd(-3, 3, 1)) for _ in range(draw(st.integers(1, 5)))]
    if k == "exp":
        d["c"] = draw(rnd(.01, .5, 2)) * draw(st.sampled_from([1, -1, -1]))
    if k == "sin":
        d["c"] = draw(rnd(.05, .6, 2))
    if k == "makeham":
        d["B"], d["c"] = draw(rnd(.0001, .003, 4)), draw(rnd(1.05, 1.13, 2))
    if k == "power":
        d["c"] = draw(st.sampled_from([-1, -2, -.5, .5, 1.5]))
    return d


def triple(d):
    """function, derivative, antiderivative"""
    k, c = d["k"], d.get("c")
    if k == "poly":
        co = d["co"]
        return (lambda x: sum(a * x ** n for n, a in enumerate(co)), lambda x: sum(n * a * x ** (n - 1) for n, a in enumerate(co) if n), lambda x: sum(a * x ** (n + 1) / (n + 1) for n, a in enumerate(co)))
    if k == "exp":
        return lambda x: math.exp(c * x), lambda x: c * math.exp(c * x), lambda x: math.exp(c * x) / c
    if k == "sin":
        return lambda x: math.sin(c * x), lambda x: c * math.cos(c * x), lambda x: -math.cos(c * x) / c
    if k == "makeham":        # density of a Gompertz lifetime
        B = d["B"]
        g = lambda x: B / math.log(c) * (math.exp(min(x * math.log(c), 690)) - 1)
        mu = lambda x: B * math.exp(min(x * math.log(c), 690))
        S = lambda x: math.exp(-g(x)) if g(x) < 700 else 0.
        return lambda x: mu(x) * S(x), lambda x: (math.log(c) - mu(x)) * mu(x) * S(x), lambda x: -S(x)
    p = c
    return lambda x: (x + 8) ** p, lambda x: p * (x + 8) ** (p - 1), lambda x: (x + 8) ** (p + 1) / (p + 1) if p != -1 else math.log(x + 8)


def check_calc(d):
    f, df, F = triple(d)
    x, lo, hi = d["x"], d["lo"], d["lo"] + d["len"]
    if d["k"] == "exp" and d["c"] > 0:
        hi = min(hi, 50)
        lo = min(lo, hi)
        x = min(x, 30)
    m = max(abs(f(x + j / 4)) for j in range(-4, 5))
    if not (d["k"] == "makeham" and d["B"] * d["c"] ** (x + 1) > .5):
        eq(f"derivative of {d['k']} {d.get('co', d.get('c'))} at {x}", call("derivative", am.Actuarial.derivative, f, x), df(x), 2e-6, 3e-7 * m)
    if d["inf"] and (d["k"] == "makeham" or d["k"] == "exp" and d["c"] < 0 or d["k"] == "power" and d["c"] < -1):
        hi = math.inf
        want = -F(lo) if d["k"] != "makeham" else -F(lo)
    else:
        want = F(hi) - F(lo)
    size = abs(want) if d["k"] not in ("poly", "sin") else sum(abs(a) * hi ** (n + 1) for n, a in enumerate(d.get("co", [])))
    if d["k"] == "sin":
        size = hi - lo
    label = f"integral of {d['k']} {d.get('co', d.get('c'))} over [{lo},{hi}]"
    if d["flip"] and hi < math.inf:
        eq(f"{label} reversed", call(label, am.Actuarial.integral, f, lower=hi, upper=lo), -want, 1e-5, 1e-7 + 1e-7 * size)
    eq(label, call(label, am.Actuarial.integral, f, lower=lo, upper=hi), want, 1e-6, 1e-8 + 1e-8 * size)
    if lo < hi < math.inf:
        mid = lo + (hi - lo) * .37
        a, b = am.Actuarial.integral(f, lower=lo, upper=mid), am.Actuarial.integral(f, lower=mid, upper=hi)
        eq(f"{label} = sum of its parts", a + b, want, 1e-6, 1e-8 + 1e-8 * size)
    return hi - lo > 1


@st.composite
def s_model(draw, tier="quick"):
    t = draw(table(minlen=5, maxlen=15))
    return {"t": t, "what": draw(st.sampled_from(["interest", "premium", "benefit", "expense", "force", "omega"])), "i": draw(rnd(.01, .15, 3)), "P": draw(rnd(.05, .9, 2)), "k": draw(st.integers(0, 2)),
            "lo": draw(rnd(.1, .9, 1)), "hi": draw(rnd(1.1, 3, 1)), "guess": draw(st.booleans()), "mu": draw(rnd(.005, .1, 3)), "B": draw(st.sampled_from([1, 1000]))}


def check_model(c):
    """solve for a parameter of a model; the last call leaves the model at the solution"""
    t, w, i, B = c["t"], c["what"], c["i"], c["B"]
    x = t["x0"] + c["k"]
    life = am.LifeTable(udd=t["udd"]).set_table(q=qdict(t)).set_interest(i=i)
    grid = lambda r: r * min(c["hi"], 1.3) if c["guess"] else (r * c["lo"], r * c["hi"])
    solve = lambda f, target, r: num(f"solve for {w}", life.solve, f, target=target, grid=grid(r))
    if w == "interest":
        want = life.whole_life_annuity(x, b=B)
        r = solve(lambda z: life.set_interest(i=float(z)).whole_life_annuity(x, b=B), want, i)
        eq("solved interest", r, i, 1e-5, 1e-7)
        eq("interest left in the model", life.interest.i, r, 1e-12, 1e-12)
        eq("value at the solution", life.whole_life_annuity(x, b=B), want, 1e-6)
    elif w in ("premium", "benefit", "expense"):
        con = am.Contract(premium=c["P"] * B, benefit=B, initial_policy=.1 * B, renewal_premium=.05)
        base = {"premium": c["P"] * B, "benefit": B, "expense": .1 * B}[w]
        attr = {"premium": "premium", "benefit": "benefit", "expense": "initial_policy"}[w]
        target = life.gross_policy_value(x, contract=con)
        r = solve(lambda z: life.gross_policy_value(x, contract=con.set_contract(**{attr: float(z)})), target, base)
        eq(f"solved {w}", r, base, 1e-6, 1e-7 * B)
        eq("contract left at the solution", getattr(con, attr), r, 1e-12, 1e-12)
    elif w == "force":
        target = am.ConstantForce(mu=c["mu"]).set_interest(i=i).whole_life_insurance(x, discrete=False)
        r = solve(lambda z: am.ConstantForce(mu=float(z)).set_interest(i=i).whole_life_insurance(x, discrete=False), target, c["mu"])
        eq("solved force", r, c["mu"], 1e-5, 1e-8)
    else:
        om = x + 20 + 50 * c["P"]
        target = am.Uniform(om).e_x(x, curtate=False)
        r = num("solve for omega", life.solve, lambda z: am.Uniform(float(z)).e_x(x, curtate=False), target=target, grid=om + 5 if c["guess"] else (om - 10, om + 30))
        eq("solved omega", r, om, 1e-6)
    return True


@st.composite
def s_terms(draw, tier="quick"):
    W = am.Actuarial.WHOLE
    return {"a": draw(st.integers(-5, 60) | st.just(W)), "b": draw(st.integers(-5, 60) | st.just(W)), "maxage": draw(st.sampled_from([None, 100, 120]) | st.integers(10, 130)), "x": draw(st.integers(0, 90)),
            "t": draw(st.integers(0, 130) | st.just(W)), "u": draw(st.integers(0, 20)), "kind": draw(st.sampled_from(["plain", "base", "table", "select", "law", "sult", "rec", "uniform"])),
            "q": draw(table(maxlen=30)), "sel": draw(select(terminal=True)), "r": draw(rnd(-2, 2, 3)), "z": draw(st.sampled_from([0, 1, .5, 40, 1e4])), "tiny": draw(st.sampled_from([0, 1e-9, 5e-7, -5e-7, 2e-6, -1e-5, 1e-3, .5]))}


def check_terms(c):
    A = am.Actuarial()
    W = A.WHOLE
    a, b, x, t, u = c["a"], c["b"], c["x"], c["t"], c["u"]
    want = W if W in (a, b) else a + b
    same(f"add_term({a},{b})", call("add_term", A.add_term, a, b), want)
    same(f"add_term({b},{a})", call("add_term", A.add_term, b, a), want)
    k = c["kind"]
    if k == "plain":
        o, top = A, 100
    elif k == "base":
        kw = {} if c["maxage"] is None else {"maxage": c["maxage"]}
        o, top = am.Reserves().set_survival(S=lambda x, s, t: math.exp(-.01 * t), **kw), c["maxage"] or 1000
    elif k == "table":
        o = am.LifeTable().set_table(q=qdict(c["q"]))
        top = c["q"]["x0"] + len(c["q"]["q"])
        x = max(x, c["q"]["x0"])
    elif k == "select":
        o = am.SelectLife().set_table(q=seldict(c["sel"]))
        top = c["sel"]["x0"] + len(c["sel"]["rows"]) - 1 + len(c["sel"]["rows"][0])
    elif k == "law":
        o, top = am.Makeham(A=.0002, B=.00001, c=1.1), 1000
        top = o._MAXAGE
    elif k == "uniform":
        o, top = am.Uniform(80 + u), 80 + u
    elif k == "sult":
        o, top = am.SULT(maxage=120 + u % 11), 120 + u % 11
    else:
        o, top = am.Recursion(verbose=False), None
        top = o._MAXAGE
    if x + u > top:
        u = 0
    if x > top:
        return False
    left = top - x - u
    want = left if t < 0 or t > left else t
    same(f"{k}.max_term(x={x},t={t},u={u}) oldest age {top}", call("max_term", o.max_term, x, t, u), want)
    if u == 0:
        same(f"{k}.max_term(x={x},t={t})", call("max_term", o.max_term, x, t), want)
    r, z, d = c["r"], c["z"], c["tiny"]
    same(f"isclose({z + d},{z})", call("isclose", A.isclose, z + d, z), abs((z + d) - z) <= max(1e-6, 1e-9 * max(abs(z + d), abs(z))))
    same(f"isclose({r})", call("isclose", A.isclose, r), abs(r) <= 1e-6)
    return t < 0 or t > left


SUBS = [Sub("solve", lambda tier: s_solve(), check_solve, 3000, what="roots of monotone functions by guess, bracket and minimisation"),
        Sub("calculus", lambda tier: s_calc(), check_calc, 1500, what="derivative and integral vs exact ones, reversed and split intervals"),
        Sub("models", lambda tier: s_model(), check_model, 500, what="solving for interest, premium, benefit, expense, force, limiting age; state left at the solution"),
        Sub("terms", lambda tier: s_terms(), check_terms, 800, what="add_term, max_term on every kind of model, isclose")]
