REACH = {
"C01": "the tests convert a handful of 5-10% rates; a conversion that is wrong at zero, at large m, for one of the six forms, or only in combination with a discount function shows over generated forms and round trips.",
"C02": "exam answers use annual finite annuities; payment sums over generated m, timing, zero rates and perpetuities, and splitting at any time, cover the other branches.",
"C03": "the probability mass function itself is enumerated, so any slip in a moment identity shows whatever the parameters; the normal quantile is an independent implementation.",
"C04": "which of S, f, l, mu the user gives decides which numerical derivation runs; tests give one or two of them at selection, generated forms at [x]+s reach each derivation with conditioning.",
"C05": "laws of probability are checked for all models and durations including past the table's end, where tests never go.",
"C06": "fractional code splits whole and fractional parts of start and duration; errors live at particular combinations (r over a year, durations across birthdays), which generated triples (s, r, t, u) hit.",
"C07": "expectations have shortcuts per class, per limit and per moment; each is compared with the summed definition for any limit, including 0, 1, fractional and past the end.",
"C08": "amounts other than 1, an endowment different from the benefit, second moments with deferral and select durations are combined at random; tests use unit amounts or one contract at a time.",
"C09": "integrals of generated laws and pieces against Gauss-Legendre; catches numerical integration that silently loses mass as well as wrong formulas.",
"C10": "time-varying and age-dependent benefit functions are arbitrary user code: which argument (age, time, deferral) they receive only shows with functions that depend on each.",
"C11": "variances are taken from the law of the payment stream itself, not from the twin identity the code uses.",
"C12": "inverses and percentiles have boundary conventions (floor/ceil, strict or weak) that tests do not straddle; generated probabilities and times do.",
"C13": "premium defaults (payment term, timing) are many; the equivalence equation is evaluated from first principles for each combination.",
"C14": "the balance equation itself is the oracle, so any expense item charged once too often, or at the wrong time, shows.",
"C15": "three shortcut formulas, two timings, amounts and terms; durations up to maturity on every model.",
"C16": "expenses, endowments and variances on [x]+s+t; initial expenses only at issue is a boundary at t=0.",
"C17": "the loss is a random variable: evaluated at generated times of death, inverted, and integrated over the whole lifetime distribution.",
"C18": "any known reserve in between, reserve-benefit policies and histories of set/fill calls on one object are a state space that fixed tests sample at a few points.",
"C19": "the two directions must meet at every fraction of the year under each fractional-age assumption.",
"C20": "values after year one are compared with the cash flows of the shifted policy for every type of policy and timing.",
"C21": "a reference closure of the definitional relations decides which cell subsets are sufficient; the library must complete exactly those, from any order of calls.",
"C22": "every displayed cell is recomputed for generated laws, ranges and rates (the tests read the default table).",
"C23": "as C21 for two-dimensional tables with insurances, annuities and expectations among the loaded entries; sufficiency is again decided by a reference closure.",
"C24": "closed formulas over wide parameter ranges, including zero interest, long terms, far deferrals, against integrals of the law.",
"C25": "every kind of extra risk at every duration and on whole columns, with no-risk identity.",
"C26": "payment-date sums with the fractional-age survival of an independent model, for every m, contract, moment and deferral.",
"C27": "exactness for uniform deaths is a strong differential oracle: no tolerance for approximation is needed.",
"C28": "the stated formula evaluated on independently summed annuities, with terms and force options in every combination.",
"C29": "the solver searches for derivations: a wrong rule shows only when the facts lead the search to it. Facts in random subsets and order of a hidden life drive the search over all its rules, and the hidden life knows every answer.",
"C30": "each stated rule is instantiated with exactly the facts it needs, so that only that rule can answer; histories compare answers alone and within sequences, printing on or off.",
"C31": "operation sequences on several live objects, against each query alone on a fresh object: aliasing, caches and class-level state only show in histories.",
"C32": "roots, derivatives and integrals known by construction over scales and brackets of every kind.",
"C33": "artists are read back from the axes (bars, curves, markers, legend text) and frames cell by cell.",
"C34": "every exam question uses a level rate, for which restarting the discount at a deferral or at the end of a term is harmless; generated discount functions that are not powers tell the two apart in every contract.",
"C35": "printed steps are parsed back into equations and evaluated on the life the facts came from; tests only look at answers, so a wrong label, term or moment in a step goes unnoticed.",
"C36": "tests write out most arguments; here each is left out, alone and with others, in every query, constructor, setter and fact, against a list of the documented values.",
"C37": "tests make no impossible requests; here each declared limit is approached from both sides, so that a refusal that is lost, or one that also refuses the nearest possible request, shows.",
}
