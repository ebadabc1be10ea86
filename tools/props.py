"""Property statements (source of properties.jsonl and MANIFEST.json; see gen.py)."""
ACT, INT, LIF, SUR, LTM, FRA = (f"src/actuarialmath/{n}.py" for n in
    ("actuarial", "interest", "life", "survival", "lifetime", "fractional"))
INS, ANN, PRE, POL, RES = (f"src/actuarialmath/{n}.py" for n in ("insurance", "annuity", "premiums", "policyvalues", "reserves"))
LTB, SEL, SUL, MLW, CFO, EXT, MTH, UDD, WOO, REC = (f"src/actuarialmath/{n}.py" for n in
    ("lifetable", "selectlife", "sult", "mortalitylaws", "constantforce", "extrarisk", "mthly", "udd", "woolhouse", "recursion"))

P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or [b for _, b in mech][:3], "hook_needed": False}})


prop("C01", "Every form of an interest rate describes the same rate",
     "Whichever one of i, d, v, delta, i^(m) or d^(m) an interest rate is given in, the effective rate, discount rate, discount factor, force and "
     "the discount function derived from it all describe the same rate (v=1/(1+i), d=iv, delta=log(1+i), v(t)=v^t), a zero rate included. Conversions to and "
     "from m-thly nominal rates (and the force as their limit) round-trip and are ordered d<=d(m)<=delta<=i(m)<=i, and doubling the force of interest "
     "in any form gives the rate whose discount factor is squared. A given discount function is used as given and must be 1 at time 0.",
     "all rates >= 0 (tiny and large), all m >= 1, every form, every time",
     "tests use a handful of rates such as 5%; the identities are over a continuum of rates, frequencies and forms",
     [INT], [("Interest.__init__ conversions", INT), ("Interest.mthly", INT), ("Interest.double_force", INT)])
prop("C02", "An annuity-certain is the sum of its discounted payments",
     "The value of an annuity-certain (due or immediate, annual, m-thly or continuous, finite or perpetual) equals the sum (or integral) of its discounted payments at every "
     "rate including zero, so it splits at any time into a shorter annuity plus the discounted remainder, and the due and immediate forms differ by one period's interest.",
     "all rates, terms, payment frequencies and timings",
     "tests evaluate a few closed-form values; the summation identity is over all terms, frequencies and rates",
     [INT], [("Interest.annuity", INT)])
prop("C03", "Probability helpers agree with the distributions they describe",
     "Means and variances of Bernoulli, binomial, mixture and conditional models and of weighted sums equal those of the distribution itself, whatever its parameters. "
     "For sums of independent risks the normal-approximation percentile and probability are inverse to each other, equal those of the normal law with the portfolio's mean and variance, "
     "and the quantile table lists normal quantiles.",
     "all probabilities, amounts, portfolio sizes and percentiles",
     "tests check single portfolios; inverse and moment laws range over all parameters",
     [LIF], [("Life.variance/covariance/bernoulli/binomial/mixture", LIF), ("Life.portfolio_percentile/portfolio_cdf", LIF)])
prop("C04", "Survival function, density, lives and force of mortality are one distribution",
     "Whether a survival model is given by its survival function, lifetime density, number of lives, force of mortality, or several of these, the survival and mortality probabilities "
     "(deferred included), densities, forces, lives and deaths it reports for [x]+s are those of the same distribution: f = S mu, mu = f/S, the density integrates to mortality, lives are proportional to survival. "
     "Conditioning on survival to [x]+s is respected by every form.",
     "all smooth survival laws and forms of giving them, select durations, ages and durations",
     "tests give each form for one or two laws and read one or two values",
     [SUR, LTM], [("Survival.set_survival", SUR), ("Lifetime.set_survival", LTM)])
prop("C05", "Annual survival and mortality probabilities obey the laws of probability",
     "In every mortality model (life table, lives or survival function, special law, select table, standard ultimate table) probabilities of survival from [x]+s lie in [0,1], do not increase with duration, "
     "complement mortality, satisfy p(t+u)=p(t)p(u) and u|t q = p(u) q(t), and equal those implied by the model's definition. "
     "Lives are proportional to survival and deaths are their decrements, also past the last age of the model.",
     "all models, tables, starting ages, select durations, durations and deferrals, including past the end of the table",
     "tests read sample probabilities of sample tables; the laws are over all tables and durations",
     [SUR, LTB, SEL, SUL, MLW], [("Survival.p_x/q_x/l_x/d_x", SUR), ("LifeTable.p_x/q_x/l_x/d_x", LTB), ("SelectLife.p_x/q_x/l_x", SEL)])
prop("C06", "Fractional-age probabilities follow the declared assumption",
     "Between integer ages survival, mortality (deferred included), lives, force and density of mortality and pure endowments follow uniform distribution of deaths or a constant force as declared (or the law itself for special laws), "
     "for any start [x]+s+r and any fractional duration, agreeing with the annual model at integer ages and satisfying the chain rule across years. "
     "Whole years may be expressed through either the duration s or the fraction r.",
     "all models, both assumptions, all fractional starts r (beyond a year too) and durations t, u",
     "tests check a few quarter and half ages; the interpolation law is over a continuum and across year boundaries",
     [FRA, MLW], [("Fractional.l_r/p_r/q_r/mu_r/f_r/E_r", FRA)])
prop("C07", "Expectation of life is the mean of the lifetime distribution",
     "Curtate and complete expectations of life from [x]+s, whole or limited to t years, equal the summed or integrated survival probabilities, their second moments and variances are those of the (limited) lifetime, "
     "and limited expectation plus survivors' remaining expectation is the whole expectation. This holds in every mortality model and, for fractional ages and limits, under the declared fractional-age assumption.",
     "all models, ages, select durations, limits (0, 1, fractional, beyond the end) and moments",
     "tests compute a few expectations of life of sample laws",
     [FRA, LTB, LTM, MLW, CFO, SEL], [("Lifetime.e_x", LTM), ("LifeTable.e_x", LTB), ("Fractional.e_r", FRA), ("Beta/Uniform/ConstantForce.e_x", MLW)])
prop("C08", "Discrete insurances are worth their expected present value",
     "The value of a whole life, term, deferred or endowment insurance paying at the end of the year of death, and of a pure endowment, on [x]+s for any benefit amount equals the sum over years of amount times discount times probability, in every mortality model. "
     "The second moment is the same sum with squared present values, and the variance is second moment minus squared mean, so is never negative and scales with the square of the benefit.",
     "all models, ages, select durations, terms, deferrals, benefit and endowment amounts, moments, interest rates",
     "tests read sample EPVs for sample tables and hardly any variance with a benefit amount or a select duration",
     [INS, LTB, SEL, MLW, CFO], [("Insurance.E_x/A_x/whole_life_insurance/term_insurance/deferred_insurance/endowment_insurance", INS)])
prop("C09", "Continuous insurances and annuities integrate over the lifetime distribution",
     "Insurances paid at the moment of death and annuities paid continuously on [x]+s (whole life, term, deferred, endowment; first and second moments and variances; any amount) equal the integral of discounted benefit against the lifetime distribution, in every survival model and special law. "
     "They satisfy A = 1 - delta a for whole life and endowment forms.",
     "all survival laws, ages, select durations, terms, deferrals, amounts, moments, interest rates",
     "tests compare some closed forms for constant force and uniform lifetimes",
     [INS, ANN, MLW, CFO], [("Insurance.A_x(discrete=False)", INS), ("Annuity.a_x(discrete=False)", ANN)])
prop("C10", "Varying benefits are valued year by year",
     "Insurances and annuities whose benefit varies with time, given as a benefit function or as the arithmetically increasing and decreasing forms, with deferral, limited or whole, on [x]+s, equal the sum (or integral) over time of the benefit at that time times discount times probability. "
     "Increasing plus decreasing forms over a term equal the level form times the number of steps.",
     "all benefit functions, terms, deferrals, select durations, discrete and continuous",
     "tests value one or two increasing insurances",
     [INS, ANN], [("Insurance.A_x/increasing_insurance/decreasing_insurance", INS), ("Annuity.a_x/increasing_annuity/decreasing_annuity", ANN)])
prop("C11", "Life annuities are worth their expected present value",
     "The value of a whole life, temporary, deferred, immediate or certain-and-life annuity on [x]+s for any payment amount equals the sum over payments of amount times discount times survival, and its variance is that of the present value of the payments, in every mortality model. "
     "Whole life and temporary values are linked to the insurance on the same life by a = (1-A)/d and at zero interest are (limited) expectations of life.",
     "all models, ages, select durations, terms, deferrals, amounts, interest rates (zero for values)",
     "tests read sample annuity values; amounts, select durations and variances are rarely combined",
     [ANN, LTB, SEL, MLW, CFO], [("Annuity.whole_life_annuity/temporary_annuity/deferred_annuity/immediate_annuity/certain_life_annuity", ANN)])
prop("C12", "Present-value random variables, their inverse and their distribution agree",
     "For insurances and annuities the present value as a function of the time of death, its inverse (time of death giving a present value), and the probability and percentile functions describe the same random variable: "
     "inverting a present value recovers the time (year) of death, and probability and percentile are those implied by the lifetime distribution, discrete or continuous.",
     "all times, present values, probabilities, interest rates, ages and survival laws",
     "tests take a few percentiles of sample lifetimes",
     [INS, ANN], [("Insurance.Z_t/Z_from_t/Z_to_t/Z_from_prob/Z_to_prob/Z_x", INS), ("Annuity.Y_t/Y_from_t/Y_to_t/Y_from_prob/Y_to_prob/Y_x", ANN)])
prop("C13", "Net premiums satisfy the equivalence principle",
     "A net premium for a whole life, term, endowment, deferred insurance or deferred annuity with any payment period, timing, initial cost or return of premiums makes the expected present value of premiums equal to that of the benefits. "
     "Premium/insurance/annuity equivalence formulas (P = dA/(1-A) and inverses) are consistent with each other and with the values computed from mortality.",
     "all models, ages, benefits, terms, terms, deferrals, interest rates",
     "tests solve a few textbook premiums",
     [PRE], [("Premiums.net_premium", PRE), ("Premiums.insurance_equivalence/annuity_equivalence/premium_equivalence", PRE)])
prop("C14", "Gross premiums and contract terms satisfy the equivalence principle",
     "A gross premium makes the expected present value of premiums equal to that of benefits, settlement, initial and renewal expenses, so a policy valued at issue with that premium has gross value zero. "
     "A contract's derived initial and renewal cash flows are those of its stated premium, expense rates and amounts, and its renewal version charges renewal expenses from its start for the rest of the term.",
     "all contracts (premium, benefit, endowment, initial/renewal per-policy and per-premium expenses, settlement), models, terms",
     "tests solve a few gross premiums of sample contracts",
     [PRE, POL], [("Premiums.gross_premium", PRE), ("Contract", POL)])
prop("C15", "Net policy values are expected future losses at the net premium",
     "The net policy value at duration t of a whole life or endowment insurance equals EPV of remaining benefits minus EPV of remaining net premiums, is zero at issue, equals the endowment at maturity, and 1 - a(t)/a(0) and its premium and insurance analogues agree with it. "
     "The variance of the net future loss is the variance of the remaining present-value loss random variable.",
     "all models, ages, select durations, terms, durations t, benefits, endowments, discrete and continuous",
     "tests compute sample reserves at one or two durations",
     [POL], [("PolicyValues.net_policy_value/net_policy_variance/net_future_loss/net_variance_loss", POL)])
prop("C16", "Gross policy values are expected future losses of the contract",
     "The gross policy value at duration t equals EPV of remaining benefits and expenses minus EPV of remaining premiums (initial expenses only at issue), whole life or for a term with an endowment, and the gross variance is that of the gross future loss random variable. "
     "Formulas that start from given insurance or annuity values agree with those that compute them.",
     "all contracts, models, ages, terms, durations",
     "tests compute a few gross reserves of textbook contracts",
     [POL], [("PolicyValues.gross_policy_value/gross_policy_variance/gross_future_loss/gross_variance_loss", POL)])
prop("C17", "Loss at issue as a random variable matches its policy value and distribution",
     "For a contract, the loss given the time of death is the present value of the benefit and expenses actually paid less premiums actually received, for death within or survival beyond the term. "
     "Its inverse recovers the time of death, its probability and percentile functions follow the lifetime distribution, and its expectation over the lifetime distribution is the gross policy value at issue.",
     "all contracts, times of death, probabilities, laws, discrete and continuous",
     "tests take single percentiles of sample contracts",
     [POL], [("PolicyValues.L_from_t/L_to_t/L_from_prob/L_to_prob", POL)])
prop("C18", "Reserve recursions reproduce policy values forwards and backwards",
     "Filling reserves by recursion from issue or from maturity, or from any known reserve in between, yields at every duration the gross policy value of the contract, and one recursion step forwards then backwards is the identity, whatever the reserve-account rules (reserve or amount benefits, select durations, expenses). "
     "Setting known reserves and asking again never mixes in values of a previous contract or term.",
     "all models, contracts, terms, sets of known reserves, and sequences of set/fill calls",
     "tests fill one or two small reserve tables",
     [RES], [("Reserves.set_reserves/fill_reserves/t_V_forward/t_V_backward/t_V", RES)], over=("inputs", "histories"))
prop("C19", "Interim reserves connect consecutive year-end reserves",
     "A reserve at a fraction r of a policy year computed forwards from the start of the year and backwards from its end agree with each other, with the start-of-year reserve plus premium as r tends to 0 and with the end-of-year reserve as r tends to 1.",
     "all fractions, models, contracts and both fractional-age assumptions",
     "tests compute one or two mid-year reserves",
     [RES], [("Reserves.r_V_forward/r_V_backward", RES)])
prop("C20", "Full preliminary term reserves are net reserves of the shifted policy",
     "A full-preliminary-term policy charges the one-year term net premium in the first year and the net premium for the age one year older thereafter, so its reserve is zero at the end of year one and afterwards equals the net policy value of a policy issued a year later.",
     "all models, ages, terms, terms, benefits and durations",
     "tests compute a single FPT reserve",
     [RES], [("Reserves.FPT_premium/FPT_policy_value", RES)])
prop("C21", "A life table is completed identically from any sufficient data",
     "Filling a life table from any sufficient combination of lives, deaths, mortality or survival rates gives the same complete table, consistent at every age (d = l q, next l = l - d, p + q = 1), keeps every loaded entry, and does not depend on the order or number of calls that loaded the data.",
     "all tables, all sufficient subsets of entries, all partitions and orders of loading",
     "tests load two or three small tables in one call",
     [LTB], [("LifeTable.set_table/fill_table/__getitem__", LTB)], over=("inputs", "histories"))
prop("C22", "The standard ultimate life table is its defining law",
     "Table, annuity, insurance and premium values read from the standard ultimate life table, for any underlying survival law, interest rate and age range, equal those computed from the law by first principles, its displayed frames hold those values at every age, and the fractional-age assumption applies between ages.",
     "all laws, ages, interest rates, table ranges, displayed columns",
     "tests read sample rows at 5%",
     [SUL, LTB], [("SULT.__init__/frame/__getitem__", SUL)])
prop("C23", "Select tables are completed consistently from any sufficient data",
     "A select table filled from any sufficient mix of lives, deaths, mortality, survival, insurance, annuity or expectation entries keeps the loaded entries, and its lives, mortality rates, insurances, annuities and expectations all satisfy the one-year relations along every select row and into the ultimate column. "
     "Values requested for [x]+s equal first-principles values of that select row, for insurances and annuities of any type.",
     "all select tables, select periods, sufficient subsets of entries and query positions",
     "tests fill four textbook tables",
     [SEL], [("SelectLife.set_table/fill_table/A_x/a_x/e_x/p_x/q_x", SEL)])
prop("C24", "Special mortality laws and their shortcuts agree with first principles",
     "Every shortcut formula of the constant force, uniform, beta, Gompertz and Makeham laws (pure endowments, insurances, annuities, moments and variances, expectations) equals the value computed from the law's survival function by summation or integration, at any age, select duration, term, amount and interest rate. "
     "The laws' survival functions, densities and forces are those of their parameters.",
     "all parameters, ages, durations, terms, amounts, moments, interest rates",
     "tests compare a few shortcut values with textbook answers",
     [MLW, CFO], [("Beta/Uniform/Makeham/Gompertz", MLW), ("ConstantForce", CFO)])
prop("C25", "Extra mortality risk modifies exactly the stated quantity",
     "Adding extra risk by a multiple of mortality, an addition to or multiple of the force, or an age rating yields one-year probabilities, survival probabilities and lives-table inputs equal to those of the base model with only that modification, at every age and select duration, and no extra risk leaves the base model unchanged. "
     "Insurances valued on the modified mortality equal first-principles values.",
     "all base models, kinds and sizes of risk, ages, select durations and durations",
     "tests apply each kind to one or two lives",
     [EXT], [("ExtraRisk.q_x/p_x/__getitem__", EXT)])
prop("C26", "True m-thly insurances and annuities sum over their payment dates",
     "Insurances paid at the end of the 1/m year of death and annuities paid m times a year on [x]+s (whole life, term, deferred, endowment, immediate; moments, variances; any amount) equal the sum over 1/m-year periods of discounted amount times probability under the life's fractional-age assumption. "
     "With m=1 they are the annual values, and A(m) = 1 - d(m) a(m) holds for whole life and endowment forms.",
     "all lives, m, terms, deferrals, amounts, moments",
     "tests compute a few monthly annuities",
     [MTH], [("Mthly.A_x/E_x/whole_life_insurance/term_insurance/temporary_annuity/deferred_annuity/immediate_annuity", MTH)])
prop("C27", "The UDD approximation is exact for lives with uniform deaths",
     "Insurances and annuities payable m times a year, or continuously, obtained from annual values under uniform distribution of deaths equal the exact m-thly or continuous values for a life whose deaths are uniform within each year, for every type of contract, term, deferral and amount. "
     "The alpha and beta factors satisfy their defining identities and reduce to the annual values at m=1.",
     "all tables, interest rates, m (0 meaning continuous), contract types, terms, deferrals, amounts",
     "tests compute sample UDD annuities at textbook ages",
     [UDD, MTH], [("UDD.alpha/beta/whole_life_annuity/temporary_annuity/deferred_annuity/whole_life_insurance/endowment_insurance", UDD)])
prop("C28", "Woolhouse's formula is applied with the stated terms",
     "m-thly and continuous annuities by Woolhouse's formula equal the annual annuity minus (m-1)/2m and, when three terms are asked, (m^2-1)/12m^2 times (force of interest plus force of mortality), discounted and weighted by survival for temporary, deferred and select lives and scaled by the amount; insurances follow by A = 1 - d(m) a(m). "
     "The force is exact or approximated from neighbouring survival as requested.",
     "all lives, m, two or three terms, exact or approximate force, contract types, terms, deferrals",
     "tests compute sample Woolhouse annuities",
     [WOO, MTH], [("Woolhouse.whole_life_annuity/temporary_annuity/deferred_annuity/mu_", WOO)])
prop("C29", "Values solved by recursion are implied by the facts given",
     "Whatever facts about probabilities, expectations, insurances and annuities are supplied, and in whatever order, a numerical value the recursion solver returns is the value in every model consistent with those facts: when the facts are taken from an actual life, the answer is that life's value, and so are premiums, policy values, reserves and m-thly values worked from such answers. Quantities that cannot be determined are reported as such, never guessed.",
     "all sets and orders of facts, all queries, benefits, terms, durations and recursion depths",
     "tests solve textbook puzzles",
     [REC], [("Recursion.set_*/get_*/_E_x/_A_x/_IA_x/_DA_x/_a_x/_q_x/_p_x/_e_x", REC)], over=("inputs", "histories"))
prop("C30", "Textbook recursions are derivable and answers are repeatable",
     "A value that follows from the given facts by one application of a stated recursion, complement, deferral or decomposition rule is found, with and without printed steps, as are premiums and policy values whose every factor is given. Asking the same question again, asking other questions in between, or printing steps does not change any answer.",
     "all rules, ages, terms and sequences of queries",
     "tests ask each puzzle once",
     [REC], [("Recursion.whole_life_insurance/term_insurance/... queries", REC)], over=("inputs", "histories"))
prop("C31", "Objects are independent and queries have no side effects",
     "Creating, loading or querying one model never changes the answers of another, and any sequence of queries on a model returns the same values as each query alone on a fresh model. "
     "Setting interest before or after survival data, or setting it again, gives the values of the last setting, and contracts passed in are not modified.",
     "all sequences of constructions, settings and queries over several live objects",
     "tests build one object per case and query once",
     [INS, ANN, LTB, SEL, RES, POL], [("state held in Life/Survival/LifeTable/SelectLife/Reserves objects", LIF)], over=("histories",))
prop("C32", "Numerical primitives deliver what they promise",
     "Solving for a root returns a point at which the function equals the target, whatever solver is indicated by a guess or a bracket; numerical derivative and integral agree with the exact ones for smooth functions; and adding or capping terms treats whole life and the oldest age as documented.",
     "all smooth monotone functions, targets, starting guesses and brackets, terms and ages",
     "tests use the primitives indirectly at a few points",
     [ACT], [("Actuarial.solve/derivative/integral/add_term/max_term", ACT)])
prop("C33", "Tables and plots show the values the methods return",
     "Data frames and plots of survival probabilities, present values, losses and reserves show exactly the values the corresponding methods return for the same ages and durations, and drawing them does not alter the model.",
     "all models, contracts, ages, terms; with and without a curve, discrete and continuous",
     "tests never look at what a plot or frame contains",
     [INS, ANN, POL, RES, SUL, LTB, SEL], [("Z_plot/Y_plot/L_plot/V_plot/survival_curve/frame", INS)])
prop("C34", "Every payment is discounted from its own date when the discount function varies",
     "With a discount function set in place of a level rate, every insurance (pure endowment, whole life, term, deferred, endowment, increasing, decreasing, custom, m-thly), life annuity and net premium is worth the sum, or integral, of amount x discount function at the time of payment counted from issue x probability; discounting is not restarted at a deferral or at the end of a term. A discount function that is a power gives the values of the level rate.",
     "all discount functions with v(0)=1, models, contracts, terms and deferrals",
     "tests value one whole life insurance and one custom benefit this way",
     [INS, ANN], [("Insurance.term_insurance/deferred_insurance/A_x/E_x, Annuity.whole_life_annuity/temporary_annuity/deferred_annuity/a_x with Interest.v_t", INS)])

prop("C35", "The steps a recursion or a table prints are true",
     "Every step a Recursion model prints for an answered query is an equation that holds on the life the facts were taken from: its left side equals its right side with the terms, deferrals, amounts, endowments, moments and ages displayed; no step derives a quantity from itself; the title states the quantity answered. A verbose life table or select table echoes exactly the cells it derives, once each, numbered, with the values it holds, which are those of a table that is not verbose. Models that are not verbose print nothing.",
     "all consistent sets of facts, queries, histories of both",
     "tests look at answers, not at what is printed",
     [REC, LTB, SEL], [("Recursion.pprint, Recursion.blog and every rule that calls it", REC), ("LifeTable.fill_table", LTB), ("SelectLife.fill_table", SEL)])

prop("C36", "Omitted arguments mean their documented values, in the documented order",
     "Leaving any argument out of a query, a constructor, a setter or a recursion fact gives exactly what writing its documented value out gives: unit amounts, first moments, expected values, no years since selection, no deferral, whole life or one year, annual payments at year end, the endowment equal to the benefit, a contract with its own documented terms; and all arguments passed by position, in the documented order, give what they give by keyword.",
     "all lives, m-thly models, contracts, argument values and subsets of arguments left out",
     "tests call each method with one or two of its argument patterns",
     [SUR, INS, ANN, PRE, POL, RES, MTH, REC], [("signatures of the public methods of every class", INS)])

prop("C37", "Impossible requests are refused, not answered",
     "A request the library declares impossible raises: negative ages, years since selection, fractions or durations (survival models and fractional ages), probabilities outside [0, 1], percentiles at or above 1, negative or missing interest rates, discount functions that are not 1 at time 0 or not functions, negative payment frequencies, mortality laws outside their parameters or given a fractional-age assumption, unknown or negative extra risks, unsupported moments, timings and columns, decreasing benefits for life, variances of policies that have no shortcut, missing survival functions, and premiums lacking a needed value. The nearest possible request is answered.",
     "all impossible values of each request, all models that declare it",
     "tests only make possible requests",
     [SUR, FRA, INT, LIF, INS, ANN, POL, MLW, EXT, SEL, MTH], [("assertions and exceptions at the head of public methods", SUR)])
