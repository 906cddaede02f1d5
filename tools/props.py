"""The properties, in one place; tools/gen.py writes properties.jsonl,
MANIFEST.json and the per-property part of DESIGN.md from it."""
EW = "cvx/covariance/ewma.py"
CO = "cvx/covariance/combination.py"
RG = "cvx/covariance/regularization.py"
U = "experiments/utils/"
I, H, C, F, S = "inputs", "histories", "configurations", "fault_sequences", "schedules"

P = []


def prop(id, title, statement, over, qtext, why, files, mech, how, observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, how=how, observe=list(observe), na=na))


prop("C01", "EWMA estimates are normalised exponentially weighted averages",
     "For any return table and half-life h, the mean and squared volatility reported for a date equal the average of all returns (squared returns) up to that date with weights proportional to 2^(-age/h) and summing to one. This holds from the first observation on (no start-up bias) and per asset.",
     [I, C], "all real-valued return tables, all half-lives h>0, every date",
     "The tests compare one recorded price file with stored numbers; the recursion must equal the weighted average for every series, half-life and length.",
     [EW], [("recursive update with explicit normalisation", EW + ":_ewma_mean/_general"), ("centering", EW + ":center"), ("volatility", EW + ":volatility")],
     "Returns and half-life are symbols; the recursion is executed symbolically and each output is compared with the closed-form weighted average.", ["center", "volatility", "iterated_ewma"])
prop("C02", "Warm-up periods decide only which dates are reported, never the values",
     "With min_periods=m the estimators report exactly the dates from the m-th observation on (all dates for m<=1; nothing if the history is shorter), and two-stage estimates report from the date both warm-ups are met. The value at a reported date does not depend on the warm-up lengths except through the dates the second stage sees.",
     [I, C], "all warm-up lengths from 0 to beyond the history, all returns, all half-lives",
     "Tests use the default or one warm-up length on one file; boundaries (0, 1, longer than history) are never run.",
     [EW], [("min_periods test", EW + ":_general"), ("volatility then covariance stage", EW + ":iterated_ewma")],
     "Warm-ups are symbolic integers; date lists are compared with the documented schedule and values with the run without warm-up.", ["dates of yielded tuples"])
prop("C03", "Estimates are causal",
     "An estimate dated t is a function of returns dated t or earlier: changing, deleting or appending any later data leaves every estimate up to t unchanged, with centering and clipping on or off.",
     [I, H], "all pairs of histories that agree up to a date t, every t, including futures with missing values",
     "Tests compare one full run with stored results; look-ahead that is consistent with the stored file is invisible to them.",
     [EW], [("forward recursion", EW + ":_general"), ("two-stage estimator", EW + ":iterated_ewma")],
     "Two symbolic histories sharing a prefix are run; outputs on the prefix must be identical terms or proved equal.", ["iterated_ewma", "center", "volatility"])
prop("C04", "Clipping bounds the influence of any single observation",
     "With clip_at=c, after the warm-up a new squared return enters a volatility update as at most c^2 times the current variance estimate, and volatility-adjusted returns enter the correlation stage within [-c, c]. Returns already inside the band are not altered, so results with a non-binding clip equal the unclipped ones.",
     [I, C], "all returns, all clip levels c>0, all half-lives and warm-ups",
     "Two tests check the clip on a fixed series; that one outlier of any size has bounded effect quantifies over all sizes.",
     [EW], [("winsorised update", EW + ":_general/_variance"), ("clipped adjusted returns", EW + ":iterated_ewma")],
     "Symbolic returns and clip level; min/max kept as terms; outputs compared with the winsorised recursion and bounds proved as inequalities.", ["volatility(clip_at=...)", "iterated_ewma(clip_at=...)"])
prop("C05", "Every reported covariance is a covariance matrix consistent with its volatility",
     "Each iterated-EWMA covariance is symmetric, positive semidefinite and has the reported squared volatilities on its diagonal, so every implied correlation lies in [-1, 1].",
     [I, C], "all returns with nonzero volatilities, all half-lives, with and without mean adjustment",
     "Tests compare numbers on one file; validity must hold for every input.",
     [EW], [("correlation from covariance, rescaled by volatility", EW + ":iterated_ewma")],
     "Positive semidefiniteness is shown through an exact sum-of-squares identity over a symbolic test vector, symmetry/diagonal by equality.", ["covariance, volatility fields"])
prop("C06", "The iterated EWMA follows its documented two-stage formula",
     "Each estimate equals: volatilities from the first half-life, returns divided by them, a correlation from the second half-life, and the covariance vola*corr*vola; with mean adjustment the reported mean is the first-stage mean plus volatility times the second-stage mean, each stage using its own mean half-life (defaulting to that stage's half-life).",
     [I, C], "all returns, four independent half-lives, warm-ups, mean adjustment on/off",
     "Stored results cover equal or default half-lives on one file; swapped or defaulted half-lives coincide there.",
     [EW], [("half-life plumbing", EW + ":iterated_ewma"), ("mean recombination", EW + ":iterated_ewma")],
     "Independent symbolic re-derivation from the paper's formula compared term by term.", ["iterated_ewma tuples"])
prop("C07", "Units, asset order and labels carry through the estimators",
     "Rescaling an asset's returns rescales its mean, volatility and covariances accordingly; reordering or relabelling assets reorders or relabels the results; restricting to a sub-universe gives the sub-block; relabelling dates (in increasing order) changes only the dates reported.",
     [I, C], "all returns, all positive unit changes, all permutations and subsets of up to 3 assets",
     "No test changes units, order or labels.",
     [EW], [("column-wise arithmetic and index propagation", EW + ":iterated_ewma")],
     "Relational: the real code runs twice on related symbolic tables; outputs are compared after the transformation.", ["index/columns/values of the outputs"])
prop("C08", "Missing data and dead assets stay contained; inputs are not modified",
     "A missing return acts as a zero return for the estimates, an asset without any data gives undefined entries for that asset only, other assets' numbers do not change, and the caller's table is never modified.",
     [I], "every pattern of missing cells in a small table, all values of the others, all half-lives",
     "One NaN file is compared with stored output; patterns such as leading gaps plus dead assets are not enumerated.",
     [EW], [("nan handling", EW + ":iterated_ewma"), ("division by zero volatility", EW + ":iterated_ewma")],
     "The missing-cell pattern is a symbolic bit matrix; results are compared with the run on the zero-filled / reduced table.", ["estimates of live assets", "input frame afterwards"])
prop("C09", "Combination weights maximise the likelihood of past one-step predictions",
     "The optimisation problem posed at date t maximises, over expert weights, the Gaussian log-likelihood of the last `window` returns up to t, each judged under the blend of the experts' predictions made one date earlier (means included). Nothing else enters the objective.",
     [I, H], "all expert covariances and means, all returns, all candidate weights, all windows",
     "Tests compare weights with a stored file; an objective shifted by one date or a wrong window is consistent with a regenerated file.",
     [CO], [("data matrices of the problem", CO + ":_CovarianceCombination.solve"), ("objective", CO + ":_CombinationProblem._objective"), ("one-date shift", CO + ":_CovarianceCombination.__init__")],
     "cvxpy's own expression tree built by the code is evaluated at symbolic weights and compared with the log-likelihood written from the paper (up to a constant).", ["objective handed to the solver"])
prop("C10", "Weights are a labelled point of the simplex",
     "A weight vector is admissible exactly when it is nonnegative and sums to one, and reported weights are the solver's values labelled by expert in the order the experts were given.",
     [I, C], "all candidate weight vectors, 2-3 experts, any labels",
     "Tests see optimal weights on one file; constraint changes that are inactive there are invisible.",
     [CO], [("constraints", CO + ":_CombinationProblem._constraints"), ("labels", CO + ":_CombinationProblem.weights")],
     "Feasibility of the real cvxpy constraints at a symbolic vector is proved equivalent to membership in the simplex.", ["constraints handed to the solver", "weights"])
prop("C11", "The combined prediction is the stated blend and a valid covariance",
     "Given weights, the combined inverse covariance has as Cholesky factor the weighted sum of the experts' factors for the same date, and the combined mean solves the corresponding normal equation; it is positive definite, labelled by asset, and a single expert or a vertex weight reproduces that expert exactly.",
     [I], "all positive definite experts, all means, all simplex weights",
     "Stored numbers on one file; agreement for every weight vector and expert is not tested.",
     [CO], [("blend of factors", CO + ":_CovarianceCombination._solve")],
     "Experts are given by symbolic Cholesky factors of their inverses, solver output is symbolic; covariance and mean compared with the blend formula.", ["Result tuples"])
prop("C12", "Asking for a window or for particular dates does not change the answer at a date",
     "Solving for a list of consecutive dates gives, for each of those dates that has a full window, the result of solving for all dates; the window is capped by the available history and defaults to all of it; experts covering different dates are combined over their common dates; older data outside the window has no effect.",
     [I, C, H], "all windows and blocks of requested dates, all expert coverages, all data",
     "One test compares one block of dates with a full run; offsets near the start and unequal coverages are not run.",
     [CO], [("window and dates arithmetic", CO + ":_CovarianceCombination.solve"), ("common dates", CO + ":_CovarianceCombination.__init__")],
     "The solver is an arbitrary deterministic function of its problem; both runs are executed and results compared per date, window and block symbolic.", ["solve(window=, times=)"])
prop("C13", "A solver failure at one date affects that date only",
     "If the convex solver fails at some dates, exactly those positions yield no result and every other date's result is identical to a run without failures; the iteration continues to the end.",
     [F], "every subset of dates at which the solver fails",
     "No test makes the solver fail.",
     [CO], [("SolverError handling", CO + ":_CovarianceCombination.solve")],
     "The failure schedule is a symbolic bit vector driving the solver stand-in.", ["yielded sequence"])
prop("C14", "Repeated, interleaved, abandoned runs agree and touch no input",
     "Results of a combination object do not depend on what was iterated before: running twice, interleaving two iterations, or abandoning one half-way gives the same results, results already handed out keep their values, and the experts' and returns data of the caller are unchanged.",
     [S, H], "every interleaving of two iterations, every abandonment point",
     "Tests iterate each object once.",
     [CO], [("lazy generator", CO + ":_CovarianceCombination.solve"), ("per-call problem", CO + ":_CombinationProblem")],
     "The interleaving is a symbolic schedule; results are compared with sequential runs.", ["several solve() iterators over one object"])
prop("C15", "from_ewmas is the combination of the iterated EWMAs of its half-life pairs",
     "Combining half-life pairs gives the same experts (labelled vola-cov), predictions and combined results as computing each iterated EWMA with the same options and combining them directly; warm-ups, clipping and mean options reach every expert.",
     [I, C], "all returns, pairs in any order, warm-ups, clipping and mean options",
     "Tests use the default options and stored files.",
     [CO, EW], [("option plumbing", CO + ":from_ewmas")],
     "Both routes run on the same symbolic returns; experts, objective and results compared.", ["from_ewmas vs from_sigmas"])
prop("C16", "The whole pipeline is causal",
     "A combined covariance, mean and weight vector dated t depends only on returns up to and including t: any change to later returns, or cutting the history at t, leaves it unchanged; the newest expert prediction influences only its own date's blend, never the weights fitted up to that date.",
     [I, H], "all pairs of histories agreeing up to t; all later data",
     "No test changes the future.",
     [CO, EW], [("one-date shift and window", CO + ":_CovarianceCombination"), ("forward recursion", EW)],
     "Two symbolic histories sharing a prefix; the solver is an arbitrary deterministic function of its problem.", ["from_ewmas(...).solve()"])
prop("C17", "Factor regularisation keeps variances and its two output formats agree",
     "Regularising a covariance leaves every variance unchanged, keeps the matrix symmetric, preserves dates, asset labels and the input, and the low-rank format (loadings and diagonal) describes exactly the same matrix as the dense format, with as many loadings as the requested rank.",
     [I, C], "all positive definite covariances, every rank from 1 to the number of assets",
     "One test compares one matrix with a stored one, at one rank and format.",
     [RG], [("unit diagonal", RG + ":_regularize_correlation"), ("formats", RG + ":regularize_covariance")],
     "Volatilities and correlations symbolic; the eigendecomposition is a contract stub (any orthonormal ascending decomposition).", ["regularize_covariance(low_rank_format=False/True)"])
prop("C18", "Regularisation keeps the leading components and stays positive semidefinite",
     "The off-diagonal part of the regularised correlation is that of its r largest eigen-components (strongest factor first), the idiosyncratic variances are nonnegative, hence the result is positive semidefinite, and at full rank it equals the input.",
     [I, C], "all positive definite covariances, every rank",
     "One stored example; picking wrong components or a sign slip at other ranks is not seen.",
     [RG], [("selection of the r largest eigenvalues", RG + ":_regularize_correlation")],
     "Same encoding; residual diagonal proved equal to the sum of the remaining components, quadratic form by sum of squares.", ["F, d, dense output"])
prop("C19", "EM low-rank approximation performs the EM iteration of the factor model",
     "Each EM pass computes the posterior moments of the factors under the current model and the corresponding regression update; a covariance that already has the factor form is a fixed point, rescaling or reordering assets rescales or reorders the result, and every date uses its own start without modifying it.",
     [I, H], "all positive definite covariances and all starting models of the bounded sizes",
     "One test checks one matrix against another implementation's convergence.",
     [RG], [("posterior moments", RG + ":_e_step"), ("regression update", RG + ":_m_step"), ("iteration", RG + ":_em_low_rank_approximation")],
     "One pass compared with the textbook update (no matrix-inversion lemma); fixed point and unit changes over the full five passes.", ["em_regularize_covariance"])
prop("C20", "EM keeps the model valid and never makes the fit worse",
     "From any valid model, an EM pass leaves idiosyncratic variances positive, its loadings minimise the expected residual variance of every asset, and for a single asset the fitted variance moves towards the true variance without overshooting.",
     [I], "all positive definite covariances and valid starting models of the bounded sizes",
     "Tests look at one converged example.",
     [RG], [("M-step", RG + ":_m_step")],
     "Strict positivity and the excess-quadratic-form identity are decided by the solver for one pass from an arbitrary state.", ["F, d after a pass"])
EU, FM, IV, TM, PB, RC = U + "experiment_utils.py", U + "factor_model.py", U + "iterated_ewma_vec.py", U + "trading_model.py", U + "portfolio_backtests.py", U + "return_combination.py"
prop("C21", "Log-likelihoods are the Gaussian density of the return after the prediction",
     "Every log-likelihood helper (dense, sequential, regularised, low-rank, EM, factor model) returns the exact Gaussian log density of the return under the predicted mean and covariance; table-based helpers score the prediction dated t on the return after t and leave out the last date. Scaling data by c scores scaled returns and means under c^2 times the covariance, and asset labels do not matter.",
     [I, C], "all returns, means, positive definite covariances, factor models, scales, label types and starting dates",
     "No test covers the evaluation helpers; the ranking of predictors rests on them.",
     [EU, FM], [("density", EU + ":_single_log_likelihood/log_likelihood"), ("pairing with the next return", EU + ":log_likelihood_regularized/_low_rank"), ("factor model", FM + ":factor_log_likelihood")],
     "Helpers run on symbolic data; compared with the density written out through explicit 1x1/2x2 determinants and inverses.", ["returned likelihoods and their dates"])
prop("C22", "The rolling-window covariance is the plain average over the window",
     "rolling_window reports, for each date from the min_periods-th on, the average of the outer products of the last min(number of dates so far, memory) returns, labelled by the assets, and does not modify the returns.",
     [I, C], "all returns, every memory length and warm-up relative to the history",
     "No test covers it; the recursive update is only right if every weight is.",
     [EU], [("recursive window update", EU + ":rolling_window")],
     "Recursion executed symbolically for every memory and warm-up; compared with the average.", ["rolling_window(...)"])
prop("C23", "Realised covariances and their EWMA follow their definitions",
     "The realised covariance of a date is the sum of products of that date's intraday returns about their mean, the realised volatility the root of their sum of squares, and the EWMA of a dated sequence is the normalised exponentially weighted average of the values up to each date from the second on. With clipping, after the warm-up a value enters the average within clip_at times the previous average.",
     [I, C], "all intraday returns, half-lives, clip levels and warm-ups; dates in any order",
     "No test covers the realised-covariance experiments.",
     [EU, IV], [("realised measures", EU + ":_realized_covariance/realized_volas"), ("dictionary EWMA", IV + ":ewma/get_next_ewma")],
     "Symbolic intraday tables and sequences; compared with the definitions.", ["realized_ewma, realized_volas, ewma"])
prop("C24", "The vectorised iterated EWMA agrees with the library estimator",
     "The vectorised implementation gives the same dates, covariances and means as cvx.covariance.ewma.iterated_ewma under the same options (with mean adjustment both need at least two periods), and its low-rank option equals regularising those covariances to that rank.",
     [I, C], "all returns, half-lives, warm-ups, clip levels, ranks, mean adjustment on/off",
     "No test runs it; two implementations of one estimator must not drift apart.",
     [IV, EW, RG], [("vectorised recursion", IV + ":iterated_ewma"), ("library estimator", EW + ":iterated_ewma")],
     "Equivalence: both real implementations run on the same symbolic returns.", ["both functions' outputs"])
prop("C25", "Evaluation measures compute what they are named after",
     "MSE is the squared Frobenius distance between each prediction and the outer product of the next return; turnover is the annualised mean absolute change of the weights relative to the previous gross exposure, in percent; the empirical distribution lists the sample in order with levels 1/n..1.",
     [I], "all returns, predictions, weights and samples of the bounded sizes, ties included",
     "No test covers them.",
     [EU], [("MSE", EU + ":MSE"), ("turnover", EU + ":turnover"), ("ecdf", EU + ":ecdf")],
     "Symbolic inputs, results compared with the definitions; absolute values and orders decided per case by the solver.", ["MSE, turnover, ecdf"])
prop("C26", "Packed covariances unpack to the symmetric matrix; diagonal loading is exact",
     "Unpacking a row of upper-triangular entries (row by row) gives the symmetric matrix with exactly those entries, for each row separately; diagonal loading multiplies every variance by 1+lambda and leaves all covariances, labels, dates and the original matrices as they were.",
     [I, C], "all entries, sizes up to 4 assets, all loadings",
     "No test covers them; a transposed packing order is invisible for constant matrices.",
     [EU], [("unpacking", EU + ":from_row_to_covariance"), ("loading", EU + ":add_to_diagonal")],
     "Symbolic entries are traced to their position.", ["returned matrices"])
prop("C27", "Portfolio accounting: returns, growth, drawdown and metrics are exact",
     "A date's portfolio return is the sum of weights times that date's asset returns (plus the cash weight times the cash rate), growth compounds (adjusted) returns, the drawdown is the largest relative fall from a running maximum, and the metrics are 252 times the mean (excess) return, sqrt(252) times the standard deviation, and their ratio. The equally weighted portfolio holds 1/n of each asset on every date.",
     [I, H, C], "all weights, returns, cash rates, adjustment factors of the bounded sizes",
     "No test covers the backtests.",
     [TM], [("returns", TM + ":Trader.get_total_returns"), ("growth", TM + ":Trader.get_portfolio_growth"), ("drawdown", TM + ":Trader.compute_max_drawdown"), ("metrics", TM + ":Trader.get_metrics")],
     "Symbolic weights and returns; drawdown branches explored exhaustively, results compared with the definitions.", ["rets, Vs, metrics"])
prop("C28", "Risk targeting meets the target with the requested volatility and no more",
     "Diluting with cash scales each date's risky weights by one factor so that their predicted volatility equals the requested one, puts the rest in cash, and leaves the weights alone; volatility control and risk-adjusted returns scale each date by target over realised risk of that date. A later request with another target, after another backtest or without dilution, is answered for what it asks.",
     [I, H, C], "all weights, covariances, targets and sequences of up to two requests",
     "No test covers the backtests; stale state and mixed-up dates need specific histories.",
     [TM], [("dilution", TM + ":Trader.dilute_with_cash"), ("volatility control", TM + ":Trader.get_vol_cont_w"), ("risk-adjusted returns", TM + ":Trader.get_risk_adj_returns")],
     "Covariances are given by symbolic Cholesky factors; the predicted variance of the result is proved equal to the squared target.", ["ws_diluted, rets, returned weights"])
prop("C29", "Each date's weights solve that date's portfolio problem",
     "The weights stored for a date are the solver's answer to the problem stated by the portfolio's name for that date's covariance (and expected return): the documented objective, all requested position limits, fully invested or within the risk bound. Limits and parameters of earlier backtests leave no trace.",
     [I, H, C], "all covariances, expected returns, limits and solver answers of the bounded sizes",
     "No test covers the backtests; problem data of one date leaking into another is invisible in aggregate metrics.",
     [TM], [("problem construction", TM + ":Trader.backtest/construct_*"), ("per-date solution", TM + ":Trader.solve_*")],
     "The solver is replaced by an arbitrary answer; objective and feasible set of the problem actually handed over are compared with the stated ones for every point.", ["objective and feasible set per date; Trader.ws"])
LR, CC = U + "low_rank_ewma.py", U + "ccp_regularize.py"
prop("C30", "Backtests trade each prediction into the next return only",
     "A backtest over several covariance predictors gives every predictor its own trader; the prediction (and expected return) dated t determines the position held for the return after t, for exactly the dates from start to end with a next return. The results table has one row per trader, PRESCIENT last, with the metrics of the requested setting.",
     [I, H, C], "all returns, predictions, expected returns, start and end dates of the bounded sizes",
     "No test covers the backtests; trading on the same date's return looks like a very good predictor.",
     [PB, TM], [("pairing and traders", PB + ":backtest"), ("table", PB + ":create_table")],
     "The solver is replaced by an arbitrary answer; the covariance handed to each date's problem and the return multiplying its answer are traced symbolically.", ["traders, their returns and tables"])
prop("C31", "Return forecasts are combined from past data only, with the stated weights",
     "The combination weights of a date minimise the exponentially decayed squared prediction error over the last memory pairs of features and realised returns plus the stated regulariser, the forecast applies them to that date's features, and lagged or averaged features use returns up to their date only. The uncertainty of a mean estimate is the requested number of exponentially weighted standard deviations of the past.",
     [I, C], "all returns, predictions, regularisation weights of the bounded sizes",
     "No test covers the combination; a one-day misalignment improves backtests.",
     [RC, TM], [("ridge/lasso combination", RC), ("uncertainty", TM + ":Trader.construct_rho")],
     "Ridge weights are compared with the normal equations of the stated loss; for the l1 variants objective and feasible set of the problem handed to the solver are compared for every point.", ["weights and forecasts per date"])
prop("C32", "The low-rank EWMA keeps the leading components and the exact variances",
     "Each low-rank iterated EWMA step keeps the leading components of the decayed correlation estimate plus the new observation and moves the discarded variance into the idiosyncratic part, so the reported covariance always has the reported squared volatilities as variances. Dates, means and volatilities are those of the full estimator, also for histories shorter than a warm-up.",
     [I, C], "all returns without ties in the leading eigenvalues, two half-lives, clip levels, ranks, warm-ups of the bounded sizes",
     "No test runs it; variance lost in one truncation is carried through all later dates.",
     [LR, EW], [("low-rank recursion", LR + ":low_rank_iterated_ewma"), ("full estimator", EW + ":iterated_ewma")],
     "The real recursion runs on symbolic returns with the singular value decomposition by contract; compared with the recursion written out and with the full estimator.", ["time, mean, covariance, volatility"])
prop("C33", "The convex-concave regulariser minimises a valid majoriser each step",
     "The regulariser's parameters always stand for the reported loadings and idiosyncratic variances, its objective is twice the negative Gaussian log-likelihood of that model, each solved problem majorises the objective and touches it at the current point, and the solver's answer becomes the next model. The gradient variant uses the gradient of the log-determinant.",
     [I, H], "all positive definite covariances, models and solver answers of the bounded sizes",
     "No test runs it; a wrong linearisation still returns a plausible model.",
     [CC], [("parametrisation", CC + ":_State"), ("surrogate", CC + ":_State.construct_problem"), ("gradients", CC + ":_grad_G/_grad_e")],
     "Symbolic covariance, model and solver answer; majorisation is an identity plus a sum of squares, checked by the solver.", ["model before and after a step; problem objective"])
prop("C34", "The factor model is causal and assembled from its own training window",
     "Each date from memory to the end is reported once; its exposures come from the memory returns before its training date, its factor covariance from the combined iterated EWMAs of the factor returns up to that date with the first pair's diagonal loaded by 5 %, and its idiosyncratic variances from the decayed squared residuals up to that date.",
     [I, C], "all out-of-sample returns, update frequencies and training results of the bounded sizes",
     "No test covers it; training on the test window improves every reported likelihood.",
     [FM], [("training windows and assembly", FM + ":construct_cmiewma_factor_model"), ("factor covariance", FM + ":construct_factor_covariance")],
     "The factor extraction is replaced by one returning arbitrary exposures and recording its input; every part of every date is compared with its definition on symbolic returns.", ["time, exposure, factor_covariance, diagonal"])
prop("C35", "Tuning scores and yearly Sharpe ratios are those of the runs they summarise",
     "Tuning reports, for each candidate regularisation in the given order, the weights of that candidate's run and the correlation and root mean squared error between its forecasts and the returns of the same dates. The yearly Sharpe ratios cover exactly the calendar years with more than 100 returns, each 252 times the mean over sqrt(252) times the sample standard deviation of that year's returns; other years in between are undefined.",
     [I, C], "all returns, predictions and candidates of the bounded sizes, all placements of year boundaries",
     "No test runs them; a score of the wrong run or a shifted date picks the wrong setting silently.",
     [RC, EU], [("tuning", RC + ":tune_alpha"), ("yearly ratios", EU + ":yearly_SR")],
     "Scores are compared with the definitions applied to a separate run of each candidate on symbolic data.", ["returned lists and series"])
