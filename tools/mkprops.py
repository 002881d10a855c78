import json
EF="pypfopt/efficient_frontier/efficient_frontier.py"; BO="pypfopt/base_optimizer.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
p("C01","Weight bounds are read as documented and bind every optimised weight",
  "A single (lower, upper) pair bounds every asset by that pair (None standing for the documented default on that side), and a per-asset list or array of pairs bounds asset i by pair i; every problem an optimiser solves constrains its weights by exactly these bounds. Bounds of any other form or length are refused before anything is solved.",
  ["inputs","configurations"],"all asset counts (including the ambiguous two-asset case), all bound values and all accepted forms (tuple, list of tuples, array, pair of arrays)",
  "tests use one 20-asset data set and a few bound values; the two-asset case, None on one side and array pairs are never combined",
  [BO,EF],[("bounds normalisation","BaseConvexOptimizer._map_bounds_to_constraints"),("constructor","EfficientFrontier.__init__")],["constraints of the solved problem"])
p("C02","Mean-variance methods solve exactly their documented convex programmes",
  "Minimum volatility minimises w'Sw, quadratic utility maximises mu'w - (delta/2) w'Sw, efficient risk maximises mu'w subject to w'Sw <= target^2 and efficient return minimises w'Sw subject to mu'w >= target, each over the weight bounds and sum(w) = 1 (or 0 when market neutral), for the caller's mu and S. The weights returned are the solver's optimum in the caller's asset order, and an infeasible or unsolved problem raises instead of returning weights.",
  ["inputs","configurations"],"all asset counts, expected returns, covariance matrices, bounds, targets, risk aversions, market-neutral settings and solver outcomes",
  "tests compare a handful of optima on one data set with stored numbers; a wrong coefficient that vanishes for delta=1 or sum(w)=1 is invisible to them",
  [EF,BO,"pypfopt/objective_functions.py"],[("objective and constraints","EfficientFrontier.min_volatility/max_quadratic_utility/efficient_risk/efficient_return"),("budget","EfficientFrontier._make_weight_sum_constraint"),("solve","BaseConvexOptimizer._solve_cvxpy_opt_problem")])
p("C03","max_sharpe solves an exact reformulation of the Sharpe-ratio problem",
  "The problem solved by max_sharpe is equivalent to maximising (mu'w - rf)/sqrt(w'Sw) over the bounds, budget and every affine constraint the user added: a feasible w maps to a feasible point of the solved problem and back, with objective equal to 1/Sharpe^2. The returned weights are the optimum mapped back (scaled to sum to one), and a risk-free rate at or above every expected return is refused.",
  ["inputs","configurations"],"all asset counts, mu, S, risk-free rates, bounds and added affine constraints (equalities, inequalities, constants on either side)",
  "tests try long-only defaults and one or two sector constraints, so a constraint that is not homogenised correctly goes unnoticed",
  [EF],[("variable substitution y = kw","EfficientFrontier.max_sharpe")])
p("C04","EfficientCVaR solves the Rockafellar-Uryasev programme for its returns",
  "Each CVaR method optimises or limits alpha + sum_t max(-r_t'w - alpha, 0)/(T(1-beta)) over the caller's T return rows, with the return and budget constraints of the corresponding mean-variance method. The auxiliary variables never understate the tail loss and attain it at the optimum, and a confidence level outside [0,1) is refused.",
  ["inputs","configurations"],"all asset counts, sample lengths, returns, confidence levels, targets and market-neutral settings",
  "tests use one sample length and beta in {0.95, 0.99}; an off-by-one in T or a beta/(1-beta) swap at other values is not observed",
  ["pypfopt/efficient_frontier/efficient_cvar.py",EF],[("CVaR linearisation","EfficientCVaR.min_cvar/efficient_return/efficient_risk/_add_cvar_constraints")])
p("C05","EfficientCDaR solves the conditional-drawdown programme for its returns",
  "Each CDaR method optimises or limits alpha + sum_t max(u_t - alpha, 0)/(T(1-beta)) where u_t is the drawdown of the uncompounded cumulative portfolio return at time t, including the first period. The auxiliary variables never understate the drawdowns, and every feasible drawdown path dominates the true one.",
  ["inputs","configurations"],"all asset counts, sample lengths, returns, confidence levels, targets and market-neutral settings",
  "tests compare stored optima for one data set; boundary rows of the recursion are not pinned",
  ["pypfopt/efficient_frontier/efficient_cdar.py",EF],[("drawdown linearisation","EfficientCDaR.min_cdar/efficient_return/efficient_risk/_add_cdar_constraints")])
p("C06","EfficientSemivariance solves the downside-deviation programme",
  "Each semivariance method optimises or limits sum_t min(r_t'w - benchmark, 0)^2/T (annualised where documented) subject to the bounds and budget, for any benchmark and also for market-neutral portfolios. The auxiliary variables never understate the downside and attain it at the optimum.",
  ["inputs","configurations"],"all asset counts, sample lengths, returns, benchmarks, frequencies, targets and market-neutral settings",
  "tests use benchmark 0 or one other value with fully invested portfolios, where several wrong formulas coincide",
  ["pypfopt/efficient_frontier/efficient_semivariance.py",EF],[("downside split","EfficientSemivariance.min_semivariance/max_quadratic_utility/efficient_risk/efficient_return")])
p("C07","Re-optimising an instance equals optimising a fresh one",
  "Calling a parametrised method again on the same optimiser with a new target, risk aversion or return target solves the same problem as a fresh optimiser given that value. Adding objectives or constraints after a solve, or switching market neutrality between parametrised calls, is refused.",
  ["histories","inputs"],"all sequences of calls to the parametrised methods with any parameter values on any optimiser class",
  "tests check one two-step sequence per method on one data set",
  [BO,EF],[("parameters","BaseConvexOptimizer.is_parameter_defined/update_parameter_value"),("guards","BaseConvexOptimizer.add_objective/add_constraint, EfficientFrontier._validate_market_neutral")])
p("C08","User constraints, sector limits and extra objectives reach the solver intact",
  "Every constraint function and sector limit added is imposed on the solved problem with the stated mapping, floor and cap for exactly the assets of that sector, and every added objective is added to the method's objective with its keyword arguments. Nothing else is imposed, repeated or dropped, for every method that minimises or maximises, and generic convex and non-convex optimisation uses the caller's objective, extra arguments and constraints under the documented conventions.",
  ["inputs","configurations","histories"],"all constraint lists, sector mappings, bounds on sectors, objective lists and optimisation methods",
  "tests add one or two constraints and look at the optimum only, where dropped non-binding constraints do not show",
  [BO,EF],[("add_objective/add_constraint/add_sector_constraints","base_optimizer.BaseConvexOptimizer"),("generic optimisation","BaseConvexOptimizer.convex_objective/nonconvex_objective")])
p("C09","Objective functions equal their documented formulas",
  "Portfolio variance, portfolio return, Sharpe ratio, L2 regularisation, quadratic utility, transaction cost, and the ex-ante and ex-post tracking errors return the documented formula of their arguments, for numeric weights and, as expressions, at every value of optimisation variables. The sign convention is that each is to be minimised unless the caller asks otherwise.",
  ["inputs"],"all asset counts, weights, expected returns, covariance matrices and coefficients, numeric and symbolic weights",
  "tests evaluate each function at one or two points",
  ["pypfopt/objective_functions.py"],[("formulas","objective_functions.*"),("sign and dispatch","objective_functions._objective_value")])
p("C10","Reported portfolio performance is computed from the reported weights",
  "After any optimisation the performance figures are exactly mu'w, sqrt(w'Sw), (mu'w - rf)/sqrt(w'Sw) and, for the downside classes, the semideviation, CVaR or CDaR of the returned weights, for the same annualisation and risk-free rate. Performance of explicitly given weights matches weights to assets by name where names exist, and asking for performance without weights raises.",
  ["inputs","histories"],"all asset counts, weights (array, dict in any order), expected returns, covariances, return histories, frequencies and risk-free rates",
  "tests check stored numbers for a few optima; reordered dictionaries and non-default rates are sampled once",
  [BO,EF,"pypfopt/efficient_frontier/efficient_cvar.py","pypfopt/efficient_frontier/efficient_cdar.py","pypfopt/efficient_frontier/efficient_semivariance.py","pypfopt/cla.py","pypfopt/hierarchical_portfolio.py"],[("performance","base_optimizer.portfolio_performance"),("class methods","*.portfolio_performance")])
p("C11","Setting, cleaning and saving weights keeps every asset's own weight",
  "Setting weights from a mapping assigns each asset its own weight whatever the mapping order; cleaning returns, for each asset, zero when the absolute weight is below the cutoff and otherwise the weight rounded as asked, without changing the stored weights. Saving writes each asset with its cleaned weight in the format of the file name and refuses other formats, and invalid rounding or missing weights are refused.",
  ["inputs","histories"],"all tickers, weight vectors, cutoffs, roundings and file suffixes",
  "tests clean one weight vector with a few cutoffs",
  [BO],[("weights","BaseOptimizer.set_weights/clean_weights/save_weights_to_file/_make_output_weights")])
p("C12","Greedy discrete allocation never overspends and accounts for every unit of cash",
  "For any weights, prices and portfolio value, the greedy allocation buys non-negative whole numbers of shares whose total cost plus the reported leftover equals the portfolio value, and the leftover is never negative. It first buys floor(w_i V / p_i) of each asset and then only adds affordable shares; long-short portfolios are split into independent long and short allocations with shares of short assets reported negative. Weights that are no dictionary, prices that are no complete series, and values out of range are refused.",
  ["inputs"],"all weight vectors, positive prices, portfolio values, short ratios and reinvestment settings",
  "tests use one price vector and one weight vector and check the stored allocation",
  ["pypfopt/discrete_allocation.py"],[("allocation loops","DiscreteAllocation.greedy_portfolio"),("cleaning","DiscreteAllocation._remove_zero_positions")])
p("C13","LP allocation solves the documented integer programme on matching prices",
  "The integer programme minimises the sum of |w_i V - x_i p_i| plus leftover cash with integer x and non-negative leftover, pairing each asset's weight with that asset's own price whatever the order of the price series. Long-short portfolios are split as for the greedy method, and an unsolved programme raises.",
  ["inputs","configurations"],"all weight vectors, price series in any order, portfolio values, short ratios and solver outcomes",
  "tests use weights and prices in the same order",
  ["pypfopt/discrete_allocation.py"],[("programme","DiscreteAllocation.lp_portfolio")])
p("C14","Black-Litterman posteriors satisfy the Bayesian update equations",
  "The posterior mean solves the mixed estimation equations for prior pi, tau*Sigma, views P, Q and Omega, equals pi when there is no information from the views, and the posterior covariance is Sigma + [(tau Sigma)^-1 + P'Omega^-1 P]^-1. Implied weights are proportional to (risk_aversion * Sigma)^-1 times the posterior mean and sum to one.",
  ["inputs"],"all numbers of assets and views, priors, positive definite covariances, picking matrices, view vectors, uncertainties and tau",
  "tests compare a few posteriors with stored numbers",
  ["pypfopt/black_litterman.py"],[("posterior","BlackLittermanModel.bl_returns/bl_cov/bl_weights")])
p("C15","Black-Litterman inputs are parsed and defaulted as documented",
  "Absolute views become unit rows of P with the view value in Q for the named asset in every order; default Omega is the diagonal of tau P Sigma P', Idzorek confidences c map to tau (1-c)/c p Sigma p' (decreasing in c, zero at certainty) and to a very large variance at zero confidence; the implied prior is risk_aversion * Sigma w_mkt + rf with market-cap weights matched by name. Inputs of inconsistent shape, unknown tickers or out-of-range tau or confidences are refused.",
  ["inputs","configurations"],"all asset counts, view sets, forms of every argument, and confidence values",
  "tests pass a handful of valid forms and spot-check errors",
  ["pypfopt/black_litterman.py"],[("parsing","BlackLittermanModel.__init__/_parse_views/_set_*"),("omega","BlackLittermanModel.default_omega/idzorek_method"),("prior","market_implied_prior_returns/market_implied_risk_aversion")])
p("C16","CLA turning points are fully invested, on bounds, stationary in the free set",
  "Each step of the critical line algorithm moves to a portfolio whose free weights satisfy the closed-form optimality condition for its free set (covariance times weights = lambda times expected return + gamma on the free assets), with the other assets exactly at one of their bounds and all weights summing to one; lambda is where the moving asset meets the bound it moves to. The starting portfolio is the highest-return portfolio within bounds, with at most one asset off its bounds. The lists of turning points, lambdas, gammas and free sets stay in step; purging removes only points that violate the sum or the bounds beyond the tolerance, or that are dominated in expected return by a later point. Bounds are feasible (lower bounds sum to less than one, upper bounds to at least one), expected returns distinct and every free covariance block positive definite.",
  ["inputs"],"all asset counts, distinct expected returns, positive definite covariances and feasible bounds",
  "tests check stored optima for one data set with uniform bounds",
  ["pypfopt/cla.py"],[("closed forms","CLA._compute_w/_compute_lambda/_compute_bi"),("start","CLA._init_algo"),("slicing","CLA._get_matrices/_reduce_matrix/_get_b"),("steps","CLA._solve"),("purging","CLA._purge_num_err/_purge_excess")])
p("C17","CLA optima and frontier points are exact interpolations of its turning points",
  "Minimum volatility returns the turning point of smallest variance, maximum Sharpe the best of the maximisers between adjacent turning points, and frontier points are convex combinations of adjacent turning points with their own mean and volatility. Weights are returned in the caller's asset order.",
  ["inputs"],"all asset counts, inputs and numbers of frontier points",
  "tests check stored optima and the number of points only",
  ["pypfopt/cla.py"],[("selection","CLA.min_volatility/max_sharpe/_golden_section/_eval_sr"),("frontier","CLA.efficient_frontier")])
p("C18","HRP weights are positive, fully invested and follow recursive bisection",
  "Hierarchical risk parity assigns every asset a positive weight and the weights sum to one for any non-degenerate covariance and any clustering order; at each bisection the two halves share their parent's weight in inverse proportion to their inverse-variance cluster risk. Results use the caller's asset names, and invalid inputs or linkage methods are refused.",
  ["inputs"],"all asset counts, covariances with positive diagonal, return frames and linkage trees",
  "tests compare with stored weights for one data set",
  ["pypfopt/hierarchical_portfolio.py"],[("bisection","HRPOpt._raw_hrp_allocation/_get_cluster_var/_get_quasi_diag"),("entry","HRPOpt.optimize")])
p("C19","Covariance estimators are symmetric and equal their documented formulas",
  "Sample covariance, semicovariance, exponential covariance and the minimum-covariance-determinant wrapper return a frame labelled by asset on both axes whose entries equal the documented formula of the returns times the frequency, before any repair. The result is symmetric and does not depend on whether prices or returns are supplied when they describe the same data.",
  ["inputs","configurations"],"all numbers of assets and periods, return data, frequencies, benchmarks, spans and input forms",
  "tests check shapes and a few stored numbers",
  ["pypfopt/risk_models.py"],[("estimators","risk_models.sample_cov/semicovariance/exp_cov/_pair_exp_cov/min_cov_determinant"),("dispatch","risk_models.risk_matrix")])
p("C20","Shrinkage estimates are convex combinations of sample covariance and target",
  "Every shrinkage estimate equals delta*F + (1-delta)*S times the frequency with delta in [0,1] and F the documented target (constant variance, single factor, constant correlation, scaled identity), labelled by asset. The shrinkage intensity equals the documented Ledoit-Wolf formula clipped to [0,1], and unknown targets are refused.",
  ["inputs","configurations"],"all numbers of assets and periods, return data, delta values and targets",
  "tests check delta in (0,1) and stored values for one data set",
  ["pypfopt/risk_models.py"],[("shrinkage","CovarianceShrinkage.*")])
p("C21","Repairing a matrix leaves PSD input alone and returns a labelled repaired matrix",
  "A positive semidefinite matrix is returned unchanged; otherwise a warning is given and the result is the documented spectral (or diagonal) modification of the input, keeping its labels, and a result that still is not positive semidefinite is warned about. When a repair is needed, unknown methods are refused.",
  ["inputs"],"all square matrices and both repair methods",
  "tests repair two small matrices",
  ["pypfopt/risk_models.py"],[("repair","risk_models.fix_nonpositive_semidefinite/_is_positive_semidefinite")])
p("C22","Covariance and correlation conversions are mutual inverses",
  "Converting a covariance matrix with positive diagonal to correlations yields unit diagonal and entries S_ij/(s_i s_j) with labels kept, and converting back with its standard deviations restores the covariance.",
  ["inputs"],"all asset counts and all matrices with positive diagonal, as frame or array",
  "tests convert one matrix",
  ["pypfopt/risk_models.py"],[("conversion","risk_models.cov_to_corr/corr_to_cov")])
p("C23","Expected-return estimators equal their documented formulas",
  "Mean historical return (compounded or arithmetic), exponentially weighted mean return and CAPM return equal the documented formula per asset of the supplied prices or returns, annualised by the frequency, as a series labelled by asset. The dispatcher selects the named estimator and refuses others.",
  ["inputs","configurations"],"all numbers of assets and periods, price or return data, frequencies, spans, compounding and log-return settings",
  "tests check shapes and stored numbers for one data set",
  ["pypfopt/expected_returns.py"],[("estimators","expected_returns.mean_historical_return/ema_historical_return/capm_return/return_model")])
p("C24","Prices and returns conversions are mutual inverses",
  "Returns computed from prices are p_t/p_{t-1} - 1 (or its logarithm), row for row and column for column, and prices rebuilt from returns start at 1 and reproduce the original prices up to the initial price.",
  ["inputs"],"all numbers of assets and periods and all positive prices, simple and log returns",
  "tests convert one data set",
  ["pypfopt/expected_returns.py"],[("conversion","expected_returns.returns_from_prices/prices_from_returns")])
p("C25","Public calls do not modify the caller's data",
  "No estimator, optimiser, Black-Litterman model or allocation changes the data frames, series, arrays, dictionaries or lists handed to it, so the same inputs can be reused.",
  ["inputs","histories"],"all public entry points and all input forms they accept",
  "tests reuse fixtures but never compare them with a copy",
  ["pypfopt/expected_returns.py","pypfopt/risk_models.py","pypfopt/black_litterman.py","pypfopt/discrete_allocation.py",BO,"pypfopt/cla.py","pypfopt/hierarchical_portfolio.py"],[("input handling","public functions and constructors")])
p("C26","A deep copy of an optimiser optimises like the original and independently of it",
  "A deep copy of an optimiser, taken before or after solving, imposes the same constraints and objectives, and extending or solving one does not affect the problems the other solves later, its weights or its reported figures.",
  ["histories"],"all optimiser states (constraints, objectives, parameters) and all later call sequences",
  "tests copy one unsolved optimiser",
  [BO,EF],[("copying","BaseConvexOptimizer.deepcopy")])
p("C27","Plotted frontier points are the optima for exactly the plotted parameters",
  "Each plotted frontier point is the return and risk of the optimiser's solution for one parameter of the requested range, and parameters that cannot be solved are skipped. The default range runs from the return of the minimum-volatility portfolio to the largest return and is computed on copies. Unknown parameters and optimisers are refused.",
  ["inputs","fault_sequences"],"all parameter ranges, all sequences of solver successes and failures, and all optimiser kinds",
  "tests only check that an axis object comes back",
  ["pypfopt/plotting.py"],[("frontier","plotting._plot_ef/_ef_default_returns_range/_plot_cla")])
p("C28","Latest prices, allocation error and plots report each asset's own number",
  "The latest prices of a price frame are, labelled by asset, each asset's last known price, and anything but a DataFrame is refused. The allocation error is the root of the mean squared difference between each asset's wanted weight and its share in the bought portfolio, zero for an asset that was not bought. A weights plot has one bar for each asset, of its own weight, largest first and named at the bar; a covariance plot shows the given matrix, or its correlations when asked, with rows and columns named by asset; a dendrogram shows the optimiser's own clusters with leaves named by its assets, optimising (with a warning) only when there are none.",
  ["inputs","configurations"],"all price frames with missing entries, weights, prices and allocations, covariance matrices, and optimised or fresh clusterings",
  "tests check one stored price series, two error figures, and that an axis object comes back",
  ["pypfopt/discrete_allocation.py","pypfopt/plotting.py"],[("latest prices","discrete_allocation.get_latest_prices"),("allocation error","DiscreteAllocation._allocation_rmse_error"),("plots","plotting.plot_weights/plot_covariance/plot_dendrogram")])
import os
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
