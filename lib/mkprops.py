"""Single source of properties.jsonl and MANIFEST.json (run: python lib/mkprops.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note=None, state=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": dict({"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                               "observe_at": observe}, **({"state": [{"name": x, "meaning": x, "where": files[0]} for x in state]} if state else {}))})


prop("C01", "Declared constraints define exactly the feasible set",
     "Whatever mix of long-only, per-asset or common bounds, relative bounds, group bounds, extra linear rows and total "
     "weight a user declares, the linear system built from it admits exactly the portfolios that satisfy every declared "
     "restriction - none fewer, none more - for every way of spelling the declaration (one common pair, a list of per-asset "
     "pairs, a mapping by asset position). A restriction contradictory in itself or malformed is rejected with an error instead "
     "of being reinterpreted.",
     ["inputs", "configurations"], "every combination of declarations and every candidate portfolio",
     "A declaration is a region in portfolio space: tests probe a few rows of a few builds, a missing, flipped or mis-indexed "
     "row only shows for particular combinations of declarations and particular portfolios on a face.",
     ["pyvallocation/utils/constraints.py"],
     [("constraint matrix builder", "utils/constraints.py:build_G_h_A_b"),
      ("declarative wrapper", "utils/constraints.py:Constraints")], ["returned matrices G, h, A, b"])
prop("C02", "Optimised portfolios obey the constraints or the call fails",
     "Every portfolio returned by any optimiser or frontier (mean-variance, CVaR, robust, relaxed risk parity; efficient "
     "frontier, return target, minimum risk, maximum return) satisfies every constraint in force for that call - bounds, "
     "budget, groups, relative and extra rows, and the return or risk target that was asked for - up to solver tolerance. "
     "When no portfolio satisfies them the call raises an error; it never returns an infeasible or non-finite portfolio.",
     ["inputs", "configurations"], "every distribution, constraint set, risk model and target",
     "Feasibility has to hold at every point of every frontier for every constraint mix; tests look at sums and signs of a "
     "few portfolios under long-only budgets.",
     ["pyvallocation/optimization.py", "pyvallocation/portfolioapi.py"],
     [("optimisers", "optimization.py:MeanVariance, MeanCVaR, RobustOptimizer, RelaxedRiskParity"),
      ("wrapper entry points", "portfolioapi.py:PortfolioWrapper.*frontier, *portfolio_at_return, *portfolio")],
     ["returned weights", "raised exceptions"])
prop("O01", "Mean-variance portfolios are optimal",
     "A mean-variance portfolio returned for a target has the smallest variance (plus quadratic transaction cost, when costs "
     "are given) among all portfolios that satisfy the constraints and the target, the maximum-return portfolio has the "
     "largest expected return, and a frontier runs from the minimum-risk to the maximum-return portfolio with every point "
     "optimal for its own return. The direct maximum-Sharpe solve returns an admissible portfolio of largest excess return per "
     "unit of volatility. Reported returns and risks are those of the reported weights.",
     ["inputs", "configurations"], "every mean, covariance, constraint set, target and cost vector",
     "Optimality is a statement against all competing portfolios; tests compare with at most a few hand-made ones.",
     ["pyvallocation/optimization.py", "pyvallocation/portfolioapi.py"],
     [("quadratic programme", "optimization.py:MeanVariance"), ("frontier sweep", "optimization.py:_FrontierMixin"),
      ("wrapper", "portfolioapi.py:variance_frontier, min_variance_at_return")],
     ["returned weights, returns, risks"])
prop("O02", "CVaR portfolios are optimal for the scenario set",
     "A CVaR portfolio returned for a target has the smallest conditional value-at-risk (plus proportional transaction cost, "
     "when costs are given) under the given scenarios, probabilities and confidence level among all portfolios that satisfy "
     "the constraints and the target, and every point of a CVaR frontier is optimal for its own return. Reported returns and "
     "CVaRs are those of the reported weights.",
     ["inputs", "configurations"], "every scenario set, probability vector, confidence level, constraint set and target",
     "The optimum is over all portfolios and depends on scenario probabilities and ties at the quantile; tests only check "
     "monotonicity of a few frontiers with equal probabilities.",
     ["pyvallocation/optimization.py", "pyvallocation/portfolioapi.py"],
     [("linear programme", "optimization.py:MeanCVaR"), ("wrapper", "portfolioapi.py:cvar_frontier, min_cvar_at_return")],
     ["returned weights, returns, risks"])
prop("O03", "Robust portfolios optimise the stated penalised objective",
     "For every penalty the robust optimiser returns an admissible portfolio that maximises nominal return minus the penalty "
     "times the mean-uncertainty radius (the norm of the weights under the uncertainty matrix) minus proportional transaction "
     "costs; the budgeted variant maximises the same objective among portfolios whose squared radius stays within the budget. "
     "Reported returns and radii are those of the reported weights, and a robust frontier holds one portfolio per requested "
     "penalty in order of increasing radius, with returns, overlays and penalties that belong to the listed weights.",
     ["inputs", "configurations"], "every mean, uncertainty matrix, penalty, budget and constraint set",
     "Second-order-cone optimality and the pairing of metadata after sorting and de-duplication depend on the instance; tests "
     "check shapes of one or two frontiers.",
     ["pyvallocation/optimization.py", "pyvallocation/portfolioapi.py"],
     [("cone programme", "optimization.py:RobustOptimizer"), ("wrapper", "portfolioapi.py:robust_lambda_frontier, solve_robust_*")],
     ["returned weights, returns, risks, metadata"])
prop("O04", "Relaxed risk parity solves its programme and equalises risk",
     "A relaxed risk parity portfolio is long-only, fully invested (or meets the declared budget), satisfies every declared "
     "constraint and the return target it reports, and no such portfolio with non-negative marginal risks has a smaller regularised parity gap. "
     "Without regulator, target or extra constraint its risk contributions equal the risk budgets (equal shares by default). "
     "A requested target is used as requested unless it exceeds what is attainable, when it is clipped just below the "
     "largest attainable return; a multiplier is relative to the risk-parity return. Reported risk contributions, volatility, "
     "return, gap and targets belong to the reported weights.",
     ["inputs", "configurations"], "every covariance, mean, target multiplier, regulator and constraint set",
     "Parity and the gap objective are properties of the whole simplex of portfolios for each covariance; tests check one "
     "fixed instance.",
     ["pyvallocation/optimization.py", "pyvallocation/portfolioapi.py"],
     [("conic programme", "optimization.py:RelaxedRiskParity"), ("wrapper", "portfolioapi.py:relaxed_risk_parity_*")],
     ["returned weights, diagnostics"])
prop("R01", "VaR, CVaR and variance are exact for discrete scenarios",
     "For any scenario set, probability vector and confidence level, value-at-risk is the loss quantile of the weighted "
     "discrete distribution, conditional value-at-risk the average of the worst tail with the boundary scenario counted only "
     "for the probability still needed, and both are reported as positive losses with CVaR at least VaR; portfolio variance "
     "and volatility are the quadratic form and its root. Equal scenarios may be merged or reordered, and zero-probability "
     "scenarios dropped, without changing any value, and the caller's data are left untouched.",
     ["inputs"], "every scenario matrix, weights, probabilities, confidence level and demeaning flag",
     "The tail rules differ only at ties, at the quantile boundary and with unequal or zero probabilities; the tests use "
     "smooth equal-probability samples.",
     ["pyvallocation/utils/functions.py"],
     [("VaR and CVaR", "utils/functions.py:portfolio_var, portfolio_cvar"),
      ("variance", "utils/functions.py:portfolio_variance, portfolio_volatility")], ["returned numbers"])
prop("Q01", "Scenario probabilities are always a proper distribution",
     "Every probability vector the library generates is non-negative, sums to one, has one entry per scenario in scenario "
     "order and follows its stated law (uniform, halving every half-life with the newest scenario heaviest, kernel "
     "decreasing in distance); every probability vector a user supplies is either used faithfully or rejected. Effective "
     "scenario numbers lie between one and the number of scenarios and reach these bounds exactly for point-mass and "
     "uniform distributions.",
     ["inputs"], "every length, half-life, bandwidth, reference value and supplied vector",
     "The laws are ratios between all pairs of entries for every parameter; tests check sums for a couple of lengths.",
     ["pyvallocation/probabilities.py", "pyvallocation/utils/validation.py"],
     [("generators", "probabilities.py:generate_*"), ("resolution of supplied vectors", "probabilities.py:resolve_probabilities"),
      ("effective numbers", "probabilities.py:compute_effective_number_scenarios*")], ["returned vectors", "raised errors"])
prop("F01", "Frontier queries select the right portfolio",
     "Asking a frontier for its minimum-risk, maximum-return, tangency, risk-budget, return-target, closest-risk, percentile "
     "or indexed portfolio returns exactly the stored column that meets that definition - under the risk measure asked for - "
     "together with that column's return and risk and the asset labels; an unattainable request raises instead of returning "
     "a different portfolio. Queries never change the frontier, so any sequence of queries gives each the same answer.",
     ["inputs", "histories"], "every frontier (ties, unsorted columns, alternate risk measures) and every query sequence",
     "Which column is right depends on ties, ordering, tolerance and the selected measure; tests use one small sorted frontier "
     "and single queries.",
     ["pyvallocation/portfolioapi.py"],
     [("frontier container and selectors", "portfolioapi.py:PortfolioFrontier")], ["returned (weights, return, risk)"],
     state=["frontier weights, returns, risks, alternate risks, metadata"])
prop("D01", "Share allocations balance to the cent and follow the stated rule",
     "Turning weights into shares never spends more than the portfolio value: purchases are whole lots of the requested "
     "assets only, value of the shares plus leftover cash equals the portfolio value, and achieved weights and tracking "
     "error are those of the shares. The greedy allocator gives each long asset at least its rounded-down lots, overshoots "
     "a target by less than one lot and leaves no underweight asset it could still afford; the exact allocator attains the "
     "least tracking error plus penalised cash over all affordable lot vectors, also with short positions and lot sizes.",
     ["inputs"], "every weight vector, price list, lot-size map, portfolio value and allocator option",
     "The rule is a statement over all lot vectors and over the order of purchases; a wrong cap, tie-break or lot multiple "
     "only shows for particular price/value/lot combinations.",
     ["pyvallocation/discrete_allocation.py"],
     [("input normalisation", "discrete_allocation.py:DiscreteAllocationInput"), ("greedy loop", "discrete_allocation.py:allocate_greedy"),
      ("integer programme", "discrete_allocation.py:allocate_mip")], ["shares, leftover cash, achieved weights, tracking error"])
prop("E01", "Blended portfolios are exact combinations of their inputs",
     "Averaging sample portfolios or frontiers returns exactly the normalised weighted mean of the selected columns, aligned "
     "by asset name; exposure stacking returns a portfolio inside the convex hull of the candidates that minimises the "
     "stated fold-wise leave-one-out criterion. Candidates that disagree on their asset universe or ensemble weights that do not match are rejected, "
     "never silently mixed up.",
     ["inputs", "configurations"], "every set of sample portfolios, frontiers, selections and ensemble weights",
     "Misaligned rows, columns or weights still give plausible portfolios; only an exact comparison over many label orders "
     "and selections shows it.",
     ["pyvallocation/ensembles.py"],
     [("averaging", "ensembles.py:average_exposures, average_frontiers"), ("stacking", "ensembles.py:exposure_stacking, exposure_stack_frontiers"),
      ("percentile selections", "ensembles.py:risk_percentile_selections")], ["combined weights"])
prop("E02", "Ensemble runs are repeatable and specs are independent",
     "An assembled ensemble returns for every named specification exactly the frontier that specification builds and the "
     "selection it asks for, combined from exactly those selections; specifications can be reused in any order and any "
     "number of times and each run gives the same answer as a first run. One specification's options never leak into "
     "another's or into the distribution, constraints or solver settings the caller holds.",
     ["histories", "configurations"], "every sequence of runs over shared specifications, selectors and distributions",
     "State carried from one run to the next is invisible in a single call; tests build each specification once.",
     ["pyvallocation/ensembles.py", "pyvallocation/portfolioapi.py", "pyvallocation/optimization.py"],
     [("specifications", "ensembles.py:PortfolioSpec, make_portfolio_spec, _build_selector"), ("assembly", "ensembles.py:assemble_portfolio_ensemble"),
      ("solver option scope", "optimization.py solver options context")], ["ensemble results, frontiers, selections"])
prop("W01", "Answers depend only on the current inputs, never on history",
     "A portfolio object (wrapper or optimiser) answers every request from the distribution, constraints and costs in force at that moment: earlier "
     "frontiers, failed calls, per-call overrides and other objects built from the same data leave no trace, and later "
     "changes to arrays the caller handed in or received back from a call never alter a distribution, a frontier or a later answer. "
     "No call modifies the caller's arrays, frames or mappings.",
     ["histories"], "every interleaving of constraint changes, optimisations (successful or failed), overrides and caller mutations",
     "A leak needs a particular earlier call before a particular later one; tests exercise each method on a fresh object.",
     ["pyvallocation/portfolioapi.py", "pyvallocation/optimization.py"],
     [("wrapper state", "portfolioapi.py:PortfolioWrapper"), ("immutable distribution", "portfolioapi.py:AssetsDistribution")],
     ["returned portfolios", "caller-held inputs"], state=["distribution, constraints, costs, solver options"])
prop("L01", "Results follow asset labels, not positions",
     "Wherever inputs carry asset or scenario labels, results are labelled with the same assets and attached to the right "
     "ones: presenting the same data with assets in another order permutes the results and changes nothing else, and inputs "
     "whose labels cannot be matched to the assets are rejected rather than matched by position; labelled inputs that come "
     "in differing orders are matched by label or rejected, and figures without labels keep their positions.",
     ["inputs"], "every ordering of labelled means, covariances, scenarios, weights, views, risk budgets and costs",
     "A positional slip gives well-formed numbers on the wrong assets and is invisible unless inputs are permuted.",
     ["pyvallocation/portfolioapi.py", "pyvallocation/utils/weights.py", "pyvallocation/moments.py", "pyvallocation/views.py",
      "pyvallocation/stress.py", "pyvallocation/utils/performance.py"],
     [("distribution alignment", "portfolioapi.py:AssetsDistribution"), ("weight coercion", "utils/weights.py"),
      ("label propagation", "moments.py:_labels, _wrap")], ["labels and values of results"])
prop("N01", "Answers depend on the numbers, not on how they are stored",
     "Wherever numbers are passed as arrays, the answer depends on the numbers alone: integer element types, C or Fortran "
     "order, arrays with gaps or reversed axes, write-protected arrays and, where array-likes are documented, nested lists and "
     "tuples give the answer contiguous floating-point arrays give, and no array of the caller's is written to.",
     ["inputs"], "every layout, element type and container of every numeric input",
     "A dependence on storage gives well-formed but wrong numbers, or errors, only for callers who pass views or integers; "
     "tests pass fresh floating-point arrays.",
     ["pyvallocation/optimization.py", "pyvallocation/moments.py", "pyvallocation/probabilities.py", "pyvallocation/utils/functions.py",
      "pyvallocation/utils/projection.py", "pyvallocation/utils/weights.py", "pyvallocation/stress.py", "pyvallocation/views.py",
      "pyvallocation/bayesian.py", "pyvallocation/ensembles.py"],
     [("optimiser inputs", "optimization.py:_init_constraints"), ("array conversions", "every public numeric function")],
     ["results for re-stored inputs", "inputs after the call"])
prop("V01", "Entropy pooling gives the closest distribution meeting the views",
     "The posterior scenario probabilities are a probability vector that meets every stated condition to solver accuracy "
     "and, among all vectors that do, has the least relative entropy to the prior. Views become these conditions: mean, relative "
     "and ranking views on expected returns, quantile views on the probability of falling to or below a level, volatility, "
     "variance, skewness and correlation views on second and third moments with the lower moments held at their reference "
     "values (those of the prior, or of the posterior under the mean views alone when these are stated too), as equalities, "
     "one-sided or two-sided; tail views fix probability and mean of a worst-scenario set, each solved on top of the views "
     "before it. Sequential processing applies the blocks in the documented order, each to the posterior of the one before. Without views the "
     "posterior is the prior. Posterior mean and covariance are those of the posterior probabilities; views that cannot be "
     "met or are malformed raise an error, and caller-held views and scenarios are not modified.",
     ["inputs", "configurations"], "every scenario set, prior and combination of views",
     "Least relative entropy and satisfaction are statements over all probability vectors; tests check a mean or two.",
     ["pyvallocation/views.py"],
     [("entropy pooling", "views.py:entropy_pooling"), ("view translation", "views.py:FlexibleViewsProcessor")],
     ["posterior probabilities, posterior mean and covariance"])
prop("B01", "Black-Litterman posteriors equal the closed form",
     "For every prior, view set and confidence the posterior mean and covariance equal the Black-Litterman formulas: no views "
     "return the prior (or equilibrium) mean, confidences move the posterior monotonically from the prior to exact "
     "satisfaction of the view at full confidence, absolute and relative views act on the named assets with the stated "
     "sign, and adding a view never increases posterior uncertainty of the mean. Caller inputs are not modified and "
     "inconsistent specifications are rejected.",
     ["inputs"], "every prior, view matrix, confidence vector and view-uncertainty choice",
     "The formula must hold for every number of assets, view mix and confidence; tests compare one or two examples.",
     ["pyvallocation/views.py", "pyvallocation/moments.py"],
     [("posterior", "views.py:BlackLittermanProcessor"), ("convenience wrapper", "moments.py:posterior_moments_black_litterman")],
     ["posterior mean and covariance"])
prop("B02", "Bayesian posterior updates equal the conjugate formulas",
     "Normal-inverse-Wishart updating returns exactly the conjugate posterior (pseudo-counts, mean, scale) and the derived "
     "estimators, mean-uncertainty matrices and credibility radii that belong to it, in any units conversion offered. A "
     "posterior can be computed once per object, its quantities are only available after that, and reading them never "
     "changes them.",
     ["inputs", "histories"], "every prior, sample and order of calls",
     "Each formula must hold for every dimension and count, and the life cycle for every call order; tests check one instance.",
     ["pyvallocation/bayesian.py", "pyvallocation/moments.py"],
     [("update", "bayesian.py:NIWPosterior"), ("bundle", "bayesian.py:RobustBayesPosterior")], ["posterior parameters and accessors"],
     state=["posterior not computed / computed"])
prop("S01", "Stress tests compare the same portfolio under both distributions",
     "A stress test reports, for every portfolio, the expected return, volatility, VaR, CVaR and effective number of scenarios of exactly "
     "that portfolio under the nominal distribution and under the stressed one - supplied or posterior probabilities, exponential decay, "
     "a Gaussian kernel around a state, or linearly transformed scenarios - with weights matched to assets by label, and the relative "
     "entropy of the stressed to the nominal probabilities. An unchanged distribution shows no change; weights, probabilities, focus "
     "series or transformations that do not fit the scenarios are rejected. A stress of the risk drivers compares simulated moves drawn "
     "from history with moves drawn under the stated views.",
     ["inputs", "configurations"], "every portfolio set, scenario set, baseline and stressed distribution and transformation",
     "Swapping baseline and stressed, or using one portfolio's weights for another, still yields plausible tables; only an "
     "exact recomputation per portfolio shows it.",
     ["pyvallocation/stress.py", "pyvallocation/utils/performance.py"],
     [("stress tests", "stress.py:stress_test, stress_invariants, exp_decay_stress, kernel_focus_stress, entropy_pooling_stress"),
      ("linear transformation", "stress.py:linear_map")], ["stress tables"])
prop("S02", "Performance reports describe the P&L they are given",
     "Scenario P&L, expected return, volatility, VaR, CVaR, effective scenarios, horizon and drawdown figures reported for a portfolio "
     "equal those of its weights on the given scenarios and probabilities, with labelled weights matched to asset columns by name and "
     "rejected when the labels differ; each horizon's figures use only scenarios projected to that horizon, and drawdowns are the "
     "largest relative falls from the running peak of wealth, starting at the initial wealth, along each simulated path.",
     ["inputs"], "every scenario set or path set, weights, probabilities and confidence level",
     "A wrong axis, weight or probability leaves a well-formed report; only exact recomputation on unequal data shows it.",
     ["pyvallocation/utils/performance.py"],
     [("reports", "utils/performance.py:performance_report, scenario_pnl, horizon_report, drawdown_quantile")], ["report values"])
prop("J01", "Projected scenarios are sums of possible one-period moves",
     "Every projected scenario equals the sum of exactly as many one-period scenarios as the horizon, each drawn from "
     "scenarios of positive probability and drawn jointly across assets, reproducibly for a given seed; simulated paths are "
     "the running totals, mean and covariance scale with the horizon as stated, and repricing applies each asset's own "
     "pricing function to its own invariants, at every step. Log and simple returns, and their means and covariances, convert back and "
     "forth without loss; probabilities or horizons that do not fit are rejected.",
     ["inputs"], "every invariant set, probability vector, horizon, number of simulations and seed",
     "Tests check shapes and one moment; mixing assets from different scenarios, off-by-one horizons or using forbidden "
     "scenarios leave shapes and rough moments intact.",
     ["pyvallocation/utils/projection.py"],
     [("projection", "utils/projection.py:project_scenarios, simulate_paths, project_mean_covariance, convert_scenarios_*"),
      ("repricing", "utils/projection.py:reprice_*, make_repricing_fn, compose_repricers")], ["projected scenarios, paths, prices"])
prop("M01", "Moment estimates are exact or stay between data and target",
     "Sample moments equal the probability-weighted mean and covariance; shrinkage estimates lie on the segment between the sample "
     "estimate and the stated target with the published weight, between zero and one; every covariance estimate is symmetric, positive "
     "semidefinite and keeps the asset labels, with a single asset too; exponentially weighted and robust estimates follow their stated recursion "
     "or fixed point, and automatic choices (factor number by eigen-gap, block counts) are the documented ones. Estimators do not modify the data they are given.",
     ["inputs"], "every return matrix, probability vector and estimator option",
     "Definiteness, segment membership and weights must hold for every sample shape, including fewer observations than "
     "assets and degenerate columns; tests use one well-behaved sample.",
     ["pyvallocation/moments.py", "pyvallocation/utils/validation.py"],
     [("sample moments", "moments.py:estimate_sample_moments, estimate_moments"), ("shrinkage", "moments.py:shrink_*"),
      ("other covariance estimators", "moments.py:covariance_ewma, factor_covariance_poet, robust_covariance_tyler, sparse_precision_glasso"),
      ("PSD repair", "utils/validation.py:ensure_psd_matrix")], ["estimated moments"])
prop("X01", "Price data become the returns they imply",
     "Prices turned into returns give one row per consecutive pair of observations with each asset's own simple or log "
     "return, in order and with labels, and distributions built from prices, scenarios, moments, projected invariants or a "
     "posterior carry exactly the moments, scenarios, probabilities and labels those inputs imply. Missing, infinite, "
     "non-positive or inconsistently shaped data are rejected, or filled and dropped only where that is asked for, and later "
     "changes to the caller's arrays do not reach a distribution.",
     ["inputs"], "every price frame, scenario set, probability vector and construction route",
     "A shifted row, a dropped column or an unvalidated entry still produces a usable distribution; tests build two or three.",
     ["pyvallocation/portfolioapi.py", "pyvallocation/utils/data_helpers.py"],
     [("factories", "portfolioapi.py:AssetsDistribution, PortfolioWrapper.from_*"), ("conversions", "utils/data_helpers.py")],
     ["distribution contents", "raised errors"])

prop("G01", "Charts show the figures of what they draw",
     "A chart shows exactly the stored figures of what it was given: each frontier is one line through its own risk-return "
     "pairs under the risk on the axis, none is lost or drawn twice however frontiers are labelled or grouped, highlighted "
     "portfolios stand where their recorded index, figures, weights and metadata say, weight bars carry each asset's own "
     "weight and name, parameter charts pair each parameter with its own portfolio, a report marks and breaks down the same "
     "selected portfolio, and ellipsoids and clouds are the given moments and scenarios. Requests that cannot be drawn are "
     "refused, and drawing changes no input.",
     ["inputs"], "every set of frontiers, labels, grouping, risk label, selection, weights, parameters and moments",
     "A mispaired colour, a frontier overwritten by a namesake or a marker from another risk measure still yields a picture; "
     "tests count axes and patches of one example.",
     ["pyvallocation/plotting.py"],
     [("frontier charts", "plotting.py:plot_frontiers, plot_frontiers_grid, _resolve_highlight"), ("report", "plotting.py:plot_frontier_report"),
      ("weights", "plotting.py:plot_weights"), ("parameters", "plotting.py:plot_robust_path, plot_param_impact, plot_robust_surface"),
      ("assumptions", "plotting.py:plot_assumptions_3d, _project_to_3d, _ellipsoid_mesh")], ["objects drawn on the axes", "raised errors"])

if __name__ == "__main__":
    claimed = json.load(open(os.path.join(V, "lib", "registry.json")))
    notes = json.load(open(os.path.join(V, "lib", "notes.json")))
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps(p) + "\n")
    checks = []
    for p in P:
        if p["id"] in claimed:
            n = notes.get(p["id"], {})
            checks.append({"property": p["id"], "quick_cmd": f"/opt/venv/bin/python check.py {p['id']} quick",
                           "thorough_cmd": f"/opt/venv/bin/python check.py {p['id']} thorough",
                           "technique": n.get("technique", "TLA+ model checked with TLC; behaviours replayed and traces validated"),
                           "level": "model_checking", "level_note": n.get("level_note", "")})
    na = [{"property": p["id"], "reason": notes.get(p["id"], {}).get("reason", "check not built yet")}
          for p in P if p["id"] not in claimed]
    json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python setup_check.py", "checks": checks, "not_applicable": na,
               "notes": "No hooks: the public API exposes the abstract state. See DESIGN.md."},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
