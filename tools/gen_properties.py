#!/usr/bin/env python3
"""Single place where /verif/properties.jsonl is written from (run by hand when a statement changes)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=' '.join(statement.split()),
             quantifier=dict(over=over, text=' '.join(qtext.split())),
             why_tests_cant=' '.join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    P.append(d)

F = 'pyforecaster/formatter.py'
prop('C01', 'Generated features use exactly the past window their metadata declares',
 """For regularly sampled data, the value of a lagged, aggregated or binned feature at a row is the declared function of
 exactly the samples whose time lies in [row time + declared start, row time + declared end) of the signal the metadata
 names (the latest of them when no function is declared), so a feature with only non-negative lags never depends on a sample
 later than its row. It is missing whenever a sample it needs is missing or outside the data, and present whenever all samples
 between its window and its row are inside. The declared metadata has one entry per generated column, in column order, and
 does not depend on whether it came from transforming data or from a dry run.""",
 ['inputs', 'configurations'],
 "all signals, lengths, sampling periods, lag lists of either sign, aggregation windows, relative lags, bin edges and function lists",
 """one test checks non-anticipativity for one configuration by inserting a spike; no test compares the values or the
 metadata with the declared window, and none varies lag sign, relative lags, bins and functions together""",
 [F], [('window/lag/bin arithmetic', F+': Transformer.transform'), ('bin reducer', F+': Reducer'), ('dry run', F+': Formatter._simulate_transform')],
 state=[('metadata', 'declared time window of each generated column', F+': Transformer.metadata')],
 observe=['Formatter.transform', 'Transformer.transform', 'Transformer.metadata'])

prop('C02', 'Formatted features and targets stay row-aligned, complete and NaN-free',
 """After formatting with targets, the feature table and the target table have the same row times in the same order as the
 input, contain no missing generated value, and contain every input row for which all generated features and targets are
 defined. Formatting the same data without targets gives the same feature values on those rows and additionally keeps the
 rows whose only missing part is the target; calendar columns equal each row's own local clock values.""",
 ['inputs', 'configurations'],
 "all input tables (any length, gaps of missing values in any column, tz-aware or not) and all transform / target configurations",
 "the tests only look at shapes for two fixed tables without missing values",
 [F], [('NaN row filter', F+': Formatter._transform'), ('calendar columns', F+': Formatter.add_time_features'), ('global form stacking', F+': Formatter.global_form_preprocess')],
 observe=['Formatter.transform'])

prop('C03', 'Time cross-validation folds cannot leak between train and test',
 """For every fold generated for a time index, the test rows are exactly the rows inside one time window, and a row is used
 for training exactly when its time is farther from that window, on either side, than the longest look-back (or look-ahead
 start) of any declared feature. Train and test rows are therefore disjoint and no training feature that looks only backwards reads a test sample;
 the test windows have equal length and together cover the whole index.""",
 ['inputs', 'configurations'],
 "all regular or irregular increasing time indexes, fold counts, multiplier factors and feature declarations",
 "the tests only iterate over the folds without asserting anything about them",
 [F], [('deadband and windows', F+': Formatter.time_kfcv')], observe=['Formatter.time_kfcv'])

prop('C04', 'Target normalisation is undone exactly and touches only its own signal',
 """For every mutually inverse pair of normalising expressions, denormalising a normalised target (or a table of target
 quantiles) with the normaliser columns of the same rows returns the un-normalised target. Normalising rewrites exactly the
 feature and target columns derived from the normalised signal, once each, and leaves every other column as it was.""",
 ['inputs', 'configurations'],
 "all tables, normaliser windows, invertible expressions and sets of signals",
 "the tests compare one round trip for two expressions, one of them without an absolute value; no test looks at the other columns",
 [F], [('normalise / denormalise', F+': Formatter.normalize, normalize_target_inner, denormalize'), ('normaliser columns', F+': Formatter.add_normalizing_columns')],
 observe=['Formatter.transform', 'Formatter.denormalize'])

FC='pyforecaster/forecaster.py'; GB='pyforecaster/forecasting_models/gradientboosters.py'; BM='pyforecaster/forecasting_models/benchmarks.py'
prop('C05', 'Residual-based quantile forecasts equal point forecast plus residual quantile',
 """For residual-based forecasters (linear, boosted trees, hybrids, persistence), the quantile forecast at a row, step and
 level equals the point forecast at that row and step plus the empirical quantile at that level of the calibration residuals
 of that step, taken over residuals observed at the row's hour when calibration is conditional on the hour and covers all 24
 hours, and over all residuals otherwise. Hence quantile forecasts never cross, and every forecast row, step and level is
 produced whatever hours the rows fall on.""",
 ['inputs', 'configurations'],
 "all calibration and prediction tables, horizons, quantile levels, hours present, conditional or unconditional calibration",
 "the boosters' tests cannot run (data not shipped) and the others check no quantile value",
 [FC, GB, BM], [('residual quantiles', FC+': ScenarioGenerator._estimate_err_distr'), ('hourly offset', FC+': LinearForecaster._predict_quantiles, LGBForecaster._predict_quantiles; '+GB+': LGBMHybrid._predict_quantiles')],
 state=[('err_distr', 'residual quantiles per hour and step', FC+': ScenarioGenerator.err_distr')],
 observe=['predict_quantiles'])

RF='pyforecaster/forecasting_models/randomforests.py'
prop('C06', 'Quantile tables and quantile arrays are the same forecast',
 """For every forecaster, the labelled quantile table and the quantile array of the same forecast agree: the entry labelled
 (target, level) at a row is the array entry at that row, that target's position and that level's position. Scores,
 scenarios and probability masses computed from either form therefore describe the same forecast, and the masses of a row are
 the fraction of predicted quantiles in each cell.""",
 ['inputs', 'configurations'],
 "all numbers of rows, targets and levels (equal or not), and all forecasters that produce quantiles",
 "tests look at array shapes, and only for sizes where a transposition is visible by chance",
 [FC, RF, 'pyforecaster/utilities.py', 'pyforecaster/forecasting_models/statsmodels_wrapper.py'],
 [('table/array conversion', FC+': ScenarioGenerator.quantiles_to_df, quantiles_to_numpy, predict_quantiles; '+RF+': QRF.quantiles_to_numpy'), ('probability mass', FC+': ScenarioGenerator.predict_pmf'), ('tensor helpers', 'pyforecaster/utilities.py')],
 observe=['predict_quantiles', 'predict_pmf'])

prop('C07', 'The post-fit row cap picks exactly that many rows, reproducibly',
 """When a post-fit row cap m is set and more than m rows are available, the rows used for calibration are exactly m distinct
 rows of the original data, features and targets of the same rows, in time order, and the same rows for the same seed. No
 hour contributes more rows than it has; without a cap, or with at most m rows, the data is used unchanged.""",
 ['inputs', 'configurations'],
 "all data sizes, caps, hour distributions, duplicate or unsorted time labels, seeds",
 "the tests sample three sizes of one evenly distributed index",
 [FC], [('row subsampling', FC+': ScenarioGenerator._maybe_subsample_for_scengen, _subsample_stratified_by_hour, _subsample_uniform, _order_rows_by_index_order')],
 observe=['ScenarioGenerator.fit'])

prop('C08', 'Train/validation split and sequence targets keep time order and pairing',
 """With a validation fraction, the training rows are the chronologically first rows and the validation rows are all the
 remaining ones: disjoint, complete, never shuffled, features paired with their own targets. Sliding-window (Hankel) matrices
 built for multi-step models hold in row i, column j the sample at position i plus the j-th generator offset, with all and
 only the rows whose window is complete.""",
 ['inputs', 'configurations'],
 "all lengths, fractions, window generators and horizons",
 "tests use one split ratio and one window length",
 [FC, 'pyforecaster/forecasting_models/fast_adaptive_models.py', 'pyforecaster/forecasting_models/holtwinters.py'],
 [('split', FC+': ScenarioGenerator.train_val_split'), ('sliding windows', 'pyforecaster/forecasting_models/holtwinters.py: hankel; fast_adaptive_models.py')],
 observe=['train_val_split'])

HW='pyforecaster/forecasting_models/holtwinters.py'; FA='pyforecaster/forecasting_models/fast_adaptive_models.py'
prop('C09', 'Online forecasters are causal and do not lose their place',
 """The forecast an online model (exponential smoothing, adaptive Fourier, Kalman Fourier, persistence) issues for a row
 depends only on target samples up to and including that row: changing any later sample changes no earlier forecast. Its
 memory after processing a series is the last samples of old memory followed by the new samples. Asking the Fourier models for
 forecasts does not alter their fitted state, so repeating a request gives the same answer, while exponential smoothing
 continues where it stopped: forecasting a series in consecutive pieces equals forecasting it at once.""",
 ['inputs', 'histories'],
 "all series, memory lengths, horizons, and sequences of fit and predict calls",
 "no test changes future samples or repeats a request; the online models' tests only plot",
 [HW, FA, BM], [('online loops', HW+': HoltWinters.run; '+FA+': Fourier_es, FK, FK_multi'), ('recent history', FA)],
 observe=['predict'])

prop('C10', 'Holt-Winters forecasts follow the additive recursion',
 """One pass of the exponential-smoothing model over a series reproduces the additive Holt-Winters equations: level, trend
 and seasonal terms are updated with their own smoothing factors in order, each seasonal term is the one of the row's own
 phase of its own season, and the forecast k steps ahead is level plus k trends plus the seasonal terms of the phase k steps
 ahead. Updated seasonal terms stay within the declared constraints, and smoothing factors proposed by the tuner stay within
 their declared ranges.""",
 ['inputs', 'histories'], "all series, seasonal periods, initial states, smoothing factors and horizons",
 "tests compare plots and one benchmark run, no recursion identity",
 [HW], [('recursion', HW+': HoltWinters')], observe=['HoltWinters.predict'])

prop('C11', 'Kalman filter steps compute the exact Bayesian posterior',
 """For every linear-Gaussian model with positive definite noise, the prediction step returns mean F x and covariance
 F P F' + Q and the update step returns the conditional mean and the conditional covariance of the state given the
 observation. The covariance after an update is symmetric positive semidefinite, and never larger than before it.""",
 ['inputs'], "all dimensions, states, covariances, observation models and noise covariances",
 "no test compares a filter step with the posterior; the tests that use it are about plots",
 ['pyforecaster/utilities.py', FA], [('filter steps', 'pyforecaster/utilities.py: kalman_predict, kalman_update, kalman')],
 observe=['kalman_update', 'FK.predict'])

SR='pyforecaster/scenred.py'; TB='pyforecaster/tree_builders.py'; SG='pyforecaster/scenarios_generator.py'
prop('C12', 'Scenario reduction conserves probability and yields a consistent tree',
 """Reducing any set of scenarios to a tree keeps total probability one at every time step, gives each parent the sum of its
 children's probabilities, uses only values of the original scenarios, links each node to exactly one parent one step
 earlier, and has at each step no more nodes than requested. All leaves are at the last step and the caller's scenarios are
 not modified.""",
 ['inputs', 'configurations'], "all scenario sets (ties and duplicates included), weights, node budgets, tolerances and metrics",
 "tests plot trees and check the probability sum for a handful of random draws",
 [SR, TB], [('backward reduction and tree build', SR+': scenred')], observe=['scenred', 'ScenredTree.gen_tree'])

prop('C13', 'Quantile trees have the requested shape, exact probabilities and in-range values',
 """A quantile tree has exactly the requested number of nodes at each step (one root), every non-leaf at a step has the same
 number of children, a node's probability is the fraction of leaves below it (one at the root, parents equal to the sum of
 their children), and every node value is a quantile of the scenarios' values at that node's own time step. The per-scenario
 index paths retrieved from a tree are exactly its root-to-leaf paths.""",
 ['inputs', 'configurations'], "all scenario sets and node-per-step lists with integer branching",
 "one tree shape is tested for its probabilities and no test looks at values per step",
 [TB, SR], [('tree skeleton', TB+': ScenarioTree.gen_init_tree, init_vals'), ('paths', SR+': retrieve_scenarios_indexes')], observe=['QuantileTree.gen_tree'])

prop('C14', 'Scenarios are draws through the predicted quantile function',
 """Each scenario value is the predicted quantile function of its own row and step evaluated at the sampled copula value:
 piecewise-linear between the predicted levels, monotone in the copula value, and between the two adjacent predicted quantiles
 inside the predicted levels. A pre-fitted tree is turned into a forecast tree by adding, to every node at step t, the point
 forecast of step t, leaving structure, probabilities and the stored trees unchanged; with an additional node the first step
 is the supplied initial observation.""",
 ['inputs', 'configurations'], "all quantile matrices, levels, copula samples, horizons, trees and initial observations",
 "tests check output shapes and compare re-estimated quantiles loosely for one model",
 [SG, SR], [('interpolation', SG+': interp_scens'), ('sampling', SG+': ScenGen.sample_scenarios'), ('superposition', SR+': superimpose_signal_to_tree; '+SG+': tree_gen')],
 observe=['ScenGen.predict_scenarios', 'ScenGen.predict_trees'])

CP='pyforecaster/copula.py'
prop('C15', 'Copula samples use the dependence of their own hour',
 """The hourly copula stores, for each hour in the data, a correlation matrix estimated only from that hour's rows (symmetric,
 unit diagonal up to regularisation), and each sampled row is drawn with the matrix of its own hour, whatever the order of
 rows. Samples lie in [0, 1] with shape rows x steps x scenarios, are uniform per step, and every row is filled.""",
 ['inputs', 'configurations'], "all residual tables, hour patterns, horizons (including one), numbers of rows and scenarios",
 "tests only check shapes",
 [CP], [('fit/sample', CP+': HourlyGaussianCopula.fit, sample')], observe=['HourlyGaussianCopula.sample'])

RC='pyforecaster/reconciliation/reconciliation.py'
prop('C16', 'Reconciled forecasts add up and stay on their own series',
 """For every hierarchy, reconciliation method and order of the series in the input, the reconciled forecast of every
 aggregated series equals the sum of the reconciled forecasts of the series below it, and each reconciled column belongs to
 the series its label names. Forecasts that already add up are returned unchanged by projection methods.""",
 ['inputs', 'configurations'], "all hierarchies, input column orders, base forecasts and residual covariances",
 "the test checks one hierarchy whose columns are already in internal order",
 [RC], [('hierarchy matrices and projection', RC+': HierarchicalReconciliation / reconcile'), ('covariance', RC)], observe=['Reconciliation.reconcile', 'Reconciliation.predict'])

MT='pyforecaster/metrics.py'
prop('C17', 'Scores equal their definitions on the right aggregation axis',
 """Every score equals its mathematical definition averaged over exactly the cells its aggregation labels group together:
 squared, absolute and relative errors cell by cell, pinball loss for its own level, reliability as the fraction of
 observations below the predicted quantile, and the continuous ranked score as the mean of the pinball losses. Perfect
 forecasts score zero, scores are never negative, and scoring leaves the caller's forecast and target tables unchanged.""",
 ['inputs', 'configurations'], "all forecast/target tables, levels, aggregation labels on rows or columns, masks",
 "tests compute scores of random tables and only check that they run",
 [MT], [('scores', MT+': rmse, mape, nmae, quantile_scores, crps, reliability, summary_score, summary_scores')], observe=['metrics'])

BD='pyforecaster/big_data_utils.py'
prop('C18', 'Memory reduction and parallel mapping never change the data',
 """Memory reduction keeps every integer exactly, every float within single-precision rounding (values outside the
 single-precision range and missing values kept as they are), and all row and column labels in order. Splitting a table gives
 contiguous, ordered, disjoint pieces covering it, and mapping a row- or column-wise function over the pieces, by whichever
 back end, equals applying it to the whole.""",
 ['inputs', 'configurations'], "all dtypes and values at type boundaries, table shapes, split counts and back ends",
 "tests time one random float table",
 [BD], [('casts', BD+': reduce_mem_usage_series'), ('split/map', BD+': array_split, fdf_parallel')], observe=['reduce_mem_usage', 'fdf_parallel'])

IN='pyforecaster/forecasting_models/neural_models/INN.py'; LY='pyforecaster/forecasting_models/neural_models/layers.py'
prop('C19', 'Invertible network layers invert exactly and stay causal',
 """For all weights and inputs, applying an invertible layer forward and then backward (or backward then forward) returns the
 input, and each invertible activation and its inverse are mutually inverse, strictly increasing maps (over the range their overflow guards allow). In causal layers an
 output depends only on inputs at the same or earlier positions.""",
 ['inputs', 'configurations'], "all weights, inputs, prediction widths, layer counts and activation choices",
 "the tests train a network and look at plots; inversion is checked for one trained network",
 [IN, LY], [('activations', LY), ('layer inversion', IN+'; '+LY)], observe=['CausalInvertibleLayer'])

IC='pyforecaster/forecasting_models/neural_models/ICNN.py'
prop('C20', 'Input-convex networks are convex in their control inputs',
 """After every weight update, all weights required to be non-negative for convexity are non-negative, and all other weights
 are exactly those the optimiser produced. The network output is then a convex function of the control inputs for every value
 of the other inputs.""",
 ['inputs', 'histories'], "all weights reached by any training history, all inputs, depths and widths",
 "the tests need data that is not shipped; convexity is sampled on a grid in a plot",
 [IC, 'pyforecaster/forecasting_models/neural_models/base_nn.py'], [('re-projection', IC+': reproject_weights'), ('architecture', IC+': PartiallyICNN')], observe=['PICNN.predict'])

prop('C21', 'Categorical features are encoded consistently and privately',
 """A category value seen at fit is given the same code at every later prediction, regardless of which rows or how many
 categories the later table contains, distinct values get distinct codes, and unseen values are rejected with an error rather
 than silently coded. Encoding never modifies the caller's table and numeric columns are passed through unchanged.""",
 ['inputs', 'histories'], "all category columns, value types and sequences of fit and predict calls",
 "no test uses categorical columns",
 [FC], [('encoder', FC+': encode_categorical')], state=[('_le', 'fitted encoders', FC)], observe=['fit', 'predict'])

prop('C22', 'Re-fitting and re-parametrising equal a fresh model',
 """Fitting a forecaster a second time gives the same predictions as fitting a new forecaster with the same settings on the
 same data: nothing of the first fit survives. A setting changed between fits takes effect in the next fit.""",
 ['histories', 'configurations'], "all sequences of set-parameter and fit calls, all forecasters, all data",
 "tests fit each model once; tuning uses repeated fits and set-parameter but only checks that it runs",
 [FC, GB, RF], [('fit', FC+', '+GB+', '+RF+': fit'), ('parameters', FC+': ScenarioGenerator.set_params, get_params')], observe=['fit', 'set_params'])

TR='pyforecaster/trainer.py'
prop('C23', 'Cross-validation scores each fold on its own held-out rows',
 """In hyper-parameter tuning, the score reported for a trial is computed, for each fold used, by a model fitted on exactly
 that fold's training rows and evaluated on exactly its test rows, whatever the row labels are (times, integers, unsorted) and
 whether folds are masks or positions; stored predictions and targets belong to the same rows. A trial's value is the mean of
 its fold scores and each trial is evaluated with its own parameters.""",
 ['inputs', 'configurations', 'histories'], "all tables and row labels, fold lists, scorers, cross-validation modes and trial sequences",
 "tests check that tuning runs on one table with full cross-validation",
 [TR], [('fold handling', TR+': cross_validate'), ('objective', TR+': optuna_objective, hyperpar_optimizer'), ('scorers', MT+': make_scorer')], observe=['cross_validate', 'hyperpar_optimizer'])

prop('C24', 'Discrete-distribution forecasts are probability distributions',
 """For every row and step the predicted class probabilities are non-negative, sum to one and refer to the ordered classes,
 the point forecast is the expectation of the class values under them. Rows keep the labels of the request.""",
 ['inputs', 'configurations'], "all training sets, class counts and prediction tables",
 "no test runs the discrete forecaster",
 [BM], [('distribution forecaster', BM+': DiscreteDistr')], observe=['DiscreteDistr.predict'])

prop('C25', 'Training a neural forecaster converges to a good fit',
 """Training a neural forecaster with early stopping ends with a model whose validation loss is not worse than that of the
 initial weights, and gradient-based optimisation of control inputs reaches the minimum.""",
 ['inputs', 'histories'], "all data sets, initial weights and optimiser settings",
 "tests train one network on one table",
 ['pyforecaster/forecasting_models/neural_models/base_nn.py'], [('training loop', 'base_nn.py: NN.train')])
prop('C26', 'Probabilistic forecasts are calibrated on future data',
 """The long-run fraction of future observations below a predicted quantile equals its level.""",
 ['inputs', 'histories'], "all exchangeable data-generating processes and forecasters",
 "tests look at reliability plots of one data set",
 [FC, 'pyforecaster/scenarios_generator.py'], [('residual quantiles', FC)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
