"""Property texts and manifest data: `python mc/meta.py` writes properties.jsonl and MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q = 'quantificationlib/'


def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique='', level_note=''):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=[Q + f for f in files],
                             state=[dict(name=a, meaning=b, where=Q + c) for a, b, c in state],
                             mechanism=[dict(name=a, where=Q + b) for a, b in mechanism],
                             observe_at=list(observe), hook_needed=None)), technique, level_note


PROPS = [
P('C01', 'Every quantifier answers with a valid prevalence distribution',
  'For every training sample in which each class appears and every non-empty bag, the prediction of any quantifier is a '
  'vector with one finite, non-negative entry per class, in the sorted order of the class labels, that sums one. '
  'The only other outcome is a documented refusal: a binary-only method given more than two classes, an ordinal method '
  'given too few, a one-dimensional search in which all the prevalences are equally good, or a regression quantifier '
  'whose predictions are all zero.',
  ['inputs', 'configurations'],
  'all quantifiers and their configurations x all small training samples containing every class x all small bags '
  '(including one-example bags, bags of one class, repeated, tied or extreme predictions)',
  'The tests run one dataset per method and check the average error only; degenerate samples (constant predictions, '
  'perfect or useless classifiers, singular matrices, ties, single examples) are never reached.',
  ['base.py', 'baselines/cc.py', 'baselines/ac.py', 'multiclass/df.py', 'multiclass/energy.py', 'multiclass/em.py',
   'multiclass/friedman.py', 'multiclass/regression.py', 'multiclass/knn.py', 'binary/debias.py', 'binary/emd.py',
   'binary/quantiles.py', 'ordinal/pdf.py', 'ordinal/ac_ordinal.py', 'ordinal/trees.py', 'decomposition/multiclass.py',
   'decomposition/ordinal.py', 'ensembles/eoq.py'],
  [('simplex constraint of the solvers', 'optimization.py: solve_l1, solve_hd, solve_l2, solve_ed'),
   ('clipping and normalisation', 'baselines/ac.py: AC.predict, PAC.predict; binary/debias.py: DeBias.predict; '
    'multiclass/regression.py: REG.predict_bag; decomposition/*.py: predict')],
  observe=['return value of predict'],
  technique='bounded-exhaustive enumeration of training samples and bags on the real quantifiers, invariant checked on '
            'every reached output'),
P('C02', 'Class labels are only names: relabelling only permutes the prevalences',
  'Replacing the class labels by any other labels (other integers, negative, non-consecutive, strings) in the same order '
  'does not change the predicted prevalences of any quantifier. For the methods in which the order of the classes has no '
  'meaning, any renaming that permutes the classes (and the columns of the predictions given by the user) permutes the '
  'predicted prevalences in the same way.',
  ['inputs', 'configurations'],
  'all quantifiers x label sets x all permutations of 2-4 classes x small samples and bags, given as predictions or '
  'through classifiers',
  'The tests use the labels of three datasets; no test compares two labellings of the same problem.',
  ['base.py', 'baselines/cc.py', 'baselines/ac.py', 'multiclass/df.py', 'multiclass/energy.py', 'multiclass/em.py',
   'multiclass/friedman.py', 'multiclass/knn.py', 'binary/emd.py', 'binary/quantiles.py', 'decomposition/multiclass.py',
   'decomposition/ordinal.py', 'estimators/frank_and_hall.py', 'estimators/ordinal_ddag.py', 'ordinal/ac_ordinal.py',
   'ordinal/pdf.py'],
  [('classes are the sorted unique labels', 'base.py: UsingClassifiers.fit, WithoutClassifiers.fit'),
   ('conversion of probabilities into labels', 'base.py: __probs2crisps')],
  state=[('classes_', 'sorted class labels', 'base.py')], observe=['return value of predict'],
  technique='exhaustive metamorphic exploration: every label set and every class permutation of each small problem'),
P('C03', 'A bag is a multiset and the data of the user are never modified',
  'The predicted prevalences do not depend on the order of the examples of the bag, nor on the order of the training '
  'examples, and they do not change when every example of the bag is repeated the same number of times (methods based on '
  'joint rankings of training and test examples excepted for the latter). Neither fitting nor predicting modifies the '
  'arrays given by the user.',
  ['inputs', 'configurations'],
  'all quantifiers x all permutations of small bags and training sets x replications',
  'The tests predict each bag once in one order and never look at their inputs again.',
  ['base.py', 'baselines/cc.py', 'baselines/ac.py', 'multiclass/df.py', 'multiclass/energy.py', 'multiclass/em.py',
   'multiclass/friedman.py', 'binary/emd.py', 'binary/quantiles.py', 'binary/debias.py', 'ordinal/ac_ordinal.py',
   'ordinal/pdf.py'],
  [('averages, histograms and counts over the whole bag', 'multiclass/df.py: DFy.predict, DFX.predict; '
    'optimization.py: compute_ed_param_test'),
   ('sorting of the predictions together with their labels', 'binary/emd.py: SORDy; binary/quantiles.py: QUANTy')],
  observe=['return value of predict', 'arrays passed to fit and predict'],
  technique='exhaustive exploration of all the orders and replications of small samples, differential oracle'),
P('C04', 'The history of a quantifier does not influence its predictions',
  'After any sequence of fits and predictions, a quantifier predicts for a bag exactly what a new object fitted once with '
  'the last training set predicts for that bag, up to the precision of the solvers. In particular previous bags, previous '
  'training sets (with more, fewer or the same number of classes), repeated predictions, and fits or predictions that '
  'failed leave no trace; neither do the operations on a copy (deepcopy or pickle) in the original, nor the other way round.',
  ['histories', 'configurations'],
  'all sequences of fit/predict operations up to a depth, over several training sets and bags, for every quantifier and '
  'configuration that keeps optimisation problems, mixtures or matrices between calls',
  'Every test fits an object once and predicts a few bags in one fixed order, and compares average errors with a bound.',
  ['multiclass/df.py', 'multiclass/friedman.py', 'multiclass/energy.py', 'multiclass/em.py', 'multiclass/regression.py',
   'multiclass/knn.py', 'baselines/ac.py', 'ordinal/pdf.py', 'ordinal/ac_ordinal.py', 'binary/quantiles.py',
   'binary/emd.py', 'binary/debias.py', 'optimization.py', 'search.py', 'decomposition/multiclass.py',
   'decomposition/ordinal.py', 'bag_generator.py'],
  [('warm start of the optimisation problem', 'optimization.py: solve_l1, solve_hd'),
   ('invalidation when fitted again', 'multiclass/df.py: DFy.fit, DFX.fit (problem_ and mixtures_)')],
  state=[('problem_', 'optimisation problem reused by the next predictions', 'multiclass/df.py'),
         ('mixtures_', 'mixtures precomputed by the first search', 'search.py: global_search')],
  observe=['return value of predict'],
  technique='explicit-state search over fit/predict histories of the real objects, compared with fresh objects in every '
            'state'),
P('C05', 'Classifiers are fitted once, shared and interchangeable with their predictions',
  'A quantifier fits the classifiers it receives only when they are not yet fitted, with the whole training set, so '
  'quantifiers that share a classifier train it exactly once and a fitted one is never trained again. Giving the '
  'predictions of the classifiers instead of the classifiers produces the same prevalences, the training predictions come '
  'from the classifier of the training set and those of the bag from the other. When the predictions that a method needs '
  'can be obtained in neither way, it refuses with an error.',
  ['histories', 'inputs', 'configurations'],
  'all sequences of quantifiers sharing one or two classifiers (fitted or not beforehand), all ways of providing '
  'predictions, small samples',
  'The tests share estimators but nobody counts fits or compares both ways of providing predictions.',
  ['base.py', 'baselines/cc.py', 'decomposition/multiclass.py', 'decomposition/ordinal.py'],
  [('fit only when NotFittedError', 'base.py: UsingClassifiers.fit'),
   ('precomputed predictions', 'base.py: UsingClassifiers.fit, UsingClassifiers.predict')],
  state=[('predictions_train_', 'predictions that represent the training set', 'base.py'),
         ('predictions_test_', 'predictions of the bag', 'base.py')],
  observe=['calls received by the classifiers', 'return value of predict', 'exceptions'],
  technique='explicit-state search over histories of quantifiers sharing logging classifiers'),
P('C06', 'Classify & count reports exactly the composition of the predictions',
  'Classify and count returns, for each class, the fraction of the examples of the bag predicted as that class, and its '
  'probabilistic version returns the average probability of each class. Probabilities are turned into classes by taking '
  'the first class of maximum probability, or the second class when the single probability given is at least one half; '
  'predicted labels are counted as they are.',
  ['inputs'],
  'all prediction vectors and matrices on a grid, 2-5 classes, several label sets, bags of 1 to 1000 examples, labels or '
  'probabilities, as vector, column or matrix, given directly or by a classifier',
  'The tests check that the average error on one dataset is below a bound.',
  ['baselines/cc.py', 'base.py'],
  [('counting', 'baselines/cc.py: CC.predict, PCC.predict'), ('crisp conversion', 'base.py: __probs2crisps')],
  observe=['return value of predict'],
  technique='bounded-exhaustive enumeration of predictions against an exact counting model'),
P('C07', 'Adjusted counts invert the misclassification matrix of the training set',
  'With two classes, adjusted classify and count (crisp and probabilistic) returns (observed - fpr)/(tpr - fpr) clipped to '
  '[0, 1], or the observed prevalence when the two rates differ by no more than 0.001. With more classes it returns the '
  'solution of the linear system given by the misclassification matrix, with negative values set to zero and normalised, '
  'and when the matrix is singular a distribution whose predicted observation is at minimum distance (the one selected) '
  'of the observed one.',
  ['inputs', 'configurations'],
  'all misclassification/average probability matrices of small training samples with 2-4 classes, unbalanced classes and '
  'any order of the examples, all three distances, bags of many compositions',
  'The tests use well-conditioned matrices of one dataset and bound the average error.',
  ['baselines/ac.py', 'optimization.py'],
  [('binary formula and threshold', 'baselines/ac.py: AC.predict, PAC.predict'),
   ('matrix inversion and fallback', 'baselines/ac.py: AC.predict, PAC.predict'),
   ('estimation of the matrix', 'baselines/ac.py: AC.fit, PAC.fit')],
  state=[('cm_', 'misclassification matrix, one row per true class', 'baselines/ac.py')],
  observe=['return value of predict'],
  technique='bounded-exhaustive enumeration of matrices and bags against exact rational arithmetic'),
P('C08', 'Distribution matching finds the mixture closest to the predictions of the bag',
  'Distribution matching over classifier predictions represents each class of the training set and the bag by the '
  'normalised histograms (or their accumulated version) of the class probabilities, with the number of bins and the '
  'binning strategy selected, one histogram with two classes and one per class otherwise. The prevalences returned are a '
  'mixture of the class representations at minimum distance of the representation of the bag, for the distance selected '
  '(Hellinger, L1, L2 or any function given with two classes); a bag that is an exact mixture of the training classes is '
  'recovered.',
  ['inputs', 'configurations'],
  'all small samples of predictions (values on and between cut points), 2-4 classes, PDF/CDF, several numbers of bins, '
  'four binning strategies, three solvers and four distance functions',
  'The tests bound the average error of default configurations on one dataset.',
  ['multiclass/df.py', 'optimization.py', 'search.py'],
  [('histograms', 'multiclass/df.py: DFy.fit, DFy.predict'), ('bins', 'multiclass/df.py: compute_bincuts'),
   ('solvers', 'optimization.py: solve_hd, solve_l1, solve_l2'), ('search', 'search.py: global_search')],
  state=[('train_distrib_', 'representation of each class', 'multiclass/df.py'),
         ('test_distrib_', 'representation of the bag', 'multiclass/df.py')],
  observe=['return value of predict'],
  technique='bounded-exhaustive enumeration of samples and configurations, brute-force optimum as oracle'),
P('C09', 'Distribution matching on features finds the best mixture of class histograms',
  'Distribution matching over the input features represents each class and the bag by the concatenation of one normalised '
  'histogram per feature (or their accumulated version), with the bins computed with the training set, so values of the bag '
  'outside the training range are counted in the first or in the last bin. The prevalences returned are a mixture at minimum '
  'distance of the representation of the bag, and a bag that is an exact mixture of the training classes is recovered.',
  ['inputs', 'configurations'],
  'all small training samples and bags with 1-2 features (values inside and outside the training range), 2-4 classes, '
  'PDF/CDF, binning strategies, numbers of bins and distances',
  'The tests bound the average error of the default configuration on one dataset.',
  ['multiclass/df.py', 'optimization.py', 'search.py'],
  [('histograms of the features', 'multiclass/df.py: DFX.fit, DFX.predict'), ('bins', 'multiclass/df.py: compute_bincuts')],
  state=[('bincuts_', 'cut points of each feature', 'multiclass/df.py')], observe=['return value of predict'],
  technique='bounded-exhaustive enumeration of samples and configurations, brute-force optimum as oracle'),
P('C10', 'Bins partition the real line exactly as each strategy documents',
  'For any values, labels, number of bins and strategy, the cut points are n_bins + 1 non-decreasing numbers that start at '
  'minus infinity and end at infinity, so every value falls in exactly one bin. The inner ones divide the range in equal '
  'widths, divide the sorted values in groups of equal size, or are the quantiles of the normal distribution with the mean '
  'and deviation of the values weighted by class (or of the averages of the per-class means and deviations). Any other '
  'strategy is refused.',
  ['inputs', 'configurations'],
  'all small multisets of values with every class split (ties, constants, fewer values than bins), 1-20 bins, all strategies',
  'The tests only use equal width bins with one dataset.',
  ['multiclass/df.py'], [('strategies', 'multiclass/df.py: compute_bincuts')],
  observe=['return value of compute_bincuts', 'prevalences of the histogram methods'],
  technique='bounded-exhaustive enumeration of values against an independent model of each strategy'),
P('C11', 'Energy quantifiers minimise the energy distance between mixture and bag',
  'The prevalences returned by the energy distance methods (over features, over predictions, and over ranks of the '
  'predictions) minimise the energy distance, for the distance between examples selected, between the mixture of the '
  'training classes and the bag. A bag that is an exact mixture of the training classes is recovered whenever the classes '
  'differ.',
  ['inputs', 'configurations'],
  'all small samples of points, 2-5 classes, three distances between examples, every mixture on a grid',
  'The tests bound the average error on one dataset; degenerate or badly conditioned samples are never reached.',
  ['multiclass/energy.py', 'optimization.py'],
  [('quadratic programme', 'optimization.py: compute_ed_param_train, compute_ed_param_test, solve_ed, '
    'is_pd, nearest_pd'), ('ranks', 'multiclass/energy.py: CvMy.predict')],
  state=[('G_, C_, b_', 'constant part of the problem, computed by fit', 'multiclass/energy.py')],
  observe=['return value of predict'],
  technique='bounded-exhaustive enumeration of samples, direct minimisation of the energy distance as oracle'),
P('C12', "Friedman's method matches the rates of exceeding the training prevalence",
  "Friedman's method represents each class and the bag by the fraction of examples whose probability of each class is at "
  'least the training prevalence of that class. It returns the distribution whose mixture is at minimum distance (the one '
  'selected) of the bag.',
  ['inputs', 'configurations'],
  'all small samples of predictions (equal to the training prevalence included), 2-4 classes, unbalanced training sets, '
  'seven distances',
  'The tests bound the average error on one dataset.',
  ['multiclass/friedman.py', 'optimization.py', 'search.py'],
  [('thresholds and rates', 'multiclass/friedman.py: FriedmanME.fit, FriedmanME.predict')],
  state=[('train_prevs_', 'class prevalences of the training set', 'multiclass/friedman.py')],
  observe=['return value of predict'],
  technique='bounded-exhaustive enumeration of samples, brute-force optimum as oracle'),
P('C13', 'Expectation maximisation iterates the documented update until it stops',
  'Starting at the training prevalences, each step reweights the probabilities of every example by the ratio between the '
  'current and the training prevalences, normalises them, and averages. After at least ten steps it stops as soon '
  'as the mean change of the prevalences is not above the tolerance, or when the maximum number of steps is reached, and '
  'returns the last average.',
  ['inputs', 'configurations'],
  'all bags of probability vectors on a grid, 2-5 classes, several training compositions, tolerances and numbers of steps',
  'The tests bound the average error on one dataset; a changed stopping rule or prior goes unnoticed.',
  ['multiclass/em.py'], [('update and stopping rule', 'multiclass/em.py: EM.predict'),
                         ('training prevalences', 'multiclass/em.py: EM.fit')],
  state=[('prevalences_train', 'class prevalences of the training set', 'multiclass/em.py')],
  observe=['return value of predict'],
  technique='explicit-state lockstep of every bag against an independent implementation of the iteration'),
P('C14', 'DeBias applies its correction to the average predicted probability',
  'DeBias returns the training prevalence plus the deviation of the average predicted probability of the bag from it, divided '
  'by the ratio between the mean squared deviation of the training predictions and the variance of the classes, clipped to '
  '[0, 1]; when that ratio is zero it returns the average. It '
  'refuses problems with more than two classes.',
  ['inputs'],
  'all labelled training samples of 2-5 predictions on a grid, several bags each',
  'One dataset and an average error bound.',
  ['binary/debias.py'], [('correction', 'binary/debias.py: DeBias.fit, DeBias.predict')],
  observe=['return value of predict'],
  technique='bounded-exhaustive enumeration of training samples against exact arithmetic'),
P('C15', 'Quantile and sorted matching find the prevalence with minimum distance',
  'The quantile method compares the average values of equal-sized slices of the bag with those of the training set '
  'reweighted to each candidate prevalence; the sorted method computes the area between the accumulated '
  'distributions of bag and mixture. Both return a prevalence at minimum distance, so every mixture of the training '
  'predictions of the two classes is recovered.',
  ['inputs', 'configurations'],
  'all samples of 1-3 predictions per class on five values, several orders, 1-8 quantiles, several distances and bags',
  'One dataset and an average error bound.',
  ['binary/quantiles.py', 'binary/emd.py', 'search.py'],
  [('quantiles of weighted samples', 'binary/quantiles.py: QUANTy'),
   ('earth mover distance', 'binary/emd.py: emd_score, SORDy.predict')],
  observe=['return value of predict'],
  technique='bounded-exhaustive enumeration of samples, brute-force minimum of an independent distance as oracle'),
P('C16', 'The one-dimensional search finds the global minimum of the loss',
  'For any loss continuous on [0, 1] whose minima are separated by the resolution of the search, the search returns a '
  'prevalence whose loss is the global minimum up to the tolerance, wherever the minimum is, also at the borders and when '
  'there are several local minima. A golden section search returns the minimum of any unimodal loss within the tolerance.',
  ['inputs', 'configurations'],
  'all piecewise linear losses with integer values at 5-6 knots, all piecewise constant ones, unimodal losses with the '
  'minimum at every point of a grid, pairs of valleys, mixtures of distributions',
  'The searches are only executed indirectly on losses of one dataset.',
  ['search.py'], [('coarse grid and refinement', 'search.py: global_search'),
                  ('golden section', 'search.py: golden_section_search'),
                  ('mixtures of the grid', 'search.py: compute_loss, mixture_of_pdfs')],
  observe=['return values of the searches'],
  technique='bounded-exhaustive enumeration of losses, dense evaluation as oracle'),
P('C17', 'The solvers return optimal distributions',
  'Given class representations and a target, the least squares, least absolute deviations, Hellinger and energy solvers '
  'return a non-negative vector that sums one and whose objective is minimum among all the distributions, also when a '
  'problem built for another target is reused. The positive-definiteness test answers whether a symmetric matrix has a '
  'Cholesky factorisation, and the repair returns a positive definite matrix that leaves those that already are unchanged.',
  ['inputs', 'histories'],
  'all small matrices of representations on a grid (singular included) with sequences of targets solved in a row; all '
  'small symmetric integer matrices',
  'Solvers are only executed indirectly with one dataset.',
  ['optimization.py'], [('formulation', 'optimization.py: solve_l1, solve_l2, solve_hd, solve_ed, compute_l2_param_train'),
                        ('positive definiteness', 'optimization.py: is_pd, nearest_pd')],
  state=[('problem', 'cvxpy problem reused with a new target', 'optimization.py')],
  observe=['return values of the solvers'],
  technique='bounded-exhaustive enumeration of problems and target sequences, optimum by enumeration of supports or '
            'brute force'),
P('C18', 'Regression over bags trains one regressor per class on bag descriptions',
  'Each training bag is described by the normalised histograms of its features (or of its predicted probabilities), with '
  'the bins computed with the whole training set, and one regressor per class (one in total with two classes) is fitted to '
  'the prevalences of the bags; the regressor of the user is copied, never fitted itself. The prevalences returned are '
  'those predicted for the description of the bag, with negative values set to zero, normalised; when all are zero it '
  'refuses with an error.',
  ['inputs', 'configurations'],
  'all sets of 2-4 bags over 4-5 examples, 2-4 classes, several binnings and regressors, bags of the two generators',
  'One dataset, one regressor and an average error bound.',
  ['multiclass/regression.py', 'multiclass/df.py'],
  [('description of the bags', 'multiclass/regression.py: REGX, REGy'),
   ('clip and normalise', 'multiclass/regression.py: REG.predict_bag')],
  observe=['return value of predict', 'calls received by the regressors'],
  technique='bounded-exhaustive enumeration of bags against an independent model with deterministic regressors'),
P('C19', 'Cross-validated estimators predict training examples out of fold',
  'A cross-validated estimator trains one copy of the base estimator per fold, and the predictions for the training set are, '
  'for each example, those of a model that was not trained with it, in the order of the training set and with one block per '
  'repetition. Predictions for any other data average (or repeat, when requested) those of all the models, and it behaves '
  'the same when fitted again with other data.',
  ['inputs', 'histories', 'configurations'],
  'every partition in 2-3 folds of 4-6 examples, 1-3 repetitions, 2-3 classes, all options, refits',
  'The tests use one default strategy and bound average errors: in-fold predictions or a shuffled order pass.',
  ['estimators/cross_validation.py'],
  [('fold models and out-of-fold predictions', 'estimators/cross_validation.py: CV_estimator.fit, predict, predict_proba')],
  state=[('estimators_', 'one model per fold', 'estimators/cross_validation.py')],
  observe=['return values of predict and predict_proba'],
  technique='exhaustive enumeration of partitions with estimators whose answers reveal their training examples'),
P('C20', 'Frank & Hall classifiers combine the binary models as their rules say',
  'The ordinal decomposition trains one binary model per cut of the ordered classes, with the left group as positive, and '
  'the probability of each class is the one its rule gives: product of the two adjacent models (plain), differences of '
  'corrected monotone probabilities (monotone), or the product of the decisions along the tree that places first the model '
  'with the best training performance (tree). The class predicted is the one with maximum probability, and fitting again '
  'forgets the previous models.',
  ['inputs', 'histories', 'configurations'],
  'all vectors of binary probabilities on a grid for 3-6 classes, every tree shape, small labelled training samples',
  'The tests only bound quantification errors of ordinal datasets; three wrong rules passed them.',
  ['estimators/frank_and_hall.py'],
  [('combination rules', 'estimators/frank_and_hall.py: predict_proba of the three classes'),
   ('tree construction', 'estimators/frank_and_hall.py: FrankAndHallTreeClassifier.fit')],
  state=[('estimators_', 'binary models, one per cut', 'estimators/frank_and_hall.py')],
  observe=['return values of predict and predict_proba', 'labels received by the binary models'],
  technique='bounded-exhaustive enumeration of binary probabilities and tree shapes against an independent model'),
P('C21', 'The decision graph eliminates one class per node until one remains',
  'The directed acyclic graph classifier trains one binary model for each pair of classes with the examples of those two '
  'classes. Probabilities flow from the pair of extreme classes to the leaves, '
  'each node multiplying by the probability of keeping each side (or the whole path going to the winner), so they sum one, '
  'and the class predicted is the one of maximum probability.',
  ['inputs', 'histories', 'configurations'],
  'all combinations of pairwise probabilities on a grid for 2-5 classes, both rules, small labelled samples, refits',
  'The tests only bound quantification errors of ordinal datasets.',
  ['estimators/ordinal_ddag.py'],
  [('traversal', 'estimators/ordinal_ddag.py: DDAGClassifier.predict, predict_proba'),
   ('pairwise training sets', 'estimators/ordinal_ddag.py: DDAGClassifier.fit')],
  observe=['return values of predict and predict_proba', 'examples received by the binary models'],
  technique='bounded-exhaustive enumeration of pairwise probabilities against an independent model'),
P('C22', 'Decomposition quantifiers combine one binary quantifier per problem',
  'One versus rest fits a copy of the base quantifier for each class against the others and normalises the prevalences '
  'obtained, uniform when all are zero. Frank & Hall fits one for each group of lower classes, makes the group prevalences '
  'increasing with the average of the two monotone corrections, and returns their differences. Each binary quantifier '
  'receives the column of predictions or the binary model of its problem, and objects of other types are refused.',
  ['inputs', 'configurations'],
  'all vectors of binary prevalences on a grid, 3-5 classes; nine base quantifiers and three ways of providing predictions',
  'The tests bound average errors with two base quantifiers.',
  ['decomposition/multiclass.py', 'decomposition/ordinal.py'],
  [('problems', 'decomposition/*.py: fit'), ('combination', 'decomposition/*.py: predict, '
    'check_and_correct_prevalences_asc')],
  state=[('quantifiers_', 'one per binary problem', 'decomposition/ordinal.py')],
  observe=['return value of predict', 'labels received by the base quantifiers'],
  technique='bounded-exhaustive enumeration of binary answers and small samples against an independent model'),
P('C23', 'Each member of an ensemble of classifiers is trained with its own bag',
  'An ensemble of classifiers trains a different copy of the base estimator with exactly the examples of each bag. Its '
  'predictions have one column per member, in the order of the bags, and its probabilities one row of class probabilities '
  'per member, with zeros for the classes that the bag of a member lacks.',
  ['inputs'],
  '2-4 classes, all sets of 1-5 bags of 1-5 examples up to bounds, bags lacking classes included',
  'No test looks at the members.',
  ['estimators/ensembles.py'],
  [('members', 'estimators/ensembles.py: EnsembleOfClassifiers.fit'),
   ('alignment of classes', 'estimators/ensembles.py: EnsembleOfClassifiers.predict_proba')],
  state=[('estimators_', 'one classifier per bag', 'estimators/ensembles.py')],
  observe=['return values of predict and predict_proba'],
  technique='exhaustive enumeration of sets of bags with classifiers whose answers reveal their training examples'),
P('C24', 'Ensembles of quantifiers combine the prevalences of the selected members',
  'An ensemble trains one quantifier per generated bag, each with the examples and the classifier (or predictions) of its '
  'bag. Its answer is the mean or the normalised median of the members selected: all of them, or the '
  'percentage whose training bag is most similar to the test bag in prevalence or in the distribution of the '
  'predictions. Configurations that cannot be used are refused.',
  ['inputs', 'configurations'],
  '1-5 members answering every prevalence on a grid, all strategies and percentages; seven base quantifiers and nine ways '
  'of providing classifiers and predictions',
  'The tests check the average error of two configurations.',
  ['ensembles/eoq.py', 'estimators/ensembles.py'],
  [('members and predictions of each one', 'ensembles/eoq.py: EoQ.fit, EoQ.predict'),
   ('selection and combination', 'ensembles/eoq.py: EoQ.predict')],
  state=[('quantifiers_', 'one per bag', 'ensembles/eoq.py')], observe=['return value of predict'],
  technique='bounded-exhaustive enumeration of member answers and of small bags against an independent model'),
P('C25', 'Prior shift generators build bags with the prevalences they report',
  'Each bag generated has exactly the size requested and contains examples of the data set only. Its reported prevalences '
  'are those of its examples up to rounding, are drawn uniformly over the simplex (or with the Dirichlet '
  'parameters given) and respect the minimum prevalence. The same seed gives the same bags, so does asking '
  'again for the same data set, any data set can be used after another, and unusable parameters are refused.',
  ['inputs', 'schedules', 'configurations', 'histories'],
  'all the outcomes of the random generator up to the bounds, 2-5 classes, bags of 1-15 examples, several minimum '
  'prevalences, integer seeds and generator objects',
  'The tests use the generators to build test bags and never check what they contain.',
  ['bag_generator.py'],
  [('prevalences', 'bag_generator.py: PriorShift_BagGenerator.generate_bags'),
   ('sampling', 'bag_generator.py: PriorShift_BagGenerator.generate_bags')],
  state=[('prevalences_, indexes_', 'result of the last call', 'bag_generator.py')],
  observe=['return value of generate_bags', 'draws requested from the random generator'],
  technique='stateless exploration of every outcome of the random generator (controlled RandomState)'),
P('C26', 'Covariate shift generators sample around a centre and report true prevalences',
  'A covariate shift bag is made of examples of the data set chosen with the probability that the density around a random '
  'example gives to each of them, and its reported prevalences are those of its examples. The combined generator builds '
  'the numbers of bags of each type requested, prior shift bags with the properties of that generator. The '
  'same seed gives the same bags, so does asking again for the same data set, and any data set can be used after another.',
  ['inputs', 'schedules', 'configurations', 'histories'],
  'every centre and every choice of the random generator, 3-4 examples, bags of 1-5 examples, combinations of both types',
  'The tests never use these generators.',
  ['bag_generator.py'],
  [('sampling around a centre', 'bag_generator.py: CovariateShift_BagGenerator.generate_bags'),
   ('combination', 'bag_generator.py: PriorAndCovariateShift_BagGenerator.generate_bags')],
  state=[('prevalences_, indexes_', 'result of the last call', 'bag_generator.py')],
  observe=['return value of generate_bags', 'draws requested from the random generator'],
  technique='stateless exploration of every outcome of the random generator (controlled RandomState)'),
P('C27', 'Error measures compute their mathematical definitions',
  'Every error measure and distance returns the value of its definition for any pair of prevalences, with the true ones '
  'first, whatever the shape of the arrays, and zero for equal prevalences (one for scores). None of them fails or '
  'returns NaN when some prevalences are zero, if the measure is defined there.',
  ['inputs'],
  'every pair of prevalence vectors on a grid, 1-6 classes, three shapes, matrices of rows, all pairs of labellings of 1-5 '
  'examples for the geometric mean',
  'The tests use mean absolute error only.',
  ['metrics/binary.py', 'metrics/multiclass.py', 'metrics/ordinal.py'],
  [('definitions', 'metrics/*.py')], observe=['return values'],
  technique='bounded-exhaustive enumeration of pairs against independent definitions'),
P('C28', 'Weighted nearest neighbours balance the classes and adjust the counts',
  'The proportion-weighted neighbours classifier weights each neighbour by one minus the fraction of its class in '
  'the training set: it predicts the class with the largest sum among the k nearest training examples and its '
  'probabilities are the normalised sums. The quantifier counts these predictions and adjusts them with the '
  'misclassification rates measured on the training set. Parameters changed before fitting are used.',
  ['inputs', 'configurations', 'histories'],
  'all labellings of small sets of points without ties in distance, every number of neighbours, several metrics, 2-4 '
  'classes, all bags up to a size',
  'The tests bound the average error on one dataset.',
  ['estimators/weighted_knn.py', 'multiclass/knn.py', 'optimization.py'],
  [('weights and votes', 'estimators/weighted_knn.py: PWK.fit, predict, predict_proba'),
   ('adjustment', 'multiclass/knn.py: PWKQuantifier.fit, predict')],
  state=[('weights_', 'weight of each training example', 'estimators/weighted_knn.py')],
  observe=['return values of predict and predict_proba'],
  technique='bounded-exhaustive enumeration of labelled samples against brute-force neighbours and exact weights'),
P('C29', 'Quantifiers and estimators follow the parameter protocol of scikit-learn',
  'Every parameter given to the constructor of a quantifier or estimator is returned unchanged by get_params (bag generators '
  'keep it as an attribute; OrdinalQuantificationTree wraps its estimator), survives clone, copies and pickling, and can be '
  'changed with set_params before fitting with the same effect as giving it to the constructor. A clone is unfitted and '
  'behaves as the original, a copy of a fitted object (before or after predicting) predicts as the original, and neither '
  'fitting nor predicting changes the value of any parameter. A parameter that is not given has its documented value.',
  ['configurations', 'histories'],
  'every class with every parameter changed alone and in pairs, before and after fitting and predicting',
  'No test clones an object or reads its parameters.',
  ['base.py', 'baselines/ac.py', 'baselines/cc.py', 'binary/debias.py', 'binary/emd.py', 'binary/quantiles.py',
   'multiclass/df.py', 'multiclass/em.py', 'multiclass/energy.py', 'multiclass/friedman.py', 'multiclass/knn.py',
   'multiclass/regression.py', 'ordinal/pdf.py', 'ordinal/ac_ordinal.py', 'ordinal/trees.py', 'ensembles/eoq.py',
   'estimators/cross_validation.py', 'estimators/ensembles.py', 'estimators/frank_and_hall.py',
   'estimators/ordinal_ddag.py', 'estimators/weighted_knn.py', 'decomposition/multiclass.py',
   'decomposition/ordinal.py', 'bag_generator.py'],
  [('parameters stored by the constructors', 'all the __init__ methods')],
  observe=['get_params, set_params, clone, repr', 'return value of predict'],
  technique='explicit-state search over set_params/clone/fit/predict sequences of every class'),
P('C30', 'Parallel training gives the same models under every schedule',
  'Ensembles, decompositions and cross-validated estimators that train their models in parallel give the same models, in the same positions, as '
  'sequential training, whatever the number of jobs and whatever the order in which the jobs start, finish and are '
  'collected. A failure of one job is reported and, when its cause disappears, the same object can be trained again.',
  ['schedules', 'fault_sequences'],
  'all the orders in which 2-5 jobs can run and interleave at the calls to the models, with threads or isolated processes, '
  'and a failure of any of the jobs',
  'The tests run with one job.',
  ['estimators/ensembles.py', 'estimators/frank_and_hall.py', 'estimators/cross_validation.py', 'ensembles/eoq.py'],
  [('independent copies per job', 'estimators/ensembles.py: EnsembleOfClassifiers.fit'),
   ('jobs of the decomposition', 'estimators/frank_and_hall.py: FrankAndHallClassifier.fit')],
  state=[('estimators_', 'models in the order of the jobs', 'estimators/ensembles.py')],
  observe=['fitted models', 'exceptions'],
  technique='exploration of all the schedules of the real jobs under a controlled joblib backend'),
P('C31', 'Repeated training predictions are aligned with repeated labels',
  'When the predictions of the training set are several repetitions of the whole set (from repeated cross-validation or '
  'given by the user), the i-th prediction of every repetition is paired with the label of the i-th example. A quantifier '
  'trained with the same predictions repeated gives the same prevalences as with one repetition (joint rankings, random '
  'bags and interpolated cut points excepted), and one trained with '
  'different repetitions gives the same prevalences as with a training set made of their concatenation.',
  ['inputs', 'configurations'],
  'all quantifiers that use training predictions x 1-3 repetitions x small labellings in every order x predictions on a grid',
  'One test uses repeated cross-validation with one method and checks its average error.',
  ['base.py', 'multiclass/df.py', 'baselines/ac.py', 'multiclass/energy.py', 'multiclass/friedman.py', 'binary/emd.py',
   'binary/quantiles.py', 'binary/debias.py', 'ordinal/pdf.py', 'ordinal/ac_ordinal.py', 'ensembles/eoq.py'],
  [('extended labels', 'base.py: UsingClassifiers.fit'), ('repeated predictions', 'estimators/cross_validation.py')],
  state=[('y_ext_', 'labels of the training predictions', 'base.py')], observe=['return value of predict'],
  technique='bounded-exhaustive enumeration of labellings and repetitions, differential oracle on the real quantifiers'),
P('C32', 'Ordinal quantifiers match accumulated counts and ordinal scores',
  'The ordinal version of adjusted count returns the distribution that minimises the L1 distance between the '
  'accumulated observed counts and those that the misclassification rates predict. The ordinal distribution matching method scores '
  'each example by the average class position under its probabilities (or by the node that decides it), and returns the '
  'mixture of the class histograms of scores at minimum distance of that of the bag; the quantification tree '
  'returns the average probabilities of its tree.',
  ['inputs', 'configurations'],
  'all misclassification matrices of small training samples with 3-4 ordered classes, all predictions on a grid, three '
  'distances, two scores, several numbers of bins',
  'The tests bound the average error on ordinal datasets.',
  ['ordinal/ac_ordinal.py', 'ordinal/pdf.py', 'ordinal/trees.py', 'optimization.py'],
  [('accumulated rates', 'ordinal/ac_ordinal.py: ACOrdinal.fit, predict'),
   ('scores and histograms', 'ordinal/pdf.py: PDFOrdinaly.fit, predict'),
   ('tree', 'ordinal/trees.py: OrdinalQuantificationTree')],
  state=[('train_distrib_', 'representation of each class', 'ordinal/pdf.py')], observe=['return value of predict'],
  technique='bounded-exhaustive enumeration of samples and configurations, exact optimum as oracle'),
P('C33', 'Plots and data helpers show and transform exactly the data given',
  'The prevalence plot draws one line per bag divided in segments whose lengths are the prevalences, in the order '
  'requested, and the box plot draws the errors given with the labels and colours requested. Sorting keeps whole rows and '
  'compares the columns in the order given; normalisation uses the mean and deviation of the training data for both '
  'sets; loading separates the last column as integer labels. None of them modifies its arguments.',
  ['inputs', 'configurations'],
  'all prevalence matrices of 1-4 bags on a grid, all orders of columns, small data matrices',
  'Nothing tests these functions except the loading of three files.',
  ['plot/qlplot.py', 'data_utils.py'],
  [('segments', 'plot/qlplot.py: plot_line_prevalences'), ('sorting', 'plot/qlplot.py: _sort_rows_bycolumns'),
   ('data', 'data_utils.py: normalize, load_data')],
  observe=['artists of the axes', 'return values'],
  technique='bounded-exhaustive enumeration of matrices and orders, drawn artists compared with the data'),
P('C34', 'The representation of the data and the verbosity do not influence the answers',
  'The same labelled examples, predictions and bags give the same answers when the arrays have another memory layout, byte '
  'order or (exactly representable) precision, when labels have another type of integer or string, when '
  'probabilities zero and one come as integers and, where the documentation accepts them, when features are sparse. '
  'Messages do not change any answer, nothing is printed in silent mode, and the arrays returned by classifiers are not written.',
  ['inputs', 'configurations'],
  'every quantifier with problems of 2-4 classes, estimators and generators; eleven representations of each argument',
  'The tests always use contiguous float64 arrays and verbose quantifiers.',
  ['base.py', 'baselines', 'binary', 'multiclass', 'ordinal', 'decomposition', 'ensembles', 'estimators'],
  [('predictions, labels and features', 'base.py: UsingClassifiers.fit, UsingClassifiers.predict'),
   ('labels of the binary problems', 'estimators/frank_and_hall.py: FHLabelBinarizer')],
  observe=['return value of fit and predict', 'standard output'],
  technique='bounded-exhaustive enumeration of problems and representations against the contiguous float64 one'),
P('C35', 'A mixture of the training classes is recovered with its exact prevalences',
  'When the bag contains the training examples of each class (or the same distribution of them) repeated in some '
  'proportion, every quantifier that corrects the classifier or matches distributions answers that proportion, whatever '
  'the training prevalences, errors of the classifier, labels or order of the bag. EM and DeBias do so when the '
  'posteriors of the training set are exact.',
  ['inputs', 'configurations'],
  'every consistent configuration, problems of 2-4 classes, all the mixtures of 3-4 parts including pure bags',
  'The tests compare the average error of a few bags with a threshold.',
  ['baselines', 'binary', 'multiclass', 'ordinal', 'search.py', 'optimization.py'],
  [('adjusted counts', 'baselines/ac.py: AC.predict, PAC.predict'), ('matching', 'multiclass/df.py: DFy.predict, DFX.predict'),
   ('energy', 'multiclass/energy.py: EDy.predict, EDX.predict, CvMy.predict')],
  observe=['return value of predict'],
  technique='bounded-exhaustive enumeration of training samples and mixtures, expected answer known by construction'),
P('C36', 'Changes of features or scores without information keep the prevalences',
  'The methods based on distances between examples (EDX, PWK) only see the distances: they answer the same when the '
  'columns are reordered, changed of sign, moved or all rescaled. The methods based on histograms of the features (DFX, '
  'HDX, REGX) answer the same when each column is rescaled or moved and when the columns are reordered or repeated. '
  'Constant columns are ignored by both. CvMy only sees the ranks of the scores; EDy, QUANTy, SORDy, equal count histograms '
  'and adjusted probabilistic counts are not affected by linear changes of the scores, and histograms with fixed cuts only '
  'see the bin of each score.',
  ['inputs', 'configurations'],
  'every such configuration, problems of 2-4 classes, 17 changes of the features and up to 4 of the scores',
  'The tests use one scaled dataset.',
  ['multiclass/energy.py', 'multiclass/df.py', 'multiclass/knn.py', 'multiclass/regression.py', 'binary', 'baselines/ac.py'],
  [('cut points from the range of each column', 'multiclass/df.py: compute_bincuts, DFX.fit, DFX.predict'),
   ('distances', 'multiclass/energy.py: EDX, EDy, CvMy; optimization.py: compute_ed_param_train, compute_ed_param_test'),
   ('neighbours', 'estimators/weighted_knn.py: PWK.predict')],
  observe=['return value of predict'],
  technique='bounded-exhaustive enumeration of training samples and changes, differential'),
P('C37', 'Invalid uses are refused, and the object can be used afterwards',
  'A quantifier, estimator or generator refuses with an exception, instead of answering, what it does not support: binary '
  'methods and binary distance functions with more classes, ordinal scores with two, unknown distances, strategies and '
  'methods, missing or unsuitable classifiers, base quantifiers and bag generators, minimum prevalences and alphas out of '
  'range, vectors of different lengths, and losses that do not depend on the prevalence. After the refusal the same object, '
  'with valid parameters or data, answers as a new one.',
  ['inputs', 'configurations', 'histories'],
  'every misuse x 2-4 classes x label sets, each followed by a correct use',
  'No test checks an error.',
  ['base.py', 'baselines/ac.py', 'binary', 'multiclass/df.py', 'multiclass/friedman.py', 'multiclass/regression.py',
   'ordinal/pdf.py', 'decomposition', 'ensembles/eoq.py', 'estimators', 'bag_generator.py', 'search.py', 'metrics'],
  [('refusals', 'all the raise statements')],
  observe=['exceptions', 'return value of predict and generate_bags'],
  technique='bounded-exhaustive enumeration of misuses, each followed by a correct use compared with a new object'),
P('C38', 'Failures of user components reach the caller, and the operation can be repeated',
  'When a classifier, regressor, bag generator, distance or loss function given by the user raises an exception in any of its '
  'calls during fit, predict or a search, that very exception reaches the caller: it is never hidden nor turned into an '
  'answer. Repeating the operation that failed on the same object then gives the answers of a run without failures: nothing '
  'looks trained that was not, and no partial result is reused.',
  ['fault_sequences', 'histories', 'configurations'],
  'a failure in every call, and two failures in every pair of calls, to a user component of every quantifier, classifier decomposition and search; five exceptions; two histories',
  'No test makes a component fail.',
  ['base.py', 'search.py', 'estimators', 'decomposition', 'ensembles/eoq.py', 'multiclass', 'baselines', 'binary', 'ordinal'],
  [('is the classifier already fitted?', 'base.py: UsingClassifiers.fit'),
   ('searches', 'search.py: global_search, golden_section_search'),
   ('training of several models', 'estimators: FrankAndHallClassifier.fit, FrankAndHallTreeClassifier.fit, DDAGClassifier.fit, '
    'CV_estimator.fit, EnsembleOfClassifiers.fit')],
  observe=['exceptions', 'return value of predict'],
  technique='exhaustive fault injection: one run per call to a user component, compared with the run without failures'),
P('C39', 'Independent objects can be used by concurrent threads, even sharing classifiers',
  'Two quantifiers used by two threads, each one fitting or predicting its own data, answer as if each one were alone, '
  'whatever the interleaving, also when they share a trained classifier (of any class of the library, crisp or '
  'probabilistic predictions), a template (base estimator or base quantifier) or the data. Asking a trained classifier for '
  'predictions does not change it, and two bag generators with their own seeds give their own bags.',
  ['schedules', 'configurations'],
  'every interleaving of two threads with one preemption (two in short runs) at every source line of the library (at every call '
  'to a function in long runs), every quantifier and classifier, 2-4 classes, predict|predict, predict|fit, fit|fit',
  'The tests have a single thread.',
  ['estimators', 'base.py', 'multiclass', 'baselines', 'binary', 'ordinal', 'decomposition', 'ensembles/eoq.py', 'bag_generator.py',
   'optimization.py', 'search.py'],
  [('predictions of shared classifiers', 'estimators: predict, predict_proba of every class; base.py: UsingClassifiers.predict'),
   ('seeds', 'bag_generator.py: generate_bags')],
  observe=['return value of predict, predict_proba and generate_bags'],
  technique='stateless exploration of thread interleavings of the real code with preemption bounds'),
P('C40', 'The environment of the process neither influences the answers nor is changed',
  'The answers of quantifiers, classifiers, bag generators (with an integer seed, the default) and error measures are the same '
  'in any process and environment: state of the global random generators, hash seed, error, print and warning settings, '
  'configuration of sklearn and joblib, working directory, environment variables, optimized byte code, other operations '
  'executed before. Loading any module of the library, and using it, changes none of these and writes no file, and nothing is printed in silent mode (verbose=0).',
  ['configurations', 'inputs'],
  'more than 600 configurations of quantifiers, classifiers, generators and measures x 10 environments and 11 other processes; '
  'every module loaded by a new process',
  'The tests run in one environment.',
  ['base.py', 'baselines', 'binary', 'multiclass', 'ordinal', 'decomposition', 'ensembles/eoq.py', 'estimators', 'bag_generator.py', 'metrics'],
  [('random numbers', 'bag_generator.py: _get_random_state'), ('messages', 'verbose, in every class')],
  observe=['return values', 'state of the interpreter', 'standard output'],
  technique='exhaustive enumeration of environments x configurations, compared with a reference process'),
]


def manifest(props):
    checks = []
    for p, tech, note in props:
        if not os.path.exists(os.path.join(ROOT, 'mc', 'props', p['id'].lower() + '.py')):
            continue
        checks.append(dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'],
                           thorough_cmd='./check.sh %s thorough' % p['id'], technique='model checking: ' + tech,
                           level='model_checking', level_note=note or 'Every case within the stated bounds is executed on '
                           'the real code and compared with an independent reference; nothing is claimed beyond the '
                           'bounds. Trusts the reference model and numpy/scipy.'))
    na = [dict(property=p['id'], reason='check not built yet') for p, _, _ in props
          if not os.path.exists(os.path.join(ROOT, 'mc', 'props', p['id'].lower() + '.py'))]
    return dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
                notes='Every check explores the working tree of /repo directly (pure Python, nothing to build, no hooks).')


if __name__ == '__main__':
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p, _, _ in PROPS:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(p) + '\n')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest(PROPS), f, indent=1)
        f.write('\n')
