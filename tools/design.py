"""Writes DESIGN.md from tools/design_text.md, the texts of the properties, the families of the checks and the notes below."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, '/repo']
from mc import meta  # noqa: E402

# property -> how it is decided, against what, why the tests cannot see it
NOTES = dict(
    C01='Every configuration of every quantifier is fitted on every problem of the domain and asked for every bag; the invariant '
        '(length, finite, non-negative, sums one) is checked on each answer, and the only accepted exception is the documented refusal '
        'of that configuration. Degenerate samples (constant, perfect, useless or contradictory predictions; singular or repeated '
        'classes; one example; bags far outside the training range; probabilities of 1e-300) are the bulk of the domain.',
    C02='Differential: the same problem with every label set must give the same vector (to 1e-9, same exception otherwise); with every '
        'permutation of the classes, the permuted vector. The label sets contain strings whose order differs from their first appearance, '
        'negative, non-consecutive and multi-digit labels, so positions, labels and lexicographic orders cannot be confused.',
    C03='Differential over all the orders (all permutations up to 5 elements, all affine permutations above) and replications; '
        'mutation is observed by comparing every array with a copy and by giving read-only arrays, through predictions and classifiers.',
    C04='Explicit-state search: the alphabet is {fit with data set i, predict bag j}; every word up to the depth is run on one object, whose '
        'every answer is compared with that of a new object fitted with the last data set. The data sets differ in labels, size and number '
        'of classes, so a matrix, mixture, bin, posterior or cvxpy problem kept too long shows. The caller overwrites the arrays returned.',
    C05='The classifiers log every fit (which examples) and every predict. A model of "who is fitted with what" predicts the log of every '
        'history; the prevalences with classifiers must equal those with their predictions given by hand.',
    C06='Exact counting with integers; every tie of probabilities on the grid is present, every label set, vectors/columns/matrices.',
    C07='Exact rational arithmetic (fractions) for the matrix and its inverse; singular matrices by exact rank; distance-minimal '
        'distributions by exhaustive search and convexity; rates around the 0.001 threshold on both sides.',
    C08='Reference histograms by counting with explicit half-open bins; the objective of the answer is compared with the minimum over a '
        'fine simplex grid refined by local search (convex objective) and with vertices; exact mixtures must be recovered.',
    C09='As C08 on features: one histogram per feature with the documented cut points, out-of-range test values in the extreme bins.',
    C10='Reference cut points by counting / normal quantiles; invariants: increasing, cover the line, counts equal the sizes.',
    C11='Reference distance matrices by double sums; the minimum of the quadratic over the simplex by active-set enumeration.',
    C12='Rates by counting with the documented threshold (≥ training prevalence), then as C08 for each distance.',
    C13='Reference iteration (scalar arithmetic), stopping by both criteria with every combination of epsilon/max_iter, fixed points.',
    C14='Direct formula, clipping and degenerate denominators.',
    C15='Reference losses by explicit mixtures (weights per example) and exhaustive minimisation over a fine grid refined around minima.',
    C16='Losses are piecewise functions with known global minimum; every such function on the knots is searched.',
    C17='Minima by active-set enumeration (quadratics), vertices of the arrangement (L1), refined grid (Hellinger); nearest_pd on every '
        'integer matrix: symmetric, positive definite, unchanged when it already is.',
    C18='The harness gives the bags through a generator and logging regressors; descriptions are recomputed by counting.',
    C19='Folds decided by the harness; the out-of-fold predictions are recomputed with Echo models (a model whose answer reveals exactly '
        'which examples trained it).',
    C20='Every vector of binary answers on a grid; original rule, monotone rule (isotonic by brute force) and tree (every shape) by hand.',
    C21='Every combination of pairwise answers on a grid for the node-by-node walk and for the probability of every path.',
    C22='Every vector of binary prevalences (clipping, monotone correction, normalisation) and every base quantifier.',
    C23='Each member must be a separate model trained with exactly its bag; bags lacking classes get probability zero there.',
    C24='Members with any prevalence on a grid; selection by similarity recomputed, ties accepted; all base quantifiers.',
    C25='The random generator is replaced: every answer of every draw is a branch; in each leaf, the bag must have exactly the prevalences '
        'reported, from examples of the right class, above the minimum.',
    C26='As C25 for the centre and the draws around it; probabilities passed to the draw are compared with the documented kernel.',
    C27='Definitions in exact or scalar arithmetic, every pair of vectors on the grid, shapes, zero entries.',
    C28='Neighbours and weights by sorting; classes balanced by the documented exponent; every k and metric.',
    C29='Model of an object = (parameters, parameters at the last fit). Every class, every parameter alone and in pairs, every history of '
        'set/reset/clone/fit/predict up to depth 4 (5): get_params must return the very objects given, clones are unfitted, copies and '
        'pickles of unfitted, fitted and used objects behave as the original.',
    C30='Every schedule of the real jobs. The models of each schedule must be separate objects, fitted once, with exactly the examples of '
        'their job, in its position; the estimator of the user stays untouched; with failures, the failure of a job is raised in every '
        'schedule, nothing is predicted, and training again works. A free run of each real pool of joblib checks the scheduling model.',
    C31='Differential: k repetitions of predictions with the plain labels against the explicitly concatenated training set (1e-9), and the '
        'same repetition several times against once; repeated cross-validations whose folds are decided by the harness.',
    C32='Accumulated matrices/scores by counting, objectives as in C08, trees by explicit walk.',
    C33='Artists of the axes are read back and compared with the data; files are written in a scratch directory and read back.',
    C35='Metamorphic with a known answer: the bag is built from whole class samples, so its class-conditional distributions are those '
        'of the training set and the prevalences of the mixture are the only exact solution. Problems whose bins or neighbours '
        'merge the classes are left out (equal_count and normal cuts: smallest singular value of the histograms).',
    C36='Metamorphic: the run on the original data is the reference of every changed version of the same data, training and bag. '
        'Slow solvers are asked for mixtures of the classes only, which have one solution. Iterative regressions and rounded '
        'cut points (normal, binormal when moved) are left out.',
    C37='Every raise statement of the library has at least one misuse that must reach it, with the shapes of data that its guard '
        'depends on; afterwards the parameter or the data are corrected in the same object, whose answer is compared with a new one.',
    C38='Fault injection: the calls to the components are counted in a run without failures; then one run per call, in which that call '
        'raises. The exception must come out of the operation in progress; the operation is repeated and the history completed, and '
        'all the answers must be those of the run without failures (or its error, when the problem has one).',
    C39='Two real threads under the controlled scheduler of C30; each schedule starts from new objects (the shared classifier is trained '
        'again). The answers of each thread must be those of the thread alone. One object used by two threads, a classifier in training '
        'and a shared bag generator are outside: they keep their state in the object by design.',
    C40='Differential: the answer of one environment is the reference of all the others (1e-7); a snapshot of the state of the interpreter '
        'is compared before and after every operation. String labels are used, so an order that depends on the hashes is visible. '
        'The other processes run the same operations in the same and in the opposite order.',
    C34='Differential: the contiguous float64 run is the reference of every other representation of the same values (to 1e-9, or the '
        'precision of the solver on problems with only one solution), with read-only answers from the classifiers, and with messages.')

if __name__ == '__main__':
    times = json.load(open(os.path.join(ROOT, 'tools', 'times.json'))) if os.path.exists(os.path.join(ROOT, 'tools', 'times.json')) else {}
    out = []
    for d, technique, _ in meta.PROPS:
        i = d['id']
        m = importlib.import_module('mc.props.' + i.lower())
        t = times.get(i, {})
        out.append('### %s — %s' % (i, d['title']))
        out.append('*Specified*: ' + d['statement'])
        out.append('*Decided by*: %s. %s' % (technique, NOTES[i]))
        out.append('*Enumerated*:')
        for f in m.FAMILIES:
            n = t.get('families', {}).get(f.name)
            out.append('* `%s`: %s%s' % (f.name, f.note, ' (%s quick / %s thorough cases)' % tuple(n) if n else ''))
        if getattr(m, 'ASSUMPTIONS', None):
            out.append('*Assumptions*: ' + '; '.join(m.ASSUMPTIONS) + '.')
        out.append('*Why tests cannot settle it*: ' + d['why_tests_cant'])
        if t:
            out.append('*Cost*: %s s / %s s.' % (t.get('quick', '–'), t.get('thorough', '–')))
        out.append('')
    seeds = ['| id | property | needs | caught by |', '|---|---|---|---|']
    sd = os.path.join(ROOT, 'seeded')
    caught = json.load(open(os.path.join(ROOT, 'tools', 'caught.json'))) if os.path.exists(os.path.join(ROOT, 'tools', 'caught.json')) else {}
    for s in sorted(os.listdir(sd)):
        me = json.load(open(os.path.join(sd, s, 'meta.json')))
        seeds.append('| %s | %s | %s | %s |' % (s, me['property'], me['needs'], ', '.join(caught.get(s, [me['property']]))))
    text = open(os.path.join(ROOT, 'tools', 'design_text.md')).read()
    text = text.replace('@@PROPS@@', '\n\n'.join(out).replace('\n\n* `', '\n* `')).replace('@@SEEDS@@', '\n'.join(seeds))
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(text)
