"""Stand-ins for the classifiers/regressors that a user plugs in. They are ordinary scikit-learn estimators whose answers
the harness decides, and they log what the library asks them."""
import numpy as np
from quantificationlib.base import UsingClassifiers, WithoutClassifiers
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin
from sklearn.exceptions import NotFittedError

from mc.core import CheckFailed

LOG = []   # (event, id) of the estimators created with log=True; reset by the harness


class Table(BaseEstimator, ClassifierMixin):
    """The first feature of an example is its row in `table` (class probabilities). fit only learns the classes."""

    def __init__(self, table=None, tag=None):
        self.table = table
        self.tag = tag

    def fit(self, X, y):
        LOG.append(('fit', self.tag, len(X)))
        self.classes_ = np.unique(y)
        self.n_fit_ = getattr(self, 'n_fit_', 0) + 1
        return self

    def predict_proba(self, X):
        if not hasattr(self, 'classes_'):
            raise NotFittedError('Table not fitted')
        return np.array([self.table[int(r)] for r in np.asarray(X)[:, 0]], dtype=float)

    def predict(self, X):
        if not hasattr(self, 'classes_'):
            raise NotFittedError('Table not fitted')
        return self.classes_.take(self.predict_proba(X).argmax(axis=1))


class Echo(BaseEstimator, ClassifierMixin):
    """Deterministic classifier whose model is the training set itself: the score of a class for x is
    sum over its training examples of 1/(1+|x-xi|) (all features), divided by the sum over classes. Predictions depend
    on exactly which examples (with which labels) were used in the last fit."""

    def __init__(self, tag=None, power=1):
        self.tag = tag
        self.power = power

    def fit(self, X, y):
        LOG.append(('fit', self.tag, len(X)))
        X = np.asarray(X, dtype=float)
        self.X_, self.y_ = X.copy(), np.array(y, copy=True)
        self.classes_ = np.unique(y)
        return self

    def predict_proba(self, X):
        if not hasattr(self, 'classes_'):
            raise NotFittedError('Echo not fitted')
        X = np.asarray(X, dtype=float)
        K = 1.0 / (1.0 + np.abs(X[:, None, :] - self.X_[None, :, :]).sum(axis=2)) ** self.power
        S = np.stack([K[:, self.y_ == c].sum(axis=1) for c in self.classes_], axis=1)
        return S / S.sum(axis=1, keepdims=True)

    def predict(self, X):
        P = self.predict_proba(X)
        return self.classes_.take(P.argmax(axis=1))


class Lin(BaseEstimator, RegressorMixin):
    """Least squares without intercept through the pseudo-inverse (deterministic)."""

    def __init__(self, tag=None):
        self.tag = tag

    def fit(self, X, y):
        LOG.append(('fit', self.tag, len(X)))
        self.w_ = np.linalg.pinv(np.asarray(X, dtype=float)).dot(np.asarray(y, dtype=float))
        return self

    def predict(self, X):
        if not hasattr(self, 'w_'):
            raise NotFittedError('Lin not fitted')
        return np.asarray(X, dtype=float).dot(self.w_)


class ByTask(BaseEstimator, ClassifierMixin):
    """Binary classifier that recognises the binary problem it is trained on by its labels, given as a string of 0/1, and
    answers with the probabilities that the harness decided for that problem: tasks[labels][row]. With ids=True the training
    examples (their first feature) are part of the problem."""

    def __init__(self, tasks=None, tag=None, ids=False):
        self.tasks = tasks
        self.tag = tag
        self.ids = ids

    def fit(self, X, y):
        key = ''.join('1' if v == 1 else '0' for v in y)
        if self.ids:
            key = ','.join(str(int(r)) for r in np.asarray(X)[:, 0]) + ':' + key
        if key not in self.tasks:
            raise CheckFailed('a binary classifier is trained with %s, expected one of %s' % (
                key, sorted(self.tasks)))
        LOG.append(('fit', self.tag, key))
        self.key_ = key
        self.classes_ = np.array([0, 1])
        return self

    def predict_proba(self, X):
        if not hasattr(self, 'key_'):
            raise NotFittedError('ByTask not fitted')
        p = np.array([self.tasks[self.key_][int(r)] for r in np.asarray(X)[:, 0]], dtype=float)
        return np.stack([1 - p, p], axis=1)

    def predict(self, X):
        return (self.predict_proba(X)[:, 1] >= 0.5).astype(int)


class Through(UsingClassifiers):
    """a quantifier made of another one, trained in place (what is learned is in a nested object)"""

    def __init__(self, inner=None, estimator_train=None, estimator_test=None):
        super().__init__(estimator_train=estimator_train, estimator_test=estimator_test)
        self.inner = inner

    def fit(self, X, y, predictions_train=None):
        super().fit(X, y, predictions_train=predictions_train)
        self.inner.fit(None, self.y_ext_, predictions_train=self.predictions_train_)
        return self

    def predict(self, X, predictions_test=None):
        super().predict(X, predictions_test=predictions_test)
        return self.inner.predict(None, predictions_test=self.predictions_test_)


class ThroughX(WithoutClassifiers):
    def __init__(self, inner=None):
        super().__init__()
        self.inner = inner

    def fit(self, X, y):
        super().fit(X, y)
        self.inner.fit(X, y)
        return self

    def predict(self, X):
        return self.inner.predict(X)
