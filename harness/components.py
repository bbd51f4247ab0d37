"""Pipeline components for generated search spaces.

The dummy components record what they are given; they behave like scikit-learn estimators (params in
__init__, clone-able, picklable). UNSET marks a hyperparameter that was never passed.
"""
import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin, TransformerMixin

UNSET = "<unset>"


class _Params(BaseEstimator):
    def __init__(self, a=UNSET, b=UNSET, c=UNSET, param_d=UNSET, shared1=UNSET, shared2=UNSET):
        self.a = a
        self.b = b
        self.c = c
        self.param_d = param_d
        self.shared1 = shared1
        self.shared2 = shared2


class _Transformer(TransformerMixin, _Params):
    def fit(self, X, y=None):
        return self

    def transform(self, X):
        return X


class _Classifier(ClassifierMixin, _Params):
    """Predicts the majority class; probabilities are the class frequencies."""

    def fit(self, X, y):
        self.classes_, counts = np.unique(y, return_counts=True)
        self.freq_ = counts / counts.sum()
        return self

    def predict(self, X):
        return np.repeat(self.classes_[np.argmax(self.freq_)], len(X))

    def predict_proba(self, X):
        return np.tile(self.freq_, (len(X), 1))


class _Regressor(RegressorMixin, _Params):
    def fit(self, X, y):
        self.mean_ = float(np.mean(y))
        return self

    def predict(self, X):
        return np.repeat(self.mean_, len(X))


def _make(names, base):
    out = []
    for name in names:
        # an explicit __init__ is inherited from _Params
        cls = type(name, (base,), {"__module__": __name__})
        globals()[name] = cls
        out.append(cls)
    return out


class _Discriminant(_Transformer, _Classifier):
    """Transforms, and could predict as well (as scikit-learn's LinearDiscriminantAnalysis)."""


# Names that are prefixes of one another, as sklearn's are (PCA/KernelPCA), or contain the word for the input ("data").
TRANSFORMERS = _make(["Scale", "ScaleMore", "Select", "Rotate", "Metadata"], _Transformer) + _make(["Discriminate"], _Discriminant)
CLASSIFIERS = _make(["Tree", "TreeBoost", "Bayes", "Near"], _Classifier)
REGRESSORS = _make(["Linear", "LinearSvr", "Forest", "NearReg"], _Regressor)


def score_fn_one(x, y=None):
    return x


def score_fn_two(x, y=None):
    return x


CALLABLES = {"score_fn_one": score_fn_one, "score_fn_two": score_fn_two}


# ---------------------------------------------------------------- learners that record their rows


def _noise(rows, j, seed):
    """A deterministic number in [0, 1) per row."""
    return np.mod(np.sin(np.asarray(rows, dtype=float) * 12.9898 + j * 78.233 + seed * 37.719) * 43758.5453, 1.0)


class RowClassifier(ClassifierMixin, BaseEstimator):
    """Remembers which rows (first feature: the row's number) it was trained on, with which target.

    Its predictions depend on the row and on the set of training rows, so that scores and predictions
    identify the model that made them.
    """

    def __init__(self, salt=0):
        self.salt = salt

    def fit(self, X, y):
        self.rows_ = [float(v) for v in np.asarray(X)[:, 0]]
        self.targets_ = list(y)
        self.classes_ = np.unique(y)
        self.seed_ = float(sum(self.rows_)) * 0.001 + self.salt + 0.01 * len(self.rows_)
        return self

    def predict_proba(self, X):
        rows = np.asarray(X)[:, 0]
        p = np.stack([0.05 + _noise(rows, j, self.seed_) for j in range(len(self.classes_))], axis=1)
        return p / p.sum(axis=1, keepdims=True)

    def predict(self, X):
        return self.classes_[np.argmax(self.predict_proba(X), axis=1)]


class LabelRowClassifier(ClassifierMixin, BaseEstimator):
    """As RowClassifier, without probabilities."""

    def __init__(self, salt=0):
        self.salt = salt

    fit = RowClassifier.fit

    def predict(self, X):
        return self.classes_[np.argmax(RowClassifier.predict_proba(self, X), axis=1)]


class RowRegressor(RegressorMixin, BaseEstimator):
    def __init__(self, salt=0):
        self.salt = salt

    def fit(self, X, y):
        self.rows_ = [float(v) for v in np.asarray(X)[:, 0]]
        self.targets_ = list(y)
        self.seed_ = float(sum(self.rows_)) * 0.001 + self.salt + 0.01 * len(self.rows_)
        return self

    def predict(self, X):
        return 0.1 + 3 * _noise(np.asarray(X)[:, 0], 0, self.seed_)


class PlainScaler(TransformerMixin, BaseEstimator):
    """Keeps the first feature, divides the others by their training maximum."""

    def __init__(self, by=1):
        self.by = by

    def fit(self, X, y=None):
        self.scale_ = np.maximum(np.abs(np.asarray(X, dtype=float)).max(axis=0), 1e-6)
        self.scale_[0] = 1.0
        return self

    def transform(self, X):
        return np.asarray(X, dtype=float) / self.scale_ / self.by


# ---------------------------------------------------------------- components that fail on request


class OddError(Exception):
    def __str__(self):
        return ""


FAULTS = {
    "ValueError": lambda: ValueError("bad; value\nsecond line"),
    "TypeError": lambda: TypeError("not a number"),
    "MemoryError": lambda: MemoryError(),
    "KeyError": lambda: KeyError("missing"),
    "RuntimeError": lambda: RuntimeError("Unsupported set of arguments: a='b', c=\"d\""),
    "OddError": lambda: OddError(),
    "StopIteration": lambda: StopIteration(),
    "RecursionError": lambda: RecursionError("maximum recursion depth exceeded"),
    "ZeroDivisionError": lambda: ZeroDivisionError("division by zero"),
    "AssertionError": lambda: AssertionError(),
    "FloatingPointError": lambda: FloatingPointError("overflow"),
    "UnicodeError": lambda: UnicodeError("é€"),
    "NotImplementedError": lambda: NotImplementedError(),
    "KeyboardInterrupt": lambda: KeyboardInterrupt(),
}


class Plan:
    """What goes wrong: at call number `at` of `method` of the step named `step`."""

    def __init__(self):
        self.set(None)

    def set(self, fault):
        self.fault = fault
        self.calls = {}
        self.fired = False

    def hit(self, step, method):
        n = self.calls.get((step, method), 0)
        self.calls[step, method] = n + 1
        f = self.fault
        if f is None or f["step"] != step or f["method"] != method or f["at"] != n:
            return None
        self.fired = True
        if f["kind"] == "slow":
            import time

            for _ in range(2400):
                time.sleep(0.005)
            return None
        if f["kind"] == "short":
            return "short"
        raise FAULTS[f["kind"]]()


PLAN = Plan()


class FaultyScale(TransformerMixin, BaseEstimator):
    name = "FaultyScale"

    def __init__(self, by=1):
        self.by = by

    def fit(self, X, y=None):
        PLAN.hit(self.name, "fit")
        self.fitted_ = True
        return self

    def transform(self, X):
        PLAN.hit(self.name, "transform")
        return np.asarray(X, dtype=float)


class FaultyBin(FaultyScale):
    name = "FaultyBin"


class FaultyClassifier(RowClassifier):
    def fit(self, X, y):
        PLAN.hit("learner", "fit")
        return super().fit(X, y)

    def predict_proba(self, X):
        short = PLAN.hit("learner", "predict")
        p = super().predict_proba(X)
        return p[:-1] if short else p

    def predict(self, X):
        short = PLAN.hit("learner", "predict")
        p = self.classes_[np.argmax(super().predict_proba(X), axis=1)]
        return p[:-1] if short else p


class FaultyRegressor(RowRegressor):
    def fit(self, X, y):
        PLAN.hit("learner", "fit")
        return super().fit(X, y)

    def predict(self, X):
        short = PLAN.hit("learner", "predict")
        p = super().predict(X)
        return p[:-1] if short else p
