"""Recording estimators and fold helpers for C11, C12."""
import time
import numpy as np
import pandas as pd
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin
from sklearn.pipeline import Pipeline

LOG = []  # one entry per fit: dict(rows, targets)
FIT = []  # optional hooks


class Base(BaseEstimator):
    def __init__(self, tag=0):
        self.tag = tag

    def fit(self, X, y):
        FAULT.step("fit")
        self.rows_ = list(map(int, X["id"]))
        self.y_ = list(y)
        self.mean_ = float(np.mean(np.asarray(y, dtype=float)))
        self.n_ = len(LOG)
        LOG.append({"rows": self.rows_, "y": self.y_})
        return self

    def raw(self, X):
        return np.array([int(i) for i in X["id"]])


class Clf(ClassifierMixin, Base):
    def fit(self, X, y):
        super().fit(X, y)
        self.classes_ = np.unique(y)
        return self

    def predict(self, X):
        FAULT.step("predict")
        return np.argmax(self.proba(X), axis=1)

    def proba(self, X):
        k = len(self.classes_)
        i = self.raw(X)
        p = np.zeros((len(i), k))
        # a prediction which identifies the row and the fitted pipeline
        for r, v in enumerate(i):
            w = np.array([((v * 31 + self.n_ * 17 + c * 7 + (v * c) % 5) % 97) + 1.0 for c in range(k)])
            p[r] = w / w.sum()
        return p

    def predict_proba(self, X):
        FAULT.step("predict_proba")
        return self.proba(X)


class Reg(RegressorMixin, Base):
    def predict(self, X):
        FAULT.step("predict")
        return self.raw(X) * 1000.0 + self.n_ + self.mean_ * 1e-3


class Fault:
    """Raise / stall at the n-th call of an operation."""

    def __init__(self):
        self.clear()

    def clear(self):
        self.plan, self.count = None, {}

    def step(self, op):
        self.count[op] = self.count.get(op, 0) + 1
        if self.plan and self.plan[0] == op and self.plan[1] == self.count[op]:
            what = self.plan[2]
            if what == "stall":
                t = time.time() + 20
                while time.time() < t:
                    time.sleep(0.002)
            else:
                raise what


FAULT = Fault()


def data(rng, n, k, index=None):
    x = pd.DataFrame({"id": range(n), "b": [rng.random() for _ in range(n)]})
    if k:
        y = [i % k for i in range(n)]
        rng.shuffle(y)
        y = pd.Series(y, dtype=int)
    else:
        y = pd.Series([float(rng.randint(0, 50)) for _ in range(n)])
    if index is not None:
        x.index = index
        y.index = index
    return x, y


def pipe(kind, tag=0):
    return Pipeline([("0", Clf(tag) if kind else Reg(tag))])


def reset():
    del LOG[:]
    FAULT.clear()
