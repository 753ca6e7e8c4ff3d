"""Libraries of fake evaluations for C14, C24."""
import os
import numpy as np
import pandas as pd
from common import need

LIB = "gama.utilities.evaluation_library"
ENS = "gama.postprocessing.ensemble"


class Node:
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


class Ind:
    n = 0

    def __init__(self):
        Ind.n += 1
        self._id = "ind%d" % Ind.n
        self.main_node = Node(self._id)

    def short_name(self, *_):
        return self._id

    def pipeline_str(self):
        return self._id


class Est:
    """Fitted pipeline whose predictions for frame X depend on the row id and itself."""

    def __init__(self, seed, k, labels=None):
        self.seed, self.k, self.labels = seed, k, labels

    def proba(self, X):
        r = np.array([[((int(i) * 7919 + self.seed * 104729 + c * 31 + int(i) * c * 17) % 1009) + 1.0 for c in range(self.k)] for i in X["id"]])
        return r / r.sum(1, keepdims=True)

    def predict_proba(self, X):
        return self.proba(X)

    def predict(self, X):
        if self.k == 0:
            return np.array([float((int(i) * 37 + self.seed * 101) % 211) for i in X["id"]])
        p = self.proba(X).argmax(1)
        return np.asarray(self.labels)[p]


def library(rng, n_rows, y, k, labels, n_models, prob, folds=3, m=None, sample=None):
    Ev, Lib = need(LIB, "Evaluation", "EvaluationLibrary")
    lib = Lib(m=m, n=None, cache=os.path.join(os.getcwd(), "cache%d" % rng.randint(0, 10 ** 9)))
    if sample is not None:
        lib._sample = sample
        lib._sample_n = len(sample)
    evs = []
    for j in range(n_models):
        if k == 0:
            pred = np.asarray(y, dtype=float) + np.array([rng.gauss(0, 3) for _ in range(n_rows)])
        elif prob:
            pred = np.array([[rng.random() + .01 + (.5 if labels[c] == t and rng.random() < .6 else 0) for c in range(k)] for t in y])
            pred = pred / pred.sum(1, keepdims=True)
        else:
            pred = np.array([t if rng.random() < rng.choice([.4, .7]) else rng.choice(labels) for t in y])
        ind = Ind()
        e = Ev(ind, pred, (round(rng.random(), 3), -rng.randint(1, 3)), [Est(1000 * j + f, k, labels) for f in range(folds)], None, 0, None)
        lib.save_evaluation(e)
        evs.append((e, pred, [Est(1000 * j + f, k, labels) for f in range(folds)]))
    return lib, evs
