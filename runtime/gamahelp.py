"""Gama instances with small search spaces, stand-in search and post-processing steps, and a clock
that can be moved forward."""
import os
import time
import uuid
import numpy as np
import pandas as pd
from common import need

_real = {n: getattr(time, n) for n in ("time", "perf_counter", "monotonic")}
OFFSET = [0.0]


def install_clock():
    """Must be called before the code under test is imported: defaults may capture time.time."""
    for n in _real:
        setattr(time, n, now)


def now():
    """Time stands still unless it is moved forward."""
    return 1.7e9 + OFFSET[0]


def advance(s):
    OFFSET[0] += s


class Box:
    pass


def stand_ins():
    BaseSearch = need("gama.search_methods.base_search", "BaseSearch")
    BasePost = need("gama.postprocessing.base_post_processing", "BasePostProcessing")

    class Search(BaseSearch):
        """Calls `hook(ops, start)`; its return value is the output."""

        def __init__(self, hook=None):
            super().__init__()
            self.hook, self.time_limit, self.calls, self.start = hook, None, 0, None

        def dynamic_defaults(self, x, y, time_limit):
            self.time_limit, self.x, self.y = time_limit, x, y

        def search(self, operations, start_candidates):
            self.calls += 1
            self.start = start_candidates
            self.ops = operations
            if self.hook:
                self.output = self.hook(operations, start_candidates)

    class Post(BasePost):
        def __init__(self, time_fraction=0.1, hook=None):
            super().__init__(time_fraction)
            self.hook, self.calls = hook, 0

        def post_process(self, x, y, timeout, selection):
            self.calls += 1
            self.x, self.y, self.timeout, self.selection = x, y, timeout, list(selection)
            return self.hook(x, y, timeout, selection) if self.hook else None

        def to_code(self, preprocessing=None):
            return ""
    return Search, Post


def space(kind="classification"):
    """A small search space of real scikit-learn components."""
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
    from sklearn.naive_bayes import GaussianNB
    from sklearn.linear_model import Ridge
    from sklearn.preprocessing import MinMaxScaler, StandardScaler
    s = {"alpha": [1.0, 0.1], MinMaxScaler: {}, StandardScaler: {"with_mean": [True, False]}}
    if kind == "classification":
        s.update({GaussianNB: {}, DecisionTreeClassifier: {"max_depth": [1, 2, 3], "criterion": ["gini", "entropy"]}})
    else:
        s.update({Ridge: {"alpha": []}, DecisionTreeRegressor: {"max_depth": [1, 2, 3]}})
    return s


def make(kind="classification", search=None, post=None, **kw):
    cls = need("gama.GamaClassifier", "GamaClassifier") if kind == "classification" else need("gama.GamaRegressor", "GamaRegressor")
    Search, Post = stand_ins()
    args = dict(search_space=space(kind), search=search or Search(), post_processing=post or Post(), n_jobs=1, max_total_time=60,
                output_directory=os.path.join(os.getcwd(), "out_" + uuid.uuid4().hex[:8]), store="all")
    args.update(kw)
    return cls(**args)


def data(rng, n=30, kind="classification"):
    x = pd.DataFrame({"a": [rng.random() for _ in range(n)], "b": [float(rng.randint(0, 9)) for _ in range(n)]})
    y = pd.Series([i % 2 for i in range(n)] if kind == "classification" else [rng.random() for _ in range(n)])
    return x, y
