"""Assumed contracts of the pandas/numpy operations used to format data.

Ghost picture: n original rows; a table (frame, series, array) holds the original rows sel(i), in order, with
values `what` (a name for the contents: 'x', 'target', 'argmax', ...). `idx` names the index labels: two tables
are label-aligned only if they have the same one (or equal ones, `same_idx`); boolean arrays select by position.
`cnt` names the number of rows: 'all' for n, else the selection it came from.
"""
import z3
from pyvc.driver import *

I, B = z3.IntSort(), z3.BoolSort()
ND, SE, DF = "numpy.ndarray", "pandas.Series", "pandas.DataFrame"


class Rows_:
    def __init__(self, ctx):
        self.ctx = ctx
        self.n = z3.Int("n_rows")
        ctx.assume(self.n >= 0)
        self.null_ = z3.Function("target_missing", I, B)
        self.counts, self.eqs = {"all": self.n}, {}
        X = ctx.externals
        X["pandas.DataFrame"] = PdType(DF, self.mk_frame)
        X["pandas.Series"] = PdType(SE, self.mk_series)
        X["numpy.ndarray"] = PdType(ND, None)
        X["numpy.argmax"] = self.argmax
        ctx.assumption("pandas/numpy: DataFrame()/Series() keep rows and values; isnull marks missing values; loc/iloc with a boolean array select rows by "
                       "position, with a boolean series by label; infer_objects/astype keep values; argmax gives one integer per row")

    def all(self, i):
        return z3.And(0 <= i, i < self.n)

    def count(self, key):
        if key not in self.counts:
            self.counts[key] = self.ctx.fresh_int("number_of_rows")
            self.ctx.assume(z3.And(0 <= self.counts[key], self.counts[key] <= self.n))
        return self.counts[key]

    def same_idx(self, a, b):
        """Are the labels equal, in order?"""
        if a == b:
            return z3.BoolVal(True)
        k = tuple(sorted((str(a), str(b))))
        if k not in self.eqs:
            self.eqs[k] = self.ctx.fresh_bool("equal_labels")
            if isinstance(a, tuple) and isinstance(b, tuple) and "range" not in (a[0], b[0]) and a[1] == b[1]:    # the same rows of each
                self.ctx.assume(z3.Implies(self.same_idx(a[0], b[0]), self.eqs[k]))
        return self.eqs[k]

    def null(self, what, i):
        return z3.BoolVal(False) if what == "argmax" else self.null_(i)

    def mk_frame(self, c, v=None, columns=None, index=None, **k):
        if not isinstance(v, Tab) or index is not None or k:
            raise Unsupported("DataFrame of something else")
        t = Tab(self, DF, v.role, v.sel, v.what, ("range", v.cnt) if v.kind == ND else v.idx, v.ncol, v)
        t.columns = columns
        return t

    def mk_series(self, c, v=None, index=None, **k):
        if not isinstance(v, Tab) or index is not None or k or (v.kind == ND and v.ndim != 1):
            raise Unsupported("Series of something else")
        return Tab(self, SE, v.role, v.sel, v.what, ("range", v.cnt) if v.kind == ND else v.idx, 1, v)

    def argmax(self, c, v, axis=None):
        if not isinstance(v, Tab) or v.kind != ND or axis != 1 or v.ndim != 2:
            raise Unsupported("argmax")
        return Tab(self, ND, v.role, v.sel, "argmax", None, 1, v, ndim=1)


class PdType(Model):
    """A class of pandas or numpy."""

    def __init__(self, name, make):
        self.name, self.make = name, make
        self.type_name = name

    def py_call(self, ctx, *a, **k):
        return self.make(ctx, *a, **k)

    def py_eq(self, ctx, other):
        return self is other

    def py_instancecheck(self, ctx, v):
        return getattr(v, "kind", None) == self.name

    def __repr__(self):
        return self.name


class Tab(Model):
    def __init__(self, w, kind, role, sel, what, idx, ncol, base=None, ndim=None):
        self.w, self.kind, self.role, self.sel, self.what, self.idx, self.ncol = w, kind, role, sel, what, idx, ncol
        self.ndim = ndim or (2 if kind == DF else 1)
        self.type_name = f"{role} as {kind}"
        self.base = base
        self.cnt = base.cnt if base is not None else "all"
        self.columns = None

    def py_isinstance(self, ctx, t):
        return isinstance(t, PdType) and t.name == self.kind

    def py_len(self, ctx):
        return self.w.count(self.cnt)

    def sub(self, ctx, mask):
        if isinstance(mask, ListObj):
            raise Unsupported("selection by list")
        if not isinstance(mask, Mask):
            raise Unsupported("selection of rows by something else")
        if mask.idx is not None and not ctx.branch(self.w.same_idx(mask.idx, self.idx)):
            # aligned by label: nothing is known about the rows selected, unless the labels are equal
            f = ctx.fresh_fun("selected", I, B)
            t = self.derive(lambda i: z3.And(self.sel(i), f(i)))
            t.cnt = (self.cnt, id(f))
            t.idx = (t.idx, id(f))
            return t
        t = self.derive(lambda i: z3.And(self.sel(i), mask.pred(i)))
        t.cnt = (self.cnt, mask.key)
        t.idx = (t.idx, mask.key)
        return t

    def derive(self, sel):
        t = Tab(self.w, self.kind, self.role, sel, self.what, self.idx, self.ncol, self, self.ndim)
        t.columns = self.columns
        return t

    def py_getattr(self, ctx, name):
        if name == "ndim":
            return self.ndim
        if name == "shape":
            return (Opaque("number of rows"), self.ncol) if self.ndim == 2 else (Opaque("number of rows"),)
        if name in ("loc", "iloc"):
            return Loc(self, name)
        if name == "columns" and self.kind == DF:
            return Opaque("columns") if self.columns is None else self.columns
        if name in ("values",):
            return self.m_to_numpy(ctx)
        if name == "index" and self.kind != ND:
            return Index_(self.w, self.idx, self.cnt)
        return super().py_getattr(ctx, name)

    def py_hasattr(self, ctx, name):
        return name in ("ndim", "shape") or (self.kind != ND and name in ("loc", "iloc", "index"))

    def py_getitem(self, ctx, k):
        if isinstance(k, Mask):
            return self.sub(ctx, k)
        if self.kind == ND and self.ndim == 2:
            return Loc(self, "iloc").py_getitem(ctx, k)
        raise Unsupported("item of a table")

    def m_infer_objects(self, ctx, *a, **k):
        return self.derive(self.sel)

    def m_set_axis(self, ctx, labels, *, axis=0, copy=None):
        if axis not in (0, "index") or not isinstance(labels, Index_) or self.kind == ND:
            raise Unsupported("set_axis")
        if not ctx.test(self.w.count(self.cnt) == self.w.count(labels.cnt)):
            ctx.raise_(ValueError, "Length mismatch")
        t = self.derive(self.sel)
        t.idx = labels.idx
        return t

    def m_reset_index(self, ctx, *, drop=False):
        if drop is not True:
            raise Unsupported("reset_index")
        t = self.derive(self.sel)
        t.idx = ("range", self.cnt)
        return t

    def m_copy(self, ctx, *a, **k):
        return self.derive(self.sel)

    def m_to_numpy(self, ctx, *a, **k):
        return Tab(self.w, ND, self.role, self.sel, self.what, None, self.ncol, self, ndim=self.ndim)

    def m_isnull(self, ctx):
        if self.kind == DF or self.role != "y":
            raise Unsupported("isnull of a frame")
        return Mask(self.w, lambda i: self.w.null(self.what, i), self.idx, self.sel, ("missing", self.what))

    m_isna = m_isnull

    def m_notnull(self, ctx):
        return self.m_isnull(ctx).py_unary(ctx, "Invert")

    m_notna = m_notnull


class Index_(Model):
    type_name = "index"

    def __init__(self, w, idx, cnt):
        self.w, self.idx, self.cnt = w, idx, cnt

    def py_len(self, ctx):
        return self.w.count(self.cnt)

    def m_equals(self, ctx, other):
        if not isinstance(other, Index_):
            return False
        return self.w.same_idx(self.idx, other.idx)

    def m_copy(self, ctx):
        return self


class Loc(Model):
    type_name = "loc"

    def __init__(self, t, how):
        self.t, self.how = t, how

    def py_getitem(self, ctx, k):
        t = self.t
        if isinstance(k, tuple) and len(k) == 2:
            r, col = k
            if isinstance(r, Mask):
                t = t.sub(ctx, r)
            elif not (type(r).__name__ == "SliceVal" or isinstance(r, slice)) or not full_slice(r):
                raise Unsupported("selection of rows")
            if isinstance(col, int) and col == 0 and t.role == "y":
                return Tab(t.w, ND if t.kind == ND else SE, t.role, t.sel, t.what, t.idx, 1, t, ndim=1)
            if full_slice(col):
                return t.derive(t.sel)
            raise Unsupported("selection of columns")
        return t.sub(ctx, k)


def full_slice(s):
    if isinstance(s, slice):
        return s.start is None and s.stop is None and s.step is None
    lo, hi, st = (getattr(s, a, "?") for a in ("lo", "hi", "step"))
    return lo is None and hi is None and st is None


class Mask(Model):
    """One boolean per row."""
    type_name = "mask"

    def __init__(self, w, pred, idx, sel, key):
        self.w, self.pred, self.idx, self.sel, self.key = w, pred, idx, sel, key

    def py_unary(self, ctx, op):
        if op != "Invert":
            raise Unsupported(op)
        return Mask(self.w, lambda i: z3.Not(self.pred(i)), self.idx, self.sel, self.key[1:] if self.key[0] == "not" else ("not",) + self.key)

    def m_to_numpy(self, ctx, *a, **k):
        return Mask(self.w, self.pred, None, self.sel, self.key)

    def py_getattr(self, ctx, name):
        if name == "values":
            return self.m_to_numpy(ctx)
        return super().py_getattr(ctx, name)

    def m_any(self, ctx, *a):
        i = z3.Int("i!m")
        return z3.Exists([i], z3.And(self.sel(i), self.pred(i)))

    def m_all(self, ctx, *a):
        i = z3.Int("i!m")
        return z3.ForAll([i], z3.Implies(self.sel(i), self.pred(i)))

    def m_sum(self, ctx, *a):
        return Opaque("number of rows")
