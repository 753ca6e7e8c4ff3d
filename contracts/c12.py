"""C12: out-of-fold predictions never come from a model that saw the row.

evaluate_pipeline: on success the prediction array is written at every row, at each row by the
pipeline of the row's own fold, which was fitted on rows that do not include it; with
subsampling the training rows are a part of the requested size of the fold's training part and
the test parts stay unchanged (see contracts/sk.py for the ghost picture and loop invariants).
"""
import z3
from pyvc.driver import *
from contracts.sk import *
from contracts.c11 import run_pipeline

PROOFS = Registry()


def out_of_fold(ctx, sub_kind):
    w, st, (how, r) = run_pipeline(ctx, sub_kind)
    if how == "raised" or w.events:
        raise PathAbort()
    it = ctx.interp
    pred, scores, est, err = r
    if not isinstance(pred, Arr):
        return ctx.fail("a success has predictions")
    row = ctx.fresh_int("row")
    ctx.assume(w.row(row))
    ctx.prove("every row is predicted", pred.written(row))
    f = pred.src(row)
    ctx.prove("by the pipeline of its own fold", f == w.fold(row))
    g = ctx.fresh_int("fold")
    ctx.assume(g == f)
    rows = w.cv_rows(ctx, g)
    ctx.prove("which was fitted without the row", z3.Not(rows.member(row)))
    ctx.prove("cross-validated once", w.cv_called == 1)
    ctx.cover("success")


for _k, _t in enumerate(("without subsampling", "subsample given as a number of rows", "subsample given as a fraction")):
    PROOFS("evaluate_pipeline: out-of-fold predictions, " + _t, covers=("success",), timeout=150)(lambda ctx, k=_k: out_of_fold(ctx, k))
