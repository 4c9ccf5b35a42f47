"""Deterministic parallel map over a finite list of work items (results in order)."""
import multiprocessing
import os
import sys
import traceback


def _call(args):
    fn, item = args
    try:
        return ("ok", fn(item))
    except BaseException:
        return ("err", traceback.format_exc()[-1500:])


def pmap(fn, items, procs=None, chunksize=1):
    items = list(items)
    procs = min(procs or min(8, os.cpu_count() or 1), max(1, len(items)))
    sys.stdout.flush()
    if procs == 1 or len(items) == 1:
        res = [_call((fn, i)) for i in items]
    else:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(procs) as pool:
            res = pool.map(_call, [(fn, i) for i in items], chunksize)
    for r in res:
        yield r
