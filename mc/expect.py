"""Comparing a result of the code under test with what the model predicts."""
import numpy as np
from .model import *


def dt(x):
    """dtype without byte order"""
    d = np.dtype(x)
    return d.kind + str(d.itemsize)


def want_q(rec, key, got, mag, units, src=None, rtol=2e-12, atol=0.0, dtype=None, ctx=''):
    """got must be a quantity with these units, this shape and these numbers"""
    P = pq()
    rec.step()
    if raised(got):
        rec.fail(key, '%sexpected %s %s, but it %r' % (ctx, np.asarray(mag).tolist(), units, got), src); return False
    if not isinstance(got, P.Quantity):
        rec.fail(key, '%sexpected a quantity %s %s, got %s' % (ctx, np.asarray(mag).tolist(), units, show(got)), src); return False
    u = units_of(got)
    if u != units:
        rec.fail(key, '%sexpected units %s, got %s (%s)' % (ctx, units, u, show(got)), src); return False
    m = np.asarray(got.magnitude)
    if not close(m, mag, rtol, atol):
        rec.fail(key, '%sexpected %r %s, got %r' % (ctx, np.asarray(mag).tolist(), units, m.tolist()), src); return False
    if dtype is not None and dt(m.dtype) != dt(dtype):
        rec.fail(key, '%sexpected dtype %s, got %s' % (ctx, np.dtype(dtype), m.dtype), src); return False
    rec.outcome((units, m.shape, dt(m.dtype)))
    return True


def want_raise(rec, key, got, src=None, ctx=''):
    rec.step()
    if not raised(got):
        rec.fail(key, '%sexpected to be rejected, but gives %s' % (ctx, show(got)), src); return False
    rec.outcome(type(got.exc).__name__)
    return True


def want_same(rec, key, x, before, src=None, what='operand'):
    now = obs(x)
    if now != before:
        rec.fail(key, '%s was changed from %r to %r' % (what, before, now), src); return False
    return True
