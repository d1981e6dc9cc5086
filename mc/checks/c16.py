"""C16: the constants package against an independent copy and parser of the CODATA 2006 table."""
import numpy as np
from .. import tables
from ..model import *
RULE = ('every constant x every one of its names x every use (definition, base units, as a unit string target, as unit '
        'in products, quotients and powers); oracle: data/codata2006.txt parsed by mc/tables.py')
BOUNDS = {'quick': 'all 324 constants under all 410 names; powers -2..3 and 0.5; products and quotients of every constant with its successor',
          'thorough': 'as quick, and products of every ordered pair of constants'}
ASSUMPTIONS = ['mc/data/codata2006.txt is the published CODATA 2006 listing', 'mc/data/constants_map.txt assigns constants to entries by name']
TOL = 1e-12
_tier = 'quick'

def setup():
    global CONS, DEFS
    CONS, DEFS = tables.constants(), tables.unit_defs()

def chunks(tier):
    global _tier
    _tier = tier
    r = [['const', i, i + 28] for i in range(0, len(CONS), 28)]
    if tier == 'thorough':
        r += [['product', i, 16] for i in range(16)]
    return r

def want(c):
    """table value of a constant in base units"""
    n, val, un, sym, att = c
    v = tables.V(val, {})
    for k, e in un.items():
        v = v * DEFS[k] ** e
    return v

def cmp(rec, key, q, v, src, tol=TOL):
    s = attempt(lambda: q.simplified) if not raised(q) else q
    wd = tuple(sorted((k, num(e)) for k, e in v.d.items()))
    if raised(s) or units_of(s) != wd or not close(s.magnitude, v.v, tol):
        rec.fail(key, 'expected %r %s in base units, got %s' % (v.v, wd, show(s)), program('C = pq.constants', src))
    else:
        rec.outcome((round(float(s.magnitude), 6), wd))

def run(desc, rec):
    P = pq(); C = P.constants
    kind, a, b = desc
    if kind == 'const':
        for i in range(a, min(b, len(CONS))):
            n, val, un, sym, att = c = CONS[i]
            w = want(c)
            wu = tuple(sorted((k, num(e)) for k, e in un.items() if e))
            for at in att:
                rec.case('%s = %r %s' % (at, val, wu)); rec.trace()
                k = attempt(lambda: getattr(C, at))
                if raised(k) or not isinstance(k, P.UnitQuantity):
                    rec.fail('missing|%s' % at, 'no such constant: %s' % show(k)); continue
                d = attempt(lambda: k.definition); rec.step()
                if raised(d) or not close(d.magnitude, val, 4e-16) or units_of(d) != wu:
                    rec.fail('definition|%s' % at, 'published: %r %s, defined as %s' % (val, wu, show(d)),
                             program('print(repr(pq.constants.%s.definition))' % at))
                if attempt(lambda: k.name) != n or attempt(lambda: k.symbol) != sym:
                    rec.fail('text|%s' % at, 'expected name %r and symbol %r, is %r and %r' % (n, sym, attempt(lambda: k.name), attempt(lambda: k.symbol)))
                cmp(rec, 'simplified|%s' % at, k, w, 'print(C.%s.simplified)' % at)
                cmp(rec, 'times|%s' % at, attempt(lambda: 2.5 * k), w * 2.5, 'print((2.5*C.%s).simplified)' % at)
                cmp(rec, 'array|%s' % at, attempt(lambda: (np.array([1., 2., 3.]) * k)[1]), w * 2.0, 'print((np.array([1.,2.,3.])*C.%s)[1].simplified)' % at)
                cmp(rec, 'asunit|%s' % at, attempt(lambda: P.Quantity(4.0, k)), w * 4.0, 'print(pq.Quantity(4.0, C.%s).simplified)' % at)
                rec.step(4)
                for p in (-2, -1, 2, 3, 0.5):
                    if p == 0.5 and val < 0:
                        continue
                    cmp(rec, 'power|%s**%s' % (at, p), attempt(lambda: k ** p), w ** p if val > 0 or p != 0.5 else w, 'print((C.%s**%s).simplified)' % (at, p), 1e-11)
                    rec.step()
                # as a conversion target and source
                q = attempt(lambda: P.Quantity(val * 3.0, d.dimensionality).rescale(k)); rec.step()
                kn = units_of(1 * k)
                if raised(q) or not close(q.magnitude, 3.0, TOL) or units_of(q) != kn:
                    rec.fail('target|%s' % at, 'three times the value converts to %s' % show(q),
                             program('C=pq.constants; d=C.%s.definition; print(pq.Quantity(%r*3, d.dimensionality).rescale(C.%s))' % (at, val, at)))
                q = attempt(lambda: (3.0 * k).rescale(d.dimensionality)); rec.step()
                if raised(q) or not close(q.magnitude, val * 3.0, TOL) or units_of(q) != wu:
                    rec.fail('source|%s' % at, 'three of it are %s, expected %r %s' % (show(q), val * 3.0, wu),
                             program('C=pq.constants; print((3.0*C.%s).rescale(C.%s.definition.dimensionality))' % (at, at)))
                for nm in att:
                    o = attempt(lambda: getattr(C, nm)); rec.step()
                    if raised(o) or o is not k and not (hash(o) == hash(k) and bool(o == k)):
                        rec.fail('alias|%s,%s' % (at, nm), 'two names of one constant denote %s and %s' % (show(k), show(o)))
            c2 = CONS[(i + 1) % len(CONS)]
            pair(rec, P, C, c, c2)
    else:
        for i in range(a, len(CONS), b):
            for c2 in CONS:
                pair(rec, P, C, CONS[i], c2)

def pair(rec, P, C, c, c2):
    k, k2 = attempt(lambda: getattr(C, c[4][0])), attempt(lambda: getattr(C, c2[4][0]))
    if raised(k) or raised(k2):
        return
    rec.case(None); rec.step(2); rec.trace()
    x, y = c[4][0], c2[4][0]
    cmp(rec, 'product|%s*%s' % (x, y), attempt(lambda: k * k2), want(c) * want(c2), 'print((C.%s*C.%s).simplified)' % (x, y))
    if x != y:
        cmp(rec, 'quotient|%s/%s' % (x, y), attempt(lambda: k / k2), want(c) / want(c2), 'print((C.%s/C.%s).simplified)' % (x, y))
