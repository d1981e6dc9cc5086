"""C15: the catalogue against an independently written table of definitions."""
import numpy as np
from .. import tables
from ..model import *
RULE = ('every unit x every label and attribute x every route from a label to a quantity, and every ordered '
        'pair of commensurable units; oracle: data/units_def.txt evaluated by a separate evaluator')
BOUNDS = {'quick': 'all 345 units, all labels (as attribute, unit string, constructor, rescale target, units setter), '
                   'all ordered pairs of commensurable units, all unit pairs for label uniqueness',
          'thorough': 'as quick, and every pair also in powers -2, -1, 2, 3, and every triple conversion within a dimension'}
ASSUMPTIONS = ['the table of definitions in mc/data/units_def.txt is right (hand-written from SI brochure, NIST SP 811, CODATA, UDUNITS)',
               'definitions which are rounded or experimental follow the edition the catalogue is based on']
TOL = 1e-12
_tier = 'quick'

def setup():
    global DEFS, LABELS, BYDIM
    DEFS, LABELS = tables.unit_defs(), tables.unit_labels()
    BYDIM = {}
    for n in DEFS:
        BYDIM.setdefault(DEFS[n].dims(), []).append(n)

def chunks(tier):
    global _tier
    _tier = tier
    names = [l[0] for l in LABELS]
    r = [['label', i, i + 25] for i in range(0, len(names), 25)]
    r += [['pairs', i, 6] for i in range(6)]
    r += [['unique', 0, 0]]
    if tier == 'thorough':
        r += [['powers', i, 8] for i in range(8)] + [['triples', i, 16] for i in range(16)]
    return r

def si(q):
    """value and base dims of a quantity of base units, by name"""
    return float(np.asarray(q.magnitude)), tuple(sorted((u.name, num(e)) for u, e in q.dimensionality.items()))

def expect(rec, key, q, name, src, factor=1.0):
    want = DEFS[name]
    if raised(q):
        rec.fail(key, 'expected %r %s, %r' % (want.v * factor, want.dims(), q), program(src)); return
    s = attempt(lambda: q.simplified)
    if raised(s):
        rec.fail(key, 'cannot be simplified: %r' % s, program(src)); return
    v, d = si(s)
    rec.outcome((round(v, 3), d))
    wd = tuple(sorted((k, num(e)) for k, e in want.d.items()))
    if d != wd or not close(v, want.v * factor, TOL):
        rec.fail(key, '%s: expected %r %s, is %r %s' % (name, want.v * factor, wd, v, d), program(src))

def run(desc, rec):
    P = pq()
    kind, a, b = desc
    reg = P.unit_registry
    if kind == 'label':
        for n, cls, sym, usym, labels, attrs in LABELS[a:b]:
            u = attempt(lambda: reg[n])
            rec.case(n)
            if raised(u) or not isinstance(u, P.UnitQuantity):
                rec.fail('name|%s' % n, 'unit %s not found: %r' % (n, u)); continue
            src = 'print(pq.unit_registry[%r].simplified)' % n
            expect(rec, 'value|%s' % n, u, n, src); rec.step()
            # what the definition says, evaluated by the model
            if DEFS[n].dims() != ((n, 1),):
                v, d = unit_phys(u); rec.step()
                if d != tuple(sorted((k, num(e)) for k, e in DEFS[n].d.items())) or not close(v, DEFS[n].v, TOL):
                    rec.fail('definition|%s' % n, 'definition of %s evaluates to %r %s, expected %r %s' % (n, v, d, DEFS[n].v, DEFS[n].dims()))
            for attr, want in (('name', n), ('symbol', sym), ('u_symbol', usym)):
                got = attempt(lambda: getattr(u, attr)); rec.step()
                if got != want:
                    rec.fail('text|%s.%s' % (n, attr), 'expected %r, is %r' % (want, got))
            for lab in labels:
                pre = 'reg = pq.unit_registry\n'
                for route, f, src in (
                        ('registry', lambda: reg[lab], 'print(reg[%r].simplified)' % lab),
                        ('constructor', lambda: P.Quantity(1.0, lab), 'print(pq.Quantity(1.0, %r).simplified)' % lab),
                        ('rescale', lambda: P.Quantity(2.0, n).rescale(lab), 'print(pq.Quantity(2.0, %r).rescale(%r).simplified)' % (n, lab)),
                        ('times', lambda: 3.0 * reg[lab], 'print((3.0*reg[%r]).simplified)' % lab)):
                    q = attempt(f); rec.step()
                    k = {'rescale': 2.0, 'times': 3.0}.get(route, 1.0)
                    expect(rec, 'label|%s->%s|%s' % (lab, n, route), q, n, pre + src, k)
                    want = () if n == 'dimensionless' else ((n, 1),)
                    if not raised(q) and units_of(q) != want:
                        rec.fail('label|%s->%s|%s' % (lab, n, route), '%r denotes %s, expected the unit %s' % (lab, units_of(q), n), program(pre + src))
                def setter():
                    q = P.Quantity(5.0, n); q.units = lab; return q
                q = attempt(setter); rec.step()
                expect(rec, 'label|%s->%s|units=' % (lab, n), q, n, pre + 'q = pq.Quantity(5.0, %r); q.units = %r; print(q.simplified)' % (n, lab), 5.0)
                rec.trace()
            for at in attrs:
                v = attempt(lambda: getattr(P, at)); rec.step()
                expect(rec, 'attribute|%s' % at, v, n, 'print(pq.%s.simplified)' % at)
                if not raised(v) and not (isinstance(v, P.UnitQuantity) and v.name == n and hash(v) == hash(u) and bool(v == u)):
                    rec.fail('attribute|%s' % at, 'pq.%s is not the unit %s but %s' % (at, n, show(v)), program('print(repr(pq.%s))' % at))
                rec.trace()
    elif kind in ('pairs', 'powers', 'triples'):
        groups = [g for g in BYDIM.values() if g]
        work = [(x, y) for g in groups for x in g for y in g][a::b]
        for x, y in work:
            if kind == 'pairs':
                rec.case('%s -> %s' % (x, y)); rec.step(); rec.trace()
                q = attempt(lambda: P.Quantity(1.0, x).rescale(y))
                want = DEFS[x].v / DEFS[y].v
                if raised(q) or units_of(q) != (() if y == 'dimensionless' else ((y, 1),)) or not close(q.magnitude, want, TOL):
                    rec.fail('pair|%s->%s' % (x, y), '1 %s is %r %s, but conversion gives %s' % (x, want, y, show(q)),
                             program('print(pq.Quantity(1.0, %r).rescale(%r))' % (x, y)))
            elif kind == 'powers':
                for p in (-2, -1, 2, 3, 0.5):
                    rec.case('%s**%s -> %s' % (x, p, y)); rec.step(); rec.trace()
                    q = attempt(lambda: (reg[x] ** p).rescale(reg[y] ** p))
                    want = (DEFS[x].v / DEFS[y].v) ** p
                    if raised(q) or not close(q.magnitude, want, 1e-11):
                        rec.fail('power|%s**%s->%s' % (x, p, y), 'expected factor %r, got %s' % (want, show(q)),
                                 program('r = pq.unit_registry\nprint((r[%r]**%s).rescale(r[%r]**%s))' % (x, p, y, p)))
            else:
                for z in BYDIM[DEFS[x].dims()][::5]:
                    rec.case('%s->%s->%s' % (x, y, z)); rec.step(2); rec.trace()
                    q = attempt(lambda: P.Quantity(1.0, x).rescale(y).rescale(z))
                    want = DEFS[x].v / DEFS[z].v
                    if raised(q) or not close(q.magnitude, want, TOL):
                        rec.fail('triple|%s->%s->%s' % (x, y, z), 'expected %r, got %s' % (want, show(q)),
                                 program('print(pq.Quantity(1.0, %r).rescale(%r).rescale(%r))' % (x, y, z)))
    else:
        seen = {}
        for n, cls, sym, usym, labels, attrs in LABELS:
            u = attempt(lambda: reg[n]); rec.case(n); rec.step()
            for m, w in seen.items():
                rec.step()
                if attempt(lambda: hash(u) == hash(w)) is not False:
                    rec.fail('distinct|%s,%s' % (n, m), 'two catalogue units hash alike')
            seen[n] = u
        rec.trace()
