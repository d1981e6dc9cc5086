"""C01: conversions, over unit pairs x routes x spellings x operands, and chains of conversions."""
import itertools
import numpy as np
from ..alphabet import *
from ..expect import *
from .. import tables

RULE = ('every ordered pair of the unit alphabet (compatible and incompatible) x every conversion route and spelling x operands; '
        'every conversion chain inside a dimension; every ordered pair of catalogue units. Oracle: factor found by the '
        'definition-recursive unit model, dimension by base-unit exponents')
BOUNDS = {'quick': '72 unit expressions in 19 dimensions: 382 compatible ordered pairs x 21 routes x 6 operands, x 2 routes x 70 operands; '
                   'all incompatible ordered pairs x 12 routes; all paths of 3 conversions within a dimension x 3 route patterns; '
                   'all 670^2 ordered pairs of catalogue units and constants (rejected iff of different dimension), the compatible ones also by assignment, construction and to the powers -1 and 1/8',
          'thorough': 'full product of compatible pairs x routes x 70 operands; all paths of 4 conversions; catalogue pairs by seven routes and to four more powers'}
ASSUMPTIONS = ['definitions of units are right (C15 decides that)', 'one rounding error per multiplication is allowed: rtol 2e-12 (5e-6 for single precision)']

ROUTES = [   # name, statement giving r (q: operand), may it change q
    ('rescale(unit)', 'r = q.rescale(%(u)s)'),
    ('rescale(str)', 'r = q.rescale(%(s)r)'),
    ('rescale(quantity)', 'r = q.rescale(pq.Quantity(1.0, %(u)s))'),
    ('rescale(1-element)', 'r = q.rescale(pq.Quantity([1.0], %(u)s))'),
    ('rescale(int quantity)', 'r = q.rescale(pq.Quantity(1, %(u)s))'),
    ('rescale(units attr)', 'r = q.rescale((7.0*%(u)s).units)'),
    ('rescale(dims)', 'r = q.rescale((%(u)s).dimensionality)'),
    ('rescale(units=)', 'r = q.rescale(units=%(u)s)'),
    ('rescale(f8)', 'r = q.rescale(%(u)s, dtype="f8")'),
    ('rescale(f4)', 'r = q.rescale(%(u)s, dtype="f4")'),
    ('rescale(c16)', 'r = q.rescale(%(u)s, dtype=complex)'),
    ('Quantity(q,unit)', 'r = pq.Quantity(q, %(u)s)'),
    ('Quantity(q,str)', 'r = pq.Quantity(q, %(s)r)'),
    ('Quantity(q,quantity)', 'r = pq.Quantity(q, units=1.0*%(u)s)'),
    ('Quantity(q,dims)', 'r = pq.Quantity(q, (%(u)s).dimensionality)'),
    ('units=unit', 'q.units = %(u)s; r = q'),
    ('units=str', 'q.units = %(s)r; r = q'),
    ('units=quantity', 'q.units = pq.Quantity(1.0, %(u)s); r = q'),
    ('units=dims', 'q.units = (%(u)s).dimensionality; r = q'),
    ('units=same twice', 'q.units = %(u)s; q.units = %(u)s; r = q'),
    ('back', 'r = q.rescale(%(u)s).rescale(%(f)s).rescale(%(u)s)'),
]
CORE = [0, 15]
FEW = [0, 1, 2, 6, 20, 31]     # operands used with every route


def setup():
    global A, G, ARR, CODE, DEFS
    A = unit_alphabet()
    for u in A:
        u.model(); u.string
    G = group(A)
    ARR = arrays()
    CODE = {}
    DEFS = tables.unit_defs()


def code(route, fu, tu):
    k = (route, fu.src, tu.src)
    if k not in CODE:
        d = dict(u='(%s)' % tu.src, s=tu.string, f='(%s)' % fu.src)
        CODE[k] = compile(dict(ROUTES)[route] % d, route, 'exec')
    return CODE[k]


def text(route, fu, tu):
    return dict(ROUTES)[route] % dict(u='(%s)' % tu.src, s=tu.string, f='(%s)' % fu.src)


def do(c, q):
    env = dict(glob()); env['q'] = q
    def f():
        exec(c, env)
        return env['r']
    return attempt(f)


def chunks(tier):
    n = 16 if tier == 'quick' else 48
    r = [['pairs', i, n, tier] for i in range(n)]
    r += [['wrong', i, 8, tier] for i in range(8)]
    r += [['chains', i, 8, tier] for i in range(8)]
    r += [['catalogue', i, 8, tier] for i in range(8)]
    r += [['constants', i, 8, tier] for i in range(8)]
    r += [['notunits', 0, 1, tier]]
    return r


_mags = {}
def operand(i):
    if i not in _mags:
        _mags[i] = Expr(ARR[i])
    return _mags[i]


def one(rec, route, fu, tu, i):
    P = pq()
    m0 = np.asarray(operand(i).new())
    if tu.string is None and '%(s)r' in dict(ROUTES)[route]:
        return
    q = P.Quantity(operand(i).new(), fu.obj())
    key = '%s|%s|%s->%s' % (route, ARR[i], fu, tu)
    src = None
    rec.case(key)
    before = obs(q)
    prog = lambda: program(USER_SRC, 'q = pq.Quantity(%s, %s); before = repr(q)' % (ARR[i], fu.src), text(route, fu, tu), 'print(before, "->", repr(r))')
    base = q.base
    r = do(code(route, fu, tu), q)
    inplace = route.startswith('units=')
    f = fu.scale / tu.scale
    isint = m0.dtype.kind in 'iub'
    if inplace and fu.units == tu.units and not (raised(r) and not q.flags.writeable):
        want_q(rec, key, r, m0, tu.units, prog(), 0.0, 0.0, m0.dtype); rec.trace(); return
    if inplace and raised(r) and (isint or not q.flags.writeable):
        rec.step(); rec.note('in-place conversion of integer or read-only arrays refused')
        want_same(rec, key, q, before, prog()); rec.trace(); return
    with np.errstate(all='ignore'):
        want = (m0 if m0.dtype == np.longdouble else m0.astype(np.result_type(m0, 'f8'))) * (f if f != 1 else 1.0)
    dtype = {'rescale(f8)': 'f8', 'rescale(f4)': 'f4', 'rescale(c16)': 'c16'}.get(route, m0.dtype)
    if route in ('rescale(f8)', 'rescale(f4)') and m0.dtype.kind == 'c':
        return
    tol = tol_for(m0.dtype, dtype) if np.dtype(dtype).kind in 'fc' else tol_for(m0.dtype)
    if tol > 1e-9:
        # the narrowest type involved; what it can not represent is not compared
        fi = np.finfo(min((np.dtype(x) for x in (dtype, m0.dtype) if np.dtype(x).kind in 'fc'), key=lambda x: np.finfo(x).bits))
        a = np.abs(np.atleast_1d(want)); a = a[np.isfinite(a) & (a > 0)]
        if a.size and (a.max() > 0.9 * float(fi.max) or a.min() < float(fi.tiny)):
            rec.note('range of single or half precision exceeded'); return
    dres = None
    if m0.dtype.kind in 'fc' and route != 'rescale(f4)':
        dres = np.result_type(m0.dtype, dtype)
    if m0.dtype.itemsize > 8 and m0.dtype.kind == 'f':
        dres = dres if dtype == m0.dtype else None
    if route == 'rescale(f4)' and m0.dtype.kind == 'f' and m0.dtype.itemsize > 4:
        dres = None    # which of the two wins is not specified
    ok = want_q(rec, key, r, want, tu.units, prog(), tol * (3 if route == 'back' else 1), 1e-320 * max(1.0, f), dres)
    if not inplace:
        want_same(rec, key, q, before, prog())
        if ok and np.shares_memory(np.asarray(r.magnitude), np.asarray(q.magnitude)):
            rec.fail(key, 'the converted copy shares memory with the operand', prog())
    elif ok and r is not q:
        rec.fail(key, 'harness')
    rec.trace()


def run(desc, rec):
    P = pq()
    kind, a, n, tier = desc
    if kind == 'pairs':
        work = [(x, y) for g in G.values() for x in g for y in g][a::n]
        for x, y in work:
            for ri, (route, _) in enumerate(ROUTES):
                ops = range(len(ARR)) if tier == 'thorough' or ri in CORE else FEW
                for i in ops:
                    one(rec, route, x, y, i)
            # the unit itself as operand, and the special routes
            q = x.obj(); key = 'unit.rescale|%s->%s' % (x, y)
            rec.case(key)
            want_q(rec, key, attempt(lambda: q.rescale(y.obj())), x.scale / y.scale, y.units,
                   program(USER_SRC, 'print(repr((%s).rescale(%s)))' % (x.src, y.src)))
            rec.trace()
            if x is y:
                key = 'simplified|%s' % x
                for i in range(len(ARR)):
                    m0 = np.asarray(operand(i).new())
                    q = P.Quantity(operand(i).new(), x.obj()); before = obs(q)
                    prog = program(USER_SRC, 'print(repr(pq.Quantity(%s, %s).simplified))' % (ARR[i], x.src))
                    if tol_for(m0.dtype) > 1e-9 and not 1e-30 < x.scale < 1e30:
                        continue
                    rec.case(key)
                    with np.errstate(all='ignore'):
                        w = np.asarray((m0 if m0.dtype == np.longdouble else m0.astype(np.result_type(m0, 'f8'))) * x.scale)
                    want_q(rec, '%s|%s' % (key, ARR[i]), attempt(lambda: q.simplified), w, x.dims, prog, tol_for(m0.dtype), 1e-320 * max(1, x.scale))
                    want_same(rec, '%s|%s' % (key, ARR[i]), q, before, prog)
                    rec.trace()
                    got = attempt(lambda: q.dimensionless_magnitude)
                    key2 = 'dimensionless_magnitude|%s|%s' % (ARR[i], x)
                    if x.dims == ():
                        rec.case(key2); rec.step()
                        if raised(got) or isinstance(got, P.Quantity) or not close(got, w, tol_for(m0.dtype), 1e-320 * max(1, x.scale)):
                            rec.fail(key2, 'expected %r, got %s' % (w.tolist(), show(got)), program(USER_SRC, 'print(repr(pq.Quantity(%s, %s).dimensionless_magnitude))' % (ARR[i], x.src)))
                        rec.trace()
                    else:
                        rec.case(key2)
                        want_raise(rec, key2, got); rec.trace()
                    want_same(rec, key2, q, before)
    elif kind == 'wrong':
        work = [(x, y) for x in A for y in A if x.dims != y.dims][a::n]
        few = [0, 1] if tier == 'quick' else [0, 1, 2, 6, 8, 31, 36]
        zero = [ARR.index(s) for s in ('np.zeros(3)', '0.0', 'np.zeros((0,))', "np.zeros((2, 2), dtype='i4')")]
        for x, y in work:
            for route, _ in ROUTES:
                if route == 'back' or (y.string is None and '%(s)r' in _):
                    continue
                if tier == 'quick' and route in ('rescale(units=)', 'rescale(f8)', 'rescale(c16)', 'rescale(units attr)', 'units=same twice', 'rescale(int quantity)', 'Quantity(q,quantity)', 'units=quantity'):
                    continue
                for i in few[:1] + zero[:1] if route != 'rescale(unit)' else few + zero:
                    q = P.Quantity(operand(i).new(), x.obj()); before = obs(q)
                    key = 'incompatible|%s|%s->%s' % (route, x, y)
                    rec.case(key)
                    r = do(code(route, x, y), q)
                    prog = program(USER_SRC, 'q = pq.Quantity(%s, %s)' % (ARR[i], x.src), text(route, x, y), 'print(repr(r))')
                    want_raise(rec, key, r, prog)
                    want_same(rec, key, q, before, prog)
                    rec.trace()
    elif kind == 'chains':
        groups = [g for g in G.values() if len(g) > 1]
        depth = 3 if tier == 'quick' else 4
        pats = [('copy',) * depth, ('set',) * depth, ('copy', 'set', 'str', 'copy')[:depth], ('ctor', 'copy', 'set', 'ctor')[:depth]]
        work = [(s, p) for g in groups for s in g for p in itertools.product(g, repeat=depth)][a::n]
        if tier == 'thorough':
            work = [w for w in work if len(set(w[1])) > 2 or len(G[w[0].dims]) < 5]
        for s, path in work:
            for pat in pats[:3 if tier == 'quick' else 4]:
                q = P.Quantity(np.array([1.0, -2.5]), s.obj())
                key = 'chain|%s|%s' % (s, '->'.join('%s %s' % (k, u) for k, u in zip(pat, path)))
                rec.case(key)
                def step(q, k, u):
                    if k == 'set' or (k == 'str' and u.string is None):
                        q.units = u.obj(); return q
                    if k == 'str':
                        return q.rescale(u.string)
                    return q.rescale(u.obj()) if k == 'copy' else P.Quantity(q, u.obj())
                bad = False
                for k, u in zip(pat, path):
                    if k == 'set' and q.base is not None and isinstance(q.base, P.Quantity):
                        q = q.copy()
                    r = attempt(step, q, k, u); rec.step()
                    w = np.array([1.0, -2.5]) * (s.scale / u.scale)
                    if raised(r) or not isinstance(r, P.Quantity) or (units_of(r) != u.units and not (k == 'ctor' and u.units == ())) or (units_of(r) == u.units and not close(r.magnitude, w, 1e-11)):
                        rec.fail(key, 'after %s to %s: expected %r %s, got %s' % (k, u, w.tolist(), u.units, show(r)), program(USER_SRC, '# ' + key)); break
                    q = r
                rec.trace()
    elif kind == 'constants':
        # units and constants together: six constants have the name of a unit, but another value
        names = ['pq.unit_registry[%r]' % x for x in sorted(DEFS)] + sorted('pq.constants.' + x for x, v in vars(P.constants).items() if isinstance(v, P.UnitConstant))
        O = [(x, x.startswith('pq.c'), Expr(x).new()) for x in names]
        O = [(x, c, o) + unit_phys(o) + (() if o is P.dimensionless else ((uname(o), 1),),) for x, c, o in O]
        for x, cx, ox, sx, dx, ux in O[a::n]:
            for y, cy, oy, sy, dy, uy in O:
                if not (cx or cy): continue
                key = 'constants|%s->%s' % (x, y)
                prog = lambda: program('print(repr(pq.Quantity(3.0, %s).rescale(%s)))' % (x, y))
                q = P.Quantity(3.0, ox)
                rec.case(key)
                r = attempt(q.rescale, oy)
                if dx == dy:
                    want_q(rec, key, r, 3.0 * (sx / sy), uy, prog())
                    def assign(q): q.units = oy; return q
                    for nm, f, p in (('assign', assign, 1), ('ctor', lambda q: P.Quantity(q, oy), 1), ('power', lambda q: (q**2).rescale(oy**2), 2), ('inverse', lambda q: (1/q).rescale(1/oy), -1)):
                        rec.case(key)
                        k = key + '|' + nm
                        if p != 1 and (uy == () or ux == ()): continue
                        want_q(rec, k, attempt(f, P.Quantity(3.0, ox)), (3.0 * (sx / sy))**p, upow(uy, p), prog(), 1e-11)
                elif raised(r):
                    rec.step(); rec.outcome('raise')
                else:
                    want_raise(rec, key, r, prog())
                rec.trace()
    elif kind == 'catalogue':
        names = sorted(DEFS)
        reg = P.unit_registry
        objs = {x: reg[x] for x in names}
        dims = {x: DEFS[x].dims() for x in names}
        for x in names[a::n]:
            for y in names:
                routes = [lambda q: q.rescale(objs[y])]
                if tier == 'thorough':
                    routes += [lambda q: q.rescale(y), lambda q: P.Quantity(q, y)]
                if dims[x] == dims[y]:      # the incompatible ones are covered by 'wrong'
                    def assign(q): q.units = objs[y]; return q
                    for k, (m0, f) in enumerate([(np.array([3.0, -7.0]), assign), (np.array([[1.5], [2.0]]), lambda q: P.Quantity(q, objs[y]))] + (
                            [(np.array([3, 4]), lambda q: q.rescale(y)), (2.0, lambda q: q.rescale(1.0*objs[y]).rescale(objs[x]).rescale(objs[y]))] if tier == 'thorough' else [])):
                        key = 'catalogue-route%d|%s->%s' % (k, x, y)
                        rec.case(key)
                        want_q(rec, key, attempt(f, P.Quantity(m0.copy() if isinstance(m0, np.ndarray) else m0, objs[x])), m0 * (DEFS[x].v / DEFS[y].v),
                               () if y == 'dimensionless' else ((y, 1),), program('q = pq.Quantity(%r, %r)' % (np.asarray(m0).tolist(), x), 'q.units = %r; print(q)  # or Quantity(q, ...)' % y))
                        rec.trace()
                    for e in (-2, 0.5, 0.125, 3) if tier == 'thorough' else (-1, 0.125):
                        if y == 'dimensionless' or x == 'dimensionless': continue
                        key = 'catalogue**%r|%s->%s' % (e, x, y)
                        rec.case(key)
                        want_q(rec, key, attempt(lambda: P.Quantity(3.0, objs[x]**e).rescale(objs[y]**e)), 3.0 * (DEFS[x].v / DEFS[y].v)**e, ((y, num(e)),),
                               program('print(pq.Quantity(3.0, pq.unit_registry[%r]**%r).rescale(pq.unit_registry[%r]**%r))' % (x, e, y, e)))
                        rec.trace()
                for k, f in enumerate(routes):
                    q = P.Quantity(3.0, x)
                    key = 'catalogue%d|%s->%s' % (k, x, y)
                    rec.case(key)
                    r = attempt(f, q)
                    if dims[x] == dims[y]:
                        w = 3.0 * (DEFS[x].v / DEFS[y].v)
                        yu = () if y == 'dimensionless' else ((y, 1),)
                        if k == 2 and yu == ():
                            yu = units_of(r); w = 3.0 * DEFS[x].v / unit_phys(objs[yu[0][0]])[0] if yu else w
                        want_q(rec, key, r, w, yu, program('print(pq.Quantity(3.0, %r).rescale(%r))' % (x, y)))
                    elif not (k == 2 and y == 'dimensionless'):
                        want_raise(rec, key, r, program('print(pq.Quantity(3.0, %r).rescale(%r))' % (x, y)))
                    rec.trace()
    else:
        bad = ['5', '2.0', 'None', '[pq.m]', '(pq.m,)', "'nosuchunit'", "'m +'", "'2*m'", 'pq.Quantity(2.0, "m")', 'pq.Quantity([1.0, 1.0], "m")',
               'np.ones(2)', 'dict(m=1)', 'pq', "b'm'", 'pq.Quantity(nan, "m")', '3*pq.m', "'m m'", 'object()', 'pq.Quantity(1+1j, "m")', 'pq.Quantity(0.0, "m")', 'pq.Quantity(-1.0, "m")',
               '1.0000001*pq.m', '(1 + 1e-12)*pq.m', 'pq.Quantity([1.0, 2.0], "m")', 'pq.Quantity([[1.0]], "m")', 'pq.Quantity([], "m")', 'pq.Quantity(1e-9, "m")', 'pq.Quantity(inf, "m")', 'np.float64(1.0)', 'True', 'np.array(1)']
        for b in bad:
            for qs in ('2.0', 'np.array([1.0, 2.0])'):
                for u in ('pq.cm', 'pq.m'):
                    for nm, stmt in (('rescale', 'r = q.rescale(%s)'), ('units=', 'q.units = %s; r = q'), ('ctor', 'r = pq.Quantity(q, %s)')):
                        if nm == 'ctor' and b in ('None',):
                            continue
                        q = P.Quantity(Expr(qs).new(), Expr(u).new()); before = obs(q)
                        key = 'not a unit|%s|%s|%s*%s' % (nm, b, qs, u)
                        rec.case(key)
                        r = do(compile(stmt % b, 'x', 'exec'), q)
                        want_raise(rec, key, r, program('q = pq.Quantity(%s, %s)' % (qs, u), stmt % b))
                        want_same(rec, key, q, before)
                        rec.trace()
