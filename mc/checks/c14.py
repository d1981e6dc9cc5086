"""C14: uncertain quantities against the first-order formulas, computed on plain arrays."""
import itertools
import numpy as np
from ..alphabet import *
from ..expect import want_same

RULE = ('every pair of operands (uncertain, certain, unit, constant, plain; at least one uncertain) under every arithmetic operator in normal, reflected and in-place form, every power, negation, reduction and axis, '
        'conversion, index and assignment: value, units, standard deviation and class of the result are compared with the first-order formulas evaluated on plain arrays in base units; operands are compared before and after, and after '
        'writing to the result; histories of changes to one object are compared with a pair of plain arrays')
BOUNDS = {'quick': '44 uncertain operands x 90 operands on either side x 4 operators (and in place); 16 exponents; 10 reductions x all axes and orders of several axes in their default, positional and NumPy forms; 30 conversions, 25 indices; histories of 3 of 30 changes from 4 starts; values and uncertainties in every pair of dtypes and unit scales; in-place changes through views of uncertain quantities',
          'thorough': '110 uncertain operands x 170; histories of 3 of 30 changes from 6 starts, of 4 from 3 starts'}
ASSUMPTIONS = ['the operands of one operation are independent (the same object on both sides is not used)', 'NumPy ufuncs called directly are outside the property, and so are floor division, remainder and powers with uncertain exponents']

MAGSD = [('2.5', '0.25'), ('[1.0, -2.0, 4.0]', '[0.1, 0.2, 0.5]'), ('[[1.5], [2.0]]', '[[0.5], [0.125]]'), ('[0.0, 3.0, -1.0]', '[0.1, 0.0, 0.3]'), ('-3.0', '0.5'), ('[2.0, 2.0, 2.0]', '[0.0, 0.0, 0.0]'),
         ('[]', '[]'), ('np.asfortranarray([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]])', 'np.array([[0.1, 0.2, 0.3], [0.4, 0.5, 0.6]])'), ('[nan, 1.0, 2.0]', '[0.1, 0.2, 0.3]'), ('0.0', '0.5'), ('np.sin(np.arange(9000.0))', '0.1*np.cos(np.arange(9000.0))**2'), ('np.array([1e8, 1e-8, 3.0])', '[1.0, 1e-9, 1e-3]'), ('[[1.0, 2.0, -4.0], [nan, 3.0, nan]]', '[[0.1, 0.2, 0.3], [0.4, 0.5, 0.6]]')]
UNITS_A = ['m', 'ft', 'X.vfoo', (('km', 1), ('hour', -1)), 'X.cu3', 's', 'dimensionless', 'percent']
OTHER_UNITS = ['m', 'cm', 'X.vfoo', 's', (('m', 1), ('s', -1)), 'dimensionless', 'percent', 'kg']
CERT_MAGS = ['2.5', '[1.0, -2.0, 4.0]', '[[1.5], [2.0]]', '0.0', 'np.array([1, 2, 7])', '-3', "np.array([1.5, 2.5, 0.25], dtype='f4')"]
PLAINS = ['3', '2.5', '-1.5', '0', 'np.float64(2.0)', 'np.int64(2)', '[1, 2, 7]', 'np.array([1.0, -2.0, 4.0])', 'np.array([[1.0], [2.0]])', '1', 'True', 'np.array(2.0)', '(1.5, -2.0, 4.0)', 'np.float32(2.5)']
SINGLES = ['m', 'ft', 's', 'X.vfoo', 'percent', 'dimensionless', 'pq.constants.Bohr_radius', 'X.cu3', 'kg']
EXPS = ['2', '3', '-1', '0.5', '0', '1', '-2', '1.5', '2.0', '0.0', 'np.array(2)', 'np.int64(3)', 'np.float64(-1)', 'pq.Quantity(2.0, "")', 'pq.dimensionless', '-0.5']


class Op:
    """operand with its plain arrays"""
    def __init__(self, kind, mag, sd=None, u=None):
        self.kind, self.u = kind, u
        g = glob()
        self.m = np.asarray(eval(mag, g), dtype='f8') if kind != 'unit' else np.asarray(1.0)
        self.sd = np.asarray(eval(sd, g), dtype='f8') if sd is not None else np.zeros(self.m.shape)
        if kind == 'uncertain': self.src = 'pq.UncertainQuantity(%s, %s, %s)' % (mag, u.src, sd)
        elif kind == 'quantity': self.src = 'pq.Quantity(%s, %s)' % (mag, u.src)
        elif kind == 'unit': self.src = u.src
        else: self.src = mag
        self.e = Expr(self.src)
        self.units, self.scale, self.dims = u.model() if u is not None else ((), 1.0, ())
    def new(self): return self.e.new()
    def __repr__(self): return self.src


def mku(names):
    return [U() if n == 'dimensionless' else mk_units(n)[0] for n in names]


def setup():
    define_user_units()
    global UN, OT
    q = True
    ua = mku(UNITS_A)
    UN, OT = {}, {}
    for tier in ('quick', 'thorough'):
        full = tier == 'thorough'
        UN[tier] = [Op('uncertain', m, s, u) for i, (m, s) in enumerate(MAGSD) for j, u in enumerate(ua) if full or (i + j) % 2 == 0]
        OT[tier] = list(UN[tier]) + [Op('quantity', m, None, u) for i, m in enumerate(CERT_MAGS) for j, u in enumerate(mku(OTHER_UNITS)) if full or (i + j) % 2 == 0] + [Op('plain', p) for p in PLAINS] + [Op('unit', '1', None, u) for u in mku(SINGLES)]


def sdof(op, a, b, sa, sb):
    with np.errstate(all='ignore'):
        if op in '+-': return np.hypot(np.broadcast_arrays(sa, sb)[0], sb) if False else np.sqrt(sa ** 2 + sb ** 2)
        if op == '*': return np.sqrt((b * sa) ** 2 + (a * sb) ** 2)
        if op == '/': return np.sqrt((sa / b) ** 2 + (a * sb / b ** 2) ** 2)


def val(op, a, b):
    with np.errstate(all='ignore'):
        return {'+': np.add, '-': np.subtract, '*': np.multiply, '/': np.divide}[op](a, b)


def check(rec, key, src, r, value, sd, dims, units_any, big=0.0):
    """r against value and standard deviation in base units; units_any: admissible unit expressions or None"""
    P = pq()
    if not isinstance(r, P.UncertainQuantity):
        rec.fail(key('class'), 'the result is %s' % show(r), src); return False
    if units_any is not None and units_of(r) not in units_any:
        rec.fail(key('units'), 'the result has units %r, expected %r' % (units_of(r), units_any), src); return False
    v, d = phys(r)
    u = r.uncertainty
    if not isinstance(u, P.Quantity) or u.shape != r.shape:
        rec.fail(key('shape'), 'uncertainty %s of %s' % (show(u), show(r)), src); return False
    s, ds = phys(u)
    if units_of(u) != units_of(r):
        rec.fail(key('units'), 'the uncertainty has units %r, the value %r' % (units_of(u), units_of(r)), src); return False
    if d != dims:
        rec.fail(key('units'), 'the result %s has dimensions %r, expected %r' % (show(r), d, dims), src); return False
    value, sd = np.asarray(value), np.asarray(sd)
    sc = max(big, np.nanmax(np.abs(value[np.isfinite(value)])) if np.isfinite(value).any() else 0)
    if not close(v, value, 1e-11, 1e-13 * sc):
        rec.fail(key('value'), 'the value is %r, expected %r (base units)' % (v, value), src); return False
    ok = np.isfinite(sd) & np.isfinite(value)
    if sd.shape != s.shape:
        rec.fail(key('shape'), 'the uncertainty has shape %r, expected %r' % (s.shape, sd.shape), src); return False
    big = float(sd[ok].max()) if ok.any() else 0.0
    if not close(s[ok], sd[ok], 1e-9, 1e-13 * big):
        rec.fail(key('sd'), 'the uncertainty is %r, expected %r (base units)' % (s, sd), src); return False
    if (np.asarray(u.magnitude)[ok] < 0).any():
        rec.fail(key('negative'), 'the uncertainty is negative: %r' % u.magnitude, src); return False
    rec.outcome((tuple(np.round(value.ravel()[:2], 6)), tuple(np.round(sd.ravel()[:2], 6)), dims))
    return True


SC = {'+=': '__iadd__', '-=': '__isub__', '*=': '__imul__', '/=': '__itruediv__'}


def pair(rec, a, b, op, inplace=False):
    P = pq()
    form = op + '=' if inplace else op
    src = program(USER_SRC if 'X.' in a.src + b.src else '', 'a = %s; b = %s' % (a.src, b.src), 'a %s b; print(repr(a))' % form if inplace else 'print(repr(a %s b))' % form)
    key = lambda k: '%s|%s|%s|%s' % (k, form, a.src, b.src)
    x, y = a.new(), b.new()
    ox, oy = obs(x), obs(y)
    rec.case('%s %s %s' % (a.src, form, b.src)); rec.step()
    av, bv, sa, sb = a.m * a.scale, b.m * b.scale, a.sd * a.scale, b.sd * b.scale
    legal = True
    try:
        shape = np.broadcast_shapes(a.m.shape, b.m.shape)
    except ValueError:
        legal = False
    if op in '+-' and a.dims != b.dims:
        legal = False
        if a.dims and b.kind == 'plain' and not np.any(b.m) or b.dims and a.kind == 'plain' and not np.any(a.m):
            # a plain zero may count as zero of any unit
            rec.note('plain zero')
            return
    if inplace:
        if legal and shape != a.m.shape:
            legal = False
        ident = x
        def f():
            nonlocal x
            if op == '+': x += y
            elif op == '-': x -= y
            elif op == '*': x *= y
            else: x /= y
            return x
        r = attempt(f)
    else:
        r = attempt(lambda: x + y if op == '+' else x - y if op == '-' else x * y if op == '*' else x / y)
    if obs(y) != oy or (not inplace or raised(r)) and obs(x) != ox:
        rec.fail(key('operand'), 'an operand has changed: %s, %s' % (show(x), show(y)), src); return
    if not legal:
        if not raised(r):
            rec.fail(key('accepted'), 'gives %s' % show(r), src)
        rec.trace(); return
    if raised(r):
        rec.fail(key('raises'), '%r' % r, src); return
    if inplace and r is not ident:
        rec.fail(key('identity'), 'the in-place form makes a new object', src); return
    with np.errstate(all='ignore'):
        v = val(op, av, bv)
        sd = sdof(op, av, bv, sa, sb) + np.zeros(np.shape(v))
    dims = a.dims if op in '+-' else umul(a.dims, b.dims, 1 if op == '*' else -1)
    if op in '+-':
        un = {a.units} if inplace else {a.units, b.units}
    else:
        un = {umul(a.units, b.units, 1 if op == '*' else -1)}
    if not check(rec, key, src, r, v, sd, dims, un):
        return
    # the result is independent of the operands
    if not inplace:
        try:
            r.uncertainty[...] = 77 * r.units
            r[...] = 55 * r.units
            r.units = P.Quantity(1.0, r.dimensionality)
            r.uncertainty.fill(5)
        except Exception:
            pass
        if obs(x) != ox or obs(y) != oy:
            rec.fail(key('shared'), 'changing the result changes an operand: %s, %s' % (show(x), show(y)), src); return
    rec.trace()


def unary(rec, a):
    P = pq()
    def case(name, f, value, sd, dims, units, expr):
        src = program(USER_SRC if 'X.' in a.src else '', 'a = %s' % a.src, 'print(repr(%s))' % expr)
        key = lambda k: '%s|%s|%s' % (k, name, a.src)
        x = a.new(); o = obs(x)
        r = attempt(f, x); rec.step(); rec.case('%s of %s' % (expr, a.src))
        if obs(x) != o:
            rec.fail(key('operand'), 'the operand has changed', src); return
        if value is None:
            if not raised(r): rec.fail(key('accepted'), 'gives %s' % show(r), src)
            rec.trace(); return
        if raised(r):
            rec.fail(key('raises'), '%r' % r, src); return
        if check(rec, key, src, r, value, sd, dims, None if units is None else {units}):
            if name.startswith('index'):
                # basic indexing gives views
                rec.trace(); return
            try:
                r.uncertainty[...] = 77 * r.units; r[...] = 55 * r.units
            except Exception: pass
            if obs(x) != o:
                rec.fail(key('shared'), 'changing the result changes the operand', src); return
            rec.trace()
    v, s = a.m * a.scale, a.sd * a.scale
    with np.errstate(all='ignore'):
        case('neg', lambda x: -x, -v, s, a.dims, a.units, '-a')
        for e in EXPS:
            n = np.asarray(eval(e, glob())).item()
            val_ = v ** n
            sd = np.abs(n * v ** (n - 1)) * s if n else np.zeros(v.shape)
            case('pow' + e, lambda x: x ** eval(e, glob()), val_, sd, upow(a.dims, n), upow(a.units, n), 'a**(%s)' % e)
        case('sqrt', lambda x: x.sqrt(), v ** 0.5, np.abs(0.5 * v ** -0.5) * s, upow(a.dims, 0.5), upow(a.units, 0.5), 'a.sqrt()')
        # conversions
        for t in mku(UNITS_A + OTHER_UNITS) + [U(('pq.mile', 1)), U(('pq.inch', 1), ('pq.ms', -1)), U(('X.vell', 2), ('pq.cm', -1))]:
            good = t.dims == a.dims
            for how, f, ex in (('rescale', lambda x: x.rescale(t.obj()), 'a.rescale(%s)' % t.src), ('construct', lambda x: P.UncertainQuantity(x, t.obj()), 'pq.UncertainQuantity(a, %s)' % t.src)):
                case(how + t.src, f, v if good else None, s, a.dims, t.units, ex)
                if good and a.m.size and np.all(np.isfinite(a.m)) and np.all(a.m != 0):
                    r = attempt(lambda: np.asarray(f(a.new()).relative_uncertainty)); rec.step()
                    if raised(r) or not close(abs(r), abs(a.sd / a.m), 1e-11):
                        rec.fail('relative|%s|%s|%s' % (how, t.src, a.src), 'relative uncertainty %r after conversion, expected %r' % (r, abs(a.sd / a.m)))
            def setu(x): x.units = t.obj(); return x
            x = a.new(); o = obs(x)
            r = attempt(setu, x); rec.step()
            src = program(USER_SRC, 'a = %s; a.units = %s; print(repr(a))' % (a.src, t.src)); key = lambda k: '%s|units=%s|%s' % (k, t.src, a.src)
            if not good:
                if not raised(r) or obs(x) != o: rec.fail(key('accepted'), 'gives %s' % show(x), src)
            elif raised(r): rec.fail(key('raises'), repr(r), src)
            else: check(rec, key, src, r, v, s, a.dims, {t.units})
            rec.trace()
        case('simplified', lambda x: x.simplified, v, s, a.dims, None, 'a.simplified')
        r = attempt(lambda: a.new().simplified)
        if not raised(r) and units_of(r) != a.dims:
            rec.fail('simplified|%s' % a.src, 'simplified has units %r, expected %r' % (units_of(r), a.dims))
        # reductions
        nd = a.m.ndim
        if a.m.size:
            for ax, form in [(None, 'axis=None'), (None, ''), (None, 'None'), (None, 'np')] + [(i, f) for i in range(-nd, nd) for f in ('axis=%d' % i, '%d' % i)] + [
                    (t, 'axis=%r' % (t,)) for k in range(0, nd + 1) for t in itertools.permutations(range(nd), k) if nd] + ([((0, -1), '(0, -1)')] if nd > 1 else []):
                n = a.m.size if ax is None else a.m.shape[ax] if isinstance(ax, int) else int(np.prod([a.m.shape[k] for k in ax]))
                def call(x, name):
                    if form == 'np': return getattr(np, name)(x) if name not in ('nanmax', 'nanmin', 'nansum', 'nanmean') else getattr(x, name)(axis=None, out=None)
                    return eval('x.%s(%s)' % (name, form), dict(x=x))
                ok = ~np.isnan(v)
                cnt = ok.sum(axis=ax)
                case('sum(%s)' % form, lambda x: call(x, 'sum'), v.sum(axis=ax), np.sqrt((s ** 2).sum(axis=ax)), a.dims, a.units, ('np.sum(a)' if form == 'np' else 'a.sum(%s)' % form))
                case('mean(%s)' % form, lambda x: call(x, 'mean'), v.mean(axis=ax), np.sqrt((s ** 2).sum(axis=ax)) / n, a.dims, a.units, ('np.mean(a)' if form == 'np' else 'a.mean(%s)' % form))
                if nd and np.all(cnt):
                    case('nansum(%s)' % form, lambda x: call(x, 'nansum'), np.nansum(v, axis=ax), np.sqrt((np.where(ok, s, 0) ** 2).sum(axis=ax)), a.dims, a.units, ('np.nansum(a)' if form == 'np' else 'a.nansum(%s)' % form))
                    case('nanmean(%s)' % form, lambda x: call(x, 'nanmean'), np.nanmean(v, axis=ax), np.sqrt((np.where(ok, s, 0) ** 2).sum(axis=ax)) / cnt, a.dims, a.units, ('np.nanmean(a)' if form == 'np' else 'a.nanmean(%s)' % form))
                for name, pick, nan in (('max', np.argmax, 0), ('min', np.argmin, 0), ('nanmax', np.nanargmax, 1), ('nanmin', np.nanargmin, 1)):
                    if nan and not np.all(cnt):
                        continue
                    if isinstance(ax, tuple):
                        # one element after the other
                        keep = [k for k in range(nd) if k not in [j % nd for j in ax]]
                        shp = tuple(v.shape[k] for k in keep)
                        pv = np.zeros(shp, v.dtype); ps = np.zeros(shp)
                        for pos in np.ndindex(*shp):
                            sl = [slice(None)] * nd
                            for k, z in zip(keep, pos): sl[k] = z
                            j = pick(v[tuple(sl)].ravel())
                            pv[pos], ps[pos] = v[tuple(sl)].ravel()[j], s[tuple(sl)].ravel()[j]
                    elif ax is None: i = pick(v, axis=ax); pv, ps = v.ravel()[i], s.ravel()[i]
                    else:
                        i = pick(v, axis=ax)
                        pv = np.take_along_axis(v, np.expand_dims(i, ax), ax).squeeze(ax); ps = np.take_along_axis(s, np.expand_dims(i, ax), ax).squeeze(ax)
                    # elements that tie may give either uncertainty
                    w = np.where(np.isnan(v), -np.inf if name.endswith('max') else np.inf, v) if nan else v
                    m = np.asarray(pv) if ax is None else np.expand_dims(pv, ax) if isinstance(ax, int) else np.expand_dims(pv, tuple(ax)) if ax else pv
                    if ((w == m).sum(axis=ax) > 1).any():
                        continue
                    case('%s(%s)' % (name, form), lambda x: call(x, name), pv, ps, a.dims, a.units, 'np.%s(a)' % name if form == 'np' else 'a.%s(%s)' % (name, form))
        # indices
        for ix in INDEX:
            k = eval(ix, glob())
            want = attempt(lambda: v[k])
            case('index' + ix, lambda x: x[k], None if raised(want) else want, None if raised(want) else s[k], a.dims, a.units, 'a[%s]' % ix)
        if nd:
            r = attempt(lambda: list(a.new())); rec.step()
            for i in range(len(v)):
                if raised(r) or not check(rec, lambda k: '%s|iter%d|%s' % (k, i, a.src), None, r[i], v[i], s[i], a.dims, {a.units}):
                    rec.fail('iteration|%s' % a.src, 'iterating gives %s' % show(r)); break
        for name in ('copy', 'astype'):
            case(name, lambda x: x.copy() if name == 'copy' else x.astype('f8'), v, s, a.dims, a.units, 'a.' + name)
    # rejected uncertainties
    for bad in ('np.ones(7)', 'np.ones((1, 1, 1))', '3*pq.kg*pq.mol*np.ones(np.shape(a))', 'np.ones(np.shape(a) + (2,))', '1.0', '[0.1]*pq.A'):
        x = a.new(); o = obs(x)
        b = attempt(lambda: eval(bad, dict(glob(), a=x)))
        if not raised(b) and (getattr(b, 'shape', None) == x.shape and not isinstance(b, P.Quantity) or np.shape(b) == x.shape and bad == '1.0'):
            continue
        def setb(): x.uncertainty = b
        r = attempt(setb); rec.step()
        if not raised(r) or obs(x) != o:
            rec.fail('bad-uncertainty|%s|%s' % (bad, a.src), 'assigning the uncertainty %s gives %s' % (bad, show(x)))
        r = attempt(lambda: P.UncertainQuantity(a.m, a.u.obj(), b)); rec.step()
        if not raised(r):
            rec.fail('bad-uncertainty-constructor|%s|%s' % (bad, a.src), 'constructing with the uncertainty %s gives %s' % (bad, show(r)))
        rec.case()
    rec.trace()


INDEX = ['0', '-1', '1', 'slice(1, None)', 'slice(None, None, -1)', '...', '()', '(0, 0)', '[0, 1]', '[0, 0, 1]', '(slice(None), 0)', 'np.array([True, False, True])', 'None', '(slice(None), [0])', 'np.array([2, 0])', '(None, ..., 0)', '5', '(0, 0, 0)', 'slice(0, 0)', '[]', 'np.int64(1)',
         '(slice(None), slice(None, None, 2))', '(-1, -1)', '[[0], [1]]', '(1, slice(None))']

# ------------------------------------------------------------------ histories of changes to one object
STARTS = [('[1.0, 2.0, 4.0]', '[0.1, 0.2, 0.5]', 'pq.m'), ('2.5', '0.25', 'pq.m'), ('[[1.0, -2.0, 3.0], [4.0, 5.0, 6.0]]', '[[0.1, 0.2, 0.3], [0.4, 0.5, 0.6]]', 'X.vfoo'), ('[1.5, 2.5, 8.0]', '[0.0, 0.5, 0.25]', 'pq.dimensionless'), ('[0.0, 2.0, -1.0]', '[0.1, 0.0, 1.0]', 'X.cu3'), ('3.0', '0.0', 'pq.percent')]
CH = ['u += B', 'u -= B', 'u += C', 'u *= 2', 'u *= D', 'u /= 4', 'u /= D', 'u *= pq.s', 'u /= pq.s', 'u **= 2', 'u *= -1', 'u.units = W', 'u.units = V', 'u[0] = E', 'u[...] = E', 'u[0] = C0', 'u.uncertainty = S', 'u.uncertainty = SW', 'u.uncertainty *= 2', 'u.uncertainty[0] = SW0', 'u[1:] = u[:1]', 'u = u.rescale(W)', 'u = -u', 'u = u + C', 'u = B - u', 'u = u.simplified',
      'u += F', 'u[0] = F', 'u.uncertainty = F', 'u *= BAD']


def hist(rec, start, ops):
    P = pq()
    g = dict(glob())
    m, s, un = STARTS[start]
    u0 = eval(un, g)
    u = P.UncertainQuantity(eval(m, g), u0, eval(s, g))
    src = program(USER_SRC, '# %r from UncertainQuantity(%s, %s, %s); see mc/checks/c14.py step() for the operands' % (ops, m, un, s))
    key = lambda k: '%s|%s|%d' % (k, ' ; '.join(ops), start)
    # the model: values and standard deviations in the object's own units, and the units
    sc, dims = dim_phys(u0.dimensionality)
    st = dict(v=np.array(eval(m, g), dtype='f8'), s=np.array(eval(s, g), dtype='f8'), f=sc, dims=dims, units=units_of_dim(u0.dimensionality))
    big = 0.0
    for i, op in enumerate(ops):
        o = obs(u)
        r = attempt(step, P, u, op, st); rec.step()
        if raised(r):
            rec.fail(key('harness'), '%r' % r, src); return
        kind, got = r
        if kind == 'refused':
            if not raised(got):
                rec.fail(key('accepted'), '%s is accepted: %s' % (op, show(got)), src); return
            if obs(u) != o:
                rec.fail(key('changed'), '%s raises and changes the object from %r to %r' % (op, o, obs(u)), src); return
            continue
        if kind == 'skip':
            rec.note('skipped'); return
        if raised(got):
            rec.fail(key('raises'), '%s raises %r' % (op, got), src); return
        u = got
        # terms that cancel leave rounding errors of their size
        big = max(big, float(np.max(np.abs(st['v'] * st['f']), initial=0.0)))
        if i == len(ops) - 1:
            if not check(rec, key, src, u, st['v'] * st['f'], st['s'] * st['f'], st['dims'], {st['units']}, big):
                return
    rec.case(' ; '.join(ops)); rec.trace()


def step(P, u, op, st):
    """performs op on u and on the model; ('ok', u) or ('refused', Raised) or ('skip', None)"""
    st['v'], st['s'] = np.array(st['v']), np.array(st['s'])
    shape = st['v'].shape
    sc, dims, units, f = None, st['dims'], st['units'], st['f']
    cur = P.Quantity(1.0, u.dimensionality)
    def unitof(factor):
        # another unit of the same dimension, worth factor of the present base value
        return P.Quantity(1.0, phq(dims)) if factor == 'base' else cur
    n = u.ndim
    def ex(code, **env):
        e = dict(glob(), u=u, **env)
        def go():
            exec(code, e); return e['u']
        return attempt(go)
    one = np.ones(shape)
    if op in ('u += B', 'u -= B'):
        B = P.UncertainQuantity(3.0 * one, phq(dims), 0.5 * one)
        got = ex(op, B=B)
        if not raised(got):
            st['v'] = st['v'] + (3.0 if '+' in op else -3.0) / f; st['s'] = np.sqrt(st['s'] ** 2 + (0.5 / f) ** 2)
        return 'ok', got
    if op in ('u = u + C', 'u = B - u'):
        got = ex(op, C=P.Quantity(2.0, phq(dims)), B=P.UncertainQuantity(3.0, phq(dims), 0.5))
        if 'C' in op: st['v'] = st['v'] + 2.0 / f; nu = None
        else: st['v'] = 3.0 / f - st['v']; st['s'] = np.sqrt(st['s'] ** 2 + (0.5 / f) ** 2); nu = units_of_dim(phq(dims).dimensionality)
        # the sum is in the units of its first operand
        if nu is not None and not raised(got) and units_of(got) == nu:
            st['v'] = st['v'] * f; st['s'] = st['s'] * f; st['f'] = 1.0; st['units'] = nu
        return 'ok', got
    if op == 'u = u.simplified':
        got = ex(op)
        st['v'] = st['v'] * f; st['s'] = st['s'] * f; st['f'] = 1.0; st['units'] = dims
        return 'ok', got
    if op == 'u += C':
        got = ex(op, C=P.Quantity(2.0, phq(dims)))
        if not raised(got): st['v'] = st['v'] + 2.0 / f
        return 'ok', got
    if op in ('u *= 2', 'u /= 4', 'u *= -1', 'u = -u'):
        k = {'u *= 2': 2, 'u /= 4': 0.25, 'u *= -1': -1, 'u = -u': -1}[op]
        got = ex(op)
        st['v'] = st['v'] * k; st['s'] = st['s'] * abs(k)
        return 'ok', got
    if op in ('u *= D', 'u /= D'):
        got = ex(op, D=P.UncertainQuantity(2.0 * one, '', 0.25 * one))
        v, s = st['v'], st['s']
        if '*' in op: st['s'] = np.sqrt((2 * s) ** 2 + (v * 0.25) ** 2); st['v'] = v * 2
        else: st['s'] = np.sqrt((s / 2) ** 2 + (v * 0.25 / 4) ** 2); st['v'] = v / 2
        return 'ok', got
    if op in ('u *= pq.s', 'u /= pq.s'):
        got = ex(op)
        sign = 1 if '*' in op else -1
        st['units'] = umul(units, (('second', 1),), sign); st['dims'] = umul(dims, (('second', 1),), sign)
        return 'ok', got
    if op == 'u **= 2':
        got = ex(op)
        st['s'] = np.abs(2 * st['v']) * st['s']; st['v'] = st['v'] ** 2; st['units'] = upow(units, 2); st['dims'] = upow(dims, 2); st['f'] = f ** 2
        return 'ok', got
    if op in ('u.units = W', 'u.units = V', 'u = u.rescale(W)'):
        w = phq(dims) if 'V' not in op else P.Quantity(1.0, (phq(dims) * P.m / P.ft).dimensionality)
        got = ex(op, W=w, V=w)
        nf, nd = dim_phys(w.dimensionality)
        st['v'] = st['v'] * f / nf; st['s'] = st['s'] * f / nf; st['f'] = nf; st['units'] = units_of_dim(w.dimensionality)
        return 'ok', got
    if op in ('u[0] = E', 'u[...] = E'):
        if n == 0 and '[0]' in op: return 'refused', ex(op, E=P.UncertainQuantity(6.0, phq(dims), 0.75))
        got = ex(op, E=P.UncertainQuantity(6.0, phq(dims), 0.75))
        k = 0 if '[0]' in op else ...
        st['v'] = st['v'].copy(); st['s'] = st['s'].copy(); st['v'][k] = 6.0 / f; st['s'][k] = 0.75 / f
        return 'ok', got
    if op == 'u[0] = C0':
        if n == 0: return 'refused', ex(op, C0=P.Quantity(6.0, phq(dims)))
        got = ex(op, C0=P.Quantity(7.0, phq(dims)))
        st['v'] = st['v'].copy(); st['s'] = st['s'].copy(); st['v'][0] = 7.0 / f; st['s'][0] = 0
        return 'ok', got
    if op == 'u.uncertainty = S':
        got = ex(op, S=0.5 * one)
        # plain numbers have no unit: fine for a dimensionless value, rejected otherwise
        if dims: return 'refused', got
        st['s'] = 0.5 * one / f
        return 'ok', got
    if op == 'u.uncertainty = SW':
        got = ex(op, SW=P.Quantity(0.5 * one, phq(dims)))
        st['s'] = 0.5 * one / f
        return 'ok', got
    if op == 'u.uncertainty *= 2':
        got = ex(op); st['s'] = st['s'] * 2
        return 'ok', got
    if op == 'u.uncertainty[0] = SW0':
        got = ex(op, SW0=P.Quantity(0.5, phq(dims)))
        if n == 0: return 'refused', got
        st['s'] = st['s'].copy(); st['s'][0] = 0.5 / f
        return 'ok', got
    if op == 'u[1:] = u[:1]':
        if n == 0: return 'refused', ex(op)
        got = ex(op)
        st['v'] = st['v'].copy(); st['s'] = st['s'].copy(); st['v'][1:] = st['v'][:1]; st['s'][1:] = st['s'][:1]
        return 'ok', got
    if op in ('u += F', 'u[0] = F', 'u.uncertainty = F'):
        return 'refused', ex(op, F=P.Quantity(one if op != 'u[0] = F' else 1.0, 'kg*A*mol'))
    if op == 'u *= BAD':
        return 'refused', ex(op, BAD=np.ones((5, 7, 4)))
    raise KeyError(op)


def phq(dims):
    P = pq()
    q = 1.0 * P.dimensionless
    for nm, e in dims:
        q = q * (1.0 * P.unit_registry[nm]) ** e
    return P.Quantity(1.0, q.dimensionality)


def chunks(tier):
    n = len(UN[tier])
    r = [['pairs', i, 0] for i in range(n)] + [['unary', i, 0] for i in range(n)]
    k = 4 if tier == 'quick' else 6
    if tier == 'thorough': r += [['hist4', s, i] for s in (0, 2, 4) for i in range(len(CH))]
    r += [['hist', s, i] for s in range(k) for i in range(len(CH))]
    return r + [['types', i, 4] for i in range(4)] + [['views', 0, 0]]


TYPES = ['f2', 'f4', 'f8', 'g', 'i4', 'i8']
SPELL = ['pq.UncertainQuantity(V, UV, S, dtype=V.dtype)', 'pq.UncertainQuantity(V, UV, uncertainty=S, dtype=V.dtype)', 'pq.UncertainQuantity(pq.Quantity(V, UV), uncertainty=S, dtype=V.dtype)', 'setter(pq.UncertainQuantity(V, UV, dtype=V.dtype), S)',
         'pq.UncertainQuantity(pq.UncertainQuantity(V, UV, S, dtype=V.dtype), dtype=V.dtype)', 'pq.UncertainQuantity(V, UV, pq.UncertainQuantity(S, S.units, 3*S, dtype=S.dtype), dtype=V.dtype)']
THEN = [('', 1, 'X'), ('.rescale(US)', 0, 'X.rescale(US)'), ('.simplified', -1, 'X.simplified'), ('[0]', 1, 'X[0]'), ('[::-1]', 1, 'X[::-1]'), ('*2', 1, 'X*2'), ('-X', 1, '-X'), ('copy', 1, 'X.copy()'), ('astype', 1, 'X.astype("f8")')]


def setter(x, s):
    x.uncertainty = s
    return x


def types(rec, part, parts):
    """values and uncertainties of different types in different units"""
    P = pq()
    pairs_ = [('pq.mm', 'pq.m', 1e3), ('pq.mm', 'pq.km', 1e6), ('pq.m', 'pq.mm', 1e-3), ('pq.m', 'pq.m', 1.0), ('pq.ms', 'pq.hour', 3.6e6), ('pq.percent', 'pq.dimensionless', 100.0)]
    n = 0
    for uv, us, f in pairs_:
        for tv in TYPES:
            for ts in TYPES:
                n += 1
                if n % parts != part: continue
                for s0 in ([1.0, 2.0], [100.0, 50.0], [0.5, 0.0]):
                    ok = True; arrs = []
                    for v, t in ((np.array(s0) * f * 8, tv), (np.array(s0), ts)):
                        if t[0] == 'i': ok &= (np.rint(v) == v).all() and np.abs(v).max() < 2**31
                        else: ok &= np.abs(v).max() < float(np.finfo(t).max) and np.abs(v[v != 0]).min() > float(np.finfo(t).tiny)
                        if ok: arrs.append(v.astype(t))
                    w = np.result_type(tv, ts, 'f2' if f == 1 else 'f2')
                    if not ok or np.max(s0) * f * 16 > float(np.finfo(w).max): continue
                    V, S0 = arrs
                    for spell in SPELL:
                        env = dict(V=V.copy(), UV=Expr(uv).new(), US=Expr(us).new(), S=P.Quantity(S0, Expr(us).new()), setter=setter, pq=P)
                        k = 'types|%s %s|%s %s|%s|%s' % (uv, tv, us, ts, s0, spell)
                        prog = program(USER_SRC, 'def setter(x, s):\n    x.uncertainty = s\n    return x', 'V = np.array(%r, %r); UV = %s; US = %s; S = pq.Quantity(np.array(%r, %r), US)' % (V.astype(float).tolist(), tv, uv, us, S0.astype(float).tolist(), ts), 'print(%s)' % spell)
                        b = obs(env['S'])
                        x = attempt(lambda: eval(spell, env)); rec.step(); rec.case(k)
                        if raised(x): rec.fail(k, 'it %r' % x, prog); continue
                        want_same(rec, k, env['S'], b, prog)
                        for nm, unit, text in THEN:
                            env['X'] = x
                            y = attempt(lambda: eval(text, env)); rec.step()
                            fac = f if unit == 1 else 1.0
                            base = {'pq.mm': 1e-3, 'pq.ms': 1e-3, 'pq.percent': 0.01, 'pq.m': 1.0}[uv]
                            sd, val = np.array(S0, float) * f, np.array(V, float)
                            small = [np.dtype(t) for t in (tv, ts) if t[0] == 'f']
                            eps = max([float(np.finfo(t).eps) for t in small] + [2.3e-16])
                            if unit == 0: sd, val = sd / f, val / f
                            if unit == -1: sd, val = sd * base, val * base
                            if unit != 1 and any(np.finfo(t).max < 1e10 and (np.abs(val).max() > 6e4 or np.abs(val[val != 0]).min() < 1e-3 or np.abs(sd[sd != 0]).min() < 1e-3 or np.abs(sd).max() > 6e4) for t in small): continue
                            if nm == '[0]': sd, val = sd[0], val[0]
                            if nm == '[::-1]': sd, val = sd[::-1], val[::-1]
                            if nm == '*2': sd, val = 2 * sd, 2 * val
                            if nm == '-X': val = -val
                            if raised(y) or not isinstance(y, P.UncertainQuantity) or type(y.uncertainty) is not P.Quantity or units_of(y) != units_of(y.uncertainty) or units_of(y) != units_of(1.0 * Expr(uv if unit == 1 else us).new() if unit >= 0 else (1.0 * Expr(uv).new()).simplified) or not close(y.magnitude, val, 16 * eps, 0) or not close(y.uncertainty.magnitude, sd, 16 * eps, 0):
                                rec.fail(k + '|' + nm, 'expected %r +/- %r, got %s' % (val.tolist(), sd.tolist(), show(y)), prog + '\nX = %s; print(%s)' % (spell, text)); break
                        rec.trace()


VIEWS = ['u[1:]', 'u[::-1]', 'u[...]', 'u[:1]', 'u[()]', 'u[1:][::-1]', 'u[0:2][1:]']
# (statement on the view v, what it does to value and deviation (in base units), or None when it must be refused)
VOPS = [('v *= 2', lambda v, s: (v * 2, s * 2)), ('v /= 4', lambda v, s: (v / 4, s / 4)), ('v *= -1', lambda v, s: (-v, s)), ('v += B', lambda v, s: (v + 3, np.hypot(s, 0.5))), ('v -= B', lambda v, s: (v - 3, np.hypot(s, 0.5))),
        ('v += C', lambda v, s: (v + 2, s)), ('v[0] = E', lambda v, s: (np.where(first(v), 6.0, v), np.where(first(v), 0.75, s))), ('v[...] = E', lambda v, s: (v * 0 + 6, s * 0 + 0.75)), ('v[0] = C', lambda v, s: (np.where(first(v), 2.0, v), np.where(first(v), 0.0, s))),
        ('v *= D', lambda v, s: (v * 2, np.hypot(2 * s, v * 0.25))), ('v /= D', lambda v, s: (v / 2, np.hypot(s / 2, v * 0.25 / 4))), ('v **= 1', lambda v, s: (v, s)), ('v *= pq.s', None), ('v /= pq.s', None), ('v *= 2*pq.m', None), ('v /= D*pq.m', None), ('v **= 2', None), ('v **= -1', None),
        ('v.units = W', None), ('v.units = "kg*mol"', None), ('v += pq.A*pq.mol', None), ('v[0] = 1*pq.A*pq.mol', None), ('v *= np.ones((7, 7, 7))', None)]


def first(v):
    r = np.zeros(np.shape(v), bool); r[:1] = True
    return r


def views(rec):
    """in-place changes through views of uncertain quantities"""
    P = pq()
    for m, s, un in [('[1.0, 2.0, 4.0]', '[0.1, 0.2, 0.5]', 'pq.m'), ('[[1.0, -2.0, 3.0], [4.0, 5.0, 6.0]]', '[[0.1, 0.2, 0.3], [0.4, 0.5, 0.6]]', 'X.vfoo'), ('[1.5, 2.5, 8.0, -1.0]', '[0.0, 0.5, 0.25, 0.5]', 'pq.km/pq.hour')]:
        start = 'pq.UncertainQuantity(%s, %s, %s)' % (m, un, s)
        for vw in VIEWS:
            for ops in [(o,) for o in VOPS] + list(itertools.product(VOPS, repeat=2)):
                u = Expr(start).new()
                v = eval(vw, dict(u=u))
                sc, dims = dim_phys(u.dimensionality); units = units_of(u)
                mv, ms = np.array(Expr(m).new()) * sc, np.array(Expr(s).new()) * sc
                ix = np.arange(mv.size).reshape(mv.shape); ix = eval(vw, dict(u=ix))
                q = phq(dims)
                key = 'views|%s|%s|%s' % (start, vw, '; '.join(o for o, _ in ops))
                env = dict(glob(), v=v, u=u, B=P.UncertainQuantity(3.0, q, 0.5), C=P.Quantity(2.0, q), D=P.UncertainQuantity(2.0, '', 0.25), E=P.UncertainQuantity(6.0, q, 0.75), W=q)
                prog = program(USER_SRC, 'u = %s; v = %s; q = pq.Quantity(1.0, u.simplified.dimensionality)' % (start, vw), 'B = pq.UncertainQuantity(3.0, q, 0.5); C = pq.Quantity(2.0, q); D = pq.UncertainQuantity(2.0, "", 0.25); E = pq.UncertainQuantity(6.0, q, 0.75); W = q', '; '.join(o for o, _ in ops), 'print(repr(u), repr(v))')
                rec.case(key); rec.trace()
                for o, eff in ops:
                    before = obs(u), obs(v)
                    r = attempt(exec, o, env); rec.step()
                    if eff is None:
                        if not raised(r): rec.fail(key, '%s is accepted, u is %s' % (o, show(u)), prog); break
                        if (obs(u), obs(v)) != before: rec.fail(key, '%s raises and changes u or the view: %s %s' % (o, show(u), show(v)), prog); break
                        continue
                    if raised(r): rec.fail(key, '%s raises %r' % (o, r), prog); break
                    if env['v'] is not v: rec.fail(key, '%s gives another object' % o, prog); break
                    a, b = eff(mv.ravel()[ix], ms.ravel()[ix])
                    mv, ms = mv.copy(), ms.copy(); mv.ravel()[ix] = a; ms.ravel()[ix] = b
                else:
                    check(rec, lambda k: key + '|' + k, prog, u, mv, ms, dims, {units}, 8.0 * sc) and check(rec, lambda k: key + '|view ' + k, prog, v, mv.ravel()[ix], ms.ravel()[ix], dims, {units}, 8.0 * sc)


def run(desc, rec):
    kind, i, j = desc
    if kind == 'types':
        return types(rec, i, j)
    if kind == 'views':
        return views(rec)
    if kind == 'pairs':
        a = UN[rec.tier][i]
        for b in OT[rec.tier]:
            for op in '+-*/':
                if not (b.kind == 'uncertain' and b is a):
                    pair(rec, a, b, op)
                    pair(rec, a, b, op, inplace=True)
                if b.kind != 'uncertain':
                    pair(rec, b, a, op)
        # an independent equal operand
        b = Op('uncertain', *[MAGSD[0][0], MAGSD[0][1], a.u])
        for op in '+-*/':
            pair(rec, a, b, op); pair(rec, b, a, op)
    elif kind == 'unary':
        unary(rec, UN[rec.tier][i])
    else:
        hist(rec, i, [CH[j]])
        for d in range(1, 3) if kind == 'hist' else (3,):
            for rest in itertools.product(CH, repeat=d):
                hist(rec, i, [CH[j]] + list(rest))
