"""C20: construction, indexing and shape operations, against the same on plain arrays."""
import copy, itertools
import numpy as np
from ..alphabet import *

RULE = ('construction: every kind of data x every spelling of units x every dtype x every calling form, every source quantity or unit x every target, and everything that is not a unit; shapes: every index, iteration, listing and shape operation, and every sequence of two of them, '
        'on every base array (shape, layout, dtype) in every unit, compared element by element and by dtype with the same operation on the plain array; after every one the units of source and result are changed in turn')
BOUNDS = {'quick': '66 data x 38 spellings x 9 dtypes; 30 quantities x 30 targets x 4 dtypes; 40 non-units x 8 data; 47 bases x 141 operations x 3 units, x 13 selections into an output argument x 12 units; all pairs of 60 operations on 5 bases',
          'thorough': '66 x 38 x 14; 30 x 30 x 8; 40 x 8; 47 x 141 x 12 units; all pairs of 141 operations on 9 bases; all triples of 24 operations on 3 bases'}
ASSUMPTIONS = ['data are numeric (object and text arrays are not generated), lists do not contain quantities (their units are not looked at)', 'UncertainQuantity is covered by C14']

# (source, units by name) of the same and other units in all spellings
SPELL = [('"m"', (('meter', 1),)), ('pq.m', (('meter', 1),)), ('"meter"', (('meter', 1),)), ('"metre"', (('meter', 1),)), ('pq.metre', (('meter', 1),)), ('pq.m.dimensionality', (('meter', 1),)), ('pq.Quantity(1, "m")', (('meter', 1),)), ('1.0*pq.m', (('meter', 1),)), ('np.str_("m")', (('meter', 1),)), ('pq.unit_registry["m"]', (('meter', 1),)),
         ('"m/s"', (('meter', 1), ('second', -1))), ('pq.m/pq.s', (('meter', 1), ('second', -1))), ('"m*s**-1"', (('meter', 1), ('second', -1))), ('"m s"', 'either'), ('"m s^-1"', 'either'), ('"m^1*s^-1"', (('meter', 1), ('second', -1))), ('(pq.m/pq.s).dimensionality', (('meter', 1), ('second', -1))), ('"1/s"', (('second', -1),)), ('1/pq.s', (('second', -1),)), ('"s**-2"', (('second', -2),)),
         ('"kg*m**2/s**2"', (('kilogram', 1), ('meter', 2), ('second', -2))), ('"m·s"', (('meter', 1), ('second', 1))), ('"m.s"', (('meter', 1), ('second', 1))), ('"m**0.5"', (('meter', 0.5),)), ('pq.m**0.5', (('meter', 0.5),)), ('""', ()), ('"dimensionless"', ()), ('pq.dimensionless', ()), ('pq.dimensionless.dimensionality', ()), ('pq.m/pq.m', ()), ('"m/m"', ()), ('"%"', (('percent', 1),)),
         ('X.vfoo', (('vfoo', 1),)), ('"vfoo"', (('vfoo', 1),)), ('X.cu3', (('(km/h)', 1),)), ('pq.constants.Bohr_radius', None), ('X.cu3**2/pq.m', (('(km/h)', 2), ('meter', -1))), ('pq.unit_registry["km/h"]', (('hour', -1), ('kilometer', 1))), ('[1.0]*pq.m', (('meter', 1),)), ('pq.degC', (('Celsius', 1),)), ('"degF"', (('Fahrenheit', 1),)), ('pq.um', (('micrometer', 1),)), ('"µm"', 'either')]
DTYPES = ['None', '"f8"', '"f4"', '"i4"', '"c16"', '">f8"', 'float', 'np.int64', '"u1"', 'bool', '"i2"', '"g"', 'complex', 'np.dtype(">i2")']
NONUNITS = ['5', '1.0', '2*pq.m', '0.5*pq.m', '1.0000001*pq.m', '(1 - 1e-14)*pq.m', '[1, 1]*pq.m', '[2]*pq.m', '[[1.0]]*pq.m', '[[[1]]]*pq.m', '[[1.0, 1.0]]*pq.m', '[]*pq.m', '"nosuch"', '"2*m"', '"m+"', '"m,s"', '"m;s"', '"m+m"', '"m-s"', '[]', '{}', '()', '[1]', 'object()', 'b"m"', '0', 'False', 'True', 'np.array(1.0)', '["m"]', '("m", "s")', '{"m": 1}', '{pq.m: 1}', '"__import__(\'os\')"', '"m**s"', '"m["', 'int', 'pq', '-1*pq.m', 'nan*pq.m', 'np.nan', '"1"' , 'lambda: pq.m', '1+0j']
# converting sources: source, units or None
SRCQ = ['pq.Quantity(2.5, "m")', 'pq.Quantity([1.0, -2.0, 4.0], "ft")', 'pq.Quantity([1, 2, 3], "km")', 'pq.Quantity(np.array([1.5, 2.5], dtype="f4"), "cm")', 'pq.Quantity(3.0, "km/h")', 'pq.Quantity(2.0, "")', 'pq.Quantity(50.0, "percent")', 'pq.m', 'pq.ft', 'pq.N', 'X.vfoo', 'X.cu3', 'pq.constants.Bohr_radius', 'pq.dimensionless', 'pq.percent', 'pq.Quantity([], "m")', 'pq.Quantity(1+2j, "m")', 'pq.Quantity(np.arange(6.0).reshape(2, 3).T, "cm")', 'pq.Quantity(np.array([1.0, 2.0], dtype=">f8"), "mm")',
        'pq.Quantity(3.0, "kg*m/s**2")', 'pq.m*pq.s', 'pq.degC', 'pq.Quantity([nan, inf], "mile")', 'pq.Quantity(2.0, X.cu3**2)', 'pq.Quantity(np.arange(4.0)[::-1], "yard")', 'pq.Quantity(7, "m/ft")', 'pq.Quantity(3.0, "Hz")', 'pq.Quantity(2.0, X.vbase)', 'pq.km/pq.hour', 'pq.inch']
TGT = ['', 'None', '""', '"m"', 'pq.m', '"cm"', 'pq.ft', 'X.vfoo', 'X.vell', 'pq.constants.Bohr_radius', '"km/h"', 'pq.m/pq.s', 'X.cu3', 'pq.dimensionless', 'pq.dimensionless.dimensionality', '"percent"', '"N"', 'pq.kg*pq.m/pq.s**2', '"s"', 'pq.m.dimensionality', '"K"', 'X.vkilo', '"1/s"', 'pq.Quantity(1.0, "inch")', '"mile"', 'pq.rad', '"m*s"', '(pq.cm/pq.s).dimensionality', 'X.cu3**2', '"m/ft"']

BASES = ['np.array(2.5)', 'np.array([5.0])', 'np.array([1.0, -2.5, 4.0])', 'np.arange(6.0).reshape(2, 3)', 'np.zeros((0,))', 'np.zeros((2, 0))', 'np.ones((1, 1))', 'np.arange(12.0).reshape(2, 3, 2)', 'np.asfortranarray(np.arange(6.0).reshape(2, 3))', 'np.arange(10.0)[::-3]', 'np.arange(12.0).reshape(3, 4).T', 'np.arange(12.0).reshape(3, 4)[1:, ::2]', 'np.broadcast_to(np.float64(3.0), (2, 2))', 'np.arange(4.0).reshape(1, 4)', 'np.arange(4.0).reshape(4, 1)', 'np.zeros((1, 0, 2))', 'np.arange(3)', 'np.array(7)', 'np.array([True, False])']
BASES += ['np.array(%s, dtype=%r)' % (v, dt) for dt in ('i1', 'i4', 'u8', 'f2', 'f4', '>f8', '>i4', 'c8', 'c16', 'g', '>c16', '?') for v in ('3', '[[1, 2], [7, 0]]')]
BASES += ['np.array([nan, inf, -inf, 0.0, -0.0])', 'np.array([[1+2j, -3j, 0.5]])', 'np.array(1-2j)', 'np.arange(24.0).reshape(1, 2, 3, 4)', 'np.arange(32.0).reshape(2, 2, 2, 2, 2).T', 'np.arange(24.0).reshape(2, 1, 2, 3, 1, 2)', 'np.sin(np.arange(3000.0)).reshape(1500, 2)']
UN = ['m', (('km', 1), ('hour', -1)), 'X.cu3', 'dimensionless', (('m', 0.5),), 'pq.constants.Bohr_radius', 'percent', 'X.vfoo', 'degC', (('kg', 1), ('m', -2)), 's', 'radian']
IDX = ['0', '-1', '1', '5', 'slice(None)', 'slice(1, None)', 'slice(None, None, -1)', 'slice(0, 0)', 'slice(None, None, 2)', '...', '()', '(0, 0)', '(0, 0, 0)', '(..., 0)', '(slice(None), 0)', '(0, slice(None))', '(slice(None), -1, None)', 'None', '(None, ...)', '[0, 1]', '[0]', '[]', '[-1, 0, 0]', '[[0, 0], [0, 0]]', 'np.array(0)', 'np.array([0, 1])', 'np.int64(0)', 'np.array([], dtype=int)', '([0, 0], [0, 0])', '(slice(None), [0])', '(slice(None), [0, -1])',
       'np.array([True, False])', '[False, True, True]', 'True', 'False', 'A.astype(bool)', 'A == A', 'np.ones(np.shape(A), bool)', 'np.zeros(np.shape(A), bool)', '(0, ...)', '(..., None)', '(1, [0, 0])', '"a"', '1.0', 'np.ix_([0], [0])', '(slice(None), np.array([True, False, True]))', 'np.uint8(1)', 'A.argmax()', '(slice(-1, None, -1), slice(1))', '(None, 0, None)']
# operations by name, as text over A (the array or quantity)
OPS = ['A[%s]' % i for i in IDX]
OPS += ['list(A)', 'tuple(A)', '[x for x in A]', 'list(reversed(A))', 'A.tolist()', 'next(iter(A))', 'list(zip(A, A))', 'len(A)',
        'A.T', 'A.mT', 'A.transpose()', 'A.transpose(1, 0)', 'A.transpose((1, 0))', 'A.swapaxes(0, 1)', 'A.swapaxes(0, -1)', 'A.reshape(-1)', 'A.reshape(A.shape)', 'A.reshape((1,) + A.shape)', 'A.reshape(3, 2)', 'A.reshape((2, -1))', 'A.reshape(A.shape[::-1], order="F")', 'A.reshape(7)', 'A.ravel()', 'A.ravel("F")', 'A.ravel(order="K")', 'A.flatten()', 'A.flatten("F")',
        'A.repeat(2)', 'A.repeat(0)', 'A.repeat(2, axis=0)', 'A.repeat([1, 2], 0)', 'A.repeat(3, axis=-1)', 'A.squeeze()', 'A.squeeze(0)', 'A.squeeze(axis=-1)', 'A.real', 'A.imag', 'A.conj()', 'A.conjugate()', 'A.copy()', 'A.copy("F")', 'A.view()', 'A.diagonal()', 'A.diagonal(1)', 'A.diagonal(0, 1, 0)', 'A.take([0, -1])', 'A.take(0)', 'A.take([0], axis=0)', 'A.take([[0, 0]], axis=-1)', 'A.compress([True, False])', 'A.compress([1], axis=0)',
        'A.take([4, -7], mode="wrap")', 'A.take([4, -7], mode="clip")', 'A.take(7, mode="clip")', 'A.take([1, -5], axis=-1, mode="wrap")', 'A.take([0, 9])', 'A.take([1, 0], 0, None, "clip")', 'np.take(A, [3, -9], mode="clip")', 'np.take(A, 5, axis=0, mode="wrap")', 'np.compress([False, True], A)', 'A.compress([False, True, True], -1)', 'A.compress([])',
        'np.ravel(A)', 'np.squeeze(A)', 'np.moveaxis(A, 0, -1)', 'np.swapaxes(A, 0, 1)', 'np.transpose(A)', 'np.reshape(A, -1)', 'np.atleast_1d(A)', 'np.atleast_2d(A)', 'np.atleast_3d(A)', 'np.expand_dims(A, 0)', 'np.expand_dims(A, -1)', 'np.flip(A)', 'np.flip(A, 0)', 'np.roll(A, 1)', 'np.roll(A, 1, axis=0)', 'np.split(A, 1)', 'np.array_split(A, 2)', 'np.rot90(A)', 'np.repeat(A, 2)', 'np.take(A, 0)', 'np.real(A)', 'np.imag(A)', 'np.array(A, subok=True)', 'np.asanyarray(A)', 'np.broadcast_to(A, (2,) + A.shape, subok=True)', 'np.tile(A, 2)', 'np.fliplr(A)', 'np.diagonal(A)', 'np.hsplit(A, 1)',
        'A.byteswap().byteswap()', 'copy.copy(A)', 'copy.deepcopy(A)']
OPS += ['A.astype(%s)' % d for d in ('"f8"', '"f4"', '"i4"', '"c16"', '">f8"', 'bool', 'float', 'int', 'np.float32', '"f8", copy=False', '"f4", order="F"', '"i4", casting="safe"', '"f8", casting="safe"', 'A.dtype', '"u1"', '"g"', 'dtype="f8"', 'A.dtype, copy=False')]
PAIR = ['A[0]', 'A[-1]', 'A[slice(1, None)]', 'A[slice(None, None, -1)]', 'A[...]', 'A[()]', 'A[(slice(None), 0)]', 'A[None]', 'A[[0, 1]]', 'A[np.array([True, False])]', 'A[A.astype(bool)]', 'A.T', 'A.swapaxes(0, -1)', 'A.reshape(-1)', 'A.reshape((1,) + A.shape)', 'A.ravel("F")', 'A.flatten()', 'A.repeat(2)', 'A.squeeze()', 'A.real', 'A.imag', 'A.copy()', 'A.view()', 'A.diagonal()', 'A.take([0, -1])', 'A.astype("f4")', 'A.astype("c16")', 'A.astype("i4")', 'A.astype(A.dtype, copy=False)', 'list(A)', 'A.tolist()', 'np.flip(A)', 'np.expand_dims(A, -1)', 'copy.deepcopy(A)', 'A[slice(0, 0)]', 'A.conj()', 'A[(..., 0)]']
TRI = PAIR[:8:2] + PAIR[9:33:2]
PB = ['np.arange(6.0).reshape(2, 3)', 'np.array([[1+2j, -3j], [0.5, 2.0]])', 'np.arange(3)', 'np.array(2.5)', "np.array([[1, 2], [7, 0]], dtype='>f8')", 'np.arange(12.0).reshape(2, 3, 2)', 'np.zeros((0,))', 'np.asfortranarray(np.arange(6.0).reshape(2, 3))', 'np.arange(4.0).reshape(1, 4)']


def setup():
    define_user_units()
    global UNITS, CODE, SP
    UNITS = [U() if u.src == 'pq.dimensionless' else u for u in mk_units(*UN)]
    for u in UNITS: u.model()
    CODE = {o: compile(o, o, 'eval') for o in OPS + PAIR}
    # what a spelling stands for, through the unit object it is equal to
    SP = []
    for s, u in SPELL:
        e = Expr(s)
        if u == 'either':
            if raised(attempt(lambda: pq().Quantity(1.0, e.new()))): continue
            u = units_of(pq().Quantity(1.0, e.new()))
        if u is None:
            u = units_of(e.new())
        SP.append((s, e, u))
    for s in SRCQ + [t for t in TGT if t and t not in ('None', '""')]:
        x = Expr(s).new()
        if not isinstance(x, str):
            dim_phys(getattr(x, 'dimensionality', x))


# ------------------------------------------------------------------ construction
def build(rec, data):
    P = pq()
    d = Expr(data)
    for s, e, units in SP:
        for dt_ in DTYPES[:9] if rec.tier == 'quick' else DTYPES:
            de = eval(dt_, glob())
            want = attempt(lambda: np.asarray(d.new(), dtype=de))
            forms = ('pq.Quantity(%s, %s, %s)', 'pq.Quantity(%s, units=%s, dtype=%s)')
            for form in forms:
                src = form % (data, s, dt_)
                x, u = d.new(), e.new()
                xo, uo = obs(x) if not isinstance(x, range) else None, obs(u)
                r = attempt(lambda: P.Quantity(x, u, de) if form is forms[0] else P.Quantity(x, units=u, dtype=de)); rec.step()
                key = lambda k: '%s|%s' % (k, src)
                prog = program(USER_SRC if 'X.' in s else '', 'print(repr(%s))' % src)
                if raised(want):
                    if not raised(r): rec.fail(key('accepted'), 'gives %s' % show(r), prog)
                    continue
                if raised(r) or type(r) is not P.Quantity:
                    rec.fail(key('raises'), '%s' % show(r), prog); continue
                m = np.asarray(r.magnitude)
                if units_of(r) != units or m.dtype != want.dtype or not exact(m, want):
                    rec.fail(key('wrong'), 'expected %r %s %r, got %s' % (want.tolist(), want.dtype, units, show(r)), prog); continue
                # the units are independent
                d1 = r.dimensionality
                try: d1 *= P.kg.dimensionality
                except Exception: pass
                d1[P.A] = 3
                mess(u, P)
                if units_of(r) != units:
                    rec.fail(key('shared'), 'changing the source changes the units to %r' % (units_of(r),), prog); continue
                u2 = e.new(); o2 = obs(u2)
                q = P.Quantity(d.new(), u2, de)
                mess(q, P)
                if obs(u2) != o2:
                    rec.fail(key('shared'), 'changing the units of the result changes the source to %r' % (obs(u2),), prog); continue
                if xo is not None and obs(x) != xo:
                    rec.fail(key('data'), 'the data have changed', prog); continue
                rec.outcome((units, str(m.dtype), m.shape)); rec.case(src); rec.trace()
            # default dtype
        want = attempt(lambda: np.asarray(d.new()))
        r = attempt(lambda: P.Quantity(d.new(), e.new())); rec.step()
        if raised(r) or units_of(r) != units or np.asarray(r.magnitude).dtype != want.dtype or not exact(np.asarray(r.magnitude), want):
            rec.fail('default|%s|%s' % (data, s), 'expected %r, got %s' % (want, show(r)))
    # no units
    r = attempt(lambda: P.Quantity(d.new())); rec.step()
    if raised(r) or units_of(r) != () or not exact(np.asarray(r.magnitude), np.asarray(d.new())):
        rec.fail('nounits|%s' % data, 'Quantity(%s) gives %s' % (data, show(r)))
    # products with a unit
    for s in ('pq.m', 'X.cu3', 'pq.m/pq.s', 'pq.constants.Bohr_radius', 'pq.percent', 'pq.dimensionless'):
        for f, t in ((lambda a, b: a * b, '%s * (%s)'), (lambda a, b: b * a, '(%s) * %s')):
            u = Expr(s).new()
            a = d.new()
            r = attempt(lambda: f(a, u)); rec.step()
            want = attempt(lambda: np.asarray(d.new()) * np.array(1.0))
            if raised(r) or type(r) is not P.Quantity or units_of(r) != units_of(u) or not exact(np.asarray(r.magnitude), want):
                rec.fail('product|%s' % (t % (data, s)), 'expected %r, got %s' % (want, show(r)))
            rec.case()


def mess(x, P):
    """changes the units of x and its unit expression in every way that is accepted"""
    if isinstance(x, P.dimensionality.Dimensionality):
        x[P.kg] = 2
        return
    if isinstance(x, P.Quantity):
        x.dimensionality[P.kg] = 5
        for f in (lambda: x.__imul__(P.kg), lambda: x.__itruediv__(P.mol), lambda: setattr(x, 'units', P.Quantity(1.0, x.simplified.dimensionality)), lambda: setattr(x, 'units', 'cm'), lambda: x.__ipow__(2)):
            attempt(f)


def rejects(rec, data):
    P = pq()
    d = Expr(data)
    for s in NONUNITS:
        for f, t in ((lambda x, u: P.Quantity(x, u), 'pq.Quantity(%s, %s)'), (lambda x, u: P.Quantity(x, units=u, dtype='f8'), 'pq.Quantity(%s, units=%s, dtype="f8")'), (lambda x, u: P.Quantity(P.Quantity(x, 'm'), u), 'pq.Quantity(pq.Quantity(%s, "m"), %s)'),
                     (lambda x, u: setu(P.Quantity(x, 'm'), u), 'pq.Quantity(%s, "m").units = %s'), (lambda x, u: P.Quantity(x, 'm').rescale(u), 'pq.Quantity(%s, "m").rescale(%s)')):
            u = eval(s, glob())
            r = attempt(f, d.new(), u); rec.step()
            rec.case(t % (data, s)); rec.trace()
            if not raised(r):
                rec.fail('nonunit|%s' % (t % (data, s)), 'gives %s' % show(r), program('print(repr(%s))' % (t % (data, s))))


def setu(q, u):
    q.units = u
    return q


def convert(rec, i):
    P = pq()
    s = SRCQ[i]
    e = Expr(s)
    for t in TGT:
        for dt_ in (['', 'None', '"f8"', '"f4"'] if rec.tier == 'quick' else ['', 'None', '"f8"', '"f4"', '"c16"', '"i4"', '">f8"', 'int']):
            args = [s] + ([t] if t else []) + (['dtype=' + dt_] if dt_ else [])
            src = 'pq.Quantity(%s)' % ', '.join(args)
            key = lambda k: '%s|%s' % (k, src)
            x = e.new(); o = obs(x)
            tv = eval(t, glob()) if t else None
            to = obs(tv)
            r = attempt(eval, 'pq.Quantity(%s)' % ', '.join(['x'] + (['t'] if t else []) + args[2 if t else 1:]), dict(glob(), x=x, t=tv)); rec.step()
            prog = program(USER_SRC if 'X.' in src else '', 'print(repr(%s))' % src)
            v, dims = phys(x)
            keep = t in ('', 'None', '""')
            if keep:
                units = units_of(x); scale = dim_phys(x.dimensionality)[0]; ok = True
            else:
                td = tv if isinstance(tv, P.dimensionality.Dimensionality) else P.Quantity(1.0, tv).dimensionality
                scale, tdims = dim_phys(td); units = units_of_dim(td)
                ok = dims == tdims
            if obs(x) != o or obs(tv) != to:
                rec.fail(key('operand'), 'the source has changed', prog); continue
            if not ok:
                if not raised(r): rec.fail(key('accepted'), 'gives %s' % show(r), prog)
                rec.case(); rec.trace(); continue
            if raised(r) or type(r) is not P.Quantity:
                dt2 = eval(dt_, glob()) if dt_ else None
                if dt2 is not None and raised(attempt(lambda: np.asarray(x.magnitude).astype(dt2))): continue
                rec.fail(key('raises'), show(r), prog); continue
            m = np.asarray(r.magnitude)
            dt2 = eval(dt_, glob()) if dt_ else None
            if dt2 is not None and m.dtype != np.dtype(dt2):
                rec.fail(key('dtype'), 'expected %s, got %s' % (np.dtype(dt2), show(r)), prog); continue
            want = v / scale
            if m.dtype.kind in 'iu' or np.asarray(x.magnitude).dtype.kind == 'c' and m.dtype.kind != 'c':
                pass        # truncated after the conversion, or the imaginary part is dropped
            elif not close(m, want.astype(m.dtype), tol_for(m.dtype, x.dtype)):
                rec.fail(key('value'), 'expected %r, got %s' % (want, show(r)), prog); continue
            if units_of(r) != units:
                rec.fail(key('units'), 'expected %r, got %s' % (units, show(r)), prog); continue
            if keep and dt2 is None and (m.dtype != np.asarray(x.magnitude).dtype or not exact(m, np.asarray(x.magnitude))):
                rec.fail(key('exact'), 'expected the same numbers, got %s' % show(r), prog); continue
            ux = units_of(x)
            mess(r, P)
            if units_of(x) != ux or obs(tv) != to:
                rec.fail(key('shared'), 'changing the units of the result changes the source to %s' % show(x), prog); continue
            x = e.new()
            r = eval('pq.Quantity(%s)' % ', '.join(['x'] + (['t'] if t else []) + args[2 if t else 1:]), dict(glob(), x=x, t=tv))
            mess(x, P)
            if tv is not None and not isinstance(tv, str): mess(tv, P)
            if units_of(r) != units:
                rec.fail(key('shared'), 'changing the units of the source changes the result to %s' % show(r), prog); continue
            rec.outcome((units, str(m.dtype))); rec.case(src); rec.trace()


# ------------------------------------------------------------------ shapes
def same(r, w, units, P):
    """None, or how the result r differs from the plain result w"""
    if isinstance(w, (list, tuple)):
        if type(r) is not type(w) or len(r) != len(w):
            return 'expected a %s of %d' % (type(w).__name__, len(w))
        for a, b in zip(r, w):
            x = same(a, b, units, P)
            if x: return x
        return None
    if isinstance(w, (np.ndarray, np.generic)) or not isinstance(w, (int, float, complex)):
        if type(r) is not P.Quantity:
            return 'expected a quantity, got %s' % show(r)
        m = np.asarray(r.magnitude)
        if units_of(r) != units:
            return 'expected units %r, got %s' % (units, show(r))
        if m.dtype != np.asarray(w).dtype or not exact(m, w):
            return 'expected %r, got %s' % (w, show(r))
        return None
    # an element of a plain list
    if type(r) is not P.Quantity or r.shape != () or units_of(r) != units or not exact(np.asarray(r.magnitude), w):
        return 'expected the element %r, got %s' % (w, show(r))


def shape(rec, base, u, ops):
    P = pq()
    a = eval(base, glob())
    q = P.Quantity(a, u.obj())
    env = dict(glob(), copy=copy)
    src = 'A = pq.Quantity(%s, %s)' % (base, u.src)
    key = lambda k: '%s|%s|%s|%s' % (k, base, u.src, ' ; '.join(ops))
    prog = program(USER_SRC if 'X.' in u.src else '', 'import copy', src, *['A = %s; print(repr(A))' % o for o in ops])
    want, got = a, q
    units = u.units
    sources = [q]
    for i, o in enumerate(ops):
        last = i == len(ops) - 1
        want = attempt(eval, CODE[o], dict(env, A=want))
        before = obs(got)
        # what the index expression is made of is a plain array in both cases
        r = attempt(eval, CODE[o], dict(env, A=got)); rec.step()
        if obs(got) != before:
            rec.fail(key('operand'), '%s changes its operand' % o, prog); return
        if o == 'len(A)':
            if not raised(want) and r != want or raised(want) != raised(r): rec.fail(key('len'), show(r), prog)
            return
        if raised(want):
            if not raised(r): rec.fail(key('accepted'), '%s gives %s, the plain array %r' % (o, show(r), want), prog)
            rec.case(); rec.trace(); return
        if raised(r):
            rec.fail(key('raises'), '%s %r' % (o, r), prog); return
        x = same(r, want, units, P)
        if x:
            rec.fail(key('wrong'), '%s: %s' % (o, x), prog); return
        got = r
        if isinstance(got, (list, tuple)):
            if last or not len(got): break
            got, want = got[-1], want[-1]
            if isinstance(got, (list, tuple)) or not isinstance(want, np.ndarray): break
        sources.append(got)
        if not isinstance(want, np.ndarray):
            want = np.asarray(want)
    rec.outcome((got.shape if hasattr(got, 'shape') else len(got)))
    rec.case(' ; '.join(ops) + ' on ' + src); rec.trace()
    # the units of each are independent of the others
    flat = lambda r: [y for x in r for y in flat(x)] if isinstance(r, (list, tuple)) else [r]
    objs = [q] + flat(r)
    if len(objs) > 4: objs = objs[:3] + objs[-1:]
    for i, x in enumerate(objs):
        if not isinstance(x, P.Quantity): continue
        o = [(y, units_of(y)) for y in objs if y is not x]
        mess(x, P)
        for y, uu in o:
            if units_of(y) != uu:
                rec.fail(key('shared'), 'changing the units of %s changes those of another to %s' % (('result', 'source')[x is q], units_of(y)), prog); return


OUTS = ['A.take([0, -1], out=O)', 'A.take([[0, 0]], axis=-1, out=O)', 'A.take([4, -7], None, O, "wrap")', 'A.take([4, -7], mode="clip", out=O)', 'np.take(A, [0, 1], out=O)', 'np.take(A, [1], axis=0, out=O, mode="clip")', 'A.take(0, out=O)', 'A.take(0, axis=0, out=O)',
        'A.compress([True], out=O)', 'A.compress([1, 0], axis=0, out=O)', 'np.compress([True], A, out=O)', 'A.compress([False, True], -1, O)', 'A.compress([], out=O)']


def outs(rec, b):
    """selecting into an output argument: it receives the elements and the units"""
    P = pq()
    a = eval(BASES[b], glob())
    for k, u in enumerate(UNITS):
        for o in OUTS:
            w = attempt(eval, o.replace(', out=O', '').replace(', O)', ')').replace(', O,', ', None,'), dict(glob(), A=a))
            shape = np.shape(w) if not raised(w) else (1,)
            for v in (u, UNITS[(k + 1) % len(UNITS)]):
                for bad in (False, True):
                    q = P.Quantity(a, u.obj()); before = obs(q)
                    O = P.Quantity(np.full(shape + (2,) * bad, 7, dtype=a.dtype), v.obj())
                    src = 'A = pq.Quantity(%s, %s); O = pq.Quantity(np.full(%r, 7, dtype=%r), %s)' % (BASES[b], u.src, O.shape, a.dtype.str, v.src)
                    o0 = obs(O)
                    r = attempt(eval, o, dict(glob(), A=q, O=O)); rec.step()
                    key = 'out|%s|%s|%s' % (o, BASES[b], src)
                    prog = program(USER_SRC if 'X.' in src else '', src, 'print(repr(%s), repr(O), repr(A))' % o)
                    w = attempt(eval, o, dict(glob(), A=a, O=np.full(shape + (2,) * bad, 7, dtype=a.dtype)))
                    rec.case(key); rec.trace()
                    if obs(q) != before: rec.fail(key, '%s changes its operand' % o, prog); continue
                    if raised(w):
                        if not raised(r): rec.fail(key, 'gives %s, but with a plain array %r' % (show(r), w), prog)
                        elif units_of(O) != v.units: rec.fail(key, 'it %r, but the units of the output have changed to %r' % (r, units_of(O)), prog)
                        continue
                    if raised(r): rec.fail(key, 'it %r' % r, prog); continue
                    x = same(r, w, u.units, P) or same(O, np.asarray(w), u.units, P)
                    if x: rec.fail(key, '%s: %s' % (o, x), prog); continue
                    if r is not O: rec.fail(key, 'the result is not the output argument', prog); continue
                    mess(O, P)
                    if units_of(q) != u.units: rec.fail(key, 'changing the units of the output changes those of the source', prog)


def chunks(tier):
    r = [['out', b, 0] for b in range(len(BASES))] + [['build', d] for d in data_sources()] + [['rejects', d] for d in REJD] + [['convert', i] for i in range(len(SRCQ))]
    r += [['shape', b, k] for b in range(len(BASES)) for k in (range(1) if tier == 'quick' else range(4))]
    r += [['pair', b, o] for b in range(5 if tier == 'quick' else 9) for o in range(len(PAIR))]
    if tier == 'thorough': r += [['triple', b, o] for b in (0, 1, 4) for o in range(len(TRI))]
    return r


REJD = ['2.0', '[1.0, 2.0]', 'np.zeros((0,))', '1', 'np.ones((2, 2))', 'True', '(1, 2)', 'np.float64(3)']


def data_sources():
    return arrays()


def run(desc, rec):
    if desc[0] == 'build': build(rec, desc[1])
    elif desc[0] == 'rejects': rejects(rec, desc[1])
    elif desc[0] == 'convert': convert(rec, desc[1])
    elif desc[0] == 'out': outs(rec, desc[1])
    elif desc[0] == 'shape':
        b = desc[1]
        for u in [UNITS[(b + k) % len(UNITS)] for k in (0, 3, 7)] if rec.tier == 'quick' else UNITS[desc[2] * 3:desc[2] * 3 + 3]:
            for o in OPS: shape(rec, BASES[b], u, [o])
    elif desc[0] == 'pair':
        u = UNITS[(desc[1] + desc[2]) % len(UNITS)]
        for o in (PAIR if rec.tier == 'quick' else OPS): shape(rec, PB[desc[1]], u, [PAIR[desc[2]], o])
    else:
        u = UNITS[(desc[1] + desc[2]) % len(UNITS)]
        for o in itertools.product(TRI, repeat=2): shape(rec, PB[desc[1]], u, [TRI[desc[2]]] + list(o))
