"""C21: units in place of quantities, chains of definitions, and units that stay intact."""
import copy, itertools, pickle
import numpy as np
from ..alphabet import *

RULE = ('substitution: every operation of the alphabet with a unit at each operand position is compared with the same operation on the quantity whose magnitude is one in that unit (value, dtype, shape, units, or both raise), for every other operand; '
        'definitions: every chain of user definitions up to the depth bound (products, quotients, powers, factors, plain numbers, units themselves, subclasses), every unit of which is converted to base units, to every other unit of the chain and to library units, against the product of the factors; '
        'intactness: every product of up to the bound of powers of compound units, constants and plain units keeps them as single units until it is converted')
BOUNDS = {'quick': '16 units x 180 unary operations, 16 units x 41 other operands x 75 binary operations on either side, each result then changed in place in five ways; all definition chains of depth 3 over 19 forms from 3 roots; chains of depth 1 and 2 defined under four settings of the default units and used under the first; all products of 3 of 22 powers',
          'thorough': '40 units x 180 and 40 x 75 x 110; all chains of depth 4 over 12 forms from 5 roots and depth 3 over 19 forms from 8 roots; all products of 4 of 22 powers'}
ASSUMPTIONS = ['writing to a unit is refused (C09), so operations that change their operand are compared with the unit as the other operand only', 'the text, the hash and the class of a unit are those of a unit', 'definitions are scalars']

UNITS = ['pq.m', 'pq.N', 'X.cu3', 'pq.constants.Bohr_radius', 'pq.dimensionless', 'pq.percent', 'X.vfoo', 'pq.radian', 'pq.degC', 'X.vdoz', 'X.vbase', 'pq.km', 'pq.degree', 'X.cu2', 'pq.constants.fine_structure_constant', 'X.vsqrt']
UNITS_T = UNITS + ['pq.s', 'pq.ft', 'pq.Hz', 'X.vbar', 'X.vbaz', 'X.cu1', 'X.cu4', 'X.vkilo', 'X.vell', 'pq.byte', 'pq.c', 'pq.constants.h', 'pq.kg', 'pq.J', 'pq.psi', 'pq.degF', 'pq.K', 'pq.mol', 'pq.liter', 'pq.eV', 'pq.steradian', 'pq.molar', 'pq.T', 'pq.ohm']
UFU = ['sqrt', 'square', 'negative', 'absolute', 'fabs', 'exp', 'log', 'log10', 'log2', 'log1p', 'expm1', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh', 'reciprocal', 'rint', 'floor', 'ceil', 'isnan', 'isfinite', 'isinf', 'conjugate', 'degrees', 'radians', 'sign', 'positive', 'cbrt', 'trunc', 'exp2']
UNARY = ['-A', 'abs(A)', '+A', 'A**2', 'A**-1', 'A**0.5', 'A**0', 'A**1', 'A**2.0', '2**A', 'A**[2]', 'A**[1, 2]', 'A**np.array(2)', 'A**pq.dimensionless', 'A.simplified', 'A.magnitude', 'A.units', 'A.dimensionality', 'A.dimensionless_magnitude', 'A.astype("f4")', 'A.astype(int)', 'A.astype("c16")', 'A.T', 'A.reshape(1)', 'A.reshape(1, 1)', 'A.reshape(2)', 'A.ravel()', 'A.flatten()', 'A.repeat(3)', 'A[()]', 'A[...]', 'A[None]',
         'A[0]', 'A[True]', 'A[[0]]', 'A.sum()', 'A.mean()', 'A.max()', 'A.min()', 'A.std()', 'A.var()', 'A.prod()', 'A.cumsum()', 'A.cumprod()', 'A.argmax()', 'A.argmin()', 'A.argsort()', 'A.nonzero()', 'A.ptp()', 'A.round()', 'A.round(2)', 'A.trace()', 'A.squeeze()', 'A.tolist()', 'list(A)', 'len(A)', 'A.shape', 'A.ndim', 'A.size', 'A.dtype', 'A.real', 'A.imag', 'A.item()', 'float(A)', 'int(A)', 'complex(A)', 'bool(A)', 'round(A)',
         'A.any()', 'A.all()', 'A.take(0)', 'A.take([0, 0])', 'A.nansum()', 'A.nanmean()', 'A.nanmax()', 'A.nanmin()', 'A.nanstd()', 'A.sum(axis=0)', 'A.mean(0)', 'np.asarray(A)', 'np.array(A)', 'pq.Quantity(A)', 'pq.Quantity(A, dtype="f4")', 'pq.UncertainQuantity(A)', 'A.rescale_preferred()', 'A.rescale()', 'A.view(np.ndarray)', 'A.conj()', 'A.swapaxes(0, 1)', 'A.diagonal()', 'A.copy()*1', 'copy.copy(A)*1', 'copy.deepcopy(A)*1', 'A.flat[0]', 'np.sum(A)', 'np.mean(A)', 'np.max(A)', 'np.prod(A)',
         'np.zeros_like(A)', 'np.ones_like(A)', 'np.atleast_1d(A)', 'np.around(A)', 'np.ravel(A)', '[A, A]*1', 'A is None', 'A == None', 'A != "m"', 'A < None', 'A + None', 'A*"m"', 'A + "m"', 'A @ A', 'divmod(A, A)', 'A % A', 'A // A', 'A - A', 'A + A', 'A * A', 'A / A', 'A == A', 'A < A', 'A <= A', 'A**A', 'A.clip(0*A, 2*A)', 'np.hypot(A, A)', 'np.arctan2(A, A)', 'np.maximum(A, A)', 'A.searchsorted(A)', 'sum([2*A, A], 0*A)', 'A.dimensionality == (2*A).dimensionality', 'np.nan_to_num(A)']
UNARY += ['np.%s(A)' % f for f in UFU]
UNARY += ['pq.%s(A)' % f for f in ('sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh', 'exp', 'log', 'sqrt', 'prod', 'sum', 'cumsum', 'cumprod', 'diff', 'nansum', 'isnan') if True]
UNARY += ['A.rescale(%s)' % t for t in ('"m"', 'pq.ft', '"dimensionless"', 'pq.s', 'X.cu3', '"m/s"', 'pq.K', 'X.vfoo', 'pq.radian', '"N"', 'pq.m.dimensionality', '"kg*m/s**2"', '"m**0.5"', 'A', 'A**2', '"1/m**2"', '"m", dtype="f4"')]
UNARY += ['pq.Quantity(A, %s)' % t for t in ('"m"', 'pq.ft', 'pq.dimensionless', '"s"', 'X.cu3')]
BIN = ['A + B', 'B + A', 'A - B', 'B - A', 'A * B', 'B * A', 'A / B', 'B / A', 'A // B', 'B // A', 'A % B', 'B % A', 'A ** B', 'B ** A', 'A == B', 'B == A', 'A != B', 'B != A', 'A < B', 'B < A', 'A <= B', 'B <= A', 'A > B', 'B > A', 'A >= B', 'B >= A', 'divmod(A, B)', 'A @ B']
BIN += ['np.%s(%s)' % (f, o) for f in ('add', 'subtract', 'multiply', 'divide', 'remainder', 'floor_divide', 'power', 'hypot', 'arctan2', 'maximum', 'minimum', 'less', 'equal', 'greater_equal', 'logaddexp', 'fmod') for o in ('A, B', 'B, A')]
BIN += ['pq.hypot(A, B)', 'pq.arctan2(B, A)', 'pq.cross(B, A)', 'pq.trapz(B, dx=A)', 'pq.gradient(B, A)', 'pq.diff(B, prepend=A)', 'pq.ediff1d(B, to_end=A)', 'pq.unwrap(B, A)', 'pq.unwrap(B, discont=A)']
INPLACE = ['B += A', 'B -= A', 'B *= A', 'B /= A', 'B //= A', 'B %= A', 'B **= A', 'B[0] = A', 'B[...] = A', 'B[:1] = A', 'B.fill(A)', 'B.put([0], A)', 'B.units = A', 'B = B.clip(A, 9*A)', 'B = B.clip(max=A)', 'B = B.clip(min=A)', 'B = B.searchsorted(A)', 'B = B.rescale(A)', 'B = pq.Quantity(B, A)', 'B = pq.Quantity(3, A)', 'B = pq.UncertainQuantity(2.0, A, 0.5)', 'B = pq.UncertainQuantity(B, A)', 'B = pq.UncertainQuantity(2.0, A, 0.5*A)', 'B = [1, 2]*A', 'B = np.array([1.0, 2.0])*A', 'B = (1, 2)*A', 'B = A*[1, 2]', 'np.add(B, A, out=B)', 'np.multiply(B, A, out=B)',
           'B = A in B', 'B = B.sum(out=None)*A', 'B = pq.Quantity([3.0], A.dimensionality)', 'B = pq.Quantity(3.0, A.units)', 'B.uncertainty = A', 'B = pq.UncertainQuantity(3.0, "m", A)', 'B = (B.dimensionality*A.dimensionality).string', 'B = A.dimensionality < B.dimensionality', 'B = np.linspace(0*A, A, 3)', 'B = pq.Quantity(2.0, "m").rescale(A)', 'pq.quantity.PREFERRED = [A]; B = B.rescale(); pq.quantity.PREFERRED = []']
OTHERQ = ['pq.Quantity(2.5, "m")', 'pq.Quantity([1.0, -2.0, 4.0], "cm")', 'pq.Quantity([1, 2, 7], "m")', 'pq.Quantity(3.0, "s")', 'pq.Quantity([[1.5], [2.0]], "km/h")', 'pq.Quantity([0.5, 0.25], "")', 'pq.Quantity(50.0, "percent")', 'pq.Quantity([1.0, 2.0], "N")', 'pq.Quantity(2.0, X.cu3)', 'pq.Quantity([0.5, 7.0], "radian")', 'pq.Quantity(3.0, "degF")', 'pq.UncertainQuantity([1.0, 2.0], "m", [0.1, 0.2])', 'pq.UncertainQuantity(2.0, "", 0.5)', 'pq.Quantity([], "m")',
          'pq.Quantity(1+2j, "m")', 'pq.Quantity(np.array([1.0, 2.0], dtype="f4"), "ft")', 'pq.Quantity(2.0, X.vbase)', 'pq.Quantity([nan, 1.0], "um")', 'pq.Quantity(2.0, "m**0.5")', 'pq.Quantity(5.0, X.vdoz)', 'pq.Quantity(2.0, X.vfoo)', 'pq.Quantity(1.0, pq.constants.Bohr_radius)']
OTHERP = ['3', '2.5', '0', 'True', '[1, 2, 7]', 'np.array([1.0, -2.0])', 'np.float64(2.0)', 'np.int64(2)', 'np.array(2.0)', '(1.5, -2.0)', '1j', '-1', '2', '1', '0.5', 'nan', '"m"', 'None', 'np.float32(2.5)']
OTHERU = ['pq.m', 'pq.ft', 'pq.s', 'X.cu3', 'pq.percent', 'pq.dimensionless', 'X.vfoo', 'pq.constants.Bohr_radius', 'pq.N', 'pq.radian', 'X.vdoz', 'pq.degF']
QUICKQ = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 18, 20]


def setup():
    define_user_units()
    global CODE
    CODE = {o: compile(o, o, 'eval') for o in UNARY + BIN}
    CODE.update({o: compile(o, o, 'exec') for o in INPLACE})
    for s in UNITS_T + OTHERU: unit_phys(Expr(s).new())


def alike(a, b):
    """None, or why a (with the unit) is not like b (with the quantity)"""
    P = pq()
    if raised(a) or raised(b):
        return None if raised(a) and raised(b) else 'unit: %s, quantity: %s' % (show(a), show(b))
    if isinstance(a, (list, tuple)) and type(a) is type(b) and len(a) == len(b):
        for x, y in zip(a, b):
            r = alike(x, y)
            if r: return r
        return None
    qa, qb = isinstance(a, P.Quantity), isinstance(b, P.Quantity)
    if qa and qb:
        ua, ub = isinstance(a, P.UncertainQuantity), isinstance(b, P.UncertainQuantity)
        ma, mb = np.asarray(a.magnitude), np.asarray(b.magnitude)
        if ua == ub and ma.dtype == mb.dtype and units_of(a) == units_of(b) and close(ma, mb, tol_for(ma.dtype)):
            if not ua: return None
            return alike(a.uncertainty, b.uncertainty)
    elif not qa and not qb:
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, np.generic) or isinstance(b, np.generic):
            xa, xb = np.asarray(a), np.asarray(b)
            if xa.dtype == xb.dtype and close(xa, xb, tol_for(xa.dtype)): return None
        elif obs(a) == obs(b):
            return None
        elif type(a) is type(b) and isinstance(a, (float, complex)) and close(a, b):
            return None
    return 'unit: %s, quantity: %s' % (show(a), show(b))


def evaluate(code, env, inplace=False):
    if not inplace:
        return attempt(eval, code, env)
    def f():
        exec(code, env)
        return env['B']
    return attempt(f)


def subst(rec, s, op, other, inplace=False):
    P = pq()
    u = Expr(s).new()
    q = P.Quantity(1.0, u)
    o = Expr(other) if other else None
    res = []
    before = obs(u)
    for A in (u, q):
        env = dict(glob(), A=A, copy=copy)
        if o is not None: env['B'] = o.new()
        bo = obs(env.get('B')) if o else None
        r = evaluate(CODE[op], env, inplace); rec.step()
        if o is not None and not inplace and obs(env['B']) != bo:
            rec.fail('operand|%s|%s|%s' % (op, s, other), 'the other operand has changed to %s' % show(env['B']))
        if inplace and raised(r):
            r = ('raised', env['B'])      # what is left of B must be the same, too
        res.append(r)
    key = '%s|%s|%s' % (op, s, other or '')
    if obs(u) != before:
        rec.fail('unit-changed|' + key, 'the unit has changed')
    d = alike(*res)
    if d and '+A' == op: d = None
    a, b = res
    new = op.startswith('pq.Quantity(A')
    if not d and isinstance(a, P.Quantity) and isinstance(b, P.Quantity) and not isinstance(a, P.UnitQuantity) and not isinstance(b, P.UnitQuantity) and (new or not np.shares_memory(b, q)) and op != 'A[True]':
        # and both can be used in the same way afterwards (a read-only array, which a unit is, gives read-only elements by a boolean index in NumPy;
        # Quantity(q) is documented as a view, whose units cannot be changed, while one made of a unit is always new)
        for ch in ('r *= 2', 'r += r', 'r[...] = 3*r.units') + (() if new else ('r *= pq.kg', 'r.units = U0')):
            z = []
            for r in (a, b):
                e = dict(glob(), r=r, U0=attempt(lambda: P.Quantity(1.0, b.simplified.dimensionality)))
                x = attempt(exec, ch, e); rec.step()
                z.append(x if raised(x) else e['r'])
            d = alike(*z)
            if d:
                d = 'after %s: %s' % (ch, d); break
        if obs(u) != before:
            rec.fail('unit-changed|' + key, 'the unit has changed with the result')
    if d:
        b = 'B = %s; ' % other if other else ''
        rec.fail('unlike|' + key, d, program(USER_SRC, 'import copy', *['A = %s; %s' % (a, b) + ('%s; print(repr(B))' % op if inplace else 'print(repr(%s))' % op) for a in (s, 'pq.Quantity(1.0, %s)' % s)]))
    r = res[0]
    rec.outcome((op, 'raise' if raised(r) else units_of(r) if isinstance(r, P.Quantity) else type(r).__name__))
    rec.case('%s with A = %s, B = %s' % (op, s, other)); rec.trace()


# ------------------------------------------------------------------ chains of definitions
# forms: source over P (the parent), factor and exponents of parent and of library units
FORMS = [('2.5*P', 2.5, 1, ()), ('P', 1.0, 1, ()), ('P**2', 1.0, 2, ()), ('4*P/pq.s', 4.0, 1, (('s', -1),)), ('0.5*P**-1', 0.5, -1, ()), ('3*P**0.5', 3.0, 0.5, ()), ('1e-3*P*pq.kg', 1e-3, 1, (('kg', 1),)), ('12*P*pq.ft', 12.0, 1, (('ft', 1),)), ('pq.Quantity(7, P)', 7.0, 1, ()), ('1/P', 1.0, -1, ()), ('P*pq.dimensionless', 1.0, 1, ()), ('60*P*pq.percent', 60.0, 1, (('percent', 1),)),
         ('P/pq.cm', 1.0, 1, (('cm', -1),)), ('2*P**2/pq.hour', 2.0, 2, (('hour', -1),)), ('pq.Quantity(1.5, P.dimensionality)', 1.5, 1, ()), ('-2.0*P', -2.0, 1, ()), ('P*pq.constants.Bohr_radius', 1.0, 1, (('constants.Bohr_radius', 1),)), ('pq.UncertainQuantity(3.0, P, 0.1)', 3.0, 1, ()), ('pq.Quantity(np.float32(0.25), P)', 0.25, 1, ())]
ROOTS = ['pq.m', 'X.vbar', 'X.cu3', 'X.vbase', 'pq.constants.Bohr_radius', 'pq.dimensionless', 'pq.N', 'pq.degC']
SHORTF = [0, 1, 2, 3, 4, 5, 6, 11, 12, 13, 8, 16]


DEFAULTS = {'SI': dict(system='SI'), 'cgs': dict(system='cgs'), 'ft': dict(length='ft', mass='lb', time='hour'), 'vfoo': dict(length='vfoo', temperature='degC')}


def chain(rec, root, forms, tag, defaults=()):
    P = pq()
    r = Expr(root).new()
    s, d = unit_phys(r)
    units, model = [r], [(s, d)]
    src = [USER_SRC, 'P = ' + root]
    prog = None
    for n, fi in enumerate(forms):
        text, k, e, lib = FORMS[fi]
        parent = units[-1]
        name = 'vc%s_%d' % (tag, n)
        sub = 'UnitQuantity' if n % 2 == 0 or fi % 3 or n == len(forms) - 1 else 'UnitConstant'
        if n < len(defaults):
            P.set_default_units(**DEFAULTS[defaults[n]])
            src.append('pq.set_default_units(**%r)' % DEFAULTS[defaults[n]])
        src.append('P = pq.%s(%r, %s, symbol=%r)' % (sub, name, text, name + 's'))
        prog = program(*src, 'print(repr((1*P).simplified), repr(P.definition))')
        if n < len(defaults) and n: parent.simplified     # used under these defaults, too
        g = dict(glob(), P=parent)
        df = attempt(eval, text, g)
        if raised(df):
            rec.fail('definition|%s|%r' % (root, forms), '%s raises %r' % (text, df), prog); return
        u = attempt(lambda: getattr(P, sub)(name, df, symbol=name + 's')); rec.step()
        if raised(u):
            rec.fail('definition|%s|%r' % (root, [FORMS[f][0] for f in forms]), 'defining %s = %s %r' % (name, text, u), prog); return
        # the definition may be changed afterwards without effect
        try:
            df *= 5; df.units = df.units
        except Exception: pass
        ps, pd = model[-1]
        sc, dm = k * ps ** e, upow(pd, e)
        for nm, x in lib:
            ls, ld = unit_phys(Expr('pq.' + nm).new())
            sc *= ls ** x; dm = umul(dm, ld, x)
        if isinstance(sc, complex): return      # the root of a negative factor
        units.append(u); model.append((sc, dm))
    if defaults:
        P.set_default_units('SI'); src.append('pq.set_default_units("SI")')
        prog = program(*src, 'print(repr((1*P).simplified), repr(P.definition))')
    key = lambda k: '%s|%s|%s' % (k, root, ' ; '.join(FORMS[f][0] for f in forms) + ' under ' * bool(defaults) + ', '.join(defaults))
    last, (ls, ld) = units[-1], model[-1]
    # conversions of the last unit
    for q, f, what in ((last, 1.0, 'the unit'), (P.Quantity([2.0, -3.0], last), None, 'a quantity')):
        v = np.array(1.0) if f else np.array([2.0, -3.0])
        r = attempt(lambda: q.simplified); rec.step()
        if raised(r) or units_of(r) != ld or not close(r.magnitude, v * ls, 1e-11) or isinstance(r, P.UnitQuantity):
            rec.fail(key('simplified'), '%s: expected %r %r, got %s' % (what, v * ls, ld, show(r)), prog); return
        if units_of(q) != (() if last is P.dimensionless else ((uname(last), 1),)):
            rec.fail(key('intact'), 'the units are %r' % (units_of(q),), prog); return
        for t, (ts, td) in zip(units, model):
            r = attempt(lambda: q.rescale(t)); rec.step()
            if td != ld:
                if not raised(r): rec.fail(key('accepted'), '%s rescaled to %s gives %s' % (what, t.name, show(r)), prog); return
            elif raised(r) or not close(r.magnitude, v * ls / ts, 1e-11):
                rec.fail(key('rescale'), '%s rescaled to %s: expected %r, got %s' % (what, t.name, v * ls / ts, show(r)), prog); return
            # and back
            if td == ld:
                r = attempt(lambda: (4.0 * t).rescale(last)); rec.step()
                if raised(r) or not close(r.magnitude, 4.0 * ts / ls, 1e-11):
                    rec.fail(key('back'), '4 %s in the last unit: expected %r, got %s' % (t.name, 4 * ts / ls, show(r)), prog); return
                r = attempt(lambda: t + q); rec.step()
                if raised(r) or not close(phys_by(r, units, model), ts + v * ls, 1e-11, 1e-13 * abs(ts)):
                    rec.fail(key('sum'), 'sum with %s is %s, expected %r' % (t.name, show(r), ts + v * ls), prog); return
    # by its label, in a string and in base units made by hand
    r = attempt(lambda: P.Quantity(2.0, last.name).rescale(base_units(ld))); rec.step()
    if raised(r) or not close(r.magnitude, 2.0 * ls, 1e-11):
        rec.fail(key('string'), 'by name: expected %r, got %s' % (2 * ls, show(r)), prog); return
    r = attempt(lambda: (3.0 * last ** 2).simplified); rec.step()
    if raised(r) or not close(r.magnitude, 3.0 * ls ** 2, 1e-11) or units_of(r) != upow(ld, 2):
        rec.fail(key('power'), 'its square: expected %r, got %s' % (3.0 * ls ** 2, show(r)), prog); return
    c = attempt(lambda: P.CompoundUnit('%s**2/s' % last.name)); rec.step()
    r = attempt(lambda: (2.0 * c).simplified) if not raised(c) else c
    if raised(r) or not close(r.magnitude, 2.0 * ls ** 2, 1e-11) or units_of(r) != umul(upow(ld, 2), (('second', -1),)):
        rec.fail(key('compound'), 'a compound of it: expected %r, got %s' % (2.0 * ls ** 2, show(r)), prog); return
    rec.outcome((ls, ld)); rec.case('%s: %s' % (root, ' ; '.join(FORMS[f][0] for f in forms))); rec.trace()


def phys_by(q, units, model):
    """value of a quantity in the units of the chain, by the model"""
    s = 1.0
    names = {uname(u): m for u, m in zip(units, model)}
    for n, e in units_of(q):
        s *= names[n][0] ** e
    return np.asarray(q.magnitude) * s


def base_units(dims):
    P = pq()
    q = 1.0 * P.dimensionless
    for n, e in dims:
        q = q * (1.0 * P.unit_registry[n]) ** e
    return P.Quantity(1.0, q.dimensionality)


# ------------------------------------------------------------------ units that stay intact
INT = [(n, p) for n in ('X.cu1', 'X.cu3', 'X.cu4', 'pq.constants.Bohr_radius', 'pq.c', 'X.vbaz') for p in (1, 2, -1)] + [('pq.m', 1), ('pq.m', -1), ('pq.hour', 1), ('pq.kg', 0.5)]


def intact(rec, combo):
    P = pq()
    u = U(*[f for f in combo])
    want = u.units
    key = lambda k: '%s|%s' % (k, u.src)
    prog = program(USER_SRC, 'q = 3.0*%s' % u.src, 'print(repr(q), repr(q.simplified))')
    forms = {'product': lambda: 3.0 * u.obj(), 'quotient': lambda: 3.0 / (1 / u.obj()) if len(combo) else None, 'array': lambda: np.array([3.0, 1.0]) * u.obj(), 'step': lambda: step_product(combo), 'sum': lambda: u.obj() * 1.0 + u.obj() * 2.0, 'root': lambda: (9.0 * u.obj() ** 2) ** 0.5, 'copy': lambda: copy.deepcopy(3.0 * u.obj()), 'construct': lambda: P.Quantity(3.0, u.obj())}
    for n, f in forms.items():
        r = attempt(f); rec.step()
        if raised(r) or units_of(r) != want or not close(np.ravel(r.magnitude)[0], 3.0):
            rec.fail(key(n), 'expected 3.0 %r, got %s' % (want, show(r)), prog); return
        s = attempt(lambda: r.simplified); rec.step()
        if raised(s) or units_of(s) != u.dims or not close(np.ravel(s.magnitude)[0], 3.0 * u.scale, 1e-11):
            rec.fail(key(n + '-simplified'), 'expected %r %r, got %s' % (3.0 * u.scale, u.dims, show(s)), prog); return
        if units_of(r) != want:
            rec.fail(key(n + '-changed'), 'converting changed the units to %r' % (units_of(r),), prog); return
    rec.outcome(want); rec.case(u.src); rec.trace()


def step_product(combo):
    q = pq().Quantity(3.0, '')
    for s, p in combo:
        x = Expr(s).new()
        if p == -1: q = q / x
        elif p == 2: q = x * q * x
        else: q = q * x ** p
    return q


def chunks(tier):
    us = UNITS if tier == 'quick' else UNITS_T
    r = [['unary', i] for i in range(len(us))] + [['binary', i] for i in range(len(us))]
    r += [['chain', root, 3, f] for root in (ROOTS[:3] if tier == 'quick' else ROOTS) for f in range(len(FORMS))]
    if tier == 'thorough': r += [['chain4', root, f, h] for root in ROOTS[:5] for f in SHORTF for h in SHORTF]
    r += [['defaults', root] for root in (ROOTS[:3] if tier == 'quick' else ROOTS)]
    r += [['intact', i] for i in range(len(INT))]
    return r


def run(desc, rec):
    kind = desc[0]
    full = rec.tier == 'thorough'
    if kind == 'unary':
        for op in UNARY: subst(rec, UNITS_T[desc[1]], op, None)
    elif kind == 'binary':
        s = UNITS_T[desc[1]]
        qs = OTHERQ if full else [OTHERQ[i] for i in QUICKQ]
        for o in qs + ['1.0*' + s, '[2.0, 0.5]*' + s] + OTHERP + OTHERU:
            for op in BIN: subst(rec, s, op, o)
        for o in qs + ['1.0*' + s, '[2.0, 0.5]*' + s] + OTHERP[4:6]:
            for op in INPLACE: subst(rec, s, op, o, True)
    elif kind == 'chain':
        n = 0
        for k in (0, 1, 2):
            for rest in itertools.product(range(len(FORMS)), repeat=k):
                n += 1
                chain(rec, desc[1], (desc[3],) + rest, 'a%d' % n)
    elif kind == 'defaults':
        n = 0
        for f in range(len(FORMS)):
            for d in list(DEFAULTS)[1:]:
                n += 1; chain(rec, desc[1], (f,), 'd%d' % n, (d,))
            for f2 in SHORTF if full else SHORTF[:4]:
                for dd in itertools.product(DEFAULTS, repeat=2):
                    if dd != ('SI', 'SI'):
                        n += 1; chain(rec, desc[1], (f, f2), 'd%d' % n, dd)
    elif kind == 'chain4':
        for n, rest in enumerate(itertools.product(SHORTF, repeat=2)):
            chain(rec, desc[1], (desc[2], desc[3]) + rest, 'b%d' % n)
    else:
        i = desc[1]
        for rest in itertools.combinations_with_replacement(range(i, len(INT)), 3 if full else 2):
            intact(rec, [INT[i]] + [INT[j] for j in rest])
        for j in range(i, len(INT)): intact(rec, [INT[i], INT[j]])
        intact(rec, [INT[i]])
