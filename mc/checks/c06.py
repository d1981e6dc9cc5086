"""C06: exported math functions under every assignment of units to their arguments."""
import itertools
import numpy as np
from ..alphabet import *
from ..expect import *

RULE = ('every exported function x every tuple of units for its arguments (same physical values) x shapes, axes and options; oracle: the plain numpy function on the '
        'base-unit numbers; plus every argument in a wrong dimension; plus functions wrapped by quantitizer with every tuple of units, positional and keyword')
BOUNDS = {'quick': '306 call templates x all unit tuples over 3-6 units per argument; two-argument functions in every pair of dtypes; every call with plain numbers in 5 forms; output arrays of every type',
          'thorough': '306 call templates x all unit tuples over 6-12 units per argument, x the data given as float, integer-valued, strided and single precision arrays'}
ASSUMPTIONS = ['a call in other than base units may be refused', 'gradient of a one-dimensional quantity gives a tuple of scalars (numpy gives an array)']
C = 'pq.constants.'
GROUPS = {
    'len': ['m', 'cm', 'X.vfoo', 'ft', 'km', 'X.vell', 'inch', C + 'Bohr_radius'],
    'time': ['s', 'ms', 'hour', 'day'],
    'angle': ['radian', 'degree', 'arcminute', 'percent', 'grad', 'X.vdoz', 'dimensionless', (('m', 1), ('ft', -1))],
    'ratio': ['dimensionless', 'percent', (('m', 1), ('cm', -1)), 'X.vdoz', 'radian', 'degree', (('X.vfoo', 1), ('ft', -1))],
    'speed': [(('m', 1), ('s', -1)), 'X.cu3', 'X.vbar', (('km', 1), ('hour', -1)), C + 'natural_unit_of_velocity'],
    'mass': ['kg', 'g', 'lb'],
}
WRONG = 'pq.Quantity(%s, pq.mol)'

V1 = 'np.array([0.5, -0.25, 0.75])'; V1b = 'np.array([2.0, -4.0, 8.0])'; V2 = 'np.array([[1.0, 2.0, 4.0], [3.0, -1.0, 0.5]])'
V2b = 'np.array([[-1.0, 0.5, 2.0], [4.0, 3.0, -2.0]])'; S = '0.5'; Sb = '-2.0'; BIG = 'np.array([0.0, 3.0, 7.0, 14.5, 1.0])'; X1 = 'np.array([0.0, 1.0, 3.0])'; SQ = 'np.arange(12.0).reshape(3, 4)**2'
I1 = 'np.array([1, 2, 7])'; GE1 = 'np.array([1.5, 2.0, 8.0])'; NAN = 'np.array([1.0, nan, 3.0])'; Z = 'np.zeros((0,))'
T = []   # (name, function taking args, reference on numbers, [(group, magnitude)], result dims as exponents of the args' dims, rejects wrong dims?)

def t(src, args, ref=None, dims=None, reject=True, same=False):
    """src: call with {0}, {1}; ref: the same over numpy; dims: exponent of each argument's dimension in the result"""
    T.append((src, args, ref or src.replace('pq.', 'np.'), dims, reject, same))

for f in ('sin', 'cos', 'tan'):
    for v in (V1, S, V2, I1, Z, BIG):
        t('pq.%s({0})' % f, [('angle', v)])
for f in ('arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arctanh'):
    for v in (V1, S, Z):
        t('pq.%s({0})' % f, [('ratio', v)])
for v in (GE1, '3.0'):
    t('pq.arccosh({0})', [('ratio', v)])
for v in (I1, V2):
    t('pq.arctan({0})', [('ratio', v)])
for a, b in ((V1, V1b), (S, Sb), (V2, V1b), (V1b, S), (I1, I1)):
    for g in ('len', 'ratio'):
        t('pq.arctan2({0}, {1})', [(g, a), (g, b)], same=True)
        t('pq.hypot({0}, {1})', [(g, a), (g, b)], dims=(1, 0), same=True)
for a, b in ((V1, V1b), (V2, V2b), (V1, V2), ('np.array([1.0, 2.0])', 'np.array([3.0, -1.0])')):
    t('pq.cross({0}, {1})', [('len', a), ('speed', b)], dims=(1, 1), reject=False)
t('pq.cross({0}, {1})', [('len', V1), ('ratio', V1b)], dims=(1, 1), reject=False)
t('pq.cross({0}, {1})', [('ratio', V1), ('len', V1b)], dims=(1, 1), reject=False)
t('pq.cross({0}, {1}, axisa=0, axisb=0, axisc=0)', [('len', 'np.array([[1.0, 2.0], [3.0, -4.0], [5.0, 0.5]])'), ('len', 'np.array([[-1.0, 2.5], [3.0, 4.0], [0.5, 6.0]])')], dims=(1, 1), reject=False)
t('pq.cross({0}, {1}, axis=0)', [('len', 'np.array([[1.0, 2.0], [3.0, -4.0], [5.0, 0.5]])'), ('time', 'np.array([[-1.0, 2.5], [3.0, 4.0], [0.5, 6.0]])')], dims=(1, 1), reject=False)
TR = 'np.trapezoid'
t('pq.trapz({0})', [('len', V1)], TR + '({0})', (1,), False)
t('pq.trapz({0}, axis=0)', [('len', V2)], TR + '({0}, axis=0)', (1,), False)
t('pq.trapz({0}, {1})', [('len', V1), ('time', X1)], TR + '({0}, {1})', (1, 1), False)
t('pq.trapz({0}, {1})', [('len', V2), ('time', X1)], TR + '({0}, {1})', (1, 1), False)
t('pq.trapz({0}, x={1}, axis=0)', [('len', V2), ('time', 'np.array([1.0, 4.0])')], TR + '({0}, x={1}, axis=0)', (1, 1), False)
t('pq.trapz({0}, dx={1})', [('speed', V1), ('time', S)], TR + '({0}, dx={1})', (1, 1), False)
t('pq.trapz({0}, None, {1})', [('speed', V2), ('time', S)], TR + '({0}, None, {1})', (1, 1), False)
t('pq.trapz({0}, {1}, {2})', [('len', V1), ('time', X1), ('mass', S)], TR + '({0}, {1})', (1, 1, 0), False)
t('pq.trapz({0}, dx={1}, axis=0)', [('speed', V2), ('len', Sb)], TR + '({0}, dx={1}, axis=0)', (1, 1), False)
t('pq.trapz({0}, {1})', [('ratio', V1), ('len', X1)], TR + '({0}, {1})', (1, 1), False)
t('pq.trapz({0}, {1})', [('len', V1), ('ratio', X1)], TR + '({0}, {1})', (1, 1), False)
t('pq.gradient({0})', [('len', V1)], 'np.gradient({0})', (1,), False)
t('pq.gradient({0})', [('len', SQ)], 'np.gradient({0})', (1,), False)
t('pq.gradient({0}, {1})', [('len', V1), ('time', S)], 'np.gradient({0}, {1})', (1, -1), False)
t('pq.gradient({0}, {1})', [('len', SQ), ('time', S)], 'np.gradient({0}, {1})', (1, -1), False)
t('pq.gradient({0}, {1}, {2})', [('speed', SQ), ('time', S), ('time', Sb)], 'np.gradient({0}, {1}, {2})', (1, -1, 0), False)
t('pq.gradient({0}, {1})', [('len', V1), ('time', X1)], 'np.gradient({0}, {1})', (1, -1), False)
t('pq.gradient({0}, {1})', [('ratio', V1), ('time', S)], 'np.gradient({0}, {1})', (1, -1), False)
t('pq.gradient({0}, {1})', [('len', SQ), ('ratio', S)], 'np.gradient({0}, {1})', (1, -1), False)
for v in (V1, V2, I1):
    t('pq.diff({0})', [('len', v)], dims=(1,), reject=False)
t('pq.diff({0}, 2)', [('len', V1)], dims=(1,), reject=False)
t('pq.diff({0}, n=1, axis=0)', [('len', V2)], dims=(1,), reject=False)
t('pq.diff({0}, prepend={1})', [('len', V1), ('len', S)], dims=(1, 0))
t('pq.diff({0}, append={1})', [('len', V1), ('len', V1b)], dims=(1, 0))
t('pq.diff({0}, prepend={1}, append={2})', [('len', V1), ('len', S), ('len', Sb)], dims=(1, 0, 0))
for v in (V1, V2):
    t('pq.ediff1d({0})', [('len', v)], dims=(1,), reject=False)
t('pq.ediff1d({0}, {1})', [('len', V1), ('len', V1b)], dims=(1, 0))
t('pq.ediff1d({0}, to_end={1})', [('len', V1), ('len', S)], dims=(1, 0))
t('pq.ediff1d({0}, to_begin={1})', [('len', V1), ('len', S)], dims=(1, 0))
t('pq.ediff1d({0}, {1}, {2})', [('ratio', V1), ('ratio', S), ('ratio', V1b)], dims=(0, 0, 0))
t('pq.unwrap({0})', [('angle', BIG)])
t('pq.unwrap({0}, {1})', [('angle', BIG), ('angle', '5.0')])
t('pq.unwrap({0}, axis=0)', [('angle', 'np.array([[0.0, 1.0], [7.0, 2.0], [1.0, 9.0]])')])
t('pq.unwrap({0}, discont={1}, axis=1)', [('angle', 'np.array([[0.0, 7.0, 1.0]])'), ('angle', '4.0')])
for f in ('sum', 'nansum', 'cumsum'):
    for v in (V1, V2, NAN, Z):
        t('pq.%s({0})' % f, [('len', v)], dims=(1,), reject=False)
    t('pq.%s({0}, 0)' % f, [('len', V2)], dims=(1,), reject=False)
    t('pq.%s({0}, axis=1)' % f, [('speed', V2)], dims=(1,), reject=False)
for v, n in ((V1, 3), (V2, 6), (S, 1)):
    t('pq.prod({0})', [('len', v)], dims=(n,), reject=False)
t('pq.prod({0}, 0)', [('len', V2)], dims=(2,), reject=False)
t('pq.prod({0}, axis=1)', [('speed', V2)], dims=(3,), reject=False)
t('pq.prod({0})', [('ratio', V1)], dims=(0,), reject=False)
t('pq.cumprod({0})', [('ratio', V1)], dims=(0,))
t('pq.cumprod({0}, axis=0)', [('ratio', V2)], dims=(0,))
for f in ('sin', 'cos', 'tan'):
    t('pq.%s({0}, np.full(3, 9.0))' % f, [('angle', V1)], 'np.%s({0})' % f)
    t('pq.%s({0}, out=np.full(3, 9.0))' % f, [('angle', V1)], 'np.%s({0})' % f)
for f in ('arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arctanh'):
    t('pq.%s({0}, out=np.full(3, 9.0))' % f, [('ratio', V1)], 'np.%s({0})' % f)
t('pq.hypot({0}, {1}, np.full(3, 9.0))', [('len', V1), ('len', V1b)], 'np.hypot({0}, {1})', (1, 0), same=True)
t('pq.arctan2({0}, {1}, np.full(3, 9.0))', [('len', V1), ('len', V1b)], 'np.arctan2({0}, {1})', same=True)

# shapes, special values and options beyond the plain ones
V3 = 'np.array([[[0.5, -1.0], [2.0, 3.0]], [[0.1, 7.0], [-2.5, 0.25]]])'; TINY = 'np.array([1e-9, -1e-9, 0.0, -0.0, 1.0])'; NONF = 'np.array([nan, inf, -inf, 0.5])'
Y0 = 'np.array([0.0, -0.0, 1.0, -1.0, 0.0, -0.0, inf, 2.0])'; X0 = 'np.array([-1.0, -1.0, 0.0, 0.0, 0.0, -0.0, inf, -inf])'; COL = 'np.array([[1.0], [-2.0]])'; CX = 'np.array([0.5+1j, 0.25-2j])'
for f in ('sin', 'cos', 'tan'):
    for v in (V3, TINY, NONF, '7', 'np.arange(40.0)', CX):
        t('pq.%s({0})' % f, [('angle', v)])
for f in ('arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arctanh', 'arccosh'):
    for v in (V3, TINY, NONF, '1.0', '2', CX):
        t('pq.%s({0})' % f, [('ratio', v)])
for a, b in ((Y0, X0), (COL, V1), (V3, COL), (NONF, '2.0'), ('3', '-4'), (Z, Z), ('1.0', V3)):
    t('pq.arctan2({0}, {1})', [('len', a), ('len', b)], same=True)
    t('pq.hypot({0}, {1})', [('len', a), ('len', b)], dims=(1, 0), same=True)
t('pq.hypot({0}, {1})', [('speed', V1), ('speed', V1b)], dims=(1, 0), same=True)
t('pq.cross({0}, {1})', [('len', 'np.array([1.0, 2.0])'), ('speed', V1)], dims=(1, 1), reject=False)
t('pq.cross({0}, {1}, axisc=0)', [('mass', V2), ('speed', V2b)], dims=(1, 1), reject=False)
t('pq.cross({0}, {1}, 0, 1)', [('mass', 'np.array([[1.0, 2.0], [3.0, -4.0], [5.0, 0.5]])'), ('time', V2b)], dims=(1, 1), reject=False)
X3 = 'np.array([0.0, 1.0, 3.0, 3.5])'
t('pq.trapz({0}, {1}, axis=1)', [('len', SQ), ('time', X3)], TR + '({0}, {1}, axis=1)', (1, 1), False)
t('pq.trapz({0}, {1})', [('len', SQ), ('time', SQ)], TR + '({0}, {1})', (1, 1), False)
t('pq.trapz({0}, {1}, axis=0)', [('len', SQ), ('time', SQ)], TR + '({0}, {1}, axis=0)', (1, 1), False)
t('pq.trapz({0}, {1}, axis=-2)', [('len', V3), ('time', 'np.array([4.0, 1.0])')], TR + '({0}, {1}, axis=-2)', (1, 1), False)
t('pq.trapz({0}, dx={1}, axis=1)', [('len', V3), ('time', S)], TR + '({0}, dx={1}, axis=1)', (1, 1), False)
t('pq.trapz({0}, {1})', [('len', I1), ('time', I1)], TR + '({0}, {1})', (1, 1), False)
t('pq.trapz({0}, {1})', [('len', NAN), ('time', X1)], TR + '({0}, {1})', (1, 1), False)
t('pq.trapz({0}, {1})', [('len', 'np.array([3.0])'), ('time', 'np.array([2.0])')], TR + '({0}, {1})', (1, 1), False)
t('pq.gradient({0}, {1}, {2})', [('speed', SQ), ('time', X1), ('len', X3)], 'np.gradient({0}, {1}, {2})', [(1, -1, 0), (1, 0, -1)], False)
for a, b in itertools.permutations(('time', 'len', 'mass'), 2):
    t('pq.gradient({0}, {1}, {2})', [('speed', SQ), (a, X1), (b, S)], 'np.gradient({0}, {1}, {2})', [(1, -1, 0), (1, 0, -1)], False)
for gs in itertools.permutations(('time', 'len', 'mass')):
    t('pq.gradient({0}, {1}, {2}, {3})', [('ratio', V3)] + [(g, m) for g, m in zip(gs, (S, 'np.array([1.0, 4.0])', Sb))], 'np.gradient({0}, {1}, {2}, {3})', [(1, -1, 0, 0), (1, 0, -1, 0), (1, 0, 0, -1)], False)
L1 = '(np.sin(np.arange(9000.0)))'; L2 = '(3*np.cos(np.arange(9000.0)))'
t('pq.trapz({0}, {1})', [('len', L1), ('time', L2)], TR + '({0}, {1})', (1, 1), False)
t('pq.trapz({0}, dx={1})', [('len', L1), ('time', S)], TR + '({0}, dx={1})', (1, 1), False)
t('pq.gradient({0}, {1})', [('len', 'np.sin(np.arange(300.0))'), ('time', 'np.arange(300.0)**1.5')], 'np.gradient({0}, {1})', (1, -1), False)
t('pq.diff({0})', [('len', L1)], dims=(1,), reject=False)
t('pq.ediff1d({0}, {1})', [('len', L1), ('len', L2)], dims=(1, 0))
t('pq.unwrap({0})', [('angle', '5*' + L1)])
t('pq.cross({0}, {1})', [('len', L1 + '.reshape(-1, 3)'), ('time', L2 + '.reshape(-1, 3)')], dims=(1, 1), reject=False)
for f in ('sum', 'nansum', 'cumsum'):
    t('pq.%s({0})' % f, [('len', L1)], dims=(1,), reject=False)
for f in ('sin', 'cos', 'tan'): t('pq.%s({0})' % f, [('angle', L1)])
for f in ('arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arctanh'): t('pq.%s({0})' % f, [('ratio', L1)])
t('pq.arctan2({0}, {1})', [('len', L1), ('len', L2)], same=True)
t('pq.hypot({0}, {1})', [('len', L1), ('len', L2)], dims=(1, 0), same=True)
t('pq.gradient({0}, {1}, {2})', [('speed', SQ), ('time', X1), ('time', X3)], 'np.gradient({0}, {1}, {2})', (1, -1, 0), False)
t('pq.gradient({0}, {1})', [('speed', V3), ('time', Sb)], 'np.gradient({0}, {1})', (1, -1), False)
t('pq.gradient({0})', [('speed', V3)], 'np.gradient({0})', (1,), False)
t('pq.gradient({0}, {1})', [('len', NAN), ('time', X1)], 'np.gradient({0}, {1})', (1, -1), False)
t('pq.diff({0}, 0)', [('len', V1)], dims=(1,), reject=False)
t('pq.diff({0}, 3)', [('len', V1)], dims=(1,), reject=False)
t('pq.diff({0}, 2, -1)', [('len', SQ)], dims=(1,), reject=False)
t('pq.diff({0}, axis=1)', [('len', V3)], dims=(1,), reject=False)
t('pq.diff({0}, 2, 0, {1})', [('len', SQ), ('len', 'np.ones((1, 4))')], dims=(1, 0), reject=False)
t('pq.diff({0}, axis=0, prepend={1}, append={2})', [('len', V2), ('len', V2b), ('len', S)], dims=(1, 0, 0), reject=False)
t('pq.diff({0}, 2, append={1})', [('len', I1), ('len', '3')], dims=(1, 0))
t('pq.diff({0}, prepend={1})', [('len', NAN), ('len', 'nan')], dims=(1, 0), reject=False)
t('pq.ediff1d({0}, {1})', [('len', V2), ('len', V2b)], dims=(1, 0))
t('pq.ediff1d({0}, None, {1})', [('len', V1), ('len', V1b)], dims=(1, 0))
t('pq.ediff1d({0}, {1}, {2})', [('len', V1), ('len', V2), ('len', S)], dims=(1, 0, 0))
t('pq.ediff1d({0}, {1})', [('len', Z), ('len', S)], dims=(1, 0))
for v in ('np.array([[0.0, 7.0, 1.0], [3.0, -9.0, 20.0]])', 'np.array([-50.0, 3.0, 100.0, 0.0])', 'np.arange(30.0) ** 2 % 11', NAN):
    t('pq.unwrap({0})', [('angle', v)])
t('pq.unwrap({0}, {1})', [('angle', BIG), ('angle', '1.0')])
t('pq.unwrap({0}, {1})', [('angle', BIG), ('angle', '9.0')])
for f in ('sum', 'nansum', 'cumsum'):
    for o in ('-1', 'axis=0', '1') + (('axis=(0, 2)', 'None') if f != 'cumsum' else ()):
        t('pq.%s({0}, %s)' % (f, o), [('len', V3)], dims=(1,), reject=False)
    t('pq.%s({0})' % f, [('len', V3)], dims=(1,), reject=False)
    t('pq.%s({0})' % f, [('len', NONF)], dims=(1,), reject=False)
for f in ('sum', 'cumsum', 'prod'):
    t('pq.%s({0}, 0, "c16")' % f, [('len', V2)], dims=(2 if f == 'prod' else 1,), reject=False)
    t('pq.%s({0}, dtype="f8")' % f, [('len', I1)], dims=(3 if f == 'prod' else 1,), reject=False)
for o, n in (('-1', 2), ('axis=(0, 2)', 4), ('(0, 1, 2)', 8), ('None', 8), ('axis=-3', 2), ('axis=()', 1)):
    t('pq.prod({0}, %s)' % o, [('len', V3)], dims=(n,), reject=False)
t('pq.cumprod({0}, 1)', [('ratio', V3)], dims=(0,))
t('pq.cumprod({0}, axis=-1, dtype="c16")', [('ratio', V2)], dims=(0,))


def setup():
    global UG, CODE
    define_user_units()
    UG = {}
    for g, names in GROUPS.items():
        UG[g] = []
        for n in names:
            u = U() if n == 'dimensionless' else mk_units(n)[0]
            u.model(); UG[g].append(u)
    CODE = {}


def chunks(tier):
    n = len(T)
    return [[tier, 'call', i, i + 4] for i in range(0, n, 4)] + [[tier, 'quantitizer', 0, 0], [tier, 'single', 0, 0]] + [[tier, 'types', i, 6] for i in range(6)] + [[tier, 'plain', 0, 0], [tier, 'out', 0, 0]]


def flat(r):
    """[(physical value, dims)] of a result, tuples flattened"""
    if isinstance(r, (tuple, list)):
        out = []
        for x in r:
            out += flat(x)
        return out
    if isinstance(r, pq().Quantity):
        v, d = phys(r)
        return [(np.asarray(v), d)]
    return [(np.asarray(r), ())]


def run(desc, rec):
    tier, kind, a, b = desc
    if kind == 'quantitizer':
        return quantitizer(rec, tier)
    if kind == 'single':
        return single(rec, tier)
    if kind == 'types':
        return types(rec, a, b)
    if kind == 'plain':
        return plain(rec)
    if kind == 'out':
        return outs(rec)
    for i in range(a, min(b, len(T))):
        template(rec, tier, *T[i])


def template(rec, tier, src, args, ref, dims, reject, same):
    P = pq()
    n = len(args)
    cut = {1: 8, 2: 5, 3: 3, 4: 2} if tier == 'quick' else {1: 12, 2: 12, 3: 6, 4: 3}
    alph = [UG[g][:cut[n]] for g, _ in args]
    names = ['x%d' % i for i in range(n)]
    call = Expr(src.format(*names)); rcall = Expr(ref.format(*names))
    forms = ['%s'] if tier == 'quick' else ['%s', 'np.repeat(%s, 2, axis=0)[::2]', "np.asarray(%s, dtype='f4')"]
    for form in forms:
        if form.startswith('np.repeat') and any(m in (S, Sb, '3.0', '5.0', '4.0') for _, m in args):
            continue
        base = [Expr(form % m).new() for _, m in args]
        tol = 1e-9 if "'f4'" not in form else 2e-5
        with np.errstate(all='ignore'):
            want = attempt(lambda: rcall.new(**dict(zip(names, base))))
        if raised(want):
            raise RuntimeError('reference failed: %r %r' % (ref, want))
        want = flat(list(want) if isinstance(want, (tuple, list)) or (src.startswith('pq.gradient') and np.ndim(base[0]) == 1) else want)
        wd = ()
        if dims:
            wd = []
            for ex in dims if isinstance(dims, list) else [dims]:
                d = ()
                for u, e in zip(alph, ex):
                    d = umul(d, upow(u[0].dims, e))
                wd.append(d)
            if not isinstance(dims, list): wd = wd[0]
        for us in itertools.product(*alph):
            if "'f4'" in form and 'prod' in src and any(not 1e-5 < u.scale < 1e5 for u in us):
                continue    # products beyond the range of single precision
            objs, txt = [], []
            for u, m, (g, ms) in zip(us, base, args):
                with np.errstate(all='ignore'):
                    mag = m if u.scale == 1 else np.asarray(m, dtype=np.result_type(np.asarray(m), 'f4')) / u.scale if np.asarray(m).dtype == 'f4' else np.asarray(m) / u.scale
                objs.append(P.Quantity(mag, u.obj()))
                txt.append('pq.Quantity((%s)/%r, %s)' % (form % ms, u.scale, u.src))
            variants = [objs]
            key = src.format(*['%s %s' % (form % ms, u) for u, (g, ms) in zip(us, args)])
            prog = program(USER_SRC, 'print(repr(%s))' % src.format(*txt))
            one(rec, src.split('(')[0] + '|' + key, call, names, objs, want, wd, prog, tol,
                must=all(u is al[0] for u, al in zip(us, alph)) or (same and len(set(us)) == 1))
            # a plain number is a ratio in base units
            plain = [i for i, u in enumerate(us) if u.units == ()]
            if plain and len(plain) < n:
                objs2 = [base[i] if i in plain else o for i, o in enumerate(objs)]
                one(rec, src.split('(')[0] + '|plain ' + key, call, names, objs2, want, wd, prog, tol, must=all(u is al[0] or u.units == () for u, al in zip(us, alph)))
    # wrong dimensions
    if reject:
        base = [Expr(m).new() for _, m in args]
        for i in range(n):
            us = [al[0] for al in alph]
            objs = [P.Quantity(m, u.obj()) for m, u in zip(base, us)]
            for w in ('pq.mol', 'pq.m**2', 'pq.Hz', 'X.vbase', None):
                if w is None:
                    if us[i].dims == () or np.size(base[i]) == 0:
                        continue
                    objs[i] = base[i]
                else:
                    objs[i] = P.Quantity(base[i], Expr(w).new())
                key = '%s|wrong %s argument %d %s' % (src.split('(')[0], src.format(*[ms for g, ms in args]), i, w)
                before = [obs(o) for o in objs]
                rec.case(key); rec.trace()
                r = attempt(lambda: call.new(**dict(zip(names, objs))))
                want_raise(rec, key, r, program(USER_SRC, '# argument %d in %s: %s' % (i, w, src)))
                for o, bf in zip(objs, before):
                    want_same(rec, key, o, bf)


def plain(rec):
    """plain numbers only: what the NumPy function gives"""
    P = pq()
    for src, args, ref, dims, reject, same in T:
        if 'full' in src: continue
        n = len(args)
        names = ['x%d' % i for i in range(n)]
        call, rcall = Expr(src.format(*names)), Expr(ref.format(*names))
        for form in ('%s', '(%s).tolist()', "np.asarray(%s, dtype='f4')", 'np.asarray(%s)[::-1]', 'np.asarray(%s).astype(int)'):
            if form == '(%s).tolist()' and (src.startswith(('pq.sum', 'pq.prod', 'pq.cum')) or any(np.ndim(Expr(m).new()) == 0 for _, m in args)): continue
            if form.endswith('[::-1]') and any(np.ndim(Expr(m).new()) == 0 for _, m in args): continue
            if src.startswith(('pq.sum', 'pq.prod', 'pq.cum')) and not isinstance(Expr(form % args[0][1]).new(), np.ndarray): continue
            if form.endswith('(int)') and any(np.iscomplexobj(Expr(m).new()) or not np.isfinite(Expr(m).new()).all() for _, m in args): continue
            if "'f4'" in form and any(np.iscomplexobj(Expr(m).new()) for _, m in args): continue
            objs = [Expr(form % m).new() for _, m in args]
            want = attempt(lambda: rcall.new(**dict(zip(names, [Expr(form % m).new() for _, m in args]))))
            if raised(want): continue
            first = np.ndim(objs[0])
            f = flat(list(want) if isinstance(want, (tuple, list)) or (src.startswith('pq.gradient') and first == 1) else want)
            key = 'plain|' + src.format(*[form % m for _, m in args])
            prog = program(USER_SRC, 'print(repr(%s))' % src.format(*[form % m for _, m in args]))
            before = [obs(o) for o in objs]
            rec.case(key); rec.step(); rec.trace()
            r = attempt(lambda: call.new(**dict(zip(names, objs))))
            for o, b in zip(objs, before): want_same(rec, key, o, b, prog, 'argument')
            g = attempt(lambda: flat(r)) if not raised(r) else r
            if raised(g) or len(g) != len(f): rec.fail(key, 'expected %s, got %s' % (show(want), show(r)), prog); continue
            for (v, d), (w, _) in zip(g, f):
                if d != () or not close(v, w, 5e-6 if np.asarray(v).dtype.itemsize < 8 else 2e-12): rec.fail(key, 'expected %s, got %s' % (show(want), show(r)), prog); break
            else:
                if not isinstance(r, (tuple, P.Quantity)) and np.asarray(r).dtype != np.asarray(want).dtype: rec.fail(key, 'expected %s, got %s' % (show(want), show(r)), prog)
            rec.outcome((src, 'plain', type(r).__name__))


def outs(rec):
    """an output array receives the numbers, whether the arguments are plain or quantities"""
    P = pq()
    ONE = [(f, 'angle', V1) for f in ('sin', 'cos', 'tan')] + [(f, 'ratio', V1) for f in ('arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arctanh')] + [('arccosh', 'ratio', GE1)]
    for f, g, m in ONE + [(f, g, (V1, V1b)) for f in ('arctan2', 'hypot') for g in ('len', 'ratio', 'speed')]:
        mags = [Expr(x).new() for x in (m if isinstance(m, tuple) else (m,))]
        for u in [None] + UG[g]:
            for form in ('%s, o', '%s, out=o'):
                for ot in ('f8', 'c16', 'i8', 'f8 strided', 'shape'):
                    o = np.full(6, 9.0)[::2] if ot == 'f8 strided' else np.full(4, 9.0) if ot == 'shape' else np.full(3, 9, ot)
                    nums = mags if u is None or isinstance(m, tuple) else [x / u.scale for x in mags]
                    objs = nums if u is None else [P.Quantity(x, u.obj()) for x in nums]
                    ref = np.full(3, 9.0)
                    want = attempt(lambda: getattr(np, f)(*mags, *((np.full(3, 9, ot),) if ot in ('f8', 'c16', 'i8') else (np.full(4, 9.0),) if ot == 'shape' else ())))
                    names = ['x%d' % i for i in range(len(objs))]
                    key = 'out|%s %s %s %s' % (f, form, u, ot)
                    src = 'pq.%s(%s)' % (f, form % ', '.join(names))
                    before = [obs(x) for x in objs]
                    rec.case(key); rec.step(); rec.trace()
                    r = attempt(lambda: Expr(src).new(o=o, **dict(zip(names, objs))))
                    prog = program(USER_SRC, 'o = np.full(3, 9, %r)' % ot, ''.join('%s = %s\n' % (k, 'np.array(%r)' % x.tolist() if u is None else 'pq.Quantity(%r, %s)' % (x.tolist(), u.src)) for k, x in zip(names, nums)), 'print(repr(%s), o)' % src)
                    for x, b in zip(objs, before): want_same(rec, key, x, b, prog, 'argument')
                    if raised(want):
                        if not raised(r) or not (o == 9).all(): rec.fail(key, 'expected an exception, got %s, out %r' % (show(r), o), prog)
                        continue
                    w = want * (u.scale if u is not None and f == 'hypot' else 1.0)
                    back = o * (u.scale if u is not None and f == 'hypot' else 1.0)
                    v = attempt(lambda: flat(r)[0][0]) if not raised(r) else r
                    if raised(v) or not close(v, w, 1e-9) or not close(back, w, 1e-9): rec.fail(key, 'expected %r in base units, got %s, out %r' % (w, show(r), o), prog)


def types(rec, part, parts):
    """arguments of different types in different units, whose values in the units of the first one are in the range of the common type"""
    P = pq()
    tt = [x for x in T if len(x[1]) > 1 and x[0].startswith(('pq.arctan2', 'pq.hypot', 'pq.diff', 'pq.ediff1d')) and 'out' not in x[0] and 'full' not in x[0] and not any(w in str(x[1]) for w in ('inf', 'nan', '0.0, -0.0', 'zeros'))]
    for src, args, ref, dims, reject, same in tt[part::parts]:
        n = len(args)
        names = ['x%d' % i for i in range(n)]
        call, rcall = Expr(src.format(*names)), Expr(ref.format(*names))
        us = {'len': ['pq.m', 'pq.mm', 'pq.km', 'pq.um'], 'ratio': ['pq.dimensionless', 'pq.percent'], 'speed': ['pq.m/pq.s', 'pq.mm/pq.s']}
        for ub in itertools.product(*[us[g] for g, _ in args]):
            un = [Expr(u).new() for u in ub]
            sc = [float((1.0 * u).simplified.magnitude) for u in un] if 'speed' not in dict(args) else [1.0 if u == 'pq.m/pq.s' else 1e-3 for u in ub]
            for ts in itertools.product(*[('f2', 'f4', 'f8', 'g', 'i4')] * n):
                w = np.result_type(*ts, 'f2')
                mags, ok = [], True
                for (g, m), f, ty in zip(args, sc, ts):
                    v = np.asarray(Expr(m).new(), float) * 4 / f
                    if ty == 'i4': ok &= bool((np.abs(v - np.rint(v)) < 1e-9 * np.abs(v)).all() and np.abs(v).max() < 2**31); v = np.rint(v)
                    else: ok &= np.abs(v).max() < float(np.finfo(ty).max) and np.abs(v[v != 0]).min() > float(np.finfo(ty).tiny)
                    if not ok: break
                    mags.append(v.astype(ty))
                    a = np.abs(mags[-1].astype(float)) * f / sc[0]
                    ok &= a.max() * 8 < float(np.finfo(w).max) and a[a != 0].min() > float(np.finfo(w).tiny)
                if not ok: continue
                if 'ediff1d' in src and ts[0] != w: continue       # the ends have to fit the type of the array
                if 'hypot' in src and len(set(ub)) > 1: continue
                objs = [P.Quantity(m, u) for m, u in zip(mags, un)]
                key = 'types|' + src.format(*['%s %s' % (t_, u) for t_, u in zip(ts, ub)])
                want = attempt(lambda: rcall.new(**{k: m.astype(float) * f for k, m, f in zip(names, mags, sc)}))
                if raised(want): continue
                prog = program(USER_SRC, 'print(repr(%s))' % src.format(*['pq.Quantity(np.array(%r, %r), %s)' % (m.tolist() if ty != 'g' else m.astype(float).tolist(), ty, u) for m, ty, u in zip(mags, ts, ub)]))
                rec.case(key); rec.step(); rec.trace()
                r = attempt(lambda: call.new(**dict(zip(names, objs))))
                if raised(r):
                    if ts[0] == 'f2' or isinstance(r.exc, TypeError): continue
                    rec.fail(key, 'it %r' % r, prog); continue
                g = attempt(lambda: np.asarray(r.magnitude) * (sc[0] if dims else 1.0))
                big = max(float(np.max(np.abs(want), initial=0.0)), max(float(np.abs(m.astype(float) * f).max()) for m, f in zip(mags, sc)) if dims else 1.0)
                eps = max(float(np.finfo(ty).eps) if ty != 'i4' else 0 for ty in ts + (w.str,)) if w.kind == 'f' else 0
                if raised(g) or np.shape(g) != np.shape(want) or not (np.abs(g - want) <= max(16 * eps, 1e-12) * big).all():
                    rec.fail(key, 'expected %r in base units, got %s' % (np.asarray(want).tolist(), show(r)), prog)


def one(rec, key, call, names, objs, want, wd, prog, tol, must):
    before = [obs(o) for o in objs]
    rec.case(key); rec.step(); rec.trace()
    with np.errstate(all='ignore'):
        r = attempt(lambda: call.new(**dict(zip(names, objs))))
    for o, b in zip(objs, before):
        want_same(rec, key, o, b, prog, 'argument')
    if raised(r):
        if must:
            rec.fail(key, 'expected %s %s, but it %r' % (want, wd, r), prog)
        rec.outcome((call.src, 'refused')); return
    g = attempt(lambda: flat(r))
    if raised(g) or len(g) != len(want):
        rec.fail(key, 'expected %s %s, got %s' % (want, wd, show(r)), prog); return
    if not all(isinstance(x, pq().Quantity) for x in (r if isinstance(r, (tuple, list)) else (r,))):
        rec.fail(key, 'not a quantity: %s' % show(r), prog); return
    for i, ((v, d), (w, _)) in enumerate(zip(g, want)):
        dd = wd[i] if isinstance(wd, list) else wd
        scale = np.abs(w[np.isfinite(w)]).max() if np.isfinite(w).any() else 0.0
        if d != dd or not close(v, w, tol, tol * max(scale, 1.0)):
            rec.fail(key, 'expected %r with base dimensions %s, got %s' % (w.tolist(), dd, show(r)), prog); return
    rec.outcome((call.src, units_of(r) if isinstance(r, pq().Quantity) else len(g)))


def quantitizer(rec, tier):
    P = pq()
    seen = {}
    def base(a, b, *rest, k=1.0, flag='x'):
        "doc"
        seen.update(a=a, b=b, rest=rest, k=k, flag=flag)
        return (a * b, b / k, a + rest[0] if rest else 5.0)
    def handler(a, b, *rest, k=1.0, flag='x'):
        return (OUT[0], OUT[1], 'plain') if not short else (OUT[0],)
    f = P.decorators.quantitizer(base, handler)
    if f.__name__ != 'base_QWrap' or 'doc' not in (f.__doc__ or ''):
        rec.fail('quantitizer|name', 'name %r' % f.__name__)
    outs1 = ['pq.km*pq.ms', 'X.vfoo*pq.hour', 'pq.m*pq.s']
    outs2 = ['pq.s/pq.kg', 'pq.day/pq.g', 'pq.hour/pq.lb']
    L, Ti, M = UG['len'], UG['time'], UG['mass']
    for short in (False, True):
        for o1, o2 in itertools.product(outs1, outs2):
            for l, ti, m, l2 in itertools.product(L[:4 if tier == 'quick' else 8], Ti[:3], M, [None, L[0], L[1], L[2]]):
                for kw in ('none', 'kw', 'all'):
                    OUT = (Expr(o1).new(), Expr(o2).new())
                    OUT = (1.0 * OUT[0], 1.0 * OUT[1])
                    A = P.Quantity(np.array([1.5, -2.0]), l.obj()); B = P.Quantity(3.0, ti.obj()); K = P.Quantity(0.5, m.obj()); R = P.Quantity(4.0, l2.obj()) if l2 else None
                    key = 'quantitizer|%s %s %s %s %s %s %s %s' % (l, ti, m, l2, o1, o2, kw, short)
                    before = [obs(x) for x in (A, B, K, R)]
                    rec.case(key); rec.step(); rec.trace()
                    seen.clear()
                    if kw == 'all':
                        if l2: continue
                        r = attempt(lambda: f(a=A, b=B, k=K, flag='y'))
                    elif kw == 'kw':
                        r = attempt(lambda: f(A, B, R, k=K) if l2 else f(A, B, k=K))
                    else:
                        r = attempt(lambda: f(A, B, R) if l2 else f(A, B))
                    for x, b in zip((A, B, K, R), before):
                        want_same(rec, key, x, b)
                    kv = 0.5 * m.scale if kw != 'none' else 1.0
                    a, b = np.array([1.5, -2.0]) * l.scale, 3.0 * ti.scale
                    if raised(r) or not isinstance(r, tuple) or len(r) != 3:
                        rec.fail(key, 'gives %s' % show(r)); continue
                    if not (close(seen.get('a'), a) and close(seen.get('b'), b) and close(seen.get('k'), kv)) or any(isinstance(v, P.Quantity) for v in seen.values()):
                        rec.fail(key, 'the wrapped function got %r, expected base units %r %r %r' % (seen, a, b, kv)); continue
                    so, do = unitsscale(o1)
                    if kw != 'none':
                        want_q(rec, key, r[0], a * b / so, do, None, 1e-11)
                        if not short:
                            s2, d2 = unitsscale(o2)
                            want_q(rec, key, r[1], b / kv / s2, d2, None, 1e-11)
                        elif isinstance(r[1], P.Quantity) or not close(r[1], b / kv, 1e-11):
                            rec.fail(key, 'unannounced result changed: %s' % show(r[1]))
                    else:
                        want_q(rec, key, r[0], a * b / so, do, None, 1e-11)
                    w3 = (a + 4.0 * l2.scale) if l2 else 5.0
                    if isinstance(r[2], P.Quantity) or not close(r[2], w3, 1e-11):
                        rec.fail(key, 'result without units should be %r, is %s' % (w3, show(r[2])))


def single(rec, tier):
    """a handler may announce one quantity instead of a tuple of them"""
    P = pq()
    got = {}
    def noted(x, y=2.0):
        "doc"
        got.update(x=x, y=y)
        return x * y
    def undocumented(x, y=2.0):
        got.update(x=x, y=y)
        return x * y
    def tupled(x, y=2.0):
        "doc"
        got.update(x=x, y=y)
        return (x * y, x)
    def listed(x, y=2.0):
        "doc"
        got.update(x=x, y=y)
        return [x * y]
    outs = ['pq.km*pq.ms', 'X.vfoo*pq.hour', 'pq.m*pq.s', 'pq.N*pq.s**3/pq.kg']
    xs = ['3.0', 'np.array([1.5, -2.0])', 'np.array([[1.0, 2.0, 4.0]])', 'np.array(7)', 'np.array([])', 'np.array([5.0])', '2']
    for base in (noted, undocumented, tupled, listed):
        for o in outs + [None]:
            for l, ti, kw, xv in itertools.product(UG['len'], UG['time'][:3], (0, 1, 2), xs):
                key = 'single|%s|%s|%s|%s|%d|%s' % (base.__name__, o, l, ti, kw, xv)
                rec.case(key); rec.step(); rec.trace()
                v = eval(xv)
                A = P.Quantity(v, l.obj()); B = P.Quantity(3.0, ti.obj())
                before = [obs(A), obs(B)]
                O = None if o is None else 1.0 * Expr(o).new()
                def call():
                    f = P.decorators.quantitizer(base) if O is None else P.decorators.quantitizer(base, lambda *a, **k: O)
                    return f(A, B) if kw == 0 else f(A, y=B) if kw == 1 else f(y=B, x=A)
                got.clear()
                r = attempt(call)
                for q, b in zip((A, B), before):
                    want_same(rec, key, q, b)
                a, b = np.asarray(v) * l.scale, 3.0 * ti.scale
                if raised(r):
                    rec.fail(key, 'raises %r' % (r,)); continue
                if not (close(got.get('x'), a) and close(got.get('y'), b)) or any(isinstance(z, P.Quantity) for z in got.values()):
                    rec.fail(key, 'the wrapped function got %r, expected base units %r %r' % (got, a, b)); continue
                if base in (tupled, listed):
                    n = 2 if base is tupled else 1
                    if not isinstance(r, tuple) or len(r) != n:
                        rec.fail(key, 'gives %s' % show(r)); continue
                    if n == 2 and (isinstance(r[1], P.Quantity) or not close(r[1], a, 1e-11)):
                        rec.fail(key, 'unannounced result changed: %s' % show(r[1])); continue
                    r = r[0]
                if O is None:
                    if isinstance(r, P.Quantity) or not close(r, a * b, 1e-11) or np.shape(r) != np.shape(v):
                        rec.fail(key, 'result without units should be %r, is %s' % (a * b, show(r)))
                else:
                    so, do = unitsscale(o)
                    want_q(rec, key, r, a * b / so, do, None, 1e-11)


def unitsscale(src):
    q = Expr(src).new()
    return dim_phys(q.dimensionality)[0], units_of(q)
