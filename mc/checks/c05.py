"""C05: every NumPy ufunc over operand tuples, with and without an output."""
import numpy as np
from ..alphabet import *
from ..expect import *
from .c03 import npop, bare

RULE = ('every ufunc numpy exports x every operand (pair) of the alphabet x out absent, a quantity of other units, the operand itself, a plain array, a tuple; '
        'oracle: numpy on the magnitudes plus a table of unit rules written for this check; where the rule does not admit the operands the call must raise')
BOUNDS = {'quick': '96 ufuncs x 100 operands (unary) or 67^2 operand pairs (binary) x 1-5 forms of out; binary ones also with 64 operands of 11 shapes and layouts with each other',
          'thorough': '96 ufuncs x 381 operands (unary) or 166^2 operand pairs (binary) x 1-5 forms of out'}
ASSUMPTIONS = ['a ufunc the library does not support may be refused', 'a plain zero is admitted as a zero of any unit by the additive functions',
               'arctan2 gives the plain ratio angle (dimensionless), as the test suite requires', 'ufunc methods (reduce, outer, at) are not covered']

ADD = 'add subtract remainder mod fmod hypot maximum minimum'.split()
CMP = 'equal not_equal less less_equal greater greater_equal'.split()
COPY = 'fabs absolute abs conjugate conj negative rint floor ceil'.split()
LOGS = 'log log10 log2 log1p exp exp2 expm1'.split()
TRIG = 'sin cos tan sinh cosh tanh'.split()
ARC = 'arcsin arccos arctan arcsinh arccosh arctanh asin acos atan asinh acosh atanh'.split()
IS = 'isfinite isinf isnan isnat'.split()
OPTIONAL = {'positive': 'copy', 'trunc': 'copy', 'cbrt': 'cbrt', 'fmax': 'add', 'fmin': 'add', 'sign': 'none', 'signbit': 'bool', 'deg2rad': 'radians', 'rad2deg': 'degrees',
            'float_power': 'power', 'logical_and': 'bool', 'logical_or': 'bool', 'logical_not': 'bool', 'logical_xor': 'bool'}
RAD = (('radian', 1),)
DEG = (('arcdegree', 1),)


def rule_of(name):
    for k, v in (('add', ADD), ('compare', CMP), ('copy', COPY), ('dimensionless', LOGS), ('trig', TRIG), ('arc', ARC), ('is', IS)):
        if name in v:
            return k, False
    r = {'multiply': 'multiply', 'divide': 'divide', 'true_divide': 'divide', 'floor_divide': 'divide', 'power': 'power', 'pow': 'power', 'square': 'square',
         'reciprocal': 'reciprocal', 'sqrt': 'sqrt', 'radians': 'radians', 'degrees': 'degrees', 'logaddexp': 'dimensionless', 'logaddexp2': 'dimensionless',
         'arctan2': 'arctan2', 'atan2': 'arctan2'}.get(name)
    if r:
        return r, False
    return OPTIONAL.get(name, 'unsupported'), True


def predict(name, rule, f, args):
    """'raise', None (not predicted), or list of acceptable (magnitude, units); units None: not a quantity with units"""
    m = npop(f, *[bare(a) for a in args])
    if raised(m):
        return 'raise'
    if rule == 'unsupported' or isinstance(m, tuple):
        return 'raise'
    A = args[0]
    u = [a.units for a in args]
    if rule in ('add', 'compare', 'arctan2'):
        B = args[1]
        if A.kind == 'plain' or B.kind == 'plain':
            p, o = (A, B) if A.kind == 'plain' else (B, A)
            if o.units and p.mag.any():
                return 'raise'
            units = o.units
            if rule == 'arctan2' and o.units:
                return [(m, ()), 'raise']
        elif A.units != B.units:
            return 'raise'
        else:
            units = A.units
        if rule == 'arctan2':
            return [(m, ()), (m, RAD)] + (['raise'] if 'plain' in (A.kind, B.kind) else [])
        return [(m, units if rule == 'add' else None)]
    if rule == 'multiply': return [(m, umul(*u))]
    if rule == 'divide': return [(m, udiv(*u))]
    if rule == 'power':
        B = args[1]
        if B.units: return 'raise'
        e = B.mag
        if e.size == 0 or e.dtype.kind == 'c' or not np.isfinite(e).all(): return None
        if e.min() != e.max(): return 'raise'
        return [(m, upow(A.units, e.ravel()[0].item()))]
    if rule == 'copy': return [(m, A.units)]
    if rule == 'square': return [(m, upow(A.units, 2))]
    if rule == 'sqrt': return [(m, upow(A.units, 0.5))]
    if rule == 'cbrt': return [(m, upow(A.units, 1 / 3))]
    if rule == 'reciprocal': return [(m, upow(A.units, -1))]
    if rule in ('is', 'bool'): return [(m, None)]
    if rule == 'none': return [(m, ())]
    # functions which look at the physical value
    out = {'dimensionless': (), 'trig': (), 'arc': RAD, 'radians': RAD, 'degrees': DEG}[rule]
    if any(a.dims != () for a in args):
        return 'raise'
    k = {'degrees': 1.0, 'radians': DEGSCALE}.get(rule, 1.0)
    if all(abs(a.scale / k - 1) < 1e-14 for a in args):
        r = [(m, out)]
        if any(a.units != {'trig': RAD, 'degrees': RAD, 'radians': DEG}.get(rule, ()) for a in args):
            r.append('raise')
        return r
    conv = npop(f, *[a.mag * (a.scale / k) for a in args])
    return ['raise', (conv, out)]


def setup():
    global OPS, SMALL, UF, DEGSCALE
    define_user_units()
    DEGSCALE = unit_phys(pq().degree)[0]
    seen = {}
    for n in sorted(dir(np)):
        f = getattr(np, n)
        if isinstance(f, np.ufunc) and f.nin <= 2:
            seen.setdefault(f, n if n == f.__name__ or f.__name__ not in dir(np) else f.__name__)
    UF = sorted((n, f) for f, n in seen.items())
    un = ['m', 'cm', 'X.vfoo', 'X.vtwin', 's', (('m', 1), ('s', -1)), 'X.cu3', 'percent', 'radian', 'degree', (), (('m', 1), ('ft', -1)), (('m', 2),)]
    si = ['m', 'ft', 'X.vfoo', 'percent', 'dimensionless', 'radian', 'degree', 'X.cu2', 'pq.constants.Bohr_radius']
    pl = ['3', '0.5', '0', 'np.float64(2.0)', '[1, 2, 7]', 'np.array([1.0, -2.0, 4.0])', 'np.array([0.0, 0.0, 0.0])', 'np.array([2, 2, 2])', '-2', 'True', '1', '2.0', 'np.zeros(())',
          'np.array([0.0, 1.0, 0.0])', '[0, 5, 0]', 'np.array([2, 3, 2])', 'np.array([2.0, 2.0000001, 2.0])', 'np.array([0.0, 0.0, nan])', 'np.array([5e-324, 0.0, 0.0])']
    SMALL = {'quick': operands(un, ['2.5', 'np.array([0.5, -2.0, 4.0])', '3'], si, pl),
             'thorough': operands(OP_UNITS, ['2.5', 'np.array([0.5, -2.0, 4.0])', '3', '0.0', 'np.array([[0.25], [2.0]])', "np.array([1.5, 2.5, 0.25], dtype='f4')"], si, pl)}
    OPS = {'quick': operands(un, ['2.5', 'np.array([0.5, -2.0, 4.0])', '3', 'np.array([1, 2, 7])', 'np.array([nan, inf, 0.0])', 'np.zeros((0,))'], si, []),
           'thorough': operands(plain=[])}
    SMALL['shapes'] = operands(['m', 'X.vfoo', 'radian', 'percent', ()], SHP, ['m', 'dimensionless'], ['3', '0', 'np.array([[1.0], [2.0]])', 'np.zeros((0,))', '[]', 'np.zeros((2, 0))', 'np.zeros((2, 2, 3))', 'np.array([[[2.0]]])'])
    OPS['shapes'] = operands(['m', 'X.vfoo', 'radian', 'degree', 'percent', ()], SHP + ['np.zeros(3)', "np.array([0.5, 2.0], dtype='f4')", 'np.array([[True, False]])', 'np.array([-0.0, inf])', 'np.array([1.5+2j])'], ['m'], [])


SHP = ['2.5', 'np.sin(np.arange(9000.0))', 'np.array([0.5, -2.0, 4.0])', 'np.array([[0.25], [2.0]])', 'np.zeros((0,))', 'np.zeros((2, 0))', 'np.arange(12.0).reshape(2, 2, 3)', 'np.array([[2.0]])', 'np.array([2.0, 2.0, 2.0])', '(np.arange(18.0)/4).reshape(3, 2, 3)[::-1, :, ::2]', 'np.asfortranarray([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]])']


def chunks(tier):
    n = 4 if tier == 'quick' else 24
    r = []
    for i, (name, f) in enumerate(UF):
        if f.nin == 1:
            r += [[tier, i, 0, 1], ['shapes', i, 0, 1]]
        else:
            r += [[tier, i, j, n] for j in range(n)] + [['shapes', i, j, 2] for j in range(2)]
    return r


OUTS = ['none', 'quantity', 'samekind', 'plain', 'self', 'tuple', 'wide']
WIDE = {'b': 'f8', 'i': 'f8', 'u': 'f8', 'f': 'c16', 'c': 'G'}      # a type of output argument which holds every result

def run(desc, rec):
    tier, i, a, n = desc
    name, f = UF[i]
    rule, optional = rule_of(name)
    if f.nin == 1:
        for A in OPS[tier]:
            one(rec, name, f, rule, optional, [A])
    else:
        for A in SMALL[tier][a::n]:
            for B in SMALL[tier]:
                if A.kind == B.kind == 'plain':
                    continue
                one(rec, name, f, rule, optional, [A, B])


def one(rec, name, f, rule, optional, args):
    P = pq()
    w = predict(name, rule, f, args)
    res = npop(f, *[bare(a) for a in args])
    for out in OUTS:
        if out != 'none' and (raised(res) or isinstance(res, tuple)):
            continue
        if out != 'none' and len(args) == 2 and not (args[0].magsrc in ('2.5', '1.0', '[1, 2, 7]') or args[1].magsrc in ('2.5', '1.0')):
            continue
        objs = [a.new() for a in args]
        before = [obs(o) for o in objs]
        o, otxt = None, ''
        if out in ('quantity', 'samekind', 'tuple'):
            ou = 'pq.mol' if out != 'samekind' else 'pq.dimensionless'
            o = P.Quantity(np.full(np.shape(res), 77, dtype=np.asarray(res).dtype), Expr(ou).new())
            otxt = ', out=pq.Quantity(np.full(%r, 77, dtype=%r), %s)' % (np.shape(res), np.asarray(res).dtype.str, ou)
        elif out == 'wide':
            wide = WIDE.get(np.asarray(res).dtype.kind)
            if wide is None or raised(npop(lambda *x: f(*x, out=np.full(np.shape(res), 77, wide)), *[bare(a) for a in args])):
                continue
            o = P.Quantity(np.full(np.shape(res), 77, wide), 'mol')
            otxt = ', out=pq.Quantity(np.full(%r, 77, dtype=%r), pq.mol)' % (np.shape(res), wide)
        elif out == 'plain':
            o = np.full(np.shape(res), 77, dtype=np.asarray(res).dtype)
            otxt = ', out=np.full(%r, 77, dtype=%r)' % (np.shape(res), np.asarray(res).dtype.str)
        elif out == 'self':
            if args[0].kind != 'quantity' or args[0].mag.shape != np.shape(res) or args[0].mag.dtype != np.asarray(res).dtype:
                continue
            o = objs[0]; otxt = ', out=<the first operand>'
        key = 'ufunc|np.%s(%s%s)' % (name, ', '.join(map(str, args)), otxt)
        src = program(USER_SRC, 'r = np.%s(%s%s); print(type(r), repr(r))' % (name, ', '.join(map(str, args)), otxt))
        rec.case(key if out == 'none' else None); rec.step()
        kw = {} if o is None else {'out': (o,) if out == 'tuple' else o}
        with np.errstate(all='ignore'):
            r = attempt(f, *objs, **kw)
        for x, b in zip(objs, before):
            if x is not o:
                want_same(rec, key, x, b, src, 'input')
        rec.trace()
        if w is None:
            rec.note('not predicted'); continue
        if w == 'raise':
            if not raised(r):
                if out == 'plain' and r is o and close(o, res):
                    rec.fail('plain-output|np.%s(%s%s)' % (name, ', '.join(map(str, args)), otxt), 'expected to be rejected, but gives %s' % show(r), src)
                else:
                    rec.fail(key, 'expected to be rejected, but gives %s' % show(r), src)
            else:
                rec.outcome((name, 'raise'))
            continue
        if raised(r):
            if not optional and 'raise' not in w:
                rec.fail(key, 'expected %s, but it %r' % (w, r), src)
            rec.outcome((name, 'raise'))
            continue
        if o is not None and r is not o:
            rec.fail(key, 'does not return the output argument', src); continue
        got = r
        if isinstance(r, P.UnitQuantity):
            rec.fail(key, 'the result is a unit: %s' % show(r), src); continue
        g = np.asarray(got); gu = units_of(got) if isinstance(got, P.Quantity) else None
        ok = False
        for c in w:
            if c == 'raise':
                continue
            m, u = c
            m = np.asarray(m)
            tol = 1e-6 if 'f4' in dt(m.dtype) or 'c8' in dt(m.dtype) else 1e-13
            if out == 'wide': m = m.astype(wide)
            if out == 'plain':
                uok = True        # a plain array holds the numbers only
            elif u is None:
                uok = not gu
            else:
                uok = gu == u or (gu is None and u == () and all(a.kind == 'plain' for a in args))
            if uok and close(g, m, tol) and dt(g.dtype) == dt(m.dtype):
                ok = True
        if not ok:
            rec.fail(('plain-output|' if out == 'plain' and all(c == 'raise' or c[1] is not None for c in w) and rule not in ('multiply', 'divide') and 'raise' in w else 'ufunc|') + key.split('|', 1)[1],
                     'expected %s, got %s' % (w, show(r)), src)
        rec.outcome((name, gu, g.shape))
