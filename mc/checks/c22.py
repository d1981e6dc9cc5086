"""C22: every operation with objects of subclasses against the same operation with objects of the classes themselves."""
import copy, itertools, operator, pickle
import numpy as np
from ..alphabet import *
from ..expect import *
from .. import core
from . import c21

RULE = ('every operation of the lists of C21 (unary, on either side of every other operand, in place, and pairs of them in a row) and of a list of methods is run twice, with an object of a subclass and with the same object of the class itself, '
        'in fresh environments: value, dtype, units, uncertainty, error, the operands afterwards, and the way the result can be used afterwards must be the same; pickles and copies of an object of a subclass have its class')
BOUNDS = {'quick': '3 subclasses of Quantity and 2 of UncertainQuantity; 9 operands x 260 unary operations and methods and all pairs of 40 of them in a row; 4 operands x 36 other operands (each also as a subclass) x 75 binary operations on either side; 9 routes of copying; all operands x 9 output arguments (also of a subclass) x 90 operations into them',
          'thorough': '13 operands; all operands x 50 other operands; all pairs of 90 operations in a row'}
ASSUMPTIONS = ['the class of a result is not compared', 'the subclass adds an attribute or nothing; it overrides no method but __array_finalize__',
               'the sum of a certain and an uncertain quantity may be expressed in the units of either']

SUB_SRC = '''import copy, pickle
class Sub(pq.Quantity): pass
class Tagged(pq.Quantity):
    def __new__(cls, data, units='', dtype=None, copy=None, tag='t'):
        obj = super().__new__(cls, data, units, dtype)
        obj.tag = tag
        return obj
    def __array_finalize__(self, obj):
        super().__array_finalize__(obj)
        self.tag = getattr(obj, 'tag', None)
class SubSub(Sub):
    __slots__ = ()
class USub(pq.UncertainQuantity): pass
class UTagged(pq.UncertainQuantity):
    def __array_finalize__(self, obj):
        super().__array_finalize__(obj)
        self.tag = getattr(obj, 'tag', 1)
'''
CERTAIN, UNCERTAIN = ['Sub', 'Tagged', 'SubSub'], ['USub', 'UTagged']
# arguments of the constructor
QARGS = ['[1.0, -2.0, 4.0], "m"', '2.5, "km"', '[0.5, 0.25], ""', '[[1.0, 2.0], [3.5, 4.0]], "radian"', '[1, 2, 7], "cm"', '[2.0, 3.0, 5.0], X.cu3', '[0.5, 7.0], "percent"', 'np.arange(12.0).reshape(2, 3, 2), "N"', '[3.0], "degC"',
         '[], "s"', '1+2j, "m"', 'np.array([1.0, 2.0], dtype="f4"), "ft"', '[nan, 1.0], "um"']
UARGS = ['[1.0, -2.0, 4.0], "m", [0.1, 0.2, 0.3]', '2.5, "km", 0.5', '[0.5, 0.25], "", [0.1, 0.2]', '[[1.0, 2.0], [3.5, 4.0]], "kg", [[0.1, 0.2], [0.3, 0.0]]', '[2.0, 3.0], X.cu3, 0.1*np.ones(2)*X.cu3']
METHODS = ['A.max(axis=0)', 'A.min(axis=-1)', 'A.std(ddof=1)', 'A.var(0)', 'A.prod(axis=0)', 'A.cumsum(0)', 'A.nanargmax()', 'A.nanargmin()', 'A.argsort(0)', 'A.argpartition(0)', 'A.trace(1)', 'A.compress([True])', 'A.compress([True, False], axis=0)', 'A.clip(A, 2*A)', 'A.clip(max=A)',
           'A.units', 'A.rescale(A.units)', 'A.rescale(2)', 'A.rescale("nothing")', 'A[::-1]', 'A[..., 0]', 'A[1:]', 'A[A == A]', 'A[[True, False, True]]', 'A.T[0]', 'A.transpose()', 'A.swapaxes(0, -1)', 'A.sum(axis=-1)', 'A.sum(dtype="f4")', 'A.mean(dtype="f4")', 'A.nanvar()', 'A.dot(A)', 'A.byteswap().byteswap()',
           'A.view(pq.Quantity)', 'pq.Quantity(A)', 'pq.Quantity(A, A.units)', 'pq.UncertainQuantity(A.magnitude.copy(), A.units)', 'A.dimensionality.simplified', 'str(A)', 'format(A)', 'repr(A).split("(")[-1]', 'A.uncertainty', 'A.relative_uncertainty', 'A.sqrt()', 'A**0.25', '1/A', '2/A**2', '0.5*A', 'A*0.5', 'A/3', '3 - A', 'A - 3', '-A + A', 'A*A/A', '[x for x in A]', 'sorted(A.ravel())',
           'np.sort(A)', 'np.cumsum(A)', 'np.std(A)', 'np.squeeze(A)', 'np.transpose(A)', 'np.diff(A)', 'np.median(A)', 'np.array([A, A])', 'np.copy(A)', 'np.repeat(A, 2)', 'np.tile(A, 2)', 'np.clip(A, A, A)', 'np.allclose(A.magnitude, A.magnitude)', 'np.expand_dims(A, 0)', 'pq.gradient(A)', 'pq.unwrap(A)', 'pq.trapz(A)', 'pq.trapz(A, A)', 'pq.cross(A, A)', 'pq.hypot(A, A)', 'pq.arctan2(A, A)', 'pq.ediff1d(A, to_end=A)', 'pq.diff(A, prepend=A)']
STATES = ['A *= 2', 'A *= pq.kg', 'A /= A', 'A += A', 'A -= 0.5*A', 'A **= 2', 'A **= 0.5', 'A //= 2', 'A //= pq.m', 'A %= A', 'A.units = "mm"', 'A.units = A.units*2', 'A.units = pq.s', 'A.units = A.simplified.dimensionality', 'A[...] = A[::-1]', 'A[0] = A[-1]', 'A[0] = pq.Quantity(7, A.units)', 'A[0] = 3', 'A.fill(3)', 'A.fill(5*A.units)', 'A.fill(3*pq.mol)', 'A.put([0], A[-1])', 'A.put([0], 2*A.units, mode="clip")',
          'A.real = A', 'A.imag = A', 'A.real[...] = 4*A.units', 'A[1:].units = "mm"', 'A.T.units = "mm"', 'A[0:1] *= pq.kg', 'A.sort()', 'A.resize((1,))', 'A.shape = (-1,)', 'np.add(A, A, out=A)', 'np.multiply(A, A, out=A)', 'np.sqrt(A, out=A)', 'np.sin(A, out=A)', 'np.isnan(A, out=A)', 'A.sum(axis=0, out=A[0])', 'A.round(0, out=A)', 'A.clip(0.1*A, A, out=A)', 'A.cumsum(out=A)', 'A.take([0], out=A[:1])', 'A.uncertainty = 0.25', 'A.uncertainty = 0.5*A',
          'A.uncertainty = A', 'A.uncertainty.fill(7*A.units)', 'A.uncertainty = pq.s']
OUTS = ['A.%s(axis=0, out=B)' % m for m in 'sum nansum mean nanmean max min nanmax nanmin prod std var nanstd argmax argmin ptp cumsum cumprod all any'.split()] + ['A.%s(out=B)' % m for m in 'sum nansum mean nanmean max min nanmax nanmin prod std var nanstd argmax argmin ptp cumsum cumprod all any trace round'.split()] + [
        'A.round(1, B)', 'A.clip(0*A, 2*A, out=B)', 'A.clip(max=A, out=B)', 'A.take([0, -1], out=B, mode="clip")', 'A.take([0, 1], axis=0, out=B, mode="wrap")', 'A.trace(out=B)', 'A.compress([True, True], axis=0, out=B)', 'np.add(A, A, out=B)', 'np.add(A, 2*A, B)', 'np.multiply(A, A, out=B)', 'np.divide(A, A, out=B)', 'np.sqrt(A, out=B)', 'np.negative(A, B)', 'np.square(A, out=B)',
        'np.greater(A, 0*A, out=B)', 'np.isnan(A, out=B)', 'np.sin(A, out=B)', 'np.floor_divide(A, A, out=B)', 'np.power(A, 2, out=B)', 'np.multiply(B, A, out=B)', 'np.add(B, B, out=A)', 'np.sum(A, axis=0, out=B)', 'np.mean(A, out=B)', 'np.cumsum(A, axis=0, out=B)', 'np.max(A, axis=0, out=B)', 'np.clip(A, 0*A, A, out=B)', 'np.round(A, 0, B)', 'np.std(A, out=B)', 'np.prod(A, out=B)',
        'A.put([0], B)', 'A.put([0, 1], B, "wrap")', 'A[:1] = B', 'A[...] = B', 'A.fill(B)', 'B[...] = A', 'B[:1] = A[:1]', 'B += A[:]', 'A.real = B', 'A.imag = B', 'B.units = A.units', 'A.units = B', 'A.uncertainty = B', 'A.uncertainty = B.magnitude*A.units', 'B.uncertainty = A']
OUTB = ['pq.Quantity([7.0, 7.0], "s")', 'pq.Quantity(7.0, "mm")', 'pq.Quantity([[7.0, 7.0], [7.0, 7.0]], "kg")', 'pq.Quantity([7, 7], "m")', 'pq.Quantity([True, False], "m")', 'pq.Quantity([7.0, 7.0, 7.0], "cm")', 'pq.UncertainQuantity([7.0, 7.0], "mm", [0.1, 0.2])', 'pq.UncertainQuantity(7.0, "m", 0.5)', 'pq.Quantity([7.0, 7.0], "")']
SHORT = ['-A', 'abs(A)', 'A**2', 'A**0.5', 'A.simplified', 'A.units', 'A.astype("f4")', 'A.T', 'A.reshape(1)', 'A.ravel()', 'A[...]', 'A[0]', 'A[1:]', 'A.sum()', 'A.mean()', 'A.max()', 'A.prod()', 'A.std()', 'A.cumsum()', 'A.round()', 'A.take([0, 0])', 'A.real', 'A.rescale("m")', 'A.rescale(pq.ft)', 'A * A', 'A / A', 'A + A', 'A - A', '2*A', '1/A', 'A*pq.kg', 'pq.kg/A', 'A.copy()', 'copy.deepcopy(A)', 'pickle.loads(pickle.dumps(A))', 'A.squeeze()', 'np.sqrt(A)', 'pq.sin(A)', 'A.repeat(2)', 'A.view(pq.Quantity)']


def setup():
    c21.setup()
    P = pq()
    g = glob()
    exec(SUB_SRC, g)
    for c in CERTAIN + UNCERTAIN: g[c].__module__ = __name__; globals()[c] = g[c]
    for o in METHODS + SHORT: CODE[o] = compile(o, o, 'eval')
    for o in STATES + OUTS: CODE[o] = compile(o, o, 'exec')
    CODE.update(c21.CODE)


CODE = {}


def like(a, b, sums=False):
    d = c21.alike(a, b)
    if d and sums and not raised(a) and not raised(b) and hasattr(a, 'uncertainty') and hasattr(b, 'uncertainty'):
        x = attempt(lambda: a.rescale(b.units))
        if not raised(x): d = c21.alike(x, b)
    return d and d.replace('unit:', 'subclass:').replace('quantity:', 'class:', 1)


def run_op(op, env, target):
    """result, or for a statement the object afterwards; an exception together with what is left"""
    c = CODE[op]
    if target:
        r = attempt(exec, c, env)
        return [r if raised(r) else None, env[target]]
    return [attempt(eval, c, env), None]


def compare(rec, a, b, ops, other=None, target=None, other2=None):
    """the same operations in a row, with A (and B) made by the sources a and b"""
    P = pq()
    pair = []
    for A, B in ((a, other), (b, other2 or other)):
        env = dict(glob(), copy=copy, pickle=pickle)
        env['A'] = eval(A, env)
        if B is not None: env['B'] = eval(B, env)
        start = env['A'], None if B is None else env['B']
        before = [obs(x) for x in start]
        for n, op in enumerate(ops):
            r = run_op(op, env, target); rec.step()
            if n < len(ops) - 1:
                if target is None:
                    if raised(r[0]) or not isinstance(r[0], P.Quantity): break
                    env['A'] = r[0]
        after = [like_obs(obs(x)) for x in start]
        pair.append((r[0], r[1], [x == like_obs(y) for x, y in zip(after, before)], start))
    (r1, l1, s1, k1), (r2, l2, s2, k2) = pair
    key = '%s|%s|%s' % (' ; '.join(ops), a, other or '')
    sums = any(o in ('A + B', 'A - B', 'B + A', 'B - A') for o in ops)
    d = like(r1, r2, sums)
    if not d and target: d = like(l1, l2) and 'afterwards, ' + like(l1, l2)
    if not d and s1 != s2: d = 'an operand has changed: %s, with the class itself %s' % (show(k1), show(k2))
    if not d and target is None and not raised(r1) and isinstance(r1, P.Quantity) and not isinstance(r1, P.UnitQuantity) and r1.flags.writeable and isinstance(r2, P.Quantity) and r2.flags.writeable and units_of(r1) == units_of(r2):
        for ch in ('r *= 2', 'r[...] = 3*r.units', 'r *= pq.kg'):
            z = []
            for r in (r1, r2):
                e = dict(glob(), r=r)
                x = attempt(exec, ch, e); rec.step()
                z.append(x if raised(x) else e['r'])
            d = like(*z)
            if d: d = 'after %s: %s' % (ch, d); break
        if not d and [obs(x)[1:] for x in k1] != [obs(x)[1:] for x in k2] and any(like(x, y) for x, y in zip(k1, k2) if x is not None):
            d = 'changing the result makes the operands %s, with the class itself %s' % (show(k1), show(k2))
    if d:
        lines = []
        for A, B in ((a, other), (b, other2 or other)):
            lines.append('A = %s%s' % (A, '; B = ' + B if B else ''))
            for n, o in enumerate(ops):
                lines.append(o if target else 'print(repr(%s))' % o if n == len(ops) - 1 else 'A = ' + o)
            if target: lines.append('print(repr(%s))' % target)
        rec.fail(key, d, program(USER_SRC, SUB_SRC, *['try: %s\nexcept Exception as e: print(repr(e))' % l if ';' not in l and '=' in l and not l.startswith('A = ') else l for l in lines]))
    rec.outcome((ops[-1], 'raise' if raised(r1) else units_of(r1) if isinstance(r1, P.Quantity) else type(r1).__name__))
    rec.case(key); rec.trace()


def like_obs(o):
    return o[1:] if isinstance(o, tuple) else o


def pairs(tier):
    """(source with a subclass, source with the class itself)"""
    out = []
    qa = QARGS[:9] if tier == 'quick' else QARGS
    for i, x in enumerate(qa):
        for c in CERTAIN if tier != 'quick' or i < 3 else CERTAIN[i % 3:i % 3 + 1]:
            out.append(('%s(%s)' % (c, x), 'pq.Quantity(%s)' % x))
    for i, x in enumerate(UARGS):
        for c in UNCERTAIN if tier != 'quick' or i < 2 else UNCERTAIN[:1]:
            out.append(('%s(%s)' % (c, x), 'pq.UncertainQuantity(%s)' % x))
    return out


OTHERS = ['pq.Quantity([1.0, -2.0, 4.0], "cm")', 'pq.Quantity(2.5, "m")', 'pq.Quantity([1, 2, 7], "m")', 'pq.Quantity(3.0, "s")', 'pq.Quantity([0.5, 0.25], "")', 'pq.Quantity(50.0, "percent")', 'pq.Quantity(2.0, X.cu3)', 'pq.Quantity([0.5, 7.0], "degree")', 'pq.UncertainQuantity([1.0, 2.0, 3.0], "m", [0.1, 0.2, 0.3])',
          'pq.UncertainQuantity(2.0, "", 0.5)', 'pq.UncertainQuantity(2.0, "km", 0.5)', 'pq.Quantity([[1.0], [2.0]], "km")', 'pq.Quantity(np.array([1.0, 2.0], dtype="f4"), "ft")', 'pq.Quantity([nan, 1.0, 2.0], "um")']
OTHERX = OTHERS + c21.OTHERP + c21.OTHERU


def sub_of(src):
    """the same object of a subclass"""
    if src.startswith('pq.Quantity('): return 'Tagged' + src[11:]
    if src.startswith('pq.UncertainQuantity('): return 'USub' + src[20:]


def copies(rec, a, b):
    P = pq()
    env = dict(glob())
    A = eval(a, env)
    B = eval(b, env)
    for r in ['pickle%d' % k for k in range(6)] + ['copy', 'method', 'deepcopy']:
        f = {'copy': copy.copy, 'method': lambda x: x.copy(), 'deepcopy': copy.deepcopy}.get(r) or (lambda x: pickle.loads(pickle.dumps(x, int(r[-1]))))
        x, y = attempt(f, A), attempt(f, B); rec.step(2)
        key = 'copy|%s|%s' % (r, a)
        prog = program(USER_SRC, SUB_SRC, 'A = %s' % a, 'B = %s; print(type(B), repr(B))' % {'copy': 'copy.copy(A)', 'method': 'A.copy()', 'deepcopy': 'copy.deepcopy(A)'}.get(r, 'pickle.loads(pickle.dumps(A, %s))' % r[-1]))
        d = like(x, y) or (not raised(x) and like(x, B))
        if not d and r != 'deepcopy' and type(x) is not type(A):
            d = 'the class of the copy is %s' % type(x).__name__
        if not d:
            before = obs(A)
            x *= 3; x.units = x.units
            if obs(A) != before: d = 'changing the copy changes the original'
        rec.case(key); rec.trace()
        if d: rec.fail(key, d, prog)


def chunks(tier):
    n = len(pairs(tier))
    r = [['unary', i, 0, 0] for i in range(n)]
    r += [['row', i, k, 5] for i in range(n) for k in range(5)] if tier != 'quick' else [['row', i, 0, 1] for i in range(n)]
    r += [['binary', i, k, 4] for i in ([0, 3, 6, 9, 12, 16] if tier == 'quick' else range(n)) if i < n for k in range(4)]
    r += [['outs', i, 0, 1] for i in range(n)]
    return r


def run(desc, rec):
    kind, i, k, m = desc
    full = rec.tier == 'thorough'
    a, b = pairs(rec.tier)[i]
    if kind == 'unary':
        copies(rec, a, b)
        for op in c21.UNARY + METHODS: compare(rec, a, b, [op])
        for op in STATES: compare(rec, a, b, [op], None, 'A')
        for o1, o2 in itertools.product(STATES[:24], STATES) if full else itertools.product(STATES[:11], STATES[:24]): compare(rec, a, b, [o1, o2], None, 'A')
    elif kind == 'outs':
        for other in OUTB:
            s = sub_of(other)
            for op in OUTS:
                if 'cum' in op and '(7.0' in other: continue      # NumPy crashes
                for t in ('B', 'A') if 'A.' == op[:2] or 'A[' == op[:2] or 'out=A' in op else ('B',):
                    compare(rec, a, b, [op], other, t)
                    compare(rec, a, b, [op], s, t, other)
                    compare(rec, b, b, [op], s, t, other)
    elif kind == 'row':
        first = SHORT[k::m]
        second = SHORT if not full else SHORT + METHODS[:50]
        for o1, o2 in itertools.product(first, second): compare(rec, a, b, [o1, o2])
    else:
        for other in (OTHERX if full or True else OTHERS)[k::m]:
            s = sub_of(other)
            for op in c21.BIN:
                if 'linspace' in op and 'Uncertain' in b: continue      # the uncertainty of such results is not specified
                compare(rec, a, b, [op], other)
                if s: compare(rec, a, b, [op], s, None, other); compare(rec, b, b, [op], s, None, other)
            if s is None and other not in c21.OTHERP[4:6]: continue
            for op in c21.INPLACE:
                if 'linspace' in op and 'Uncertain' in b: continue
                if other.startswith('pq.') and not s: continue
                compare(rec, a, b, [op], other, 'B')
                if s: compare(rec, a, b, [op], s, 'B', other); compare(rec, b, b, [op], s, 'B', other)
