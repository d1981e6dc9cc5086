"""C03: * / // ** over all ordered operand pairs in all forms, and over expression trees."""
import itertools, operator
import numpy as np
from ..alphabet import *
from ..expect import *

RULE = ('every ordered pair of operands x * / // ** *= /= //= **=, oracle: numpy on the magnitudes and the exponent arithmetic of the model; '
        'every expression tree over units, quantities and numbers up to the depth bound, so that forms which algebra makes equal have the same predicted value')
BOUNDS = {'quick': '200 operands, and 149 of all shapes and layouts, all ordered pairs x 8 operators; powers of powers over 10 bases and 40 exponents (NumPy scalars of narrow types among them) in 3 forms, each followed by further products; all arrays of exponents of up to 4 elements over pairs of values; all pairs of 78 powers of a unit x 7 products and quotients; all trees (a op b) op (c op d) over 9 leaves and * / with powers -2, -1, 0, 0.5, 2, 3',
          'thorough': '415 operands, all ordered pairs x 8 operators; powers of powers of powers; arrays of exponents of up to 6 elements; the same trees over 14 leaves'}
ASSUMPTIONS = ['exponents that are nan, inf, complex or empty are not predicted']
BIN = {'*': operator.mul, '/': operator.truediv, '//': operator.floordiv, '**': operator.pow}
INPL = {'*=': operator.imul, '/=': operator.itruediv, '//=': operator.ifloordiv, '**=': operator.ipow}
LEAVES = ['2.0', 'pq.m', 'pq.s', 'X.vfoo', 'X.cu1', 'pq.constants.Bohr_radius', '3.0*pq.cm', 'pq.Quantity([1.0, 4.0], "m/s")', 'pq.percent',
          'pq.Quantity(2, "1/m")', 'np.array([2.0, 0.5])', 'pq.dimensionless', '0.5*X.vfoo**2', 'pq.N']
POWERS = ['(-2)', '(-1)', '0', '0.5', '2', '3']


def setup():
    global OPS, TREE
    OPS = {'quick': operands(mags=MAGS[:7]), 'thorough': operands(), 'shapes': shaped()}
    TREE = {'quick': LEAVES[:9], 'thorough': LEAVES}


def chunks(tier):
    n = 16 if tier == 'quick' else 48
    r = [[tier, 'pairs', i, n] for i in range(n)]
    m = 16 if tier == 'quick' else 48
    r += [['shapes', 'pairs', i, 16] for i in range(16)]
    r += [[tier, 'powers', i, 8] for i in range(8)]
    r += [[tier, 'fine', i, 4] for i in range(4)]
    return r + [[tier, 'trees', i, m] for i in range(m)]


def bare(o):
    """the number the operand stands for, as numpy would see it"""
    return o.new() if o.kind == 'plain' else np.array(o.mag)


def npop(f, *a):
    with np.errstate(all='ignore'):
        return attempt(f, *a)


def predict(A, B, sym, f):
    """(magnitude or Raised, units) or None if unpredicted or 'raise'"""
    if sym == '**':
        if B.units:
            return 'raise'
        e = B.mag
        if e.size == 0 or e.dtype.kind == 'c' or not np.isfinite(e).all():
            return None
        if e.min() != e.max():
            return 'raise'
        units = upow(A.units, e.ravel()[0].item())
    else:
        units = udiv(A.units, B.units) if sym != '*' else umul(A.units, B.units)
    m = npop(f, bare(A), bare(B))
    return 'raise' if raised(m) else (np.asarray(m), units)


def run(desc, rec):
    tier, kind, a, n = desc
    {'pairs': pairs, 'trees': trees, 'powers': powers, 'fine': lambda t, a, n, r: fine(a, n, r)}[kind](tier, a, n, rec)


def pairs(tier, a, n, rec):
    P = pq()
    ops = OPS[tier]
    for A in ops[a::n]:
        for B in ops:
            if A.kind == B.kind == 'plain':
                continue
            rec.case('%s ? %s' % (A, B))
            for sym, f in BIN.items():
                key = 'binary|%s %s %s' % (A, sym, B)
                x, y = A.new(), B.new()
                bx, by = obs(x), obs(y)
                r = attempt(f, x, y)
                prog = program(USER_SRC, 'print(repr(%s %s %s))' % (A, sym, B))
                w = predict(A, B, sym, f)
                rec.step()
                want_same(rec, key, x, bx, prog, 'left operand'); want_same(rec, key, y, by, prog, 'right operand')
                if w is None:
                    rec.note('exponents not predicted'); continue
                if w == 'raise':
                    want_raise(rec, key, r, prog); continue
                if want_q(rec, key, r, w[0], w[1], prog, 1e-6 if dt(w[0].dtype) in ('f4', 'c8') else 1e-14, 0.0, w[0].dtype if sym != '**' else None):
                    if isinstance(r, P.UnitQuantity):
                        rec.fail(key, 'the result is a unit: %s' % show(r), prog)
                    for o in (x, y):
                        if r.size and isinstance(o, np.ndarray) and np.shares_memory(np.asarray(r), np.asarray(o)):
                            rec.fail(key, 'the result shares memory with an operand', prog)
            if A.kind != 'plain':
                for (isym, f), sym in zip(INPL.items(), BIN):
                    key = 'inplace|%s %s %s' % (A, isym, B)
                    x, y = A.new(), B.new()
                    bx, by = obs(x), obs(y)
                    r = attempt(f, x, y)
                    prog = program(USER_SRC, 'q = p = %s; q %s %s; print(repr(q), repr(p))' % (A, isym, B))
                    rec.step()
                    want_same(rec, key, y, by, prog, 'right operand')
                    if raised(r):
                        want_same(rec, key, x, bx, prog, 'operand of a failed in-place operation')
                    if A.kind == 'unit':
                        want_raise(rec, key, r, prog); want_same(rec, key, x, bx, prog, 'unit'); continue
                    w = predict(A, B, sym, BIN[sym])
                    if w is None:
                        continue
                    if w != 'raise' and isym == '**=' and A.mag.dtype.kind in 'iu' and B.mag.dtype.kind == 'f':
                        # whether a float exponent of integers may stay in the integers is up to numpy
                        if not raised(r):
                            want_q(rec, key, r, w[0], w[1], prog)
                        continue
                    if w != 'raise':
                        m = npop(f, np.array(A.mag), bare(B))
                        w = 'raise' if raised(m) else (m, w[1])
                    if w == 'raise':
                        want_raise(rec, key, r, prog); continue
                    if want_q(rec, key, r, w[0], w[1], prog, 1e-6 if dt(w[0].dtype) in ('f4', 'c8') else 1e-14, 0.0, A.mag.dtype) and r is not x:
                        rec.fail(key, 'gives a new object', prog)
            rec.trace()


class Node:
    __slots__ = ('src', 'm', 'u', 'real')


def leaf(src):
    n = Node(); n.src = src
    v = Expr(src).new()
    n.real = v
    if isinstance(v, pq().Quantity):
        n.m, n.u = np.array(v.magnitude), units_of(v)
    else:
        n.m, n.u = np.asarray(v), ()
    return n


def node(sym, x, y):
    n = Node()
    n.src = '(%s %s %s)' % (x.src, sym, y.src if isinstance(y, Node) else y)
    f = BIN[sym]
    if isinstance(y, Node):
        n.m = np.asarray(npop(f, x.m, y.m)); n.u = umul(x.u, y.u) if sym == '*' else udiv(x.u, y.u)
        n.real = attempt(f, x.real, y.real)
    else:
        e = float(y.strip('()')) if '.' in y else int(y.strip('()'))
        n.m = npop(f, x.m, e)
        if raised(n.m):
            return None
        n.m = np.asarray(n.m); n.u = upow(x.u, e)
        n.real = attempt(f, x.real, e)
    return n


def agree(rec, n):
    rec.case(n.src); rec.trace()
    src = program(USER_SRC, 'print(repr(%s))' % n.src)
    if isinstance(n.real, (int, float, np.ndarray)) and not isinstance(n.real, pq().Quantity):
        rec.step(); return close(n.real, n.m)
    return want_q(rec, 'tree|%s' % n.src, n.real, n.m, n.u, src, 1e-13)


def trees(tier, a, n, rec):
    leaves = [leaf(s) for s in TREE[tier]]
    one = list(leaves)
    for x in leaves:
        for y in leaves:
            for s in ('*', '/'):
                one.append(node(s, x, y))
        for p in POWERS:
            one.append(node('**', x, p))
    one = [x for x in one if x is not None]
    if a == 0:
        for x in one[len(leaves):]:
            agree(rec, x)
    good = [x for x in one if not raised(x.real)]
    for x in good[a::n]:
        for y in good:
            for s in ('*', '/'):
                z = node(s, x, y)
                if not agree(rec, z):
                    continue
                # (a*b)/b has a's units and value again
                if s == '*' and (y.m != 0).all():
                    agree(rec, node('/', z, y))
        for p in POWERS:
            z = node('**', x, p)
            if z is not None:
                agree(rec, z)


EXPS = ['2', '3', '-1', '-2', '0.5', '1/3', '-1/3', '4/3', '0.125', '1/7', '0.1', '2.5', '10', '11', '-0.5', '1.0', '0', '0.0', 'True',
        'np.int64(3)', 'np.float64(1/3)', 'np.float64(0.125)', 'np.int8(-2)', 'np.array(3)', 'np.array([2])', 'np.array([0.125])', 'np.float32(0.5)',
        'np.uint8(2)', 'np.uint8(200)', 'np.float16(0.5)', 'np.bool_(True)', 'np.array([2], dtype="u2")', 'np.int8(100)',
        'pq.Quantity(3.0)', 'pq.Quantity(0.125)', 'pq.Quantity(2, dtype="u1")', 'pq.dimensionless', '(pq.m/pq.m)', 'pq.Quantity([2.0])']
BASES = ['pq.m', 'X.vfoo', 'X.cu3', 'pq.constants.Bohr_radius', 'pq.m/pq.s', 'pq.Quantity(8.0, "m")', 'pq.Quantity([1.0, 4.0], "kg*m/s**2")', 'pq.Quantity(64.0, pq.J**0.5)', 'pq.Quantity([2.0, 3.0, 4.0], "percent")', 'pq.Quantity([[1.0, 2.0], [3.0, 4.0]], "1/m")']


def expnum(e):
    v = Expr(e).new()
    return float(np.asarray(v.magnitude if isinstance(v, pq().Quantity) else v).ravel()[0])


def powers(tier, a, n, rec):
    P = pq()
    # powers of powers, by operator, ufunc and in place
    depth = 2 if tier == 'quick' else 3
    work = [(b, es) for b in BASES for k in range(1, depth + 1) for es in itertools.product(EXPS, repeat=k)]
    if tier == 'thorough':
        work = [(b, es) for b, es in work if len(es) < 3 or all(e in EXPS[:12] for e in es)]
    forms = [('**', lambda x, e: x ** e), ('np.power', np.power), ('**=', None)]
    for b, es in work[a::n]:
        for nm, f in forms:
            if f is None and Expr(b).new().base is None and isinstance(Expr(b).new(), P.UnitQuantity):
                continue
            x = Expr(b).new()
            if f is None:
                x = (x * 1.0).copy()
            m, u0, total = np.array(x.magnitude), units_of(x), 1.0
            key = 'power|%s|%s|%s' % (nm, b, '|'.join(es))
            rec.case(key)
            prog = program(USER_SRC, 'print(repr(%s))' % ('(' * len(es) + b + ''.join(')**(%s)' % e for e in es)))
            for e in es:
                v, c = Expr(e).new(), expnum(e)
                if f is None:
                    def g(x, e):
                        x **= e
                        return x
                    r = attempt(g, x, v)
                else:
                    r = attempt(f, x, v)
                before = m.shape
                m = np.asarray(npop(np.power, m, bare_exp(v))); total *= c; u = upow(u0, total)
                if f is None and m.shape != before:
                    want_raise(rec, key, r, prog); break
                if not want_q(rec, key, r, m, u, prog, 1e-6 if 'float32' in str(es) else 1e-12):
                    break
                x = r
            else:
                # the units of the power go on as those of a product do
                for sym, e in (('1/x', -1), ('x*x', 2), ('x*x*x*x', 4), ('x/x', 0), ('pq.s/x', -1)):
                    r = attempt(lambda: eval(sym, {'x': x, 'pq': P})); rec.step()
                    us = umul(upow(u0, total * e), (('second', 1),) if 's' in sym else ())
                    if raised(r) or units_of(r) != us or not close(r.magnitude, npop(np.power, m.astype(complex) if m.dtype.kind == 'c' else m.astype(float), float(e)) if e else m / m, 1e-6 if 'float' in str(es) else 1e-11):
                        rec.fail(key + '|' + sym, 'with x = %s, %s has the units %r, is %s' % (show(x), sym, us, show(r)), program(USER_SRC, 'x = %s' % ('(' * len(es) + b + ''.join(')**(%s)' % e for e in es)), 'print(repr(%s))' % sym)); break
            rec.trace()
    # exponents which differ anywhere are refused, those which agree everywhere are not
    vals = [(2.0, 3.0), (0.0, 1.0), (1.0, 1.0 + 1e-12), (0.5, -0.5), (2, 3), (1, -1), (2.0, np.nan)]
    shapes = [(2,), (3,), (4,), (2, 2), (1, 3)] + ([(5,), (2, 3)] if tier == 'thorough' else [])
    k = 0
    for v in vals:
        for shape in shapes:
            for pat in itertools.product((0, 1), repeat=int(np.prod(shape))):
                k += 1
                if k % n != a or (np.nan in v and 1 in pat and 0 not in pat):
                    continue
                e = np.array([v[i] for i in pat]).reshape(shape)
                for us in ('pq.m', 'pq.N/pq.s', 'pq.dimensionless', 'X.vfoo'):
                    for form in ('list', 'array', 'quantity'):
                        for nm, f in forms:
                            x = P.Quantity(np.full(shape, 2.0), Expr(us).new())
                            ex = e.tolist() if form == 'list' else e.copy() if form == 'array' else P.Quantity(e)
                            bx = obs(x)
                            if f is None:
                                def g(x, e):
                                    x **= e
                                    return x
                                r = attempt(g, x, ex)
                            else:
                                r = attempt(f, x, ex)
                            key = 'uniform|%s|%s|%s|%s' % (nm, form, e.tolist(), us)
                            rec.case(key)
                            prog = program(USER_SRC, 'print(repr(pq.Quantity(np.full(%r, 2.0), %s)**np.array(%r)))' % (shape, us, e.tolist()))
                            if len(set(pat)) > 1:
                                # dimensionless numbers have nothing that could go wrong, but are refused alike by the operators
                                if us != 'pq.dimensionless' or nm != 'np.power':
                                    want_raise(rec, key, r, prog)
                                    want_same(rec, key, x, bx, prog)
                                elif not raised(r):
                                    want_q(rec, key, r, 2.0**e, (), prog, 1e-12)
                            else:
                                want_q(rec, key, r, 2.0**e.astype(float), upow(units_of(Expr(us).new()), float(e.ravel()[0])), prog, 1e-12)
                            rec.trace()


FINE = [i / 16 for i in range(-34, 35) if i] + [1/64, -1/64, 1 + 2**-20, 2**-20, 2**-30, 1 - 2**-30, 0.47, -0.47, 1/3]
FINEOPS = {'*': operator.mul, '/': operator.truediv, '//': operator.floordiv, '*=': operator.imul, '/=': operator.itruediv, 'np.multiply': np.multiply, 'np.divide': np.divide}


def fine(a, n, rec):
    """powers of one unit which nearly cancel: only exponents which are exactly zero go"""
    P = pq()
    for us in ('pq.m', 'X.vfoo'):
        U = Expr(us).new(); name = units_of(U)[0][0]
        for i, p in enumerate(FINE):
            if i % n != a: continue
            for k in FINE:
                for nm, f in FINEOPS.items():
                    x, y = P.Quantity([4.7, 9.1], U**p * P.s), P.Quantity(2.3, U**k)
                    by = obs(y)
                    w = p + k if nm in ('*', '*=', 'np.multiply') else p - k
                    r = attempt(f, x, y)
                    key = 'fine|%s|%s**%r|%r' % (nm, us, p, k)
                    rec.case(key)
                    prog = program(USER_SRC, 'x = pq.Quantity([4.7, 9.1], (%s)**%r*pq.s); y = pq.Quantity(2.3, (%s)**%r)' % (us, p, us, k), 'x %s y' % nm + '; print(repr(x))' if '=' in nm else 'print(repr(%s))' % ('x %s y' % nm if 'np' not in nm else nm + '(x, y)'))
                    m = f(np.array([4.7, 9.1]), 2.3)
                    want_q(rec, key, r, m, umul((('second', 1),), ((name, w),) if w else ()), prog, 1e-14)
                    want_same(rec, key, y, by, prog)
                    rec.trace()


def bare_exp(v):
    return v.magnitude if isinstance(v, pq().Quantity) else v
