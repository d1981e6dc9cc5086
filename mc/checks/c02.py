"""C02: + - % and comparisons over all ordered pairs of operands, in all forms."""
import operator
import numpy as np
from ..alphabet import *
from ..expect import *

RULE = ('every ordered pair of operands (22 units x magnitudes, unit objects, constants, plain values) x + - % += -= %= < <= > >= == !=; '
        'oracle: numpy on the magnitudes after the model converted the right operand, and the dimension test of the model')
BOUNDS = {'quick': '22 units x 8 magnitudes + 16 unit objects and constants + 25 plain values (220 operands, 48k ordered pairs) x 12 operators; 5 units x 23 shapes and layouts and 30 plain values (149 operands) with each other x 12 operators; all pairs of dtypes (half, single, double precision and integers) x unit scales at the limits of their range and precision',
          'thorough': '22 units x 17 magnitudes + 16 unit objects + 25 plain values (415 operands, 172k ordered pairs) x 12 operators'}
ASSUMPTIONS = ['comparisons of values which differ by less than 1e-12 relatively are only decided for equal units and decimal multiples',
               'a plain zero may be taken for a zero of any unit (NumPy scalars on the left do)']
ARITH = {'+': operator.add, '-': operator.sub, '%': operator.mod}
INPL = {'+=': operator.iadd, '-=': operator.isub, '%=': operator.imod}
CMP = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}
SIMPLE = {(), (('meter', 1),), (('centimeter', 1),), (('percent', 1),)}


def setup():
    global OPS
    OPS = {'quick': operands(mags=MAGS[:8]), 'thorough': operands(), 'shapes': shaped()}
    for o in OPS['thorough'] + OPS['shapes']:
        o.dims


def chunks(tier):
    return [[tier, i, 16 if tier == 'quick' else 48] for i in range(16 if tier == 'quick' else 48)] + [['shapes', i, 16] for i in range(16)] + [[tier, 'precision', i] for i in range(4)]


def conv(o, to):
    """magnitude of o expressed in the units of the operand `to`"""
    f = o.scale / to.scale
    if o.units == to.units:
        return o.mag
    return o.mag.astype(np.result_type(o.mag.dtype, 'f8')) * f


def npop(f, *a):
    with np.errstate(all='ignore'):
        return attempt(f, *a)


PREC = [('pq.mm', 'pq.km'), ('pq.km', 'pq.mm'), ('pq.nm', 'pq.m'), ('pq.m', 'pq.nm'), ('pq.percent', 'pq.dimensionless'), ('pq.ms', 'pq.hour'), ('pq.hour', 'pq.ms'), ('pq.m', 'pq.m'), ('pq.inch', 'pq.ft'), ('pq.fs', 'pq.year'), ('pq.angstrom', 'pq.au'), ('pq.m', 'pq.pc')]
PDT = ['f2', 'f4', 'f8', 'g', 'i1', 'i2', 'i4', 'i8', 'u1', 'u8', '?', '>f4', 'c8', 'c16']


def precision(rec, part):
    """operands of all pairs of types whose value in the units of the left one is in the range of the common type"""
    P = pq()
    for j, (sa, sb) in enumerate(PREC):
        if j % 4 != part:
            continue
        A, B = Expr(sa), Expr(sb)
        fa, da = unit_phys(A.new()); fb, db = unit_phys(B.new())
        assert da == db
        f = fb / fa
        for ta in PDT:
            for tb in PDT:
                cplx = 'c' in ta or 'c' in tb
                for vb in (1, 2, 100, 0.125, (1, 2)):
                    for ratio in (0.5, 1, 2, 0.001, 1000):
                        va = tuple(v * f * ratio for v in vb) if isinstance(vb, tuple) else vb * f * ratio
                        a, b = (represent(v, t) for v, t in ((va, ta), (vb, tb)))
                        if a is None or b is None: continue
                        w = np.result_type(ta, tb, 'f4' if np.dtype(ta).kind in 'iub' and np.dtype(tb).kind in 'iub' else tb)
                        if sa != sb and np.dtype(tb).kind in 'iub' and (np.dtype(ta).kind in 'iub' or np.dtype(ta).itemsize < 8): w = np.result_type(w, tb, 'f2')
                        fw = np.finfo(w)
                        eb = np.asarray(b, 'g' if not cplx else 'c16') * f; ea = np.asarray(a, 'g' if not cplx else 'c16')
                        big = np.abs(np.array([ea, eb]))
                        if big.max() * 2 > fw.max or big.min() < fw.tiny: continue
                        tol = 16 * max(float(fw.eps), 2.3e-16)
                        for ops, kind in ((CMP, 'c'), (ARITH, 'a')):
                            for sym, g in ops.items():
                                if cplx and sym not in ('==', '!=', '+', '-'): continue
                                x, y = P.Quantity(a, A.new()), P.Quantity(b, B.new())
                                key = 'precision|%s %s|%s %s %s|%r %r' % (ta, sa, sym, tb, sb, va, vb)
                                prog = program(USER_SRC, 'x, y = pq.Quantity(np.array(%r, %r), %s), pq.Quantity(np.array(%r, %r), %s)' % (np.asarray(a).tolist(), ta, sa, np.asarray(b).tolist(), tb, sb), 'print(repr(x %s y))' % sym)
                                r = attempt(g, x, y); rec.step(); rec.case(key)
                                if raised(r):
                                    # truth values have no difference
                                    if sym == '-' and ta == tb == '?': continue
                                    if sym == '%' and '?' in (ta, tb): continue
                                    rec.fail(key, 'it %r' % r, prog); continue
                                if kind == 'c':
                                    exact = sa == sb
                                    m = g(ea, eb); sure = ~near(ea, eb, tol) | (exact & (ta == tb))
                                    rr = np.asarray(r)
                                    if rr.dtype != bool or not ((rr == m) | ~sure).all(): rec.fail(key, 'expected %r, got %s' % (m, show(r)), prog)
                                elif sym == '%':
                                    if units_of(r) != A_units(A) or not (np.abs(np.asarray(r.magnitude)) <= np.abs(eb) * (1 + tol)).all(): rec.fail(key, 'a remainder of %r by %r is %s' % (ea, eb, show(r)), prog)
                                elif not (ta == tb == '?'):
                                    if (np.dtype(ta).kind in 'u' or np.dtype(tb).kind in 'u') and sa == sb: continue   # wraps around like numpy
                                    if np.dtype(ta).kind in 'iub' and np.dtype(tb).kind in 'iub' and sa == sb: continue
                                    want_q(rec, key, r, g(ea, eb), A_units(A), prog, tol, tol * float(big.max()))
                        rec.trace()


def A_units(A):
    return units_of(1.0 * A.new())


def represent(v, t):
    """v as an array of the type if it can hold it"""
    v = np.asarray(v); k = np.dtype(t).kind
    if k == 'b': return v.astype(bool) if np.isin(v, (0, 1)).all() else None
    if k in 'iu':
        i = np.iinfo(t); w = np.rint(v)
        return w.astype(t) if (np.abs(w - v) <= 1e-9 * np.abs(v)).all() and (w >= i.min).all() and (w <= min(i.max, 2**62)).all() else None
    fi = np.finfo(t)
    return v.astype(t) if (np.abs(v) <= fi.max).all() and (np.abs(v) >= fi.tiny).all() else None


def run(desc, rec):
    if desc[1] == 'precision':
        return precision(rec, desc[2])
    tier, a, n = desc
    ops = OPS[tier]
    P = pq()
    for A in ops[a::n]:
        for B in ops:
            if A.kind == B.kind == 'plain':
                continue
            rec.case('%s ? %s' % (A, B))
            plain = A.kind == 'plain' or B.kind == 'plain'
            same = A.dims == B.dims
            small = any('f4' in s or 'float32' in s for s in (A.magsrc, B.magsrc))
            # rounding of the less precise operand counts only if the result is no more precise
            tol = 2e-12
            if small:
                m = npop(operator.add, A._mag.new() if A.kind == 'plain' else A.mag, B._mag.new() if B.kind == 'plain' else B.mag)
                tol = max(tol_for(A.mag.dtype), tol_for(B.mag.dtype)) if raised(m) else tol_for(np.asarray(m).dtype)
            # ------------------------------------------------ arithmetic
            for sym, f in ARITH.items():
                key = 'arith|%s %s %s' % (A, sym, B)
                x, y = A.new(), B.new()
                bx, by = obs(x), obs(y)
                r = attempt(f, x, y)
                prog = program(USER_SRC, 'print(repr(%s %s %s))' % (A, sym, B))
                check_arith(rec, key, r, A, B, sym, f, same, tol, prog)
                want_same(rec, key, x, bx, prog, 'left operand'); want_same(rec, key, y, by, prog, 'right operand')
                if not raised(r) and isinstance(r, np.ndarray) and r.size:
                    for o in (x, y):
                        if isinstance(o, np.ndarray) and np.shares_memory(np.asarray(r), np.asarray(o)):
                            rec.fail(key, 'the result shares memory with an operand', prog)
            # ------------------------------------------------ in place
            if A.kind != 'plain':
                for sym, f in INPL.items():
                    key = 'inplace|%s %s %s' % (A, sym, B)
                    x, y = A.new(), B.new()
                    bx, by = obs(x), obs(y)
                    r = attempt(f, x, y)
                    prog = program(USER_SRC, 'q = %s; p = q; q %s %s; print(repr(q), repr(p))' % (A, sym, B))
                    rec.step()
                    want_same(rec, key, y, by, prog, 'right operand')
                    if A.kind == 'unit':
                        want_raise(rec, key, r, prog); want_same(rec, key, x, bx, prog, 'unit'); continue
                    if raised(r):
                        want_same(rec, key, x, bx, prog, 'operand of a failed in-place operation')
                    if not same:
                        if not (B.kind == 'plain' and not B.mag.any()):
                            want_raise(rec, key, r, prog)
                        continue
                    w = A.mag.copy()
                    m = npop(f, w, conv(B, A))
                    if raised(m):
                        want_raise(rec, key, r, prog)
                        continue
                    if raised(r):
                        # converting the other operand gives floats, which integers can't hold
                        if not (A.mag.dtype.kind in 'iub' and B.mag.dtype.kind in 'fciub' and B.units != A.units):
                            rec.fail(key, 'expected %r %s, but it %r' % (m, A.units, r), prog)
                        continue
                    if r is not x:
                        rec.fail(key, 'gives a new object', prog); continue
                    if sym == '%=':
                        modulo(rec, key, x, m, A.mag, conv(B, A), A.units, tol, prog)
                    else:
                        want_q(rec, key, x, m, A.units, prog, tol, amp(A.mag, conv(B, A), tol), A.mag.dtype)
            # ------------------------------------------------ comparison
            for sym, f in CMP.items():
                key = 'compare|%s %s %s' % (A, sym, B)
                x, y = A.new(), B.new()
                bx, by = obs(x), obs(y)
                r = attempt(f, x, y)
                prog = program(USER_SRC, 'print(repr(%s %s %s))' % (A, sym, B))
                rec.step()
                want_same(rec, key, x, bx, prog, 'left operand'); want_same(rec, key, y, by, prog, 'right operand')
                if plain:
                    m = npop(f, A.mag, B.mag); sure = True
                elif same:
                    cb = conv(B, A)
                    m = npop(f, A.mag, cb)
                    if raised(m):
                        sure = True
                    else:
                        sure = A.units == B.units or (A.units in SIMPLE and B.units in SIMPLE and not small) or ~near(A.mag, cb, 1e-5 if small else 1e-11)
                elif sym in ('==', '!='):
                    if raised(npop(np.broadcast, A.mag, B.mag)):
                        if not raised(r) and (np.asarray(r).dtype != bool or not (np.asarray(r) == (sym == '!=')).all()):
                            rec.fail(key, 'different dimensions: expected %s, got %s' % (sym == '!=', show(r)), prog)
                        rec.outcome('shape'); continue
                    if raised(r) or isinstance(r, P.Quantity) or not np.asarray(r).dtype == bool or not (np.asarray(r) == (sym == '!=')).all() or np.shape(r) != np.broadcast(A.mag, B.mag).shape:
                        rec.fail(key, 'different dimensions: expected %s, got %s' % (sym == '!=', show(r)), prog)
                    continue
                else:
                    want_raise(rec, key, r, prog); continue
                if raised(m):
                    want_raise(rec, key, r, prog); continue
                if raised(r):
                    rec.fail(key, 'expected %r, but it %r' % (m, r), prog); continue
                rr = np.asarray(r)
                if isinstance(r, P.Quantity) and units_of(r) != () or rr.dtype != bool or rr.shape != np.shape(m) or not ((rr == m) | ~np.asarray(sure)).all():
                    rec.fail(key, 'expected %r, got %s' % (m, show(r)), prog)
                rec.outcome((sym, rr.tobytes(), rr.shape))
            rec.trace()


def near(a, b, rtol):
    with np.errstate(all='ignore'):
        return np.isclose(a, b, rtol=rtol, atol=0)


def amp(a, b, tol):
    """absolute error admitted for cancellation"""
    with np.errstate(all='ignore'):
        m = [np.abs(x[np.isfinite(x)]).max() for x in (np.asarray(a), np.asarray(b)) if np.isfinite(x).any()]
    return tol * max(m, default=0.0)


def modulo(rec, key, got, m, a, b, units, tol, prog):
    P = pq()
    if isinstance(got, P.Quantity) and units_of(got) == units:
        g = np.asarray(got.magnitude)
        if g.shape == np.shape(m):
            with np.errstate(all='ignore'):
                d = np.abs(g - m)
                # an error of the divisor counts once per whole quotient
                e = max(1e-9, 4 * tol) * np.abs(b) + 4 * tol * np.abs(a)
                ok = (g == m) | (np.isnan(g) & np.isnan(m)) | (d <= e)
                # a remainder of nearly zero may come out as nearly the divisor and the other way round
                edge = np.minimum(np.abs(m), np.abs(np.abs(m) - np.abs(b))) <= e
                ok |= edge & (np.abs(d - np.abs(b)) <= e) & (np.sign(np.asarray(b) * 1.0) * g >= -e)
            rec.step()
            if not np.all(ok):
                rec.fail(key, 'expected %r %s, got %s' % (m, units, show(got)), prog)
            return
    want_q(rec, key, got, m, units, prog, tol)


def check_arith(rec, key, r, A, B, sym, f, same, tol, prog):
    if not same:
        zero = [o for o in (A, B) if o.kind == 'plain' and not o.mag.any()]
        if zero and not raised(r):
            # a plain zero as a zero of the other operand's units
            o = B if zero[0] is A else A
            m = npop(f, A.mag, B.mag)
            want_q(rec, key, r, m, o.units, prog, tol); return
        want_raise(rec, key, r, prog); return
    # the left operand's units; a plain number on the left has none to speak of
    cands = [A] if A.kind != 'plain' else [B, A]
    for o in cands:
        units = o.units
        if isinstance(r, pq().Quantity) and units_of(r) == units or o is cands[-1]:
            break
    a, b = conv(A, o), conv(B, o)
    m = npop(f, a, b)
    if raised(m):
        want_raise(rec, key, r, prog); return
    if type(r) is not Raised and isinstance(r, pq().UnitQuantity):
        rec.fail(key, 'the result is a unit: %s' % show(r), prog); return
    if raised(r) and isinstance(r.exc, ValueError) and A.magsrc.startswith(('np.float', 'np.int')) and A.kind == 'plain' and B.units:
        # numpy calls the ufunc, which wants identical units
        rec.step(); rec.fail('numpy-scalar-left|%s %s %s' % (A, sym, B), 'expected %r %s, but it %r' % (m, units, r), prog); return
    if sym == '%':
        modulo(rec, key, r, m, a, b, units, tol, prog)
    else:
        want_q(rec, key, r, m, units, prog, tol, amp(a, b, tol))
