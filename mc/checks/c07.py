"""C07: reductions and array methods against NumPy on the magnitudes and a table of unit rules."""
import itertools
import numpy as np
from ..alphabet import *
from ..expect import *

RULE = ('every method (and the NumPy function which forwards to it) x every array of the alphabet (shapes, layouts, dtypes, all not-a-number '
        'patterns, all small value patterns) x every axis and option x every unit x without, with a quantity and with a plain output array; '
        'the numbers must be those of NumPy on the magnitudes, the units those of the rule; operands observed before and after')
BOUNDS = {'quick': 'arrays up to 2x3 and 2x2x2 (and some of 9000 elements), 6 dtypes, all nan patterns of 3 and 2x2 elements, all patterns over 3 values of 3 elements, 8 units, every argument unit pair of 8x8; limits of clip in every pair of dtypes',
          'thorough': 'adds all nan patterns of 2x3 elements, all patterns over 4 values of 2x2 elements, 4 more dtypes, 14 units, every argument unit pair of 14x14'}
ASSUMPTIONS = ['NumPy reduces plain arrays correctly (it is the oracle for the numbers)']

UNITS = ['m', 'dimensionless', 'X.vfoo', 'X.cu3', (('kg', 1), ('m', 1), ('s', -2)), 'ft', 'percent', (('m', 0.5),)]
UNITS2 = UNITS + ['radian', 'X.cu2', 'degC', 'pq.constants.Bohr_radius', (('m', -2),), 's']

BASE = ['np.array(2.5)', 'np.array([3.0, -1.5, 2.0])', 'np.array([[1.0, -2.0, 4.0], [3.5, 0.5, -1.0]])', 'np.array([5.0])', 'np.zeros((0,))',
        'np.zeros((2, 0))', 'np.arange(8.0).reshape(2, 2, 2) - 3', 'np.asfortranarray([[1.0, -2.0, 4.0], [3.5, 0.5, -1.0]])',
        'np.arange(12.0).reshape(3, 4)[1:, ::2]', 'np.arange(7.0)[::-3]', 'np.array([nan, 1.0, -inf, inf])', 'np.array([[2.0], [1.0]])',
        'np.array([1e200, 1e200, -1e200])', 'np.array([1.25, 2.5, 3.5, -0.5, 123.456])', 'np.array([[1.0, 2.0], [2.0, 1.0]])',
        'np.arange(40.0)*7 % 5', '(np.arange(120.0)*7 % 3).reshape(3, 40)', 'np.sin(np.arange(9000.0))', 'np.cos(np.arange(6000.0)).reshape(3, 2000)']     # many ties: stable and unstable orders differ
DT = ['f4', 'i4', 'u1', '?', 'c16', '>f8']
DT2 = ['i8', 'f2', 'g', '>i4']


def data(tier):
    r = list(BASE)
    for d in DT + (DT2 if tier == 'thorough' else []):
        r += ["np.array([1, 0, 1], dtype=%r)" % d] if d == '?' else ["np.array([3, 1, 2], dtype=%r)" % d, "np.array([[1, 7, 2], [5, 4, 9]], dtype=%r)" % d]
    nans = lambda shape, vals: ['np.array(%s).reshape(%r)' % ([('nan' if b else v) for b, v in zip(bits, vals)], shape)
                                for bits in itertools.product((0, 1), repeat=len(vals)) if any(bits)]
    fix = lambda l: [s.replace("'nan'", 'nan') for s in l]
    r += fix(nans((3,), [2.0, -1.0, 4.0])) + fix(nans((2, 2), [2.0, -1.0, 4.0, 0.5]))
    if tier == 'thorough':
        r += fix(nans((2, 3), [2.0, -1.0, 4.0, 0.5, 7.0, 3.0]))
    vals = [0.0, 2.0, -1.5]
    r += ['np.array(%r)' % (list(v),) for v in itertools.product(vals, repeat=3)]
    if tier == 'thorough':
        r += ['np.array(%r).reshape(2, 2)' % (list(v),) for v in itertools.product(vals + [1e-3], repeat=4)]
    return r


# method -> (rule, extra option strings besides the axis, forms: m = method, f = NumPy function, n = np.<name> as the oracle)
AX = ['', 'axis=0', 'axis=1', 'axis=-1', 'axis=(0, 1)', 'axis=2', 'axis=5', 'axis=None', 'axis=-2', 'axis=-3', 'axis=(-1, 0)', 'axis=(1, 2)', 'axis=(0, 2)', 'axis=(0, 1, 2)', 'axis=()', 'axis=(0,)', 'axis=(1, 1)']
RED = {
    'sum': ('same', ['', "dtype='f4'", "dtype='c16'"], 'mf'), 'mean': ('same', ['', "dtype='f4'"], 'mf'), 'max': ('same', [''], 'mf'), 'min': ('same', [''], 'mf'),
    'std': ('same', ['', 'ddof=1', "dtype='f4'", 'ddof=2'], 'mf'), 'var': ('sq', ['', 'ddof=1', "dtype='f4'", 'ddof=0.5'], 'mf'), 'prod': ('count', ['', "dtype='f4'"], 'mf'),
    'ptp': ('same', [''], 'mn'), 'cumsum': ('same', ['', "dtype='f4'"], 'mf'), 'cumprod': ('dimless', ['', "dtype='c16'"], 'mf'),
    'nansum': ('same', ['', "dtype='c16'"], 'mfn'), 'nanmean': ('same', ['', "dtype='f4'"], 'mfn'), 'nanmax': ('same', [''], 'mfn'), 'nanmin': ('same', [''], 'mfn'),
    'nanstd': ('same', ['', 'ddof=1', "dtype='f4'", 'ddof=2'], 'mn'),
    'argmax': ('none', [''], 'mf'), 'argmin': ('none', [''], 'mf'), 'nanargmax': ('none', [''], 'mn'), 'nanargmin': ('none', [''], 'mn'),
    'argsort': ('none', ['', "kind='stable'", "kind='heapsort'"], 'm'), 'sort': ('same', [''], 'f'), 'all': ('none', [''], 'm'), 'any': ('none', [''], 'm'),
}
NOTUPLE = {'argmax', 'argmin', 'argsort', 'sort', 'cumsum', 'cumprod', 'nanargmax', 'nanargmin'}
OUT = {'sum', 'mean', 'max', 'min', 'std', 'var', 'prod', 'ptp', 'cumsum', 'cumprod', 'nansum', 'nanmean', 'nanmax', 'nanmin', 'nanstd', 'round', 'clip', 'trace'}
POS = {'sum': 'axis, dtype', 'mean': 'axis, dtype', 'max': 'axis', 'min': 'axis', 'cumsum': 'axis, dtype', 'prod': 'axis, dtype', 'argmax': 'axis', 'argsort': 'axis'}


def calls(tier):
    """(method, form, call text with A the array, reference text with A the magnitude, rule)"""
    out = []
    for m, (rule, opts, forms) in RED.items():
        for ax in AX:
            if '(' in ax and m in NOTUPLE:
                continue
            if ax and m in ('all', 'any') and ax != 'axis=0':
                continue
            for o in opts:
                a = ', '.join(x for x in (ax, o) if x)
                ref = 'np.%s(%s)' % (m, ', '.join(x for x in ('A', ax, o) if x)) if 'n' in forms or m == 'sort' else 'A.%s(%s)' % (m, a)
                if 'm' in forms:
                    out.append((m, 'm', 'A.%s(%s)' % (m, a), ref, rule, ax))
                if 'f' in forms:
                    out.append((m, 'f', 'np.%s(%s)' % (m, ', '.join(x for x in ('A', a) if x)), ref, rule, ax))
            if m in POS and ax and 'm' in forms:
                v = ax.split('=')[1]
                out.append((m, 'm', 'A.%s(%s)' % (m, v), 'A.%s(%s)' % (m, v), rule, ax))
                if 'dtype' in POS[m]:
                    out.append((m, 'm', "A.%s(%s, 'f4')" % (m, v), "A.%s(%s, 'f4')" % (m, v), rule, ax))
    for d in ('', '0', '1', 'decimals=2', '-1', '-2', '3'):
        out.append(('round', 'm', 'A.round(%s)' % d, 'A.round(%s)' % d, 'same', ''))
        for f in ('round', 'around'):
            out.append(('round', 'f', 'np.%s(%s)' % (f, ', '.join(x for x in ('A', d) if x)), 'A.round(%s)' % d, 'same', ''))
        if 'dec' not in d:
            out.append(('round', 'b', 'round(%s)' % ', '.join(x for x in ('A', d) if x), 'A.round(%s)' % d, 'same', ''))
    for a in ('', '1', '-1', 'offset=1, axis1=1, axis2=0', '0, 0, 2', "dtype='f4'"):
        out.append(('trace', 'm', 'A.trace(%s)' % a, 'A.trace(%s)' % a, 'same', ''))
        out.append(('trace', 'f', 'np.trace(%s)' % ', '.join(x for x in ('A', a) if x), 'A.trace(%s)' % a, 'same', ''))
    out.append(('nonzero', 'm', 'A.nonzero()', 'A.nonzero()', 'none', ''))
    out.append(('nonzero', 'f', 'np.nonzero(A)', 'A.nonzero()', 'none', ''))
    for k in ('0', '1', '-1', '1, axis=0'):
        out.append(('argpartition', 'm', 'A.argpartition(%s)' % k, 'A.argpartition(%s)' % k, 'none', ''))
    for f in ('sum', 'prod', 'cumsum', 'cumprod'):
        for ax in ('', 'axis=0', '1', "0, 'f4'"):
            out.append((f, 'p', 'pq.%s(%s)' % (f, ', '.join(x for x in ('A', ax) if x)), 'A.%s(%s)' % (f, ax), RED[f][0], 'axis=' + ax[-1] if ax in ('axis=0', '1') else ('axis=0' if ax else '')))
    for ax in ('', '0', '-1'):
        out.append(('nansum', 'p', 'pq.nansum(%s)' % ', '.join(x for x in ('A', ax) if x), 'np.nansum(%s)' % ', '.join(x for x in ('A', ax) if x), 'same', ''))
    return out


def setup():
    define_user_units()
    global CALLS, US, US2
    CALLS = {t: calls(t) for t in ('quick', 'thorough')}
    def mk(l):
        return [U() if u == 'dimensionless' else mk_units(u)[0] for u in l]
    US, US2 = mk(UNITS), mk(UNITS2)
    for u in US2:
        u.model()


def chunks(tier):
    n = len(data(tier))
    k = 4 if tier == 'quick' else 5
    r = [['red', i, min(i + k, n)] for i in range(0, n, k)]
    for m in ('clip', 'searchsorted', 'clipnone', 'inplace', 'unit', 'sortin'):
        for i in range(len(US if tier == 'quick' else US2)):
            r.append([m, i, 0])
    return r + [['cliptypes', i, 0] for i in range(4)]


def run_cliptypes(rec, part, tier):
    """limits of other types and units, whose values in the units of the quantity are in the range of the common type"""
    P = pq()
    n = 0
    for uq, ul, f in (('pq.mm', 'pq.m', 1e3), ('pq.mm', 'pq.km', 1e6), ('pq.m', 'pq.mm', 1e-3), ('pq.m', 'pq.m', 1.0), ('pq.percent', 'pq.dimensionless', 100.0)):
        for tq, tl, th in itertools.product(('f2', 'f4', 'f8', 'i4', 'i8'), repeat=3):
            n += 1
            if n % 4 != part: continue
            for lo, hi in ((1.0, 2.0), (2.0, 100.0), (-4.0, 0.5)):
                ok = True; arrs = []
                v = np.array([-8.0, 0.25, 1.5, 3.0, 300.0]) * f * 4
                for x, t in ((v, tq), (lo, tl), (hi, th)):
                    x = np.asarray(x)
                    if t[0] == 'i': ok &= bool((np.rint(x) == x).all() and np.abs(x).max() < 2**31)
                    else: ok &= bool(np.abs(x).max() < float(np.finfo(t).max) and np.abs(x[x != 0]).min() > float(np.finfo(t).tiny))
                    arrs.append(x.astype(t) if ok else None)
                if not ok: continue
                V, L, H = arrs
                if any(abs(x * f) > float(np.finfo(np.result_type(tq, t, 'f2')).max) for x, t in ((lo, tl), (hi, th))): continue
                q = P.Quantity(V, Expr(uq).new())
                for form in ('q.clip(l, h)', 'np.clip(q, l, h)', 'q.clip(l)', 'q.clip(max=h)'):
                    key = 'cliptypes|%s %s|%s %s|%s %s|%s' % (uq, tq, ul, tl, th, (lo, hi), form)
                    prog = program('q = pq.Quantity(np.array(%r, %r), %s); l = pq.Quantity(np.array(%r, %r), %s); h = pq.Quantity(np.array(%r, %r), %s)' % (V.tolist(), tq, uq, lo, tl, ul, hi, th, ul), 'print(repr(%s))' % form)
                    r = attempt(ev, form, q=q, l=P.Quantity(L, Expr(ul).new()), h=P.Quantity(H, Expr(ul).new())); rec.step(); rec.case(key)
                    want = V.astype(float)
                    if form != 'q.clip(max=h)': want = np.maximum(want, lo * f)
                    if form != 'q.clip(l)': want = np.minimum(want, hi * f)
                    eps = max([float(np.finfo(t).eps) for t in (tq, tl, th) if t[0] == 'f'] + [2.3e-16])
                    want_q(rec, key, r, want, units_of(q), prog, 16 * eps)
                rec.trace()


_code = {}
def ev(text, **kw):
    c = _code.get(text)
    if c is None:
        c = _code[text] = compile(text, text, 'eval')
    return eval(c, glob(), kw)


def count(mag, ax):
    if not ax:
        return mag.size
    a = ast_axis(ax)
    if a is None:
        return mag.size
    if isinstance(a, tuple):
        n = 1
        for i in a:
            n *= mag.shape[i]
        return n
    return mag.shape[a]

def ast_axis(ax):
    return eval(ax.split('=')[1])


def expect_units(rule, u, mag, ax):
    if rule == 'same': return u
    if rule == 'sq': return upow(u, 2)
    if rule == 'none' or rule == 'dimless': return ()
    return upow(u, count(mag, ax))


def compare(rec, key, src, got, ref, units, rule):
    """got against NumPy's answer"""
    if raised(ref):
        want_raise(rec, key, got, src); return False
    if rule == 'none':
        rec.step()
        if raised(got):
            rec.fail(key, 'expected %s, but %r' % (show(ref), got), src); return False
        gs = got if isinstance(got, tuple) else (got,)
        rs = ref if isinstance(ref, tuple) else (ref,)
        if len(gs) != len(rs) or type(got) is tuple != type(ref) is tuple:
            rec.fail(key, 'expected %s, got %s' % (show(ref), show(got)), src); return False
        for g, r in zip(gs, rs):
            if units_of(g):
                rec.fail(key, 'indices with units %s: %s' % (units_of(g), show(got)), src); return False
            g = np.asarray(g); r = np.asarray(r)
            if g.shape != r.shape or g.dtype.kind != r.dtype.kind or not np.array_equal(g, r):
                rec.fail(key, 'expected %s, got %s' % (show(ref), show(got)), src); return False
        rec.outcome(('none', np.asarray(gs[0]).shape))
        return True
    r = np.asarray(ref)
    return want_q(rec, key, got, r, units, src, rtol=2e-12 if r.dtype.itemsize > 4 or r.dtype.kind not in 'fc' else 2e-6, dtype=r.dtype)


def run_red(rec, lo, hi, tier):
    P = pq()
    units = US if tier == 'quick' else US2
    D = data(tier)
    kg = P.kg
    for di in range(lo, hi):
        magsrc = D[di]
        main = di < len(BASE)
        for ui, u in enumerate(units):
            if not main and ui not in (0, 1, 3):
                continue
            mag0 = ev(magsrc)
            q = P.Quantity(ev(magsrc), u.obj())
            before = obs(q)
            rec.case('%s %s' % (magsrc, u))
            for m, form, text, ref, rule, ax in CALLS[tier]:
                if not main and form == 'f' and m not in ('sort',) and ui:
                    continue
                r = attempt(ev, ref, A=mag0)
                if rule == 'dimless' and u.units:
                    r = Raised(ValueError())
                key = '%s|%s|%s|%s' % (m, text, magsrc, u)
                src = None
                mk = lambda t=text: program(USER_SRC, 'A = pq.Quantity(%s, %s)' % (magsrc, u.src), 'print(repr(%s))' % t)
                if isinstance(mag0, np.ndarray) and form != 'b' or form == 'b':
                    got = attempt(ev, text, A=q)
                try:
                    w = None if raised(r) else expect_units(rule, u.units, mag0, ax)
                except IndexError:
                    continue
                compare(rec, key, mk(), got, r, w, rule)
                if m in OUT and form == 'm' and (main and ui in (0, 1, 3) or (di % 5 == 0 or 'dtype' in magsrc) and ui == 0):
                    run_out(rec, u, magsrc, mag0, q, before, m, text, ref, rule, r, w)
                if obs(q) != before:
                    rec.fail('changed|' + key, 'the quantity was changed from %r to %r' % (before, obs(q)), mk())
                    q = P.Quantity(ev(magsrc), u.obj())
            rec.trace()


def add_out(text, name='OUT'):
    return text[:-1] + ('' if text[-2] == '(' else ', ') + 'out=%s)' % name


def run_out(rec, u, magsrc, mag0, q, before, m, text, ref, rule, r, w):
    """with an output argument"""
    P = pq()
    t = add_out(text)
    for osrc in ('m/kg', 'dimensionless', 'same', 'plain', 'shape'):
        if m in ('cumsum', 'cumprod') and (osrc == 'shape' or raised(r)):
            continue    # NumPy itself crashes on some output arrays of another shape
        if raised(r):
            shape, dtype = (), 'f8'
        else:
            shape, dtype = np.asarray(r).shape, np.asarray(r).dtype
        if osrc == 'shape':
            shape = shape + (2,) if len(shape) < 2 else (3,)
        o = np.zeros(shape, dtype)
        ou = {'m/kg': 'm/kg', 'dimensionless': '', 'same': u.obj(), 'plain': None, 'shape': 'm/kg'}[osrc]
        out = o if osrc == 'plain' else P.Quantity(o, ou)
        b = obs(out)
        key = 'out|%s|%s|%s|%s|%s' % (m, osrc, t, magsrc, u)
        src = program(USER_SRC, 'A = pq.Quantity(%s, %s)' % (magsrc, u.src), 'OUT = np.zeros(%r, %r)' % (shape, np.dtype(dtype).str),
                      '' if osrc == 'plain' else 'OUT = pq.Quantity(OUT, %s)' % (u.src if osrc == 'same' else repr(ou)),
                      'print(repr(%s)); print(repr(OUT))' % t)
        # what NumPy does with such an output array
        ro = np.zeros(shape, dtype)
        rr = attempt(ev, add_out(ref), A=mag0, OUT=ro)
        got = attempt(ev, t, A=q, OUT=out)
        rec.step()
        if raised(r) and not raised(rr) and not (rule == 'dimless' and u.units):
            continue    # NumPy finds a loop for the type of the output array only
        if raised(r) or raised(rr):
            want_raise(rec, key, got, src)
            if osrc != 'plain' and not raised(r):
                want_same(rec, key, out, b, src, 'output argument of a refused call')
            elif raised(r) and osrc != 'plain' and units_of(out) != units_of(P.Quantity(1, ou)):
                rec.fail(key, 'units of the output argument of a refused call were changed', src)
            continue
        if osrc == 'plain':
            if not raised(got) and (w or not close(np.asarray(got), r, 2e-6)):
                rec.fail(key, 'a plain output array holds a result with units %s: %s' % (w, show(got)), src)
            continue
        tol = 2e-6 if np.asarray(r).dtype.itemsize <= 4 else 2e-12
        if want_q(rec, key, got, ro, w, src, rtol=tol):
            want_q(rec, key, out, ro, w, src, rtol=tol, ctx='output argument: ')
            if got is not out:
                rec.fail(key, 'the result is not the output argument', src)
        if obs(q) != before:
            rec.fail(key, 'the quantity was changed to %s' % show(q), src)


CLIPD = ['np.array([1.0, -2.0, 40.0, nan])', 'np.array([[1.0, 100.0], [30.0, -4.0]])', 'np.array(7.0)', "np.array([1, 50, 9], dtype='i4')",
         "np.array([1.0, 50.0, 9.0], dtype='f4')", 'np.zeros((0,))', 'np.array([inf, -inf])']
BOUND = [('1.5', '20.0'), ('np.array([0.5, 3.0])', '30.0'), ('-4.0', 'np.array(2.0)'), ('20.0', '1.5')]


def conv(mag, fr, to):
    return np.asarray(mag, dtype='f8') * (fr.scale / to.scale) if fr.units != to.units else np.asarray(mag)


def run_clip(rec, ui, tier):
    P = pq()
    units = US if tier == 'quick' else US2
    u = units[ui]
    for dsrc in CLIPD:
        for lo, hi in BOUND:
            for ul in units + [None]:
                for uh in units + [None]:
                    if ul is not None and uh is not None and ul is not uh and ul is not u and uh is not u and tier == 'quick' and ul.dims != u.dims:
                        continue
                    mag = ev(dsrc)
                    q = P.Quantity(ev(dsrc), u.obj())
                    mk = lambda s, x: ev(s) if x is None else P.Quantity(ev(s), x.obj())
                    L, H = mk(lo, ul), mk(hi, uh)
                    bl, bh, b = obs(L), obs(H), obs(q)
                    rec.case((dsrc, u, lo, ul, hi, uh))
                    # a plain bound counts as dimensionless
                    xl, xh = ul or U(), uh or U()
                    ok = xl.dims == u.dims and xh.dims == u.dims
                    if u.units and (ul is None or uh is None):
                        ok = False if not (u.dims == ()) else None
                    key = 'clip|%s|%s|%s %s|%s %s' % (dsrc, u, lo, ul, hi, uh)
                    src = program(USER_SRC, 'q = pq.Quantity(%s, %s)' % (dsrc, u.src), 'print(repr(q.clip(%s, %s)))' % tuple(
                        s if x is None else 'pq.Quantity(%s, %s)' % (s, x.src) for s, x in ((lo, ul), (hi, uh))))
                    for form in ('q.clip(L, H)', 'np.clip(q, L, H)', 'q.clip(min=L, max=H)', 'out', 'self'):
                        if form in ('out', 'self') and (dsrc.count('i4') or lo.startswith('np') or hi.startswith('np')):
                            continue
                        qq, out = q, None
                        rec.step()
                        ref = attempt(lambda: mag.clip(conv(ev(lo), xl, u), conv(ev(hi), xh, u)))
                        if form == 'out':
                            out = P.Quantity(np.zeros(mag.shape, mag.dtype if mag.dtype.kind != 'f' or mag.dtype.itemsize > 4 else 'f4'), 'K')
                            got = attempt(q.clip, L, H, out)
                        elif form == 'self':
                            qq = P.Quantity(ev(dsrc), u.obj()); out = qq
                            got = attempt(qq.clip, L, H, qq)
                        else:
                            got = attempt(ev, form, q=q, L=L, H=H)
                        if ok is False or raised(ref):
                            if want_raise(rec, key + '|' + form, got, src) and out is not None:
                                if units_of(out) != (units_of(P.Quantity(1, 'K')) if form == 'out' else u.units):
                                    rec.fail(key, 'units of the output changed by a refused call', src)
                        elif ok is None:
                            if not raised(got) and not close(np.asarray(got.magnitude), ref, 1e-6):
                                rec.fail(key, 'expected %r or a refusal, got %s' % (ref, show(got)), src)
                        else:
                            if raised(got) and out is not None and "cast" in repr(got):
                                continue
                            small = "'f4'" in dsrc
                            want_q(rec, key + '|' + form, got, ref, u.units, src, rtol=1e-6 if small else 1e-12)
                            if out is not None and got is not out:
                                rec.fail(key + '|' + form, 'the output argument is not returned', src)
                        if obs(L) != bl or obs(H) != bh or obs(q) != b:
                            rec.fail('changed|' + key, 'operands changed', src)
                    rec.trace()


def run_clipnone(rec, ui, tier):
    P = pq()
    units = US if tier == 'quick' else US2
    u = units[ui]
    for dsrc in CLIPD:
        for ul in units + [None]:
            for which in ('min', 'max'):
                for pos in (0, 1):
                    mag = ev(dsrc); q = P.Quantity(ev(dsrc), u.obj())
                    L = 1.5 if ul is None else P.Quantity(1.5, ul.obj())
                    xl = ul or U()
                    rec.case(); rec.step()
                    lim = float(conv(1.5, xl, u))
                    ref = attempt(lambda: mag.clip(lim, np.inf) if which == 'min' else mag.clip(-np.inf, lim))
                    got = attempt(lambda: (q.clip(L) if which == 'min' else q.clip(None, L)) if pos else q.clip(**{which: L}))
                    key = 'clip1|%s|%s|%s|%s' % (dsrc, u, which, ul)
                    src = program(USER_SRC, 'q = pq.Quantity(%s, %s)' % (dsrc, u.src), 'print(repr(q.clip(%s=%s)))' % (which, '1.5' if ul is None else 'pq.Quantity(1.5, %s)' % ul.src))
                    if xl.dims != u.dims or (ul is None and u.dims):
                        want_raise(rec, key, got, src)
                    elif ul is None and u.units:
                        if not raised(got) and not close(np.asarray(got.magnitude), ref, 1e-6):
                            rec.fail(key, 'expected %r or a refusal, got %s' % (ref, show(got)), src)
                    else:
                        want_q(rec, key, got, ref, u.units, src, rtol=1e-6 if "'f4'" in dsrc else 1e-12)
                    rec.trace()
        q = P.Quantity(ev(dsrc), u.obj())
        want_raise(rec, 'clip0|%s|%s' % (dsrc, u), attempt(q.clip), None)


def run_searchsorted(rec, ui, tier):
    P = pq()
    units = US if tier == 'quick' else US2
    u = units[ui]
    for dsrc in ('np.array([1.0, 2.0, 2.0, 5.0])', "np.array([1, 3, 9], dtype='i4')", 'np.zeros((0,))', 'np.array([nan])', 'np.array([[1.0, 2.0]])'):
        for vsrc in ('2.0', 'np.array([0.0, 2.0, 7.0])', '[1, 2, 3]', 'np.array([[2.0, 5.0], [1.5, nan]])', '0', 'np.zeros((0,))'):
            for uv in units + [None]:
                for form in ('q.searchsorted(v)', "q.searchsorted(v, 'right')", "q.searchsorted(v, side='left')"):
                    mag = ev(dsrc); q = P.Quantity(ev(dsrc), u.obj())
                    v = ev(vsrc) if uv is None else P.Quantity(ev(vsrc), uv.obj())
                    xv = uv or U()
                    b, bv = obs(q), obs(v)
                    rec.case(); rec.step()
                    same = xv.units == u.units
                    ref = attempt(ev, form, q=mag, v=np.asarray(ev(vsrc)) if same else conv(ev(vsrc), xv, u))
                    got = attempt(ev, form, q=q, v=v)
                    key = 'searchsorted|%s|%s|%s|%s|%s' % (form, dsrc, u, vsrc, uv)
                    src = program(USER_SRC, 'q = pq.Quantity(%s, %s)' % (dsrc, u.src), 'v = ' + (vsrc if uv is None else 'pq.Quantity(%s, %s)' % (vsrc, uv.src)), 'print(%s)' % form)
                    if xv.dims != u.dims or raised(ref):
                        want_raise(rec, key, got, src)
                    elif same:
                        compare(rec, key, src, got, ref, None, 'none')
                    elif not raised(got):
                        # compatible units may be refused, but must not be compared as plain numbers
                        lo = attempt(ev, form, q=mag, v=conv(ev(vsrc), xv, u) * (1 - 1e-9)); hi = attempt(ev, form, q=mag, v=conv(ev(vsrc), xv, u) * (1 + 1e-9))
                        if not (np.all(np.asarray(got) >= np.minimum(lo, hi)) and np.all(np.asarray(got) <= np.maximum(lo, hi))):
                            rec.fail(key, 'expected %r or a refusal, got %s' % (ref, show(got)), src)
                    if obs(q) != b or obs(v) != bv:
                        rec.fail('changed|' + key, 'operands changed', src)
                    rec.trace()


def run_inplace(rec, ui, tier):
    """methods whose output is the quantity itself"""
    P = pq()
    units = US if tier == 'quick' else US2
    u = units[ui]
    for dsrc in ('np.array([1.25, -2.5, 3.75])', 'np.array([[1.5, 2.25], [3.0, -4.125]])', 'np.array(2.75)', "np.array([1, 2, 3], dtype='i4')"):
        for text in ('A.round(1, out=A)', 'A.cumsum(axis=0, out=A)', 'A.cumsum(out=A)', 'A.clip(LO, HI, out=A)', 'A.cumprod(axis=0, out=A)', 'A.round(out=A)'):
            q = P.Quantity(ev(dsrc), u.obj()); mag = ev(dsrc)
            LO, HI = P.Quantity(0.5, u.obj()), P.Quantity(2.5, u.obj())
            rec.case(); rec.step()
            m2 = ev(dsrc)
            ref = attempt(ev, text, A=m2, LO=0.5, HI=2.5)
            got = attempt(ev, text, A=q, LO=LO, HI=HI)
            key = 'self|%s|%s|%s' % (text, dsrc, u)
            src = program(USER_SRC, 'A = pq.Quantity(%s, %s); LO = pq.Quantity(0.5, %s); HI = pq.Quantity(2.5, %s)' % (dsrc, u.src, u.src, u.src), 'print(repr(%s), repr(A))' % text)
            if raised(ref) or ('cumprod' in text and u.units):
                want_raise(rec, key, got, src)
                want_q(rec, key, q, mag, u.units, src, ctx='after the refused call: ')
            else:
                want_q(rec, key, got, m2, u.units, src); want_q(rec, key, q, m2, u.units, src)
            rec.trace()


def run_unit(rec, ui, tier):
    """the methods on the unit itself"""
    units = US if tier == 'quick' else US2
    u = units[ui]
    if len(u.factors) > 1 or any(p != 1 for _, p in u.factors):
        return
    o = u.obj()
    mag = np.array(1.0)
    b = obs(o)
    for m, form, text, ref, rule, ax in CALLS[tier]:
        if form == 'f' and m.startswith('nan'):
            continue    # NumPy copies the unit object then, see the known findings of C21
        rec.case(); rec.step()
        r = attempt(ev, ref, A=mag)
        if rule == 'dimless' and u.units:
            r = Raised(ValueError())
        key = 'unit|%s|%s' % (text, u)
        src = program(USER_SRC, 'A = %s' % u.src, 'print(repr(%s))' % text)
        try:
            w = None if raised(r) else expect_units(rule, u.units, mag, ax)
        except IndexError:
            continue
        compare(rec, key, src, attempt(ev, text, A=o), r, w, rule)
        if obs(o) != b:
            rec.fail('changed|' + key, 'the unit was changed to %r' % (obs(o),), src); return
        rec.trace()


def run_sortin(rec, ui, tier):
    """sorting in place"""
    P = pq()
    units = US if tier == 'quick' else US2
    u = units[ui]
    for dsrc in BASE + ['np.array([3, 1, 2], dtype="i4")']:
        for text in ('A.sort()', 'A.sort(axis=0)', 'A.sort(kind="stable")', 'A.partition(0)', 'A.sort(axis=5)'):
            q = P.Quantity(ev(dsrc), u.obj()); mag = ev(dsrc)
            rec.case(); rec.step()
            ref = attempt(ev, text, A=mag)
            got = attempt(ev, text, A=q)
            key = 'sortin|%s|%s|%s' % (text, dsrc, u)
            if raised(ref) != raised(got):
                rec.fail(key, 'expected %r, got %r' % (ref, got), None); continue
            want_q(rec, key, q, mag, u.units)
            rec.trace()


def run(desc, rec):
    kind, a, b = desc
    if kind == 'red':
        run_red(rec, a, b, rec.tier)
    else:
        globals()['run_' + kind](rec, a, rec.tier)
