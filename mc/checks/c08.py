"""C08: histories of in-place operations on arrays, their views and independent copies.
Every history is executed on quantities and on a reference heap of plain arrays (NumPy's own aliasing) with one
unit expression per object; all live objects are compared after every step."""
import copy, itertools
import numpy as np
from ..alphabet import *

RULE = ('breadth-first search from each initial heap: a root array a, an independent array b and two slots v, w for views or copies; in every state every '
        'operation (view creation, copy, element assignment, put, fill, in-place arithmetic, unit assignment, output arguments, failing variants) on every object; '
        'after each step values and units of all objects are compared with the reference heap; states are deduplicated on values, units and aliasing, never across the ways of making a view, and explored again when they are reached at a smaller depth')
BOUNDS = {'quick': '9 initial heaps (1-d, 2-d, 0-d, Fortran, complex of two precisions, integer, dimensionless, empty); histories of up to 3 operations: the first creates a view or copy or is any operation, '
                   'all operations in the first 2 positions, a reduced alphabet in the third; stores (assignment, put, fill) in every pair of dtypes',
          'thorough': 'all operations in all 3 positions and the reduced alphabet in a fourth position after two view creations'}
ASSUMPTIONS = ['NumPy aliases plain arrays correctly (the reference heap is made of plain arrays)',
               'objects that share memory only through plain arrays (x.magnitude wrapped again) are not views of a quantity']

HEAPS = [   # (a, b, unit, compatible unit)
    ('np.array([1.0, 2.5, -3.0, 4.0])', 'np.array([10.0, 20.0])', 'm', 'ft'),
    ('np.array([[1.0, 2.0], [3.0, 4.0]])', 'np.array([[0.5], [1.5]])', 'X.vfoo', 'm'),
    ('np.array([1+2j, 3-1j])', 'np.array([0.5, 2.0])', (('km', 1), ('hour', -1)), 'X.cu3'),
    ('np.array([4, 7, 9])', 'np.array([1, 2, 3])', 's', 'ms'),
    ('np.array(3.0)', 'np.array(2.0)', 'N', (('kg', 1), ('m', 1), ('s', -2))),
    ('np.array([2.0, 0.5, 4.0])', 'np.array([0.25, 3.0, 1.0])', 'dimensionless', 'percent'),
    ("np.asfortranarray([[1.0, 2.0, 5.0], [3.0, 4.0, 6.0]])", "np.arange(6.0).reshape(2, 3)[:, ::2]", 'X.cu1', (('m', -1),)),
    ('np.zeros((0,))', 'np.array([1.0])', 'degC', 'K'),
    ('np.array([1+2j, 3-1j], dtype="c8")', 'np.array([0.5, 2.0], dtype="f4")', 'm', 'ft'),
]
VIEWS = ['[1:]', '[::2]', '[::-1]', '[...]', '.T', '.reshape(-1)', '.reshape(2, -1)', '.view()', '.squeeze()', '.ravel()', '.real', '.swapaxes(0, -1)',
         '.transpose()', '[0]', '[-1]', '[None]']
VIEWS_C = ['.imag']
COPIES = ['.copy()', '.flatten()', '[[0, 1]]', '[np.array([True, False])]', '.astype(float)']


def prec(x):
    t = np.asarray(x).dtype
    return 5e-6 if t in (np.dtype('f4'), np.dtype('c8')) else 1e-11


def u_of(n):
    return U() if n == 'dimensionless' else mk_units(n)[0]


class Val:
    """an argument: program text, and magnitude and unit (None: plain number)"""
    def __init__(self, name, mag, u):
        self.name, self.u = name, u
        self.src = mag if u is None else 'pq.Quantity(%s, %s)' % (mag, u.src)
        self.mag = np.asarray(Expr(mag).new())
        self.units = () if u is None else u.units
        self.scale = 1.0 if u is None else u.scale
        self.dims = () if u is None else u.dims
    def new(self):
        return Expr(self.src).new()


def ev(text, **k):
    return eval(code(text, 'eval'), k)


def setup():
    global HS
    define_user_units()
    HS = [Heap(*h) for h in HEAPS]


class Heap:
    def __init__(self, a, b, un, cn):
        self.asrc, self.bsrc = a, b
        self.ae, self.be, self.args = Expr(a), Expr(b), None
        self.u, self.c = u_of(un), u_of(cn)
        self.x = u_of('kg')
        for w in (self.u, self.c, self.x):
            w.model()
        V = [Val('S', '7.0', self.u), Val('C', '2.5', self.c), Val('W', '1.5', self.x), Val('P', '6', None), Val('D', '3.0', U()),
             Val('A', 'np.array([11.0, 12.0])', self.u), Val('B', 'np.array([21.0, 22.0])', self.c), Val('L', 'np.array([1.0, 2.0, 3.0, 4.0, 5.0])', self.u),
             Val('N', 'nan', self.u), Val('Z', '2', None), Val('I', '4', self.u), Val('E', '0.1', self.x), Val('J', '1.5-2j', self.c), Val('O', '1.0', self.u)]
        if self.u.factors and len(self.u.factors) == 1 and self.u.factors[0][1] == 1:
            V[-1].src = self.u.src    # the unit object itself
        if Expr(a).new().dtype.kind == 'i':
            V[8] = Val('N', '8', self.u)    # what a nan becomes depends on NumPy's casting
        self.V = {v.name: v for v in V}
        self.complex = 'j' in a
        self.ops = {'all': self.make(False), 'small': self.make(True)}
        self.views = [op for op in self.ops['all'] if op[0] == 'view']

    def make(self, small):
        ops = []
        vw = (VIEWS[:6] + ['.view()', '[0]', '.real'] if small else VIEWS) + (VIEWS_C if self.complex else [])
        for dst in 'vw':
            for s in ('a', 'v') if dst == 'w' else ('a',):
                for e in vw:
                    ops.append(('view', dst, s, e))
                for e in COPIES[:1] if small else COPIES:
                    ops.append(('view', dst, s, e))
        for x in 'avwb':
            if small and x == 'b':
                continue
            full = not small and x in 'av'
            keys = ['0', '1:', '::2', '...', '[0, 1]', '9', 'np.array([True, False])', '(0, 1)', '-1', ':'] if full else ['0', '...'] if small else ['0', '1:', '...']
            vals = 'SCWPDABLNO' if full else 'SCW' if small else 'SCWP'
            for k in keys:
                for v in vals:
                    if full and k in ('9', '(0, 1)', '-1', ':', '[0, 1]') and v not in 'SCWB':
                        continue
                    ops.append(('set', x, k, v))
            for y in 'avwb':
                if y != x and not small:
                    ops.append(('setv', x, '...', y))
                    ops.append(('iopv', x, '+=', y))
            for k, v, *mode in ([('[0, 1]', 'S'), ('[0, 1]', 'B'), ('0', 'C'), ('[-1]', 'W'), ('[9]', 'S'), ('[0, 1]', 'P'), ('[9, -7]', 'B', 'wrap'), ('[9, -7]', 'C', 'clip'), ('[5]', 'S', 'raise')] if full else [('[0]', 'C')]):
                ops.append(('put', x, k, v + ''.join(', "%s"' % w for w in mode)))
            for v in ('SCWPDABJ' if full else 'SW' if small else 'SCW'):
                ops.append(('fill', x, '', v))
            for o, vs in ([('+=', 'SCWPDALJ'), ('-=', 'SCWP'), ('*=', 'ZPDWSEJ'), ('/=', 'ZDWP'), ('//=', 'ZW'), ('%=', 'SCWP'), ('**=', 'ZDW')] if full
                          else [('+=', 'SCW'), ('*=', 'ZW'), ('**=', 'Z')] if small else [('+=', 'SCWP'), ('-=', 'C'), ('*=', 'ZDW'), ('/=', 'ZW'), ('**=', 'Z')]):
                for v in vs:
                    ops.append(('iop', x, o, v))
            if full:
                ops += [('iop1', x, '**=', '1'), ('iop1', x, '**=', '0.5'), ('iop1', x, '**=', '[1, 2]'), ('iop1', x, '*=', '"m"'), ('iop1', x, '+=', 'None')]
            for t in (['c', 'x', 'u', 'bad', 'list'] if full else ['c', 'x']):
                ops.append(('units', x, '', t))
            ops += [('mag', x, '...', '*= 2')] if small else [('mag', x, '...', '*= 2'), ('mag', x, '0', '= 9')]
            if not small:
                ops += [('ufout', x, 'np.add({0}, S, out={0})', ''), ('ufout', x, 'np.negative({0}, out={0})', ''), ('ufout', x, 'np.multiply({0}, 2, {0})', ''),
                        ('ufout', x, 'np.square({0}, out={0})', ''), ('ufout', x, 'np.multiply({0}, W, out={0})', ''), ('ufout', x, 'np.add({0}, W, out={0})', ''), ('ufout', x, 'pq.Quantity(np.zeros({0}.shape), W.units).round(out={0})', '')]
                for e in ('{0}.round(out={0})', '{0}.sort()', '{0}.cumsum(axis=0, out={0})', '{0}.clip(S, S, out={0})', '{0}.partition(0)', '{0}.cumprod(axis=0, out={0})' if self.u.units == () else '{0}.sort(axis=0)', '{0}.sort(0, kind="stable")'):
                    ops.append(('meth', x, e, ''))
                ops += [('real', x, 'real', 'S'), ('real', x, 'real', 'C'), ('real', x, 'real', 'W')]
                if self.complex:
                    ops += [('real', x, 'imag', 'S'), ('real', x, 'imag', 'C'), ('real', x, 'imag', 'W')]
        seen, r = set(), []
        for o in ops:
            if o not in seen:
                seen.add(o); r.append(o)
        return r

    def text(self, op):
        k, x, p, v = op
        if k == 'view': return '%s = %s%s' % (x, p, v)
        if k in ('set', 'setv'): return '%s[%s] = %s' % (x, p, v)
        if k in ('iop', 'iopv', 'iop1'): return '%s %s %s' % (x, p, v)
        if k == 'put': return '%s.put(%s, %s)' % (x, p, v)
        if k == 'fill': return '%s.fill(%s)' % (x, v)
        if k == 'units': return '%s.units = %s' % (x, {'c': self.c.src, 'x': self.x.src, 'u': self.u.src, 'bad': '"nosuchunit"', 'list': '[1]'}[v])
        if k == 'mag': return '%s.magnitude[%s] %s' % (x, p, v)
        if k in ('ufout', 'meth'): return p.format(x)
        if k == 'real': return '%s.%s = %s' % (x, p, v)
        raise AssertionError(op)


class Obj:
    __slots__ = ('arr', 'units', 'scale', 'dims', 'isview', 'root', 'maybe')
    def __init__(self, arr, u, isview, root, maybe=False):
        self.maybe = maybe  # a copy made by a method which usually makes views
        self.arr, self.isview, self.root = arr, isview, root
        self.units, self.scale, self.dims = u


class Undecided(Exception):
    pass


class Refuse(Exception):
    pass


class M:
    """the reference heap"""
    def __init__(self, h):
        self.h = h
        u = h.u.model()
        self.o = {}
        for n, s in (('a', h.ae), ('b', h.be)):
            arr = np.array(s.new(), order='K')
            self.o[n] = Obj(arr, u, False, n)
        self.n = 0
        self.err = None

    def conv(self, v, x):
        """magnitude of the argument in the units of x, or Refuse"""
        if v.units == x.units:
            return v.mag
        if v.dims != x.dims:
            raise Refuse
        return np.asarray(v.mag) * (v.scale / x.scale)

    def val(self, name):
        if name in 'avwb':
            o = self.o[name]
            v = Val.__new__(Val)
            v.u = 1; v.mag, v.units, v.scale, v.dims = o.arr, o.units, o.scale, o.dims
            return v
        return self.h.V[name]

    def sharing(self, x):
        return [n for n, o in self.o.items() if o is not x and o.root == x.root and n != x]

    def may(self, x, units, differ=None):
        """the units of the whole array change: refused through a view"""
        if units != x.units if differ is None else differ:
            if x.isview and (units != x.units or self.err is not None) or x.maybe and self.err is not None:
                raise Refuse

    def apply(self, op):
        """does the operation on the reference heap; raises if it must be refused"""
        k, xn, p, v = op
        h = self.h
        if k == 'view':
            if p not in self.o:
                raise Undecided
            s = self.o[p]
            r = ev('s' + v, s=s.arr, np=np)
            shares = isinstance(r, np.ndarray) and r.size and np.shares_memory(r, s.arr)
            if isinstance(r, np.ndarray) and r.size == 0:
                shares = v not in COPIES
            if not isinstance(r, np.ndarray):
                r = np.array(r)
            self.n += 1
            self.o[xn] = Obj(r, (s.units, s.scale, s.dims), bool(shares), s.root if shares else 'n%d' % self.n, not shares and v not in COPIES)
            return
        x = self.o[xn]
        e = dict(arr=x.arr, np=np)
        if k in ('set', 'setv'):
            V = self.val(v)
            m = self.conv(V, x)
            if k == 'setv' and np.shares_memory(V.mag, x.arr):
                m = m.copy()
            e['m'] = m
            exec(code('arr[%s] = m' % p), e)
        elif k == 'put':
            m = self.conv(self.val(v.split(',')[0]), x)
            x.arr.put(eval(p), m, *([eval(v.split(',')[1])] if ',' in v else []))
        elif k == 'fill':
            V = self.val(v)
            u = (x.units, x.scale, x.dims) if V.u is None else (V.units, V.scale, V.dims)
            self.may(x, u[0])
            if np.iscomplexobj(V.mag) and not np.iscomplexobj(x.arr): raise Refuse
            t = x.arr.copy(); t.fill(V.mag[()])
            x.arr[...] = t
            x.units, x.scale, x.dims = u
        elif k in ('iop', 'iopv'):
            V = self.val(v)
            if p in ('+=', '-=', '%='):
                m = self.conv(V, x)
                u = (x.units, x.scale, x.dims)
            elif p == '**=':
                if V.units:
                    raise Refuse
                m = V.mag
                e2 = float(m)
                u = (upow(x.units, e2), x.scale ** e2, upow(x.dims, e2))
                m = m[()]
            else:
                m = V.mag
                sg = 1 if p == '*=' else -1
                u = (umul(x.units, V.units, sg), x.scale * V.scale ** sg, umul(x.dims, V.dims, sg))
            self.may(x, u[0], float(m) != 1 if p == '**=' else None)
            t = x.arr.copy()
            if V.u is None:
                m = m[()] if isinstance(m, np.ndarray) else m
            e.update(t=t, m=m)
            exec(code('t %s m' % p), e)
            x.arr[...] = e['t']
            x.units, x.scale, x.dims = u
        elif k == 'iop1':
            if v in ('1', '0.5'):
                f = float(v)
                self.may(x, upow(x.units, f), f != 1)
                t = x.arr.copy(); t **= (1 if v == '1' else 0.5)
                x.arr[...] = t
                x.units, x.scale, x.dims = upow(x.units, f), x.scale ** f, upow(x.dims, f)
            else:
                raise Refuse
        elif k == 'units':
            t = {'c': h.c, 'x': h.x, 'u': h.u}.get(v)
            if t is None:
                raise Refuse
            if t.units == x.units and x.isview:
                raise Undecided      # nothing changes, whether it is accepted or not
            if t.dims != x.dims:
                raise Refuse
            if t.units == x.units and x.maybe:
                raise Undecided
            self.may(x, t.units)
            if t.units != x.units:
                arr = x.arr.copy()
                arr *= x.scale / t.scale
                x.arr[...] = arr
                x.units, x.scale, x.dims = t.model()
        elif k == 'mag':
            exec(code('arr[%s] %s' % (p, v)), e)
        elif k == 'meth':
            if 'clip' in p:
                V = self.h.V['S']
                m = self.conv(V, x)
                x.arr.clip(m, m, out=x.arr)
            else:
                exec(code(p.format('arr')), e)
        elif k == 'ufout':
            if 'S' in p or 'add' in p:
                V = self.h.V['S' if 'S' in p else 'W']
                if V.units != x.units:
                    raise Refuse
                np.add(x.arr, V.mag, out=x.arr)
            elif 'negative' in p: np.negative(x.arr, out=x.arr)
            elif 'square' in p:
                u = (upow(x.units, 2), x.scale ** 2, upow(x.dims, 2))
                self.may(x, u[0])
                np.square(x.arr, out=x.arr); x.units, x.scale, x.dims = u
            elif 'round' in p:
                V = self.h.V['W']
                self.may(x, V.units)
                np.zeros(x.arr.shape).round(out=x.arr); x.units, x.scale, x.dims = V.units, V.scale, V.dims
            elif 'W' in p:
                V = self.h.V['W']
                u = (umul(x.units, V.units), x.scale * V.scale, umul(x.dims, V.dims))
                self.may(x, u[0])
                np.multiply(x.arr, V.mag, out=x.arr); x.units, x.scale, x.dims = u
            else: np.multiply(x.arr, 2, x.arr)
        elif k == 'real':
            m = self.conv(self.val(v), x)
            setattr(x.arr, p, m)
        else:
            raise AssertionError(op)

    def canon(self):
        out = []
        for n in sorted(self.o):
            o = self.o[n]
            a = o.arr
            out.append((n, o.units, o.isview, o.root, a.shape, a.strides, a.__array_interface__['data'][0] - base_ptr(a), a.tobytes()))
        return repr(out)


def base_ptr(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a.__array_interface__['data'][0]


def chunks(tier):
    r = []
    for hi, h in enumerate(HS):
        n = len(h.ops['all'])
        k = 6
        for i in range(0, n, k):
            r.append([hi, i, min(i + k, n), tier])
    return r + [['types', i, 5, tier] for i in range(5)]


# ------------------------------------------------------------------ values of one type in arrays of another
STORE = ['q[0] = x[0]', 'q[...] = x', 'q[:2] = x[:2]', 'q[[2, 0, 1]] = x', 'q.put([0, 1, 2], x)', 'q[np.array([True, False, True])] = x[::2]', 'q += x', 'q -= x', 'w[1:] = x[1:]', 'w += x', 'q.T[...] = x', 'q.units = u', 'w.real = y', 'q[0] = x[0]; q.units = u']


def store_types(rec, part, parts):
    P = pq()
    n = 0
    for uq, ux, f in (('pq.m', 'pq.m', 1.0), ('pq.mm', 'pq.m', 1e3), ('pq.um', 'pq.m', 1e6), ('pq.m', 'pq.mm', 1e-3), ('pq.m', 'pq.um', 1e-6), ('pq.percent', 'pq.dimensionless', 100.0), ('pq.s', 'pq.hour', 3600.0)):
        for tq in ('f2', 'f4', 'f8', 'g', 'c8', 'c16', 'i8', 'u2'):
            for tx in ('f2', 'f4', 'f8', 'g', 'i8', 'u1', 'c8', 'c16', '?'):
                for vals in ([1.0, 2.0, 3.0], [0.5, -0.25, 7.0], [100.0, 250.0, 50.0], [1e-3, 1e3, 2e4], [1/3., 0.1, 0.7]):
                    n += 1
                    if n % parts != part: continue
                    with np.errstate(all='ignore'):
                        x0 = np.array(vals)
                        if tx == '?': x0 = x0 > 1
                        if np.dtype(tx).kind in 'iu' and ((x0 < 0) & (tx[0] == 'u') | (x0 != np.rint(x0)) | (x0 > 255) & (tx == 'u1')).any(): continue
                        x0 = x0.astype(tx)
                        q0 = np.array([5.0, 6.0, 8.0]).astype(tq)
                    k = np.dtype(tq).kind
                    if np.dtype(tx).kind == 'c' and k != 'c': continue
                    want = np.asarray(x0, 'c16' if np.dtype(tx).kind == 'c' else 'f8') * f
                    if k in 'iu' and (f != 1 or (np.asarray(want) != np.rint(np.asarray(want))).any() or (np.abs(want) > 60000).any() or (k == 'u' and (want < 0).any())): continue
                    if k in 'fc':
                        fi = np.finfo(tq)
                        if np.abs(want).max() * 2 > float(fi.max) or (np.abs(want)[want != 0] < float(fi.tiny) * 1e3).any(): continue
                        eps = float(fi.eps)
                    else: eps = 0.0
                    for op in STORE:
                        if 'units' in op and k not in 'fc' and f != 1: continue
                        if ('+=' in op or '-=' in op) and not np.can_cast(np.result_type(tq, tx, 'f2' if f != 1 else tq), tq, 'same_kind'): continue
                        if ('+=' in op or '-=' in op) and k in 'iu' and tx not in ('u1', '?') and np.dtype(tx).kind not in 'iu': continue
                        if 'real' in op and f != 1: continue
                        if k not in 'fc' and ('+=' in op or '-=' in op): continue
                        if '-=' in op and tx == '?': continue
                        q = P.Quantity(q0.copy(), Expr(uq).new()); x = P.Quantity(x0.copy(), Expr(ux).new()); u = Expr(ux).new()
                        m = np.array(q0, 'c16' if k == 'c' else 'f8')
                        head = op.split(';')[0]
                        if head.startswith('q[0]'): m[0] = want[0]
                        elif head.startswith(('q[...]', 'q.T')): m[...] = want
                        elif head.startswith('q[:2]'): m[:2] = want[:2]
                        elif head.startswith('q[['): m[[2, 0, 1]] = want
                        elif head.startswith('q.put'): m[...] = want
                        elif head.startswith('q[np'): m[[0, 2]] = want[[0, 2]]
                        elif '+=' in head: m = m + want
                        elif '-=' in head: m = m - want
                        elif head.startswith('w[1:]'): m[1:] = want[1:]
                        elif 'real' in head:
                            if np.dtype(tx).kind == 'c' or tx == '?': continue
                            m.real = want
                        un = 'x' if 'q.units' in op else 'q'
                        if un == 'x':
                            m = m / f
                            if k in 'fc' and (np.abs(m)[m != 0] < float(fi.tiny) * 1e3).any(): continue
                        if k in 'fc' and np.abs(m).max() * 2 > float(fi.max): continue
                        big = float(np.abs(m).max())
                        key = 'types|%s %s|%s %s|%s|%s' % (uq, tq, ux, tx, vals, op)
                        prog = program('q = pq.Quantity(np.array(%r).astype(%r), %s); x = pq.Quantity(np.array(%r).astype(%r), %s); w = q[:]; u = %s; y = x' % ([5.0, 6.0, 8.0], tq, uq, vals, tx, ux, ux), op, 'print(repr(q))')
                        env = dict(q=q, x=x, u=u, np=np, w=q[:], y=x)
                        if 'units' in op: del env['w']
                        bx = obs(x)
                        rec.case(key); rec.step(); rec.trace()
                        r = attempt(lambda: exec(op, env))
                        if raised(r): rec.fail(key, 'raises %r' % r, prog); continue
                        if obs(x) != bx: rec.fail(key, 'the value has changed: %s' % show(x), prog); continue
                        q = env['q']
                        g = np.asarray(q.magnitude)
                        if g.dtype != np.dtype(tq) or units_of(q) != units_of(P.Quantity(1.0, Expr(ux if un == 'x' else uq).new())) or not (np.abs(g - m) <= 8 * max(eps, 2.3e-16) * (big if '=' in op and ('+=' in op or '-=' in op) else np.abs(m))).all():
                            rec.fail(key, 'expected %r %s, got %s' % (m.tolist(), ux if un == 'x' else uq, show(q)), prog)


_code = {}
def code(t, mode='exec'):
    if (t, mode) not in _code:
        _code[t, mode] = compile(t, t, mode)
    return _code[t, mode]


def new_env(h):
    P = pq()
    if h.args is None:
        h.args = dict(glob())
        h.args.update({n: v.new() for n, v in h.V.items()})   # observed after every history
        h.args['U'] = h.u.obj()
    e = dict(h.args)
    e['a'] = P.Quantity(h.ae.new(), e['U']); e['b'] = P.Quantity(h.be.new(), e['U'])
    return e


def program_of(h, hist):
    lines = ['a = pq.Quantity(%s, %s); b = pq.Quantity(%s, %s)' % (h.asrc, h.u.src, h.bsrc, h.u.src)]
    used = ' '.join(h.text(o) for o in hist)
    lines += ['%s = %s' % (n, v.src) for n, v in h.V.items()]
    for o in hist:
        lines.append('try: %s\nexcept Exception as e: print(repr(e))' % h.text(o))
    lines.append('for n in "avwb":\n    if n in globals(): print(n, repr(globals()[n]))')
    return program(USER_SRC, *lines)


DEPTH = {}


def run_hist(rec, h, hist):
    """replays the history; True: explore further from here, False: stop"""
    e, m = new_env(h), M(h)
    last = len(hist) - 1
    for i, op in enumerate(hist):
        t = h.text(op)
        if op[0] not in ('view',) and op[1] not in m.o or op[0] == 'view' and op[2] not in m.o or op[0] in ('setv', 'iopv') and op[3] not in m.o:
            return None
        refuse = undecided = False
        before = {n: (o.arr.copy(), o.units, o.scale) for n, o in m.o.items()} if i == last else None
        x = m.o.get(op[1])
        u0 = x.units if x is not None else None
        with np.errstate(all='ignore'):
            err = None
            try:
                exec(code(t), e)
            except Exception as ex:
                err = ex
            m.err = err
            try:
                m.apply(op)
            except Undecided:
                undecided = True
            except Exception as ex:
                refuse = True
        rec.step()
        if i < last:
            drop_stale(h, m, op, x, u0, e)
            continue
        key = '%s|%s|%s' % (op[0], t, ' ; '.join([repr((h.asrc, h.u))] + [h.text(o) for o in hist]))
        src = lambda: program_of(h, hist)
        if not undecided and refuse != (err is not None):
            if refuse and op[0] == 'ufout' and x.isview:
                # the finding is exactly this: the numbers are stored and the view, but not its base, has the new units
                r = npout(op[2], before[op[1]][0], h)
                if r is not None and units_of(e[op[1]]) == r[1](x) and close(np.asarray(e[op[1]].magnitude), r[0], prec(r[0])):
                    key = 'view-out|' + key
                rec.fail(key, 'the units of a view were changed by an output argument', src()); return False
            rec.fail(key, '%s: expected to %s, but %s' % (' ; '.join(h.text(o) for o in hist), 'be refused' if refuse else 'succeed', repr(err) if err else 'it succeeded: %s' % show(e[op[1]])), src())
            return False
        rec.outcome((op[0], type(err).__name__))
        if u0 is not None and not refuse and not undecided and op[0] != 'view' and x.units != u0:
            # the units of a whole array have changed
            for n in list(m.o):
                o = m.o[n]
                if o is not x and o.root == x.root:
                    g = e[n]
                    if units_of(g) != x.units or not close(np.asarray(g.magnitude), o.arr, max(1e-9, prec(o.arr)), 1e-300):
                        # the finding is exactly this: the new numbers with the old units
                        known = units_of(g) == o.units and close(np.asarray(g.magnitude), o.arr, max(1e-9, prec(o.arr)), 1e-300)
                        rec.fail(('stale-view|' if known else '') + key, 'after %s: a view still has the units %s of before' % (t, units_of(g)), src())
                    del m.o[n]; e.pop(n)
        for n, o in m.o.items():
            g = e[n]
            if not isinstance(g, pq().Quantity):
                rec.fail(key, 'after %s: %s is %s' % (t, n, show(g)), src()); return False
            gm = np.asarray(g.magnitude)
            if units_of(g) != o.units or gm.dtype != o.arr.dtype or gm.shape != o.arr.shape or gm.tobytes() != o.arr.tobytes() and not close(gm, o.arr, prec(o.arr), 1e-300):
                if refuse and op[0] == 'ufout' and units_of(g) == o.units and o.root == x.root and ufunc_stored(op, h, m, e, before):
                    rec.fail('ufunc-out-raises|' + key, 'a refused %s has changed the values' % t, src()); return False
                rec.fail(key, 'after %s: %s should be %r %s, but is %s' % (' ; '.join(h.text(q) for q in hist), n, o.arr.tolist(), o.units, show(g)), src())
                return False
        for n, v in h.V.items() if op[0] != 'view' else ():
            if units_of_any(e[n]) != v.units or np.asarray(getattr(e[n], 'magnitude', e[n])).tobytes() != v.mag.tobytes():
                h.args = None; rec.fail(key, 'after %s: the argument %s was changed to %s' % (t, n, show(e[n])), src()); return False
        if refuse and not_undone(m, before):
            if op[0] != 'put':
                raise RuntimeError('the model changed although it refused: %r' % (hist,))
            rec.fail('put-partial|' + key, 'put with an index out of range stores the values before it', src()); return False
    rec.trace()
    # a state is explored again when it is reached with more steps left, and always after a view
    # was made: whether the view shares memory in the implementation shows only in what follows
    c = hash(m.canon())
    new = rec.state((h.asrc, m.canon()))
    if DEPTH.get(c, 9) > len(hist):
        DEPTH[c] = len(hist); new = True
    return new or hist[-1][0] == 'view'


def npout(text, arr, h):
    """what the ufunc call stores, and the units it gives its output"""
    W = h.V['W']
    if 'round' in text:
        return np.zeros(arr.shape), lambda x: W.units
    if 'square' in text:
        return np.square(arr), lambda x: upow(x.units, 2)
    if 'np.multiply({0}, W' in text:
        return np.multiply(arr, W.mag), lambda x: umul(x.units, W.units)
    return None


def ufunc_stored(op, h, m, e, before):
    """the finding: the numbers of a refused sum have been stored in the output (and in what shares its memory)"""
    if 'np.add' not in op[2]:
        return False
    v = h.V['S' if 'S' in op[2] else 'W']
    want = before[op[1]][0] + v.mag
    return close(np.asarray(e[op[1]].magnitude), want, prec(e[op[1]].magnitude))


def units_of_any(x):
    return units_of(x) or ()


def not_undone(m, before):
    return any(not close(o.arr, before[n][0]) or o.units != before[n][1] for n, o in m.o.items() if n in before)


def drop_stale(h, m, op, x, u0, e):
    if u0 is not None and op[0] != 'view' and x.units != u0:
        for n in list(m.o):
            o = m.o[n]
            if o is not x and o.root == x.root:
                del m.o[n]; e.pop(n, None)


def run(desc, rec):
    hi, lo, up, tier = desc
    if hi == 'types':
        return store_types(rec, lo, up)
    h = HS[hi]
    DEPTH.clear()
    A, S = h.ops['all'], h.ops['small']
    for op in A[lo:up]:
        rec.case('%s %s: %s' % (h.asrc, h.u, h.text(op)), 0)
        if not run_hist(rec, h, [op]):
            continue
        l2 = A if hi < 4 or tier != 'quick' else S
        for op2 in l2:
            r = run_hist(rec, h, [op, op2])
            if not r:
                continue
            if tier == 'quick' and not (op[0] == 'view' and op[3] not in COPIES):
                continue
            for op3 in (S if tier == 'quick' else A):
                r = run_hist(rec, h, [op, op2, op3])
                if r and tier != 'quick' and op[0] == 'view' and op2[0] == 'view' and h.text(op)[0] != h.text(op2)[0]:
                    for op4 in S:
                        run_hist(rec, h, [op, op2, op3, op4])
