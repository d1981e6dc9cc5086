"""Reference model shared by the checks.

A unit is known to the model only by its name; its physical meaning is the product found by
following its public definition (magnitude and unit exponents) down to units which have none.
The model does the multiplication itself, so nothing of the conversion code is trusted."""
import math, sys
import numpy as np

NAN = float('nan')
_pq = None

def pq():
    global _pq
    if _pq is None:
        import quantities
        _pq = quantities
    return _pq

GLOBALS = {}
def glob():
    if not GLOBALS:
        import quantities
        GLOBALS.update(np=np, pq=quantities, nan=NAN, inf=float('inf'))
    return GLOBALS


class Expr:
    """A piece of Python text over np and pq, compiled once and evaluated afresh every time."""
    __slots__ = ('src', 'code', 'env')

    def __init__(self, src, env=None):
        self.src, self.env = src, env
        self.code = compile(src, '<%s>' % src[:60], 'eval')

    def new(self, **kw):
        g = glob()
        if self.env:
            g = dict(g, **self.env)
        return eval(self.code, g, kw) if kw else eval(self.code, g)

    def __repr__(self):
        return self.src


class Raised:
    __slots__ = ('exc',)
    def __init__(self, exc): self.exc = exc
    def __repr__(self): return 'raised %s(%s)' % (type(self.exc).__name__, str(self.exc)[:200])


def attempt(f, *a, **k):
    try:
        return f(*a, **k)
    except Exception as e:
        e.__traceback__ = None
        return Raised(e)

def raised(x):
    return type(x) is Raised

# ------------------------------------------------------------------ exponents and units

def num(e):
    """exponent as a plain number"""
    e = float(e)
    return int(e) if e == int(e) else round(e, 12)

def uname(u):
    """what the model calls a unit: a unit and a constant may have the same name but different values (electron_volt)"""
    return '~' + u.name if isinstance(u, pq().UnitConstant) else u.name

def units_of_dim(d):
    return tuple(sorted((uname(u), num(e)) for u, e in d.items()))

def units_of(q):
    """the unit expression of a quantity, as seen through the public interface"""
    d = getattr(q, 'dimensionality', None)
    if d is None:
        return None
    return units_of_dim(d)

def umul(a, b, k=1):
    d = dict(a)
    for n, e in b:
        d[n] = d.get(n, 0) + k * e
    return tuple(sorted((n, num(e)) for n, e in d.items() if abs(e) > 1e-12))

def udiv(a, b): return umul(a, b, -1)
def upow(a, p): return tuple(sorted((n, num(e * p)) for n, e in a if abs(e * p) > 1e-12))

# ------------------------------------------------------------------ physical meaning

_phys = {}      # id(unit) -> (unit, scale, dims)
_byname = {}

def unit_phys(u):
    """(scale, base dimensions) of a unit object, from its definition alone"""
    hit = _phys.get(id(u))
    if hit is not None and hit[0] is u:
        return hit[1], hit[2]
    d = u.definition
    if d is u or isinstance(u, pq().unitquantity.Dimensionless):
        r = (1.0, () if isinstance(u, pq().unitquantity.Dimensionless) else ((uname(u), 1),))
    else:
        s, dims = dim_phys(d.dimensionality)
        r = (s * float(np.asarray(d.magnitude)), dims)
    _phys[id(u)] = (u,) + r
    _byname.setdefault(uname(u), r)
    return r

def dim_phys(dim):
    s, dims = 1.0, ()
    for u, e in dim.items():
        su, du = unit_phys(u)
        s *= su ** float(e)
        dims = umul(dims, upow(du, float(e)))
    return s, dims

def phys(q):
    """(array of SI-like values, base dims) of a quantity"""
    s, dims = dim_phys(q.dimensionality)
    return np.asarray(q.magnitude) * s, dims

def uexpr_phys(u):
    """(scale, dims) of a units tuple whose unit names have been met before"""
    s, dims = 1.0, ()
    for n, e in u:
        su, du = _byname[n]
        s *= su ** float(e)
        dims = umul(dims, upow(du, e))
    return s, dims

# ------------------------------------------------------------------ numbers

def tol_for(*dtypes):
    t = 2e-12
    for d in dtypes:
        d = np.dtype(d)
        if d.kind in 'fc' and d.itemsize <= (4 if d.kind == 'f' else 8):
            t = 5e-6 if d.itemsize > 2 else 5e-3
    return t

def close(a, b, rtol=2e-12, atol=0.0):
    """same shape and same numbers up to rounding (nan equals nan)"""
    a = np.asarray(a); b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'OUS' or b.dtype.kind in 'OUS':
        return bool(np.all(a == b))
    if a.dtype.kind == 'c' or b.dtype.kind == 'c':
        odd = ~np.isfinite(a) & ~np.isfinite(b)     # which part gets the nan is up to the compiler
        if odd.any():
            a, b = np.where(odd, 0, a), np.where(odd, 0, b)
        return close(a.real, b.real, rtol, atol + rtol * _mx(b)) and close(a.imag, b.imag, rtol, atol + rtol * _mx(b))
    a = a.astype('f8'); b = b.astype('f8')
    with np.errstate(all='ignore'):
        ok = (a == b) | (np.isnan(a) & np.isnan(b))
        if ok.all():
            return True
        ok |= np.isfinite(a) & np.isfinite(b) & (np.abs(a - b) <= rtol * np.maximum(np.abs(a), np.abs(b)) + atol)
    return bool(ok.all())

def _mx(b):
    b = np.abs(b[np.isfinite(b)]) if b.size else b
    return float(b.max()) if b.size else 0.0

def exact(a, b):
    a = np.asarray(a); b = np.asarray(b)
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        return bool(((a == b) | ((a != a) & (b != b))).all())

# ------------------------------------------------------------------ observation

def obs(x):
    """everything a user can see of a value, as a comparable and printable tuple"""
    Q = pq().Quantity
    if type(x) is Raised:
        return ('raise', type(x.exc).__name__)
    if isinstance(x, Q):
        m = np.asarray(x.magnitude)
        r = (type(x).__name__, m.dtype.str, m.shape, _vals(m), units_of(x))
        if isinstance(x, pq().UncertainQuantity):
            u = x.uncertainty
            r += (obs(u) if isinstance(u, Q) else repr(u),)
        if isinstance(x, pq().UnitQuantity):
            r += (x.name, x.symbol, x.u_symbol)
        return r
    if isinstance(x, pq().dimensionality.Dimensionality):
        return ('Dimensionality', units_of_dim(x))
    if isinstance(x, np.ndarray):
        return ('ndarray', x.dtype.str, x.shape, _vals(x))
    if isinstance(x, np.generic):
        return ('ndarray', x.dtype.str, (), _vals(np.asarray(x)))
    if isinstance(x, (tuple, list)):
        return (type(x).__name__,) + tuple(obs(i) for i in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((repr(k), obs(v)) for k, v in x.items())
    if isinstance(x, float):
        return ('float', repr(x))
    return (type(x).__name__, repr(x)[:300])

def _vals(m):
    if m.dtype.kind == 'O':
        return repr(m.tolist())
    return m.tobytes() if m.size > 8 else tuple(repr(v) for v in m.ravel().tolist())

def show(x):
    if isinstance(x, Raised):
        return repr(x)
    try:
        return '%s %r' % (type(x).__name__, x)
    except Exception as e:
        return '<%s unprintable: %r>' % (type(x).__name__, e)

def program(*lines):
    return '\n'.join(('import numpy as np, quantities as pq; nan = np.nan; inf = np.inf',) + lines) + '\n'
