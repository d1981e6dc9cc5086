"""Shared alphabets: unit expressions, user-defined units, operands."""
import itertools, types
from .model import *

USER_DEFS = [   # attribute of X, definition source; registered once in the parent process
    ('vfoo', "pq.UnitQuantity('vfoo', 0.3*pq.m, symbol='vfo')"),
    ('vbar', "pq.UnitQuantity('vbar', 7.5*X.vfoo/pq.s)"),
    ('vbaz', "pq.UnitQuantity('vbaz', 4*X.vbar**2*pq.kg, symbol='vbz', aliases=['vbazes'])"),
    ('vdoz', "pq.UnitQuantity('vdozen', 12, symbol='vdz')"),
    ('vbase', "pq.UnitQuantity('vbase')"),
    ('vkilo', "pq.UnitQuantity('vkilobase', 1000*X.vbase, symbol='vkb')"),
    ('vell', "pq.UnitLength('vell', 1.25*pq.m, symbol='vel')"),
    ('vsqrt', "pq.UnitQuantity('vsqrt', 3*pq.cm**0.5)"),
    ('vtwin', "pq.UnitConstant('vtwin', 2.0*pq.m, symbol='vfo')"),      # prints like vfoo
    ('vnear', "pq.UnitQuantity('vnear', 1.0000003*pq.m, symbol='vnr')"),  # nearly a metre
    ('cu1', "pq.CompoundUnit('m**2/m**3')"),
    ('cu2', "pq.CompoundUnit('parsec/cm**3')"),
    ('cu3', "pq.CompoundUnit('km/h')"),
    ('cu4', "pq.CompoundUnit('vfoo*N/g')"),
]
USER_SRC = "class X: pass\n" + '\n'.join('X.%s = %s' % d for d in USER_DEFS)

_done = False
def define_user_units():
    global _done
    if _done:
        return
    _done = True
    X = types.SimpleNamespace()
    g = glob()
    g['X'] = X
    for n, src in USER_DEFS:
        setattr(X, n, eval(src, g))


class U:
    """A unit expression: factors [(source of the unit object, power)]."""
    def __init__(self, *factors, string=None):
        self.factors = factors
        self.src = '*'.join(s if p == 1 else '%s**%s' % (s, ('(%r)' % p) if p < 0 else repr(p)) for s, p in factors) or 'pq.dimensionless'
        self.expr = Expr(self.src)
        self._string = string
        self._model = None

    def objs(self):
        return [(Expr(s).new(), p) for s, p in self.factors]

    def model(self):
        """(units tuple, scale, base dims) computed from the definitions of the factors only"""
        if self._model is None:
            u, s, d = (), 1.0, ()
            for o, p in self.objs():
                so, do = unit_phys(o)
                if not isinstance(o, pq().unitquantity.Dimensionless):
                    u = umul(u, ((uname(o), p),))
                s *= so ** p
                d = umul(d, upow(do, p))
            self._model = (u, s, d)
        return self._model
    units = property(lambda s: s.model()[0])
    scale = property(lambda s: s.model()[1])
    dims = property(lambda s: s.model()[2])

    def obj(self):
        return self.expr.new()

    @property
    def string(self):
        """the same expression as a unit string (None if a factor has no label)"""
        if self._string is not None:
            return self._string
        out = []
        for o, p in self.objs():
            if isinstance(o, (pq().UnitConstant, pq().CompoundUnit)):
                return None
            out.append(o.name + ('' if p == 1 else '**%s' % ('(%r)' % p if p < 0 else repr(p))))
        return '*'.join(out) or 'dimensionless'

    def __repr__(self):
        return self.src


def u1(*names):
    return [U((n if '.' in n else 'pq.' + n, 1)) for n in names]

def unit_alphabet(tier='quick'):
    """unit expressions in groups of equal physical dimension (several groups of two or more)"""
    define_user_units()
    c = 'pq.constants.'
    A = []
    A += u1('m', 'cm', 'ft', 'X.vfoo', 'X.vell', 'X.vtwin', 'X.vnear') + [U((c + 'Bohr_radius', 1))]
    A += [U(('pq.km', 1), ('pq.h', -1)), U(('pq.m', 1), ('pq.s', -1)), U(('X.cu3', 1)), U(('X.vbar', 1)), U((c + 'natural_unit_of_velocity', 1)), U(('pq.Hz', 1), ('pq.mile', 1))]
    A += [U(('pq.N', 1)), U(('pq.kg', 1), ('pq.m', 1), ('pq.s', -2)), U(('pq.lbf', 1)), U(('pq.eV', 1), ('pq.angstrom', -1))]
    A += [U(('pq.J', 1)), U(('pq.eV', 1)), U((c + 'electron_volt', 1)), U(('pq.cal', 1)), U(('X.vbaz', 1)), U(('pq.W', 1), ('pq.h', 1)), U(('pq.g', 1), ('pq.cm', 2), ('pq.ms', -2)), U((c + 'Rydberg_constant_times_hc_in_J', 1))]
    A += [U(('pq.m', -1)), U(('pq.inch', -1)), U(('X.cu1', 1)), U(('pq.L', 1), ('pq.m', -4))]
    A += [U(('pq.m', 0.5)), U(('X.vsqrt', 1)), U(('pq.ft', 0.5))]
    A += [U(('pq.m', 2)), U(('pq.acre', 1)), U(('X.vfoo', 2)), U(('pq.ft', 3), ('pq.cm', -1))]
    A += [U(), U(('pq.percent', 1)), U(('pq.radian', 1)), U(('pq.degree', 1)), U(('X.vdoz', 1)), U(('pq.m', 1), ('pq.ft', -1)), U(('pq.rad', 2)), U((c + 'fine_structure_constant', 1))]
    A += u1('degC', 'degF', 'K')
    A += [U(('X.cu2', 1)), U(('pq.parsec', 1), ('pq.cm', -3)), U(('pq.m', -2))]
    A += u1('X.vbase', 'X.vkilo') + [U(('X.vkilo', -2)), U(('X.vbase', -2))]
    A += u1('s', 'hour') + [U(('pq.Hz', -1))]
    A += [U(('pq.B', 1), ('pq.s', -1)), U(('pq.Bd', 1)), U(('pq.kibibyte', 1), ('pq.ms', -1))]
    A += [U(('pq.mol', 1), ('pq.L', -1)), U(('pq.molar', 1)), U(('pq.mol', 1), ('pq.barn', -1), ('pq.angstrom', -1))]
    A += [U(('X.cu4', 1)), U(('X.cu4', 2)), U(('pq.m', 2), ('pq.s', -2)), U(('pq.Gy', 1)), U(('X.cu3', 2))]
    A += [U(('pq.statcoulomb', 1)), U(('pq.g', 0.5), ('pq.cm', 1.5), ('pq.s', -1))]
    A += [U(('pq.m', 11)), U(('pq.cm', 11)), U(('pq.m', 10), ('pq.ft', 1))]
    return A

def group(A):
    g = {}
    for u in A:
        g.setdefault(u.dims, []).append(u)
    return g

# operands: (source with %s for the units, dtype, needs) - simplest first
def arrays(tier='quick'):
    """sources of magnitudes: every dtype on a few shapes, every shape and layout on a few dtypes, special values"""
    out = ['2.0', 'np.array([1.1, -2.3, 4.7])', 'np.array([[1.0, 2.0], [3.5, -4.0]])']
    for dt in ('i1', 'i2', 'i4', 'i8', 'u1', 'u8', '?', 'f4', 'f8', '>f8', '>i4', 'c8', 'c16', 'g'):
        for v in ('3', '[1, 2, 7]'):
            out.append("np.array(%s, dtype=%r)" % (v, dt))
    for s in ('np.array([0.25, 3.0], dtype="e")', 'np.array(1e-3, dtype="e")', 'np.array([1e-30, 2.0], dtype="f4")', 'np.array([0.1])', 'np.zeros((0,))', 'np.zeros((2, 0))', 'np.ones((1, 1))', 'np.arange(12.0).reshape(2, 3, 2)/7',
              "np.asfortranarray(np.arange(6.0).reshape(2, 3)/3)", '(np.arange(10.0)/7)[::-3]', '(np.arange(12.0)/7).reshape(3, 4).T',
              '(np.arange(12.0)/9).reshape(3, 4)[1:, ::2]', 'np.broadcast_to(np.float64(3.0), (2, 2))',
              'np.array([nan, inf, -inf, 0.0, -0.0])', 'np.array([1e300, -1e-300, 5e-324, 1e-15])', 'np.arange(1000.0)/7', 'np.sin(np.arange(9000.0))', 'np.arange(64.0).reshape(2, 2, 2, 2, 2, 2)', '(np.arange(32.0)/3).reshape(2, 2, 2, 2, 2).T',
              'np.float32(2.5)', 'np.int64(9)', '7', '[[1, 2], [3, 4]]', '(1.1, 2.3)', 'True', '1+2j', '10**15', 'range(4)',
              'np.arange(6, dtype="i4").reshape(2,3)[:, ::2]', 'np.array([2**53-1, 12345678901])', 'np.array([1.1+2.3j, -3.7j])',
              'np.zeros(3)', '0.0', '(np.arange(24.0)/7).reshape(2, 3, 4)[:, ::2]', '(np.arange(24.0)/7).reshape(2, 3, 4).transpose(2, 0, 1)', '(np.arange(16.0)/7).reshape(2, 2, 2, 2)[::-1]', "np.zeros((2, 2), dtype='i4')"):
        out.append(s)
    return out


class Opd:
    """An operand: a fresh object every time, and what the model knows of it.
    kind: quantity, unit (a unit object or constant), plain"""
    def __init__(self, kind, mag, u=None):
        self.kind, self.u = kind, u
        self.magsrc = mag
        self._mag = Expr(mag)
        if kind == 'quantity':
            self.src = 'pq.Quantity(%s, %s)' % (mag, u.src)
            self._e = None
        else:
            self.src = u.src if kind == 'unit' else mag
        self.zero = False
        m = np.asarray(self._mag.new())
        self.mag = np.array(m, subok=False)
        self.units = () if kind == 'plain' else u.units
        self.scale = 1.0 if kind == 'plain' else u.scale
        self.dims = () if kind == 'plain' else u.dims

    def new(self):
        if self.kind == 'plain':
            return self._mag.new()
        if self.kind == 'unit':
            return self.u.obj()
        return pq().Quantity(self._mag.new(), self.u.obj())

    def __repr__(self):
        return self.src


def mk_units(*names):
    out = []
    for n in names:
        if isinstance(n, tuple):
            out.append(U(*[(x if '.' in x else 'pq.' + x, p) for x, p in n]))
        else:
            out += u1(n)
    return out


OP_UNITS = ['m', 'cm', 'X.vfoo', 'X.vtwin', 'X.vnear', 's', (('km', 1), ('hour', -1)), (('m', 1), ('s', -1)), 'X.cu3', 'N',
            (('kg', 1), ('m', 1), ('s', -2)), 'J', 'percent', 'radian', 'degree', (), (('m', 1), ('ft', -1)), (('m', 0.5),), (('m', -2),), 'X.cu2', 'degC', 'K']
OP_SINGLE = ['m', 'ft', 'X.vfoo', 'X.cu3', 's', 'N', 'percent', 'dimensionless', 'radian', 'X.cu2', 'X.vbase',
             'pq.constants.natural_unit_of_velocity', 'pq.constants.fine_structure_constant', 'pq.constants.Bohr_radius', 'K', 'degC']
PLAIN = ['3', '2.5', '-1.5', '0', '0.0', 'True', 'np.float64(2.0)', 'np.float32(2.5)', 'np.int64(2)', '1', '1.0', '2', '-2', '0.5',
         '[1, 2, 7]', '(1.5, -2.0, 4.0)', 'np.array([1.0, -2.0, 4.0])', 'np.array([2, 2, 2])', 'np.array(2.0)', 'np.array([[1.0], [2.0]])',
         'np.array([0.0, 0.0, 0.0])', 'np.array([2.0, 2.0])', '1j', 'nan', 'inf']
MAGS = ['2.5', '7', 'np.array([1.0, -2.0, 4.0])', 'np.array([1, 2, 7])', '0.0', '-3.0', 'np.array([[1.5], [2.0]])', "np.array([1.5, 2.5, 0.25], dtype='f4')",
        'np.array([nan, inf, 0.0])', '100.0', '1', 'np.array([2.0])', 'np.zeros((0,))', 'np.array([1+2j, 3.0, -1j])', 'np.asfortranarray([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]])',
        'np.array([2.0, 2.0, 2.0])', "np.arange(6.0)[::-2]"]

# every shape with every shape, in few units
SHAPED = MAGS + ['np.sin(np.arange(9000.0))', 'np.zeros((2, 0))', 'np.arange(12.0).reshape(2, 3, 2)/7', 'np.array([[[2.5]]])', 'np.array([-0.0, 0.0, 5e-324])', '(np.arange(18.0)/4).reshape(3, 2, 3)[::-1, :, ::2]', 'np.array([[1, 2, 7], [-4, 5, 6]])']


def shaped():
    return operands(['m', 'X.vfoo', 's', 'percent', ()], SHAPED, ['m', 'km', 'percent', 'dimensionless'], PLAIN + ['np.zeros((0,))', 'np.arange(12.0).reshape(2, 3, 2)', 'np.zeros((2, 0))', '[]', '[[1.0, 2.0, 3.0]]'])


def operands(units=OP_UNITS, mags=MAGS, single=OP_SINGLE, plain=PLAIN):
    define_user_units()
    r = [Opd('plain', p) for p in plain]
    r += [Opd('unit', '1.0', u) for u in mk_units(*[s for s in single if s != 'dimensionless'])]
    if 'dimensionless' in single:
        r.append(Opd('unit', '1.0', U()))
    for i, u in enumerate(mk_units(*[x if x != () else 'dimensionless' for x in units])):
        if u.src == 'pq.dimensionless':
            u = U()
        for j, m in enumerate(mags):
            r.append(Opd('quantity', m, u))
    return r
