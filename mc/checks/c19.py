"""C19: preferred units, every list up to the bound x every quantity x every setting, and histories of settings."""
import itertools
import numpy as np
from ..alphabet import *

RULE = ('every preferred list up to the length bound over the entry alphabet (units, products, compound and user-defined units, constants, ratios, fractional powers, in every order and with repetitions), as a list or a tuple, is set; '
        'every quantity of the alphabet is rescaled with rescale() and rescale_preferred() and compared with the first entry of the same base dimensions, by value, units, class and dtype, or has to raise; '
        'quantity and list are compared before and after; the short lists are repeated under other default units and with the unicode option; and histories of list changes, default units, registrations and failures are followed by all probes')
BOUNDS = {'quick': '28 entries: all lists of length <= 2 x 40 quantities x 6 settings; 14 entries: all lists of length 3 x 16 quantities; all histories of 3 of 23 changes x 10 probes',
          'thorough': 'as quick with lists of length <= 2 x all quantities x 12 settings, length 3 over 28 entries x 16 quantities, length 4 over 9 entries, all histories of 4 of 16 changes'}
ASSUMPTIONS = ['entries of the list have magnitude one (what an entry like 2*pq.m means is not specified)', 'entries are units or quantities, not strings']

ENTRIES = ['m', 'ft', 's', 'mV', (('J', 1), ('C', -1)), 'X.cu3', (('m', 1), ('s', -1)), 'X.vfoo', 'percent', 'dimensionless', 'N', (('kg', 1), ('cm', 1), ('ms', -2)), (('m', 0.5),), 'X.vkilo',   # the first 14 are the short alphabet
           'pq.constants.Bohr_radius', 'degC', (('s', -1),), 'Hz', 'X.vsqrt', 'byte', 'X.cu2', (('m', -2),), 'kg', 'X.vbaz', 'radian', 'pq.constants.natural_unit_of_velocity', 'X.vweird', (('ft', 1), ('s', 1))]
QUANT = ['pq.Quantity(2.5, "km")', 'pq.Quantity([1.0, -2.0], "ft")', 'pq.Quantity(3.0, "V")', 'pq.Quantity([[1.0, 2.0]], "km/h")', 'pq.Quantity(2.0, "s")', 'pq.Quantity(5.0, "m/ft")', 'pq.Quantity(2.0, "dyne")', 'pq.Quantity(4.0, "cm**0.5")', 'pq.Quantity(2.0, X.vbase)', 'pq.m', 'pq.Quantity(2.0, "mol")',
         'pq.Quantity(0.5, "")', 'pq.Quantity(3.0, X.cu3)', 'pq.UncertainQuantity([1.0, 2.0], "inch", [0.1, 0.2])', 'pq.Quantity(1.5, "mV")', 'pq.Quantity(1+2j, "nm")',
         # the first 16 are the short alphabet
         'pq.Quantity([1, 2, 3], "mile")', 'pq.Quantity(np.array([1.0, 2.0], dtype="f4"), "cm")', 'pq.Quantity(7, "m")', 'pq.Quantity([], "yard")', 'pq.Quantity(2.0, "K")', 'pq.Quantity(2.0, "Hz")', 'pq.Quantity(2.0, "1/minute")', 'pq.Quantity(2.0, "bit")', 'pq.Quantity(2.0, X.cu2)', 'pq.Quantity(2.0, "1/ft**2")', 'X.vfoo', 'pq.c', 'pq.dimensionless',
         'pq.Quantity(2.0, "degree")', 'X.cu4', 'pq.Quantity([nan, inf, 0.0], "um")', 'pq.Quantity(3.0, "g")', 'pq.Quantity(2.0, "J*m**0.5/s")', 'pq.UncertainQuantity(2.0, "lbf", 0.5)', 'pq.percent', 'pq.Quantity(np.asfortranarray([[1.0, 2.0], [3.0, 4.0]]), "m/day")', 'pq.Quantity(2.0, X.vell)', '3*X.vweird', '2*pq.m*pq.s']
D = 'pq.set_default_units'
SETTINGS = ['', D + '("cgs")', D + '(length="ft", mass="g")', 'pq.markup.config.use_unicode = True', D + '(time="h", current="mA")', D + '("cgs"); pq.set_default_units(length=X.vell)',
            D + '(temperature="degF")', D + '("cgs", current="mA"); pq.markup.config.use_unicode = True', D + '(information="byte", mass="lb")', D + '("SI")', 'pq.markup.config.use_unicode = False', D + '(length="inch", time="ms", mass="ton")']


class Q:
    def __init__(self, src):
        self.e = Expr(src); self.src = src
        x = self.e.new()
        v, self.dims = phys(x)
        self.value = np.array(v)
        self.unc = isinstance(x, pq().UncertainQuantity)
        self.uvalue = np.array(phys(x.uncertainty)[0]) if self.unc else None
        self.dtype = np.asarray(x.magnitude).dtype
        self.units = units_of(x)
    def new(self): return self.e.new()


def setup():
    define_user_units()
    glob()['X'].vweird = pq().UnitQuantity('vweird', symbol='m*s')      # prints like a product of metres and seconds
    global EN, QN
    EN = mk_units(*ENTRIES)
    EN = [U() if u.src == 'pq.dimensionless' else u for u in EN]
    for u in EN: u.model()
    QN = [Q(s) for s in QUANT]


def probe(rec, q, lst, ctx, src, how):
    """the observations are made with the unicode option off, on which names of compound units depend"""
    c = pq().markup.config
    uni = c.use_unicode
    try:
        return probe_(rec, q, lst, ctx, src, how, uni)
    finally:
        c.use_unicode = uni


def probe_(rec, q, lst, ctx, src, how, uni):
    """lst: the U entries which are in force"""
    P = pq()
    cfg = P.markup.config
    cfg.use_unicode = False
    x = q.new(); o = obs(x)
    want = next((u for u in lst if u.dims == q.dims), None)
    cfg.use_unicode = uni
    r = attempt(lambda: x.rescale() if how == 0 else x.rescale_preferred() if how == 1 else x.rescale(None)); rec.step()
    cfg.use_unicode = False
    name = ('rescale()', 'rescale_preferred()', 'rescale(None)')[how]
    key = lambda k: '%s|%s|%s|%s' % (k, name, q.src, ctx)
    if obs(x) != o:
        rec.fail(key('operand'), 'the quantity has changed from %r to %r' % (o, obs(x)), src); return False
    if want is None:
        if not raised(r):
            rec.fail(key('accepted'), 'no entry is compatible, but it gives %s' % show(r), src); return False
        rec.outcome('raise'); return True
    if raised(r):
        rec.fail(key('raises'), 'expected a conversion to %s, but it %r' % (want, r), src); return False
    if units_of(r) != want.units:
        rec.fail(key('units'), 'expected units %r, got %s' % (want.units, show(r)), src); return False
    tol = tol_for(q.dtype)
    if not close(np.asarray(r.magnitude), q.value / want.scale, tol) :
        rec.fail(key('value'), 'expected %r, got %s' % (q.value / want.scale, show(r)), src); return False
    if isinstance(r, P.UnitQuantity) or isinstance(r, P.UncertainQuantity) != q.unc or not isinstance(r, P.Quantity):
        rec.fail(key('class'), 'the result is %s' % show(r), src); return False
    if q.unc and (units_of(r.uncertainty) != want.units or not close(r.uncertainty.magnitude, q.uvalue / want.scale, tol)):
        rec.fail(key('uncertainty'), 'the uncertainty is %s' % show(r.uncertainty), src); return False
    if r.shape != q.value.shape:
        rec.fail(key('shape'), 'the result has shape %r' % (r.shape,), src); return False
    # a copy which can be changed
    try:
        r[...] = 7 * r.units
        r *= P.kg
    except Exception:
        pass
    if obs(x) != o:
        rec.fail(key('shared'), 'changing the result changes the quantity', src); return False
    rec.outcome((want.src, q.units))
    return True


def the_list(P, lst, tup=False):
    objs = [u.obj() for u in lst]
    return tuple(objs) if tup else objs


def lists(rec, ls, quants, setting):
    P = pq()
    for lst in ls:
        L = the_list(P, lst, len(lst) == 2 and lst[0] is lst[1])
        P.quantity.PREFERRED = L
        before = [(id(u), obs(u)) for u in L]
        ctx = '%s|%s' % ([u.src for u in lst], setting)
        src = None
        for i, q in enumerate(quants):
            src = program(USER_SRC, setting or '# default settings', 'pq.quantity.PREFERRED = [%s]' % ', '.join(u.src for u in lst), 'print(repr((%s).rescale()))' % q.src)
            if not probe(rec, q, lst, ctx, src, (i + len(lst)) % 3 if len(lst) > 1 else 0): break
            if len(lst) < 2 and not (probe(rec, q, lst, ctx, src, 1) and probe(rec, q, lst, ctx, src, 2)): break
        if [(id(u), obs(u)) for u in L] != before or P.quantity.PREFERRED is not L:
            rec.fail('list|%s' % ctx, 'the preferred list has changed from %r to %r' % (before, P.quantity.PREFERRED), src)
        rec.case(ctx); rec.trace()
    P.quantity.PREFERRED = []


# ------------------------------------------------------------------ histories
CHANGES = ['L = [pq.m, pq.mV, X.cu3]', 'L = [pq.ft, pq.m]', 'L = []', 'L = [pq.s, pq.percent, pq.N, pq.m/pq.s]', 'L.append(pq.ft)', 'L.insert(0, pq.cm)', 'L.insert(0, pq.J/pq.C)', 'L.reverse()', 'L.pop(0)', 'L.clear()', 'L = L + [pq.km/pq.hour, X.vell]', 'L[:] = [X.vkilo, pq.inch]', 'L = [pq.dimensionless] + L',
           D + '("cgs")', D + '(length="ft", time="h")', D + '("SI")', 'pq.markup.config.use_unicode = True', 'pq.markup.config.use_unicode = False', 'FAIL pq.mol.rescale()', 'FAIL pq.Quantity(1, "kat").rescale_preferred()', 'NEW', 'pq.m.rescale("cm")', 'FAIL ' + D + '(length="s")']
SHORT = [0, 1, 2, 4, 5, 7, 8, 9, 11, 13, 14, 15, 16, 18, 20, 3]
PROBES = [0, 1, 2, 3, 4, 5, 6, 8, 9, 13]


def history(rec, hist, base):
    P = pq()
    g = dict(glob(), L=[])
    model = {'L': []}
    lookup = {}
    reset(P)
    n = 0
    ctx = ' ; '.join(hist)
    src = program(USER_SRC, 'L = []', *['# %s; pq.quantity.PREFERRED = L' % h for h in hist])
    P.quantity.PREFERRED = g['L']
    try:
        for i, h in enumerate(hist):
            if h.startswith('L'):
                if 'pop' in h and not g['L']: return
                exec(h, g)
                P.quantity.PREFERRED = g['L']
            elif h == 'NEW':
                n += 1
                nm = 'vpref%d_%d' % (base, len(_registered))
                _registered.append(nm)
                u = P.UnitQuantity(nm, 2.5 * P.m, symbol=nm + 's')
                g['L'].insert(0, u)
            elif h.startswith('FAIL'):
                r = attempt(eval, h[5:], g)
                if not raised(r):
                    if 'set_default' in h or 'kat' in h or 'mol' in h:
                        rec.fail('accepted|%s' % ctx, '%s is accepted: %s' % (h, show(r)), src); return
            else:
                exec(h, g)
            rec.step()
            uni = P.markup.config.use_unicode; P.markup.config.use_unicode = False
            lst = [Entry(u) for u in g['L']]
            P.markup.config.use_unicode = uni
            last = i == len(hist) - 1
            for k, j in enumerate(PROBES if last else PROBES[i::4]):
                if not probe(rec, QN[j], lst, ctx, src, (i + k) % 3):
                    return
            if any(a is not b for a, b in zip(P.quantity.PREFERRED, g['L'])) or len(P.quantity.PREFERRED) != len(lst):
                rec.fail('list|%s' % ctx, 'the preferred list has changed', src); return
        rec.case(ctx); rec.trace()
    finally:
        reset(P)


_registered = []


class Entry:
    """an object in the list, through the model of its units"""
    def __init__(self, u):
        self.scale, self.dims = dim_phys(u.dimensionality)
        self.units = units_of(u)
        self.src = repr(self.units)
    def __repr__(self): return self.src


def reset(P):
    P.quantity.PREFERRED = []
    P.markup.config.use_unicode = False
    P.set_default_units('SI')
    P.set_default_units(information='bit')


def chunks(tier):
    n = len(EN)
    r = [['short', i, s] for i in range(n) for s in range(6 if tier == 'quick' else 12)]
    r += [['three', i, 14 if tier == 'quick' else n] for i in range(14 if tier == 'quick' else n)]
    if tier == 'thorough': r += [['four', i, 9] for i in range(9)]
    r += [['hist', i, 3] for i in range(len(CHANGES))]
    if tier == 'thorough': r += [['hist4', i, 4] for i in SHORT]
    return r


def run(desc, rec):
    P = pq()
    kind, i, s = desc
    reset(P)
    if kind == 'short':
        if SETTINGS[s]: exec(SETTINGS[s], dict(glob()))
        quants = QN if rec.tier == 'thorough' or s == 0 else QN[s % 2::2]
        ls = [[EN[i]]] + [[EN[i], e] for e in EN]
        if i == 0: ls = [[]] + ls
        lists(rec, ls, quants, SETTINGS[s])
    elif kind == 'three':
        lists(rec, [[EN[i], a, b] for a in EN[:s] for b in EN[:s]], QN[:16], '')
    elif kind == 'four':
        lists(rec, [[EN[i], a, b, c] for a in EN[:s] for b in EN[:s] for c in EN[:s]], QN[:16], '')
    elif kind == 'hist':
        history(rec, [CHANGES[i]], i)
        for rest in itertools.product(CHANGES, repeat=2):
            history(rec, [CHANGES[i]] + list(rest), i)
    else:
        for rest in itertools.product([CHANGES[k] for k in SHORT], repeat=3):
            history(rec, [CHANGES[i]] + list(rest), i)
    reset(P)
