"""C13: histories of default-unit changes against a table from base unit to default unit."""
import itertools
import numpy as np
from ..alphabet import *

RULE = ('every sequence of default-unit changes (systems, single and several keywords, strings and units, class methods, rejected calls of every kind) from the alphabet is executed; before the first and after every '
        'step the base-unit form of a fixed set of quantities, units, uncertain quantities and unit expressions is compared with a model (physical value over a table of current defaults), is simplified again, and conversions, '
        'arithmetic, comparisons, text and results made earlier are compared with what they were at the start')
BOUNDS = {'quick': '65 operations: all sequences of 2; all sequences of 3 over 20 operations; 35 observed objects (in longer sequences a part of them that contains every base unit) and 28 invariant observations',
          'thorough': 'as quick, all sequences of 2 of 20 operations followed by one of 65, all sequences of 4 over 7'}
ASSUMPTIONS = ['defaults are single units (a composite expression as a default is not generated)']

K = {'length': 'UnitLength', 'mass': 'UnitMass', 'time': 'UnitTime', 'current': 'UnitCurrent', 'luminous_intensity': 'UnitLuminousIntensity', 'substance': 'UnitSubstance', 'temperature': 'UnitTemperature', 'information': 'UnitInformation', 'currency': 'UnitCurrency'}
SI = {'length': 'meter', 'mass': 'kilogram', 'time': 'second', 'current': 'ampere', 'luminous_intensity': 'candela', 'substance': 'mole', 'temperature': 'Kelvin'}
CGS = {'length': 'centimeter', 'mass': 'gram', 'time': 'second', 'luminous_intensity': 'candela', 'substance': 'mole', 'temperature': 'Kelvin'}

D = 'pq.set_default_units'
OPS = {
    D + '("SI")': SI, D + '("cgs")': CGS, D + '(system="si")': SI, D + '("CGS")': CGS,
    D + '("cgs", length="ft")': dict(CGS, length='foot'), D + '("SI", mass="g", time=pq.hour)': dict(SI, mass='gram', time='hour'), D + '("cgs", current="mA", length="km")': dict(CGS, current='milliampere', length='kilometer'),
    D + '(length="ft")': {'length': 'foot'}, D + '(length=pq.km)': {'length': 'kilometer'}, D + '(length=X.vell)': {'length': 'vell'}, D + '(length="vfoo")': {'length': 'vfoo'}, D + '(length="m")': {'length': 'meter'}, D + '(length="in")': {'length': 'inch'},
    D + '(mass="lb")': {'mass': 'pound'}, D + '(mass=pq.g)': {'mass': 'gram'}, D + '(time="ms")': {'time': 'millisecond'}, D + '(time=pq.day)': {'time': 'day'}, D + '(temperature="degC")': {'temperature': 'Celsius'}, D + '(temperature=pq.K)': {'temperature': 'Kelvin'},
    D + '(temperature="degF")': {'temperature': 'Fahrenheit'}, D + '(current="mA")': {'current': 'milliampere'}, D + '(current=pq.statampere)': None if 0 else 'skip', D + '(substance="mmol")': {'substance': 'millimole'}, D + '(information="byte")': {'information': 'byte'}, D + '(information=pq.bit)': {'information': 'bit'},
    D + '(currency="veur")': {'currency': 'veur'}, D + '(currency=X.usd)': {'currency': 'vusd'}, D + '(length="cm", mass="g", time="h")': {'length': 'centimeter', 'mass': 'gram', 'time': 'hour'}, D + '(luminous_intensity="cd", length="um")': {'luminous_intensity': 'candela', 'length': 'micrometer'},
    D + '()': {}, D + '(length=None)': {}, D + '(length=1*pq.yard)': {'length': 'yard'}, D + '(length=Q1)': {'length': 'foot'}, 'Q1.__imul__(2)': {}, 'Q1.__setattr__("units", "cm")': {}, 'Q1.__setitem__((), 3*Q1.units)': {},
    'pq.UnitLength.set_default_unit("cm")': {'length': 'centimeter'}, 'pq.UnitMass.set_default_unit(pq.oz)': {'mass': 'ounce'}, 'pq.UnitTime.set_default_unit(None)': {},
    # rejected
    D + '("xyz")': None, D + '("cgsx")': None, D + '("SI units")': None, D + '("mks")': None, D + '("")': None, D + '("s")': None, D + '(5)': None, D + '(length="s")': None, D + '(length="nosuch")': None, D + '(length=5)': None, D + '(length=2*pq.m)': None, D + '(mass="N")': None, D + '(length="m**2")': None, D + '(time="m")': None, D + '(current="C")': None, D + '(temperature=pq.m)': None,
    D + '(length="cm", mass="s")': None, D + '(mass="g", length="kg")': None, D + '("cgs", length="s")': None, D + '("SI", time="nosuch")': None, D + '("xyz", length="cm")': None, D + '(length="ft", nosuch="m")': None, D + '(currency="m")': None, D + '(information="s", length="mm")': None,
    D + '(length=[1, 2]*pq.m)': None, D + '(length="")': None, D + '(length=pq.dimensionless)': None, D + '(time="ms", temperature="m")': None, 'pq.UnitLength.set_default_unit("s")': None, 'pq.UnitMass.set_default_unit("nosuch")': None, D + '("cgs", mass="lb", substance="g")': None,
    D + '(mass=X.vbase)': None,
}
OPS = {k: v for k, v in OPS.items() if v != 'skip'}
SMALL = [D + '("SI")', D + '("cgs")', D + '("cgs", length="ft")', D + '(length="ft")', D + '(length=X.vell)', D + '(mass=pq.g)', D + '(time="ms")', D + '(temperature="degC")', D + '(current="mA")', D + '(currency="veur")', D + '(information="byte")', D + '(length=Q1)', 'Q1.__imul__(2)',
         'pq.UnitLength.set_default_unit("cm")', D + '(length="s")', D + '(length="cm", mass="s")', D + '("cgs", length="s")', D + '("xyz", length="cm")', D + '(length="m")', D + '(length="cm", mass="g", time="h")']
TINY = SMALL[1:4] + SMALL[7:8] + SMALL[11:13] + SMALL[15:16]
QS = ['pq.Quantity(2.5, "m")', 'pq.Quantity([1.0, -2.0], "ft")', 'pq.Quantity(3.0, "N")', 'pq.Quantity(2.0, "J/mol/K")', 'pq.Quantity(7.0, "km/h")', 'pq.Quantity(1.5, X.cu3)', 'pq.Quantity([[2.0]], X.vbaz)', 'pq.Quantity(2.0, "")', 'pq.Quantity(3.0, "percent")', 'pq.Quantity(2.0, "degC")', 'pq.Quantity(2.0, "radian/s")',
      'pq.Quantity(5, "g")', 'pq.Quantity(2.0, "m**0.5")', 'pq.Quantity(4.0, "kibibyte/s")', 'pq.Quantity(2.0, X.eur)', 'pq.Quantity(2.0, X.usd/pq.hour)', 'pq.Quantity(1.0, "V")', 'pq.Quantity(2.0, "cd/cm**2")', 'pq.Quantity(2.0, X.vkilo*pq.m)', 'pq.Quantity(3.0, "m/ft")', 'pq.Quantity(2.0, "kg**-2")', '1*pq.parsec**-3',
      '3.0*pq.m*pq.kg**2/pq.s*pq.A**3*pq.cd*pq.mol**2/pq.K*pq.bit*X.usd', 'pq.Quantity(1+2j, "ohm")', 'pq.m', 'pq.kg', 'pq.N', 'X.cu4', 'pq.constants.h', 'pq.degF', 'pq.ft', 'X.vell', 'pq.dimensionless', 'X.eur', 'pq.Quantity([], "mile")']


ALLBASE = QS[22:23]


def setup():
    define_user_units()
    g = glob()
    P = pq()
    X = g['X']
    X.usd = P.UnitCurrency('vusd', symbol='vus')
    X.eur = P.UnitCurrency('veur', 1.25 * X.usd, symbol='veu')
    global ROOT, SCALE, CODE, UOF
    CODE = {o: compile(o, o, 'eval') for o in OPS}
    # base unit of every kind, and what the units that serve as defaults are worth in it
    ROOT = {'length': 'meter', 'mass': 'kilogram', 'time': 'second', 'current': 'ampere', 'luminous_intensity': 'candela', 'substance': 'mole', 'temperature': 'Kelvin', 'information': 'bit', 'currency': 'vusd'}
    SCALE, UOF = {}, {}
    for k, n in ROOT.items():
        assert unit_phys(P.unit_registry[n]) == (1.0, ((n, 1),)), n
    for v in OPS.values():
        for k, n in (v or {}).items():
            u = P.unit_registry[n]
            s, d = unit_phys(u)
            assert d == ((ROOT[k], 1),), (n, d)
            SCALE[n] = s
            assert u.name == n, (n, u.name)
    for n in ROOT.values():
        SCALE[n] = 1.0
    for s in QS:
        phys(Expr(s).new())


def expected(x, table):
    """(value, units) of x in base units under the current defaults"""
    P = pq()
    v, d = phys(x)
    back = {ROOT[k]: n for k, n in table.items()}
    f, u = 1.0, ()
    for n, e in d:
        m = back.get(n, n)
        f *= SCALE.get(m, 1.0) ** e
        u = umul(u, ((m, e),))
    return v / f, u


def invariants(e):
    """observations which default units must not influence"""
    P = pq()
    a, b, c, k = P.Quantity([1.0, 2.0], 'm'), P.Quantity(3.0, 'ft'), P.Quantity(2.0, 'N'), P.Quantity(3.0, 'kg*cm/ms**2')
    t = [lambda: a + b, lambda: b + a, lambda: c < k, lambda: c == k, lambda: a * b, lambda: c / k, lambda: b.rescale('km'), lambda: c.rescale(k.units), lambda: (c / k).rescale(''), lambda: (a / b).dimensionless_magnitude, lambda: a == b, lambda: P.Quantity(c, k.units), lambda: str(c), lambda: repr(k),
         lambda: np.sqrt(a), lambda: P.m.rescale('inch'), lambda: P.Quantity(20.0, 'degC').rescale('K'), lambda: P.N < P.lbf, lambda: a - b, lambda: P.UncertainQuantity(2.0, 'm', 0.1).rescale('cm'), lambda: c % k, lambda: c.dimensionality > a.dimensionality, lambda: hash(P.N), lambda: P.Quantity(2.0, 'mile') ** 2,
         # a unit defined now (again and again: it is the same unit)
         lambda: (P.UnitQuantity('vfresh', P.Quantity(2.0, 'ft/ms')) * 3.0).rescale('m/s'), lambda: P.UnitQuantity('vfresh2', 3 * P.N).rescale('dyn'), lambda: P.unit_registry['vfresh'] == P.UnitQuantity('vfresh', P.Quantity(2.0, 'ft/ms')), lambda: P.CompoundUnit('N*ft').rescale('J')]
    return [obs(attempt(f)) for f in t]


class Fail(Exception):
    pass


def observe(table, objs, rec, inv, both=True):
    P = pq()
    for s, x in objs:
        lk = None
        for y in (x, Expr(s).new()) if both else (x,):
            before = obs(y)
            r = attempt(lambda: y.simplified); rec.step()
            w, u = expected(y, table)
            if raised(r):
                raise Fail(s, '%s.simplified %r' % (s, r))
            if isinstance(r, P.UnitQuantity) and not (isinstance(y, P.UnitQuantity)):
                raise Fail(s, '%s.simplified is a unit' % s)
            if units_of(r) != u or not close(r.magnitude, w, 1e-11):
                raise Fail(s, '%s.simplified is %s, expected %r %r' % (s, show(r), w, u))
            r2 = attempt(lambda: r.simplified); rec.step()
            if raised(r2) or units_of(r2) != u or not close(r2.magnitude, w, 1e-11):
                raise Fail(s, 'simplifying %s twice gives %s, once %s' % (s, show(r2), show(r)))
            if obs(y) != before:
                raise Fail(s, 'simplified changes %s' % s)
            d = attempt(lambda: y.dimensionality.simplified); rec.step()
            if raised(d) or units_of_dim(d) != u:
                raise Fail(s, '%s.dimensionality.simplified is %r, expected %r' % (s, d, u))
            o = (obs(r), u)
            if lk is not None and o != lk:
                raise Fail(s, 'equal quantities %s are simplified to %r and %r' % (s, o, lk))
            lk = o
        rec.outcome(lk)
    for src in ('pq.UncertainQuantity([1.0, 2.0], "ft", [0.1, 0.2])', 'pq.UncertainQuantity(2.0, "N", 0.5)'):
        y = Expr(src).new()
        r = attempt(lambda: y.simplified); rec.step()
        w, u = expected(y, table)
        wu, _ = expected(y.uncertainty, table)
        if raised(r) or units_of(r) != u or not close(r.magnitude, w, 1e-11) or units_of(r.uncertainty) != u or not close(r.uncertainty.magnitude, wu, 1e-11):
            raise Fail(src, '%s.simplified is %s with uncertainty %s, expected %r and %r %r' % (src, show(r), show(getattr(r, 'uncertainty', None)), w, wu, u))
    if inv is not None:
        now = invariants(None); rec.step(len(now))
        if now != inv:
            raise Fail('invariant', 'observation %d has changed: %r' % next((i, (a, b)) for i, (a, b) in enumerate(zip(inv, now)) if a != b))


def reset():
    P = pq()
    for k, c in K.items():
        getattr(P.unitquantity, c).set_default_unit(P.unit_registry[ROOT[k]])


def history(rec, hist, inv):
    P = pq()
    key = lambda s: '%s|%s' % (s, ' ; '.join(hist))
    src = lambda: program(USER_SRC, 'X.usd = pq.UnitCurrency("vusd"); X.eur = pq.UnitCurrency("veur", 1.25*X.usd); Q1 = 1*pq.ft', *['try: %s\nexcept Exception as e: print(repr(e))' % h for h in hist] + ['print([q.simplified for q in (pq.N, pq.mile, 3*pq.kg/pq.day, X.eur)])'])
    reset()
    table = dict(ROOT)
    g = dict(glob(), Q1=P.Quantity(1.0, 'ft'))
    objs = [(s, Expr(s).new()) for s in ALLBASE + QS[::1 if rec.tier == 'thorough' else 2] + ['pq.N', 'pq.ft']]
    old = []
    try:
        observe(table, objs[::6], rec, None)
        for i, op in enumerate(hist):
            old += [(q, obs(q)) for q in [x.simplified for _, x in objs[::5]]]
            eff = OPS[op]
            r = attempt(eval, CODE[op], g); rec.step()
            if (eff is None) != raised(r) and not op.startswith('Q1') and not (op.endswith('(length=1*pq.yard)') or 'Q1' in op):
                raise Fail(op, '%s %s' % (op, 'is accepted' if eff is None else 'raises %r' % r))
            if op == D + '(length=Q1)':
                q1 = g['Q1']
                if raised(r):
                    eff = {}
                elif not q1.magnitude == 1:
                    raise Fail(op, '%s is accepted with a magnitude of %s' % (op, q1.magnitude))
                else:
                    eff = {'length': 'centimeter' if 'centimeter' in dict(units_of(q1)) else 'foot'}
            elif raised(r):
                eff = {}
            table.update(eff or {})
            last = i == len(hist) - 1
            observe(table, (objs if len(hist) < 3 else objs[:1] + objs[1 + len(''.join(hist)) % 3::3]) if last else objs[::5 if len(hist) < 3 else 9], rec, inv if last and (len(hist) < 3 or len(''.join(hist)) % 8 == 0) else None, len(hist) < 3)
            for q, o in old:
                if obs(q) != o:
                    raise Fail(op, 'an existing quantity has changed from %r to %r' % (o, obs(q)))
    except Fail as e:
        rec.fail(key(e.args[0]), 'after %s: %s' % ('; '.join(hist), e.args[1]), src()); return False
    finally:
        reset()
    rec.case('; '.join(hist)); rec.trace()
    return True


def chunks(tier):
    ops = list(OPS)
    if tier == 'quick':
        return [['full', i, 2] for i in range(len(ops))] + [['small', i, 3] for i in range(len(SMALL))]
    return [['full', i, 2] for i in range(len(ops))] + [['small', i, 3] for i in range(len(SMALL))] + [['mixed', i, 3, j] for i in range(len(SMALL)) for j in range(4)] + [['tiny', i, 4] for i in range(len(TINY))]


def run(desc, rec):
    kind, i, n = desc[:3]
    A = list(OPS) if kind == 'full' else TINY if kind == 'tiny' else SMALL
    # the defaults of a fresh process
    P = pq()
    if i == 0:
        try:
            observe(dict(ROOT), [(s, Expr(s).new()) for s in QS], rec, None)
        except Fail as e:
            rec.fail('start|%s' % e.args[0], e.args[1]); return
    inv = invariants(None)
    if kind == 'full' and not history(rec, [A[i]], inv):
        return
    bad = 0
    for rest in itertools.product(A, repeat=n - 1) if kind != 'mixed' else itertools.islice(itertools.product(SMALL, OPS), desc[3], None, 4):
        if not history(rec, [A[i]] + list(rest), inv):
            bad += 1
            if bad > 20:
                return
