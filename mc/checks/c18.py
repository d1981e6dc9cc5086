"""C18: results depend on the arguments only: histories in fresh processes, followed by every probe."""
import copy, itertools, operator, os, pickle
import numpy as np
from ..alphabet import *

RULE = ('what each operation of the alphabet gives (value, dtype, shape, class, units, text, or that it raises) is recorded in a process of its own; then every sequence of operations up to the depth bound is executed in a process of its own, every returned object is changed in place in every way that is accepted, '
        'every operation is executed again (in two orders) and its result compared bit by bit with the record; and every operation is repeated on the same operands, and after every change of its operand compared with the same operation on a fresh equal operand')
BOUNDS = {'quick': '329 operations: all sequences of 1, all sequences of 329 x 8, each followed by all 329; every operation twice on the same operands; 329 operations x 9 changes of the operand',
          'thorough': 'in addition all sequences of 329 x 24 and of 329 x 6 x 6, each followed by all 329, and all sequences of 329 x 329, each followed by a third of the 329'}
ASSUMPTIONS = ['calls that change a setting (unicode option, default units, preferred units) are followed by the call that restores it', 'bit-for-bit equal results: the arithmetic is deterministic on one machine']

SETUP = {'q': 'pq.Quantity([1.0, 2.0, 4.0], "km/h")', 'p': 'pq.Quantity(2.5, "ft")', 'a': 'pq.Quantity([3.0, -1.0, 2.0], "m")', 'u': 'pq.UncertainQuantity([1.0, 2.0], "m", [0.1, 0.2])', 'k': 'pq.Quantity(3.0, X.cu3)', 'f': 'pq.Quantity(np.array([1.5, 2.5], dtype="f4"), "km")', 'z': 'pq.Quantity([0.5, 2.0], "")', 'n': 'pq.Quantity(50.0, "percent")', 'g': 'pq.Quantity([0.5, 0.25], "radian")',
         'i': 'pq.Quantity([1, 2, 7], "cm")', 'w': 'pq.Quantity([[1.0, 2.0], [3.0, 4.0]], "kg*m/s**2")'}
OPS = '''q.rescale("m/s") | q.rescale(pq.mile/pq.hour) | p.rescale("m") | p.rescale(pq.m) | p.rescale("ft") | p.rescale(X.vfoo) | k.rescale("m/s") | k.simplified | p.simplified | q.simplified | a.simplified | u.rescale("cm") | u.simplified | n.rescale("") | pq.N.simplified | pq.N.rescale("lbf") | pq.constants.h.simplified | pq.degC.rescale("K")
z.dimensionless_magnitude | p.rescale("s") | p.rescale("nosuch") | p.rescale(2*pq.m) | f.rescale("m") | f.rescale("m", dtype="f8") | p.rescale("m", dtype="f4") | X.cu3.simplified | X.vbaz.simplified | X.cu2.rescale("1/m**2") | i.rescale("m") | w.rescale("N") | w.simplified | pq.m.simplified | pq.ft.rescale("m") | pq.kg.simplified | pq.dimensionless.simplified
pq.Quantity(1.0, "m") | pq.Quantity(1.0, "metre") | pq.Quantity(2.0, "kg*m/s**2") | pq.Quantity(2.0, "m/s**2") | pq.Quantity(2.0, "m**2/s") | pq.unit_registry["km/h"] | pq.unit_registry["m"] | pq.unit_registry["M"] | pq.Quantity(1, "mM") | pq.Quantity(1.0, "MM") | pq.Quantity(1, "2*m") | pq.Quantity(1, "m+s") | pq.unit_registry["m**"] | pq.unit_registry["1/s"] | pq.unit_registry["m*m"] | pq.unit_registry["m^2"] | pq.unit_registry["m s"]
pq.CompoundUnit("km/h") | pq.CompoundUnit("m**2/m**3") | pq.CompoundUnit("nosuch") | pq.unit_registry["µm"] | pq.Quantity(1.0, "degC") | pq.unit_registry[""] | pq.unit_registry["kilometer/hour"] | pq.unit_registry["dimensionless"] | pq.Quantity(3.0, "1") | pq.Quantity(1.0, X.cu3) | pq.Quantity(1.0, a.dimensionality) | pq.Quantity(z, "percent") | pq.Quantity(1.0, "") | 3*pq.Quantity(1.0, "in")
a + p | p + a | a - p | a * q | q * a | a / p | a // p | a % p | a**2 | q**-1 | q**0.5 | a**0 | 2*pq.m | [1, 2]*pq.s | pq.m/pq.s | pq.m**2 | pq.m*pq.ft | pq.m/pq.m | a + q | a + 1 | a == p | a < p | a < q | a != q | abs(a) | -a | u + u | u*p | u**2 | u/p | 1/u | pq.ft + pq.m | i + p | a*k | k*k | a**z | a**[2] | n + 1 | z + 1 | a*"x" | 1/q | np.float64(2)*a
operator.iadd(a, p) | operator.imul(a, q) | operator.itruediv(a, pq.s) | operator.iadd(a, q) | operator.ipow(a, 2) | (setattr(p, "units", "m"), p)[1] | (setattr(p, "units", "s"), p)[1] | (a.__setitem__(0, p), a)[1] | (a.fill(p), a)[1] | (a.put([0], p), a)[1] | operator.imul(pq.m, 2) | operator.iadd(u, p) | (setattr(u, "uncertainty", 0.5*u), u)[1]
np.sqrt(a) | np.sin(g) | np.exp(z) | np.exp(a) | np.add(a, a) | np.add(a, p) | np.multiply(a, p) | np.arctan2(a, a) | np.sin(a) | np.sign(a) | pq.sin(30*pq.degree) | pq.arctan2(a, p) | pq.hypot(a, p) | pq.trapz(a, p*[1, 2, 4]) | pq.gradient(a, p) | pq.diff(a) | pq.cumsum(a) | pq.cross(a, q) | np.sum(a) | a.sum() | a.mean() | a.std() | a.var() | a.max() | a.prod() | a.cumprod() | a.clip(p, 9*p) | a.argsort() | i.searchsorted(p) | a.round() | u.sum() | u.mean() | u.max()
a.tolist() | list(a) | a[0] | a[::-1] | a.T | a.astype("i4") | a.magnitude | a.units | pq.m.units | a.dimensionality | pq.m.dimensionality | q.dimensionality.simplified | a.dimensionality*p.dimensionality | q.dimensionality**2 | q.dimensionality == a.dimensionality | list(q.dimensionality.items()) | pq.N.definition | X.vbaz.definition | u.uncertainty | u.relative_uncertainty | hash(q.dimensionality) == hash((pq.km/pq.hour).dimensionality) | {pq.m: 1}[pq.metre]
str(q) | repr(q) | q.dimensionality.string | q.dimensionality.unicode | q.dimensionality.latex | q.dimensionality.html | str(pq.N) | repr(pq.N) | str(X.cu3) | str(u) | repr(u) | "{:.2f}".format(p) | str((pq.s**-2*pq.kg*pq.m).dimensionality) | (pq.um*X.cu3/pq.ohm).dimensionality.unicode | uni(lambda: str(q)) | uni(lambda: str(pq.um)) | uni(lambda: 1/0) | cgs(lambda: pq.N.simplified) | cgs(lambda: 1/0) | feet(lambda: p.simplified) | pref(lambda: p.rescale()) | p.rescale() | pref(lambda: w.rescale())
copy.copy(a) | copy.deepcopy(u) | copy.deepcopy(pq.m) | pickle.loads(pickle.dumps(a)) | pickle.loads(pickle.dumps(pq.N)) | pickle.loads(pickle.dumps(X.cu3)) | pickle.loads(pickle.dumps(u)) | pickle.loads(b"garbage") | pickle.loads(pickle.dumps(q.dimensionality)) | pq.Quantity(a) | pq.Quantity(a, "cm") | pq.UncertainQuantity(a, uncertainty=0.1*a) | pq.Quantity([1, 2], pq.m) | pq.Quantity(1, 5) | pq.N.copy() | a.copy()
newunit(2*pq.m) | newunit(3*X.vbar) | newunit(None) | pq.UnitQuantity("m", 3*pq.s) | pq.UnitQuantity("vnever", 2*pq.m, symbol="s") | pq.UnitQuantity(5) | late() | pq.set_default_units("nosuch") | pq.set_default_units(length="s") | pq.Quantity(1.0, "vnever")
pq.Quantity(2.0, X.vfoo).rescale("m") | pq.Quantity(2.0, X.vtwin).rescale("m") | pq.Quantity(2.0, X.vnear).rescale("m") | X.vfoo.simplified | X.vtwin.simplified | X.vfoo*X.vtwin | X.vfoo + X.vtwin | X.vfoo == X.vtwin | p.rescale(X.vtwin) | X.vtwin.dimensionality == X.vfoo.dimensionality | X.vnear.dimensionality == pq.m.dimensionality | X.vnear == pq.m | X.vtwin.definition | str(X.vtwin**2/pq.s)
pq.Quantity(1, "m").rescale("cm") | pq.Quantity(True, "m").rescale("cm") | pq.Quantity(np.float32(1), "m").rescale("cm") | pq.Quantity([1.0], "m").rescale("cm") | pq.Quantity([[1.0]], "m").rescale("cm") | pq.Quantity(1.0, "m").rescale("cm") | pq.Quantity(1+0j, "m").rescale("cm") | pq.Quantity(0.0, "m").rescale("cm") | pq.Quantity(-0.0, "m").rescale("cm") | pq.Quantity(np.nan, "m").rescale("cm")
a**2.0 | a**np.float32(2) | a**pq.Quantity(2, "") | a**-1 | a**True | a.dimensionality**2 | a.dimensionality**2.0 | a.dimensionality**0.5 | a.dimensionality**-1 | q*pq.s | q/pq.s | str(pq.m**2.0) | str(pq.m**2) | str(pq.m**0.5) | str(pq.m**True) | str(pq.Quantity(1, "m")) | str(pq.Quantity(1.0, "m")) | str(pq.Quantity([1], "m"))
p.rescale("metre") | p.rescale("meter") | p.rescale(" m ") | p.rescale("m**1") | p.rescale("m*s/s") | p.rescale(1*pq.m) | p.rescale(pq.m.dimensionality) | pq.Quantity(2.0, "degC") | pq.Quantity(2.0, "degC").rescale("K") | pq.Quantity(2.0, "rpm").simplified | pq.Quantity(2.0, "Hz").simplified | pq.Quantity(2.0, "min").simplified | pq.Quantity(2.0, "h").simplified | pq.constants.h.dimensionality | str(pq.h) | str(pq.constants.c) | str(pq.c)
pq.c.simplified | pq.constants.Bohr_radius.simplified | pq.Quantity(2.0, pq.constants.Bohr_radius).rescale("m") | pq.Quantity(1.0, "m").rescale(pq.constants.Bohr_radius) | p == pq.Quantity(2.5, "ft") | p == pq.Quantity(2.5, X.vfoo) | p < X.vtwin | np.sin(z) | np.sin(pq.Quantity(1.0, "degree").rescale("radian")) | np.exp(n.rescale("")) | np.multiply(a, 2) | np.multiply(a, 2.0) | np.add(i, i) | np.square(i) | np.square(a) | np.sqrt(i)
pq.Quantity(3.0, X.cu3).simplified | pq.Quantity(3.0, pq.CompoundUnit("km/h")).simplified | pq.CompoundUnit("m/s").rescale("km/h") | pq.Quantity(1.0, pq.CompoundUnit("m/s")) == pq.Quantity(1.0, "m/s") | str(pq.CompoundUnit("m/s")) | cgs(lambda: pq.Quantity(2.0, "N").simplified) | cgs(lambda: q.rescale("m/s")) | cgs(lambda: w.dimensionality.simplified) | uni(lambda: repr(q)) | uni(lambda: q.dimensionality.string) | uni(lambda: str(pq.m**2/pq.s)) | pref(lambda: i.rescale()) | feet(lambda: pq.UnitQuantity("vdeft", 3*pq.m)).rescale("m") | pq.Quantity(2.0, 3*pq.m)
pq.Quantity(2.0, pq.constants.electron_volt).rescale("J") | pq.Quantity(2.0, pq.eV).rescale("J") | pq.Quantity(2.0, pq.constants.electron_volt**2).simplified | pq.Quantity(2.0, pq.eV**2).simplified | [pq.constants.h.dimensionality.ndims, pq.constants.h.dimensionality.simplified, (pq.m*pq.constants.R).dimensionality.ndims] | [pq.hour.dimensionality.ndims, pq.hour.dimensionality.simplified, (pq.m*pq.R).dimensionality.ndims] | str(pq.constants.h*pq.m) | str(pq.hour*pq.m) | (pq.constants.h*pq.m).dimensionality.latex | (pq.hour*pq.m).dimensionality.latex | uni(lambda: str(pq.constants.tau_Compton_wavelength*pq.s)) | uni(lambda: str(pq.constants.tau_Compton_wavelength_over_2_pi*pq.s)) | pq.constants.electron_volt.simplified | pq.eV.simplified | pq.eV + pq.constants.electron_volt | pq.Quantity(1.0, pq.constants.Faraday_constant).simplified | pq.Quantity(1.0, pq.F).simplified'''
OPS = [o.strip() for line in OPS.split('\n') for o in line.split(' | ')]
SECOND = ['q.simplified', 'pq.unit_registry["km/h"]', 'operator.imul(a, q)', 'uni(lambda: str(q))', 'newunit(2*pq.m)', 'pq.UnitQuantity("m", 3*pq.s)', 'cgs(lambda: pq.N.simplified)', 'q.dimensionality.simplified', 'p.rescale("m")', 'pq.Quantity(1, "2*m")', 'a + p', 'a + q', 'a * q', 'np.sin(g)', 'a.tolist()', 'a.dimensionality', 'str(q)', 'pref(lambda: p.rescale())', 'pickle.loads(pickle.dumps(pq.N))',
          'pq.CompoundUnit("km/h")', 'pq.N.definition', 'copy.deepcopy(u)', 'pq.m.dimensionality', 'late()']
THIRD = SECOND[2:8]
CHANGES = ['x *= 2', 'x *= pq.s', 'x /= pq.kg', 'x **= 2', 'x.units = B', 'x[...] = 7*x.units', 'x += x', 'x.fill(5*x.units)', 'x -= 3*x.units']


class Env:
    """the helpers the operations use"""
    def __init__(self):
        P = pq()
        self.n = 0
        def uni(f):
            P.markup.config.use_unicode = True
            try: return f()
            finally: P.markup.config.use_unicode = False
        def defaults(**kw):
            def g(f):
                P.set_default_units(**kw)
                try: return f()
                finally: P.set_default_units('SI')
            return g
        def pref(f):
            P.quantity.PREFERRED = [pq().cm, P.lbf]
            try: return f()
            finally: P.quantity.PREFERRED = []
        def newunit(d):
            self.n += 1
            u = P.UnitQuantity('vhist%d' % self.n, d, symbol='vhs%d' % self.n)
            return [(3.0 * u).simplified if d is not None else None, P.Quantity(2.0, 'vhist%d' % self.n) == 2.0 * u, '3.0 vhs%d' % self.n == str(3.0 * u)]
        def late():
            self.n += 1
            nm = 'vlate%d' % self.n
            r = attempt(lambda: P.Quantity(1.0, nm + '/s'))
            P.UnitQuantity(nm, 0.25 * P.m)
            return [raised(r), P.Quantity(4.0, nm + '/s').rescale('m/s'), P.unit_registry[nm].simplified]
        self.env = dict(glob(), uni=uni, cgs=defaults(system='cgs'), feet=defaults(length='ft'), pref=pref, newunit=newunit, late=late, operator=operator, copy=copy, pickle=pickle)

    def fresh(self, op=None):
        e = dict(self.env)
        for k in OPERANDS if op is None else USES[op]:
            e[k] = eval(OPERANDS[k], e)
        return e


def names(code):
    r = set(code.co_names)
    for c in code.co_consts:
        if hasattr(c, 'co_names'): r |= names(c)
    return r


def text(r):
    if isinstance(r, (pq().Quantity, pq().dimensionality.Dimensionality)):
        return (str(r), repr(r))
    return ()


def look(r):
    if raised(r):
        return ('raised',)
    if isinstance(r, (list, tuple)):
        return (type(r).__name__,) + tuple(look(x) for x in r)
    if isinstance(r, pq().UnitQuantity):
        return (obs(r), text(r), attempt(lambda: obs(r.definition)) if r.definition is not r else None)
    return (obs(r), text(r))


def mess(r, view_of=()):
    """changes a result in place in every way that is accepted (not the numbers if it is a view)"""
    P = pq()
    if isinstance(r, P.UnitQuantity):
        d = r.dimensionality; d.clear()
        attempt(lambda: r.definition.__imul__(3))
        return
    if isinstance(r, P.dimensionality.Dimensionality):
        r[P.mol] = 4
        attempt(lambda: r.__imul__(P.K.dimensionality))
        r.clear()
        return
    if isinstance(r, P.Quantity):
        r.dimensionality.clear()
        d = r.dimensionality; d[P.A] = 7
        attempt(lambda: r.units.__imul__(2)) if r.units is not r else None
        if any(isinstance(v, np.ndarray) and np.shares_memory(r, v) for v in view_of):
            return
        attempt(lambda: r.__imul__(3)); attempt(lambda: r.__iadd__(r)); attempt(lambda: r.__imul__(P.mol))
        attempt(lambda: r.fill(99 * r.units)); attempt(lambda: setattr(r, 'units', P.Quantity(1.0, r.simplified.dimensionality)))
        if isinstance(r, P.UncertainQuantity): attempt(lambda: r.uncertainty.fill(77 * r.units))
        return
    if isinstance(r, np.ndarray):
        if not any(isinstance(v, np.ndarray) and np.shares_memory(r, v) for v in view_of): attempt(lambda: r.fill(123))
        return
    if isinstance(r, (list, tuple)):
        for x in r: mess(x, view_of)
        if isinstance(r, list): r.clear(); r.append(None)
    elif isinstance(r, dict):
        r.clear()


def setup():
    define_user_units()
    global OPERANDS, CODE, BASE, USES
    OPERANDS = {k: compile(v, v, 'eval') for k, v in SETUP.items()}
    CODE = {o: compile(o, o, 'eval') for o in OPS}
    BASE = {}
    USES = {o: [k for k in SETUP if k in names(c)] for o, c in CODE.items()}
    assert len(set(OPS)) == len(OPS), [o for o in OPS if OPS.count(o) > 1]
    for o in OPS:
        BASE[o] = fork(lambda: look(attempt(eval, CODE[o], Env().fresh(o))))


def fork(f):
    """the result of f in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as out: pickle.dump(f(), out)
            os._exit(0)
        except BaseException as e:
            import traceback
            os.write(2, traceback.format_exc().encode())
            os._exit(3)
    os.close(w)
    with os.fdopen(r, 'rb') as inp: data = inp.read()
    _, status = os.waitpid(pid, 0)
    if status or not data:
        return ('no result', status)
    return pickle.loads(data)


def play(hist, backwards, same=False, part=None):
    """[(operation, what it gives)] of the probes which differ after the history"""
    E = Env()
    bad = []
    for h in hist:
        e = E.fresh(h)
        r = attempt(eval, CODE[h], e)
        if look(r) != BASE[h]:
            bad.append((h, look(r)))
        mess(r)
        if same:
            # once more on the same operands, of which only the parts that are not shared were changed
            e = E.fresh(h)
            r = attempt(eval, CODE[h], e)
            if h != 'u.uncertainty':  # the uncertainty itself, by design
                mess(r, [e[k] for k in USES[h]])
            if not h.startswith(('operator.i', '(')):
                r2 = look(attempt(eval, CODE[h], e))
                if r2 != BASE[h]: bad.append((h + ' (again on the same operands)', r2))
                for k in USES[h]:
                    if obs(e[k]) != obs(eval(OPERANDS[k], E.env)): bad.append((h + ' (operand %s)' % k, obs(e[k])))
    if bad: return bad[:3]
    for o in (OPS[::-1] if backwards else OPS)[slice(None) if part is None else slice(part % 3, None, 3)]:
        r = attempt(eval, CODE[o], E.fresh(o))
        x = look(r)
        if x != BASE[o]:
            bad.append((o, x))
            if len(bad) > 2: return bad
        mess(r)
    return bad


def stale(rec):
    """an operation before and after a change of its operand, against a fresh equal operand"""
    P = pq()
    for o in OPS:
        for v in SETUP:
            if v not in USES[o] or o.startswith(('operator.i', '(', 'newunit', 'late')): continue
            for ch in CHANGES:
                E = Env()
                e = E.fresh(o)
                attempt(eval, CODE[o], e); look(e[v])
                c = dict(glob(), x=e[v], B=P.Quantity(1.0, e[v].simplified.dimensionality))
                r0 = attempt(exec, ch, c); rec.step(3)
                x = c['x']
                if raised(r0) or not np.all(np.isfinite(np.asarray(x.magnitude))): continue
                r = look(attempt(eval, CODE[o], dict(e, **{v: x})))
                y = P.Quantity(np.array(x.magnitude), x.dimensionality) if v != 'u' else P.UncertainQuantity(np.array(x.magnitude), x.dimensionality, np.array(x.uncertainty.magnitude))
                w = look(attempt(eval, CODE[o], dict(E.fresh(o), **{v: y})))
                rec.case('%s ; %s ; %s' % (o, ch.replace('x', v), o)); rec.trace()
                if r != w:
                    rec.fail('stale|%s|%s|%s' % (o, v, ch), '%s after %s gives %r, on a fresh equal operand %r' % (o, ch.replace('x', v), r, w), program(USER_SRC, '%s = %s' % (v, SETUP[v]), o, ch.replace('x', v), 'print(%s)' % o))


def chunks(tier):
    n = len(OPS)
    r = [['stale']] + [['single', i] for i in range(12)]
    r += [['two', i, 0] for i in range(n)]
    if tier == 'thorough':
        r += [['two', i, k] for i in range(n) for k in range(1, 9)] + [['three', i] for i in range(n)]
    return r


def run(desc, rec):
    kind = desc[0]
    if kind == 'stale':
        stale(rec); return
    if kind == 'single': hs = [[o] for o in OPS[desc[1]::12]]
    elif kind == 'two':
        hs = [[OPS[desc[1]], o] for o in (SECOND[:8] if desc[2] == 0 else SECOND[8:] if desc[2] == 8 else [o for o in OPS if o not in SECOND][desc[2] - 1::7])]
    else: hs = [[OPS[desc[1]], a, b] for a in THIRD for b in THIRD]
    bad = 0
    for n, h in enumerate(hs):
        r = fork(lambda: play(h, (n + len(h)) % 2 == 0, kind == 'single', n + desc[1] if kind == 'two' and 0 < desc[2] < 8 else None))
        rec.step(len(h) + len(OPS)); rec.case(' ; '.join(h)); rec.trace(len(OPS)); rec.outcome(BASE[h[-1]][:1])
        if r:
            bad += 1
            if isinstance(r, tuple): r = [('process', r)]
            for o, x in r:
                rec.fail('history|%s|%s' % (' ; '.join(h), o), 'after %s, every result of which is changed afterwards, %s gives %r instead of %r' % ('; '.join(h), o, x, BASE.get(o.split(' (again')[0])),
                         program(USER_SRC, 'import operator, copy, pickle', *['%s = %s' % kv for kv in SETUP.items()], *['try: r = %s\nexcept Exception as e: print(repr(e))\nelse:\n    try: r *= 3\n    except Exception: pass' % x for x in h], '# then the operands afresh, and', 'print(repr(%s))' % o.split(' (')[0]))
            if bad > 3: return
