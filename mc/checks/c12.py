"""C12: every object of the alphabet through every copying route, chains of routes, and fresh processes."""
import copy, itertools, os, pickle, subprocess, sys, tempfile
import numpy as np
from ..alphabet import *
from .. import core, tables

RULE = ('every object (quantities and uncertain quantities of all dtypes, shapes, layouts and units, every catalogue unit, every constant, user-defined and compound units, dimensionalities, containers) '
        'through every route (pickle protocols 0 to 5, copy, deepcopy, copy method, dumps) and chains of routes: the result must look and behave like the original, and each of a list of changes to either must leave the other '
        'as it was; every pickle is also restored in a fork of a process that knows no user-defined unit, in several states of that process, and in a newly started interpreter with another hash seed')
BOUNDS = {'quick': 'about 210 quantities, 120 uncertain quantities, 358 units, all constants, 60 dimensionalities, 30 containers; 10 routes; 14 changes in both directions; all chains of 3 routes on 24 objects; 6 states of the restoring process; 5 definitions of units whose list of aliases is changed afterwards in up to two of 9 ways',
          'thorough': 'every magnitude with every unit (about 900 quantities); all chains of 4 routes on 24 objects'}
ASSUMPTIONS = ['a restored or copied array may have another memory layout and be writeable where the original was not', 'both processes import the same version of the library']

ROUTES = ['pickle0', 'pickle1', 'pickle2', 'pickle3', 'pickle4', 'pickle5', 'copy', 'deepcopy', 'method', 'dumps']
DEEP = [r for r in ROUTES if r != 'copy']


def setup():
    define_user_units_lazily = None
    glob().update(copy=copy, pickle=pickle)


def route(x, r):
    if r.startswith('pickle'): return pickle.loads(pickle.dumps(x, int(r[6])))
    if r == 'copy': return copy.copy(x)
    if r == 'deepcopy': return copy.deepcopy(x)
    if r == 'method': return x.copy()
    if r == 'dumps': return pickle.loads(x.dumps())


def has(x, r):
    if r == 'method': return hasattr(x, 'copy')
    if r == 'dumps': return isinstance(x, np.ndarray)
    return True


QU = ['pq.m', 'X.cu3*pq.um**2/X.vfoo', 'pq.constants.c0*pq.degC**0.5']
QU[2] = 'pq.constants.natural_unit_of_velocity*pq.degC**0.5'
OBJMAG = ['np.array([1, 2.5, None][:2], dtype=object)', 'np.array(3.5)[()]', 'np.array([[1.0, 2.0], [3.0, 4.0]])[:, 1]', 'np.arange(6.0).reshape(2, 3)[::-1, ::2]']


def sources(kind, tier):
    if kind == 'quantity':
        us = QU
        r = ['pq.Quantity(%s, %s)' % (m, u) for i, m in enumerate(arrays() + OBJMAG) for j, u in enumerate(us) if tier != 'quick' or i % 2 == j % 2]
        mags = ['2.5', 'np.array([1, 2, 7], dtype="i4")'] if tier == 'quick' else arrays()[::4]
        r += ['pq.Quantity(%s, %s)' % (m, u.src) for u in unit_alphabet() for m in mags]
        r += ['pq.Quantity(np.arange(12.0), "m").reshape(3, 4)[1:, ::2]', 'pq.Quantity([1.0, 2.0], "m")[0]', 'pq.Quantity([[1.0, 2.0], [3.0, 4.0]], X.vfoo).T', 'pq.Quantity([1.0, 2.0], "m").view(pq.Quantity)[::-1]', '1*pq.m', 'pq.m*1.0', 'pq.m.view(pq.Quantity)', 'X.vbar[...]',
              'pq.Quantity([1+2j, 3.0], pq.ohm).imag', '(2*pq.km).simplified', 'pq.Quantity([True, False], "m")', 'pq.m**2', '[1, 2]*X.vbaz']
        return r
    if kind == 'uncertain':
        r = []
        for i, m in enumerate(arrays() + OBJMAG[1:]):
            if np.asarray(eval(m, glob())).dtype.kind == 'c':
                continue
            r += ['pq.UncertainQuantity(%s, %s, 0.25*np.ones(np.shape(%s)))' % (m, u, m) for j, u in enumerate(QU) if tier != 'quick' or i % 3 == j]
        mags = ['2.5'] if tier == 'quick' else ['2.5', 'np.array([1.0, 2.0, 7.0])', 'np.array([[1.5, 2.0]])', 'np.array([1.0, 2.0], dtype="f4")']
        r += ['pq.UncertainQuantity(%s, %s, 0.25*np.ones(np.shape(%s)))' % (m, u.src, m) for u in unit_alphabet() for m in mags]
        r += ['pq.UncertainQuantity([1.0, 2.0], "m", [0.1, 0.2]).rescale("cm")', 'pq.UncertainQuantity([1.0, 2.0], "m", [10, 20]*pq.cm)', 'pq.UncertainQuantity([1.0, 2.0], "m", [0.1, 0.2])[1]', 'pq.UncertainQuantity([[1.0, 2.0]], "m", [[0.1, 0.2]])[0]', 'pq.UncertainQuantity([1.0, 2.0], "m", [0.1, 0.2])**2',
              'pq.UncertainQuantity([1.0, 2.0], "m")', 'pq.UncertainQuantity(pq.Quantity([1.0, 2.0], "m"))']
        return r
    if kind == 'unit':
        r = ["pq.unit_registry[%r]" % l[0] for l in tables.unit_labels()]
        return r + ['X.' + n for n, _ in USER_DEFS] + ['pq.CompoundUnit("vfoo**2/vbaz")']
    if kind == 'constant':
        P = pq()
        seen, r = set(), []
        for n, v in sorted(vars(P.constants).items()):
            if isinstance(v, P.UnitConstant) and id(v) not in seen:
                seen.add(id(v)); r.append('pq.constants.' + n)
        return r + ['pq.UnitConstant("vconst", 2*X.vfoo, symbol="vcs")']
    if kind == 'dim':
        return ['(%s).dimensionality' % u.src for u in unit_alphabet()] + ['pq.dimensionality.Dimensionality()', 'pq.dimensionality.Dimensionality({pq.m: 2, X.vfoo: -1})']
    if kind == 'container':
        return ['[pq.m, pq.m, X.vfoo]', '(pq.Quantity([1.0, 2.0], "m"), pq.s, X.vbar.dimensionality)', '{"a": pq.Quantity([1.0], X.vfoo), "b": pq.UncertainQuantity([1.0], "m", [0.5])}', '{pq.m: 1, X.cu3: 2}', '{pq.m.dimensionality: [1*pq.m]}', '[[2*pq.m], [3*X.vbaz]]', '[SH, SH]', '{"x": SH, "y": [SH, (SH,)]}',
                '[SHU, SHU]', 'set([pq.m, X.vfoo, pq.ft])', 'frozenset([pq.m.dimensionality, pq.s.dimensionality])', '[pq.constants.c, 2*pq.constants.h]' if 0 else '[pq.constants.h, 2*pq.constants.h]', '(pq.UncertainQuantity(2.0, X.vfoo, 0.5), X.vfoo)', '[X.cu4, 3*X.cu4, X.cu4.dimensionality]',
                '[pq.dimensionless, 2*pq.dimensionless, pq.percent]', 'np.array([1*pq.m, None], dtype=object)', '[X.vbaz, X.vbar, X.vfoo]', '[X.vfoo, X.vbaz, X.vbar]', '{"q": 2*X.vbar, "u": X.vbar, "d": X.vbar.definition}', '[pq.UnitLength, pq.Quantity, pq.UncertainQuantity]', '[X.vkilo, X.vbase]', '(X.vbase, 2*X.vkilo)',
                '[np.float64(2), 3*pq.m, "m"]', '[pq.degC, 3*pq.degC]', '(pq.m.units, pq.ft.definition)', '[SHD, SHD]']
    raise KeyError(kind)


def mk(src):
    g = dict(glob())
    if 'SH' in src:
        g['SH'] = pq().Quantity([1.0, 2.0], 'm')
        g['SHU'] = pq().UncertainQuantity([1.0, 2.0], 'm', [0.1, 0.2])
        g['SHD'] = pq().dimensionality.Dimensionality({pq().m: 2})
    if src.startswith('np.array([1*pq.m, None]'):
        a = np.empty(2, dtype=object); a[0] = 1 * pq().m
        return a
    return eval(src, g)


def look(x):
    """observation that does not depend on hash order"""
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__,) + tuple(sorted(repr(look(i)) for i in x))
    if isinstance(x, dict) and not isinstance(x, pq().dimensionality.Dimensionality):
        return ('dict',) + tuple((repr(look(k)), look(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(look(i) for i in x)
    if isinstance(x, np.ndarray) and x.dtype == object and not isinstance(x, pq().Quantity):
        return ('object array', tuple(look(i) for i in x.ravel()))
    if isinstance(x, type):
        return ('class', x.__module__, x.__qualname__)
    r = obs(x)
    if r[0] in ('Quantity', 'UncertainQuantity') and r[1][0] == '>':
        # NumPy restores arrays in the byte order of the machine
        r = obs(x.astype(x.dtype.newbyteorder('=')))
    return r


def behave(x):
    """what the object does, as observations"""
    P = pq()
    r = [look(x)]
    a = lambda f: r.append(look(attempt(f)))
    if isinstance(x, P.UnitQuantity):
        s = attempt(unit_phys, x)
        r.append(s if not raised(s) else 'unphysical')
        for f in (lambda: x.simplified, lambda: 3 * x, lambda: x ** 2, lambda: x + x, lambda: (2 * x).rescale(x), lambda: x.definition, lambda: x.units, lambda: x.dimensionality):
            a(f)
        r += [str(x), repr(x), x.name, x.symbol, x.u_symbol, str((x * P.kg * P.s).dimensionality), str((x ** -2 * P.m / P.N).dimensionality), x.__doc__, type(x).__name__, x.flags.writeable, x.dtype.str]
    elif isinstance(x, P.Quantity):
        for f in (lambda: x.simplified, lambda: x + x, lambda: x * x, lambda: x * P.m, lambda: x / P.kg, lambda: x.rescale(x.units), lambda: x[0], lambda: x.sum(), lambda: x.units, lambda: x.dimensionality.simplified, lambda: x == x, lambda: x.T, lambda: -x, lambda: x.max(), lambda: x.reshape(-1)):
            a(f)
        r += [str(x), repr(x.astype(x.dtype.newbyteorder('='))), x.dimensionality.latex]
        if isinstance(x, P.UncertainQuantity):
            a(lambda: x.relative_uncertainty); a(lambda: x.uncertainty)
    elif isinstance(x, P.dimensionality.Dimensionality):
        for f in (lambda: x.simplified, lambda: x * x, lambda: x ** 0.5, lambda: x + x, lambda: x.ndims, lambda: x == x, lambda: P.Quantity(2.0, x)):
            a(f)
        r += [x.string, x.unicode, x.latex, x.html]
    elif isinstance(x, (list, tuple)):
        r += [behave(i) for i in x]
    elif isinstance(x, dict):
        r += [behave(i) for i in x.values()]
    return r


CHANGES = ['x[...] = 5*x.units', 'x[(0,)*x.ndim] = 7*x.units', 'x *= 2', 'x += x', 'x.units = CMP', 'x *= pq.kg', 'x.fill(9)', 'x.magnitude[...] = 3', 'x.sort()', 'x.put(0, 4*x.units)', 'x **= 2', 'x /= pq.s', 'x.uncertainty[...] = 8*x.units', 'x.uncertainty = 4*x.units*np.ones(x.shape)', 'x.shape = (-1,)',
           'x[KG] = 5', 'x *= KG', 'x.clear()', 'x **= 3', 'x.append(1)', 'x.pop()', 'x[0] *= 2', 'x["a"] *= 2', 'x.uncertainty *= 3', 'x._uncertainty *= 3']


def compatible(x):
    P = pq()
    try:
        return P.Quantity(1.0, x.dimensionality.simplified if x.dimensionality.simplified != x.dimensionality else x.dimensionality * P.m.dimensionality / P.cm.dimensionality)
    except Exception:
        return P.m


def alias_ok(a, b, deep):
    """shared objects stay shared inside a deep copy"""
    flat = lambda x: [z for y in (x.values() if isinstance(x, dict) else x) for z in (flat(y) if isinstance(y, (list, tuple)) else [y])]
    if not isinstance(a, (list, tuple, dict)) or isinstance(a, pq().dimensionality.Dimensionality):
        return True
    A, B = flat(a), flat(b)
    for i in range(len(A)):
        for j in range(i):
            if (A[i] is A[j]) != (B[i] is B[j]) and not isinstance(A[i], (int, float, str, pq().UnitQuantity)):
                return False
    return True


def labels_of(x):
    P = pq()
    return [(l, id(P.unit_registry[l])) for l in SOME]

SOME = ['m', 's', 'kg', 'ft', 'N', 'degC', 'h', 'percent', 'in', 'dimensionless', 'meter', 'metres', 'J', 'eV', 'um']
UNKNOWN = ['vconst', 'vcs', 'vnosuch', 'natural_unit_of_velocity', 'c0', '_0']


def one(rec, kind, src, chains):
    P = pq()
    x = mk(src)
    ref, lk = behave(x), look(x)
    rec.case(src)
    for chain in chains:
        if not has(x, chain[0]) or any(isinstance(x, (list, tuple, dict, set)) and not isinstance(x, P.dimensionality.Dimensionality) and r in ('copy', 'method', 'dumps') for r in chain):
            continue
        key = lambda k: '%s|%s|%s' % (k, '>'.join(chain), src)
        prog = lambda *more: program('import copy, pickle', USER_SRC, 'x = %s' % src, *['x = ' + {'copy': 'copy.copy(x)', 'deepcopy': 'copy.deepcopy(x)', 'method': 'x.copy()', 'dumps': 'pickle.loads(x.dumps())'}.get(r, 'pickle.loads(pickle.dumps(x, %s))' % r[-1]) for r in chain], 'print(type(x), repr(x))', *more)
        before = labels_of(x)
        y = x
        for r in chain:
            y = attempt(route, y, r) if has(y, r) else y
            rec.step()
            if raised(y):
                break
        if raised(y):
            rec.fail(key('raises'), '%r' % y, prog()); return
        if type(y) is not type(x):
            rec.fail(key('class'), 'is of class %s, expected %s' % (type(y).__name__, type(x).__name__), prog()); return
        got = behave(y)
        if got != ref:
            d = [(a, b) for a, b in zip(ref, got) if a != b]
            rec.fail(key('differs'), 'differs from the original: %r' % (d[:2],), prog()); return
        if behave(x) != ref:
            rec.fail(key('original'), 'copying changed the original', prog()); return
        if not alias_ok(x, y, True):
            rec.fail(key('aliases'), 'objects that were the same are not, or the other way round', prog()); return
        if labels_of(x) != before:
            rec.fail(key('labels'), 'labels denote other units than before', prog()); return
        for l in UNKNOWN:
            if not raised(attempt(lambda: P.unit_registry[l])):
                rec.fail(key('labels'), '%r has become a unit' % l, prog()); return
        if isinstance(x, P.UnitQuantity):
            i = attempt(lambda: (hash(x) == hash(y), bool(x == y), bool(y == x), x.dimensionality == y.dimensionality, hash(x.dimensionality) == hash(y.dimensionality), {x: 1}.get(y) == 1, units_of(y / x) == (), float((1 * y).rescale(x).magnitude) == 1.0, units_of(x * y) == units_of(x * x),
                                  len((x * y).dimensionality) == len((x * x).dimensionality), not bool(x != y)))
            rec.step()
            if raised(i) or not all(i):
                rec.fail(key('unit'), 'the unit is not interchangeable with the original: %r' % (i,), prog()); return
            if not isinstance(x, (P.UnitConstant, P.CompoundUnit)):
                for l in {x.name, x.symbol}:
                    z = attempt(lambda: P.unit_registry[l])
                    if raised(z) or z is not mk(src):
                        rec.fail(key('labels'), 'label %r is %s' % (l, show(z)), prog()); return
            # a unit can not be changed, whichever copy of it
            continue
        # changes on either side
        if len(chain) > 1 or kind == 'container' and isinstance(x, (set, frozenset)):
            rec.trace(); continue
        if rec.tier == 'quick' and chain[0] in ('pickle0', 'pickle1', 'pickle3', 'pickle4'):
            rec.trace(); continue
        for ch in CODE if not (chain[0] in ('copy', 'method') and not isinstance(x, P.Quantity) and isinstance(x, np.ndarray)) else ():
            for side in (0, 1):
                a = mk(src)
                b = attempt(route, a, chain[0])
                pair = (a, b)
                env = dict(glob(), x=pair[side], CMP=compatible(a) if isinstance(a, P.Quantity) else P.m, KG=P.kg.dimensionality if '*=' in ch.co_filename else P.kg)
                e = attempt(exec, ch, env); rec.step()
                if raised(e):
                    continue
                other = look(pair[1 - side])
                rec.outcome((ch.co_filename, chain))
                if other != lk:
                    rec.fail(key('shared'), '%s on the %s changes the %s: %r, was %r' % (ch.co_filename, ('original', 'copy')[side], ('copy', 'original')[side], other, lk), prog('y = x; x = %s; # the change is applied to one of the two: %s' % (src, ch.co_filename))); return
        rec.trace()


CHAIN_OBJS = ['pq.Quantity([1.0, 2.5], X.vfoo)', 'pq.Quantity(2.5, "m/s")', 'pq.Quantity(np.arange(6, dtype=">i4").reshape(2, 3)[:, ::2], "J")', 'pq.UncertainQuantity([1.0, 2.0], X.vbar, [0.1, 0.2])', 'pq.UncertainQuantity(2.0, "ft", 0.5)', 'pq.m', 'X.vbaz', 'X.cu4', 'pq.constants.h', 'pq.dimensionless', 'pq.ft', 'X.vbase',
              '(pq.m**2/X.vfoo).dimensionality', 'pq.dimensionality.Dimensionality()', '[SH, SH]', '{"x": SH, "y": [SHU, (SH,)]}', '(X.vfoo, 2*X.vfoo, X.vfoo.dimensionality)', 'pq.Quantity(np.zeros((0,)), "m")', 'pq.Quantity([1+2j], pq.degC)', 'pq.Quantity(True, "m")', 'X.cu1', 'pq.degC', 'pq.percent', 'pq.Quantity([[1.0, 2.0]], X.cu3).T']


# ------------------------------------------------------------------ other processes
STATES = ['plain', 'defined', 'unicode', 'cgs', 'twice', 'conflict']


def fork_call(f):
    """f() in a forked child; its picklable result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                out = ('ok', f())
            except BaseException as e:
                out = ('error', '%s: %s' % (type(e).__name__, e))
            with os.fdopen(w, 'wb') as fh:
                pickle.dump(out, fh)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('error', 'the process died')


def produce(srcs, protos):
    """[(source, protocol, pickle, behaviour)] made where the user-defined units exist"""
    define_user_units()
    out = []
    for s in srcs:
        x = mk(s)
        b = behave(x)
        for p in protos:
            out.append((s, p, pickle.dumps(x, p), b))
    return out


def restore(data, state, src):
    P = pq()
    before = labels_of(None)
    if state == 'defined': define_user_units()
    if state == 'unicode': P.markup.config.use_unicode = True
    if state == 'cgs': P.set_default_units('cgs')
    if state == 'twice': pickle.loads(data)
    if state == 'conflict': P.UnitQuantity('vfoo', 5 * P.s, symbol='vfo'); P.UnitQuantity('vbase', 3 * P.kg); other = [P.unit_registry['vfoo'], P.unit_registry['vbase']]
    try:
        x = pickle.loads(data)
    except Exception as e:
        if state == 'conflict':
            return ('raised', type(e).__name__, other[0] is P.unit_registry['vfoo'] and other[1] is P.unit_registry['vbase'] and float((1 * other[0]).rescale('s').magnitude) == 5.0 and labels_of(None) == before)
        raise
    P.markup.config.use_unicode = False
    if state == 'cgs': P.set_default_units('SI')
    if state == 'conflict':
        return ('restored', look(x), other[0] is P.unit_registry['vfoo'] and other[1] is P.unit_registry['vbase'] and labels_of(None) == before)
    b = behave(x)
    ok = []
    for u in units_in(x):
        if isinstance(u, (P.UnitConstant, P.CompoundUnit)):
            continue
        for l in {u.name, u.symbol} | set(getattr(u, '_aliases', ())):
            z = P.unit_registry[l]
            if not (z == u and hash(z) == hash(u) and unit_phys(z) == unit_phys(u)):
                ok.append(l)
    if labels_of(None) != before:
        ok.append('catalogue')
    for l in UNKNOWN:
        if not raised(attempt(lambda: P.unit_registry[l])):
            ok.append(l)
    return (b, ok)


def units_in(x):
    P = pq()
    if isinstance(x, P.UnitQuantity): return [x]
    if isinstance(x, P.dimensionality.Dimensionality): return list(x)
    if isinstance(x, P.Quantity): return list(x.dimensionality)
    if isinstance(x, dict): return [u for v in list(x.values()) + list(x) for u in units_in(v)]
    if isinstance(x, (list, tuple, set, frozenset)): return [u for v in x for u in units_in(v)]
    return []


CHILD = r'''
import sys, pickle
sys.path.insert(0, %(verif)r)
from mc import core
core.load_quantities()
from mc.checks import c12
c12.setup()
with open(sys.argv[1], 'rb') as f: items = pickle.load(f)
out = []
order = range(len(items)) if sys.argv[2] == 'f' else range(len(items) - 1, -1, -1)
for i in order:
    try:
        x = pickle.loads(items[i][2])
        b = c12.behave(x)
        out.append((i, None if b == items[i][3] else [(p, q) for p, q in zip(items[i][3], b) if p != q][:2] or 'length'))
    except Exception as e:
        out.append((i, 'raised %%r' %% e))
with open(sys.argv[3], 'wb') as f: pickle.dump(out, f)
'''


def fresh(rec, items, order):
    """a new interpreter with another hash seed restores all the items"""
    d = tempfile.mkdtemp(prefix='c12-')
    try:
        a, b, c = [os.path.join(d, n) for n in ('in', 'out', 'child.py')]
        with open(a, 'wb') as f: pickle.dump(items, f)
        with open(c, 'w') as f: f.write(CHILD % dict(verif=core.VERIF))
        env = dict(os.environ, PYTHONHASHSEED='4242')
        p = subprocess.run([sys.executable, '-B', '-s', '-W', 'ignore', c, a, order, b], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode or not os.path.exists(b):
            rec.fail('fresh-crash|%s' % order, 'the new process failed: %s' % p.stdout.decode(errors='replace')[-1500:]); return
        with open(b, 'rb') as f: out = pickle.load(f)
        for i, bad in out:
            s, pr = items[i][:2]
            rec.case(); rec.step(); rec.trace()
            if bad:
                rec.fail('fresh|%s|%s|%s' % (pr, order, s), 'restored with protocol %d in a new process: %s' % (pr, bad), program('import pickle', USER_SRC, 'x = %s' % s, 'open("/tmp/x.pkl", "wb").write(pickle.dumps(x, %d))' % pr, '# in a new process: import pickle, quantities; print(repr(pickle.load(open("/tmp/x.pkl", "rb"))))'))
    finally:
        import shutil
        shutil.rmtree(d)


KINDS = ['quantity', 'uncertain', 'unit', 'constant', 'dim', 'container']
NCH = {'quantity': 24, 'uncertain': 16, 'unit': 8, 'constant': 8, 'dim': 4, 'container': 8}


# the list of aliases given for a unit stays in the hands of the caller
ALIAS_MAKE = ['pq.UnitQuantity("%s", 3*pq.m, symbol="s%s", aliases=A)', 'pq.UnitLength("%s", 2*pq.m, aliases=A)', 'pq.UnitMass("%s", pq.g*4, aliases=A)', 'pq.UnitConstant("%s", 2*pq.s, symbol="s%s", aliases=A)', 'pq.UnitTime("%s", pq.s*5, "s%s", None, A, "doc")']
ALIAS_START = ['A = []', 'A = ["%sa"]', 'A = ["%sa", "%sb"]', 'A = ("%sa",)', 'A = {"%sa": 1}']
ALIAS_CHANGE = ['pass', 'A.append("m")', 'A.append("%snew")', 'A.clear()', 'A[0] = "kg"', 'A[:0] = ["s", "km"]', 'A.append(3)', 'A += ["nothing valid"]', 'A["mol"] = 2']


def aliases(rec):
    P = pq()
    R = P.unit_registry
    n = 0
    for make, start in itertools.product(ALIAS_MAKE, ALIAS_START):
        for chs in [(c,) for c in ALIAS_CHANGE] + list(itertools.product(ALIAS_CHANGE[1:], repeat=2)):
            n += 1
            name = 'val%d' % n
            sub = lambda s: s.replace('%s', name)
            prog = program('import quantities as pq, pickle, copy', sub(start), 'u = ' + sub(make), *['try: %s\nexcept Exception as e: print(repr(e))' % sub(c) for c in chs])
            e = dict(glob()); exec(sub(start), e)
            u = eval(sub(make), e)
            given = list(e['A'])
            for c in chs:
                try: exec(sub(c), e)
                except Exception as x: rec.outcome(('change', type(x).__name__))
            rec.case('%s|%s|%s' % (make, start, chs))
            for r in ROUTES:
                rec.step(); rec.trace()
                key = 'aliases|%s|%s|%s|%s' % (make, start, ' ; '.join(chs), r)
                try: v = route(u, r)
                except Exception as x:
                    rec.fail(key, 'cannot be copied after the list of aliases it was given has changed: %r' % x, prog); break
                if type(v) is not type(u) or not (v == u) or v.name != u.name or v.symbol != u.symbol or not close(factor_of(v), factor_of(u)):
                    rec.fail(key, 'the copy is %r instead of %r' % (v, u), prog); break
                if 'Constant' not in make and any(not (R[l] == u) for l in given + [name]):
                    rec.fail(key, 'a label of the unit means something else', prog); break
                if any(not raised(attempt(lambda: R[l])) for l in (name + 'new', 'nothing valid', 'val')) or R['m'] is not P.m or R['kg'] is not P.kg or R['s'] is not P.s:
                    rec.fail(key, 'copying has registered another label', prog); break


def factor_of(u):
    return float((1 * u).simplified.magnitude)


def chunks(tier):
    r = [['here', k, i, NCH[k]] for k in KINDS for i in range(NCH[k])]
    r += [['aliases', 'aliases', 0, 1]]
    r += [['fork', k, i, NCH[k]] for k in KINDS for i in range(NCH[k])]
    r += [['fresh', k, p, 0] for k in KINDS for p in range(6)]
    r += [['chain', i, 3 if tier == 'quick' else 4, 0] for i in range(len(CHAIN_OBJS))]
    return r


def run(desc, rec):
    global CODE
    mode, kind, i, n = desc
    CODE = [compile(c, c, 'exec') for c in CHANGES]
    if mode == 'aliases':
        return aliases(rec)
    if mode == 'here':
        define_user_units()
        for s in sources(kind, rec.tier)[i::n]:
            one(rec, kind, s, [(r,) for r in ROUTES])
    elif mode == 'chain':
        define_user_units()
        src = CHAIN_OBJS[kind]
        R = ['pickle0', 'pickle2', 'pickle5', 'copy', 'deepcopy', 'method', 'dumps']
        one(rec, 'chain', src, list(itertools.product(R, repeat=2)) + list(itertools.product(R, repeat=i)))
    else:
        # the alphabet needs the user-defined units, so ask a child for the sources
        ok, srcs = fork_call(lambda: (define_user_units(), sources(kind, rec.tier))[1])
        if ok != 'ok': raise core.HarnessError(srcs)
        if mode == 'fork':
            srcs = srcs[i::n]
            ok, items = fork_call(lambda: produce(srcs, (2, 5) if rec.tier == 'quick' else range(6)))
            if ok != 'ok':
                rec.fail('produce|%s' % kind, items); return
            user = ('X.', 'vfoo')
            for s, p, data, b in items:
                states = STATES[:1]
                if any(u in s for u in user): states = STATES
                elif p == 2: states = ['plain', 'unicode', 'cgs', 'twice']
                if rec.tier == 'quick' and kind in ('quantity', 'uncertain') and not any(m in s for m in ('(2.5,', '[1.0', '[[1')):
                    states = STATES[:1]
                for st in states:
                    kindr, r = fork_call(lambda: restore(data, st, s))
                    rec.case('%s, protocol %d, %s' % (s, p, st)); rec.step(); rec.trace()
                    key = 'other|%s|%d|%s' % (st, p, s)
                    src = program('import pickle', '# restored in a process that does not know the user-defined units, state: %s' % st, USER_SRC, 'open("/tmp/x.pkl", "wb").write(pickle.dumps(%s, %d))' % (s, p))
                    if kindr != 'ok':
                        rec.fail(key, 'restoring raises %s' % r, src); continue
                    if st == 'conflict':
                        uses = conflict(s)
                        if not r[-1]:
                            rec.fail(key, 'labels have changed their meaning', src)
                        elif uses and r[0] != 'raised':
                            rec.fail(key, 'a unit that means something else here is accepted: %r' % (r[1],), src)
                        elif not uses and r[0] == 'raised':
                            rec.fail(key, 'restoring raises %s' % r[1], src)
                        continue
                    if r[0] != b:
                        rec.fail(key, 'differs: %r' % ([(x, y) for x, y in zip(b, r[0]) if x != y][:2],), src)
                    elif r[1]:
                        rec.fail(key, 'labels %r do not denote the restored units' % r[1], src)
                    rec.outcome((st, p, repr(r[0][0])))
        else:
            ok, items = fork_call(lambda: produce(srcs, (i,)))
            if ok != 'ok':
                rec.fail('produce|%s|%d' % (kind, i), items); return
            for order in 'fb':
                fresh(rec, items, order)


def conflict(s):
    """whether a pickle of the object holds one of the conflicting units"""
    import re
    # units defined by way of vfoo or vbase hold them in their definition
    return bool(re.search(r'X\.(vfoo|vbar|vbaz|vbase|vkilo|cu4)\b|CompoundUnit."vfoo', s))
