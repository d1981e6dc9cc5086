"""C09: histories of operations on unit objects; every watched unit is observed after every step."""
import copy, itertools, pickle
import numpy as np
from ..alphabet import *

RULE = ('every sequence of operations from the alphabet on a unit of every kind; writing operations must raise; the result of every other operation must be an ordinary '
        'quantity (or the unit itself, or plain data) and is then written to in every way; after every step value, name, symbols, definition, text, hash, writability '
        'and conversion to base units of all watched units are compared with those at the start')
BOUNDS = {'quick': '12 units: every single one of about 245 operations on each; on 5 kinds of units every operation followed by every operation of a reduced alphabet of about 40; watched units: 12; units defined by 14 quantities in 5 ways, which are changed afterwards in up to 2 of 20 ways',
          'thorough': 'all sequences of 2 operations on all 12 units, and of 3 operations from the reduced alphabet on 6 units'}
ASSUMPTIONS = ["NumPy's memory-layout attributes (dtype, shape, strides, data, base, setflags) are not assigned to", 'numpy.ufunc.at ignores read-only flags in this NumPy version and is not used']

UNITS = ['pq.m', 'pq.N', 'X.cu3', 'pq.constants.Bohr_radius', 'pq.dimensionless', 'X.vbar', 'pq.ft', 'pq.degC', 'pq.radian', 'pq.percent', 'X.vbase', 'pq.constants.h']
MUST = [  # operations which must raise
    'U += U', 'U -= U', 'U *= 2', 'U *= U', 'U /= 2', 'U /= pq.s', 'U **= 2', 'U **= 1', 'U **= 0', 'U //= 2', 'U %= U', 'U *= 1', 'U += 0*U', 'U /= 1',
    'U *= pq.dimensionless', 'U -= 0*U', 'U += 0', 'U **= 0.5',
    'U.units = "s"', 'U.units = U2', 'U.units = U', 'U[...] = 3*U', 'U[()] = 3*U', 'U[...] = U', 'U[()] = 2', 'U[0] = 3*U', 'U[True] = 2*U', 'U[...] = nan',
    'U.fill(3)', 'U.fill(3*U)', 'U.fill(2*pq.s)', 'U.put(0, 3*U)', 'U.put([0], U)', 'U.put(0, 3)', 'U.itemset(3)', 'U.real = 3*U', 'U.real = 3', 'U.imag = 3*U',
    'U.flat = 3', 'U.flat[0] = 3', 'U.magnitude[...] = 3', 'U.magnitude.fill(3)', 'U.magnitude += 1', 'U.name = "foo"', 'U.symbol = "foo"', 'U.u_symbol = "foo"',
    'U.definition = 3*pq.m', 'U.dimensionality = {}', 'U.magnitude = 3', 'U.simplified = 3', 'U.format_order = 1', 'U.definition *= 2', 'U.magnitude *= 2',
    'U.byteswap(True)', 'U.setfield(3, "f8")', 'U.resize((2,))', 'U.sort(axis=0)', 'U.partition(0, axis=0)',
    'np.copyto(U, 3)', 'np.copyto(U, 3*U)', 'np.place(U, True, 3)', 'np.putmask(U, True, 3)', 'np.put(U, 0, 3)', 'np.put(U, 0, 3*U)',
    'np.add(1*U, 1*U, out=U)', 'np.multiply(2, U, out=U)', 'np.negative(U, out=U)', 'np.sqrt(1*U, out=U)', 'np.sin(0.5, out=U)', 'np.multiply(2.0, 3.0, out=U)', 'np.less(1*U, 2*U, out=U)',
    'Q.sum(out=U)', 'Q.max(out=U)', 'Q.mean(out=U)', 'Q.prod(out=U)', 'Q[0].clip(0*U, 9*U, out=U)', 'Q[0].round(out=U)', 'Q.std(out=U)', 'Q.var(out=U)', 'Q.ptp(out=U)',
    'Q.nansum(out=U)', 'np.sum(Q, out=U)', 'U.clip(0*U, 9*U, out=U)', 'U.round(out=U)', 'Q.argmax(out=U)', 'Q.trace(out=U)', 'Q.min(out=U)', 'Q.nanmax(out=U)', 'Q.nanmin(out=U)', 'Q.nanmean(out=U)',
    'U.view(pq.Quantity).fill(3)', 'v = U.view(pq.Quantity); v *= 2', 'v = U.view(pq.Quantity); v.units = U2', 'v = U.T; v += U', 'v = U[...]; v[...] = 3*U',
    'v = U.ravel(); v[0] = 3*U', 'v = U.reshape(1); v.sort(); v *= 3', 'v = U.squeeze(); v.fill(3)', 'v = U.real; v *= 2', 'del U.name', 'v = U[None]; v.put(0, 3*U)',
    'v = U.view(); v += U', 'v = U.view(np.ndarray); v += 1', 'v = np.asarray(U); v *= 2', 'v = np.asanyarray(U); v += U', 'v = U.swapaxes(0, 0)', 'v = np.atleast_1d(U); v[0] = 3*U', 'U._nosuch()',
    'v = U.transpose(); v.fill(2*pq.s)', 'v = np.broadcast_to(U, (2,), subok=True); v[0] = 2*U',
]
RES = [  # operations with a result
    'U + U', 'U - U', 'U * 2', '2 * U', 'U * U', 'U / U', 'U / 2', '1 / U', 'U ** 2', 'U ** 1', 'U ** 0', 'U // 1', 'U % U', '-U', 'abs(U)', 'U * 1', '1 * U', 'U + 0*U', 'U * pq.dimensionless', 'U2 + 0*U',
    '[1, 2] * U', 'U * np.array([1.0, 2.0])', 'np.array([1.0, 2.0]) * U', 'np.float64(3) * U', 'U == U', 'U < 2*U', 'Q + U', 'Q * U', 'Q / U', 'U + Q', 'U * Q', 'Q - U', 'Q == U',
    'U[()]', 'U[...]', 'U[None]', 'U.T', 'U.reshape(1)', 'U.ravel()', 'U.flatten()', 'U.squeeze()', 'U.view()', 'U.view(pq.Quantity)', 'U.real', 'U.imag', 'U.transpose()',
    'U.astype("f4")', 'U.astype(float)', 'U.repeat(2)', 'U.take([0])', 'U.tolist()', 'np.copy(U, subok=True)', 'np.array(U, subok=True, copy=True)', 'np.atleast_1d(U)', 'U.compress([True])',
    'U.copy()', 'copy.copy(U)', 'copy.deepcopy(U)', 'pickle.loads(pickle.dumps(U))', 'pickle.loads(pickle.dumps(U, 0))', 'copy.deepcopy([U, U])',
    'U.units', 'U.dimensionality', 'U.definition', 'U.simplified', 'U.magnitude', 'U.rescale(U2)', 'U.rescale(U)', 'U.rescale("")', 'pq.Quantity(U)', 'pq.Quantity(U, U2)', 'pq.Quantity(3.0, U)', 'pq.Quantity([1.0], U)', 'U.dimensionality.simplified',
    'pq.UncertainQuantity(U)', 'pq.UncertainQuantity(2.0, U, 0.1*U)', 'U.sum()', 'U.prod()', 'U.max()', 'U.cumsum()', 'U.mean()', 'U.var()', 'U.round()', 'U.clip(0*U, 9*U)', 'U.nansum()',
    'np.sqrt(U)', 'np.add(U, U)', 'np.multiply(U, 2)', 'np.negative(U)', 'np.exp(U)', 'np.sin(U)', 'np.zeros_like(U)', 'np.ones_like(U)', 'np.isnan(U)', 'np.conj(U)', 'np.reciprocal(U)',
    'pq.CompoundUnit(U.name)', 'pq.unit_registry[U.name]', 'U.conj()', 'U.dimensionality ** 2', 'U.dimensionality * U.dimensionality', 'list(U.dimensionality)', 'U.dimensionality.string', 'sum([U, U, U])',
    'str(U)', 'repr(U)', 'float(U)', 'hash(U)', 'U + pq.K*pq.mol', 'U < "x"', 'U ** [1, 2]', 'U + None', 'U * "m"', 'U.rescale(pq.K*pq.mol)', 'U ** U2', 'U.dimensionless_magnitude', 'Q.rescale(U)', 'Q.rescale(U2)',
    'pq.UnitQuantity(U.name, 3*pq.K*pq.mol)', 'pq.UnitQuantity("vtmp", 2*U)', 'pq.UnitQuantity("vtmp2", U)', 'pq.set_default_units("cgs")', 'pq.set_default_units("SI")', 'pq.set_default_units(length="ft")', 'pq.set_default_units(length="s")',
    'pq.set_default_units(length=U)', 'Q.__setitem__(0, U)', 'Q.fill(U)', 'Q.__iadd__(U)', 'Q.__imul__(U)', 'np.add(U, U, out=1*U)', 'U.__class__.set_default_unit(None)',
]
SMALL = ['U += U', 'U *= 2', 'U.units = U2', 'U[...] = 3*U', 'U.fill(3*U)', 'U.put(0, 3*U)', 'U.real = 3*U', 'U.definition *= 2', 'np.multiply(2, U, out=U)', 'Q.sum(out=U)', 'np.sin(0.5, out=U)', 'v = U.view(pq.Quantity); v *= 2',
         'v = U[...]; v[...] = 3*U', 'U + U', '2 * U', 'U ** 2', 'U ** 1', 'U * 1', 'U.copy()', 'copy.deepcopy(U)', 'pickle.loads(pickle.dumps(U))', 'U.units', 'U.dimensionality', 'U.definition', 'U.simplified', 'U.magnitude', 'U.rescale(U)',
         'pq.Quantity(U)', 'pq.UncertainQuantity(U)', 'U.sum()', 'np.add(U, U)', 'pq.set_default_units("cgs")', 'pq.set_default_units(length="ft")', 'pq.UnitQuantity(U.name, 3*pq.K*pq.mol)', 'U.T', 'U.dimensionality.simplified', 'Q.fill(U)', 'U + 0*U', 'np.zeros_like(U)', 'U.rescale(U2)']


def setup():
    global OPS, WATCH, COMPAT
    define_user_units()
    OPS = {}
    for t in MUST: OPS[t] = True
    for t in RES: OPS[t] = False
    WATCH = [Expr(s).new() for s in UNITS]
    COMPAT = {'pq.m': 'pq.ft', 'pq.N': 'pq.lbf', 'X.cu3': 'X.vbar', 'pq.constants.Bohr_radius': 'pq.m', 'pq.dimensionless': 'pq.percent', 'X.vbar': 'X.cu3', 'pq.ft': 'X.vfoo', 'pq.degC': 'pq.degF',
              'pq.radian': 'pq.degree', 'pq.percent': 'pq.dimensionless', 'X.vbase': 'X.vkilo', 'pq.constants.h': 'pq.eV*pq.s'}
    # the values of the constants are what they are now; they are checked against the tables by C15 and C16
    for u in WATCH:
        unit_phys(u)


def chunks(tier):
    ops = list(OPS)
    r = [['sources', 0, 0, 0]]
    deep = ('pq.m', 'pq.N', 'X.cu3', 'pq.constants.Bohr_radius', 'pq.dimensionless')
    for u in UNITS:
        if tier == 'thorough' or u in deep:
            for i in range(0, len(ops), 32):
                r.append([u, 2, i, i + 32])
        else:
            r.append([u, 1, 0, len(ops)])
    if tier == 'thorough':
        for u in deep + ('X.vbar',):
            for i in range(0, len(SMALL), 4):
                r.append([u, 3, i, i + 4])
    return r


# what a unit is defined by stays in the hands of the caller, who may go on to change it
SOURCES = ['D = 3.0*pq.m', 'D = pq.Quantity(3, pq.ft)', 'D = pq.Quantity(3.0, "km/hour", dtype="f4")', 'W = pq.Quantity([2.0, 3.0], pq.m); D = W[1:].reshape(())', 'D = pq.UncertainQuantity(3.0, pq.s, 0.5*pq.s)',
           'D = np.array(3.0)', 'D = pq.Quantity(0.5)', 'D = 2.0*pq.percent', 'W = 3.0*pq.m; D = W.view()', 'D = copy.copy(pq.N*4)', 'D = (2*pq.N).simplified', 'D = pq.kPa.definition', 'D = (pq.ft*1).rescale("m")', 'D = 2*X.vbar']
MAKE = ['pq.UnitQuantity("vdef", D, symbol="vdf")', 'pq.UnitLength("vdef", D)', 'pq.UnitConstant("vdef", D, symbol="vdc")', 'pq.UnitTime("vdef", D, aliases=["vdefs"])', 'pq.UnitQuantity("vdef", 2*pq.UnitQuantity("vdef0", D))']
CHANGE = ['D *= 2', 'D /= 4', 'D[...] = 7*getattr(D, "units", 1)', 'D.fill(9)', 'D.units = "mm"', 'D *= pq.kg', 'D += D', 'D **= 2', 'D.magnitude[...] = 8', 'D.uncertainty[...] = 7*D.units', 'np.add(D, D, out=D)', 'D.put(0, 6*D.units)',
          'D.real = 5*D.units', 'W[...] = 9*W.units', 'W *= 2', 'D._dimensionality.clear()', 'D.fill(3*pq.mol)', 'E *= 2', 'E.units = "mm"', 'E.fill(4*pq.mol)']


def sources(rec):
    n = 0
    for src, make in itertools.product(SOURCES, MAKE):
        for changes in [(c,) for c in CHANGE] + [(a, b) for a in CHANGE[:6] for b in CHANGE]:
            n += 1
            e = dict(glob()); e.update(copy=copy)
            name = 'vdef_%d' % n
            m = make.replace('"vdef', '"%s_' % name).replace('"vdf', '"s%s' % name).replace('"vdc', '"c%s' % name)
            exec(src, e)
            try:
                u = eval(m, e)
                num(u)      # a time of three metres is of no use
            except Exception as x:
                rec.outcome(('make', type(x).__name__))
                break
            e['U'] = u
            e['E'] = u.definition       # what is handed out is the caller's as well
            before, f = (snap([u], u), dim_text(u)), num(u)
            for c in changes:
                try: exec(c, e)
                except Exception as x: rec.outcome(('change', c, type(x).__name__))
                rec.step()
            after, g = (snap([u], u), dim_text(u)), num(u)
            rec.trace()
            if before != after or f != g:
                rec.fail('source|%s|%s|%s' % (src, make, ' ; '.join(changes)), 'a unit has changed with the quantity it was defined by: %s, %s instead of %s, %s' % (after[1], g, before[1], f),
                         program(USER_SRC, 'import copy', src, 'U = %s; E = U.definition; print(U.definition, (1*U).simplified)' % make, *['try: %s\nexcept Exception as e: print(repr(e))' % c for c in changes] + ['print(U.definition, (1*U).simplified)']))
                break
        rec.case(src + ' | ' + make)


def num(u):
    q = (1 * u).simplified
    return float(q.magnitude), dim_text(q)[0], float(pq().Quantity(2.0, u.dimensionality).simplified.magnitude)


def dim_text(q):
    return tuple(sorted((u.name, p) for u, p in q.dimensionality.items())), str(q.definition if hasattr(q, 'definition') else '')


def snap(us, U_):
    """everything a user can see of the units"""
    out = []
    for u in us:
        d = u.definition
        out.append((u.magnitude.tobytes(), u.dtype.str, u.shape, u.flags.writeable, u.name, u.symbol, u.u_symbol,
                    None if d is u else (type(d), d.magnitude.tobytes(), tuple([(x.name, p) for x, p in d.dimensionality.items()]))))
    out.append((type(U_), str(U_), repr(U_), hash(U_), U_.dimensionality.string))
    return out


def factor(u):
    """what one of it is, in other units, through the library"""
    return float(pq().Quantity(1.0, u.dimensionality).rescale(BASE[id(u)]).magnitude), float((1 * u).rescale(BASE[id(u)]).magnitude)


BASE = {}
MUTATE = ['r[...] = 5*r.units', 'r *= 2', 'r += r', 'r.units = COMP', 'r.fill(9)', 'r.magnitude[...] = 7', 'r *= pq.kg', 'r.sort()', 'r.put(0, 4*r.units)', 'r.fill(3*pq.mol)', 'r **= 2',
          'r[pq.s] = 5', 'r *= pq.kg.dimensionality', 'r **= 3', 'r.clear()', 'r.uncertainty[...] = 8*r.units', 'r.uncertainty = 4*r.units', 'r[0] = 3', 'r[0] *= 2', 'r.append(1)', 'r.flags.writeable = True']
MUTC = None
MUT_SETUP = set()


def one(rec, usrc, U_, hist, ref, fac, code):
    P = pq()
    key0 = lambda op: '%s|%s|%s' % (op, usrc, ' ; '.join(hist))
    for i, op in enumerate(hist):
        e = dict(ENV); e.update(U=U_, U2=COMPO[usrc], COMP=COMPO[usrc], Q=P.Quantity([[1.0, 2.0]], U_))
        err = None
        r = None
        try:
            if OPS[op]:
                exec(code[op], e)
            else:
                r = eval(code[op], e)
        except Exception as x:
            err = x
        rec.step()
        if OPS[op] and err is None and not (op == 'v = U.swapaxes(0, 0)'):
            rec.fail(key0(op), '%s on %s does not raise' % (op, usrc), prog(usrc, hist)); return False
        if not OPS[op] and err is None:
            for x in r if isinstance(r, list) else [r]:
                if isinstance(x, P.UnitQuantity) and x is not U_ and not (x == U_ and x.dimensionality == U_.dimensionality) and not op.startswith(('pq.UnitQ', 'U.def', 'pq.Comp', 'pq.unit_r')):
                    rec.fail(key0(op), '%s gives a unit: %s' % (op, show(x)), prog(usrc, hist)); return False
                if isinstance(x, (P.Quantity, np.ndarray)) and not isinstance(x, P.UnitQuantity) or isinstance(x, (list, P.dimensionality.Dimensionality)):
                    for m in MUTC:
                        try:
                            exec(m, dict(r=x, pq=P, COMP=COMPO[usrc]))
                        except Exception:
                            pass
        rec.outcome((op, type(err).__name__, type(r).__name__))
        if i < len(hist) - 1:
            continue    # the shorter history has been observed before
        now = snap(WATCH, U_)
        if now != ref:
            bad = [((UNITS + [usrc])[j], a, b) for j, (a, b) in enumerate(zip(ref, now)) if a != b]
            rec.fail(key0(op), 'after %s a unit has changed: %r' % (' ; '.join(hist[:i + 1]), bad[:2]), prog(usrc, hist)); return False
        for u, f in zip(WATCH, fac):
            if u is U_ or u is WATCH[(len(op) + i) % len(WATCH)]:
                if factor(u) != f:
                    rec.fail(key0(op), 'after %s the conversion of %s has changed from %r to %r' % (' ; '.join(hist), u.name, f, factor(u)), prog(usrc, hist)); return False
    rec.case(' ; '.join(hist) + ' on ' + usrc); rec.trace()
    if any('default' in op for op in hist):
        P.set_default_units('SI')
    return True


def prog(usrc, hist):
    return program(USER_SRC, 'import copy, pickle', 'U = %s; U2 = %s; Q = pq.Quantity([[1.0, 2.0]], U)' % (usrc, COMPAT[usrc]),
                   *['try:\n    r = None; %s%s\nexcept Exception as e: print(repr(e))' % ('' if OPS[h] else 'r = ', h) for h in hist] +
                   ['# and write to r in every way', 'print(repr(U), U.magnitude, U.definition, (1*U).simplified)'])


def run(desc, rec):
    global MUTC, ENV, COMPO
    if desc[0] == 'sources':
        return sources(rec)
    usrc, depth, lo, hi = desc
    P = pq()
    ENV = dict(glob()); ENV.update(copy=copy, pickle=pickle)
    MUTC = [compile(m, m, 'exec') for m in MUTATE if 'flags' not in m]
    code = {t: compile(t, t, 'exec' if must else 'eval') for t, must in OPS.items()}
    COMPO = {k: Expr(v).new() if '*' not in v else Expr('(%s)' % v).new() for k, v in COMPAT.items()}
    for u, s in zip(WATCH, UNITS):
        BASE[id(u)] = P.Quantity(1.0, u.simplified.dimensionality)
    U_ = Expr(usrc).new()
    ref, fac = snap(WATCH, U_), [factor(u) for u in WATCH]
    # the factors at the start are those of the definitions
    for u, f in zip(WATCH, fac):
        s, d = unit_phys(u)
        rec.step()
        if not close(f[0] * dim_phys(BASE[id(u)].dimensionality)[0], s, 1e-12):
            rec.fail('start|' + u.name, 'conversion factor of %s is %s' % (u.name, f), None)
    alpha = list(OPS) if depth < 3 else SMALL
    for op in alpha[lo:hi]:
        if not one(rec, usrc, U_, [op], ref, fac, code):
            return
        if depth == 1:
            continue
        for op2 in alpha if rec.tier == 'thorough' else SMALL:
            if not one(rec, usrc, U_, [op, op2], ref, fac, code):
                return
            if depth == 3:
                for op3 in alpha:
                    if not one(rec, usrc, U_, [op, op2, op3], ref, fac, code):
                        return
