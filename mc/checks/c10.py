"""C10: unit strings against an independent parser; registration histories against a dict."""
import keyword, copy, itertools, pickle
import numpy as np
from ..alphabet import *
from .. import parse as PA, tables

RULE = ('(a) every unit expression of the grammar up to the bound in every spelling, (b) every concatenation of tokens, well-formed or not, up to the bound, '
        '(c) every label of the catalogue in several contexts, (d) hostile templates around a unit that notices being called, subscripted or asked for an attribute: each string is parsed '
        'twice through every route and compared with an independent tokenizer and precedence parser over (magnitude, units) pairs; (e) every history of registrations, '
        'copies, pickles and look-ups from the alphabet is replayed on fresh labels against a dictionary from label to unit')
BOUNDS = {'quick': 'products of up to 3 factors with 6 spellings of *, 4 of / and 4 of powers and 5 parenthesisations; all strings of up to 3 of 40 tokens and 4 of 17 tokens; about 90 hostile templates; all labels x 9 contexts and their 14 misspellings x 5; '
                   'all histories of 2 registrations from about 60 and of 3 from about 20',
          'thorough': 'products of up to 4 factors; all strings of up to 4 of 40 tokens and 5 of 17; all histories of 3 registrations from about 60, 4 from about 14'}
ASSUMPTIONS = ['the expression grammar is that of Python arithmetic (binary and unary arithmetic operators, numbers, names); white space around a string, comments, non-decimal and complex number literals and '
               'look-alike Unicode identifiers are not generated', 'the empty string denotes dimensionless and is not used as a label']

NAMES = ['m', 's', 'in', 'as', 'degC', '%', 'vfo', 'kg']
TOKENS = ['m', 's', 'in', 'as', '%', 'kg', 'vfo', 'degC', 'qq', 'vcan', 'dimensionless', 'percent', '2', '0.5', '1', '0', '-', '+', '*', '**', '/', '//', '.', '·', '^', '(', ')', ' ', ',', '=', '"', "'", '[', ']', ':', ';', 'e2',
          '~', '@', 'not', 'True', 'boom', '{', '}', '|']
SHORT = ['m', 's', 'in', '%', '2', '0.5', '-', '*', '/', '.', '·', '^', '(', ')', ' ', '+', 'vfo']

MUSTREJECT = ['vcan()', 'vcan(m)', '(vcan)()', '(vcan).boom', '(vcan).boom()', 'vcan .boom', 'vcan. boom', 'vcan[0]', 'vcan[()]', 'vcan[...]', '(vcan)[0:1]', 'vcan[m]', '[vcan]', '[vcan][0]', '(vcan,)', '(vcan,)[0]', 'm, s', '{m}', '{m: s}',
    '[x for x in [m]]', '[vcan() for i in [1]][0]', '{x for x in [m]}', '(x for x in [m])', 'lambda: m', '(lambda: m)()', '(lambda x: x)(m)', '(zq := m)', '(zq := vcan())', 'm if 1 else s', '(m if vcan() else s)', 'm and s', 'm or s', 'not m', 'm == m', 'm < s', 'm is m', 'm in m',
    'm != s', '1 if m else 2', 'f"{vcan()}"', '*m', '**m', 'm; s', 'm\ns', 'm = s', 'zq = m', 'import os', '__import__("os")', '__builtins__', '__builtins__["open"]', 'exec("1")', 'eval("m")', 'open("x")', 'print(m)', 'globals()', 'locals()', 'abs(m)', 'pow(m, 2)', 'm.__class__', '(m).__class__',
    '().__class__.__bases__[0].__subclasses__()', '"m"', "'m'*2", 'm*"s"', 'b"m"', '"m"%s', 'None', '...', 'm*None', 'm**None', 'm**"2"', 'UnitQuantity', 'UnitQuantity("zq")', 'UnitQuantity("zq", 2*m)', 'CompoundUnit("m/s")', 'CompoundUnit', '(UnitQuantity)("zq")', 'await m', 'yield', '(yield)', '(yield m)',
    'pass', 'del m', 'return m', 'assert m', 'm:', 'm!', 'm?', 'm$', 'm\\', '`m`', '2*m', 'm*2', 'm/2', '0*m', '-m', '3', '1', '-1', '1.0', '2.5', 'm+m', 'm-m', 'm+s', 'm-s', 'm+1', '1+m', 'm%', 'm**s', '2**m', 'm**m', 'm s', 'm 2', '2 m', 'mm/', '/s', '*s', 'm*', 'm**', 'm^', '^2', '.m', 'm.', 'm..s', '(m', 'm)', '()', 'm()', ')m(', '((m)',
    'm*(s', 'nosuchunit', 'm*nosuchunit', 'Kg', 'KG', 'metre ' * 2, 'm\x00', 'm#\n+', 'm²', 'm\u2212s', 'm**2.5.5', 'm**-', '1/0', 'm/0', 'm**(1e400*m)', 'True', 'False', 'm @ s', 'm << 1', 'm & 1', 'm | s', 'm ^ s', 'm**[2]', 'm**(1,2)', '%%', '% %', 'm%s', 'm % s', '(m := s)', 'm -> s',
    'np.pi', 'np', 'pi', 'pq.m', 'quantities.m', 'self', 'string', 'cls', 'ast', 're', 'label', 'x', 'context', '__name__', 'vcan.__call__()', 'm*vcan()', 'm*(vcan)[0]', '(m*s).boom', '(1).real', '1 .real*m', '(m).u', '(2).__class__', '1..real']
ROUTES = ['Quantity', 'registry', 'rescale', 'units=', 'array', 'compound', 'uncertain', 'default']

touched = []
KEYLIKE = []


def setup():
    define_user_units()
    P = pq()
    class Canary(P.UnitQuantity):
        def __call__(self, *a, **k): touched.append('called'); return self
        def __getitem__(self, k): touched.append('subscripted'); return self
        @property
        def boom(self): touched.append('attribute'); return self
    global CAN, ALL, NAMETAB, WHICH
    CAN = Canary('vcan', symbol='vcn')
    NAMETAB, ALL, WHICH = {}, [], {}
    for n, cls, sym, us, labels, attrs in tables.unit_labels():
        u = P.unit_registry[n]
        s, d = unit_phys(u)
        t = ((() if n == 'dimensionless' else ((n, 1),)), s, d)
        for l in labels:
            ALL.append(l)
            NAMETAB[l] = t
            WHICH[l] = n
    for n in ('vfoo', 'vbar', 'vbaz', 'vbase', 'vkilobase', 'vell', 'vsqrt', 'vdozen', 'vcan'):
        u = P.unit_registry[n]
        s, d = unit_phys(u)
        for l in (u.name, u.symbol) + tuple(['vbazes'] if n == 'vbaz' else []):
            NAMETAB[l] = (((n, 1),), s, d)
    # labels which are keywords up to their case, or contain one
    u = P.UnitQuantity('vampsec', 3.0*P.A*P.s, symbol='As', aliases=['In', 'IN', 'aS', 'As_in', 'in_As', 'ins', 'asin'])
    s, d = unit_phys(u)
    KEYLIKE[:] = ['vampsec', 'As', 'In', 'IN', 'aS', 'As_in', 'in_As', 'ins', 'asin']
    for l in KEYLIKE:
        NAMETAB[l] = (('vampsec', 1),), s, d
        WHICH[l] = 'vampsec'
    ALL.extend(KEYLIKE)
    BASE['snap'] = regsnap()


BASE = {}

def regsnap():
    r = pq().unit_registry
    return [(l, id(r[l])) for l in NAMETAB if l in KEEP or l.isidentifier() and l not in ('in', 'as')]

KEEP = ()
UNKNOWN = ['qq', 'zq', 'boom', 'nosuchunit', 'x', 'mm_s', 'vtmpx', 'kgm', 'ms2', 'msA', 'inm']


def want(text):
    try:
        return PA.unit(text, NAMETAB)
    except PA.Reject as e:
        return e


def routes(text, which):
    P = pq()
    if which == 'Quantity': return P.Quantity(1.0, text)
    if which == 'registry': return P.unit_registry[text]
    if which == 'array': return P.Quantity([1.0, 1.0], text)[0]
    if which == 'uncertain': return P.UncertainQuantity(1.0, text, 0.1)
    if which == 'compound':
        c = P.CompoundUnit(text)
        if c.name != '(%s)' % text: raise AssertionError('compound unit of %r is called %r' % (text, c.name))
        d = c.definition
        return d
    if which == 'rescale':
        q = P.Quantity(1.0, BASE['q'])
        r = q.rescale(text)
        return P.Quantity(1.0, r.dimensionality)
    if which == 'units=':
        q = P.Quantity(1.0, BASE['q'])
        q.units = text
        return P.Quantity(1.0, q.dimensionality)
    if which == 'default':
        return P.Quantity(1.0, P.Quantity(1.0, BASE['q']).rescale(P.Quantity(1.0, text)).dimensionality)


def judge(rec, kind, text, which=('Quantity', 'Quantity'), w=None):
    """compare what the library makes of a string with what the grammar says"""
    P = pq()
    if w is None:
        try:
            w = want(text)
        except PA.Unclear:
            rec.note('one up to rounding only'); return
    bad = isinstance(w, PA.Reject)
    rec.case(text)
    for r in which:
        if r in ('rescale', 'units=', 'default'):
            BASE['q'] = 'm' if bad else P.Quantity(1.0, P.dimensionless) if not w[4] else phq(w[4])
        got = attempt(routes, text, r); rec.step()
        if bad:
            if r == 'compound':
                continue
            if r == 'registry':
                if raised(got): continue
                # the registry itself evaluates expressions that are no units; a unit must not come out
                if isinstance(got, P.Quantity) and got.shape == () and got.magnitude == 1:
                    rec.fail('accepted|%s|%s|%s' % (kind, r, text), '%r (%s) is accepted by %s as %s' % (text, w, r, show(got)), program('print(repr(pq.Quantity(1.0, %r)))' % text)); return
                continue
            if not raised(got):
                rec.fail('accepted|%s|%s|%s' % (kind, r, text), '%r (%s) is accepted by %s as %s' % (text, w, r, show(got)), program('print(repr(pq.Quantity(1.0, %r)))' % text)); return
            rec.outcome('reject')
        else:
            if raised(got):
                rec.fail('rejected|%s|%s|%s' % (kind, r, text), '%r denotes %r but %s %r' % (text, w[2], r, got), program('print(repr(pq.Quantity(1.0, %r)))' % text)); return
            if not isinstance(got, P.Quantity) or units_of(got) != w[2] or not float(np.asarray(got.magnitude)) == 1.0:
                rec.fail('meaning|%s|%s|%s' % (kind, r, text), '%r denotes %r but %s gives %s' % (text, w[2], r, show(got)), program('print(repr(pq.Quantity(1.0, %r)))' % text)); return
            rec.outcome((w[2],))
    rec.trace()
    if touched:
        t = list(touched); del touched[:]
        rec.fail('executed|%s|%s' % (kind, text), 'parsing %r has %s a unit' % (text, t), program('pq.Quantity(1.0, %r)' % text))


def phq(dims):
    P = pq()
    q = 1.0 * P.dimensionless
    for n, e in dims:
        q = q * (1.0 * P.unit_registry[n]) ** e
    return P.Quantity(1.0, q.dimensionality)


# ---------------------------------------------------------------- (a) grammar
MUL = ['*', ' * ', '·', '.', ' *', '* ']
DIV = ['/', ' / ', '/ ', ' /']
POW = ['**', '^', ' ** ', ' ^ ']
EXPS = ['2', '-1', '(-2)', '0.5', '(1/2)', '-0.5', '3', '(-1)', '0', '1', '-2.0', '1.5']


def factors(names, exps, pows):
    for n in names:
        yield n
    for n in names:
        for e in exps:
            for p in pows:
                yield n + p + e


def grammar(tier, lo):
    """products of factors in every spelling; lo selects a slice by the first factor"""
    first = list(factors(NAMES + ['1'], EXPS, POW))[lo::NG]
    second = list(factors(['s', 'in', '%', 'vfo', 'm'], ['2', '-1', '0.5', '(-2)'], ['**', '^'])) + ['1', '(s)', '(m*s)', '(m/s)**2', '(s.m)', '(1/m)', '(in·s)^-1']
    pairs = set(factors(NAMES + ['1'], EXPS if tier == 'thorough' else EXPS[:4], ['**']))
    for a in first:
        yield a
        yield '(%s)' % a
        yield '((%s))**2' % a
        yield '1/(%s)' % a
        yield '1/%s' % a
        for b in second if a in pairs else second[::8]:
            for o in MUL + DIV:
                yield a + o + b
                if tier == 'thorough' or o in '*/·.':
                    yield '(%s%s%s)' % (a, o, b)
                    yield '(%s%s%s)**2' % (a, o, b)
                    yield '(%s%s%s)^-1' % (a, o, b)
                    yield '1/(%s%s%s)' % (a, o, b)
    third = ['s', 'in**2', 'm', 'vfo^-1', '%']
    for a in first[::1 if tier == 'thorough' else 3]:
        for b in ['s', 'in^2', 'as', 'vfo', 'm**-1']:
            for c in third:
                for o1 in ('*', '/', '.', '·', ' / '):
                    for o2 in ('*', '/', '.', '·'):
                        yield a + o1 + b + o2 + c
                        yield '(' + a + o1 + b + ')' + o2 + c
                        yield a + o1 + '(' + b + o2 + c + ')'
                        if tier == 'thorough':
                            for o3 in ('*', '/', '.'):
                                yield a + o1 + b + o2 + c + o3 + 's'
                                yield a + o1 + '(' + b + o2 + c + o3 + 's)'
                                yield '(' + a + o1 + b + ')' + o2 + '(' + c + o3 + 'm)'


NG = 16


def skip(t):
    # spellings whose status the statement leaves open
    return '.%' in t or '%.' in t or t[:1] in ' \t\n' or t[-1:] in ' \t\n'


# ---------------------------------------------------------------- (e) registration histories
# {0}, {1}, {2} are labels which are fresh in every history
DEFS = ['None', '2*pq.m', '4*pq.s', 'pq.m', '0.5*pq.m/pq.s', '8']
REG = []
for d in DEFS:
    REG.append("pq.UnitQuantity('{0}', %s)" % d)
for d in ('2*pq.m', '4*pq.s', 'None'):
    REG.append("pq.UnitQuantity('{1}', %s)" % d)
    REG.append("pq.UnitQuantity('{0}', %s, symbol='{1}')" % d)
    REG.append("pq.UnitQuantity('{0}', %s, symbol='{2}', aliases=['{1}'])" % d)
    REG.append("pq.UnitQuantity('{2}', %s, aliases=['{1}', '{0}'])" % d)
    REG.append("pq.UnitQuantity('{2}', %s, symbol='{0}')" % d)
    REG.append("pq.UnitQuantity('{0}', %s, aliases=['{1}', 'm', '{2}'])" % d)
    REG.append("pq.UnitQuantity('{1}', %s, symbol='s', aliases=['{2}'])" % d)
    REG.append("pq.UnitQuantity('m', %s, symbol='{0}', aliases=['{1}'])" % d)
    REG.append("pq.UnitQuantity('{0}', %s, symbol='m')" % d)
REG += ["pq.UnitLength('{0}', 2*pq.m, symbol='{1}')", "pq.UnitLength('{1}', 4*pq.m)", "pq.UnitLength('{2}', 2*pq.m, aliases=['{0}'])", "pq.UnitMass('{0}', 2*pq.kg)", "pq.UnitTime('{1}', 4*pq.s, aliases=['{0}'])",
        "pq.UnitConstant('{0}', 2*pq.m, symbol='{1}')", "pq.UnitConstant('{1}', 4*pq.s)", "pq.CompoundUnit('m/s')", "pq.CompoundUnit('{0}')", "pq.CompoundUnit('{0}*{1}')",
        "pq.UnitQuantity(5)", "pq.UnitQuantity('{0}', 2*pq.m, symbol=5)", "pq.UnitQuantity('{0}', 2*pq.m, aliases=['{1}', 5])", "pq.UnitQuantity('{0}', 2*pq.m, aliases=[None, '{1}'])", "pq.UnitQuantity('{0}', 'm')",
        "pq.UnitQuantity('{0}', 2*pq.m, symbol='{0}', aliases=['{0}', '{1}', '{1}'])", "pq.UnitQuantity('{1}', 2*pq.m, u_symbol='{2}')", "pq.UnitQuantity('{1}', 2*pq.m, symbol='{2}', u_symbol='{0}')",
        "pq.UnitQuantity('{0}', 2*pq.m, symbol='{1}.{2}')", "pq.UnitQuantity('{1}', 4*pq.s, symbol='{0}.{2}')",
        "pq.unit_registry.__setitem__('{0}', pq.m)", "pq.unit_registry.__setitem__('{1}', pq.s)", "pq.unit_registry.__setitem__('m', pq.s)", "pq.unit_registry.__setitem__('m', pq.m)",
        "pq.UnitQuantity('{1}', 2*pq.unit_registry['{0}'])", "pq.UnitQuantity('{2}', pq.unit_registry['{0}']**2, symbol='{1}')",
        "pq.unit_registry['{0}'].copy()", "copy.copy(pq.unit_registry['{0}'])", "copy.deepcopy(pq.unit_registry['{1}'])", "pickle.loads(pickle.dumps(pq.unit_registry['{0}']))", "pickle.loads(pickle.dumps(pq.unit_registry['{1}'], 0))",
        "pickle.loads(pickle.dumps(3*pq.unit_registry['{2}']**2))", "pq.m.copy()", "pickle.loads(pickle.dumps(pq.ft))",
        "pq.Quantity(1.0, '{0}')", "pq.Quantity(1.0, '{0}*{1}/{2}')", "pq.Quantity(1.0, '{1}**2.{2}')", "pq.unit_registry['{1}']", "pq.Quantity(1.0, '{0}.{1}')", "pq.Quantity(1.0, '{1}.{2}')", "pq.Quantity(1.0, 'm').rescale('{0}')"]
SMALLREG = ["pq.UnitQuantity('{0}', 2*pq.m)", "pq.UnitQuantity('{0}', 4*pq.s, symbol='{1}')", "pq.UnitQuantity('{0}', 2*pq.m, symbol='{2}', aliases=['{1}'])", "pq.UnitQuantity('{2}', 4*pq.s, aliases=['{1}', '{0}'])", "pq.UnitQuantity('{1}', None)",
            "pq.UnitQuantity('{0}', 4*pq.s, aliases=['{1}', 'm', '{2}'])", "pq.UnitLength('{1}', 4*pq.m)", "pq.UnitConstant('{0}', 2*pq.m, symbol='{1}')", "pq.UnitQuantity('{0}', 2*pq.m, aliases=['{1}', 5])", "pq.UnitQuantity('{0}', 2*pq.m, symbol='{1}.{2}')",
            "pq.unit_registry.__setitem__('{0}', pq.m)", "pq.UnitQuantity('{1}', 2*pq.unit_registry['{0}'])", "pq.UnitQuantity('{2}', pq.unit_registry['{0}']**2, symbol='{1}')", "pq.unit_registry['{0}'].copy()", "pickle.loads(pickle.dumps(pq.unit_registry['{0}']))",
            "pq.Quantity(1.0, '{0}')", "pq.Quantity(1.0, '{0}*{1}/{2}')", "pq.Quantity(1.0, '{0}.{1}')", "pq.unit_registry['{1}']", "pq.UnitQuantity('m', 4*pq.s, symbol='{0}', aliases=['{1}'])"]
TINY = SMALLREG[:6] + SMALLREG[10:16]
seq = [0]
SHAPES = ['vx%d', 'Vy%d_', 'z%dz']


def suffix(n):
    s = ''
    while True:
        s = chr(97 + n % 26) + s
        n //= 26
        if not n: return 'v' + s


def physof(u):
    return unit_phys(u)


def history(rec, ops):
    """ops is a sequence of templates; labels are fresh, so earlier histories cannot matter"""
    P = pq()
    seq[0] += 1
    sfx = suffix(seq[0])
    labs = ['la' + sfx, 'Lb' + sfx, 'lc' + sfx]
    fmt = [o.format(*labs) for o in ops]
    watch = labs + ['%s.%s' % (labs[1], labs[2]), '%s.%s' % (labs[0], labs[2])]
    env = dict(glob()); env.update(copy=copy, pickle=pickle)
    model = {'m': P.m, 's': P.s}       # label -> unit object it denotes
    src = lambda: program('import copy, pickle', *['try: print(repr(%s))\nexcept Exception as e: print("raised", repr(e))' % f for f in fmt] + ['for l in %r:\n    try: print(l, repr(pq.unit_registry[l]))\n    except Exception as e: print(l, "unknown")' % (watch,)])
    key = lambda k: '%s|%s' % (k, ' ; '.join(ops))
    for i, (op, f) in enumerate(zip(ops, fmt)):
        got = attempt(eval, f, env); rec.step()
        last = i == len(ops) - 1
        m = f.split('(', 1)[0]
        if m in ('pq.UnitQuantity', 'pq.UnitLength', 'pq.UnitMass', 'pq.UnitTime'):
            spec = attempt(eval, 'lambda' + ' name, definition=None, symbol=None, u_symbol=None, aliases=[]: (name, symbol, aliases, definition)')
            a = attempt(eval, 'SPEC(' + f.split('(', 1)[1], dict(env, SPEC=spec))
            ok = not raised(a)
            if ok:
                name, symbol, aliases, definition = a
                wanted = [name] + ([symbol] if symbol is not None else []) + list(aliases)
                ok = all(isinstance(l, str) for l in wanted) and not isinstance(definition, (str, list))
            if ok:
                if definition is None: ph = (1.0, ((name, 1),))
                elif isinstance(definition, P.Quantity):
                    s, d = dim_phys(definition.dimensionality); ph = (s * float(definition.magnitude), d)
                else: ph = (float(definition), ())
                taken = [l for l in wanted if l in model]
                clash = [l for l in taken if physof(model[l]) != ph]
                if clash and not raised(got):
                    rec.fail(key('redefined'), '%s is accepted although %r is taken' % (f, clash), src()); return
                if not taken and raised(got):
                    rec.fail(key('refused'), '%s is refused: %r' % (f, got), src()); return
                if not raised(got):
                    for l in wanted:
                        model.setdefault(l, got)
            elif not raised(got):
                rec.fail(key('bad'), '%s is accepted' % f, src()); return
        elif m == 'pq.unit_registry.__setitem__':
            l, u = f.split("'")[1], P.m if f.endswith('pq.m)') else P.s
            if l in model and model[l] is not u and physof(model[l]) != physof(u):
                if not raised(got): rec.fail(key('redefined'), '%s is accepted' % f, src()); return
            elif raised(got):
                if l not in model:
                    rec.fail(key('refused'), '%s is refused: %r' % (f, got), src()); return
            else:
                model.setdefault(l, u)
        elif 'unit_registry[' in f and '=' not in f and (m.startswith(('pq.unit_registry', 'copy', 'pickle'))):
            l = f.split("unit_registry['")[1].split("'")[0]
            if raised(got) != (l not in model):
                rec.fail(key('lookup'), '%s gives %s, %r is %s' % (f, show(got), l, show(model.get(l))), src()); return
            if not raised(got) and m == 'pq.unit_registry[\'%s\']' % l and got is not model[l]:
                rec.fail(key('lookup'), '%s gives %s, expected %s' % (f, show(got), show(model.get(l))), src()); return
        elif m == 'pq.Quantity' and '*' in f:
            pass
        if not last:
            continue
        # every label denotes what the model says, in every spelling
        for l in watch + ['m', 's']:
            for how, g in (('registry', lambda: P.unit_registry[l]), ('Quantity', lambda: P.Quantity(1.0, l).units), ('square', lambda: P.Quantity(1.0, l + '**2')), ('product', lambda: P.Quantity(1.0, 'kg.%s' % l))):
                if l in watch[3:] and how in ('square', 'product'):
                    continue
                x = attempt(g); rec.step()
                if l not in model:
                    if l in watch[3:] and how == 'registry':
                        a, b = l.split('.')
                        if a in model and b in model:
                            if model[a] is not model[b] and model[a].name == model[b].name:
                                continue
                            w = umul(uu(model[a]), uu(model[b]))
                            if raised(x) or units_of(x) != w:
                                rec.fail(key('product'), '%r denotes %s, expected %r' % (l, show(x), w), src()); return
                            continue
                    elif l in watch[3:]:
                        continue
                    if not raised(x):
                        rec.fail(key('leaked'), 'after %s the label %r denotes %s' % ('; '.join(fmt), l, show(x)), src()); return
                    continue
                u = model[l]
                un = uu(u)
                if raised(x):
                    rec.fail(key('lost'), 'after %s the label %r is unknown (%s: %r)' % ('; '.join(fmt), l, how, x), src()); return
                if how == 'registry':
                    if x is not u:
                        rec.fail(key('meaning'), 'after %s the label %r denotes %s, expected %s' % ('; '.join(fmt), l, show(x), show(u)), src()); return
                elif units_of(x) != {'Quantity': un, 'square': upow(un, 2), 'product': umul(un, (('kilogram', 1),))}[how]:
                    rec.fail(key('meaning'), 'after %s the label %r denotes %s in %s, expected %s' % ('; '.join(fmt), l, show(x), how, show(u)), src()); return
                if how == 'Quantity' and un:
                    s, d = physof(u)
                    y = attempt(lambda: x.simplified)
                    if raised(y) or not close(phys(y)[0], s, 1e-12) or phys(y)[1] != d:
                        rec.fail(key('value'), 'the label %r denotes %s worth %s, expected %r %r' % (l, show(x), show(y), s, d), src()); return
    rec.case('; '.join(ops)); rec.trace()
    rec.outcome(tuple(sorted((l.replace(sfx, ''), u.name.replace(sfx, '')) for l, u in model.items())))


def uu(u):
    return units_of_dim(u.dimensionality)


def chunks(tier):
    r = [['grammar', i] for i in range(NG)]
    r += [['tokens', a, 3] for a in range(len(TOKENS))]
    r += [['short', a, 4 if tier == 'quick' else 5] for a in range(len(SHORT))]
    if tier == 'thorough':
        r += [['tokens4', a, b] for a in range(len(TOKENS)) for b in range(0, len(TOKENS), 9)]
    r += [['hostile', i] for i in range(4)] + [['labels', i] for i in range(8)]
    d = 2 if tier == 'quick' else 3
    r += [['reg', i, d] for i in range(len(REG))]
    if tier == 'quick':
        r += [['sreg', i, 3] for i in range(len(SMALLREG))]
    else:
        r += [['treg', i, 4] for i in range(len(TINY))]
    return r


def run(desc, rec):
    kind = desc[0]
    P = pq()
    seen = set()
    def go(t, which=('Quantity', 'Quantity'), k=kind):
        if t in seen or skip(t):
            return
        seen.add(t)
        judge(rec, k, t, which)
    if kind == 'grammar':
        for i, t in enumerate(grammar(rec.tier, desc[1])):
            go(t, ('Quantity', 'registry') + (ROUTES[2 + i % 6], 'Quantity'))
    elif kind == 'tokens':
        a = TOKENS[desc[1]]
        go(a)
        for b in TOKENS:
            go(a + b, ('Quantity', 'registry', 'rescale'))
            for c in TOKENS:
                go(a + b + c, ('Quantity',))
    elif kind == 'tokens4':
        a = TOKENS[desc[1]]
        for b in TOKENS[desc[2]:desc[2] + 9]:
            for c in TOKENS:
                for d in TOKENS:
                    go(a + b + c + d, ('Quantity',))
    elif kind == 'short':
        for rest in itertools.product(SHORT, repeat=desc[2] - 1):
            go(SHORT[desc[1]] + ''.join(rest), ('Quantity',))
    elif kind == 'hostile':
        for t in MUSTREJECT[desc[1]::4]:
            for form in ('%s', '(%s)', 'm*(%s)', '(%s)**2', '%s*s', '1/(%s)'):
                if form != '%s' and t in ('2*m', 'm*2', 'm/2', '0*m', '-m', '3', '1', '-1', '1.0', '2.5', 'm+m', 'm-m', 'True', 'False', 'm**(1e400*m)', '', '()', 'm)', ')m(', '-1', '(m', 'm/0', 'm**', 'm*', 'm', 'm\x00', '*s', '**m'):
                    continue
                if '%%' in t or t in ('m%', 'm ^ s'): pass
                judge(rec, 'hostile', form.replace('%s', t), ('Quantity', 'rescale', 'units=', 'Quantity', 'array', 'uncertain'), PA.Reject('no unit expression'))
                for u in UNKNOWN:
                    if not raised(attempt(lambda: P.unit_registry[u])):
                        rec.fail('state|%s|%s' % (u, t), 'after parsing %r the name %r is a unit' % (t, u), program('try: pq.Quantity(1, %r)\nexcept Exception: pass\nprint(repr(pq.unit_registry[%r]))' % (t, u)))
                rec.step(len(UNKNOWN))
    elif kind == 'labels':
        L = ALL[desc[1]::8]
        for l in L + L[::-1]:
            w = NAMETAB[l]
            idf = l.isidentifier()
            judge(rec, 'label', l, ('registry', 'Quantity', 'rescale', 'units=', 'compound', 'array', 'Quantity'), ('q', 1.0) + tuple(w))
            x = attempt(lambda: P.unit_registry[l]); rec.step()
            if raised(x) or x is not P.unit_registry[WHICH[l]]:
                rec.fail('label-object|%s' % l, '%r is %s, expected the unit %s' % (l, show(x), WHICH[l]))
            if not (idf or l == '%'):
                continue
            judge(rec, 'label', l + '**2', ('Quantity', 'rescale', 'Quantity'))
            judge(rec, 'label', '1/' + l, ('Quantity', 'units='))
            judge(rec, 'label', l + '*s', ('Quantity', 'registry'))
            judge(rec, 'label', '(' + l + ')', ('Quantity',))
            if l[-1].isalpha() and l[-1].isascii() and l[0].isascii():
                judge(rec, 'label', 'm.' + l, ('Quantity', 'compound'))
                judge(rec, 'label', l + '.m', ('Quantity', 'registry'))
            judge(rec, 'label', 'm·' + l, ('Quantity',))
            judge(rec, 'label', l + '^-1', ('Quantity', 'uncertain'))
        # names which are nearly a label are no labels, unless they are
        near = sorted({v for l in L for v in (l.upper(), l.lower(), l.swapcase(), l.capitalize(), l + 's', l[:-1], l[1:], l + l[-1], '_' + l, l + '_', l + '2', l + '0', 'k' + l, l[::-1])} - set(L))
        for v in near:
            if not v.isidentifier() or v in ('True', 'False', 'None') or keyword.iskeyword(v) and v not in ('in', 'as'): continue
            judge(rec, 'near', v, ('Quantity', 'registry', 'rescale'))
            for form in ('1/%s', '%s*s', 'm·%s', '%s^2') if v.isascii() else ('1/%s',):
                judge(rec, 'near', form % v, ('Quantity',))
    else:
        A = {'reg': REG, 'sreg': SMALLREG, 'treg': TINY}[kind]
        if desc[2] == 2 or rec.tier == 'thorough' and desc[2] == 3 and kind == 'reg':
            history(rec, [A[desc[1]]])
        for rest in itertools.product(A, repeat=desc[2] - 1):
            history(rec, [A[desc[1]]] + list(rest))
    # what the labels meant before, they mean now
    if regsnap() != BASE['snap']:
        bad = [a[0] for a, b in zip(regsnap(), BASE['snap']) if a != b]
        rec.fail('state|labels', 'labels %r denote other units than before' % bad[:5])
    rec.step()
