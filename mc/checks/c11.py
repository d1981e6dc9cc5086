"""C11: printed unit expressions are read back by readers of our own for every text form."""
import itertools, re
from fractions import Fraction
import numpy as np
from ..alphabet import *
from .. import tables

RULE = ('every unit expression of the alphabet, built in every order and by every route, is printed in all forms with the unicode option off and on; an independent reader for each form (plain, '
        'unicode, LaTeX, HTML) turns the text back into factors and powers, which must be those of the expression; all texts of one expression must be the same, the library must parse the plain '
        'and the unicode text back into it; quantities of all kinds are printed with every format and compared with the text of magnitude and units; sequences of option changes and printing are explored')
BOUNDS = {'quick': 'all 345 catalogue units and 13 user-defined ones x 45 powers; all pairs of 22 units x 9x9 powers; all triples of 13 units x 4^3 powers in all orders; 21 magnitudes x 10 units x 10 formats; all sequences of 3 of 11 operations',
          'thorough': 'all pairs of 40 units x 15x15 powers; all triples of 22 units x 4^3 powers; all sequences of 5 of 11 operations'}
ASSUMPTIONS = ['exponents are ints, floats, numpy numbers and fractions that a float represents exactly', 'constants share symbols with units, so their text is read with the symbols of the expression and is not parsed back',
               'no user-defined symbol contains an operator']

POWERS = ['1', '2', '3', '-1', '-2', '0.5', '-0.5', '1.5', '10', '-10', '20', '100', '1/3', '-1/3', '1e-05', '1e16', '1e22', '-1e-7', '0.1', '2.0', '-3.0', '1000', '0.25', '12', '1.0005', '1.0000001', '-1.0005', '-1.0000001', '0.9999999', '2.0000001', '1e-300', '1.5e-10', '-2.5e-20', '1.25e20', '2.5e30', '1e-10', '1e+20', '3.7e-100', '123456789012', '1.2345678901234567', '-0.30000000000000004', 'np.int64(2)', 'np.float64(0.5)', 'np.float32(0.1)',
          'Fraction(1, 2)', 'Fraction(-3, 4)', '123456789', '(0.1+0.2)', '30', '101', '1.25', '-1.0']
PPOW = ['1', '-1', '2', '-2', '0.5', '-0.5', '10', '-1.5', '1/3']
TPOW = ['1', '-1', '2', '-0.5']
PUNITS = ['pq.m', 'pq.s', 'pq.kg', 'pq.ft', 'pq.N', 'pq.degC', 'pq.percent', 'pq.um', 'pq.ohm', 'pq.angstrom', 'pq.degree', 'X.vfoo', 'X.vbar', 'X.vbase', 'X.vkilo', 'X.cu1', 'X.cu3', 'pq.statampere', 'pq.B', 'pq.constants.h', 'pq.constants.natural_unit_of_velocity', 'X.cu4']
MORE = ['pq.g', 'pq.mole', 'pq.A', 'pq.cd', 'pq.K', 'pq.radian', 'pq.inch', 'pq.minute', 'pq.arcminute', 'pq.dram', 'pq.drachm', 'pq.eV', 'pq.bit', 'pq.Hz', 'X.vbaz', 'X.vell', 'X.cu2', 'pq.constants.hbar', 'pq.t', 'pq.attosecond']
TUNITS = ['pq.m', 'pq.s', 'pq.kg', 'pq.N', 'pq.percent', 'pq.angstrom', 'X.vfoo', 'X.vbar', 'X.cu1', 'X.cu3', 'pq.constants.h', 'pq.degC', 'X.vbaz']
SUP = {c: str(i) for i, c in enumerate('⁰¹²³⁴⁵⁶⁷⁸⁹')}
NUM = r'\d+(?:\.\d+)?(?:e[+-]?\d+)?'


def setup():
    define_user_units()
    glob()['Fraction'] = Fraction
    g = glob()
    P = pq()
    g['X'].esc = P.UnitQuantity('vescudo', 0.5 * P.m, symbol='vesc', u_symbol='Ƀ')
    global CAT
    CAT = []
    for n, cls, sym, us, labels, attrs in tables.unit_labels():
        CAT.append("pq.unit_registry[%r]" % n)
    CAT += ['X.' + n for n, _ in USER_DEFS if n != 'vtwin'] + ['X.esc']
    global OBJ
    OBJ = {s: Expr(s).new() for s in CAT + PUNITS + MORE + TUNITS + ['pq.constants.h']}


def compound(u):
    return isinstance(u, pq().CompoundUnit)


# what one symbol looks like in a form, written independently of the library
def sup(text):
    out, i = '', 0
    while i < len(text):
        m = re.match(r'\*\*(-?%s)' % NUM, text[i:])
        if m and m.group(1).isdigit():
            out += ''.join('⁰¹²³⁴⁵⁶⁷⁸⁹'[int(c)] for c in m.group(1))
        elif m:
            out += '^' + m.group(1)
        elif text[i] == '*':
            out += '·'
        else:
            out += text[i]
        i += m.end() if m else 1
    return out


def in_form(sym, form, mult=None):
    if form == 'unicode':
        return sup(sym)
    if form == 'latex':
        return re.sub(r'\*', lambda m: mult or r'{\cdot}', re.sub(r'\*\*(-?%s)' % NUM, r'^{\1}', sym))
    if form == 'html':
        return re.sub(r'\*', mult or '&sdot;', re.sub(r'\*\*(-?%s)' % NUM, r'<sup>\1</sup>', sym))
    return sym


def symbol(u, uni):
    """the symbol of a unit with the unicode option off or on"""
    if compound(u):
        raw = u._name if hasattr(u, '_name') else u.name.strip('()')
        if uni:
            return '(%s)' % re.sub(r'\*\*(\d+)(?![\d.e])', lambda m: ''.join('⁰¹²³⁴⁵⁶⁷⁸⁹'[int(c)] for c in m.group(1)), raw)
        return '(%s)' % raw
    return u.u_symbol if uni else u.symbol


class Bad(Exception):
    pass


MULT = {'plain': '*', 'unicode': '·', 'latex': r'{\cdot}', 'html': '&sdot;'}
EXP = {'plain': r'\*\*(%s)' % NUM, 'unicode': r'(?:\^(%s)|([⁰¹²³⁴⁵⁶⁷⁸⁹]+))' % NUM, 'latex': r'\^\{(%s)\}' % NUM, 'html': r'<sup>(%s)</sup>' % NUM}


def read(text, syms, form, mult=None):
    """{unit: power} of a printed expression; syms: [(text of the symbol, unit)]"""
    mult = mult or MULT[form]
    syms = sorted(((in_form(s, form, mult), u) for s, u in syms), key=lambda x: -len(x[0]))
    def factors(t, sign, out):
        i = 0
        while True:
            for s, u in syms:
                if t.startswith(s, i):
                    break
            else:
                raise Bad('no symbol at %r' % t[i:])
            i += len(s)
            m = re.compile(EXP[form]).match(t, i)
            e = 1.0
            if m:
                g = [x for x in m.groups() if x][0]
                e = float(''.join(SUP.get(c, c) for c in g))
                i = m.end()
            out[id(u)] = out.get(id(u), 0.0) + sign * e
            if i == len(t):
                return
            if not t.startswith(mult, i):
                raise Bad('no product at %r' % t[i:])
            i += len(mult)
    out = {}
    if text == 'dimensionless':
        return out
    if form == 'latex' and text.startswith(r'\frac{'):
        depth, k = 0, 5
        for k in range(5, len(text)):
            depth += {'{': 1, '}': -1}.get(text[k], 0)
            if depth == 0:
                break
        num, den = text[6:k], text[k + 1:]
        if not (den.startswith('{') and den.endswith('}')):
            raise Bad('denominator')
        den = den[1:-1]
    else:
        # the quotient is the slash outside any parentheses and tags
        num, den, depth = text, None, 0
        for k, c in enumerate(text):
            depth += {'(': 1, ')': -1}.get(c, 0)
            if c == '/' and depth == 0 and text[k - 1:k] != '<':
                num, den = text[:k], text[k + 1:]
                break
    if num != '1' or den is None:
        factors(num, 1, out)
    if den is not None:
        try:
            factors(den, -1, out)
        except Bad:
            if den[:1] != '(' or den[-1:] != ')':
                raise
            for k in [k for k in out if out[k] < 0]:
                del out[k]
            factors(den[1:-1], -1, out)
    return out


def unwrap_latex(t):
    m = re.fullmatch(r'\$\\([a-z]+)\{(.*)\}\$', t)
    if not m:
        raise Bad('not a LaTeX formula')
    return m.group(2)


def undo(t):
    return re.sub('[⁰¹²³⁴⁵⁶⁷⁸⁹]+', lambda m: '**' + ''.join(SUP[c] for c in m.group()), t)


def texts(d):
    return (d.string, d.unicode, d.latex, d.html, str(d))


def builds(facs):
    """(how, dimensionality) of the same expression built in every order and by several routes"""
    P = pq()
    D = P.dimensionality.Dimensionality
    for perm in itertools.permutations(facs):
        yield 'dict %r' % (perm,), D({OBJ[s]: p for s, p in perm}), perm
        d = D()
        for s, p in perm:
            d = d * OBJ[s].dimensionality ** p
        yield 'product', d, perm
    q = 1.0
    for s, p in facs:
        q = q * OBJ[s] ** p
    yield 'quantity', q.dimensionality, facs
    q = P.dimensionless
    for s, p in reversed(facs):
        q = q * OBJ[s] ** p if p > 0 else q / OBJ[s] ** (-p)
    yield 'quotient', q.dimensionality, facs
    d = D()
    for s, p in reversed(facs):
        d *= D({OBJ[s]: p})
        d *= D({OBJ[s]: p})
        d /= D({OBJ[s]: p})
    yield 'in place', d, facs


def expr(rec, facs, single=False):
    P = pq()
    facs = [(s, p) for s, p in facs]
    key = lambda k: '%s|%s' % (k, '*'.join('%s**%r' % f for f in facs))
    src = program('from fractions import Fraction; from quantities.dimensionality import Dimensionality as D', USER_SRC if any('X.' in s for s, p in facs) else '', 'd = D({%s})' % ', '.join('%s: %r' % f for f in facs), 'for u in (False, True):\n    pq.markup.config.use_unicode = u; print(d.string, d.unicode, d.latex, d.html, str(d))\npq.markup.config.use_unicode = False\nprint(repr(pq.Quantity(1.0, d.string)))')
    want = {id(OBJ[s]): float(p) for s, p in facs}
    units = [OBJ[s] for s, p in facs]
    conf = P.markup.config
    rec.case('*'.join('%s**%s' % f for f in facs))
    try:
        for uni in (False, True):
            conf.use_unicode = uni
            ref = None
            for how, d, perm in builds(facs):
                t = attempt(texts, d); rec.step()
                if ref is None:
                    ref, refd = t, d
                    if raised(t):
                        rec.fail(key('raises'), 'printing raises %r' % t, src); return
                elif t != ref:
                    if d != refd: continue       # rounding of powers
                    rec.fail(key('order'), 'unicode=%s: %s prints as %r, and as %r otherwise' % (uni, how, t, ref), src); return
            rec.outcome(ref)
            plain, unitext, latex, html, st = ref
            if st != (unitext if uni else plain):
                rec.fail(key('str'), 'unicode=%s: str is %r, the forms are %r and %r' % (uni, st, plain, unitext), src); return
            syms = [(symbol(u, uni), u) for u in units]
            for form, t in (('plain', plain), ('unicode', unitext), ('latex', latex), ('html', html)):
                rec.step()
                try:
                    got = read(unwrap_latex(t) if form == 'latex' else t, syms, form)
                except Bad as e:
                    rec.fail(key(form), 'unicode=%s: the %s form %r of %r can not be read: %s' % (uni, form, t, facs, e), src); return
                if got != want:
                    rec.fail(key(form), 'unicode=%s: the %s form %r reads as %r, expected %r' % (uni, form, t, sorted(got.values()), facs), src); return
            if single:
                M = P.markup
                for form, f in (('latex', lambda: M.format_units_latex(refd, font='mathit', mult=r'\\times')), ('latex', lambda: M.format_units_latex(refd, paren=True)), ('html', lambda: M.format_units_html(refd, font='<b>%s</b>', mult='*')), ('html', lambda: M.format_units_html(refd, paren=True))):
                    t = attempt(f); rec.step()
                    if raised(t):
                        rec.fail(key('options'), 'the %s form raises %r' % (form, t), src); return
                    s = unwrap_latex(t) if form == 'latex' else t
                    cand = [s] + [s[len(a):-len(b)] for a, b in ((r'\left(', r'\right)'), ('<b>', '</b>'), ('(', ')')) if s.startswith(a) and s.endswith(b)]
                    ok = False
                    for s, mult in itertools.product(cand, (None, r'{\times}', '*')):
                        try:
                            ok = ok or read(s, syms, form, mult) == want
                        except Bad:
                            pass
                    if not ok:
                        rec.fail(key('options'), 'the %s form %r does not read as %r' % (form, t, facs), src); return
        conf.use_unicode = False
        # parsed back by the library
        if not any(isinstance(u, P.UnitConstant) for u in units):
            exact = not any(compound(u) or '(' in u.symbol for u in units) or len(units) == 1 and facs[0][1] == 1 and not compound(units[0])
            for text in (refd.string, undo(refd.unicode)):
                q = attempt(P.Quantity, 1.0, text); rec.step()
                if raised(q):
                    rec.fail(key('parse'), '%r can not be parsed: %r' % (text, q), src); return
                if exact and not (q.dimensionality == refd and units_of(q) == units_of_dim(refd)):
                    rec.fail(key('parse'), '%r is parsed as %s, expected %r' % (text, show(q), facs), src); return
                if exact:
                    looked = attempt(lambda: P.unit_registry[text])
                    if raised(looked) or units_of(looked) != units_of_dim(refd):
                        rec.fail(key('parse'), '%r is looked up as %s' % (text, show(looked)), src); return
                    continue
                if any(abs(p) > 8 for s, p in facs):
                    continue        # the factor does not fit a float
                (s, dd), (ws, wd) = phys(q), dim_phys(refd)
                if not (len(dd) == len(wd) and all(a[0] == b[0] and abs(a[1] - b[1]) <= 1e-9 * abs(b[1]) for a, b in zip(dd, wd)) and (close(s, ws, 1e-9) or not np.isfinite(ws))):
                    rec.fail(key('parse'), '%r is parsed as %s, another physical unit' % (text, show(q)), src); return
    finally:
        conf.use_unicode = False
    rec.trace()


MAGTXT = ['2.5', '7', '-0.0', 'nan', '1e22', '1/3', '[1.0, 2.5]', '[[1, 2], [3, 4]]', '[]', 'np.zeros((2, 0))', 'np.arange(2000.0)', '1+2j', 'np.float32(0.1)', 'np.array([1, 2], dtype="i2")', 'np.array([True, False])', 'np.array(3, dtype="i8")', 'np.arange(24.0).reshape(2, 3, 4)',
          '[1e-300, 1e300]', 'np.array([nan, inf])', 'np.array([[1.5]])', 'np.asfortranarray(np.arange(6.0).reshape(2, 3))']
TXTUNITS = ['pq.m', 'pq.dimensionless', 'pq.m**2/pq.s', '1/pq.s', 'pq.angstrom', 'X.cu1', 'X.cu3**2', 'pq.degC', 'pq.m**0.5', 'X.vbar*pq.kg/pq.ohm/pq.s**2']
SPECS = ['', '.2f', '10.3e', 'g', '>12', '+.1f', '08.3f', ',.2f', '%']


def quantity_text(rec, ms, us, uni):
    P = pq()
    g = glob()
    m = eval(ms, g)
    u = eval(us, g)
    P.markup.config.use_unicode = uni
    try:
        for cls in ('Quantity', 'UncertainQuantity'):
            def mk():
                if cls == 'Quantity': return P.Quantity(eval(ms, g), u)
                return P.UncertainQuantity(eval(ms, g), u, 0.1 * np.ones(np.shape(m)))
            q = attempt(mk)
            if raised(q):
                continue
            key = lambda k: '%s|%s|%s|%s|%s' % (k, cls, ms, us, uni)
            src = program(USER_SRC, 'pq.markup.config.use_unicode = %s' % uni, 'q = pq.%s(%s, %s%s)' % (cls, ms, us, '' if cls == 'Quantity' else ', 0.1*np.ones(np.shape(%s))' % ms), 'print(str(q)); print(repr(q)); print(format(q))')
            mag = np.array(q.magnitude)
            mt, mr = str(q.magnitude), repr(q.magnitude)
            d = q.dimensionality
            dt = d.unicode if uni else d.string
            rec.case('%s(%s, %s)' % (cls, ms, us))
            s, r = attempt(str, q), attempt(repr, q); rec.step(2)
            if cls == 'Quantity':
                if s != '%s %s' % (mt, dt): rec.fail(key('str'), 'str is %r, expected %r' % (s, '%s %s' % (mt, dt)), src); return
                if r != '%s * %s' % (mr, d.string): rec.fail(key('repr'), 'repr is %r, expected %r' % (r, '%s * %s' % (mr, d.string)), src); return
                for sp in SPECS:
                    f = attempt(format, q, sp); rec.step()
                    w = attempt(format, q.magnitude.item() if mag.ndim == 0 else q.magnitude, sp)
                    if mag.ndim == 0:
                        if raised(w) != raised(f) or not raised(w) and f != w + ' ' + dt:
                            rec.fail(key('format'), 'format %r is %r, expected %r and %r' % (sp, f, w, dt), src); return
                    elif sp == '':
                        if f not in (s, mt, mt + ' ' + dt): rec.fail(key('format'), 'format is %r' % (f,), src); return
            else:
                ut = str(q.uncertainty)
                if raised(s) or not (s.startswith('%s %s\n' % (mt, dt)) and ut in s): rec.fail(key('str'), 'str is %r, expected %r, %r, %r' % (s, mt, dt, ut), src); return
                if raised(r) or not (mr in r and d.string in r and repr(q.uncertainty.magnitude) in r): rec.fail(key('repr'), 'repr is %r' % (r,), src); return
            # elements print like the elements
            if mag.ndim and mag.size and mag.size < 30 and cls == 'Quantity':
                for e, x in zip(q.ravel(), mag.ravel()):
                    rec.step()
                    if str(e) != '%s %s' % (np.asarray(x), dt):
                        rec.fail(key('element'), 'element prints as %r, expected %r' % (str(e), '%s %s' % (x, dt)), src); return
            if not exact(q.magnitude, mag):
                rec.fail(key('changed'), 'printing changed the values', src); return
            rec.trace()
    finally:
        P.markup.config.use_unicode = False


# ------------------------------------------------------------ histories of the option
def hist_ops():
    P = pq()
    conf = P.markup.config
    q = P.Quantity([1.0, 2.5], OBJ['X.cu1'] * P.um ** 2 / P.angstrom)
    c = OBJ['X.cu1']
    def on(): conf.use_unicode = True
    def off(): conf.use_unicode = False
    def truthy(): conf.use_unicode = 1
    def falsy(): conf.use_unicode = 0
    return {'on': on, 'off': off, 'truthy': truthy, 'falsy': falsy, 'print': lambda: (str(q), repr(q), q.dimensionality.string, q.dimensionality.unicode, q.dimensionality.latex, q.dimensionality.html),
            'print unit': lambda: (str(c), repr(c), c.name, str(P.um), repr(P.um), str(P.ohm)), 'convert': lambda: (q.rescale('m**2/inch*(m**2/m**3)').magnitude.tolist(), units_of(q.simplified)), 'arith': lambda: (q + q).magnitude.tolist() + [bool(c == c), bool(c == P.m)],
            'parse': lambda: units_of(P.Quantity(1.0, 'm**2·um/s')), 'compound': lambda: (lambda n: (n.definition.dimensionality.items(), hash(n) == hash(c), bool(n == c), hash(n.dimensionality) == hash(c.dimensionality)))(P.CompoundUnit('m**2/m**3')),
            'read': lambda: conf.use_unicode is (conf.use_unicode and True)}


def histories(rec, depth, first):
    P = pq()
    ops = hist_ops()
    # what every operation gives alone, for either setting
    ref = {}
    for s in (False, True):
        for n, f in ops.items():
            P.markup.config.use_unicode = s
            r = attempt(f); ref[n, s] = r if not raised(r) else repr(r)
    for n in ('convert', 'arith', 'parse', 'compound'):
        if n != 'compound' and ref[n, False] != ref[n, True] or raised(ref[n, False]):
            rec.fail('option-value|%s' % n, '%s gives %r and %r' % (n, ref[n, False], ref[n, True]))
    try:
        for rest in itertools.product(ops, repeat=depth - 1):
            P.markup.config.use_unicode = False
            s = False
            for n in (first,) + rest:
                if n in ('on', 'truthy'): s = True
                if n in ('off', 'falsy'): s = False
                r = attempt(ops[n]); rec.step()
                r = r if not raised(r) else repr(r)
                if str(r) != str(ref[n, s]):
                    rec.fail('history|%s' % ' ; '.join((first,) + rest), '%s gives %r, expected %r' % (n, r, ref[n, s])); return
                if P.markup.config.use_unicode is not s:
                    rec.fail('option|%s' % ' ; '.join((first,) + rest), 'the option reads %r, expected %r' % (P.markup.config.use_unicode, s)); return
            rec.case(' ; '.join((first,) + rest)); rec.trace()
    finally:
        P.markup.config.use_unicode = False


def chunks(tier):
    r = [['single', i, 16] for i in range(16)]
    units = PUNITS + (MORE if tier == 'thorough' else [])
    r += [['pair', i, 0] for i in range(len(units))]
    tu = TUNITS if tier == 'quick' else PUNITS
    r += [['triple', i, 0] for i in range(len(tu))]
    r += [['text', i, 0] for i in range(len(MAGTXT))]
    r += [['unique', 0, 0]]
    r += [['history', n, 3 if tier == 'quick' else 5] for n in ('on', 'off', 'truthy', 'falsy', 'print', 'print unit', 'convert', 'arith', 'parse', 'compound', 'read')]
    return r


def run(desc, rec):
    kind, i, n = desc
    P = pq()
    g = glob()
    ev = lambda ps: [eval(p, g) for p in ps]
    if kind == 'single':
        for s in CAT[i::n] + (['pq.constants.h'] if i == 0 else []):
            if isinstance(OBJ[s], P.unitquantity.Dimensionless):
                rec.step()
                if OBJ[s].dimensionality.string != 'dimensionless': rec.fail('dimensionless', OBJ[s].dimensionality.string)
                continue
            for p in ev(POWERS):
                expr(rec, [(s, p)], single=True)
    elif kind == 'pair':
        units = PUNITS + (MORE if rec.tier == 'thorough' else [])
        pw = ev(PPOW if rec.tier == 'quick' else POWERS[:15])
        for b in units[i + 1:]:
            if symbol(OBJ[units[i]], False) == symbol(OBJ[b], False) or symbol(OBJ[units[i]], True) == symbol(OBJ[b], True):
                continue
            for p in pw:
                for q in pw:
                    expr(rec, [(units[i], p), (b, q)], single=p == 2 or q == -1)
    elif kind == 'triple':
        units = TUNITS if rec.tier == 'quick' else PUNITS
        pw = ev(TPOW)
        for b, c in itertools.combinations(units[i + 1:], 2):
            if len({symbol(OBJ[x], True) for x in (units[i], b, c)}) < 3 or len({symbol(OBJ[x], False) for x in (units[i], b, c)}) < 3:
                continue
            for ps in itertools.product(pw, repeat=3):
                expr(rec, list(zip((units[i], b, c), ps)))
    elif kind == 'text':
        for us in TXTUNITS:
            for uni in (False, True):
                quantity_text(rec, MAGTXT[i], us, uni)
    elif kind == 'unique':
        # no two units are printed alike, so the reader above leaves no choice
        for uni in (False, True):
            P.markup.config.use_unicode = uni
            seen = {}
            for s in CAT:
                u = OBJ[s]
                d = u.dimensionality
                for t in (d.string, d.unicode, d.latex, d.html):
                    rec.step()
                    if not t.strip():
                        rec.fail('blank|%s' % s, '%s is printed as %r' % (s, t))
                    if seen.setdefault(t, s) != s and OBJ[seen[t]] is not u:
                        rec.fail('alike|%s|%s' % (s, seen[t]), '%s and %s are both printed as %r (unicode=%s)' % (s, seen[t], t, uni))
                rec.case(s)
                for attr in ('symbol', 'u_symbol'):
                    if not getattr(u, attr).strip():
                        rec.fail('blank|%s.%s' % (s, attr), 'is %r' % getattr(u, attr))
                # the text of the unit object names it
                t = str(u)
                if not (t.startswith('1 ') and (u.u_symbol if uni else u.symbol) in t and u.name in t):
                    rec.fail('unit-str|%s' % s, 'str is %r' % t)
                if not compound(u) and not (repr(u).startswith(type(u).__name__ + '(') and repr(u.name) in repr(u)):
                    rec.fail('unit-repr|%s' % s, 'repr is %r' % repr(u))
            P.markup.config.use_unicode = False
        rec.trace()
    else:
        histories(rec, n, i)
