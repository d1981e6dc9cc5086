"""C04: unit expressions as a free abelian group; search over histories of a heap of two expressions,
a quantity and the expressions units hand out."""
import copy, itertools, operator, re
import numpy as np
from ..alphabet import *
from .. import tables

RULE = ('breadth-first search: state = two variables holding unit expressions (possibly the same object) and one quantity; every operation '
        '(binary, in-place, power, copy, alias, handing out, failing) in every state; after every step all expressions, all pairwise ==, hash, <, <=, >, >= '
        'and the expressions the leaf units hand out are compared with the model (exponent maps)')
BOUNDS = {'quick': '3 leaf units, exponents -1, 0, 0.5, 2: all histories up to 3 operations (states deduplicated, insertion order and number types count); == and hash of all pairs of 1900 expressions (every unit and constant of the catalogue, close and confusable powers, same names of other classes); products and quotients of all pairs of 150 powers of a unit, close to each other and far apart',
          'thorough': 'the same up to 4 operations, and 6 leaf units with exponents -2, -1, 0, 0.5, 2, 3 up to 3 operations'}
ASSUMPTIONS = ['exponents are integers or dyadic fractions, for which the sums are exact']
EXPS = [-2, -1, 0, 0.5, 2, 3]
LEAF = ['pq.m', 'pq.s', 'X.vfoo', 'X.cu1', 'pq.constants.Bohr_radius', 'pq.dimensionless', 'pq.N', 'X.vbaz']


def make_ops(nl):
    """(name, program text); the environment has a, b, q and L0.."""
    ops = []
    L = ['L%d' % i for i in range(nl)]
    for x in 'ab':
        y = 'b' if x == 'a' else 'a'
        for l in L:
            ops.append('%s = %s.dimensionality' % (x, l))
            for o in '*/':
                ops.append('%s = %s %s %s.dimensionality' % (x, x, o, l))
                ops.append('%s %s= %s.dimensionality' % (x, o, l))
        for o in '*/':
            ops.append('%s %s= %s' % (x, o, y))
            ops.append('%s %s= %s' % (x, o, x))
            ops.append('%s = %s %s %s' % (x, x, o, y))
            ops.append('%s = %s %s %s' % (x, y, o, x))
            ops.append('%s = %s %s %s' % (x, x, o, x))
        for e in EXPS:
            ops.append('%s = %s**(%r)' % (x, x, e))
            ops.append('%s **= %r' % (x, e))
        for o in '+-':
            ops.append('%s = %s %s %s' % (x, x, o, y))
            ops.append('%s %s= %s' % (x, o, y))
            ops.append('%s = %s %s %s' % (x, y, o, y))
        ops.append('%s = %s' % (x, y))
        ops.append('%s = %s.copy()' % (x, y))
        ops.append('%s = D(%s)' % (x, y))
        ops.append('%s = copy.copy(%s)' % (x, y))
        ops.append('%s = copy.deepcopy(%s)' % (x, y))
        ops.append('%s = %s.simplified' % (x, y))
        ops.append('%s = q.dimensionality' % x)
        ops.append('q = pq.Quantity(2.0, %s)' % x)
        ops.append('q = 3.0*(q.units)*pq.Quantity(1.0, %s)' % x)
        ops.append('%s = (q*q).dimensionality' % x)
        ops.append('%s = (1.5*L0).dimensionality' % x)
        if nl == 3:     # the smallest alphabet
            ops = [o for o in ops if not any(w in o for w in ('**(-2)', '**= -2', '**(3)', '**= 3', 'copy.copy', '(1.5*'))]
    ops.append('q *= L0'); ops.append('q /= L1'); ops.append('q **= 2'); ops.append('q = q.copy()')
    for bad in ('a*3', 'a/pq.m', 'a**[2]', 'a**np.array(2)', 'a + 1', 'a - pq.m', 'a**a', '2*b', 'b + "m"', 'a*None'):
        ops.append('FAIL ' + bad)
    for bad in ('a *= 3', 'a /= pq.m', 'a **= [2]', 'a += 1', 'a -= None'):
        ops.append('FAIL ' + bad)
    return ops


class Model:
    """names -> (identity, exponent map); the quantity's units"""
    def __init__(self, leaves):
        self.L = leaves
        self.val = {}; self.next = 0
        self.v = {}
        self.set('a', ()); self.set('b', ()); self.q = ()

    def set(self, x, u):
        self.val[self.next] = u; self.v[x] = self.next; self.next += 1

    def get(self, t):
        t = t.strip()
        if t.endswith('.dimensionality'):
            t = t[:-len('.dimensionality')]
        if t.startswith('L'):
            return self.L[int(t[1:])]
        if t == 'q':
            return self.q
        return self.val[self.v[t]]

    def put(self, x, u):
        self.val[self.v[x]] = u

    def apply(self, op):
        """True if the operation succeeds"""
        if op.startswith('FAIL'):
            return False
        t = op.split()
        if t[0] == 'q':
            if t[1] == '*=': self.q = umul(self.q, self.L[0])
            elif t[1] == '/=': self.q = udiv(self.q, self.L[1])
            elif t[1] == '**=': self.q = upow(self.q, 2)
            elif op.startswith('q = pq.Quantity'): self.q = self.get(op.rstrip(')').split(', ')[1])
            elif op.startswith('q = 3.0'): self.q = umul(self.q, self.get(op.rstrip(')').split(', ')[1]))
            return True
        x = t[0]
        if t[1] in ('*=', '/='):
            self.put(x, (umul if t[1] == '*=' else udiv)(self.get(x), self.get(t[2]))); return True
        if t[1] == '**=':
            self.put(x, upow(self.get(x), float(t[2]))); return True
        if t[1] in ('+=', '-='):
            return self.get(x) == self.get(t[2])
        if len(t) == 5:
            y, o, z = t[2:]
            if o in '+-':
                if self.get(y) != self.get(z):
                    return False
                self.set(x, self.get(y))
            else:
                self.set(x, (umul if o == '*' else udiv)(self.get(y), self.get(z)))
            return True
        r = t[2]
        if '**' in r:
            self.set(x, upow(self.get(r.split('**')[0]), float(r.split('**')[1].strip('()'))))
        elif r in 'ab':
            self.v[x] = self.v[r]
        elif r.endswith('.copy()'): self.set(x, self.get(r[0]))
        elif r.startswith(('D(', 'copy.')): self.set(x, self.get(r[-2]))
        elif r.endswith('.simplified'): self.set(x, uexpr_phys(self.get(r[0]))[1])
        elif r == '(q*q).dimensionality': self.set(x, upow(self.q, 2))
        elif r == '(1.5*L0).dimensionality': self.set(x, self.L[0])
        elif r == 'q.dimensionality': self.set(x, self.q)
        elif r.startswith('L'): self.set(x, self.get(r))
        else: raise AssertionError(op)
        return True


def setup():
    global SETS
    define_user_units()
    SETS = {}
    for nl in (3, 6):
        src = LEAF[:nl]
        SETS[nl] = (src, [U((s, 1)) if s != 'pq.dimensionless' else U() for s in src])
        for u in SETS[nl][1]:
            u.model()
        unit_phys(pq().kg); unit_phys(pq().A)
    SETS['code'] = {}


def code(op):
    c = SETS['code']
    if op not in c:
        t = op[5:] if op.startswith('FAIL ') else op
        c[op] = compile(t, op, 'exec')
    return c[op]


def chunks(tier):
    # a and b start equal, so a first operation on a stands for the one on b
    first = lambda nl: [i for i, op in enumerate(make_ops(nl)) if not op.startswith('b')]
    static = [['static', 24, i] for i in range(24)] + [['fine', i, 8] for i in range(8)]
    if tier == 'quick':
        return static + [[3, 3, i] for i in first(3)]
    return static + [[3, 4, i] for i in first(3)] + [[6, 3, i] for i in first(6)]


def env0(leaves):
    P = pq()
    e = dict(glob()); e.update(copy=copy, D=P.dimensionality.Dimensionality)
    for i, s in enumerate(leaves):
        e['L%d' % i] = Expr(s).new()
    e['a'] = P.dimensionality.Dimensionality(); e['b'] = P.dimensionality.Dimensionality()
    e['q'] = P.Quantity(2.0, '')
    return e


def execute(c, e):
    try:
        exec(c, e)
    except Exception as x:
        return x


NAMES = ('a', 'b', 'q')

def check(rec, e, m, hist, op):
    """compare everything observable with the model"""
    P = pq()
    D = P.dimensionality.Dimensionality
    src = lambda: program(USER_SRC, 'import copy; D = pq.dimensionality.Dimensionality; a = D(); b = D(); q = pq.Quantity(2.0, "")',
                          '\n'.join('L%d = %s' % (i, s) for i, s in enumerate(LEAF)),
                          '\n'.join('try: %s\nexcept Exception as x: print(repr(x))' % h.replace('FAIL ', '') if h.startswith('FAIL') else h for h in hist),
                          'print(repr(a), repr(b), repr(q)); print(a == b, hash(a) == hash(b))')
    key = '%s|%s' % (op, ' ; '.join(hist))
    ok = True
    def bad(what, w, g):
        rec.fail(key, 'after %s: %s: expected %r, got %r' % (' ; '.join(hist), what, w, g), src())
        return False
    vals = []
    for x in NAMES:
        w = m.get(x)
        d = e[x]
        if x == 'q':
            if not isinstance(d, P.Quantity):
                return bad('q', 'a quantity', d)
            d = d.dimensionality
        elif not isinstance(d, D):
            return bad(x, 'a unit expression', d)
        g = units_of_dim(d)
        if g != w:
            return bad(x, w, g)
        if any(p == 0 for p in d.values()):
            return bad(x, 'no zero exponents', d)
        vals.append((d, w))
    for i, l in enumerate(m.L):
        g = units_of_dim(e['L%d' % i].dimensionality)
        if g != l:
            return bad('expression of unit %d' % i, l, g)
        if i < 2:
            vals.append((e['L%d' % i].dimensionality, l))
    for (d1, w1), (d2, w2) in itertools.combinations(vals, 2):
        rec.step()
        eq = w1 == w2
        g = attempt(lambda: (d1 == d2, d2 == d1, d1 != d2))
        if raised(g) or g != (eq, eq, not eq):
            ok = bad('== of %r and %r' % (d1, d2), (eq, eq, not eq), g)
        if eq:
            h = attempt(lambda: hash(d1) == hash(d2))
            if h is not True:
                ok = bad('hash of %r and %r' % (d1, d2), 'equal', h)
    # whether a new object shares anything with its source shows only later: no two ways of making one are the same state
    if not rec.state((canon(e, m), op if len(hist) < 3 and re.match(r"(FAIL )?[abq] = ", op) else "")):
        rec.trace()
        return None if ok else False
    if len(rec.samples) < 2:
        rec.samples.append(' ; '.join(hist))
    for (d1, w1), (d2, w2) in itertools.permutations(vals[:2] + vals[3:4], 2):
        n1, n2 = ndims(w1), ndims(w2)
        w = (n1 < n2, n1 <= n2, n1 > n2, n1 >= n2)
        g = attempt(lambda: (d1 < d2, d1 <= d2, d1 > d2, d1 >= d2))
        rec.step()
        if raised(g) or tuple(map(bool, g)) != w:
            ok = bad('order of %r and %r' % (d1, d2), w, g)
    rec.trace()
    return ok


def ndims(w):
    return sum(abs(p) for _, p in uexpr_phys(w)[1])


def canon(e, m):
    """the state, with everything that may matter later: aliasing, insertion order, number types"""
    f = lambda d: tuple((u.name, repr(p)) for u, p in d.items())
    return (e['a'] is e['b'], f(e['a']), f(e['b']), f(e['q'].dimensionality))


POWERS = [1, 2, 3, -1, -2, -3, 0.5, -0.5, 1.5, -1.5, 0.25, 0.75, 1/3, 0.33, 0.333, 0.3333, 0.333333, 0.34, 0.3, 0.1, -0.1, 1e-3, 2.001, 1.999, 10, 11, 100, -10, 0.99, 1.01, 1.0000001]


def static_set():
    """(source, expression, exponent map by unit) - all units and constants of the catalogue alone and inverted, many powers of some, products of two in both orders"""
    P = pq()
    names = ['pq.unit_registry[%r]' % x for x in sorted(tables.unit_defs())] + sorted('pq.constants.' + x for x, v in vars(P.constants).items() if isinstance(v, P.UnitConstant))
    names += ['X.%s' % n for n, _ in USER_DEFS if n != 'vdoz'] + ['X.vdoz'] + ['pq.CompoundUnit("m**2/m")', 'pq.UnitConstant("foot", 3*pq.s)', 'pq.UnitConstant("meter", 3*pq.s)']
    O, ident = {}, {}
    for n in names:
        O[n] = Expr(n).new()
        ident[n] = (type(O[n]).__name__, O[n].name)
    D = lambda n: O[n].dimensionality
    r = []
    for n in names:
        w = {} if n == "pq.unit_registry['dimensionless']" else {ident[n]: 1}
        r.append((n, D(n), w))
        r.append(('%s**-1' % n, D(n)**-1, {k: -v for k, v in w.items()}))
    some = ["pq.unit_registry[%r]" % x for x in ('meter', 'second', 'newton', 'electron_volt', 'radian')] + ['pq.constants.electron_volt', 'X.vfoo', 'X.cu1']
    for n in some:
        for p in POWERS:
            r.append(('%s**%r' % (n, p), D(n)**p, {ident[n]: p}))
    for x, y in itertools.permutations(some[:1] + some[3:6], 2):
        for p in (1, -1, 2, -2, 0.5):
            for k in (1, -1, 2, -2, 0.5):
                r.append(('%s**%r*%s**%r' % (x, p, y, k), D(x)**p * D(y)**k, {ident[x]: p, ident[y]: k}))
    for x, y, z in itertools.permutations(some[:3]):
        r.append(('%s*%s/%s' % (x, y, z), D(x)*D(y)/D(z), {ident[x]: 1, ident[y]: 1, ident[z]: -1}))
    r.append(('empty', P.dimensionality.Dimensionality(), {}))
    return r


def run_static(n, first, rec):
    E = static_set()
    for i in range(first, len(E), n):
        s1, d1, w1 = E[i]
        for s2, d2, w2 in E:
            rec.case('static')
            rec.step()
            eq = w1 == w2
            g = attempt(lambda: (d1 == d2, d1 != d2))
            if raised(g) or g != (eq, not eq):
                rec.fail('static|%s|%s' % (s1, s2), '%s == %s, !=: expected %r, got %r' % (s1, s2, (eq, not eq), g), program(USER_SRC, 'print((%s).dimensionality == (%s).dimensionality)' % (s1, s2)))
            elif eq and hash(d1) != hash(d2):
                rec.fail('static-hash|%s|%s' % (s1, s2), 'hash of %s and %s differ' % (s1, s2), program(USER_SRC, 'print(hash((%s).dimensionality), hash((%s).dimensionality))' % (s1, s2)))
            rec.outcome(g if not raised(g) else 'raised')
        rec.trace()


FINE = [i / 64 for i in range(-66, 67)] + [-2, -3, 2, 3, 1 + 2**-20, 2**-20, -2**-20, 2**-40, 1 - 2**-40, 1, -1, 2**40, 2**40 + 1, 1/3, -1/3, 1/3 + 2**-54, 0.1, -0.1]


def run_fine(a, n, rec):
    """powers of one unit which nearly cancel, or nearly agree: only what is exactly zero goes"""
    P = pq()
    U, V = P.m, Expr('X.vfoo').new()
    D = lambda u, p: P.dimensionality.Dimensionality({u: p})
    for i, p in enumerate(FINE):
        if i % n != a: continue
        for k in FINE:
            for nm, w in (('*', p + k), ('/', p - k), ('*=', p + k), ('/=', p - k)):
                x = (U**p).dimensionality; y = (U**k).dimensionality
                x *= (V**2).dimensionality
                for z in (x, y): hash(z)
                if not p: x = (V**2).dimensionality
                if not k: y = P.dimensionality.Dimensionality()
                r = attempt({'*': operator.mul, '/': operator.truediv, '*=': operator.imul, '/=': operator.itruediv}[nm], x, y)
                key = 'fine|m**%r %s m**%r' % (p, nm, k)
                rec.case(key); rec.step()
                want = {U: w, V: 2} if w else {V: 2}
                prog = program(USER_SRC, 'x = (pq.m**%r*X.vfoo**2).dimensionality; x = x %s (pq.m**%r).dimensionality; print(dict(x))' % (p, nm[0], k))
                if raised(r) or {id(u): e for u, e in r.items()} != {id(u): e for u, e in want.items()}:
                    rec.fail(key, 'expected m**%r*vfoo**2, got %r' % (w, r), prog); continue
                eq = attempt(lambda: (x == y, y == x, r == (U**w * V**2).dimensionality if w else r == (V**2).dimensionality, hash(r) == hash(P.dimensionality.Dimensionality(want))))
                if eq != (False, False, True, True):
                    rec.fail(key, 'equality and hash: %r' % (eq,), prog)
            d, e = (U**p).dimensionality, (U**k).dimensionality
            g = attempt(lambda: (d == e, d != e)); rec.step()
            if g != (p == k, p != k):
                rec.fail('fine|m**%r == m**%r' % (p, k), 'got %r' % (g,), program('print((pq.m**%r).dimensionality == (pq.m**%r).dimensionality)' % (p, k)))
            rec.trace()


def run(desc, rec):
    if desc[0] == 'fine':
        return run_fine(desc[1], desc[2], rec)
    if desc[0] == 'static':
        return run_static(desc[1], desc[2], rec)
    nl, depth, first = desc
    leaves, us = SETS[nl]
    ops = make_ops(nl)
    L = [u.units for u in us]
    frontier = [[ops[first]]]
    level = 1
    while frontier and level <= depth:
        nxt = []
        for hist in frontier:
            e, m = env0(leaves), Model(L)
            good = True
            for i, op in enumerate(hist):
                last = i == len(hist) - 1
                if not last:
                    # let anything cached be computed before the next operation
                    hash(e['a']), hash(e['b']), e['a'] == e['b'], str(e['a']), e['a'].ndims
                x = execute(code(op), e)
                rec.step()
                succ = m.apply(op)
                if succ == (x is not None):
                    rec.fail('%s|%s' % (op, ' ; '.join(hist)), 'expected to %s, but %r' % ('succeed' if succ else 'raise', x),
                             program('# ' + ' ; '.join(hist)))
                    good = False; break
                rec.outcome(type(x).__name__)
            if good and check(rec, e, m, hist, hist[-1]) and level < depth:
                nxt += [hist + [op] for op in ops]
        frontier = nxt
        level += 1
