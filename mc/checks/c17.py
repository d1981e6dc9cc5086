"""C17: concurrent use. Real threads under a deterministic scheduler, every interleaving up to the preemption bound."""
import copy, itertools, operator, os, pickle
import numpy as np
from ..alphabet import *
from .. import sched
from ..core import REPO

RULE = ('programs of one to three operations run in two or three real threads which share quantities, units, registry and settings, under a scheduler which hands control over at chosen source lines of the library (every line, in every frame) and at locks; each schedule in a process of its own, so that every cache is as cold as after import. '
        'What every thread got and what can be seen afterwards is compared with the set of results of all sequential orders of the operations, each in a process of its own, too; a schedule in which nobody can go on is a deadlock')
BOUNDS = {'quick': '40 operations against themselves and all pairs of 11 of them, control handed over once, at every line (its first two visits); 72 pairs of programs which register, look up, format and switch the unicode option, control handed over once, at every line (its first three visits from each caller)',
          'thorough': 'all pairs of the 40 operations, and with warm caches the pairs of the quick tier; the programs also with control handed over twice, at every pair of lines (their first visits), and six programs of three threads in every order'}
ASSUMPTIONS = ['threads are preempted between source lines of the library, not inside a line, C code of NumPy or dict operations (tracing of single instructions crashes this CPython)', 'set_default_units and the preferred list are not changed while other threads run']

SHARED = {'q': 'pq.Quantity([1.0, 2.0, 4.0], "km/h")', 'p': 'pq.Quantity(2.5, "ft")', 'a': 'pq.Quantity([3.0, -1.0, 2.0], "m")', 'u': 'pq.UncertainQuantity([1.0, 2.0], "m", [0.1, 0.2])', 'k': 'pq.Quantity(3.0, X.cu3)', 'w': 'pq.Quantity([[1.0, 2.0], [3.0, 4.0]], "kg*m/s**2")', 'g': 'pq.Quantity([0.5, 0.25], "degree")', 'd': 'pq.Quantity(1.0, "m**2*g/s**2").dimensionality'}
OPS = ['q.rescale("m/s")', 'p.rescale(pq.m)', 'k.simplified', 'w.simplified', 'a + p', 'a - 2*p', 'a*q', 'q/p', 'a**2', 'a == p', 'a < p', '3*pq.ft + pq.m', 'pq.kg*pq.m/pq.s**2', 'd.simplified', 'd*a.dimensionality == a.dimensionality*d', 'hash(d) == hash(d**1)', 'str(q)', 'repr(w)', '[d.string, d.unicode, d.latex, d.html]', 'str(X.cu3)+repr(u)',
       'pq.Quantity(1.0, "kg*m/s**2")', 'pq.unit_registry["km/h"]', 'pq.Quantity(1.0, "in*µm/metre")', 'pq.CompoundUnit("parsec/cm**3")', 'copy.deepcopy(u)', 'pickle.loads(pickle.dumps([a, pq.N]))', 'u*p', 'u.rescale("cm")', 'np.sin(pq.Quantity(g, "radian"))', 'pq.sin(g)', 'a.sum()', 'a.clip(p, 9*p)', 'pq.gradient(a, p)', 'own(q)', 'X.vbaz.simplified', 'pq.constants.h.simplified', 'pq.N.definition', 'pq.UncertainQuantity(a, "cm", 0.1*a)', 'a.tolist()', 'pref()']
# every operation against itself, and all pairs of these
CORE = OPS[0:1] + OPS[2:3] + OPS[4:5] + OPS[6:7] + OPS[9:10] + OPS[13:14] + OPS[16:17] + OPS[20:21] + OPS[25:26] + OPS[26:27] + OPS[33:34]
# writers, in programs; NEW stands for a fresh name
LOOK = ['get("vc")', 'get("vcs")', 'get("vca")', 'get("vc2")', 'get("km/vcs")']
PROGRAMS = {
    'reg': ['reg("vc", "2.0*pq.m", "vcs", "vca")'],
    'regs': ['reg("vc", "2.0*pq.m", "vcs", "vca")', 'reg("vc2", "3.0*pq.Quantity(1.0, \'vcs\')", "vc2s")'],
    'other': ['reg("vc", "5.0*pq.s", "vcs", "vca")'],
    'clash': ['reg("vd", "5.0*pq.s", "vds", "vca")'],
    'same': ['reg("vc", "2.0*pq.m", "vcs", "vca")', 'get("vc").rescale("m")'],
    'distinct': ['reg("ve", "5.0*pq.s", "ves")', 'str(pq.Quantity(1.0, "ve")*pq.kg)'],
    'look1': ['get("vc")', 'get("vcs")', 'get("vca")'],
    'look2': ['get("vca")', 'get("vc")'],
    'look3': ['get("km*vca/vcs")', 'get("vcs").simplified'],
    'look4': ['get("vcs")', 'get("vc")'],
    'base': ['regl("vbl", None)', 'get("vbl").simplified'],
    'comp': ['pq.CompoundUnit("m/vcs")'],
    'pick': ['pickle.loads(PICKLED)', 'get("vcs")'],
    'on': ['uni(True)'],
    'onoff': ['uni(True)', 'uni(False)'],
    'off': ['uni(False)', 'uni(True)'],
    'text': ['str(q)', 'str(X.um2)'],
    'text2': ['repr(X.um2) + str(X.um2)'],
    'text3': ['str(X.um2*pq.ohm**2)', 'repr(pq.um)'],
    'text4': ['str(pq.um)'],
    'text5': ['[X.um2.dimensionality.string, X.um2.dimensionality.unicode, X.um2.dimensionality.latex, X.um2.dimensionality.html]'],
    'text6': ['repr(u*X.um2)'],
    'text7': ['"{:.1f}".format(p*X.um2)'],
    'off1': ['uni(False)'],
    'ontext': ['uni(True)', 'str(X.um2)', 'str(q)'],
    'ontext2': ['uni(True)', 'str(X.um2.dimensionality**2)', 'repr(pq.um)'],
    'ontext3': ['uni(True)', 'str(3*pq.um**2*pq.ohm**-2)'],
    'ontext4': ['uni(True)', 'str(pq.um)', 'str(u*X.um2)'],
    'ontext5': ['uni(True)', 'str(pq.CompoundUnit("um**2/ohm"))', '"{:.1f}".format(p*X.um2)'],
    'on1': ['uni(True)'],
    'ctext': ['str(3*pq.CompoundUnit("um**2/ohm")*pq.s**2)'],
    'ctext2': ['(3*pq.CompoundUnit("um**2/ohm")**2*pq.um).dimensionality.html'],
    'ctext3': ['(3*pq.CompoundUnit("um**2/ohm")**2*pq.um).dimensionality.latex'],
    'ctext4': ['repr(3*pq.CompoundUnit("um**2/ohm")*pq.um**3)'],
    'onctext': ['uni(True)', 'str(3*pq.CompoundUnit("um**2/ohm")*pq.um**2)'],
    'uni?': ['pq.markup.config.use_unicode', 'pq.markup.config.use_unicode'],
}
PAIRS = [('reg', x) for x in ('look1', 'look2', 'look3', 'look4', 'other', 'clash', 'same', 'distinct', 'base', 'comp', 'pick', 'text', 'regs')] + \
        [('regs', x) for x in ('look1', 'look3', 'other', 'clash', 'distinct')] + [('other', 'clash'), ('clash', 'look2'), ('pick', 'pick'), ('pick', 'other'), ('base', 'base'), ('base', 'distinct'), ('distinct', 'distinct'), ('look3', 'look3')] + \
        [(s, t) for s in ('on', 'onoff', 'off') for t in ('text', 'text2', 'text3', 'text4', 'text5', 'text6', 'text7', 'uni?')] + [('on1', 'ctext'), ('on1', 'ctext2'), ('on1', 'ctext3'), ('on1', 'ctext4'), ('off1', 'onctext'), ('off1', 'ontext'), ('off1', 'ontext2'), ('off1', 'ontext3'), ('off1', 'ontext4'), ('off1', 'ontext5'), ('onoff', 'off'), ('onoff', 'reg'), ('on', 'on'), ('text', 'text3'), ('text2', 'text')]
# the individual texts of one list or joined text may be read at different moments, except for these
SPLIT = {'text2', 'text5'}
TRIPLES = [('reg', 'look1', 'other'), ('reg', 'clash', 'look2'), ('onoff', 'text', 'text4'), ('reg', 'onoff', 'text4'), ('onoff', 'off', 'text4'), ('reg', 'same', 'look4')]


def before_import():
    sched.install()


def setup():
    global PICKLED
    define_user_units()
    PICKLED = make_pickle()
    g = glob()
    P = pq()
    E = g['E17'] = {}
    def reg(name, d, symbol=None, *al):
        u = P.UnitQuantity(name, eval(d, g), symbol=symbol, aliases=list(al))
        return 3.0 * u
    def regl(name, d):
        return 3.0 * P.UnitQuantity(name)
    def get(s):
        return P.Quantity(2.0, s)
    def uni(b):
        P.markup.config.use_unicode = b
    def own(q):
        y = P.Quantity([1.0, 2.0, 3.0], 'm')
        y *= q; y /= P.s; y += 2 * y; y.units = 'm**2/hour**2'; y[0] = y[1]
        return y
    def pref():
        return q_.rescale()
    q_ = P.Quantity(2.0, 'ft')
    P.quantity.PREFERRED = [P.lbf, P.cm]
    X = g['X']
    X.um2 = P.Quantity(2.5, P.um * X.vell / P.ohm)
    E.update(reg=reg, regl=regl, get=get, uni=uni, own=own, pref=pref, copy=copy, pickle=pickle, PICKLED=PICKLED)
    g.update(E)
    for k, v in SHARED.items(): E[k] = g[k] = eval(v, g)


# a unit vc = 2 m with the labels vcs and vca, as another process pickles it
PICKLED = None
def make_pickle():
    def f():
        return pickle.dumps(pq().UnitQuantity('vc', 2.0 * pq().m, symbol='vcs', aliases=['vca']))
    return fork(f)


def fork(f):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            x = f()
            with os.fdopen(w, 'wb') as out: pickle.dump(x, out)
            os._exit(0)
        except BaseException:
            import traceback
            os.write(2, traceback.format_exc().encode())
            os._exit(3)
    os.close(w)
    with os.fdopen(r, 'rb') as inp: data = inp.read()
    _, status = os.waitpid(pid, 0)
    if status or not data:
        return ('no result', status)
    return pickle.loads(data)


def look(r, e):
    if e is not None: return ('raised',)
    return see(r)


def see(r):
    if isinstance(r, (list, tuple)): return tuple(see(x) for x in r)
    if isinstance(r, (str, bool, type(None))): return r
    return obs(r)


def final(labels):
    """what can be seen afterwards"""
    P = pq()
    out = []
    for l in labels:
        r = attempt(lambda: P.Quantity(1.0, l))
        out.append(('raised',) if raised(r) else (obs(r), attempt(lambda: obs(r.simplified)), attempt(lambda: r.dimensionality.string)))
    g = glob()
    for k in SHARED: out.append(see(g[k]))
    out.append(attempt(lambda: str(g['X'].um2 * P.Quantity(1.0, 's'))))
    out.append(P.markup.config.use_unicode)
    return out


def ops_of(p):
    return PROGRAMS.get(p) or [p]

CODE = {}
def code(o):
    if o not in CODE: CODE[o] = compile(o, o, 'eval')
    return CODE[o]


def fin(ps):
    return ['vc', 'vcs', 'vca', 'vc2', 'vc2s', 'vd', 'vds', 've', 'vbl'] if any(p in PROGRAMS for p in ps) else []


def atoms(o):
    """operations whose result is a list of independent readings: the readings"""
    if o.startswith('['): return [x.strip() for x in o[1:-1].split(',')]
    if ' + ' in o and o.startswith('repr'): return o.split(' + ')
    return [o]


def sequential(ps):
    """the results of all the sequential orders"""
    g = glob()
    seqs = [ops_of(p) for p in ps]
    tags = [t for t, s in enumerate(seqs) for _ in s]
    # a list or concatenation of texts is several operations if a setting changes meanwhile
    split = [[atoms(o) if p in SPLIT else [o] for o in s] for p, s in zip(ps, seqs)]
    flat = [[(n, i, x) for n, o in enumerate(s) for i, x in enumerate(o)] for s in split]
    lens = [len(f) for f in flat]
    out = []
    for order in sorted(set(itertools.permutations([t for t, n in enumerate(lens) for _ in range(n)]))) if sum(lens) < 8 else merges(lens):
        def f():
            res = [[[] for _ in s] for s in seqs]
            pos = [0] * len(seqs)
            for t in order:
                n, i, x = flat[t][pos[t]]; pos[t] += 1
                try: r = eval(code(x), g)
                except Exception as e: r = look(None, e)
                else: r = look(r, None)
                res[t][n].append(r)
            out = []
            for t, s in enumerate(seqs):
                o = []
                for n, parts in enumerate(res[t]):
                    if len(split[t][n]) == 1: o.append(parts[0])
                    elif s[n].startswith('['): o.append(tuple(parts))
                    else: o.append(''.join(parts))
                out.append(o)
            return out, final(fin(ps))
        r = fork(f)
        if r not in out: out.append(r)
    return out


def merges(lens):
    if not any(lens): return [()]
    return [(t,) + m for t, n in enumerate(lens) if n for m in merges([x - (k == t) for k, x in enumerate(lens)])]


def execute(ps, plan, first=0, warm=False, trace=False, fine=True):
    """one schedule in a process of its own: (results, final, points of each thread, whether the plan was carried out[, places])"""
    g = glob()
    def f():
        progs = [[(lambda c=code(o): eval(c, g)) for o in ops_of(p)] for p in ps]
        if warm:
            for p in progs:
                for o in p: attempt(o)
        s = sched.Sched(progs, plan, os.path.join(REPO, 'quantities'), first, limit=20)
        places = {}
        if trace:
            pt = s.point
            def point(i, frame):
                b = frame.f_back
                places.setdefault(i, []).append((frame.f_code.co_name, frame.f_lineno) + ((b.f_code.co_name, b.f_lineno) if b and fine else ()))
                pt(i, frame)
            s.point = point
        ok = s.run(look)
        if not ok: return ([['hang']], None, s.count, True, places)
        return (s.results, final(fin(ps)), s.count, not s.plan, places)
    return fork(f)


def explore(rec, ps, bound, few=None, warm=False, firsts=None):
    want = sequential(ps)
    n = len(ps)
    for first in range(n) if firsts is None else firsts:
        # the points of the first thread when it is not disturbed
        r = execute(ps, [], first, warm, trace=True, fine=few != 2)
        if not check(rec, ps, [], first, r, want, warm): return
        pts = visits(r[4].get(first, []), few)
        coarse = visits([p[:2] for p in r[4].get(first, [])], 1)
        for k in pts:
            r = execute(ps, [(first, k)], first, warm)
            if not check(rec, ps, [(first, k)], first, r, want, warm): return
            if bound < 2: continue
            if k not in coarse: continue
            second = (first + 1) % n
            r = execute(ps, [(first, k)], first, warm, trace=True, fine=False)
            for m in visits(r[4].get(second, []), 1):
                plan = [(first, k), (second, m)]
                r = execute(ps, plan, first, warm)
                if not r[3]: break
                if not check(rec, ps, plan, first, r, want, warm): return


def visits(places, few):
    """the points at which a place is visited for the first few times"""
    seen, pts = {}, []
    for k, pl in enumerate(places):
        seen[pl] = seen.get(pl, 0) + 1
        if few is None or seen[pl] <= few: pts.append(k + 1)
    return pts


def check(rec, ps, plan, first, r, want, warm):
    rec.case('%s: thread %d first, control handed over at points %s' % (' || '.join('; '.join(ops_of(p)) for p in ps), first, plan)); rec.step(sum(len(ops_of(p)) for p in ps) + len(plan)); rec.trace(); rec.outcome((ps, r[0] if len(r) > 2 else r))
    if len(r) == 2: got, w = r, None
    else: got = (r[0], r[1])
    if got in want: return True
    kind = 'deadlock' if 'deadlock' in repr(got[0]) or 'hang' in repr(got[0]) else 'order'
    rec.fail('%s|%s|first %d|%s%s' % (kind, ' || '.join(ps), first, plan, '|warm' if warm else ''),
             'threads %s give %r; the sequential orders give %s' % (' || '.join('; '.join(ops_of(p)) for p in ps), short(got, want[0]), ' or '.join(repr(short(x, got)) for x in want[:4])))
    return False


def short(x, other):
    """the parts of x which differ from other"""
    try:
        return [[a for a, b in zip(s, t) if a != b] for s, t in zip(x[0], other[0])], [a for a, b in zip(x[1], other[1]) if a != b]
    except Exception:
        return x


def all_pairs(tier):
    return [(a, b) for n, a in enumerate(OPS) for b in OPS[n:] if tier != 'quick' or a == b or a in CORE and b in CORE]


def chunks(tier):
    if tier == 'quick':
        return [['pairs', i, 120] for i in range(120)] + [['prog', i, f] for i in range(len(PAIRS)) for f in (0, 1)]
    r = [['pairs', i, 400] for i in range(400)] + [['warm', i, 60] for i in range(60)]
    return r + [['prog2', i, f] for i in range(len(PAIRS)) for f in (0, 1)] + [['triple', i, j] for i in range(len(TRIPLES)) for j in range(6)]


def run(desc, rec):
    kind, i, n = desc
    quick = rec.tier == 'quick'
    if kind == 'pairs':
        for p in all_pairs(rec.tier)[i::n]: explore(rec, p, 1, 2 if quick or not (p[0] in CORE and p[1] in CORE) else 3)
    elif kind == 'warm':
        for p in all_pairs('quick')[i::n]: explore(rec, p, 1, 2, warm=True)
    elif kind == 'prog': explore(rec, PAIRS[i], 1, 3, firsts=[n])
    elif kind == 'prog2': explore(rec, PAIRS[i], 2, firsts=[n])
    else: explore(rec, list(itertools.permutations(TRIPLES[i]))[n], 1)
