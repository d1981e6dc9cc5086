#!/opt/venv/bin/python
"""Mutation runs: how much of the code do the checks decide?

  mutate.py gen OUT.json FILE ...        lists mutants of quantities/FILE
  mutate.py test IN.json OUT.json        keeps those which pass the repository's tests
  mutate.py run IN.json OUT.json         runs the checks against each, cheapest first, until one objects
  mutate.py one REPO C07 [...]           runs checks against a copy, stops at the first violation

Everything happens in copies under /tmp/verif-mut.  This is an evaluation aid: no check uses it."""
import ast, json, os, random, re, shutil, signal, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/verif-mut-%s' % (sys.argv[1] if len(sys.argv) > 1 else '')
PY = '/opt/venv/bin/python'
SKIP_FUNCS = {'__repr__'}


def seg(src, node):
    return ast.get_source_segment(src, node)


class Gen(ast.NodeVisitor):
    def __init__(self, name, src):
        self.name, self.src, self.out, self.stack = name, src, [], []
        self.offs = [0]
        for line in src.encode().splitlines(True): self.offs.append(self.offs[-1] + len(line))

    def pos(self, n): return self.offs[n.lineno - 1] + n.col_offset, self.offs[n.end_lineno - 1] + n.end_col_offset

    def add(self, node, text, kind):
        a, b = self.pos(node)
        old = self.src.encode()[a:b].decode()
        if old != text: self.out.append(dict(file=self.name, a=a, b=b, old=old, new=text, line=node.lineno, func='.'.join(self.stack), kind=kind))

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        for d in n.decorator_list:
            if not (isinstance(d, ast.Call) and getattr(d.func, 'id', '') in ('with_doc', 'wraps')) and getattr(d, 'id', '') not in ('property', 'staticmethod', 'classmethod') and not isinstance(d, ast.Attribute):
                self.out.append(dict(file=self.name, a=self.pos(d)[0] - 1, b=self.pos(d)[1], old='@' + seg(self.src, d), new='', line=d.lineno, func='.'.join(self.stack), kind='decorator'))
        for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
            if isinstance(d, ast.Constant): self.const(d, 'default')
        body = n.body
        self.stmts(body)
        self.stack.pop()

    def visit_ClassDef(self, n):
        self.stack.append(n.name); self.stmts(n.body); self.stack.pop()

    def visit_Module(self, n): self.stmts(n.body)

    def stmts(self, body):
        for s in body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant): continue
            if isinstance(s, (ast.Expr, ast.AugAssign, ast.Raise, ast.Assert, ast.Delete)): self.add(s, 'pass', 'delete')
            if isinstance(s, ast.Assign) and self.stack:
                t = s.targets[0]
                if isinstance(t, (ast.Attribute, ast.Subscript)): self.add(s, 'pass', 'delete')
                elif isinstance(t, ast.Name) and isinstance(s.value, ast.Call) and any(isinstance(x, ast.Name) and x.id == t.id for x in ast.walk(s.value)): self.add(s, 'pass', 'delete')
            if isinstance(s, ast.Return) and s.value is not None and self.stack:
                v = s.value
                if isinstance(v, ast.Call):
                    for x in v.args[:2]:
                        if isinstance(x, (ast.Name, ast.Attribute, ast.Call)): self.add(v, seg(self.src, x), 'return-arg')
            if isinstance(s, ast.For): self.add(s.iter, 'list(%s)[:1]' % seg(self.src, s.iter), 'loop-once'); self.add(s.iter, 'list(%s)[::-1]' % seg(self.src, s.iter), 'loop-reversed')
            if isinstance(s, (ast.Break, ast.Continue)): self.add(s, 'pass', 'delete')
            self.visit(s)

    def generic_visit(self, n):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt): self.stmts(b)
        for k, v in ast.iter_fields(n):
            if k in ('body', 'orelse', 'finalbody') and isinstance(v, list) and v and isinstance(v[0], ast.stmt): continue
            if isinstance(v, list):
                for x in v:
                    if isinstance(x, ast.AST): self.visit(x)
            elif isinstance(v, ast.AST): self.visit(v)

    def visit_If(self, n):
        t = seg(self.src, n.test)
        self.add(n.test, 'True', 'cond'); self.add(n.test, 'False', 'cond')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, '(%s)' % seg(self.src, n.body), 'ifexp'); self.add(n, '(%s)' % seg(self.src, n.orelse), 'ifexp')
        self.generic_visit(n)

    def visit_Assert(self, n):
        self.add(n.test, 'not (%s)' % seg(self.src, n.test), 'assert'); self.generic_visit(n)

    def visit_Compare(self, n):
        M = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
        if len(n.ops) == 1:
            for o in M[type(n.ops[0])]: self.add(n, '(%s) %s (%s)' % (seg(self.src, n.left), o, seg(self.src, n.comparators[0])), 'compare')
            if isinstance(n.ops[0], (ast.Eq, ast.NotEq)) and self.stack:
                l, r = seg(self.src, n.left), seg(self.src, n.comparators[0])
                self.add(n, 'str(%s) %s str(%s)' % (l, '==' if isinstance(n.ops[0], ast.Eq) else '!=', r), 'compare-str')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.add(n, '(%s)' % o.join('(%s)' % seg(self.src, x) for x in n.values), 'bool')
        for x in n.values: self.add(n, '(%s)' % seg(self.src, x), 'bool-one')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.add(n, '(%s)' % seg(self.src, n.operand), 'unary'); self.generic_visit(n)

    def visit_BinOp(self, n):
        M = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*', '//'], ast.Pow: ['*'], ast.FloorDiv: ['/'], ast.Mod: [], ast.BitAnd: ['|'], ast.BitOr: ['&']}
        l, r = seg(self.src, n.left), seg(self.src, n.right)
        for o in M.get(type(n.op), []): self.add(n, '(%s) %s (%s)' % (l, o, r), 'arith')
        if not isinstance(n.op, ast.Mod): self.add(n, '(%s)' % l, 'arith-one'); self.add(n, '(%s)' % r, 'arith-one')
        if isinstance(n.op, (ast.Sub, ast.Div, ast.Pow)): self.add(n, '(%s) %s (%s)' % (r, {'Sub': '-', 'Div': '/', 'Pow': '**'}[type(n.op).__name__], l), 'arith-swap')
        self.generic_visit(n)

    def const(self, n, kind='const'):
        v = n.value
        if v is True: self.add(n, 'False', kind)
        elif v is False: self.add(n, 'True', kind)
        elif v is None: self.add(n, '0', kind)
        elif isinstance(v, int): self.add(n, str(v + 1), kind); self.add(n, str(v - 1), kind)
        elif isinstance(v, float): self.add(n, repr(v * 1.001), kind)
        elif isinstance(v, str) and len(v) <= 6 and self.stack: self.add(n, repr(v + '_' if v else 'm'), kind); self.add(n, "''", kind)

    def visit_Constant(self, n):
        if self.stack: self.const(n)

    def visit_Call(self, n):
        f = n.func
        t = seg(self.src, n)
        if isinstance(f, ast.Attribute) and f.attr in ('copy', 'rescale', 'astype', 'view', 'simplified', 'magnitude', 'strip', 'items', 'any', 'all', 'item'):
            self.add(n, seg(self.src, f.value), 'drop-call')
        if isinstance(f, ast.Attribute) and f.attr in ('any', 'all', 'min', 'max'):
            o = {'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min'}[f.attr]
            self.add(f, '%s.%s' % (seg(self.src, f.value), o), 'swap-call')
        args = [seg(self.src, a) for a in n.args] + ['%s=%s' % (k.arg, seg(self.src, k.value)) if k.arg else '**' + seg(self.src, k.value) for k in n.keywords]
        if len(args) > 1:
            for i in range(len(args)):
                if i or n.keywords and i >= len(n.args): self.add(n, '%s(%s)' % (seg(self.src, f), ', '.join(args[:i] + args[i + 1:])), 'drop-arg')
        if len(n.args) > 1:
            for i in range(len(n.args) - 1):
                b = list(args); b[i], b[i + 1] = b[i + 1], b[i]
                self.add(n, '%s(%s)' % (seg(self.src, f), ', '.join(b)), 'swap-arg')
        for i, a in enumerate(n.args):
            if isinstance(a, (ast.Name, ast.IfExp)) and i and seg(self.src, a) not in ('np',):
                b = list(args); b[i] = 'None'
                self.add(n, '%s(%s)' % (seg(self.src, f), ', '.join(b)), 'none-arg')
        self.generic_visit(n)

    def visit_Attribute(self, n):
        if n.attr in ('magnitude', 'simplified', 'dimensionality', 'units', '_reference', 'T') and isinstance(n.ctx, ast.Load):
            self.add(n, seg(self.src, n.value), 'drop-attr')
            if n.attr == 'dimensionality': self.add(n, seg(self.src, n.value) + '._dimensionality', 'alias'); self.add(n, seg(self.src, n.value) + '.dimensionality.simplified', 'simplify')
        if n.attr == '_dimensionality' and isinstance(n.ctx, ast.Load): self.add(n, seg(self.src, n.value) + '._dimensionality.simplified', 'simplify')
        self.generic_visit(n)

    def visit_Subscript(self, n):
        self.generic_visit(n)


def gen(out, files):
    res = []
    for f in files:
        src = open(os.path.join('/repo/quantities', f)).read()
        g = Gen(f, src); g.visit(ast.parse(src))
        seen = set()
        for m in g.out:
            k = (m['a'], m['b'], m['new'])
            if k in seen: continue
            seen.add(k)
            t = mutated(src, m)
            try: c = compile(t, f, 'exec')
            except Exception: continue
            try:
                if ast.dump(ast.parse(t)) == ast.dump(ast.parse(src)): continue
            except Exception: continue
            m['id'] = '%s:%d:%d' % (f, m['line'], len(res)); res.append(m)
    json.dump(res, open(out, 'w'), indent=0)
    print(len(res))


def mutated(src, m):
    b = src.encode()
    assert b[m['a']:m['b']].decode() == m['old'] or m['kind'] == 'decorator'
    return (b[:m['a']] + m['new'].encode() + b[m['b']:]).decode()


def copy(k):
    d = os.path.join(W, 'r%d' % k)
    if os.path.exists(d): shutil.rmtree(d)
    shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    return d


def plant(d, m):
    p = os.path.join(d, 'quantities', m['file'])
    src = open(os.path.join('/repo/quantities', m['file'])).read()
    open(p, 'w').write(mutated(src, m))


def unplant(d, m):
    shutil.copy(os.path.join('/repo/quantities', m['file']), os.path.join(d, 'quantities', m['file']))


def pool(ms, work, n, out):
    """forks n workers over the mutants; each result is appended to out (json lines)"""
    os.makedirs(W, exist_ok=True)
    done = set()
    if os.path.exists(out): done = {json.loads(l)['id'] for l in open(out)}
    todo = [m for m in ms if m['id'] not in done]
    kids = []
    for k in range(n):
        pid = os.fork()
        if pid == 0:
            d = copy(k)
            for m in todo[k::n]:
                plant(d, m)
                try: r = work(d, m, k)
                except Exception as e: r = dict(error=repr(e))
                unplant(d, m)
                with open(out, 'a') as f: f.write(json.dumps(dict(m, **r)) + '\n')
            shutil.rmtree(d)
            os._exit(0)
        kids.append(pid)
    for p in kids: os.waitpid(p, 0)


def test(d, m, k):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=d, PY_IGNORE_IMPORTMISMATCH='1')
    try: r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', '--ignore=conda.recipe', '--doctest-glob=README.rst'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
    except subprocess.TimeoutExpired: return dict(passed=False)
    return dict(passed=r.returncode == 0)


ORDER = {
    'markup.py': ['C11', 'C18'],
    'dimensionality.py': ['C04', 'C03', 'C05', 'C11', 'C02', 'C14', 'C06', 'C13', 'C17', 'C18'],
    'umath.py': ['C06', 'C05', 'C21'],
    'uncertainquantity.py': ['C14', 'C12', 'C20', 'C08', 'C22', 'C21'],
    'unitquantity.py': ['C09', 'C21', 'C13', 'C10', 'C15', 'C12', 'C11', 'C16', 'C04', 'C18'],
    'registry.py': ['C10', 'C20', 'C17', 'C18', 'C12'],
    'decorators.py': ['C06', 'C05'],
    '__init__.py': ['C13', 'C15'],
    'quantity.py': ['C20', 'C07', 'C08', 'C01', 'C02', 'C03', 'C05', 'C21', 'C19', 'C14', 'C12', 'C11', 'C09', 'C13', 'C18', 'C22'],
}
FUNC = {
    'rescale_preferred': ['C19', 'C18'], '_reference': ['C01', 'C13', 'C21'], 'simplified': ['C13', 'C01'], 'get_conversion_factor': ['C01', 'C21', 'C13'], '__setitem__': ['C08', 'C14', 'C20'], 'put': ['C08', 'C07', 'C14'], 'fill': ['C08', 'C14'],
    'units': ['C08', 'C01', 'C14', 'C09', 'C21'], 'rescale': ['C01', 'C19', 'C14', 'C21', 'C02'],
    '__reduce__': ['C12'], '__setstate__': ['C12'], '__deepcopy__': ['C12'], '_reconstruct_quantity': ['C12'],
    '__eq__': ['C02', 'C04', 'C21', 'C12', 'C18', 'C10'], '__ne__': ['C02', 'C04', 'C21'], '__lt__': ['C02', 'C04'], '__le__': ['C02', 'C04'], '__gt__': ['C02', 'C04'], '__ge__': ['C02', 'C04'],
    'wrap_comparison': ['C02', 'C21'], 'scale_other_units': ['C02', 'C21', 'C14', 'C08'], 'protected_multiplication': ['C08', 'C03', 'C09'], 'protected_power': ['C08', 'C03', 'C09'], 'check_uniform': ['C03', 'C21'],
    '__ipow__': ['C03', 'C08', 'C09', 'C04'], '__pow__': ['C03', 'C04', 'C14', 'C21'], '__array_prepare__': ['C05', 'C03', 'C08', 'C20', 'C02', 'C09', 'C06', 'C21'], '__array_wrap__': ['C05', 'C20', 'C08', 'C03', 'C06'],
}
REDU = ['sum', 'nansum', 'max', 'argmax', 'nanmax', 'min', 'nanmin', 'argmin', 'nanargmin', 'nanargmax', 'ptp', 'clip', 'round', 'trace', 'mean', 'nanmean', 'var', 'std', 'nanstd', 'prod', 'cumsum', 'cumprod', 'searchsorted', 'argsort', 'nonzero', 'argpartition']


def order(m):
    f = m['func'].split('.')[-1] if not m['func'].startswith(('wrap_', 'scale_', 'protected', 'check_')) else m['func'].split('.')[0]
    base = ORDER[m['file']]
    if f.startswith('_d_'): return ['C05', 'C03', 'C06', 'C08', 'C02']
    if m['file'] == 'quantity.py' and f in REDU: return ['C07', 'C20', 'C21']
    first = [c for c in FUNC.get(f, []) if c in base or m['file'] == 'quantity.py']
    if m['file'] == 'quantity.py' and first: return first + [c for c in base[:8] if c not in first]
    return first + [c for c in base if c not in first]


def one(repo, checks, vcopy=V):
    for c in checks:
        t0 = time.time()
        env = dict(os.environ, VERIF_REPO=repo, VERIF_WORKERS='1', VERIF_TIER='quick')
        r = subprocess.run([PY, os.path.abspath(__file__), '_ff', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=3600)
        for l in r.stdout.splitlines():
            if l.startswith('CAUGHT'): return dict(caught=c, key=l[7:300], t=round(time.time() - t0))
        if 'QUIET' not in r.stdout: return dict(caught=c, key='ERROR ' + r.stdout[-400:])
    return dict(caught=None)


def ff(prop):
    sys.path.insert(0, V)
    from mc import core
    import importlib, pickle
    if 'VERIF_PYC' not in os.environ:
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', VERIF_PYC='1', PYTHONPYCACHEPREFIX='/nonexistent/verif-pyc')
        env.pop('PYTHONPATH', None)
        os.execve(PY, [PY, '-B', '-s', '-W', 'ignore'] + sys.argv, env)
    mod = importlib.import_module('mc.checks.' + prop.lower())
    try:
        if hasattr(mod, 'before_import'): mod.before_import()
        core.load_quantities()
        if hasattr(mod, 'setup'): mod.setup()
        chunks = list(mod.chunks('quick'))
    except Exception as e:
        print('CAUGHT setup failed %r' % e); return
    idx = list(range(len(chunks))); random.Random(3).shuffle(idx)
    results = {}
    for i in idx:
        res, errors = core.explore(mod, prop, [chunks[i]], 'quick', 1, 300)
        if errors: print('CAUGHT harness', errors[0][-200:]); return
        for v in res[0]['violations']:
            if not core.known_match(prop, v['key']): print('CAUGHT', v['key'].replace('\n', ' ')); return
        results[i] = res[0]
    if hasattr(mod, 'finish'):
        rec = core.Rec(prop, 'quick', 1); mod.finish(results, rec)
        for v in rec.violations:
            if not core.known_match(prop, v['key']): print('CAUGHT', v['key'].replace('\n', ' ')); return
    print('QUIET')


if __name__ == '__main__':
    a = sys.argv[1:]
    N = int(os.environ.get('MUT_N', '7'))
    if a[0] == 'gen': gen(a[1], a[2:])
    elif a[0] == 'test': pool(json.load(open(a[1])), test, N, a[2])
    elif a[0] == 'run':
        ms = [json.loads(l) for l in open(a[1])]
        ms = [m for m in ms if m.get('passed')]
        random.Random(5).shuffle(ms)
        pool(ms, lambda d, m, k: one(d, order(m)[:int(os.environ.get('MUT_MAX', '99'))]), N, a[2])
    elif a[0] == 'one': print(one(a[1], a[2:]))
    elif a[0] == '_ff': ff(a[1])
