"""Runner shared by all the checks: imports the code under test from /repo, explores the
chunks of a check in forked workers, applies the known-findings file, writes evidence and
replays.  See DESIGN.md, "Machinery"."""
import collections, fnmatch, hashlib, importlib, json, os, pickle, random, select, shutil
import signal, sys, tempfile, time, traceback, types, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
WORKERS = int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
MAXV = 12               # violations kept per chunk (all of them are counted)


class HarnessError(Exception):
    """Something is wrong with the machinery, not with the code under test."""


def reexec():
    """Fix hash randomisation and byte-code caching, which the code under test can observe."""
    want = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
            'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}
    if any(os.environ.get(k) != v for k, v in want.items()) or 'VERIF_PYC' not in os.environ:
        env = dict(os.environ, **want)
        env['VERIF_PYC'] = '1'
        # never read byte code which an earlier version of the sources left behind
        env['PYTHONPYCACHEPREFIX'] = '/nonexistent/verif-pyc'
        env.pop('PYTHONPATH', None); env.pop('PYTHONSTARTUP', None)
        exe = PYTHON if os.path.exists(PYTHON) else sys.executable
        os.execve(exe, [exe, '-B', '-s', '-W', 'ignore'] + sys.argv, env)


def load_quantities():
    sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(REPO, 'quantities', '_version.py')):
        m = types.ModuleType('quantities._version')
        m.__version__ = m.version = '0'; sys.modules['quantities._version'] = m
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import quantities
    here = os.path.realpath(quantities.__file__)
    if not here.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError('quantities imported from %s instead of %s' % (here, REPO))
    return quantities


class Rec:
    """What one chunk of the exploration visited and found."""

    def __init__(self, prop, tier, seed, only=None):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        self.states = self.transitions = self.traces = 0
        self.violations, self.nviol, self.nknown, self.bykey = [], 0, 0, collections.Counter()
        self.samples, self.outcomes, self.notes = [], set(), collections.Counter()
        self.seen = set()

    def case(self, sample=None, n=1):
        """one distinct input tuple / history state explored"""
        self.states += n
        if sample is not None and len(self.samples) < 2:
            self.samples.append(str(sample)[:400])

    def step(self, n=1):
        """one operation executed on the real code (and on the model)"""
        self.transitions += n

    def trace(self, n=1):
        """one complete case/history whose every observation was compared with the model"""
        self.traces += n

    def state(self, canon):
        """state-space search: True the first time this canonical state is seen"""
        h = hashlib.blake2b(repr(canon).encode(), digest_size=10).digest()
        if h in self.seen:
            return False
        self.seen.add(h); self.states += 1
        return True

    def outcome(self, x):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hashlib.blake2b(repr(x).encode(), digest_size=8).digest())

    def note(self, k, n=1):
        self.notes[k] += n

    def fail(self, key, msg, src=None):
        """key: stable identity of the failing input/history; msg: what was expected and seen"""
        if self.only is not None and key != self.only:
            return
        m = known_match(self.prop, key)
        if m:
            self.nknown += 1
            self.bykey['known ' + m[0]] += 1
            if self.bykey['known ' + m[0]] <= 5:
                self.violations.append(dict(key=key, msg=str(msg)[:2000], src=src))
            return
        self.nviol += 1
        cls = key.split('|')[0]
        self.bykey[cls] += 1
        if self.bykey[cls] <= 4 and self.nviol <= MAXV or self.nviol == 1:
            self.violations.append(dict(key=key, msg=str(msg)[:2000], src=src))

    def dump(self):
        return dict(states=self.states, transitions=self.transitions, traces=self.traces,
                    violations=self.violations, nviol=self.nviol, samples=self.samples,
                    outcomes=self.outcomes, notes=self.notes, bykey=self.bykey)


_known = None

def known():
    """[(property, key pattern, text)] of the findings which are listed and not repaired"""
    global _known
    if _known is None:
        _known = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line.startswith('known:'):
                    f = line[len('known:'):].strip().split(' ', 2)
                    d = dict(x.split('=', 1) for x in f[:2])
                    _known.append((d['property'], d['key'], f[2] if len(f) > 2 else ''))
    return _known

def known_match(prop, key):
    for p, pat, text in known():
        if p == prop and fnmatch.fnmatchcase(key, pat):
            return (pat, text)
    return None


def run_chunk(mod, prop, desc, tier, seed, only=None):
    rec = Rec(prop, tier, seed, only)
    try:
        mod.run(desc, rec)
    except (HarnessError, MemoryError, OSError, KeyboardInterrupt):
        raise
    except Exception as e:
        # every operation on the code under test is guarded by attempt(); an exception that
        # arrives here means that its result had a form no result of it may have
        tb = traceback.format_exc()
        rec.fail('unexpected-result|%s' % type(e).__name__, 'chunk %r\n%s' % (desc, tb[-1800:]))
    return rec


def explore(mod, prop, chunks, tier, seed, timeout):
    """Runs every chunk in a fresh fork of the pristine process, WORKERS at a time."""
    results, todo, running = {}, list(enumerate(chunks)), {}
    # start the chunks in an order that depends on the seed (never what they contain)
    random.Random(seed).shuffle(todo)
    errors = []
    while todo or running:
        while todo and len(running) < WORKERS:
            i, desc = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    signal.signal(signal.SIGINT, signal.SIG_DFL)
                    try:
                        out = ('ok', run_chunk(mod, prop, desc, tier, seed).dump())
                    except BaseException:
                        out = ('error', traceback.format_exc())
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(out, f)
                except BaseException:
                    code = 3
                finally:
                    os._exit(code)
            os.close(w)
            running[r] = [pid, i, desc, [], time.time()]
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for fd in ready:
            data = os.read(fd, 1 << 20)
            if data:
                running[fd][3].append(data); continue
            pid, i, desc, buf, t0 = running.pop(fd)
            os.close(fd)
            _, status = os.waitpid(pid, 0)
            try:
                kind, val = pickle.loads(b''.join(buf))
            except Exception:
                rec = Rec(prop, tier, seed)
                if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (
                        signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                    rec.fail('crash|%r' % (desc,), 'the interpreter crashed (status %d)' % status)
                    results[i] = rec.dump()
                else:
                    errors.append('worker of chunk %r gave no result (status %r)' % (desc, status))
                continue
            if kind == 'ok':
                val['wall'] = time.time() - t0
                results[i] = val
            else:
                errors.append('chunk %r:\n%s' % (desc, val))
        now = time.time()
        for fd, (pid, i, desc, buf, t0) in list(running.items()):
            if now - t0 > timeout:
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(fd); del running[fd]
                rec = Rec(prop, tier, seed)
                rec.fail('hang|%r' % (desc,), 'chunk did not terminate within %d s' % timeout)
                results[i] = rec.dump()
    return results, errors


def main(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    except ValueError:
        seed = 1
    mod = importlib.import_module('mc.checks.' + prop.lower())
    if hasattr(mod, 'before_import'):
        mod.before_import()
    load_quantities()
    if hasattr(mod, 'setup'):
        mod.setup()
    chunks = list(mod.chunks(tier))
    timeout = getattr(mod, 'TIMEOUT', {}).get(tier, 400 if tier == 'quick' else 7200)
    results, errors = explore(mod, prop, chunks, tier, seed, timeout)
    if hasattr(mod, 'finish'):
        rec = Rec(prop, tier, seed)
        mod.finish(results, rec)
        results[len(chunks)] = rec.dump()
    if errors:
        for e in errors:
            print('HARNESS-ERROR', e, file=sys.stderr)
        sys.exit(2)
    tot = dict(states=0, transitions=0, traces=0, nviol=0)
    outcomes, notes, samples, viols = set(), collections.Counter(), [], []
    for i in sorted(results):
        r = results[i]
        for k in tot:
            tot[k] += r[k]
        outcomes |= r['outcomes']; notes += r['notes']
        samples += r['samples']
        viols += [dict(v, chunk=chunks[i] if i < len(chunks) else None) for v in r['violations']]
    # known findings
    fresh, found = [], {}
    for v in viols:
        m = known_match(prop, v['key'])
        if m:
            found.setdefault(m, []).append(v)
        else:
            fresh.append(v)
    for (pat, text), vs in sorted(found.items()):
        print('KNOWN-FINDING: property=%s %s (%d case(s), e.g. %s)' % (prop, text, len(vs), vs[0]['key']))
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rdir, f))
    shown = collections.OrderedDict()
    for v in fresh:
        shown.setdefault(v['key'].split('|')[0], []).append(v)
    n = 0
    for cls, vs in shown.items():
        for v in vs[:3]:
            n += 1
            if n > 40:
                break
            path = os.path.join(rdir, '%s-%03d.json' % (prop, n))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, tier=tier, seed=seed, chunk=v['chunk'], key=v['key'],
                               message=v['msg'], program=v['src'],
                               how='bin/replay.py <this file> re-runs the chunk and prints this key again; '
                                   'program, if given, shows the failure without the explorer'), f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('   ', v['key'][:300])
            print('   ', v['msg'][:600].replace('\n', '\n    '))
    step = max(1, len(samples) // 8)
    cov = dict(states=tot['states'], transitions=tot['transitions'],
               traces_validated_against_impl=tot['traces'],
               samples=samples[::step][:10], exhaustive=True,
               distinct_outcomes=len(outcomes), chunks=len(chunks),
               bounds=mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
               rule=mod.RULE, notes={str(k): v for k, v in sorted(notes.items(), key=lambda kv: str(kv[0]))})
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print('%s %s: states=%d transitions=%d traces=%d outcomes=%d violations=%d (%d cases) known=%d wall=%.1fs' % (
        prop, tier, tot['states'], tot['transitions'], tot['traces'], len(outcomes),
        len(fresh), tot['nviol'], len(found), time.time() - t0))
    slow = sorted(((r.get('wall', 0), i) for i, r in results.items()), reverse=True)[:3]
    if os.environ.get('VERIF_DEBUG'):
        print('slowest chunks:', [(round(w, 1), chunks[i]) for w, i in slow if i < len(chunks)])
    if tot['states'] == 0 or tot['transitions'] == 0:
        print('HARNESS-ERROR nothing was explored', file=sys.stderr); sys.exit(2)
    sys.exit(1 if fresh else 0)


def replay(path):
    with open(path) as f:
        d = json.load(f)
    prop = d['property']
    mod = importlib.import_module('mc.checks.' + prop.lower())
    if hasattr(mod, 'before_import'):
        mod.before_import()
    load_quantities()
    if hasattr(mod, 'setup'):
        mod.setup()
    print('chunk', d['chunk']); print('key  ', d['key'])
    if d.get('program'):
        print('--- program\n%s\n---' % d['program'])
    if d['chunk'] is None:
        print('found when the chunks were compared with each other: run the check'); sys.exit(2)
    chunk = next((c for c in mod.chunks(d['tier']) if json.loads(json.dumps(c)) == d['chunk']), None)
    rec = run_chunk(mod, prop, chunk, d['tier'], d['seed'], only=d['key'])
    for v in rec.violations[:3]:
        print('REPRODUCED', v['msg'])
    n = rec.nviol + rec.nknown
    print('reproduced' if n else 'not reproduced')
    sys.exit(1 if n else 0)
