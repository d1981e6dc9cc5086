"""Deterministic scheduler of real threads: one runs at a time, control changes hands at the chosen line of the code under test, and at locks which are taken.  Used by C17."""
import os, sys, threading, time, _thread

_Lock, _RLock = _thread.allocate_lock, threading.RLock
_active = None          # the scheduler of this process, while it runs


class Deadlock(BaseException):
    pass


class Coop:
    """a lock of the code under test; a thread of the scheduler which has to wait for it hands over"""
    def __init__(self, inner):
        self._inner = inner

    def acquire(self, blocking=True, timeout=-1):
        s = _active
        me = s.me() if s else None
        if me is None or not blocking:
            return self._inner.acquire(blocking, timeout) if blocking else self._inner.acquire(False)
        while not self._inner.acquire(False):
            if not s.wait_for(me, self):
                if timeout is not None and timeout >= 0:
                    return False
                raise Deadlock('every unfinished thread waits for a lock')
        return True

    def release(self):
        self._inner.release()
        if _active:
            _active.released(self)

    def locked(self):
        return self._inner.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, n):   # what threading.Condition asks of an RLock
        if n in ('_is_owned', '_release_save', '_acquire_restore'):
            return getattr(self._inner, n)
        raise AttributeError(n)


def install():
    """locks which modules of the library create from now on are cooperative"""
    def factory(make):
        def lock():
            n = sys._getframe(1).f_globals.get('__name__', '')
            return Coop(make()) if n.split('.')[0] in ('quantities', 'threading') and _creator().split('.')[0] == 'quantities' else make()
        return lock
    def _creator():
        f = sys._getframe(2)
        while f and f.f_globals.get('__name__') in ('threading', __name__):
            f = f.f_back
        return f.f_globals.get('__name__', '') if f else ''
    threading.Lock = factory(_Lock)
    threading.RLock = factory(_RLock)


class Sched:
    """runs the programs (lists of callables) as threads; plan = [(thread, its number of points so far)] at which
    control passes to the next unfinished thread, in this order"""

    def __init__(self, programs, plan, root, first=0, limit=60):
        self.programs, self.plan, self.root = programs, list(plan), root
        self.n = len(programs)
        self.count = [0] * self.n
        self.sem = [_Lock() for _ in range(self.n)]
        for l in self.sem: l.acquire()
        self.done = [False] * self.n
        self.waiting = [None] * self.n
        self.results = [[] for _ in range(self.n)]
        self.first, self.limit = first, limit
        self.idents = {}
        self.end = _Lock(); self.end.acquire()
        self.dead = False
        self.where = [[] for _ in range(self.n)]

    def me(self):
        return self.idents.get(_thread.get_ident())

    # -- handing over

    def others(self, i):
        return [(i + k) % self.n for k in range(1, self.n)]

    def give(self, i, j):
        self.sem[j].release()
        self.sem[i].acquire()
        if self.dead: raise Deadlock('stopped')

    def wait_for(self, i, lock):
        self.waiting[i] = lock
        for j in self.others(i):
            if not self.done[j] and self.waiting[j] is None:
                self.give(i, j)
                self.waiting[i] = None
                return True
        self.waiting[i] = None
        self.dead = True
        return False

    def released(self, lock):
        for j in range(self.n):
            if self.waiting[j] is lock: self.waiting[j] = None

    # -- points

    def point(self, i, frame):
        self.count[i] += 1
        if self.plan and self.plan[0] == (i, self.count[i]):
            self.plan.pop(0)
            for j in self.others(i):
                if not self.done[j] and self.waiting[j] is None:
                    self.give(i, j)
                    break

    def tracer(self, i):
        root, point = self.root, self.point
        def local(frame, event, arg):
            if event == 'line': point(i, frame)
            return local
        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(root):
                return local
            return None
        return glob

    def body(self, i, look):
        self.sem[i].acquire()
        try:
            for op in self.programs[i]:
                sys.settrace(self.tracer(i))
                try:
                    r = op()
                except Exception as e:
                    sys.settrace(None)
                    e.__traceback__ = None
                    r = look(None, e)
                else:
                    sys.settrace(None)
                    r = look(r, None)
                self.results[i].append(r)
        except Deadlock as e:
            sys.settrace(None)
            self.dead = True
            self.results[i].append(('deadlock', str(e)))
        finally:
            sys.settrace(None)
            self.done[i] = True
            if all(self.done): self.end.release()
            else:
                nxt = [j for j in self.others(i) if not self.done[j]]
                free = [j for j in nxt if self.waiting[j] is None]
                if not free: self.dead = True
                self.sem[(free or nxt)[0]].release()

    def run(self, look):
        global _active
        _active = self
        # the threads look at their results themselves, untraced and while they have control
        ts = [threading.Thread(target=self.body, args=(i, look), daemon=True) for i in range(self.n)]
        for i, t in enumerate(ts):
            t.start(); self.idents[t.ident] = i
        self.sem[self.first].release()
        ok = self.end.acquire(timeout=self.limit)
        _active = None
        return ok
