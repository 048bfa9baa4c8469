"""Deterministic threads: one runs at a time, a seeded scheduler picks which.

Importing this module (before karabo_data) puts dispatchers in the place of the
clock and of the locks, threads and queues of CPython; they behave as usual
until a Sched is active.  While one is active:

- threads started with threading.Thread are real OS threads holding a baton;
- every lock operation, sleep, clock reading, simulated socket operation and
  every line executed in karabo_data is a decision point;
- the clock is virtual and advances when nothing can run.

Decisions which differ from "go on with the current thread" are recorded as
[point, action, argument] in plan['switches'], which replays and shrinks them.
"""
import _thread
import queue
import random
import sys
import threading
import time
import zlib

from .core import EPOCH0, HarnessError

ACTIVE = None
_real = {n: getattr(time, n) for n in ('time', 'monotonic', 'perf_counter', 'sleep', 'time_ns', 'monotonic_ns',
                                       'perf_counter_ns')}
_real_lock = _thread.allocate_lock
_real_start = _thread.start_new_thread
_get_ident = _thread.get_ident


def _mine():
    return ACTIVE is not None and _get_ident() in ACTIVE.by_ident


def _clock(name, conv):
    real = _real[name]

    def fn():
        if not _mine():
            return real()
        ACTIVE.point('clock')
        return conv(ACTIVE)
    fn.__name__ = name
    return fn


def _sleep(dt):
    if not _mine():
        return _real['sleep'](dt)
    if dt < 0:
        raise ValueError('sleep length must be non-negative')
    ACTIVE.sleep(dt)


class SimLock:
    """Replacement of _thread.lock."""
    def __init__(self):
        self.held = False
        self.real = None if _mine() else _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        if self.real is not None:
            return self.real.acquire(blocking, timeout)
        s = ACTIVE
        s.point('lock')
        if self.held:
            if not blocking:
                return False
            if not s.block(lambda: not self.held, None if timeout is None or timeout < 0 else timeout, 'lock'):
                return False
        self.held = True
        return True

    def release(self):
        if self.real is not None:
            return self.real.release()
        if not self.held:
            raise RuntimeError('release unlocked lock')
        self.held = False
        if _mine():
            ACTIVE.point('unlock')

    def locked(self):
        return self.real.locked() if self.real is not None else self.held

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        if self.real is not None:
            self.real = _real_lock()
        self.held = False


def _allocate():
    return SimLock() if _mine() else _real_lock()


def _start_new_thread(func, args, kwargs={}):
    if not _mine():
        return _real_start(func, args, kwargs)
    return ACTIVE.spawn(func, args, kwargs)


_real_sentinel = threading._set_sentinel


def _set_sentinel():
    if not _mine():
        return _real_sentinel()
    lk = SimLock()
    ACTIVE.me().sentinels.append(lk)
    return lk


def install():
    time.time = _clock('time', lambda s: s.wall())
    time.time_ns = _clock('time_ns', lambda s: int(s.wall() * 1e9))
    time.monotonic = _clock('monotonic', lambda s: s.now - EPOCH0 + 1000)
    time.monotonic_ns = _clock('monotonic_ns', lambda s: int((s.now - EPOCH0 + 1000) * 1e9))
    time.perf_counter = _clock('perf_counter', lambda s: s.now - EPOCH0 + 1000)
    time.perf_counter_ns = _clock('perf_counter_ns', lambda s: int((s.now - EPOCH0 + 1000) * 1e9))
    time.sleep = _sleep
    queue.time = time.monotonic
    threading._time = time.monotonic
    threading._allocate_lock = _allocate
    threading.Lock = _allocate
    threading._start_new_thread = _start_new_thread
    threading._set_sentinel = _set_sentinel
    _crlock = threading._CRLock

    def RLock(*args, **kwargs):
        return threading._PyRLock(*args, **kwargs) if _mine() else _crlock(*args, **kwargs)
    threading.RLock = RLock
    queue._SimSimpleQueue = queue._PySimpleQueue
    queue.SimpleQueue = queue._PySimpleQueue


class SimThread:
    def __init__(self, sched, ix, name):
        self.ix, self.name = ix, name
        self.baton = _real_lock()
        self.baton.acquire()
        self.ready = None            # None: can run; else a predicate
        self.wake = None             # virtual time at which a wait ends
        self.why = ''
        self.done = False
        self.killed = False
        self.sentinels = []
        self.stalled = 0
        self.importing = 0


class Killed(BaseException):
    """Unwinds the thread of a crashed simulated process."""


class Sched:
    def __init__(self, ctx, plan, trace=('karabo_data',), max_points=400000):
        p = plan.get('sched', {})
        self.ctx, self.plan = ctx, plan
        self.r = random.Random('sched:%s' % p.get('seed', 0))
        self.rates = p.get('rates', {})      # decision kind -> probability of a switch
        self.stall_rate = p.get('stall', 0)
        self.replay = None
        if 'switches' in plan:
            self.replay = {s[0]: s[1:] for s in plan['switches']}
        self.out = []
        self.n = 0
        self.max_points = max_points
        self.threads = []
        self.by_ident = {}
        self.cur = None
        self.now = ctx.now
        self.offset = 0.0            # wall clock minus true time
        self.timers = []             # (time, seq, fn): network and fault events
        self.tseq = 0
        self.trace = trace
        self.sig = 0                 # running hash of the interleaving
        self.on_idle = None          # called when nothing can run before time advances
        self.idle_seen = None
        self.jumps = []
        self.phil = None

    # ---- lifecycle
    def __enter__(self):
        global ACTIVE
        t = SimThread(self, 0, 'main')
        self.threads.append(t)
        self.cur = t
        self.by_ident[_get_ident()] = t
        try:
            import h5py
            self.phil = h5py._objects.phil
        except Exception:
            self.phil = None
        ACTIVE = self
        if self.trace:
            sys.settrace(self.tracer)
        return self

    def __exit__(self, *exc):
        global ACTIVE
        sys.settrace(None)
        self.ctx.now = self.now
        self.plan['switches'] = self.out
        self.ctx.state('interleaving', self.sig)
        self.ctx.ev('schedule', self.n, self.sig, len(self.out))
        ACTIVE = None

    def me(self):
        return self.by_ident[_get_ident()]

    def wall(self):
        self.now += 1e-6
        return self.now + self.offset

    def fail(self, cls, msg):
        """Report a violation from whichever thread found it."""
        self.plan['switches'] = self.out
        self.ctx.now = self.now
        res = self.ctx.result('violation', cls, msg)
        res['plan'] = self.plan
        self.ctx.finish(res)

    def report(self):
        return '; '.join('%s %s' % (t.name, 'done' if t.done else 'waiting for %s' % t.why if t.ready else 'ready')
                         for t in self.threads)

    def spawn(self, func, args, kwargs={}, name=None):
        t = SimThread(self, len(self.threads), name or 'thread-%d' % len(self.threads))
        self.threads.append(t)

        def boot():
            t.baton.acquire()
            self.by_ident[_get_ident()] = t
            if self.trace:
                sys.settrace(self.tracer)
            try:
                func(*args, **kwargs)
            except Killed:
                pass
            except SystemExit:
                pass
            except BaseException as e:
                sys.settrace(None)
                import traceback
                self.ctx.ev('thread-error', t.name, repr(e))
                tb = traceback.format_exc()
                if isinstance(e, HarnessError):
                    self.ctx.finish(self.ctx.result('harness', 'harness', tb))
                self.fail(getattr(e, 'cls', 'thread-error'), '%s: %s\n%s' % (t.name, e, tb))
            sys.settrace(None)
            t.done = True
            for lk in t.sentinels:
                lk.held = False
            del self.by_ident[_get_ident()]
            self.hand_over(t)
        ident = _real_start(boot, ())
        self.point('spawn')
        return ident

    def go(self, func, *args, name=None):
        """Start a simulated thread of the harness; returns its record."""
        n = len(self.threads)
        self.spawn(func, args, name=name)
        return self.threads[n]

    # ---- decisions
    def runnable(self, t):
        if t.done or t.stalled > self.now:
            return False
        if t.ready is None:
            return True
        if t.killed or t.ready():
            return True
        return t.wake is not None and t.wake <= self.now

    def candidates(self):
        return [t for t in self.threads if self.runnable(t)]

    def decide(self, kind, cands, cur):
        """Next thread; the default is to go on, or round-robin when it cannot."""
        self.n += 1
        if self.n > self.max_points:
            self.fail('no-progress', 'no end after %d steps: %s' % (self.n, self.report()))
        if cur in cands:
            default = cur
        else:
            after = [t for t in cands if cur is not None and t.ix > cur.ix]
            default = (after or cands)[0]
        pick = default
        if self.replay is not None:
            act = self.replay.get(self.n)
            if act is not None:
                if act[0] == 'stall':
                    return self.stall(default, cands, act[1])
                for t in cands:
                    if t.ix == act[1]:
                        pick = t
        elif len(cands) > 1:
            rate = self.rates.get(kind, 0.1) if cur in cands else 0.7
            if self.stall_rate and self.r.random() < self.stall_rate:
                return self.stall(default, cands, round(10 ** self.r.uniform(-3, 1), 4))
            if self.r.random() < rate:
                pick = self.r.choice(cands)
        if pick is not default:
            self.out.append([self.n, 'run', pick.ix])
        return pick

    def stall(self, t, cands, dt):
        self.out.append([self.n, 'stall', dt])
        self.ctx.fault('thread_stalled')
        t.stalled = self.now + dt
        rest = [c for c in cands if c is not t]
        return rest[0] if rest else None

    def next_thread(self, kind, cur):
        while True:
            self.run_timers()
            cands = self.candidates()
            if cands:
                t = self.decide(kind, cands, cur if cur in cands else cur)
                if t is not None:
                    break
                continue
            if self.on_idle is not None:
                sys_tr = sys.gettrace()
                sys.settrace(None)
                self.on_idle()
                sys.settrace(sys_tr)
                if self.candidates():
                    continue
            when = [t.wake for t in self.threads if not t.done and t.ready is not None and t.wake is not None]
            when += [t.stalled for t in self.threads if not t.done and t.stalled > self.now]
            when += [x[0] for x in self.timers]
            if not when:
                self.fail('deadlock', 'nothing can run any more: ' + self.report())
            self.now = max(self.now, min(when))
            if self.now > EPOCH0 + 1e7:
                self.fail('no-progress', 'no end after %d simulated seconds: %s' % (self.now - EPOCH0, self.report()))
        if t is not cur:
            self.sig = zlib.crc32(b"%d %d %s %d" % (self.sig, t.ix, kind.encode(), self.n))
        return t

    def hand_over(self, me):
        """The current thread ended: pass the baton on for good."""
        t = self.next_thread('end', me)
        self.cur = t
        t.baton.release()

    def switch(self, kind, me):
        t = self.next_thread(kind, me)
        if t is not me:
            self.cur = t
            tr = sys.gettrace()
            t.baton.release()
            me.baton.acquire()
            if tr is not None and sys.gettrace() is None:
                sys.settrace(tr)
        if me.killed:
            me.ready = None
            raise Killed()

    def point(self, kind):
        me = self.by_ident.get(_get_ident())
        if me is None or self.cur is not me:
            return
        if me.importing or self.phil is not None and self.phil._is_owned():
            return
        self.now += 1e-6
        self.switch(kind, me)

    def block(self, ready, timeout, why):
        """Wait until ready() or until timeout (s) has passed; True if ready."""
        me = self.me()
        me.ready, me.why = ready, why
        me.wake = None if timeout is None else self.now + timeout
        try:
            self.switch('block', me)
            return bool(ready())
        finally:
            me.ready, me.wake, me.why = None, None, ''

    def sleep(self, dt):
        self.block(lambda: False, dt, 'sleep')

    # ---- timers (network, faults)
    def at(self, dt, fn):
        self.tseq += 1
        self.timers.append((self.now + dt, self.tseq, fn))
        self.timers.sort(key=lambda x: x[:2])

    def run_timers(self):
        while self.timers and self.timers[0][0] <= self.now:
            _, _, fn = self.timers.pop(0)
            tr = sys.gettrace()
            sys.settrace(None)
            fn()
            sys.settrace(tr)

    def kill(self, t):
        """The simulated process of this thread crashes at its next step."""
        t.killed = True

    def tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn == '<frozen importlib._bootstrap>' and frame.f_code.co_name == '_find_and_load':
            # (the import system has locks of its own: importing is one step)
            me = self.by_ident.get(_get_ident())
            if me is not None:
                me.importing += 1
                return self.imported
            return None
        if fn.endswith('msgpack_numpy.py'):       # called back while a message is being packed
            return self.line
        if '/karabo_data/' not in fn or '/tests/' in fn or (self.trace_only and not fn.endswith(self.trace_only)):
            return None
        return self.line

    def imported(self, frame, event, arg):
        if event == 'return':
            me = self.by_ident.get(_get_ident())
            if me is not None:
                me.importing -= 1
        return self.imported

    def line(self, frame, event, arg):
        if event == 'line' and self.cur is not None:
            me = self.by_ident.get(_get_ident())
            if me is self.cur:
                self.point('line')
        return self.line
    trace_only = None


install()
