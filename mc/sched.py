"""
Controlled scheduler: stateless model checking of the real code.

install() must run before satella (or concurrent.futures) is imported.  It replaces the primitive
synchronisation operations under the pure-python parts of the standard library (Condition, Event, Semaphore,
Queue, ThreadPoolExecutor, Thread all run unmodified on top of them) by virtual ones, and the clock by a
virtual clock.  One execution = one real OS thread per virtual thread, exactly one of which runs at any time;
every other one waits for its turn.  At each scheduling point the scheduler decides who goes on.

Scheduling points: before every virtual lock acquire, sleep, thread start/exit, and - via sys.monitoring
INSTRUCTION events - before every bytecode of /repo/satella that can touch shared state.
"""
import _thread
import dis
import gc
import os
import sys
import types

REPO_PREFIX = os.environ.get('VERIF_REPO', '/repo').rstrip('/') + '/satella/'

_real_alloc = _thread.allocate_lock
_real_start = _thread.start_new_thread
_get_ident = _thread.get_ident
import time as _t
_real_monotonic = _t.monotonic
_real_cpu = _t.process_time

CUR = None          # the active Execution, or None
CLOCK0 = 1000000.0
WALL0 = 1600000000.0
IDLE_CLOCK = [0.0]  # virtual clock used outside executions (sequence checks)


class VKill(BaseException):
    """raised inside virtual threads to unwind them at the end of an execution"""


class Violation(AssertionError):
    pass


class Stuck(Violation):
    """deadlock / livelock"""


# --------------------------------------------------------------------------- virtual locks
class VLock:
    __slots__ = ('held', '__weakref__', 'owner')

    def __init__(self):
        self.held = False
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        ex = CUR
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if timeout is not None and timeout < 0 and timeout != -1:
            raise ValueError('timeout value must be a non-negative number')
        if ex is None or (me := ex.me()) is None:
            if not self.held:
                self.held = True
                return True
            if not blocking:
                return False
            if timeout != -1:
                IDLE_CLOCK[0] += timeout
                return False
            raise Stuck('deadlock: blocking acquire of a held lock by the only thread')
        ex.point(me, 'acq')
        if not self.held:
            self.held = True
            self.owner = me
            return True
        if not blocking or timeout == 0:
            return False
        deadline = None if timeout == -1 else ex.clock + timeout
        me.blocked_on = self
        me.deadline = deadline
        ex.block(me)
        me.blocked_on = None
        me.deadline = None
        if not self.held:
            self.held = True
            self.owner = me
            return True
        return False     # timed out

    def release(self):
        if not self.held:
            raise RuntimeError('release unlocked lock')
        self.held = False
        self.owner = None

    def locked(self):
        return self.held

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition when present
    def _is_owned(self):
        return self.held

    def _release_save(self):
        self.release()

    def _acquire_restore(self, x):
        self.acquire()

    def _at_fork_reinit(self):
        self.held = False

    def __repr__(self):
        return '<%s lock>' % ('locked' if self.held else 'unlocked')

    def __mc_canon__(self):
        return ('lock', self.held)

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


class VRLock:
    __slots__ = ('_l', '_own', '_cnt', '__weakref__')

    def __init__(self):
        self._l = VLock()
        self._own = None
        self._cnt = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        if self._own == me:
            self._cnt += 1
            return True
        if self._l.acquire(blocking, timeout):
            self._own = me
            self._cnt = 1
            return True
        return False

    def release(self):
        if self._own != _get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._cnt -= 1
        if not self._cnt:
            self._own = None
            self._l.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._own == _get_ident()

    def _release_save(self):
        if self._cnt == 0:
            raise RuntimeError('cannot release un-acquired lock')
        c = self._cnt
        self._cnt = 0
        self._own = None
        self._l.release()
        return c

    def _acquire_restore(self, c):
        self._l.acquire()
        self._own = _get_ident()
        self._cnt = c

    def _recursion_count(self):
        return self._cnt if self._own == _get_ident() else 0

    def _at_fork_reinit(self):
        self._l = VLock()
        self._own = None
        self._cnt = 0

    def __repr__(self):
        return '<rlock %s %s>' % (self._cnt, self._l)

    def __mc_canon__(self):
        return ('rlock', self._cnt)

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.RLock' object")


# --------------------------------------------------------------------------- executions
class VThread:
    __slots__ = ('tid', 'go', 'blocked_on', 'deadline', 'done', 'ident', 'name', 'exc', 'result', 'sleeping',
                 'started', 'last_seen')

    def __init__(self, tid, name):
        self.tid = tid
        self.name = name
        self.go = _real_alloc()
        self.go.acquire()
        self.blocked_on = None
        self.deadline = None
        self.sleeping = False
        self.done = False
        self.started = False
        self.ident = None
        self.exc = None
        self.result = None
        self.last_seen = 0


class Execution:
    def __init__(self, prefix, max_steps=20000, horizon=100000.0, clock_choice=False, bound=None, fine=False,
                 record=False):
        self.prefix = prefix
        self.trace = []            # (n_options, chosen, costs)
        self.steps = 0
        self.max_steps = max_steps
        self.horizon = horizon
        self.clock_choice = clock_choice
        self.clock = CLOCK0
        self.threads = []
        self.by_ident = {}
        self.current = None
        self.killing = False
        self.finished = _real_alloc()
        self.finished.acquire()
        self.failure = None
        self.diverged = False
        self.thread_excs = []
        self.log = [] if record else None
        self.spent = 0
        self.bound = bound
        self.noswitch = 0
        self.root_done = False

    def me(self):
        t = self.by_ident.get(_get_ident())
        return t

    # ---- scheduling
    def enabled(self, t):
        if t.done or not t.started:
            return False
        if t.sleeping:
            return t.deadline <= self.clock
        if t.blocked_on is not None:
            if not t.blocked_on.held:
                return True
            return t.deadline is not None and t.deadline <= self.clock
        return True

    def point(self, me, kind):
        if self.killing:
            raise VKill()
        self.steps += 1
        if self.steps > self.max_steps:
            self.fail(Stuck('livelock: more than %d steps' % self.max_steps))
            raise VKill()
        if self.noswitch:
            return
        opts = None
        for t in self.threads:
            if t is not me and self.enabled(t):
                if opts is None:
                    opts = [me]
                opts.append(t)
        tick = self.clock_choice and self.next_deadline() is not None
        if opts is None:
            if not tick:
                return
            opts = [me]
        costs = [0] + [1] * (len(opts) - 1)
        if tick:
            opts = opts + ['tick']
            costs.append(1)
        c = self.choose(costs, kind, me, opts)
        if opts[c] == 'tick':
            self.advance()
            if self.log is not None:
                self.log.append('    clock -> %.3f' % (self.clock - CLOCK0))
            # time passed: whoever became enabled competes at the next point
            return
        if c:
            self.switch(me, opts[c])

    def next_deadline(self):
        best = None
        for t in self.threads:
            if not t.done and t.deadline is not None and t.deadline > self.clock:
                if best is None or t.deadline < best:
                    best = t.deadline
        return best

    def advance(self):
        self.clock = self.next_deadline()

    def choose(self, costs, kind, me, opts):
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= len(costs):
                self.diverged = True
                c = 0
        else:
            c = 0
        self.spent += costs[c]
        self.trace.append((c, tuple(costs)))
        if self.log is not None and c:
            self.log.append('    switch at step %d (%s) %s -> %s' % (
                self.steps, kind, me.name, opts[c] if opts[c] == 'tick' else opts[c].name))
        return c

    def switch(self, me, to):
        self.current = to
        to.go.release()
        me.go.acquire()
        if self.killing:
            raise VKill()

    def pick_when_blocked(self, me):
        """me cannot run; choose somebody else (all choices are free). Returns thread or None (deadlock)."""
        while True:
            opts = [t for t in self.threads if self.enabled(t)]
            tick = self.clock_choice and self.next_deadline() is not None
            if opts:
                costs = [0] * len(opts)
                if tick:
                    opts = opts + ['tick']
                    costs.append(1)
                if len(opts) == 1:
                    return opts[0]
                # deterministic order: round-robin starting after me
                c = self.choose(costs, 'blk', me, opts)
                if opts[c] == 'tick':
                    self.advance()
                    continue
                return opts[c]
            if self.next_deadline() is None:
                return None
            self.advance()
            if self.clock - CLOCK0 > self.horizon:
                return None
            self.steps += 1
            if self.steps > self.max_steps:
                return None

    def block(self, me):
        """called with me.blocked_on/deadline/sleeping set; returns when me was scheduled again (enabled)"""
        if self.killing:
            raise VKill()
        if self.log is not None:
            self.log.append('    %s blocks on %s%s' % (me.name, 'sleep' if me.sleeping else 'lock',
                            '' if me.deadline is None else ' until %.3f' % (me.deadline - CLOCK0)))
        t = self.pick_when_blocked(me)
        if t is None:
            self.fail(Stuck(self.describe_deadlock()))
            raise VKill()
        if t is not me:
            self.switch(me, t)

    def describe_deadlock(self):
        out = []
        for t in self.threads:
            if not t.done:
                out.append('%s:%s' % (t.name, 'sleeping' if t.sleeping else
                                      ('waiting for a lock' if t.blocked_on is not None else 'runnable')))
        return 'deadlock: nobody can make progress [' + ', '.join(out) + '] clock=%.3f steps=%d' % (
            self.clock - CLOCK0, self.steps)

    def fail(self, exc):
        if self.failure is None:
            self.failure = exc
        self.killing = True

    # ---- threads
    def start_thread(self, fn, args, kwargs, name, daemon_sentinel=None, root=False):
        t = VThread(len(self.threads), name)
        self.threads.append(t)

        def boot():
            t.ident = _get_ident()
            self.by_ident[t.ident] = t
            t.go.acquire()
            try:
                if not self.killing:
                    t.result = fn(*args, **kwargs)
            except VKill:
                pass
            except SystemExit:
                pass
            except BaseException as e:
                t.exc = e
                if root and not self.killing:
                    self.fail(e)
            finally:
                pass
            del_tb(t.exc if not root else None)
            self.exit_thread(t, root)

        t.started = True
        _real_start(boot, ())
        return t

    def exit_thread(self, t, root):
        t.done = True
        s = SENTINELS.pop(t.ident, None)
        if s is not None:
            if s.held:
                s.held = False
        self.by_ident.pop(t.ident, None)
        if root:
            self.root_done = True
        if root or self.killing:
            self.killing = True
            for o in self.threads:
                if not o.done:
                    self.current = o
                    o.go.release()
                    return
            self.finished.release()
            return
        n = self.pick_when_blocked(t)
        if n is None:
            self.fail(Stuck(self.describe_deadlock()))
            for o in self.threads:
                if not o.done:
                    self.current = o
                    o.go.release()
                    return
            self.finished.release()
            return
        self.current = n
        n.go.release()

    def wait_finished(self, watchdog):
        """-> False if the threads hang; a machine busy with something else is given three times as long"""
        t0, c0 = _real_monotonic(), _real_cpu()
        while not self.finished.acquire(True, max(0.1, watchdog / 2)):
            w, c = _real_monotonic() - t0, _real_cpu() - c0
            if (w > watchdog * 0.95 and c > 0.8 * watchdog) or w > 3 * watchdog:
                return False
        return True

    def run(self, body, watchdog=60.0):
        """runs body() as root virtual thread; returns after all virtual threads finished"""
        global CUR
        gc_was = gc.isenabled()
        gc.disable()
        CUR = self
        try:
            root = self.start_thread(body, (), {}, 'main', root=True)
            self.current = root
            root.go.release()
            if not self.wait_finished(watchdog):
                # a thread does not reach any scheduling point: endless loop, or blocked for real
                self.failure = Stuck('hang: no scheduling point reached for %.0f s' % watchdog)
                self.killing = True
                self.hung = True
            else:
                self.hung = False
        finally:
            CUR = None
            if gc_was:
                gc.enable()
        return root


def del_tb(e):
    if e is not None:
        e.__traceback__ = None


SENTINELS = {}


def v_start_new_thread(fn, args=(), kwargs=None):
    ex = CUR
    if ex is None or ex.me() is None:
        if os.environ.get('VERIF_REALTHREADS'):
            return _real_start(fn, args, kwargs or {})
        raise Stuck('a thread was started outside of a controlled execution')
    me = ex.me()
    name = 't%d' % len(ex.threads)
    owner = getattr(fn, '__self__', None)
    t = ex.start_thread(fn, args, kwargs or {}, name)
    # wait until the OS thread registered its ident: do it lazily - ident is only needed by itself
    ex.point(me, 'start')
    return t.tid + 1000


def v_set_sentinel():
    l = VLock()
    SENTINELS[_get_ident()] = l
    return l


def v_sleep(s):
    ex = CUR
    if s < 0:
        raise ValueError('sleep length must be non-negative')
    if ex is None or (me := ex.me()) is None:
        IDLE_CLOCK[0] += s
        if SLEEP_HOOK[0] is not None:
            SLEEP_HOOK[0](s)
        return
    ex.point(me, 'sleep')
    me.sleeping = True
    # sleep(0) lets others run and takes a moment, so that polling loops make progress
    me.deadline = ex.clock + (s if s > 0 else 1e-6)
    ex.block(me)
    me.sleeping = False
    me.deadline = None


SLEEP_HOOK = [None]


def now():
    ex = CUR
    return ex.clock if ex is not None else CLOCK0 + IDLE_CLOCK[0]


def v_monotonic():
    return now()


def v_time():
    return WALL0 + (now() - CLOCK0)


def v_perf():
    return now()


REAL = {}
ROOT_TIME = None


def install():
    """Patch the primitives. Call once, before importing satella."""
    import threading
    import time
    import queue
    if REAL:
        return
    assert not any(m == 'satella' or m.startswith('satella.') for m in sys.modules), 'satella imported too early'
    REAL.update(sleep=time.sleep, monotonic=time.monotonic, time=time.time, perf_counter=time.perf_counter,
                Lock=threading.Lock, RLock=threading.RLock)
    time.sleep = v_sleep
    time.monotonic = v_monotonic
    time.time = v_time
    time.perf_counter = v_perf
    threading._time = v_monotonic
    threading.Lock = VLock
    threading._allocate_lock = VLock
    threading.RLock = VRLock
    threading._CRLock = VRLock
    threading._start_new_thread = v_start_new_thread
    threading._set_sentinel = v_set_sentinel
    _thread.allocate_lock = VLock
    queue.time = v_monotonic
    queue.SimpleQueue = queue._PySimpleQueue

    def hook(args):
        ex = CUR
        if ex is None or ex.killing or args.exc_type in (VKill, SystemExit):
            return
        ex.thread_excs.append((args.exc_type, args.exc_value))
        del_tb(args.exc_value)
    threading.excepthook = hook
    sys.unraisablehook = lambda a: None
    # in 3.12 Thread._bootstrap_inner calls self._invoke_excepthook, created per thread from the global one
    import concurrent.futures.thread as cft
    cft  # imported after patching on purpose
    import atexit
    try:
        threading._register_atexit
    except AttributeError:
        pass


# --------------------------------------------------------------------------- bytecode points
TOOL = 3
_POINTS = {}
COARSE = {'STORE_ATTR', 'DELETE_ATTR', 'BINARY_SUBSCR', 'STORE_SUBSCR', 'DELETE_SUBSCR', 'BINARY_SLICE',
          'STORE_SLICE', 'CONTAINS_OP', 'FOR_ITER', 'CALL', 'CALL_FUNCTION_EX', 'STORE_GLOBAL', 'DELETE_GLOBAL'}


def _all_codes(co, seen):
    if co in seen:
        return
    seen.add(co)
    for c in co.co_consts:
        if isinstance(c, types.CodeType):
            _all_codes(c, seen)


def repo_codes():
    seen = set()
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(REPO_PREFIX):
            _all_codes(o.__code__, seen)
    return seen


_CODES = {}            # cache: number of loaded satella modules -> codes
_ACTIVE = [None]


def instrument(only=None, fine=False):
    """enable scheduling points in all loaded satella code (only: list of path fragments to restrict to)."""
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, 'mc')
        mon.register_callback(TOOL, mon.events.INSTRUCTION, _on_instr)
    nmods = sum(1 for m in sys.modules if m.startswith('satella'))
    key = (tuple(only) if only is not None else None, fine, nmods)
    if _ACTIVE[0] == key:
        return
    _ACTIVE[0] = key
    if nmods not in _CODES:
        _CODES.clear()
        _CODES[nmods] = sorted(repo_codes(), key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    codes = _CODES[nmods]
    stored_globals = set()
    stored_free = set()
    for co in codes:
        for ins in dis.get_instructions(co):
            if ins.opname in ('STORE_GLOBAL', 'DELETE_GLOBAL'):
                stored_globals.add(ins.argval)
            if ins.opname == 'STORE_DEREF' and ins.argval in co.co_freevars:
                stored_free.add(ins.argval)
    for co in list(_POINTS):
        mon.set_local_events(TOOL, co, 0)
    _POINTS.clear()
    mon.restart_events()
    for co in codes:
        if only is not None and not any(f in co.co_filename for f in only):
            continue
        pts = set()
        for ins in dis.get_instructions(co):
            n = ins.opname
            ok = n in COARSE
            if n == 'LOAD_ATTR':
                ok = fine or not (ins.arg & 1)      # method form: a class lookup almost always
            elif n in ('LOAD_GLOBAL', 'LOAD_NAME'):
                ok = ins.argval in stored_globals
            elif n == 'LOAD_DEREF':
                ok = ins.argval in stored_free
            elif n == 'STORE_DEREF':
                ok = ins.argval in co.co_freevars
            elif n in ('BINARY_OP', 'COMPARE_OP', 'GET_ITER', 'UNPACK_SEQUENCE', 'BEFORE_WITH', 'LIST_EXTEND',
                       'DICT_UPDATE', 'DICT_MERGE', 'SET_UPDATE'):
                ok = fine
            if ok:
                pts.add(ins.offset)
        _POINTS[co] = frozenset(pts)
        if pts:
            mon.set_local_events(TOOL, co, mon.events.INSTRUCTION)


def _on_instr(co, offset):
    p = _POINTS.get(co)
    if p is None or offset not in p:
        return sys.monitoring.DISABLE
    ex = CUR
    if ex is None:
        return
    me = ex.by_ident.get(_get_ident())
    if me is None or ex.killing:
        if me is not None:
            raise VKill()
        return
    ex.point(me, 'op')


# --------------------------------------------------------------------------- helpers used inside scenario bodies
class Handle:
    """a harness thread: started without scheduling points of its own"""

    def __init__(self):
        self.lock = VLock()
        self.lock.held = True
        self.result = None
        self.exc = None
        self.done = False

    def join(self, timeout=None):
        if self.lock.acquire(True, -1 if timeout is None else timeout):
            self.lock.release()
            return True
        return False

    @property
    def alive(self):
        return not self.done

    def value(self):
        """join, and return the result or raise the exception"""
        self.join()
        if self.exc is not None:
            raise self.exc
        return self.result


def spawn(fn, *args, **kwargs):
    import threading
    h = Handle()

    def go():
        try:
            h.result = fn(*args, **kwargs)
        except VKill:
            raise
        except BaseException as e:
            h.exc = e
        finally:
            threading._active.pop(_get_ident(), None)
            h.done = True
            h.lock.held = False
    ex = CUR
    ex.start_thread(go, (), {}, 'T%d' % len(ex.threads))
    return h


def par(*fns):
    """run fns in parallel; returns list of ('ok', v) / ('exc', e)"""
    hs = [spawn(f) for f in fns]
    out = []
    for h in hs:
        h.join()
        out.append(('exc', h.exc) if h.exc is not None else ('ok', h.result))
    return out


def pause():
    """an explicit scheduling point in harness code"""
    ex = CUR
    if ex is not None:
        me = ex.me()
        if me is not None:
            ex.point(me, 'harness')


def pick(options):
    """a free (cost 0) nondeterministic choice by the harness, explored exhaustively"""
    options = list(options)
    ex = CUR
    if len(options) == 1:
        return options[0]
    me = ex.me()
    if ex.killing:
        raise VKill()
    i = len(ex.trace)
    c = ex.prefix[i] if i < len(ex.prefix) else 0
    if c >= len(options):
        ex.diverged = True
        c = 0
    ex.trace.append((c, (0,) * len(options)))
    if ex.log is not None:
        ex.log.append('    pick: %r' % (options[c],))
    return options[c]


def clock():
    """virtual seconds since the start of the execution"""
    return now() - CLOCK0


def stamp():
    """a strictly increasing logical time, for histories"""
    ex = CUR
    if ex is None:
        return 0
    ex.steps += 0
    ex.seqno = getattr(ex, 'seqno', 0) + 1
    return ex.seqno


def advance(s):
    """let virtual time pass for the calling thread"""
    import time
    if s > 0:
        time.sleep(s)
    else:
        pause()


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)
