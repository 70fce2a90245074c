"""
C06: TerminableThread, IntervalTerminableThread, SingleStartThread, BogusTerminableThread, ThreadCollection.
The real threads run under the controlled scheduler and the virtual clock.
"""
import threading

from mc.jobs import SchedJob, SeqJob
from mc.sched import require, par, spawn, pause, pick, Violation, clock, advance
from satella.coding.concurrent import (TerminableThread, IntervalTerminableThread, SingleStartThread,
                                       BogusTerminableThread, ThreadCollection, Condition)
from satella.exceptions import WouldWaitMore


class Boom(Exception):
    pass


class SubBoom(Boom):
    pass


class Other(Exception):
    pass


def ok(rs):
    for k, v in rs:
        if k == 'exc':
            raise v
    return [v for k, v in rs]


def recorder(base, loop_time=1.0, fail_at=None, fail=None, prep_fail=None, self_term=None):
    class T(base):
        def __init__(self, *a, **kw):
            self.log = []
            super().__init__(*a, **kw)

        def prepare(self):
            require(threading.current_thread() is self, 'prepare in a wrong thread')
            self.log.append(('prepare', clock()))
            pause()
            if prep_fail is not None:
                raise prep_fail()

        def loop(self):
            n = sum(1 for x in self.log if x[0] == 'loop')
            self.log.append(('loop', clock()))
            t = loop_time[n % len(loop_time)] if isinstance(loop_time, (list, tuple)) else loop_time
            if t is not None:
                advance(t)
            self.log.append(('end', clock()))
            if self_term == n:
                self.terminate()
            if fail_at == n:
                raise fail()

        def on_overrun(self, time_taken):
            self.log.append(('overrun', time_taken))

        def cleanup(self):
            self.log.append(('cleanup', clock()))
            pause()
    return T


def check_log(log, finished=True):
    kinds = [x[0] for x in log]
    require(kinds.count('prepare') == 1 and kinds[0] == 'prepare', 'lifecycle: %s', kinds)
    if finished:
        require(kinds.count('cleanup') == 1 and kinds[-1] == 'cleanup', 'lifecycle: %s', kinds)
    d = 0
    for k in kinds:
        if k == 'loop':
            d += 1
            require(d == 1, 'overlapping iterations %s', kinds)
        elif k == 'end':
            d -= 1


def terminated_ok(log, mark):
    """mark: length of the log when terminate() returned"""
    before = [x[0] for x in log[:mark]]
    running = before.count('loop') > before.count('end')
    after = [x[0] for x in log[mark:]].count('loop')
    require(after <= (0 if running else 1), '%s iterations started after termination was requested: %s',
            after, [x[0] for x in log])


def lifecycle(base_name):
    """terminate at every point of the thread's life"""
    def body():
        if base_name == 'plain':
            t = recorder(TerminableThread)()
        else:
            t = recorder(IntervalTerminableThread, loop_time=0.5)(1)
        at = pick([0, 0.5, 1, 1.7])
        how = pick(['one', 'two', 'twice', 'join-first'])
        require(t.terminating is False, 'terminating too early')
        if base_name == 'plain' or at:
            require(t.start() is t, 'start() does not return the thread')
        else:
            t.start()
        if at:
            advance(at)
        require(t.is_alive(), 'died by itself')
        marks = []

        def term():
            require(t.terminate() is t, 'terminate() does not return the thread')
            marks.append(len(t.log))
            require(t.terminating is True, 'not marked as terminating')
        if how == 'one':
            term()
        elif how == 'twice':
            term()
            term()
        elif how == 'two':
            ok(par(term, term))
        else:
            j = spawn(t.join)
            pause()
            term()
            j.value()
        t.join()
        require(not t.is_alive(), 'alive after join')
        check_log(t.log)
        terminated_ok(t.log, marks[0])
        t.terminate().join()
        check_log(t.log)
        return at, how, len(t.log)
    return body


def before_start():
    base = pick(['plain', 'interval'])
    t = recorder(TerminableThread)() if base == 'plain' else recorder(IntervalTerminableThread)(1)
    t.terminate()
    t.start()
    t.join()
    check_log(t.log)
    require('loop' not in [x[0] for x in t.log], 'an iteration ran: %s', t.log)


def failing():
    """exceptions of every kind, in prepare or in an iteration"""
    base = pick(['plain', 'interval'])
    what = pick([Boom, SubBoom, Other, SystemExit, KeyboardInterrupt])
    where = pick(['prepare', 0, 1])
    to = pick([None, Boom, (Boom, KeyError), (SubBoom,)])
    kw = {} if to is None else {'terminate_on': to}
    cls = recorder(TerminableThread if base == 'plain' else IntervalTerminableThread, loop_time=0.5,
                   fail_at=None if where == 'prepare' else where, fail=what,
                   prep_fail=what if where == 'prepare' else None)
    t = cls(**kw) if base == 'plain' else cls('1s', **kw)
    seen = []
    old = threading.excepthook
    threading.excepthook = lambda args: seen.append(args.exc_type)
    try:
        t.start()
        t.join()
    finally:
        threading.excepthook = old
    require(not t.is_alive(), 'alive')
    check_log(t.log)
    loops = [x[0] for x in t.log].count('loop')
    require(loops == (0 if where == 'prepare' else where + 1), 'iterations: %s', t.log)
    swallowed = what is SystemExit or (to is not None and issubclass(what, to))
    require(bool(seen) == (not swallowed), '%s with terminate_on=%s: reported %s', what, to, seen)
    if swallowed and what is not SystemExit:
        require(t.terminating, 'not marked as terminating')


def context():
    base = pick(['plain', 'interval'])
    exc = pick([None, Boom, KeyboardInterrupt])
    t = recorder(TerminableThread)() if base == 'plain' else recorder(IntervalTerminableThread)(1)
    inner = pick([False, True])
    try:
        with t as q:
            require(q is t, 'wrong object entered')
            require(t.is_alive(), 'not started')
            advance(pick([0, 1.5]))
            if inner:
                t.terminate()
            if exc:
                raise exc()
        require(exc is None, 'exception swallowed')
    except (Boom, KeyboardInterrupt) as e:
        require(type(e) is exc, 'other exception')
    require(not t.is_alive(), 'alive after leaving the context')
    check_log(t.log)


def self_terminate():
    base = pick(['plain', 'interval'])
    n = pick([0, 1])
    cls = recorder(TerminableThread if base == 'plain' else IntervalTerminableThread, loop_time=0.5, self_term=n)
    t = cls() if base == 'plain' else cls(1)
    t.start()
    t.join()
    check_log(t.log)
    require([x[0] for x in t.log].count('loop') == n + 1, 'iterations %s', t.log)


# ------------------------------------------------------------------ interval
def interval_period():
    sec = pick([1, '2s', 0.5, '0.1m'])
    s = {'2s': 2, '0.1m': 6.0}.get(sec, sec)
    durs = [pick([0, 0.25, 1, 3]) for _ in range(3)]
    cls = recorder(IntervalTerminableThread, loop_time=durs, self_term=3)
    t = cls(sec)
    t.start()
    t.join()
    check_log(t.log)
    starts = [x[1] for x in t.log if x[0] == 'loop']
    over = [x[1] for x in t.log if x[0] == 'overrun']
    want = [0.0]
    for d in durs:
        want.append(want[-1] + max(d, s))
    require(len(starts) == 4 and all(abs(a - b) < 1e-6 for a, b in zip(starts, want)),
            'period %s, iterations taking %s: started at %s, expected %s', s, durs, starts, want)
    wo = [d for d in durs if d > s]
    require(len(over) == len(wo) and all(abs(a - b) < 1e-6 for a, b in zip(over, wo)), 'overruns %s, expected %s', over, wo)


def interval_prompt():
    """terminating during the pause between iterations stops the thread well before the period is over"""
    t = recorder(IntervalTerminableThread, loop_time=0.5)(pick([100, '5m']))
    t.start()
    advance(pick([0.7, 3, 20.5]))
    t.terminate()
    t0 = clock()
    t.join()
    require(clock() - t0 <= 2.0001, 'took %s s to stop', clock() - t0)
    check_log(t.log)
    require([x[0] for x in t.log].count('loop') == 1, 'iterations %s', t.log)


def safe_sleep():
    dur = pick([0, -1, 1, 5, 7.5])
    wake = pick([None, 1, 3])
    term = pick([None, 0, 0.5, 3.2])
    res = []

    class T(TerminableThread):
        def loop(self):
            t0 = clock()
            try:
                self.safe_sleep(dur, wake) if wake else self.safe_sleep(dur)
                res.append(('slept', clock() - t0))
            except SystemExit:
                res.append(('exit', clock() - t0))
                raise
            self.terminate()
    t = T()
    t.start()
    if term is not None:
        advance(term)
        t.terminate()
    t.join()
    if not res:
        require(term == 0, 'never slept')
        return
    require(len(res) == 1, 'several iterations')
    w = wake or 2
    if term is None or term > max(dur, 0):
        require(res[0][0] == 'slept' and abs(res[0][1] - max(dur, 0)) < 1e-6, 'sleep of %s: %s', dur, res)
    elif term == dur or dur <= 0:
        pass
    else:
        require(res[0][0] == 'exit', 'terminated after %s of %s: %s', term, dur, res)
        require(res[0][1] <= min(term + w, dur) + 1e-6, 'terminated after %s, woke at %s', term, res)


def safe_wait():
    dur = pick([1, '5s', 7.5])
    d = {'5s': 5}.get(dur, dur)
    wake = pick([None, '1s', 3])
    dr = pick([False, True])
    what, at = pick([('none', None), ('term', 0.5), ('term', 3.2), ('notify', 0.5), ('notify', 3.2)])
    res = []
    c = Condition()

    class T(TerminableThread):
        def loop(self):
            t0 = clock()
            kw = {}
            if wake:
                kw['wake_up_each'] = wake
            if dr:
                kw['dont_raise'] = True
            try:
                self.safe_wait_condition(c, dur, **kw)
                res.append(('ok', clock() - t0))
            except WouldWaitMore:
                res.append(('late', clock() - t0))
            except SystemExit:
                res.append(('exit', clock() - t0))
                raise
            self.terminate()
    t = T()
    t.start()
    if at:
        advance(at)
        if what == 'notify':
            c.notify_all()
        else:
            t.terminate()
    t.join()
    require(len(res) == 1, 'several iterations')
    k, took = res[0]
    w = {'1s': 1, 3: 3}.get(wake, 2)
    if what == 'none' or at > d:
        require(k == ('ok' if dr else 'late') and abs(took - d) < 1e-6, 'wait of %s: %s', d, res)
    elif what == 'notify':
        require(k == 'ok' and abs(took - at) < 1e-6, 'notified at %s: %s', at, res)
    else:
        if (at // w + 1) * w >= d - 1e-9:
            require(took <= d + 1e-6, 'terminated at %s: %s', at, res)
        else:
            require(k == 'exit' and took <= at + w + 1e-6, 'terminated at %s: %s', at, res)


# ------------------------------------------------------------------ single start
def single_start():
    runs = []

    def work(*a, **k):
        pause()
        runs.append((a, k))
    t = SingleStartThread(target=work, args=(1,), kwargs={'b': 2})

    def start():
        r = t.start()
        require(r is t, 'start() returned %r', r)
        return 1
    ok(par(start, start))
    t.join()
    start()
    require(runs == [((1,), {'b': 2})], 'the work ran %s times', len(runs))
    require(not t.is_alive(), 'alive')


# ------------------------------------------------------------------ bogus thread
def bogus_fresh():
    return [BogusTerminableThread(), False, False]


def bogus_apply(ctx, op):
    t, started, term = ctx
    if op == 'start':
        try:
            t.start()
            require(not started and not term, 'started twice or after termination')
            ctx[1] = True
        except RuntimeError:
            require(started or term, 'refused to start')
    elif op == 'terminate':
        t.terminate()
        ctx[2] = True
    elif op == 'join':
        t0 = clock()
        try:
            t.join(2)
            require(term, 'joined a running thread')
        except RuntimeError:
            require(not started and not term, 'refused to join')
        except WouldWaitMore:
            require(started and not term, 'join of a terminated thread')
        if started:
            try:
                t.join(timeout=0)
                require(term, 'did not wait for a running thread at all, and did not say so')
            except WouldWaitMore:
                require(not term, 'join of a terminated thread')
    require(bool(t.is_alive()) == (ctx[1] and not ctx[2]), 'is_alive() is %s', t.is_alive())
    require(t.started == ctx[1] and t.terminated == ctx[2], 'flags')


def bogus_join():
    """join() without a timeout waits until terminated"""
    t = BogusTerminableThread()
    t.start()
    to = pick([None, 30, 3])

    def term():
        advance(5)
        t.terminate()

    def join():
        try:
            t.join() if to is None else t.join(to)
            return 'ok'
        except WouldWaitMore:
            return 'late'
    r = ok(par(join, term))
    require(r[0] == ('late' if to == 3 else 'ok'), 'join(%s): %s', to, r)


# ------------------------------------------------------------------ collection
def collection():
    n = pick([0, 1, 3])
    build = pick(['init', 'gen', 'class', 'add', 'plus', 'iadd'])
    made = []

    class T(recorder(TerminableThread)):
        def __init__(self, i, **kw):
            super().__init__(**kw)
            self.i = i
            made.append(self)
    if build == 'class':
        tc = ThreadCollection.from_class(T, range(n), daemon=True)
        require(tc.daemon == bool(n), 'keyword not passed')
    else:
        ts = [T(i) for i in range(n)]
        if build == 'init':
            tc = ThreadCollection(ts)
        elif build == 'gen':
            tc = ThreadCollection(x for x in ts)
        elif build == 'add':
            tc = ThreadCollection()
            for x in ts:
                require((tc.append(x) if x.i % 2 else tc.add(x)) is tc, 'add does not return self')
        elif build == 'plus':
            a = ThreadCollection(ts[:1])
            tc = a + ThreadCollection(ts[1:2]) + ts[2:]
            require(len(a) == min(n, 1), 'operand of + changed')
        else:
            tc = q = ThreadCollection()
            for x in ts[:1]:
                tc += x
            tc += ThreadCollection(ts[1:2])
            tc += iter(ts[2:])
            require(tc is q, 'not in place')
        tc.daemon = False
        require(all(x.daemon is False for x in ts), 'daemon not set')
    require(list(tc) == made and len(tc) == n, 'members')
    plain = pick([None, 'last', 'first'])
    if plain is not None:
        plain_thread = threading.Thread(target=advance, args=(4,))
        if plain == 'last':
            tc.append(plain_thread)
        else:
            tc = ThreadCollection([plain_thread]) + tc
    require(tc.is_alive() is False, 'alive before start')
    require(tc.start() is tc, 'start()')
    require(all(x.is_alive() for x in tc), 'not all started')
    require(tc.is_alive() == bool(len(tc)), 'is_alive')
    if len(tc):
        try:
            tc.join(timeout=1)
        except WouldWaitMore:
            pass
        else:
            raise Violation('join of running threads succeeded')
    require(tc.terminate() is tc, 'terminate()')
    require(all(x.terminating for x in made), 'not all terminated')
    tc.join() if pick([0, 1]) else tc.join(timeout=10)
    require(not any(x.is_alive() for x in tc) and not tc.is_alive(), 'alive after join')
    for x in made:
        check_log(x.log)


def collection_one_alive():
    """join with a timeout reports if and only if a member is still running, whichever it is"""
    n = 3
    bad = pick([None, 0, 1, 2])
    ts = [threading.Thread(target=advance, args=(50 if i == bad else 0.5,)) for i in range(n)]
    tc = ThreadCollection(ts).start()
    try:
        tc.join(timeout=3)
        require(bad is None, 'member %s is still running', bad)
    except WouldWaitMore:
        require(bad is not None, 'raised although all stopped')
    require(tc.is_alive() == (bad is not None), 'is_alive')
    tc.join()
    require(not tc.is_alive(), 'alive')


def collection_misc():
    """adding in every way, daemon flags, the collection of the running threads"""
    ts = [threading.Thread(target=advance, args=(5,), daemon=pick([False, True])) for _ in range(3)]
    flags = [t.daemon for t in ts]
    tc = ThreadCollection(ts[:1])
    how = pick(['thread', 'generator', 'tuple'])
    if how == 'thread':
        tc2 = tc + ts[1] + ts[2]
    elif how == 'generator':
        tc2 = tc + (t for t in ts[1:])
    else:
        tc2 = tc + tuple(ts[1:])
    require(list(tc) == ts[:1] and len(tc) == 1, 'operand of + changed')
    require(list(tc2) == ts and len(tc2) == 3, 'members')
    require(tc2.daemon is any(flags) and tc.daemon is flags[0], 'daemon of %s is %s', flags, tc2.daemon)
    tc2.daemon = how == 'thread'
    require([t.daemon for t in ts] == [how == 'thread'] * 3, 'daemon set')
    started = ts[:2]
    for t in started:
        t.start()
    for main in (True, False):
        running = ThreadCollection.get_currently_running(include_main_thread=main)
        require(isinstance(running, ThreadCollection), 'type')
        require([t for t in ts if t in list(running)] == started, 'running: %s', list(running))
        want = set(threading.enumerate()) - (set() if main else {threading.main_thread()})
        require(set(running) == want and len(running) == len(want), 'running: %s, should be %s', list(running), want)
    require(set(ThreadCollection.get_currently_running()) == set(threading.enumerate()), 'by default')
    ThreadCollection(started).join()
    require(not any(t in list(ThreadCollection.get_currently_running()) for t in ts), 'stopped threads listed')


class ColCtx:
    def __init__(self):
        self.ts = [threading.Thread(target=int) for _ in range(3)]
        self.lists = {'ts0': self.ts[:1]}       # what was passed in, whose changes do not matter later
        self.real = [ThreadCollection(), ThreadCollection(self.lists['ts0'])]
        self.model = [[], self.ts[:1]]


def col_ops(c):
    return [('add', 0, 1), ('append', 1, 2), ('iadd', 0, 1), ('iadd', 1, 0), ('iadd', 0, 't'), ('iadd', 1, 'list'), ('iadd', 0, 'gen'),
            ('plus', 0, 1), ('plus', 1, 't'), ('plus', 0, 'list'), ('caller',)]


def col_apply(c, op):
    if op[0] == 'caller':
        c.lists['ts0'].append(c.ts[2])
        return
    me = c.real[op[1]]
    if op[0] in ('add', 'append'):
        require(getattr(me, op[0])(c.ts[op[2]]) is me, 'does not return itself')
        c.model[op[1]].append(c.ts[op[2]])
    else:
        o = op[2]
        theirs = [c.ts[2]] if o == 't' else c.ts[1:] if o in ('list', 'gen') else c.model[o]
        other = c.ts[2] if o == 't' else c.ts[1:] if o == 'list' else iter(c.ts[1:]) if o == 'gen' else c.real[o]
        if op[0] == 'iadd':
            got = me
            got += other
            require(got is me, 'not in place')
            c.model[op[1]] = c.model[op[1]] + theirs
        else:
            got = me + other
            require(list(got) == c.model[op[1]] + theirs, 'sum')
            got.add(c.ts[0])
    for r, m in zip(c.real, c.model):
        require(list(r) == m and len(r) == len(m), 'members')


def jobs(tier):
    q = tier == 'quick'
    o = ['concurrent/thread.py']
    oc = ['concurrent/thread_collection.py']
    b = 2 if q else 3
    return [
        SchedJob('lifecycle-plain', lifecycle('plain'), bound=b, only=o),
        SchedJob('lifecycle-interval', lifecycle('interval'), bound=1 if q else 2, only=o),
        SchedJob('before-start', before_start, bound=b, only=o),
        SchedJob('failing', failing, bound=1, only=o),
        SchedJob('context', context, bound=1 if q else 2, only=o),
        SchedJob('self-terminate', self_terminate, bound=1 if q else 2, only=o),
        SchedJob('interval-period', interval_period, bound=0 if q else 1, only=o),
        SchedJob('interval-prompt', interval_prompt, bound=1 if q else 2, only=o),
        SchedJob('safe-sleep', safe_sleep, bound=1, only=o),
        SchedJob('safe-wait', safe_wait, bound=1, only=o),
        SchedJob('single-start', single_start, bound=b, only=o),
        SchedJob('bogus-join', bogus_join, bound=1, only=o),
        SeqJob('bogus', bogus_fresh, lambda c: ['start', 'terminate', 'join'], bogus_apply, depth=4 if q else 6),
        SchedJob('collection', collection, bound=0 if q else 1, only=oc),
        SeqJob('collection-sequences', ColCtx, col_ops, col_apply, depth=3 if q else 4, dedupe=False),
        SchedJob('collection-misc', collection_misc, bound=0, only=oc),
        SchedJob('collection-one-alive', collection_one_alive, bound=1, only=oc),
    ]
