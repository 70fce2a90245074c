"""
C10: Condition, DeferredValue, MonitorSet.insert_and_check, sync_threadpool, parallel_construct, parallel_execute.
"""
from concurrent.futures import ThreadPoolExecutor, Future
from queue import Queue
from threading import Event

from mc.jobs import SchedJob, EnumJob
from mc.sched import require, par, spawn, pause, pick, Violation, clock, advance
from satella.coding import queue_iterator
from satella.coding.concurrent import (Condition, DeferredValue, MonitorSet, sync_threadpool, parallel_construct,
                                       parallel_execute, run_as_future, call_in_separate_thread)
from satella.coding.concurrent.futures import ExecutorWrapper
from satella.exceptions import ResourceLocked, WouldWaitMore


class Boom(Exception):
    pass


def ok(rs):
    for k, v in rs:
        if k == 'exc':
            raise v
    return [v for k, v in rs]


# ---------------------------------------------------------------- Condition
def cond_notify():
    """n waiters asleep, k of them notified: exactly k wake"""
    c = Condition()
    how, woken = pick([('one', 1), ('n2', 2), ('all', 3), ('n0', 0), ('n5', 3)])
    timed = how != 'n2'

    def waiter():
        try:
            if timed:
                c.wait(10)
            else:
                c.wait('10s')
        except WouldWaitMore:
            return 'late', clock()
        return 'woken', clock()

    def notifier():
        advance(1)
        if how == 'one':
            c.notify()
        elif how == 'all':
            c.notify_all()
        else:
            c.notify(int(how[1:]))
    r = ok(par(waiter, waiter, waiter, notifier))[:3]
    require(sum(1 for x in r if x == ('woken', 1)) == woken, 'notified %s, outcome %s', how, r)
    require(all(x in (('woken', 1), ('late', 10)) for x in r), 'outcome %s', r)


def cond_untimed():
    c = Condition()
    how = pick(['all', 'notify2'])

    def notifier():
        advance(1)
        c.notify_all() if how == 'all' else c.notify(2)
    ok(par(c.wait, c.wait, notifier))
    require(clock() == 1, 'woken at %s', clock())


def cond_dont_raise():
    c = Condition()
    to = pick([0, 1, -5, '2s', 0.5])
    dr = pick([False, True])
    t = {'2s': 2, -5: 0}.get(to, to)
    try:
        c.wait(to, dont_raise=dr)
    except WouldWaitMore:
        require(not dr, 'raised although told not to')
    else:
        require(dr, 'did not raise on timeout')
    require(abs(clock() - t) < 1e-6, 'timeout %s took %s', to, clock())
    # the condition is usable by others afterwards: nothing is left locked
    w = spawn(c.wait, 5)
    advance(1)
    c.notify()
    w.value()
    require(abs(clock() - t - 1) < 1e-6, 'woken at %s', clock())


# ---------------------------------------------------------------- DeferredValue
def deferred():
    d = DeferredValue()
    meth = pick(['value', 'result'])
    to = pick([None, 5])
    val = pick([1, None, 0])

    def setter(v):
        def go():
            try:
                d.set_value(v)
                return v
            except ValueError:
                return 'refused'
        return go

    def reader():
        return getattr(d, meth)(to) if to is not None else getattr(d, meth)()
    r = ok(par(reader, setter(val), setter(2)))
    won = [x for x in r[1:] if x != 'refused']
    require(len(won) == 1, 'both setters succeeded or both failed: %s', r)
    require(r[0] == won[0], 'reader got %r, value is %r', r[0], won[0])
    require(d.value() == won[0] and d.result(1) == won[0], 'value changed')
    try:
        d.set_value(9)
    except ValueError:
        pass
    else:
        raise Violation('set twice')
    require(clock() == 0, 'reader woken late')


def deferred_timeout():
    d = DeferredValue()
    at, to = pick([(1, 2), (2, 1), (None, 1), (None, 0)])

    def reader():
        try:
            return 'ok', d.value(to), clock()
        except WouldWaitMore:
            return 'late', None, clock()

    def setter():
        if at is not None:
            advance(at)
            d.set_value(7)
    r = ok(par(reader, reader, setter))[:2]
    for x in r:
        require(x == (('ok', 7, at) if at is not None and at < to else ('late', None, to)), 'reader: %s', x)
    if at is not None:
        require(d.value(0) == 7, 'value lost')


# ---------------------------------------------------------------- MonitorSet
def insert_check():
    s = MonitorSet([1]) if pick([0, 1]) else MonitorSet()
    had = 1 in s
    r = ok(par(lambda: s.insert_and_check(1), lambda: s.insert_and_check(1), lambda: s.insert_and_check(2)))
    require(r[:2].count(True) == (0 if had else 1), 'inserted by %s of two', r[:2].count(True))
    require(r[2] is True, 'other item refused')
    require(s == {1, 2}, 'content %s', set(s))
    require(s.insert_and_check(1) is False, 'inserted twice')


def cond_locked():
    """somebody keeps the lock of a condition: a waiter gives up on time"""
    c = Condition()
    hold, to, dr = pick([1, 4]), pick([0, 2, '2s']), pick([False, True])
    limit = 2 if to else 0

    def holder():
        with c:
            advance(hold)

    def waiter():
        advance(0.5)
        try:
            c.wait(to, dont_raise=dr)
        except ResourceLocked:
            return 'locked', clock()
        except WouldWaitMore:
            return 'late', clock()
        return 'over', clock()
    _, (how, at) = ok(par(holder, waiter))
    require(abs(at - 0.5 - limit) < 1e-6, 'a timeout of %s ended at %s', to, at)
    want = 'locked' if hold >= 0.5 + limit else 'over' if dr else 'late'
    require(how == want, 'waiting %s for a lock held until %s: %s', to, hold, how)
    with c:         # nobody kept the lock
        pass
    w = spawn(c.wait, 5)
    advance(1)
    c.notify()
    w.join()
    require(clock() < 6, 'condition unusable')


def cond_inside():
    """waiting by a thread that has already entered the condition: the others can enter it meanwhile, none after it's woken"""
    c = Condition()
    state = {'in': 0, 'notified': False}
    way = pick(['notify', 'notify_all', 'notifyAll'])
    timeout = pick([None, 50])

    def enter():
        require(state['in'] == 0, 'two threads inside')
        state['in'] += 1
        pause()
        require(state['in'] == 1, 'two threads inside')
        state['in'] -= 1

    def waiter():
        with c:
            enter()
            if not state['notified']:
                c.wait(timeout)
            require(state['notified'], 'woken by nobody')
            enter()

    def notifier():
        with c:
            enter()
            state['notified'] = True
            getattr(c, way)()
            enter()
        with c:
            enter()
    ok(par(waiter, notifier))
    require(clock() == 0, 'took until %s', clock())


def separate_thread_cancelled():
    """a call in a separate thread: cancelled before it starts, or done, never both"""
    calls = []
    delay = pick([0, 3])

    @call_in_separate_thread(delay=delay)
    def fun(a, k=0):
        calls.append((a, k, clock()))
        return a + k
    f = fun(1, k=2)
    t = f.thread
    cancelled = f.cancel()
    t.join(10)
    require(not t.is_alive(), 'the thread goes on')
    if cancelled:
        require(not calls and f.cancelled(), 'called although cancelled')
    else:
        require(f.result(timeout=0) == 3 and calls == [(1, 2, delay)], 'called %s', calls)
    return cancelled


# ---------------------------------------------------------------- sync_threadpool
def sync_pool(workers):
    def body():
        wrapped = pick([False, True])
        max_wait = pick([None, 50])
        slow = pick([0, 1])
        tpe = ThreadPoolExecutor(max_workers=workers)
        done = []

        def job(i):
            if slow:
                advance(i)
            pause()
            done.append(i)
        for i in range(workers + 1):
            tpe.submit(job, i)
        sync_threadpool(ExecutorWrapper(tpe) if wrapped else tpe, max_wait=max_wait)
        require(len(done) == workers + 1, 'returned while only %s of %s jobs were done', len(done), workers + 1)
        f = tpe.submit(lambda: 42)
        require(f.result(timeout=100) == 42, 'pool unusable')
        tpe.shutdown()
        return wrapped, slow
    return body


def sync_pool_long():
    """a job that takes very long compared to the others"""
    max_wait = pick([None, 5000])
    long = pick([61, 200])
    workers = pick([1, 2, 3])
    tpe = ThreadPoolExecutor(max_workers=workers)
    done = []

    def job(i):
        advance(long if i == 0 else 1)
        done.append(i)
    for i in range(workers):
        tpe.submit(job, i)
    sync_threadpool(tpe, max_wait=max_wait)
    require(sorted(done) == list(range(workers)), 'returned while only %s were done', done)
    require(tpe.submit(lambda: 42).result(timeout=100) == 42, 'pool unusable')
    tpe.shutdown()


def sync_pool_timeout(workers):
    """a worker is busy for longer than max_wait: WouldWaitMore, and the pool stays usable"""
    def body():
        tpe = ThreadPoolExecutor(max_workers=workers)
        t0 = clock()
        busy = pick([30, 60])
        tpe.submit(advance, busy)
        advance(1)
        try:
            sync_threadpool(tpe, max_wait=5)
        except WouldWaitMore:
            pass
        else:
            raise Violation('returned although a worker is busy')
        require(clock() - t0 < 15, 'timed out only after %s', clock() - t0)
        fs = [tpe.submit(lambda: 1) for _ in range(workers + 1)]
        for f in fs:
            require(f.result(timeout=200) == 1, 'pool unusable after a timeout')
        tpe.shutdown()
    return body


def drain():
    """queue_iterator from several threads: each item to exactly one of them, nobody hangs or fails"""
    q = Queue()
    n = pick([1, 2, 3])
    for i in range(n):
        q.put(i)
    rs = par(*[lambda: list(queue_iterator(q))] * 2)
    got = ok(rs)
    require(sorted(got[0] + got[1]) == list(range(n)) and q.qsize() == 0, 'consumers got %s of %s items', got, n)
    require(all(g == sorted(g) for g in got), 'a consumer got items out of order: %s', got)


# ---------------------------------------------------------------- parallel_*
def construct():
    n = pick([0, 1, 3])
    workers = pick([1, 2])
    bad = pick([None] + list(range(n)))
    calls = []

    def f(x):
        calls.append(x)
        pause()
        if x == bad:
            raise Boom(x)
        return None if x == 1 else x * 10
    with ThreadPoolExecutor(max_workers=workers) as tpe:
        try:
            r = parallel_construct(iter(range(n)), f, tpe)
        except Boom as e:
            require(bad is not None and e.args == (bad,), 'wrong failure')
        else:
            require(bad is None, 'failure lost')
            require(r == [x * 10 for x in range(n) if x != 1], 'result %s', r)
            require(sorted(calls) == list(range(n)), 'called with %s', calls)
    require(len(set(calls)) == len(calls), 'applied twice: %s', calls)


def execute():
    n = pick([0, 1, 2, 3])
    bad = pick([None] + list(range(n)))
    calls = []
    wk = pick(['nokw', 'kw'])

    @run_as_future
    def f(x, k=0):
        calls.append((x, k))
        if x == bad:
            raise Boom(x)
        return x * 10 + k
    if wk == 'kw':
        out = list(parallel_execute(f, [(i,) for i in range(n)], [{'k': i} for i in range(n)]))
    else:
        out = list(parallel_execute(f, [(i,) for i in range(n)]))
    require(len(out) == n, 'results %s', out)
    for i, v in enumerate(out):
        if i == bad:
            require(isinstance(v, Boom) and v.args == (i,), 'expected the exception, got %r', v)
        else:
            require(v == i * 10 + (i if wk == 'kw' else 0), 'result %s', out)
    require(sorted(calls) == [(i, i if wk == 'kw' else 0) for i in range(n)], 'called with %s', calls)


def concurrently():
    """no element waits for another: the first one needs the last one to be running"""
    what = pick(['execute', 'construct'])
    n = pick([2, 3])
    go = Event()

    def f(x):
        if x == n - 1:
            go.set()
        elif not go.wait(timeout=100):
            raise Boom(x)
        return x * 10
    if what == 'execute':
        out = list(parallel_execute(run_as_future(f), [(i,) for i in range(n)]))
    else:
        with ThreadPoolExecutor(max_workers=n) as tpe:
            out = parallel_construct(range(n), f, tpe)
    require(out == [i * 10 for i in range(n)], 'the calls did not run in parallel: %s', out)


def execute_twice():
    """two threads using parallel_execute at once do not disturb each other"""
    def f(x, **kw):
        require(kw == {}, 'keyword arguments appeared: %s', kw)
        fut = Future()
        fut.set_result(x)
        return fut

    def go(a):
        return lambda: list(parallel_execute(f, [(a,), (a + 1,)]))
    r = ok(par(go(1), go(5)))
    require(r == [[1, 2], [5, 6]], 'results %s', r)


def jobs(tier):
    q = tier == 'quick'
    oc = ['concurrent/thread.py']
    b = 2 if q else 3
    return [
        SchedJob('cond-notify', cond_notify, bound=1 if q else 2, only=oc),
        SchedJob('cond-untimed', cond_untimed, bound=b, only=oc),
        SchedJob('cond-dont-raise', cond_dont_raise, bound=1, only=oc),
        SchedJob('cond-locked', cond_locked, bound=1, only=oc),
        SchedJob('cond-inside', cond_inside, bound=1, only=oc),
        SchedJob('separate-cancelled', separate_thread_cancelled, bound=2, only=oc),
        SchedJob('deferred', deferred, bound=b, only=['concurrent/value.py']),
        SchedJob('deferred-timeout', deferred_timeout, bound=b, only=['concurrent/value.py']),
        SchedJob('insert-check', insert_check, bound=b, only=['concurrent/monitor.py']),
        SchedJob('sync1', sync_pool(1), bound=1 if q else 2, only=['concurrent/sync.py']),
        SchedJob('sync2', sync_pool(2), bound=1, only=['concurrent/sync.py'], cap=None),
        SchedJob('sync-long', sync_pool_long, bound=0, only=['concurrent/sync.py'], max_steps=200000),
        SchedJob('sync-timeout1', sync_pool_timeout(1), bound=1, only=['concurrent/sync.py']),
        SchedJob('sync-timeout2', sync_pool_timeout(2), bound=1, only=['concurrent/sync.py']),
        SchedJob('drain', drain, bound=b, only=['coding/misc.py']),
        SchedJob('construct', construct, bound=1, only=['concurrent/list_processor.py']),
        SchedJob('execute', execute, bound=1, only=['concurrent/functions.py']),
        SchedJob('concurrently', concurrently, bound=0 if q else 1,
                 only=['concurrent/functions.py', 'concurrent/list_processor.py']),
        SchedJob('execute-twice', execute_twice, bound=b, only=['concurrent/functions.py', 'sequences/sequences.py']),
    ]
