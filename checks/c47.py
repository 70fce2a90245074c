"""
C47: MetrifiedThreadPoolExecutor behaves like the standard pool (the same scenarios run on the standard one too, which
validates the oracle), and times every task.
"""
import gc
import threading
from concurrent.futures import ThreadPoolExecutor, CancelledError, wait
from concurrent.futures.thread import BrokenThreadPool

from mc.jobs import SchedJob
from mc.sched import require, par, pick, pause, Violation, advance, now
from satella.instrumentation.metrics import getMetric
from satella.instrumentation.metrics.structures import MetrifiedThreadPoolExecutor


class Boom(Exception):
    pass


class Bye(BaseException):
    pass


def metrics():
    getMetric('').reset()
    return {'time_spent_waiting': getMetric('w', 'summary', quantiles=[1.0]),
            'time_spent_executing': getMetric('e', 'summary', quantiles=[1.0]),
            'waiting_tasks': getMetric('n', 'callable')}


def make(std, n, **kw):
    if std:
        return ThreadPoolExecutor(max_workers=n, **kw), None
    m = metrics()
    return MetrifiedThreadPoolExecutor(max_workers=n, **kw, **m), m


def value(metric, name):
    vs = [d.value for d in metric.to_metric_data().values if d.name == name]
    require(len(vs) == 1, 'reported %s times: %s', len(vs), name)
    return vs[0]


def close(a, b):
    return abs(a - b) < 1e-6


def timed(m, std, waited, executed, n):
    if std:
        return
    require(value(m['time_spent_waiting'], 'w.count') == n and value(m['time_spent_executing'], 'e.count') == n,
            'timed %s/%s tasks out of %s', value(m['time_spent_waiting'], 'w.count'),
            value(m['time_spent_executing'], 'e.count'), n)
    for met, nm, want in (('time_spent_waiting', 'w.sum', waited), ('time_spent_executing', 'e.sum', executed)):
        if want is not None:
            require(close(value(m[met], nm), want), '%s is %s, expected %s', met, value(m[met], nm), want)


def outcome(f):
    try:
        return 'ok', f.result(timeout=1000)
    except (Boom, Bye) as e:
        return type(e).__name__, e.args
    except CancelledError:
        return 'cancelled', None


def tasks(std):
    """tasks of every kind: each runs once, its future tells how it went, the pool survives, no more than max_workers"""
    def body():
        n = pick([1, 2])
        kinds = [pick(['ok', 'boom', 'bye']), pick(['ok', 'boom', 'bye']), 'ok']
        ex, m = make(std, n)
        runs, active, peak = [], [0], [0]

        def fn(i, k=None, *, extra=0):
            runs.append((i, extra))
            active[0] += 1
            peak[0] = max(peak[0], active[0])
            advance(2)
            active[0] -= 1
            if k == 'boom':
                raise Boom(i)
            if k == 'bye':
                raise Bye(i)
            return i * 10
        fs = [ex.submit(fn, i, k, extra=i) for i, k in enumerate(kinds)]
        outs = [outcome(f) for f in fs]
        want = [{'ok': ('ok', i * 10), 'boom': ('Boom', (i,)), 'bye': ('Bye', (i,))}[k] for i, k in enumerate(kinds)]
        require(outs == want, 'futures say %s, expected %s', outs, want)
        require(sorted(runs) == [(0, 0), (1, 1), (2, 2)], 'ran %s', runs)
        require(peak[0] == n, '%s tasks at a time on %s workers', peak[0], n)
        ex.shutdown(wait=True)
        timed(m, std, 6 if n == 1 else 2, 6, 3)
    return body


def submitters(std):
    """several threads submitting at once"""
    def body():
        ex, m = make(std, 2)
        runs = []

        def go(i):
            return ex.submit(lambda: (runs.append(i), i * 10)[1]),
        r = par(lambda: go(1), lambda: go(2))
        for k, v in r:
            if k == 'exc':
                raise v
        require([outcome(f) for k, v in r for f in v] == [('ok', 10), ('ok', 20)], 'futures')
        require(sorted(runs) == [1, 2], 'ran %s', runs)
        ex.shutdown(wait=True)
        timed(m, std, None, None, 2)
    return body


def reuse(std):
    """an idle worker is used rather than a new one started, and a busy one does not count as idle"""
    def body():
        ex, m = make(std, 3)
        names = []

        def f(t):
            names.append(threading.current_thread())
            advance(t)
        for _ in range(3):
            ex.submit(f, 1).result()
            advance(1)
        require(len(set(names)) == 1, '%s workers for tasks one after another', len(set(names)))
        t0 = now()
        fs = [ex.submit(f, 5) for _ in range(3)]
        wait(fs)
        require(close(now() - t0, 5), 'three tasks on three workers took %s', now() - t0)
        require(len(set(names)) == 3, '%s workers', len(set(names)))
        del names[:]
        ex.shutdown(wait=True)
    return body


def dropped(std):
    """an executor dropped with work pending still does that work, as a standard one does, and its threads end"""
    def body():
        n = pick([1, 2])
        ex, m = make(std, n)
        runs = []

        def fn(i):
            advance(1)
            runs.append(i)
            return i
        fs = [ex.submit(fn, i) for i in range(4)]
        when = pick(['at once', 'later', 'idle'])
        if when == 'later':
            advance(.5)
        elif when == 'idle':
            advance(10)
        threads = list(ex._threads)
        del ex
        gc.collect()
        for i, f in enumerate(fs):
            try:
                require(f.result(timeout=100) == i, 'result')
            except TimeoutError:
                raise Violation('task %d never done; dropped %s, done %s' % (i, when, runs))
        require(sorted(runs) == [0, 1, 2, 3], 'ran %s', runs)
        for t in threads:
            t.join(100)
            require(not t.is_alive(), 'a thread of an executor dropped %s never ends', when)
    return body


def shutdowns(std):
    def body():
        how = pick(['wait', 'nowait', 'with', 'cancel'])
        ex, m = make(std, 1)
        runs = []

        def fn(i):
            advance(1)
            runs.append(i)
            return i
        fs = [ex.submit(fn, i) for i in range(3)]
        advance(.5)
        if how == 'wait':
            ex.shutdown(wait=True)
        elif how == 'nowait':
            ex.shutdown(wait=False)
            require(len(runs) < 3, 'waited')
        elif how == 'cancel':
            ex.shutdown(wait=True, cancel_futures=True)
        else:
            with ex:
                pass
        if how != 'nowait':
            require(all(f.done() for f in fs), 'returned with tasks pending')
        for step in range(2):
            try:
                ex.submit(fn, 9)
            except RuntimeError:
                pass
            else:
                raise Violation('accepted a task after shutdown')
        outs = [outcome(f) for f in fs]
        if how == 'cancel':
            require(outs == [('ok', 0), ('cancelled', None), ('cancelled', None)], 'futures %s', outs)
            require(runs == [0], 'ran %s', runs)
        else:
            require(outs == [('ok', 0), ('ok', 1), ('ok', 2)] and runs == [0, 1, 2], 'futures %s, ran %s', outs, runs)
            ex.shutdown(wait=True)
            timed(m, std, 3, 3, 3)
    return body


def cancelling(std):
    """a cancelled task does not run, the ones behind it do"""
    def body():
        which = pick([1, 2])
        ex, m = make(std, 1)
        runs = []

        def fn(i):
            advance(1)
            runs.append(i)
            return i
        fs = [ex.submit(fn, i) for i in range(4)]
        advance(.5)
        require(fs[which].cancel(), 'a waiting task could not be cancelled')
        require(not fs[0].cancel(), 'a running task was cancelled')
        outs = [outcome(f) for f in fs]
        want = [('cancelled', None) if i == which else ('ok', i) for i in range(4)]
        require(outs == want, 'futures %s', outs)
        require(runs == [i for i in range(4) if i != which], 'ran %s', runs)
        ex.shutdown(wait=True)
    return body


def initializers(std):
    def body():
        how = pick(['fine', 'fails', 'args'])
        inits = []

        def init(*a):
            inits.append((threading.current_thread(), a))
            if how == 'fails':
                raise Boom('init')
        kw = {'initializer': init}
        if how == 'args':
            kw['initargs'] = (1, 2)
        ex, m = make(std, 2, **kw)
        runs = []

        def fn(i):
            pause()
            runs.append((i, threading.current_thread()))
            advance(1)
            return i
        fs = []
        for i in range(3):
            try:
                fs.append(ex.submit(fn, i))
            except BrokenThreadPool:
                require(how == 'fails', 'broken')
        for i, f in enumerate(fs):
            try:
                v = f.result(timeout=100)
            except BrokenThreadPool:
                require(how == 'fails', 'broken')
            except TimeoutError:
                raise Violation('task %d is never answered' % i)
            else:
                require(how != 'fails' and v == i, 'result %s with an initializer that %s', v, how)
        if how == 'fails':
            require(runs == [], 'ran despite the failed initializer')
            try:
                ex.submit(fn, 9)
            except BrokenThreadPool:
                pass
            else:
                raise Violation('a broken pool accepts tasks')
        else:
            require({t for i, t in runs} == {t for t, a in inits}, 'a worker without initialization')
            require(len({t for t, a in inits}) == len(inits), 'a worker initialized twice')
            require(all(a == ((1, 2) if how == 'args' else ()) for t, a in inits), 'initializer arguments')
        ex.shutdown(wait=True)
    return body


def names(std):
    def body():
        ex, m = make(std, 2, thread_name_prefix='pre')
        fs = [ex.submit(lambda: (advance(1), threading.current_thread().name)[1]) for _ in range(2)]
        got = sorted(f.result() for f in fs)
        require(got == ['pre_0', 'pre_1'], 'worker names %s', got)
        ex.shutdown(wait=True)
    return body


def mapping(std):
    def body():
        bad = pick([None, 0, 2])
        ex, m = make(std, 2)

        def f(x, y):
            advance(3 - x)
            if x == bad:
                raise Boom(x)
            return x, y
        it = ex.map(f, range(3), 'abc')
        out = []
        try:
            for v in it:
                out.append(v)
        except Boom as e:
            require(e.args == (bad,), 'failure')
        else:
            require(bad is None, 'failure lost')
        require(out == [(0, 'a'), (1, 'b'), (2, 'c')][:3 if bad is None else bad], 'map gave %s', out)
        ex.shutdown(wait=True)
    return body


def waiting():
    """the waiting metric tells the queue length at every moment; waiting times are those of each task"""
    m = metrics()
    n = pick([1, 2])
    ex = MetrifiedThreadPoolExecutor(max_workers=n, **m)
    fs = [ex.submit(advance, 2) for _ in range(4)]
    seen = []
    for _ in range(5):
        advance(1)
        seen.append(value(m['waiting_tasks'], 'n'))
        require(seen[-1] == ex.get_queue_length(), 'queue length')
        advance(1)
    wait(fs)
    require(seen == ([3, 2, 1, 0, 0] if n == 1 else [2, 0, 0, 0, 0]), 'waiting %s', seen)
    ex.shutdown(wait=True)
    timed(m, False, 0 + 2 + 4 + 6 if n == 1 else 4, 8, 4)
    require(close(value(m['time_spent_executing'], 'e'), 2), 'longest execution')
    require(close(value(m['time_spent_waiting'], 'w'), 6 if n == 1 else 2), 'longest wait')


def no_metrics():
    """every metric is optional"""
    m = metrics()
    keep = pick([(), ('time_spent_waiting',), ('time_spent_executing',), ('waiting_tasks',)])
    ex = MetrifiedThreadPoolExecutor(1, **{k: m[k] for k in keep})
    require([ex.submit(lambda: (advance(1), i)[1]).result() for i in range(3)] == [0, 1, 2], 'results')
    ex.shutdown(wait=True)
    if 'time_spent_executing' in keep:
        require(close(value(m['time_spent_executing'], 'e.sum'), 3), 'timed')


def jobs(tier):
    q = tier == 'quick'
    only = ['metrics/structures/threadpool.py']
    out = []
    for fn, b in ((tasks, 0), (submitters, 1), (reuse, 0), (dropped, 1), (shutdowns, 1), (cancelling, 1), (initializers, 1),
                  (names, 0), (mapping, 0)):
        out.append(SchedJob(fn.__name__, fn(False), bound=b if q else b + 1, only=only, fork=False))
        out.append(SchedJob(fn.__name__ + '-standard', fn(True), bound=0, only=['nothing']))
    out.append(SchedJob('waiting', waiting, bound=0 if q else 1, only=only))
    out.append(SchedJob('no-metrics', no_metrics, bound=0 if q else 1, only=only))
    return out
