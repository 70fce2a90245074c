"""
C07: satella.coding.concurrent.Timer on the virtual clock. Every execution runs in a forked child, as the dispatcher is
a process-wide singleton.
"""
import threading

from mc.jobs import SchedJob
from mc.sched import require, par, spawn, pause, pick, Violation, clock, advance
from satella.coding.concurrent import Timer

EPS = 1e-3
LATE = 1.001        # "up to a second of delay before the timer is picked up"


def ok(rs):
    for k, v in rs:
        if k == 'exc':
            raise v
    return [v for k, v in rs]


class Boom(Exception):
    pass


def check_fired(fired, due):
    """fired: [(name, clock)], due: {name: (earliest, latest)}"""
    names = [n for n, _ in fired]
    for n, (a, b) in due.items():
        require(names.count(n) == 1, 'timer %s fired %s times (%s)', n, names.count(n), fired)
    for n, t in fired:
        require(n in due, 'timer %s fired although cancelled (%s)', n, fired)
        a, b = due[n]
        require(t >= a - 1e-9, 'timer %s fired at %s, before %s', n, t, a)
        require(t <= b + EPS, 'timer %s fired only at %s, due at %s', n, t, a)


def one():
    fired = []
    iv = pick([0, 0.5, 1, '2s', 3.5])
    sep = pick([False, True])
    cancel = pick([None, 'before-start', 0.25, 1.75])
    s = {'2s': 2}.get(iv, iv)

    def f(*a, **k):
        fired.append(((a, tuple(k.items())), clock()))
    shape = pick(['none', 'args', 'kwargs', 'both'])
    kw = {}
    a, k = (), ()
    if shape in ('args', 'both'):
        kw['args'] = [2, 1, 2]
        a = (2, 1, 2)
    if shape in ('kwargs', 'both'):
        kw['kwargs'] = {'x': 3}
        k = (('x', 3),)
    if sep:
        kw['spawn_separate'] = True
    t = Timer(iv, f, **kw)
    if cancel == 'before-start':
        t.cancel()
    t0 = clock()
    t.start()
    if cancel is not None and cancel != 'before-start':
        advance(cancel)
        t.cancel()
        t1 = clock()
    advance(7)
    name = (a, k)
    if cancel is None:
        check_fired(fired, {name: (s, s + LATE)})
    elif cancel == 'before-start' or cancel < s:
        check_fired(fired, {})
    elif cancel >= s + LATE:
        check_fired(fired, {name: (s, s + LATE)})
    else:
        if fired:
            check_fired(fired, {name: (s, s + LATE)})
            require(fired[0][1] <= t1 + EPS, 'fired after it was cancelled')
    if cancel is not None:
        t.cancel()


def several():
    """three timers started in any order by one thread; one may raise or be cancelled"""
    fired = []
    ivs = pick([(1, 1, 1), (3, 2, 1), (1, 2, 3), (2, 0.25, 2), (0, 0, 2), (0.5, 4, 0.75)])
    kind = pick(['plain', 'raise0', 'raise1', 'base0', 'cancel0', 'cancel1', 'cancel2', 'sep', 'restart'])
    ts = []

    def mk(i):
        def f():
            fired.append((i, clock()))
            if kind == 'raise%d' % i:
                raise Boom()
            if kind == 'restart' and i == 0 and sum(1 for n, _ in fired if n == 0) == 1:
                ts.append(Timer(1, lambda: fired.append(('again', clock()))))
                ts[-1].start()
        return f
    ts = [Timer(iv, mk(i), spawn_separate=kind == 'sep') for i, iv in enumerate(ivs)]
    for t in ts[:3]:
        t.start()
    gone = None
    if kind.startswith('cancel'):
        gone = int(kind[-1])
        ts[gone].cancel()
        if ivs[gone] == 0:
            return
    advance(8)
    due = {i: (iv, iv + LATE) for i, iv in enumerate(ivs) if i != gone}
    if kind == 'restart':
        t0 = [t for n, t in fired if n == 0]
        require(len(t0) == 1, 'timer fired %s times', len(t0))
        due['again'] = (t0[0] + 1, t0[0] + 1 + LATE)
    check_fired(fired, due)
    if kind != 'sep':
        order = [i for i, _ in fired if i != 'again']
        keyed = [ivs[i] for i in order]
        require(keyed == sorted(keyed), 'fired out of order: %s, intervals %s', order, ivs)


def two_starters(same):
    """two threads, racing also for the creation of the dispatcher"""
    def body():
        fired = []
        a, b = (1, 1) if same else pick([(2, 1), (1, 2), (0, 3)])
        ta = Timer(a, lambda: fired.append(('a', clock())))
        tb = Timer(b, lambda: fired.append(('b', clock())))
        ok(par(ta.start, tb.start))
        advance(6)
        check_fired(fired, {'a': (a, a + LATE), 'b': (b, b + LATE)})
    return body


def start_while_dispatching():
    """a timer is started while the dispatcher is busy with others due"""
    fired = []
    ta = Timer(1, lambda: (fired.append(('a', clock())), pause()))
    tb = Timer(1.00000001, lambda: (fired.append(('b', clock())), pause()))
    tc = Timer(pick([0, 0.5, 2]), lambda: fired.append(('c', clock())))
    td = Timer(5, lambda: fired.append(('d', clock())))
    ta.start()
    tb.start()
    td.start()
    advance(1)
    t0 = clock()
    tc.start()
    advance(8)
    check_fired(fired, {'a': (1, 1 + LATE), 'b': (1, 1 + LATE), 'c': (t0 + tc.interval, t0 + tc.interval + LATE),
                        'd': (5, 5 + LATE)})


def start_while_popping():
    """a timer is started the moment another has fired, with more of them due in the dispatcher's heap"""
    fired = []
    go = threading.Event()
    ts = [Timer(iv, lambda i=i: (fired.append((i, clock())), go.set())) for i, iv in enumerate((1, 1, 1, 4))]
    for t in ts:
        t.start()
    go.wait()
    t0 = clock()
    iv = pick([0, 0.5, 2])
    tc = Timer(iv, lambda: fired.append(('c', clock())))
    tc.start()
    advance(8)
    due = {0: (1, 1 + LATE), 1: (1, 1 + LATE), 2: (1, 1 + LATE), 3: (4, 4 + LATE), 'c': (t0 + iv, t0 + iv + LATE)}
    check_fired(fired, due)


def cancel_race():
    """cancelled by another thread around its due time: fires before the cancellation or never"""
    fired = []
    cancelled = []
    t = Timer(1, lambda: fired.append(clock()))
    other = Timer(1, lambda: fired.append('o'))
    t.start()
    other.start()

    def canc():
        advance(pick([0.5, 1]))
        t.cancel()
        cancelled.append(len([x for x in fired if x != 'o']))
        return clock()
    at = ok(par(canc))[0]
    advance(5)
    n = len([x for x in fired if x != 'o'])
    require(n <= 1 and fired.count('o') == 1, 'fired %s', fired)
    if at < 1:
        require(n == 0, 'fired although cancelled in time')


def jobs(tier):
    q = tier == 'quick'
    o = ['concurrent/timer.py', 'heaps/', 'structures/singleton.py']
    return [
        SchedJob('one', one, bound=0 if q else 1, only=['concurrent/timer.py'], fork=True),
        SchedJob('several', several, bound=0 if q else 1, only=['concurrent/timer.py'], fork=True),
        SchedJob('two-starters', two_starters(False), bound=1 if q else 2, only=o, fork=True),
        SchedJob('two-starters-same', two_starters(True), bound=1 if q else 2, only=o, fork=True),
        SchedJob('start-while-dispatching', start_while_dispatching, bound=1 if q else 2, only=o, fork=True),
        SchedJob('start-while-popping', start_while_popping, bound=1 if q else 2, only=o, fork=True),
        SchedJob('cancel-race', cancel_race, bound=1 if q else 2, only=o, fork=True),
    ]
