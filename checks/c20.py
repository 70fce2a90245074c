"""
C20: Singleton, SingletonWithRegardsTo, memoize, cache_memoize.
"""
import gc
import itertools
import threading
import time

from mc.jobs import SeqJob, EnumJob, SchedJob
from mc.sched import require, par, pick, Violation, advance
from satella.coding.decorators import memoize, cache_memoize
from satella.coding.structures import Singleton, SingletonWithRegardsTo, get_instances_for_singleton, delete_singleton_for


class Boom(Exception):
    pass


def ok(rs):
    for k, v in rs:
        if k == 'exc':
            raise v
    return [v for k, v in rs]


# ------------------------------------------------------------------ singletons, sequentially
ARGS = [(), (1,), (2,), (1, 2), (2, 1), ('1',), (None,), (None, None)]


class SCtx:
    def __init__(self, n, weak):
        ctx = self
        self.n, self.weak = n, weak
        self.runs = []
        self.fail = False

        def init(obj, *args, **kw):
            ctx.runs.append(args)
            if ctx.fail:
                raise Boom()
            obj.args = args
            obj.kw = kw

        class Base:
            def __init__(self, *args, **kw):
                init(self, *args, **kw)

            def __len__(self):
                return 0        # instances are false
        self.C = (Singleton if n is None else SingletonWithRegardsTo(n, weak_refs=weak))(Base)
        self.held = {}
        self.made = {}

    def key(self, args):
        return () if self.n is None else args[:self.n]


def sops(c):
    out = [('new', a) for a in ARGS] + [('fail', (1,)), ('fail', (3,)), ('new-kw', (1,))]
    if c.n is not None:
        out += [('delete', (1,)), ('list',)]
    if c.weak:
        out += [('drop', (1,)), ('drop', (1, 2))]
    return out


def sapply(c, op):
    k = op[0]
    if k in ('new', 'new-kw', 'fail'):
        key = c.key(op[1])
        c.fail = k == 'fail'
        n = len(c.runs)
        try:
            o = c.C(*op[1]) if k != 'new-kw' else c.C(*op[1], x=1)
        except Boom:
            require(k == 'fail' and key not in c.held, 'constructor ran again')
            c.fail = False
            return
        c.fail = False
        require(type(o) is c.C, 'is not an instance')
        if key in c.held:
            require(o is c.held[key], 'another instance for %s', key)
            require(len(c.runs) == n, 'the constructor ran again for %s', key)
        else:
            require(k != 'fail', 'a failed construction was returned')
            require(len(c.runs) == n + 1 and o.args == op[1], 'constructed with %s', o.__dict__)
            require(not any(o is x for x in c.held.values()), 'instances are shared')
            c.held[key] = o
    elif k == 'list':
        got = get_instances_for_singleton(c.C)
        require(sorted(map(repr, got)) == sorted(map(repr, c.held)), 'instances listed %s, expected %s', got, list(c.held))
    elif k == 'delete':
        key = op[1]
        if key in c.held:
            delete_singleton_for(c.C, *key)
            del c.held[key]
    elif k == 'drop':
        c.held.pop(c.key(op[1]), None)
        gc.collect(0)


def sfinish(c):
    if c.n is not None:
        require(len(get_instances_for_singleton(c.C)) == len(c.held), 'instances listed')

    # a subclass has instances of its own
    class Sub(c.C):
        pass
    o = Sub(1)
    require(type(o) is Sub, 'an instance of %s', type(o))
    require(Sub(1) is o, 'another instance of the subclass')
    for key, x in c.held.items():
        require(c.C(*key) is x, 'another instance for %s', key)


# ------------------------------------------------------------------ singletons, schedules
def single_race():
    kind = pick(['one', 'args', 'args-other', 'weak'])
    fails = pick([False, True])
    state = {'runs': 0, 'inside': 0}

    class Base:
        def __init__(self, a):
            state['runs'] += 1
            n = state['runs']
            advance(0)
            if fails and n == 1:
                raise Boom()
            self.a = a
    C = {'one': Singleton, 'args': SingletonWithRegardsTo(1), 'args-other': SingletonWithRegardsTo(1),
         'weak': SingletonWithRegardsTo(1, weak_refs=True)}[kind](Base)
    b = 2 if kind == 'args-other' else 1

    def get(a):
        o = C(a)
        require(hasattr(o, 'a'), 'got a half-made instance')
        return o
    r = par(lambda: get(1), lambda: get(b))
    got = [v for k, v in r if k != 'exc']
    for k, v in r:
        require(k != 'exc' or (fails and isinstance(v, Boom)), '%r', v)
    require(len(r) - len(got) == (1 if fails else 0), 'failures')
    if kind == 'args-other':
        require(state['runs'] == 2, 'constructed %s times', state['runs'])
        require(sorted(o.a for o in got) == ([1, 2] if not fails else sorted(o.a for o in got)), 'instances')
    else:
        require(state['runs'] == (2 if fails else 1), 'constructed %s times', state['runs'])
        require(all(o is got[0] for o in got), 'two instances')
        require(C(1) is got[0], 'another instance afterwards')


def nested_single():
    """a singleton constructing another one (and itself indirectly)"""
    @Singleton
    class A:
        def __init__(self):
            self.b = B(1)

    @SingletonWithRegardsTo(1)
    class B:
        def __init__(self, x):
            self.x = x
    a, b = ok(par(A, lambda: B(1)))
    require(a.b is b and A() is a, 'instances')


# ------------------------------------------------------------------ memoize
CALLS = [(), (1,), (2,), ('1',), (1, 2), (2, 1), ((1, 2),), (None,), (None, None), ((),)]


class MCtx:
    def __init__(self, duration, own_clock):
        ctx = self
        self.t = 0.0
        self.calls = []
        self.fail = False
        self.ver = 0
        self.duration = duration

        def f(*args, **kw):
            ctx.calls.append((args, kw))
            if ctx.fail:
                raise Boom()
            ctx.ver += 1
            return (args, tuple(sorted(kw.items())), ctx.ver) if args != (2,) else None
        if duration is None:
            self.f = memoize(f)
        elif own_clock:
            self.f = cache_memoize(duration, time_getter=lambda: ctx.t)(f)
        else:
            self.f = cache_memoize(duration)(f)
        self.own = own_clock
        self.m = {}

    def now(self):
        return self.t if self.own else time.monotonic()


def mops(c):
    out = [('call', a, ()) for a in CALLS] + [('fail', (1,), ()), ('fail', (2,), ())]
    if c.duration is not None:
        out += [('call', (), (('a', 1),)), ('call', (), (('a', 2),)), ('call', (1,), (('a', 1),)), ('call', (), (('a', 2), ('b', 1))), ('call', (), (('a', 1), ('b', 2))), ('call', (('a', 1),), ()),
                ('tick', 0.6), ('tick', 1.2)]
    return out


def mapply(c, op):
    k = op[0]
    if k == 'tick':
        if c.own:
            c.t += op[1]
        else:
            time.sleep(op[1])
        return
    key = (op[1], op[2])
    c.fail = k == 'fail'
    n = len(c.calls)
    valid = key in c.m and (c.duration is None or c.now() - c.m[key][1] < c.duration)
    try:
        v = c.f(*op[1], **dict(op[2]))
    except Boom:
        require(c.fail and not valid, 'the function was called again')
        return
    finally:
        c.fail = False
    if valid:
        require(len(c.calls) == n, 'the function was called again for %s', key)
        require(v == c.m[key][0], 'call %s gave %s, expected %s', key, v, c.m[key][0])
    else:
        require(k != 'fail' and len(c.calls) == n + 1, 'the function was not called for %s', key)
        want = (op[1], op[2], c.ver) if op[1] != (2,) else None
        require(v == want, 'call %s gave %s, expected %s', key, v, want)
        c.m[key] = (v, c.now())


def mem_race():
    """two first callers: one computation at a time, and the function's results"""
    same = pick([True, False])
    st = {'in': 0, 'max': 0, 'n': 0}

    @memoize
    def f(a):
        st['n'] += 1
        st['in'] += 1
        st['max'] = max(st['max'], st['in'])
        advance(0)
        st['in'] -= 1
        return a * 10
    r = ok(par(lambda: f(1), lambda: f(1 if same else 2)))
    require(r == [10, 10 if same else 20], 'results %s', r)
    require(st['max'] == 1, 'ran in two threads at once')
    require(st['n'] == (1 if same else 2), 'called %s times', st['n'])
    require(f(1) == 10 and st['n'] == (1 if same else 2), 'called again')


def mem_recursive():
    n = [0]

    @memoize
    def fib(x):
        n[0] += 1
        return x if x < 2 else fib(x - 1) + fib(x - 2)
    require(ok(par(lambda: fib(4), lambda: fib(3))) == [3, 2], 'results')
    require(n[0] == 5, 'called %s times', n[0])


def cmem_race():
    same = pick([True, False])
    slow = pick([0, 2])
    n = [0]

    @cache_memoize(10)
    def f(a):
        n[0] += 1
        k = n[0]
        advance(slow)
        if a == 'bad':
            raise Boom()
        return (a, k)
    if pick([0, 1]):
        require(f(1) == (1, 1), 'first')
        advance(pick([1, 11]))
    r = ok(par(lambda: f(1), lambda: f(1 if same else 2)))
    require(r[0][0] == 1 and r[1][0] == (1 if same else 2), 'results %s', r)
    k = n[0]
    v = f(1)
    require(n[0] == k and v[0] == 1, 'called again while valid')
    advance(20)
    v = f(1)
    require(n[0] == k + 1 and v == (1, k + 1), 'not computed anew after expiry')


def cmem_free():
    """while the function runs for one argument, calls for other arguments are served"""
    phase = pick(['first', 'expired'])
    other = pick(['new', 'valid', 'expired'])
    st = {'block': False}
    go, t0 = threading.Event(), time.monotonic()

    @cache_memoize(10)
    def f(a):
        if a == 1 and st['block']:
            require(go.wait(100), 'a call for another argument waits for this one')
        return a, round(time.monotonic() - t0)
    if phase == 'expired':
        f(1)
    if other == 'expired':
        f(2)
    advance(20)
    if other == 'valid':
        f(2)
    st['block'] = True

    def two():
        v = f(2)
        go.set()
        return v
    r = ok(par(lambda: f(1), two))
    require(r == [(1, 20), (2, 20)], 'results %s', r)
    require(f(1) == (1, 20) and f(2) == (2, 20), 'remembered values')


def cmem_recursive():
    n = [0]

    @cache_memoize(10)
    def fib(x):
        n[0] += 1
        return x if x < 2 else fib(x - 1) + fib(x - 2)
    require(fib(5) == 5 and n[0] == 6, 'recursion')


def jobs(tier):
    q = tier == 'quick'
    o = ['structures/singleton.py', 'decorators/decorators.py', 'concurrent/monitor.py']
    out = []
    for n, weak in ((None, False), (0, False), (1, False), (2, False), (1, True), (2, True)):
        out.append(SeqJob('single-%s-%s' % (n, weak), lambda n=n, weak=weak: SCtx(n, weak), sops, sapply, finish=sfinish,
                          depth=4 if q else 5, dedupe=n == 2, shards=2, key=lambda c: (tuple(sorted(map(repr, c.held))), len(c.runs))))
    for d, own in ((None, False), (1, True), (1, False)):
        out.append(SeqJob('memo-%s-%s' % (d, own), lambda d=d, own=own: MCtx(d, own), mops, mapply, depth=4 if q else 5, dedupe=False,
                          shards=4))
    out += [SchedJob(n, f, bound=2 if q else 3, only=o) for n, f in
            (('single-race', single_race), ('nested-single', nested_single), ('memo-race', mem_race), ('memo-recursive', mem_recursive),
             ('cmemo-race', cmem_race), ('cmemo-free', cmem_free), ('cmemo-recursive', cmem_recursive))]
    return out
