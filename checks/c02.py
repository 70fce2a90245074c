"""
C02: AtomicNumber. All operators on a small value domain against plain numbers; all pairs of in-place operations
under all schedules (final value must be that of one of the two orders); waiters with and without timeout.
"""
import operator as o

from mc.jobs import SchedJob, EnumJob
from mc.sched import require, par, spawn, pause, pick, Violation, clock, advance
from satella.coding.concurrent import AtomicNumber
from satella.exceptions import WouldWaitMore

VALS = [-3, -1, 0, 1, 2, 3, 7, 2.5, -0.5]
BIN = [o.and_, o.or_, o.xor, o.lshift, o.rshift, o.add, o.sub, o.mul, o.truediv, o.floordiv, o.pow, o.gt, o.ge, o.lt,
       o.le, o.eq, o.ne]
RBIN = [o.and_, o.or_, o.xor, o.lshift, o.rshift, o.add, o.sub, o.mul, o.truediv, o.floordiv, o.pow, o.gt, o.ge, o.lt,
        o.le, o.eq]
INP = [o.iand, o.ior, o.ixor, o.ilshift, o.irshift, o.iadd, o.isub, o.imul, o.itruediv, o.ifloordiv, o.ipow]
UN = [int, float, bool, abs, o.neg, o.pos, str]


def res(f, *a):
    try:
        v = f(*a)
        return type(v).__name__, repr(v)
    except Exception as e:
        return 'raised', type(e).__name__


def cases():
    for v in VALS:
        for u in UN:
            yield 'un', u, v, None
        for w in VALS:
            for f in BIN:
                yield 'bin', f, v, w
            for f in RBIN:
                yield 'rbin', f, v, w
            for f in INP:
                yield 'inp', f, v, w
            yield 'eq2', None, v, w
            for m in (2, 5):
                yield 'powmod', m, v, w


def check(case):
    kind, f, v, w = case
    a = AtomicNumber(v)
    if kind == 'un':
        require(res(f, a) == res(f, v), '%s(%r): %r, expected %r', f, v, res(f, a), res(f, v))
    elif kind == 'bin':
        require(res(f, a, w) == res(f, v, w), '%s(%r,%r): %r, expected %r', f, v, w, res(f, a, w), res(f, v, w))
    elif kind == 'rbin':
        require(res(f, w, a) == res(f, w, v), 'reflected %s(%r,%r): %r, expected %r', f, w, v, res(f, w, a), res(f, w, v))
    elif kind == 'powmod':
        require(res(pow, a, w, f) == res(pow, v, w, f), 'pow(%r,%r,%r): %r, expected %r', v, w, f, res(pow, a, w, f),
                res(pow, v, w, f))
    elif kind == 'eq2':
        b = AtomicNumber(w)
        require((a == b) is (v == w), 'comparison of two numbers %r %r', v, w)
        require((b == a) is (v == w), 'comparison of two numbers %r %r', v, w)
        require(a == a, 'a number equals itself')
        return
    else:
        e = res(f, v, w)
        if e[0] == 'raised':
            require(res(f, a, w) == e, 'in-place %s(%r,%r): %r, expected %r', f, v, w, res(f, a, w), e)
            exp = v
        else:
            r = f(a, w)
            require(r is a, 'in-place %s returns another object', f)
            exp = f(v, w)
        require(repr(a + 0) == repr(exp + 0), 'in-place %s(%r,%r) left %r, expected %r', f, v, w, a + 0, exp)
        a += 1                         # usable afterwards
        require(a == exp + 1, 'unusable after %s', f)
        return
    require(a == v, 'value changed')


def ok_pair(f, g):
    try:
        g(f(6, 2), 3), f(g(6, 3), 2)
        return True
    except TypeError:
        return False


PAIRS = [(f, g) for f in INP for g in INP if ok_pair(f, g)]


def pairs():
    f, g = pick(PAIRS)
    n = AtomicNumber(6)
    r = par(lambda: f(n, 2), lambda: g(n, 3))
    for k, v in r:
        if k == 'exc':
            raise v
        require(v is n, 'in-place returned another object')
    ok = {repr(g(f(6, 2), 3)), repr(f(g(6, 3), 2))}
    require(repr(n + 0) in ok, 'update lost: %s, %s on 6 gave %r, expected one of %s', f, g, n + 0, ok)


def two_each():
    n = AtomicNumber(0)

    def up():
        nonlocal n
        x = n
        x += 1
        x += 1

    def down():
        x = n
        x -= 10
    r = par(up, down, up) if pick([0, 1]) else par(up, up)
    for k, v in r:
        if k == 'exc':
            raise v
    require(n == (4 - 10 if len(r) == 3 else 4), 'update lost: %s', n)


def readers():
    n = AtomicNumber(1)
    rd = pick([int, float, bool, str, lambda x: x + 0, lambda x: 0 + x, lambda x: x == 4, lambda x: x < 3, lambda x: x >= 4,
               lambda x: -x, abs, repr])
    f, w = pick([(o.iadd, 3), (o.ilshift, 2), (o.imul, 4)])
    v1, v2 = AtomicNumber(1), AtomicNumber(4)
    a, b = par(lambda: [rd(n), rd(n)], lambda: f(n, w))
    for k, v in (a, b):
        if k == 'exc':
            raise v
    x, y = rd(v1), rd(v2)
    require(a[1] in ([x, x], [x, y], [y, y]), 'reads %r are not a history of %r -> %r', a[1], x, y)


def compare_two():
    a, b = AtomicNumber(1), AtomicNumber(1)
    third = pick(['none', 'upd'])

    def upd():
        x = b
        x += 1
    fs = [lambda: a == b, lambda: b == a] + ([upd] if third == 'upd' else [])
    r = par(*fs)
    for k, v in r:
        if k == 'exc':
            raise v
    if third == 'none':
        require(r[0][1] is True and r[1][1] is True, 'wrong comparison')
    require((a == b) is (third == 'none'), 'wrong comparison')
    require(a == a, 'self comparison')


def waiter(timeout):
    def body():
        f, start, arg = pick([(o.iadd, 1, 3), (o.isub, 7, 3), (o.imul, 2, 2), (o.ifloordiv, 9, 2), (o.itruediv, 8, 2),
                              (o.iand, 5, 6), (o.ior, 4, 4 + 0), (o.ixor, 5, 1), (o.ilshift, 1, 2), (o.irshift, 8, 1),
                              (o.ipow, 2, 2)])
        n = AtomicNumber(start)

        def wait():
            n.wait_until_equal(4, timeout) if timeout is not None else n.wait_until_equal(4)
            return clock()
        a, b = par(wait, lambda: f(n, arg))
        for k, v in (a, b):
            if k == 'exc':
                raise v
        require(a[1] == 0, 'waiter was not woken by the update, but %s s later', a[1])
        return f.__name__
    return body


def all_waiters():
    """every operation wakes everybody that waits, however they wait"""
    f, start, arg = pick([(o.iadd, 1, 3), (o.isub, 7, 3), (o.imul, 2, 2), (o.ifloordiv, 9, 2), (o.itruediv, 8, 2), (o.iand, 5, 6), (o.ior, 0, 4),
                          (o.ixor, 5, 1), (o.ilshift, 1, 2), (o.irshift, 8, 1), (o.ipow, 2, 2)])
    timed = pick([(None, None), (None, 7), (7, None), ('wait', None), (None, 'wait'), ('wait', 'wait')])
    n = AtomicNumber(start)

    def waiting(how):
        def wait():
            if how == 'wait':
                n.wait(None)
            else:
                n.wait_until_equal(4, how)
            return clock()
        return wait

    def upd():
        advance(1)
        f(n, arg)
    r = par(*[waiting(how) for how in timed], upd)
    for k, v in r:
        if k == 'exc':
            raise v
    require([v for _, v in r[:-1]] == [1] * (len(r) - 1), 'waiters of %s(%s, %s) at 1 were woken at %s', f, start, arg, r)


def two_waiters():
    n = AtomicNumber(0)

    def upd():
        x = n
        x += 1
        x += 1
    w2 = pick([2, None])
    fs = [lambda: n.wait_until_equal(2), upd]
    if w2:
        fs.append(lambda: n.wait_until_equal(2, 5))
    r = par(*fs)
    for k, v in r:
        if k == 'exc':
            raise v
    require(clock() == 0, 'waiter woken late, at %s', clock())


def wait_timeout():
    """never reaches the value: documented exception, at the timeout; with changes in between"""
    n = AtomicNumber(0)
    to = pick([0, 1, 3])
    changes = pick([0, 1, 2])

    def wait():
        try:
            n.wait_until_equal(100, to)
        except WouldWaitMore:
            return clock()
        raise Violation('returned although the value was never reached')

    def upd():
        x = n
        for _ in range(changes):
            advance(0.75)
            x += 1
    a, b = par(wait, upd)
    for k, v in (a, b):
        if k == 'exc':
            raise v
    require(abs(a[1] - to) < 1e-6, 'timeout %s ended at %s', to, a[1])
    return to, changes


def late_reach():
    """value reached during the timed wait, after clock steps; then changed away again"""
    n = AtomicNumber(0)

    def wait():
        n.wait_until_equal(2, 10)
        return clock()

    def upd():
        x = n
        advance(1)
        x += 1
        advance(1)
        x += 1
    a, b = par(wait, upd)
    for k, v in (a, b):
        if k == 'exc':
            raise v
    require(a[1] == 2, 'reached at 2, waiter returned at %s', a[1])


def change_wait():
    """wait(): returns when the number changes, raises or returns on timeout as asked"""
    to, at, thr = pick([(None, 1, True), (3, 1, True), (3, 1, False), (1, 3, True), (1, 3, False)])
    f, start, arg = pick([(o.iadd, 0, 1), (o.iadd, -1, 1), (o.isub, 0, 1), (o.isub, 1, 1), (o.imul, 2, 3), (o.imul, 2, 0), (o.itruediv, 4, 2), (o.ifloordiv, 4, 2),
                          (o.ifloordiv, 1, 2), (o.ipow, 2, 3), (o.iand, 6, 3), (o.iand, 4, 3), (o.ior, 0, 1), (o.ior, 2, 1),
                          (o.ixor, 0, 3), (o.ixor, 3, 3), (o.ilshift, 1, 1), (o.irshift, 4, 1), (o.irshift, 1, 1)])
    n = AtomicNumber(start)

    def wait():
        try:
            n.wait(to, throw_exception=thr) if to is not None else n.wait()
            return 'ok', clock()
        except WouldWaitMore:
            return 'exc', clock()

    def upd():
        advance(at)
        f(n, arg)
    a, b = par(wait, upd)
    for k, v in (a, b):
        if k == 'exc':
            raise v
    if to is None or to > at:
        require(a[1] == ('ok', at), 'waiter of a change at %s: %s', at, a[1])
    else:
        require(a[1] == ('exc' if thr else 'ok', to), 'timed out waiter: %s', a[1])


def already():
    n = AtomicNumber(4)
    n.wait_until_equal(4)
    n.wait_until_equal(4, 1)
    require(clock() == 0, 'waited although equal')


def jobs(tier):
    q = tier == 'quick'
    only = ['concurrent/atomic.py', 'concurrent/monitor.py', 'concurrent/thread.py']
    oa = ['concurrent/atomic.py']
    return [
        EnumJob('operators', cases, check, shards=4),
        SchedJob('pairs', pairs, bound=1 if q else 2, only=oa),
        SchedJob('two-each', two_each, bound=1 if q else 2, only=oa),
        SchedJob('readers', readers, bound=2, only=oa),
        SchedJob('compare-two', compare_two, bound=2 if q else 3, only=oa),
        SchedJob('waiter', waiter(None), bound=2, only=oa),
        SchedJob('waiter-timed', waiter(5), bound=2, only=oa),
        SchedJob('all-waiters', all_waiters, bound=0 if q else 1, only=oa),
        SchedJob('two-waiters', two_waiters, bound=1 if q else 2, only=oa),
        SchedJob('wait-timeout', wait_timeout, bound=1 if q else 2, only=oa),
        SchedJob('late-reach', late_reach, bound=1 if q else 2, only=oa),
        SchedJob('change-wait', change_wait, bound=1 if q else 2, only=oa),
        SchedJob('already', already),
    ]
