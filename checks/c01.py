"""
C01: mutual exclusion of Monitor/RMonitor (every way of entering), LockedStructure, LockedDataset.
Schedules: two users, every pair of entry styles, every combination of normal/exceptional exit; regions contain
explicit scheduling points, so overlap is observable; afterwards the monitor must be free.
"""
import copy
import threading

from mc.jobs import SchedJob, EnumJob, SeqJob
from mc.sched import require, par, spawn, pause, pick, Violation, clock, advance
from satella.coding.concurrent import (Monitor, RMonitor, MonitorList, MonitorDict, MonitorSet, LockedStructure,
                                       LockedDataset)
from satella.exceptions import WouldWaitMore, ResourceNotLocked


class Boom(Exception):
    pass


class Region:
    """observes overlap"""

    def __init__(self):
        self.inside = 0
        self.entries = 0
        self.stay = 0       # virtual seconds spent inside

    def visit(self, fail=False, mid=None):
        require(self.inside == 0, 'two threads inside the protected region')
        self.inside += 1
        self.entries += 1
        advance(self.stay)
        if mid is not None:
            self.inside -= 1
            mid()
            require(self.inside == 0, 'two threads inside the protected region')
            self.inside += 1
        advance(self.stay)
        require(self.inside == 1, 'two threads inside the protected region')
        self.inside -= 1
        if fail:
            raise Boom()


def make(base):
    class My(base):
        def __init__(self):
            base.__init__(self)
            self.region = Region()

        @Monitor.synchronized
        def sync(self, fail, extra=None, *, kw=0):
            self.region.visit(fail)
            return 'r', extra, kw

        @Monitor.synchronized
        def releasing(self, fail):
            def mid():
                with Monitor.release(self):
                    pause()
            self.region.visit(fail, mid)

        @Monitor.synchronized
        def releasing_raise(self):
            try:
                with Monitor.release(self):
                    pause()
                    raise Boom()
            except Boom:
                pass
            self.region.visit(False)
    return My


class Holder:
    def __init__(self, m):
        self.mon = m

    @Monitor.synchronize_on_attribute('mon')
    def via_attr(self, fail):
        self.mon.region.visit(fail)
        return 'r'


def enter_with(m, fail):
    with m:
        m.region.visit(fail)


def enter_with_returns_self(m, fail):
    with m as x:
        require(x is m, 'entering a monitor yields something else')
        m.region.visit(fail)


def enter_acquire(m, fail):
    with Monitor.acquire(m):
        m.region.visit(fail)


def enter_sync(m, fail):
    r = m.sync(fail, 5, kw=7)
    require(r == ('r', 5, 7), 'protected method returned %r', r)


def enter_on(m, fail):
    @Monitor.synchronize_on(m)
    def f(a, b=1):
        m.region.visit(fail)
        return a + b
    require(f(2, b=3) == 5, 'synchronize_on changed the result')


def enter_attr(m, fail):
    require(Holder(m).via_attr(fail) == 'r', 'synchronize_on_attribute changed the result')


def enter_release(m, fail):
    m.releasing(fail)


def enter_release_raise(m, fail):
    m.releasing_raise()
    if fail:
        raise Boom()


STYLES = [enter_with, enter_acquire, enter_sync, enter_on, enter_attr, enter_release, enter_release_raise]


def pair(base, first, others, stay=0):
    cls = make(base)

    def body():
        m = cls()
        m.region.stay = stay
        s2 = pick(others)
        f1, f2 = pick([(False, False), (True, False), (False, True), (True, True)])
        r = par(lambda: first(m, f1), lambda: s2(m, f2))
        for (k, v), f in zip(r, (f1, f2)):
            if k == 'exc' and not (f and isinstance(v, Boom)):
                raise v
            require((k == 'exc') == f, 'exception lost')
        # the monitor is free again: everyone can enter
        enter_sync(m, False)
        spawn(enter_acquire, m, False).value()
        return s2.__name__, f1, f2
    return body


def reentrant():
    """RMonitor: nested entry by the holder works through every style; others stay out until the outermost exit"""
    m = make(RMonitor)()
    s = pick(STYLES[:5])
    f = pick([False, True])
    state = {'holding': False}

    def outer():
        with m:
            state['holding'] = True
            pause()
            try:
                s(m, f)
            except Boom:
                require(f, 'unexpected exception')
            pause()
            require(m.region.inside == 0, 'somebody is inside')
            m.region.inside = 1       # still excluded after the inner region ended
            pause()
            m.region.inside = 0
            state['holding'] = False

    def other():
        with Monitor.acquire(m):
            require(not state['holding'], 'entered while the outer region is still held')
            m.region.visit()
    r = par(outer, other)
    for k, v in r:
        if k == 'exc':
            raise v
    enter_acquire(m, False)
    return s.__name__, f


def three():
    m = make(pick([Monitor, RMonitor]))()
    ss = pick([(enter_with, enter_sync, enter_release), (enter_acquire, enter_on, enter_attr)])
    r = par(*[(lambda s=s: s(m, False)) for s in ss])
    for k, v in r:
        if k == 'exc':
            raise v
    require(m.region.entries == 3, 'entries lost')


def data_monitors():
    """list/dict/set monitors: read-modify-write under the monitor is never lost"""
    kind = pick(['list', 'dict', 'set'])
    m = {'list': lambda: MonitorList([0]), 'dict': lambda: MonitorDict({0: 0}), 'set': lambda: MonitorSet([0])}[kind]()

    def inc(style):
        cm = m if style == 'with' else Monitor.acquire(m)
        with cm:
            if kind == 'set':
                v = max(m)
                pause()
                m.add(v + 1)
            else:
                v = m[0]
                pause()
                m[0] = v + 1
    s = pick([('with', 'with'), ('with', 'acq'), ('acq', 'acq')])
    r = par(lambda: inc(s[0]), lambda: inc(s[1]))
    for k, v in r:
        if k == 'exc':
            raise v
    require((max(m) if kind == 'set' else m[0]) == 2, 'update lost')


def locked_structure():
    shared = pick([False, True])
    reg = Region()
    lock = threading.Lock()
    a = LockedStructure([0], lock) if shared else LockedStructure([0])
    b = LockedStructure({'x': 0}, lock) if shared else a
    f = pick([False, True])

    def one(st, key):
        def go():
            try:
                with st as s:
                    require(s is st, 'entering yields something else')
                    v = st[key]
                    reg.visit()
                    st[key] = v + 1
                    if f:
                        raise Boom()
            except Boom:
                require(f, 'unexpected')
        return go
    r = par(one(a, 0), one(b, 'x' if shared else 0))
    for k, v in r:
        if k == 'exc':
            raise v
    with a:
        require(a[0] == (1 if shared else 2), 'update lost: %r', a[0])
    with b:
        pass


class DS(LockedDataset):
    def __init__(self):
        super().__init__()
        with self:
            self.n = 0
            self.region = Region()

    @LockedDataset.locked()
    def inc(self, fail=False):
        v = self.n
        self.region.visit()
        self.n = v + 1
        if fail:
            raise Boom()
        return 'done'

    @LockedDataset.locked(blocking=False)
    def try_inc(self):
        v = self.n
        self.region.visit()
        self.n = v + 1

    @LockedDataset.locked(timeout=1)
    def timed_inc(self):
        v = self.n
        self.region.visit()
        self.n = v + 1


def ds_with(d):
    with d as x:
        require(x is d, 'entering yields something else')
        v = d.n
        d.region.visit()
        d.n = v + 1
    return True


def ds_call(d):
    with d(blocking=True, timeout=5) as x:
        v = d.n
        d.region.visit()
        d.n = v + 1
    return True


def ds_inc(d):
    require(d.inc() == 'done', 'result lost')
    return True


def ds_inc_fail(d):
    try:
        d.inc(True)
    except Boom:
        return True
    raise Violation('exception swallowed')


def ds_try(d):
    try:
        d.try_inc()
        return True
    except WouldWaitMore:
        return False


def ds_try2(d):
    try:
        with d(blocking=False):
            v = d.n
            d.region.visit()
            d.n = v + 1
        return True
    except WouldWaitMore:
        return False


DSS = [ds_with, ds_call, ds_inc, ds_inc_fail, ds_try, ds_try2]


def dataset(first, others=DSS):
    def body():
        d = DS()
        s2 = pick(others)
        r = par(lambda: first(d), lambda: s2(d))
        for k, v in r:
            if k == 'exc':
                raise v
        for (k, v), s in zip(r, (first, s2)):
            require(v or s in (ds_try, ds_try2), '%s gave up although told to wait', s.__name__)
        require(r[0][1] or r[1][1], 'nobody entered')
        for f in (lambda: d.n, lambda: setattr(d, 'n', 5)):
            try:
                f()
            except ResourceNotLocked:
                pass
            else:
                raise Violation('unlocked access accepted')
        with d:
            require(d.n == r[0][1] + r[1][1], 'update lost: %r', d.n)
        return s2.__name__, r[0][1], r[1][1]
    return body


class Plain(LockedDataset):
    n = 3


class Early(LockedDataset):
    def __init__(self):
        super().__init__()
        self.n = 5


def dataset_fresh():
    """nobody has ever locked it: access is refused, too"""
    for f in (lambda: Plain().n, lambda: setattr(Plain(), 'n', 1), Early):
        try:
            f()
        except ResourceNotLocked:
            continue
        raise Violation('access to a dataset that nobody has locked yet was accepted')


def dataset_timeout():
    """a timed attempt fails at its timeout, does not enter, does not disturb the holder"""
    d = DS()
    to, hold = pick([(0.5, 2), (2, 0.5), (1, 1.5)])
    log = []

    def holder():
        with d:
            log.append('in')
            advance(hold)
            d.n = d.n + 1
            log.append('out')

    def attempt():
        advance(0.25)
        t = clock()
        style = pick(['call', 'method'])
        try:
            if style == 'call':
                with d(timeout=to):
                    require(log[-1] == 'out', 'entered while held')
                    d.n = d.n + 10
            else:
                d.timed_inc()
                require(log[-1] == 'out', 'entered while held')
            return style, True, clock() - t
        except WouldWaitMore:
            return style, False, clock() - t
    h, a = par(holder, attempt)
    for k, v in (h, a):
        if k == 'exc':
            raise v
    style, ok, waited = a[1]
    t = to if style == 'call' else 1
    require(ok == (hold - 0.25 <= t), 'attempt with timeout %s over a hold of %s: entered=%s', t, hold, ok)
    require(ok or abs(waited - t) < 1e-6, 'timeout %s, waited %s', t, waited)
    with d:
        require(d.n == 1 + ((10 if style == 'call' else 1) if ok else 0), 'content disturbed: %s', d.n)
    return a[1]


def dataset_plain_waits():
    """arguments given for one entry do not apply to the next one"""
    d = DS()
    early = pick([ds_try, ds_try2, lambda d: d.timed_inc() or True, ds_call])
    refused = pick([False, True])
    inside, tried = threading.Event(), threading.Event()

    def holder():
        with d:
            inside.set()
            tried.wait()
            advance(3)

    def user():
        if refused:
            inside.wait()
        try:
            entered = early(d)
        except WouldWaitMore:
            entered = False
        tried.set()
        inside.wait()
        with d:
            d.n += 10
        d.inc()
        return entered
    if early is ds_call and refused:
        return
    h, u = par(holder, user)
    for k, v in (h, u):
        if k == 'exc':
            raise v
    require(not (refused and u[1]), 'entered while someone else is inside')
    with d:
        require(d.n == 11 + u[1], 'content %s', d.n)


# ------------------------------------------------------------------ sequential facts
def ds_seq_job(depth):
    class Ctx:
        def __init__(self):
            self.d = DS()
            self.held = False
            self.n = 0

    ops = ['enter', 'enter_nb', 'enter_to', 'exit', 'exit_exc', 'read', 'write', 'inc', 'try', 'call_only']

    def apply(c, op):
        d = c.d
        if op in ('enter', 'enter_nb', 'enter_to'):
            if op == 'enter' and c.held:
                return
            try:
                x = {'enter': lambda: d.__enter__(), 'enter_nb': lambda: d(blocking=False).__enter__(),
                     'enter_to': lambda: d(timeout=1).__enter__()}[op]()
            except WouldWaitMore:
                require(c.held, 'refused although free')
                return
            require(not c.held, 'entered twice')
            c.held = True
        elif op in ('exit', 'exit_exc'):
            if not c.held:
                return
            r = d.__exit__(*((None, None, None) if op == 'exit' else (Boom, Boom(), None)))
            require(not r, 'exception swallowed')
            c.held = False
        elif op == 'read':
            try:
                v = d.n
            except ResourceNotLocked:
                require(not c.held, 'access refused inside')
                return
            require(c.held, 'unlocked read accepted')
            require(v == c.n, 'wrong content')
        elif op == 'write':
            try:
                d.n = c.n + 1
            except ResourceNotLocked:
                require(not c.held, 'access refused inside')
                return
            require(c.held, 'unlocked write accepted')
            c.n += 1
        elif op == 'inc':
            if c.held:
                return
            d.inc()
            c.n += 1
        elif op == 'try':
            try:
                d.try_inc()
            except WouldWaitMore:
                require(c.held, 'refused although free')
                return
            require(not c.held, 'entered twice')
            c.n += 1

    def fin(c):
        if c.held:
            c.d.__exit__(None, None, None)
            c.held = False
        with c.d:
            require(c.d.n == c.n, 'content %s expected %s', c.d.n, c.n)
    return SeqJob('dataset-sequences', Ctx, [o for o in ops if o != 'call_only'], apply, depth, finish=fin)


def copies():
    for kind in ('list', 'dict'):
        for how in ('copy', 'deepcopy'):
            for held in (False, True):
                yield kind, how, held


def check_copy(case):
    kind, how, held = case
    m = MonitorList([1, [2]]) if kind == 'list' else MonitorDict({1: [2]})
    twice = [m, m[1]]
    both = getattr(copy, how)(twice)
    require((both[0][1] is both[1]) and (both[1] is m[1]) == (how == 'copy'), 'identity of what is held lost by %s', how)
    same = [3]
    shared = getattr(copy, how)(MonitorList([same, same]) if kind == 'list' else MonitorDict({0: same, 1: same}))
    require(shared[0] is shared[1] and shared[0] == [3], 'one object became two')
    if held:
        m.__enter__()
    c = getattr(copy, how)(m)
    require(type(c) is type(m) and c == m, 'copy differs: %r', c)
    inner_m = m[1]
    inner_c = c[1]
    require((inner_m is inner_c) == (how == 'copy'), 'wrong depth of copy')
    with c:            # its own lock, free
        c[1] = 'changed'
    require(m[1] is inner_m, 'copy shares data')
    if held:
        m.__exit__(None, None, None)
    with m:
        with c:        # independent monitors
            pass


# ------------------------------------------------------------------ monitored containers are containers
LIST_OPS = [
    ('append', lambda c: c.append(len(c))), ('insert', lambda c: c.insert(1, 'i')), ('pop', lambda c: c.pop()),
    ('pop0', lambda c: c.pop(0)), ('set', lambda c: c.__setitem__(-1, 'n')), ('slice', lambda c: c.__setitem__(slice(0, 2), 'xyz')),
    ('del', lambda c: c.__delitem__(1)), ('delslice', lambda c: c.__delitem__(slice(None, None, 2))), ('remove', lambda c: c.remove(2)),
    ('reverse', lambda c: c.reverse()), ('extend', lambda c: c.extend(('e', 2))), ('clear', lambda c: c.clear()),
    ('get', lambda c: c[2]), ('index', lambda c: c.index(2)),
]
DICT_OPS = [
    ('set1', lambda c: c.__setitem__(1, len(c))), ('set3', lambda c: c.__setitem__(3, 'n')), ('del1', lambda c: c.__delitem__(1)),
    ('pop2', lambda c: c.pop(2)), ('popd', lambda c: c.pop(3, 'd')),
    ('update', lambda c: c.update({2: 'u', 'k': 1})), ('default', lambda c: c.setdefault(1, 'sd')), ('clear', lambda c: c.clear()),
    ('get', lambda c: c[2]), ('getd', lambda c: c.get(3, 'd')),
]
SET_OPS = [
    ('add', lambda c: c.add(len(c))), ('add1', lambda c: c.add(1)), ('discard', lambda c: c.discard(1)), ('remove', lambda c: c.remove(2)),
    ('update', lambda c: c.update((1, 'u'))), ('minus', lambda c: c.difference_update((1, 2))), ('clear', lambda c: c.clear()),
]


def container_job(kind, depth):
    ops = dict({'list': LIST_OPS, 'dict': DICT_OPS, 'set': SET_OPS}[kind])
    start = {'list': [1, 2, 2], 'dict': {1: 'a', 2: 'b'}, 'set': [1, 2]}[kind]
    cls, plain = {'list': (MonitorList, list), 'dict': (MonitorDict, dict), 'set': (MonitorSet, set)}[kind]

    class Ctx:
        def __init__(self):
            self.c = cls(start)
            self.m = plain(start)

    def call(f, c):
        try:
            return 'ok', f(c)
        except Exception as e:
            return 'exc', type(e)

    def apply(c, op):
        if op == 'check':
            new = not (1 in c.m)
            got = c.c.insert_and_check(1)
            c.m.add(1)
            require(got is new, 'insert_and_check of a%s element gave %s', ' new' if new else 'n old', got)
        else:
            got, want = call(ops[op], c.c), call(ops[op], c.m)
            require(got == want, '%s gave %s instead of %s', op, got, want)
        require(c.c == c.m and len(c.c) == len(c.m), 'holds %s instead of %s', c.c, c.m)
        require(sorted(map(repr, c.c)) == sorted(map(repr, c.m)), 'iterates over %s instead of %s', list(c.c), c.m)
        for x in (1, 2, 3, 'e'):
            require((x in c.c) == (x in c.m), 'membership of %r in %s', x, c.m)
        if kind != 'set':
            require(list(c.c) == list(c.m), 'order')
        with c.c:          # nothing leaves it locked
            pass
    return SeqJob('container-' + kind, Ctx, list(ops) + (['check'] if kind == 'set' else []), apply, depth)


def test_and_insert():
    """of all threads inserting one element exactly one is told that it was new"""
    s = MonitorSet(pick([[], ['x']]))
    had = len(s)
    rs = par(*[lambda: s.insert_and_check('x')] * 2 + [lambda: s.insert_and_check('y')])
    for k, v in rs:
        if k == 'exc':
            raise v
    require(sum(v for _, v in rs[:2]) == 1 - had, 'x: %s', rs)
    require(rs[2][1] is True and s == {'x', 'y'}, 'y: %s, %s', rs, s)


def jobs(tier):
    q = tier == 'quick'
    b = 2 if q else 3
    b1 = 1 if q else 2
    out = []
    for base in (Monitor, RMonitor):
        for i, s in enumerate(STYLES):
            out.append(SchedJob('%s-%s' % (base.__name__, s.__name__), pair(base, s, STYLES[i:]),
                                bound=1 if q else 2, only=['concurrent/monitor.py']))
            # however long the other one stays in its region
            out.append(SchedJob('%s-%s-long' % (base.__name__, s.__name__), pair(base, s, STYLES, stay=3000.0),
                                bound=1, only=['concurrent/monitor.py']))
    out.append(SchedJob('reentrant', reentrant, bound=b, only=['concurrent/monitor.py']))
    out.append(SchedJob('three', three, bound=b1, only=['concurrent/monitor.py']))
    out.append(SchedJob('data-monitors', data_monitors, bound=b, only=['concurrent/monitor.py']))
    out.append(SchedJob('locked-structure', locked_structure, bound=b, only=['locked_structure.py']))
    for s in DSS:
        out.append(SchedJob('dataset-' + s.__name__, dataset(s), bound=b1, only=['locked_dataset.py']))
    out.append(SchedJob('dataset2-with', dataset(ds_with, [ds_with, ds_inc_fail, ds_try2]), bound=b, only=['locked_dataset.py']))
    out.append(SchedJob('dataset-fresh', dataset_fresh, bound=0, only=['locked_dataset.py']))
    out.append(SchedJob('dataset-plain-waits', dataset_plain_waits, bound=b1, only=['locked_dataset.py']))
    out.append(SchedJob('dataset-timeout', dataset_timeout, bound=b, only=['locked_dataset.py']))
    out.append(ds_seq_job(6 if q else 8))
    for kind in ('list', 'dict', 'set'):
        out.append(container_job(kind, 4 if q else 6))
    out.append(SchedJob('insert-and-check', test_and_insert, bound=b1, only=['concurrent/monitor.py']))
    out.append(EnumJob('monitor-copies', copies, check_copy))
    return out
