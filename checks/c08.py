"""
C08: CPManager. Bounded interleavings of users of a pool, and all operation sequences with connection outcomes.
"""
from mc.jobs import SchedJob, SeqJob
from mc.sched import require, par, spawn, pause, pick, Violation, clock, advance
from satella.coding.resources import CPManager


class Refused(Exception):
    pass


def ok(rs):
    for k, v in rs:
        if k == 'exc':
            raise v
    return [v for k, v in rs]


class Conn:
    def __init__(self, no):
        self.no = no
        self.user = None
        self.dead = False
        self.uses = 0
        self.failed = False

    def __repr__(self):
        return 'c%d' % self.no


class Pool(CPManager):
    def __init__(self, n, cycles, create_plan=None, teardown_plan=None):
        self.made = []
        self.limit = n
        self.cycles = cycles
        self.create_plan = create_plan or {}
        self.teardown_plan = teardown_plan or {}
        self.attempts = 0
        self.quiet = False
        super().__init__(n, cycles)

    def create_connection(self):
        i = self.attempts
        self.attempts += 1
        pause()
        if self.create_plan.get(i) == 'slow':
            advance(1)
        if self.create_plan.get(i) == 'fail':
            raise Refused()
        c = Conn(len(self.made))
        self.made.append(c)
        require(len([x for x in self.made if not x.dead]) <= self.limit, 'more than %s live connections', self.limit)
        return c

    def teardown_connection(self, c):
        require(not c.dead, '%s torn down twice', c)
        require(c.user is None, '%s torn down while in use by %s', c, c.user)
        c.dead = True
        pause()
        if self.teardown_plan.get(c.no) == 'fail':
            raise Refused()

    def close(self):
        if not self.quiet:
            return super().close()

    def __del__(self):
        pass

    # instrumented use
    def take(self, who):
        c = self.acquire_connection()
        require(isinstance(c, Conn), 'got %r', c)
        require(not c.dead, '%s was handed out after being torn down', c)
        require(not c.failed, '%s was handed out after it had failed', c)
        require(c.user is None, '%s handed to %s while used by %s', c, who, c.user)
        c.user = who
        c.uses += 1
        require(c.uses <= self.cycles, '%s used %s times, limit %s', c, c.uses, self.cycles)
        return c

    def give(self, c, fail=False):
        if fail:
            c.failed = True
            self.fail_connection(c)
        c.user = None
        self.release_connection(c)
        if c.failed or c.uses >= self.cycles:
            require(c.dead, '%s was not torn down (failed=%s, used %s of %s)', c, c.failed, c.uses, self.cycles)

    def live(self):
        return [x for x in self.made if not x.dead]


def users(limit, nusers, rounds, cycles):
    def body():
        plan = pick([{}, {0: 'fail'}, {1: 'fail'}])
        p = Pool(limit, cycles, plan)
        fail = pick([None, 0, 1])

        def user(i):
            def go():
                n = 0
                for k in range(rounds):
                    try:
                        c = p.take(i)
                    except Refused:
                        continue
                    pause()
                    p.give(c, fail=(fail == i and k == 0))
                    n += 1
                return n
            return go
        r = ok(par(*[user(i) for i in range(nusers)]))
        refused = sum(1 for i, x in plan.items() if i < p.attempts)
        require(sum(r) == nusers * rounds - refused, 'served %s', r)
        require(not any(c.user is not None for c in p.made), 'connection lost')
        p.close()
        require(not p.live(), 'connections %s left after closing', p.live())
        return len(p.made)
    return body


def waiter(how):
    """the pool is exhausted; a waiter is served as soon as a connection is released (or killed)"""
    def body():
        n = pick([1, 2])
        p = Pool(n, 1 if how == 'cycle' else 5)
        held = [p.take('main') for _ in range(n)]

        def wait():
            c = p.take('w')
            t = clock()
            p.give(c)
            return t

        def release():
            advance(1)
            t = clock()
            p.give(held[0], fail=how == 'fail')
            return t
        r = ok(par(wait, release))
        require(r[0] >= r[1], 'served before the release')
        require(r[0] <= r[1] + 5.1, 'served only after %s s', r[0] - r[1])
        if how == 'release':
            require(len(p.made) == n, 'a new connection was made although one was free')
        for c in held[1:]:
            p.give(c)
        p.close()
        require(not p.live(), 'connections left')
    return body


def two_waiters():
    p = Pool(2, 5)
    held = [p.take('main'), p.take('main')]

    def wait(i):
        return lambda: p.take('w%d' % i)

    def release():
        for c in held:
            advance(1)
            p.give(c, fail=pick([False, True]))
    r = ok(par(wait(0), wait(1), release))
    require(r[0] is not r[1], 'one connection handed out twice')
    for c in r[:2]:
        p.give(c)


def close_race():
    """closing while others acquire or release: nothing is leaked, later requests are refused"""
    p = Pool(2, 5)
    c0 = p.take('u0')
    mode = pick(['release', 'acquire'])
    idle = None
    if pick([0, 1]):
        idle = p.take('x')
        p.give(idle)

    def other():
        if mode == 'release':
            p.give(c0)
        else:
            try:
                c = p.take('u1')
            except RuntimeError:
                return 'refused'
            p.give(c)
            return 'served'
    ok(par(p.close, other))
    if mode == 'acquire':
        p.give(c0)
    try:
        p.take('late')
    except RuntimeError:
        pass
    else:
        raise Violation('connection handed out by a closed pool')
    require(not p.live(), 'connections %s leaked by closing (%s)', p.live(), mode)


def invalidate_race():
    """idle connections are torn down; the pool goes on working"""
    p = Pool(2, 5)
    a = p.take('m')
    b = p.take('m')
    p.give(b)
    mode = pick(['release', 'acquire'])

    def other():
        if mode == 'release':
            p.give(a)
            return None
        return p.take('u')
    r = ok(par(p.invalidate, other))
    if mode == 'acquire':
        require(b.dead or r[1] is b, 'idle connection kept by invalidate()')
        p.give(r[1])
        p.give(a)
    else:
        require(b.dead, 'idle connection kept by invalidate()')
    p.invalidate()
    require(not p.live(), 'connections left: %s', p.live())
    c = p.take('again')
    p.give(c)
    d = p.take('again')
    require(d is c, 'idle connection not reused')
    p.give(d)


# ------------------------------------------------------------------ sequences
class Model:
    pass


def seq_fresh(limit, cycles):
    def f():
        m = Model()
        m.p = Pool(limit, cycles)
        m.held = []
        m.idle = []       # connections the pool keeps
        m.closed = False
        return m
    return f


def seq_ops(limit):
    def f(m):
        ops = ['acquire-fail', 'invalidate', 'close', 'teardown-fail']
        if len(m.held) < limit or m.closed:
            ops.append('acquire')
        for i in range(len(m.held)):
            ops += [('give', i), ('fail', i), ('fail-bad', i)]
        return ops
    return f


def seq_apply(limit, cycles):
    def f(m, op):
        p = m.p
        if op == 'acquire':
            before = len(p.made)
            try:
                c = p.take('u')
            except RuntimeError:
                require(m.closed, 'refused by an open pool')
                return
            require(not m.closed, 'served by a closed pool')
            if m.idle:
                require(c in m.idle, 'new connection %s made although %s idle', c, m.idle)
                m.idle.remove(c)
            else:
                require(len(p.made) == before + 1 and c is p.made[-1], 'got %s', c)
            m.held.append(c)
        elif op == 'acquire-fail':
            if m.closed or m.idle or len(m.held) >= limit:
                return
            p.create_plan[p.attempts] = 'fail'
            try:
                p.take('u')
            except Refused:
                pass
            else:
                raise Violation('failure to connect not passed on')
        elif op == 'invalidate' or op == 'close':
            getattr(p, op)()
            for c in m.idle:
                require(c.dead, '%s not torn down by %s', c, op)
            m.idle = []
            if op == 'close':
                m.closed = True
        elif op == 'teardown-fail':
            # the next teardown of an idle connection fails: whatever is reported, it is never handed out again
            if not m.idle:
                return
            for c in m.idle:
                p.teardown_plan[c.no] = 'fail'
            try:
                p.invalidate()
            except Refused:
                pass
            m.idle = [c for c in m.idle if not c.dead]
        else:
            kind, i = op
            c = m.held.pop(i)
            if kind == 'fail-bad':
                p.teardown_plan[c.no] = 'fail'
            try:
                p.give(c, fail=kind != 'give')
            except Refused:
                require(kind == 'fail-bad' and c.dead, 'failure out of nowhere')
            if not c.dead:
                require(not m.closed, '%s leaked by a closed pool', c)
                m.idle.append(c)
            else:
                require(c.failed or c.uses >= cycles or m.closed, 'healthy connection torn down')
        for c in m.held + m.idle:
            require(not c.dead, '%s torn down', c)
        require(set(p.live()) == set(m.held) | set(m.idle), 'live %s, expected %s', p.live(), m.held + m.idle)
    return f


def jobs(tier):
    q = tier == 'quick'
    o = ['resources/cp_manager.py']
    out = [
        SchedJob('users-1-2', users(1, 2, 2, 5), bound=1 if q else 2, only=o),
        SchedJob('users-2-2', users(2, 2, 2, 1), bound=1 if q else 2, only=o),
        SchedJob('users-2-2-cycle', users(2, 2, 2, 2), bound=1 if q else 2, only=o),
        SchedJob('users-1-3', users(1, 3, 1, 5), bound=1 if q else 2, only=o),
        SchedJob('users-2-3', users(2, 3, 1, 5), bound=1 if q else 2, only=o),
        SchedJob('waiter-release', waiter('release'), bound=2, only=o),
        SchedJob('waiter-fail', waiter('fail'), bound=2, only=o),
        SchedJob('waiter-cycle', waiter('cycle'), bound=2, only=o),
        SchedJob('two-waiters', two_waiters, bound=1 if q else 2, only=o),
        SchedJob('close-race', close_race, bound=2 if q else 3, only=o),
        SchedJob('invalidate-race', invalidate_race, bound=2 if q else 3, only=o),
    ]
    for limit, cycles in ((1, 2), (2, 2), (2, 3), (3, 1)):
        out.append(SeqJob('seq-%d-%d' % (limit, cycles), seq_fresh(limit, cycles), seq_ops(limit), seq_apply(limit, cycles),
                          depth=5 if q else 7, dedupe=False, max_states=60000 if q else 600000))
    return out
