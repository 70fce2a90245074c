"""
C03: PeekableQueue. All bounded interleavings of producers, getters and peekers; operation sequences against a list.
"""
from mc.jobs import SchedJob, SeqJob
from mc.sched import require, par, spawn, pause, pick, Violation, clock, advance
from satella.coding.concurrent import PeekableQueue
from satella.exceptions import Empty, WouldWaitMore


def ok(rs):
    for k, v in rs:
        if k == 'exc':
            raise v
    return [v for k, v in rs]


def fifo(q, consumed_lists, all_items, prod_orders):
    """each item exactly once; per-producer order kept within each consumer; leftovers in order"""
    left = []
    while q.qsize():
        left.append(q.get(timeout=1))
    got = [x for c in consumed_lists for x in c]
    require(sorted(got + left) == sorted(all_items), 'items lost or duplicated: consumed %s, left %s of %s',
            consumed_lists, left, all_items)
    for c in list(consumed_lists) + [left]:
        for po in prod_orders:
            sub = [x for x in c if x in po]
            require(sub == sorted(sub, key=po.index), 'order broken: %s', c)
    return got, left


def producer_consumer():
    q = PeekableQueue()
    how = pick(['put', 'many', 'mixed'])

    def prod():
        if how == 'put':
            q.put(1)
            q.put(2)
        elif how == 'many':
            q.put_many([1, 2])
        else:
            q.put_many(iter([1]))
            q.put(2)

    def cons():
        return [q.get(), q.get()]
    r = ok(par(cons, prod))
    require(r[0] == [1, 2], 'FIFO broken: %s', r[0])
    require(q.qsize() == 0, 'not empty')
    return how


def two_getters():
    q = PeekableQueue()
    how = pick(['put', 'many'])

    def prod():
        if how == 'put':
            q.put(1)
            q.put(2)
        else:
            q.put_many((1, 2))
    r = ok(par(q.get, q.get, prod))
    require(sorted(r[:2]) == [1, 2], 'not exactly once: %s', r)
    return how, r[0]


def peeker_first():
    """getter and peeker both wait; a put serves the getter, and the peeker once an item stays"""
    q = PeekableQueue()
    order = pick(['pg', 'gp'])
    got = []

    def get():
        advance(1 if order == 'pg' else 2)
        got.append(q.get())

    def peek():
        advance(2 if order == 'pg' else 1)
        return q.peek()

    def prod():
        advance(3)
        q.put(1)
        advance(1)
        require(got == [1], 'an item is there, but the getter still sleeps')
        q.put(2)
    r = ok(par(get, peek, prod))
    require(r[1] in (1, 2), 'peeked %s', r[1])
    require(q.get() == 2 and q.qsize() == 0, 'item lost')
    return order, r[1]


def two_peekers():
    q = PeekableQueue()
    r = ok(par(q.peek, q.peek, lambda: q.put(3)))
    require(r[:2] == [3, 3], 'peeked %s', r)
    require(q.qsize() == 1 and q.get() == 3, 'peek consumed')


def timeouts():
    q = PeekableQueue()
    at = pick([0.5, 1, 1.5, None])
    op = pick(['get', 'peek'])
    to = pick([1, 0])

    def cons():
        try:
            v = getattr(q, op)(timeout=to)
        except (Empty, WouldWaitMore) as e:
            require(op == 'peek' or isinstance(e, Empty), 'wrong exception %r', e)
            return None, clock()
        return v, clock()

    def prod():
        if at is not None:
            advance(at)
            q.put(5)
    r = ok(par(cons, prod))
    v, t = r[0]
    if at is None or at > to:
        require(v is None and abs(t - to) < 1e-6, 'put at %s, timeout %s: %s at %s', at, to, v, t)
    elif at < to:
        require(v == 5 and t == at, 'item put at %s delivered: %s at %s', at, v, t)
    else:
        require(abs(t - to) < 1e-6, 'ended at %s', t)
    left = q.qsize()
    require(left == (1 if at is not None else 0) - (1 if v is not None and op == 'get' else 0), 'item lost: %s left', left)
    return at, op, v


def timed_and_untimed():
    """a getter that times out must not take the wake-up of another getter with it"""
    q = PeekableQueue()

    def timed():
        try:
            return q.get(timeout=1)
        except Empty:
            return None

    def prod():
        advance(1)
        q.put(1)
        if pick([0, 1]):
            advance(5)
        q.put(2)
    r = ok(par(timed, q.get, prod))
    require(r[1] in (1, 2), 'wrong %s', r)
    got = [x for x in r[:2] if x is not None]
    require(len(set(got)) == len(got), 'delivered twice: %s', r)
    if r[0] is None:
        require(r[1] == 1, 'order broken: %s', r)
        require(q.qsize() == 1 and q.get() == 2, 'item lost')
    return r[:2]


def prompt():
    """no consumer sleeps while an item for it is there (checked on the clock)"""
    q = PeekableQueue()

    def cons():
        v = q.get(timeout=10)
        return v, clock()

    def prod():
        q.put(1)
        q.put(2)
    r = ok(par(cons, cons, prod))
    require(sorted(x[0] for x in r[:2]) == [1, 2], 'wrong %s', r)
    require(all(x[1] == 0 for x in r[:2]), 'served late: %s', r)


def two_producers():
    q = PeekableQueue()
    r = ok(par(lambda: (q.put('a1'), q.put('a2')), lambda: q.put_many(['b1', 'b2']), lambda: [q.get(), q.get()]))
    fifo(q, [r[2]], ['a1', 'a2', 'b1', 'b2'], [['a1', 'a2'], ['b1', 'b2']])


def bulk_producers():
    """what was put at once comes out in a row"""
    q = PeekableQueue()
    if pick([True, False]):
        ok(par(lambda: q.put_many(['a1', 'a2']), lambda: q.put_many(iter(['b1', 'b2', 'b3']))))
    else:
        ok(par(lambda: (q.put('a1'), q.put('a2')), lambda: q.put_many(['b1', 'b2', 'b3'])))
    got = [q.get() for _ in range(5)]
    i = got.index('b1')
    require(got[i:i + 3] == ['b1', 'b2', 'b3'], 'put at once, came out as %s', got)
    require(got.index('a1') < got.index('a2'), 'order %s', got)


class Ctx:
    def __init__(self):
        self.q = PeekableQueue()
        self.m = []
        self.n = 0


def apply(c, op):
    q, m = c.q, c.m
    if op == 'put':
        c.n += 1
        q.put(c.n)
        m.append(c.n)
    elif op[0] == 'many':
        xs = [c.n + i + 1 for i in range(op[1])]
        c.n += op[1]
        q.put_many(xs if op[1] != 2 else tuple(xs))
        m.extend(xs)
    elif op in ('get', 'get0', 'peek', 'peek0'):
        if not m and not op.endswith('0'):
            return
        try:
            v = {'get': lambda: q.get(), 'peek': lambda: q.peek(), 'get0': lambda: q.get(timeout=0),
                 'peek0': lambda: q.peek(timeout=0)}[op]()
        except (Empty, WouldWaitMore):
            require(not m, 'reported empty with %s inside', m)
            return
        require(m, 'returned %r from an empty queue', v)
        require(v == m[0], 'returned %r, head is %r', v, m[0])
        if op.startswith('get'):
            m.pop(0)
    require(q.qsize() == len(m), 'size %s, expected %s', q.qsize(), len(m))


def fin(c):
    out = []
    while c.q.qsize():
        out.append(c.q.get())
    require(out == c.m, 'content %s, expected %s', out, c.m)


def falsy():
    """items that are false or None are items"""
    q = PeekableQueue()
    for x in (None, 0, '', False, []):
        q.put(x)
        require(q.peek(timeout=1) == x and q.get(timeout=1) == x, 'lost %r', x)
    q.put_many([])
    require(q.qsize() == 0, 'empty put_many added something')
    r = ok(par(q.get, lambda: q.put(None)))
    require(r[0] is None, 'lost None')


def jobs(tier):
    q = tier == 'quick'
    oq = ['concurrent/queue.py']
    b = 2 if q else 3
    return [
        SeqJob('sequences', Ctx, ['put', ('many', 0), ('many', 1), ('many', 2), ('many', 3), 'get', 'get0', 'peek', 'peek0'],
               apply, 5 if q else 7, finish=fin),
        SchedJob('falsy', falsy, bound=1, only=oq),
        SchedJob('producer-consumer', producer_consumer, bound=b, only=oq),
        SchedJob('two-getters', two_getters, bound=2 if q else 3, only=oq),
        SchedJob('getter-peeker', getter_peeker2, bound=2 if q else 3, only=oq),
        SchedJob('peeker-first', peeker_first, bound=b, only=oq),
        SchedJob('two-peekers', two_peekers, bound=2 if q else 3, only=oq),
        SchedJob('timeouts', timeouts, bound=b, only=oq),
        SchedJob('timed-and-untimed', timed_and_untimed, bound=2 if q else 3, only=oq),
        SchedJob('prompt', prompt, bound=2 if q else 3, only=oq),
        SchedJob('two-producers', two_producers, bound=2 if q else 3, only=oq),
        SchedJob('bulk-producers', bulk_producers, bound=2 if q else 3, only=oq),
    ]


def getter_peeker2():
    q = PeekableQueue()
    r = ok(par(q.peek, q.get, lambda: q.put_many([7, 8])))
    require(r[0] in (7, 8) and r[1] == 7, 'wrong: %s', r)
    require(q.qsize() == 1 and q.get() == 8, 'second item lost')
    return r
