"""
C15: ExclusiveWritebackCache. Operation sequences with an executor whose jobs the exploration runs in any order, and
schedules with a real thread pool. Oracle: a dict holding the last operation per key; the store logs what it was sent.
"""
from concurrent.futures import Executor, Future, ThreadPoolExecutor

from mc.jobs import SeqJob, SchedJob
from mc.sched import require, par, pick, Violation, advance, clock
from satella.coding.structures import ExclusiveWritebackCache
from satella.exceptions import WouldWaitMore

GONE = '<gone>'


class LazyFuture(Future):
    def result(self, timeout=None):
        if not self.done():
            self.pool.run_one(self)
        return super().result(0)


class Pool(Executor):
    def __init__(self):
        self.pending = []

    def submit(self, fn, *args, **kwargs):
        f = LazyFuture()
        f.pool = self
        self.pending.append((f, fn, args, kwargs))
        return f

    def run_one(self, fut):
        i = [j[0] for j in self.pending].index(fut)
        f, fn, a, k = self.pending.pop(i)
        try:
            r = fn(*a, **k)
        except BaseException as e:
            fut.set_exception(e)
        else:
            fut.set_result(r)


class Store:
    def __init__(self, init, delay=None):
        self.data = dict(init)
        self.log = []
        self.reads = 0
        self.delay = delay

    def slow(self):
        if self.delay is not None:
            advance(self.delay)

    def write(self, k, v):
        self.log.append((k, v))
        self.slow()
        self.data[k] = v

    def read(self, k):
        self.reads += 1
        v = self.data.get(k, GONE)
        self.slow()
        if v == GONE:
            raise KeyError(k)
        return v

    def delete(self, k):
        self.log.append((k, GONE))
        self.slow()
        del self.data[k]


def read(w, k):
    try:
        return w[k]
    except KeyError:
        return GONE


# ------------------------------------------------------------------ sequences
class Ctx:
    def __init__(self, init, ske):
        self.s = Store(init)
        self.pool = Pool()
        self.w = ExclusiveWritebackCache(self.s.write, self.s.read, self.s.delete, executor=self.pool,
                                         store_key_errors=ske)
        self.m = dict(init)
        self.issued = []


def ops(c):
    out = []
    for k in ('a', 'b'):
        out += [('set', k, 1), ('set', k, 2), ('del', k), ('get', k)]
    out += [('run', i) for i in range(len(c.pool.pending))]
    out.append(('many',))
    return out


def apply(c, op):
    k = op[0]
    if k == 'set':
        c.w[op[1]] = op[2]
        c.m[op[1]] = op[2]
        c.issued.append((op[1], op[2]))
    elif k == 'del':
        del c.w[op[1]]
        c.m[op[1]] = GONE
        c.issued.append((op[1], GONE))
    elif k == 'get':
        v = read(c.w, op[1])
        require(v == c.m.get(op[1], GONE), 'read %s of %s, written last was %s', v, op[1], c.m.get(op[1], GONE))
    elif k == 'run':
        c.pool.run_one(c.pool.pending[op[1]][0])
    elif k == 'many':
        for _ in range(105):
            read(c.w, 'other')
    order(c.s.log, c.issued)


def order(log, issued):
    for k in {k for k, _ in log}:
        sent = [v for x, v in log if x == k]
        want = [v for x, v in issued if x == k]
        require(sent == want[:len(sent)], 'the store was sent %s on key %s, issued were %s', sent, k, want)


def finish(c):
    while c.pool.pending:
        c.pool.run_one(c.pool.pending[-1][0])
    order(c.s.log, c.issued)
    want = {k: v for k, v in c.m.items() if v != GONE}
    require(c.s.data == want, 'the store holds %s, expected %s', c.s.data, want)
    for k in ('a', 'b'):
        require(read(c.w, k) == c.m.get(k, GONE), 'read of %s afterwards', k)


# ------------------------------------------------------------------ schedules
def setup(init, workers=2, ske=True, delay=0):
    s = Store(init, delay)
    ex = ThreadPoolExecutor(max_workers=workers)
    w = ExclusiveWritebackCache(s.write, s.read, s.delete, executor=ex, no_concurrent_executors=workers,
                                store_key_errors=ske)
    return s, ex, w


def ok(rs):
    for k, v in rs:
        if k == 'exc':
            raise v
    return [v for k, v in rs]


def drained(s, ex, how, w):
    if how == 'sync':
        w.sync()
    elif how == 'shutdown':
        ex.shutdown()
        return
    else:
        advance(30)


def burst(workers):
    """operations issued in a row on one key (and one on another) reach the store in order, and are all there after it"""
    def body():
        s, ex, w = setup({'k': 0, 'q': 0}, workers)
        prog = pick([('w1', 'w2'), ('w1', 'del'), ('del', 'w1'), ('w1', 'w2', 'w3'), ('r', 'w1', 'w2'), ('del', 'w2', 'del')])
        last, issued = 0, []
        for p in prog:
            if p == 'r':
                require(read(w, 'k') == last, 'read')
                continue
            if p == 'del':
                del w['k']
                last = GONE
            else:
                w['k'] = last = p
            issued.append(('k', last))
            v = read(w, 'k')
            require(v == last, 'read %s after %s', v, last)
        w['q'] = 7
        issued.append(('q', 7))
        how = pick(['sync', 'shutdown', 'wait'])
        drained(s, ex, how, w)
        order(s.log, issued)
        require(sorted(map(str, s.log)) == sorted(map(str, issued)), 'the store was sent %s, issued %s', s.log, issued)
        want = {'k': last, 'q': 7}
        if last == GONE:
            del want['k']
        require(s.data == want, 'after %s the store holds %s, expected %s', how, s.data, want)
        if how != 'shutdown':
            require(read(w, 'k') == last, 'read afterwards')
            ex.shutdown()
    return body


def read_vs_modify():
    """a reader that finds nothing cached, against a writer or deleter"""
    ske = pick([True, False])
    init = pick([{'k': 0}, {}])
    s, ex, w = setup(init, 2, ske)
    what = pick(['write', 'delete'])
    if what == 'delete' and not init:
        what = 'write'
    end = 1 if what == 'write' else GONE

    def modify():
        if what == 'write':
            w['k'] = 1
        else:
            del w['k']
        v = read(w, 'k')
        require(v == end, 'read %s after having stored %s', v, end)
    r = ok(par(lambda: read(w, 'k'), modify))[0]
    require(r in (init.get('k', GONE), end), 'read %s', r)
    for _ in range(2):
        v = read(w, 'k')
        require(v == end, 'read %s, stored last was %s', v, end)
    ex.shutdown()
    require(s.data.get('k', GONE) == end, 'the store holds %s', s.data)


def two_writers():
    s, ex, w = setup({'k': 0}, pick([1, 2]))
    ops2 = pick([('w', 'w'), ('w', 'd')])

    def go(i, o):
        if o == 'w':
            w['k'] = i
        else:
            del w['k']
    ok(par(lambda: go(1, ops2[0]), lambda: go(2, ops2[1])))
    v = read(w, 'k')
    ex.shutdown()
    require(v in ((1, 2) if ops2 == ('w', 'w') else (1, GONE)), 'read %s', v)
    require(len(s.log) == 2, 'the store was sent %s', s.log)
    require(s.data.get('k', GONE) == v, 'the cache says %s, the store holds %s', v, s.data)
    require(s.log[-1] == ('k', v), 'the last sent is %s, the cache says %s', s.log[-1], v)


def delete_then_read():
    """a deleted key reads as missing, also while the deletion is on its way"""
    ske = pick([True, False])
    s, ex, w = setup({'k': 0}, 2, ske, delay=pick([0, 5]))
    pre = pick([None, 'read', 'write'])
    if pre == 'read':
        read(w, 'k')
    elif pre == 'write':
        w['k'] = 1
    del w['k']
    for _ in range(2):
        v = read(w, 'k')
        require(v == GONE, 'read %s of a deleted key', v)
    ex.shutdown()
    require('k' not in s.data, 'still in the store')


def sync_timeout():
    """sync with a timeout: returns with everything written, or raises once the time is over"""
    workers = pick([1, 2])
    delay = pick([1, 60])
    s, ex, w = setup({}, workers, delay=delay)
    for i in range(3):
        w[i % 2] = i
    t0 = clock()
    try:
        w.sync(timeout=20)
    except WouldWaitMore:
        require(delay == 60, 'gave up too early')
        require(clock() - t0 < 25, 'gave up only after %s s', clock() - t0)
    else:
        require(delay == 1, 'sync returned with writes pending')
        require(s.data == {0: 2, 1: 1}, 'the store holds %s after sync', s.data)
    ex.shutdown()
    require(s.data == {0: 2, 1: 1}, 'the store holds %s', s.data)


def no_delete():
    s, ex, w = setup({'k': 1}, 1)
    w2 = ExclusiveWritebackCache(s.write, s.read, executor=ex)
    try:
        del w2['k']
    except TypeError:
        pass
    else:
        raise Violation('deleted without a delete method')
    require(w2['k'] == 1, 'read')
    n = s.reads
    require(w2['k'] == 1 and s.reads == n, 'a cached value was read again')
    require(read(w, 'x') == GONE, 'missing key')
    n = s.reads
    require(read(w, 'x') == GONE and s.reads == n, 'a remembered missing key was read again')
    ex.shutdown()
    require(s.data == {'k': 1}, 'store changed')


def jobs(tier):
    q = tier == 'quick'
    o = ['dictionaries/writeback_cache.py']
    out = []
    for ske in (True, False):
        for init in ({}, {'a': 0, 'b': 0}):
            out.append(SeqJob('seq-%s-%d' % (ske, len(init)), lambda ske=ske, init=init: Ctx(init, ske), ops, apply,
                              depth=5 if q else 6, finish=finish, shards=4))
    for n in (1, 2):
        out.append(SchedJob('burst-%d' % n, burst(n), bound=1 if q or n == 2 else 2, only=o))
    out.append(SchedJob('read-vs-modify', read_vs_modify, bound=1 if q else 2, only=o))
    out.append(SchedJob('two-writers', two_writers, bound=1 if q else 2, only=o))
    out.append(SchedJob('delete-then-read', delete_then_read, bound=1, only=o))
    out.append(SchedJob('sync-timeout', sync_timeout, bound=0 if q else 1, only=o))
    out.append(SchedJob('no-delete', no_delete, bound=1, only=o))
    return out
