"""
C18: ListDeleter, DictDeleter, PushIterable, Subqueue.
"""
import collections
import copy
import itertools
import queue

from mc.jobs import SeqJob, EnumJob, SchedJob
from mc.sched import require, par, pick, Violation, clock, advance
from satella.coding import ListDeleter, DictDeleter
from satella.coding.structures import PushIterable, Subqueue


class MinSeq:
    """supports len, pop(position) and item access only"""

    def __init__(self, xs):
        self._xs = list(xs)

    def __len__(self):
        return len(self._xs)

    def __getitem__(self, i):
        if not isinstance(i, int):
            raise TypeError('no slicing here')
        return self._xs[i]

    def pop(self, i):
        return self._xs.pop(i)


class Boom(Exception):
    pass


def raw(xs):
    return xs._xs if isinstance(xs, MinSeq) else list(xs)


# ------------------------------------------------------------------ ListDeleter: one pass, every mark set
def list_passes():
    for n in range(6):
        for vals in {tuple(range(n)), tuple(i % 2 for i in range(n)), (7,) * n}:
            for marks in itertools.product([0, 1], repeat=n):
                for back in (False, True):
                    for how in ('for', 'next', 'raise', 'min', 'twice-reversed', 'break', 'double'):
                        yield vals, marks, back, how
    for n in (9, 10, 17):       # more than a small set keeps in order
        for back in (False, True):
            for k in (1, 2, 3):
                for idx in itertools.combinations(range(n), k):
                    yield tuple(range(n)), tuple(int(i in idx) for i in range(n)), back, 'for'


def list_pass(case):
    vals, marks, back, how = case
    a = MinSeq(vals) if how == 'min' else list(vals)
    ld = ListDeleter(a)
    if how == 'twice-reversed':
        ld = reversed(reversed(ld))
    if back:
        ld = reversed(ld)
    order = list(range(len(vals)))
    if back:
        order.reverse()
    seen = []

    def visit(v):
        i = len(seen)
        require(i < len(order), 'visited %s and then %s of %s', seen, v, vals)
        seen.append(v)
        require(v == vals[order[i]], 'visited %s of %s', seen, vals)
        require(ld() == v and ld.value == v, 'current element')
        if marks[order[i]]:
            ld.delete()
            if how == 'double':
                ld.delete()
    want = [v for v, m in zip(vals, marks) if not m]
    if how == 'next':
        while True:
            try:
                v = ld.next()
            except StopIteration:
                break
            visit(v)
        require(raw(a) == list(vals), 'changed before remove_items')
        ld.remove_items()
    elif how == 'raise':
        try:
            with ld:
                for v in ld:
                    visit(v)
                raise Boom()
        except Boom:
            pass
        else:
            raise Violation('exception swallowed')
    elif how == 'break':
        with ld:
            for v in ld:
                visit(v)
                if len(seen) == (len(vals) + 1) // 2:
                    break
        gone = {i for i in order[:len(seen)] if marks[i]}
        want = [v for i, v in enumerate(vals) if i not in gone]
        require(raw(a) == want, 'left %s of %s, expected %s', raw(a), vals, want)
        return
    else:
        with ld as l2:
            for v in l2:
                visit(v)
            require(raw(a) == list(vals), 'changed before leaving')
    require(len(seen) == len(vals), 'visited %s of %s', seen, vals)
    require(raw(a) == want, 'left %s of %s, expected %s', raw(a), vals, want)


# ------------------------------------------------------------------ ListDeleter: programs of next, prev, delete
class LCtx:
    def __init__(self, vals, back):
        self.vals = vals
        self.a = list(vals)
        self.ld = reversed(ListDeleter(self.a)) if back else ListDeleter(self.a)
        self.d = -1 if back else 1
        self.i = len(vals) if back else -1
        self.marks = set()

    def on(self):
        return 0 <= self.i < len(self.vals)


def lops(c):
    return ['next', 'prev', 'copy'] + (['delete'] if c.on() else [])


def lapply(c, op):
    if op == 'delete':
        c.ld.delete()
        c.marks.add(c.i)
    elif op == 'copy':
        o = copy.copy(c.ld)
        if c.on():
            c.ld, o = o, c.ld
            require(c.ld() == o(), 'copy points elsewhere')
            try:
                o.next()
                o.delete()
            except StopIteration:
                pass
    else:
        c.i = max(-1, min(len(c.vals), c.i + (c.d if op == 'next' else -c.d)))
        try:
            v = c.ld.next() if op == 'next' else c.ld.prev()
        except StopIteration:
            require(not c.on(), '%s found no element, expected %s', op, c.vals[c.i] if c.on() else None)
        else:
            require(c.on() and v == c.vals[c.i], '%s gave %s', op, v)
            require(c.ld() == v, 'current element')


def lfinish(c):
    require(c.a == list(c.vals), 'changed early')
    with c.ld:
        pass
    want = [v for i, v in enumerate(c.vals) if i not in c.marks]
    require(c.a == want, 'left %s of %s, expected %s', c.a, c.vals, want)
    c.ld.remove_items()
    require(c.a == want, 'removed once more')


# ------------------------------------------------------------------ DictDeleter
def dict_passes():
    for n in range(6):
        for marks in itertools.product([0, 1], repeat=n):
            for mode in ('keys', 'values', 'items', 'plain', 'items+keys'):
                for how in ('ok', 'raise', 'double', 'ordered', 'again'):
                    yield n, marks, mode, how


def dict_pass(case):
    n, marks, mode, how = case
    d = {('k', i): i % 2 for i in range(n)}
    if how == 'ordered':
        d = collections.OrderedDict(d)
    orig = list(d.items())
    dd = DictDeleter(d)

    def view():
        if mode == 'plain':
            return dd
        if mode == 'items+keys':
            dd.items()
            return dd.keys()
        return getattr(dd, mode)()

    def loop():
        seen = []
        for x in view():
            i = len(seen)
            require(i < n, 'too many')
            seen.append(x)
            require(x == (orig[i] if mode == 'items' else orig[i][1] if mode == 'values' else orig[i][0]), 'visited %s', seen)
            if marks[i]:
                dd.delete()
                if how == 'double':
                    dd.delete()
        require(len(seen) == n, 'visited %s', seen)
        require(list(d.items()) == orig, 'changed early')
    try:
        with dd:
            loop()
            if how == 'raise':
                raise Boom()
    except Boom:
        pass
    want = [kv for kv, m in zip(orig, marks) if not m]
    require(list(d.items()) == want, 'left %s expected %s', d, want)
    if how == 'again':      # the same object used in another context
        orig = want
        n, marks = len(want), (0,) * len(want)
        with dd:
            loop()
        require(list(d.items()) == want, 'second context left %s expected %s', d, want)


# ------------------------------------------------------------------ PushIterable
class PCtx:
    def __init__(self, n, gen):
        self.p = PushIterable((i for i in range(n)) if gen else list(range(n)))
        self.under = collections.deque(range(n))
        self.buf = []
        self.k = 100


def papply(c, op):
    if op in ('push', 'push_left'):
        c.k += 1
        getattr(c.p, op)(c.k)
        if op == 'push':
            c.buf.insert(0, c.k)
        else:
            c.buf.append(c.k)
    else:
        want = c.buf.pop(0) if c.buf else c.under.popleft() if c.under else None
        try:
            v = c.p.pop() if op == 'pop' else next(c.p)
        except StopIteration:
            v = None
        require(v == want, '%s gave %s, expected %s', op, v, want)


def pfinish(c):
    want = c.buf + list(c.under)
    require(list(c.p) == want, 'rest')
    c.p.push(5)
    require(next(c.p) == 5, 'push after the end')


def push_many(n, gen, many, pops):
    c = PCtx(n, gen)
    for i in range(many):
        papply(c, ('push', 'push_left', 'push')[i % 3])
    for i in range(pops):
        papply(c, 'next')
    pfinish(c)


# ------------------------------------------------------------------ Subqueue
NAMES = ('a', 'b', '')


class QCtx:
    def __init__(self):
        self.s = Subqueue()
        self.m = {n: [] for n in NAMES}
        self.k = 0


def qapply(c, op):
    k, n = op
    if k == 'put':
        c.k += 1
        v = c.k if c.k != 2 else None
        c.s.put(n, v)
        c.m[n].append(v)
    elif k == 'assert':
        c.s.assert_queue(n)
    elif k in ('get', 'get-timeout'):
        try:
            t0 = clock()
            v = c.s.get(n, block=False) if k == 'get' else c.s.get(n, True, 2)
        except queue.Empty:
            require(not c.m[n], 'Empty with %s', c.m)
        else:
            require(c.m[n] and v == c.m[n].pop(0), 'got %s', v)
    elif k == 'any':
        try:
            n, v = c.s.get_any()
        except queue.Empty:
            require(not any(c.m.values()), 'Empty with %s', c.m)
        else:
            require(c.m[n] and v == c.m[n].pop(0), 'any gave %s of %s', v, n)
    require(c.s.qsize() == sum(map(len, c.m.values())), 'size %s of %s', c.s.qsize(), c.m)


QOPS = [(k, n) for n in NAMES for k in ('put', 'get')] + [('any', None), ('assert', 'a')]


def ok(rs):
    for k, v in rs:
        if k == 'exc':
            raise v
    return [v for k, v in rs]


def sub_two_puts():
    s = Subqueue()
    names = pick([('a', 'a'), ('a', 'b')])
    third = pick([None, 'any', 'qsize', 'get'])

    def other():
        s.put(names[1], 2)
        if third == 'any':
            return s.get_any()
        if third == 'get':
            return (names[1], s.get(names[1]))
        if third == 'qsize':
            require(s.qsize() in (1, 2), 'size')
    r = ok(par(lambda: s.put(names[0], 1), other))[1]
    left = {(names[0], 1), (names[1], 2)}
    if third in ('any', 'get'):
        require(r in left, 'got %s', r)
        left.remove(r)
    require(s.qsize() == len(left), 'size %s', s.qsize())
    got = set()
    for _ in left:
        got.add(s.get_any())
    require(got == left, 'left %s, expected %s', got, left)


def sub_blocking():
    s = Subqueue()
    if pick([0, 1]):
        s.put('x', 9)

    def getter():
        return s.get('a')

    def putter():
        s.put('b', 5)
        s.put('a', 1)
        s.put('a', 2)
    require(ok(par(getter, putter))[0] == 1, 'wrong item')
    require(s.get('a') == 2 and s.get('b') == 5, 'rest')


def sub_any_vs_put():
    s = Subqueue()
    s.put('a', 1)
    r = ok(par(s.get_any, lambda: (s.put('b', 2), s.put('c', 3))))[0]
    require(r in (('a', 1), ('b', 2), ('c', 3)), 'got %s', r)
    require(s.qsize() == 2, 'size')


def sub_any_vs_any():
    """several takers and fewer items: nobody blocks, nothing is given twice"""
    s = Subqueue()
    left = {('a', 1), ('b', 2)}
    for n, v in left:
        s.put(n, v)
    if pick([0, 1]):
        left.discard(('b', s.get('b')))

    def take():
        try:
            return s.get_any()
        except queue.Empty:
            return None

    def take_a():
        try:
            return 'a', s.get('a', block=False)
        except queue.Empty:
            return None
    second = pick([take, take_a])
    r = ok(par(take, second))
    got = [x for x in r if x is not None]
    require(len(set(got)) == len(got) and set(got) <= left, 'took %s of %s', r, left)
    if len(got) < len(left):
        require(second is take_a and got in ([('a', 1)], []) or len(left) == 1 and len(got) == 1, 'took %s of %s', r, left)
    require(s.qsize() == len(left) - len(got), 'size')


def sub_timeout():
    s = Subqueue()
    for limit in (3, 0, 0.5):
        t0 = clock()
        try:
            s.get('a', timeout=limit)
        except queue.Empty:
            require(limit - 0.01 <= clock() - t0 <= limit + 1, 'waited %s of %s', clock() - t0, limit)
        else:
            raise Violation('no Empty')
    s.put('a', 7)
    require(s.get('a', timeout=0) == 7, 'an element that is there')


def jobs(tier):
    q = tier == 'quick'
    o = ['structures/queues.py']
    out = [EnumJob('list-passes', list_passes, list_pass, shards=4), EnumJob('dict-passes', dict_passes, dict_pass, shards=2)]
    for vals in ((), (1,), (1, 2), (5, 5, 6), (1, 2, 3, 4)):
        for back in (0, 1):
            out.append(SeqJob('list-moves-%d-%d' % (len(vals), back), lambda vals=vals, back=back: LCtx(vals, back), lops, lapply,
                              finish=lfinish, depth=14 if q else 18))
    for n in (0, 2):
        for gen in (0, 1):
            out.append(EnumJob('push-many-%d-%d' % (n, gen), lambda: itertools.product([50, 100, 500], [0, 1, 49]),
                               lambda case, n=n, gen=gen: push_many(n, gen, *case)))
            out.append(SeqJob('push-%d-%d' % (n, gen), lambda n=n, gen=gen: PCtx(n, gen), ['push', 'push_left', 'pop', 'next'], papply,
                              finish=pfinish, depth=9 if q else 11))
    out.append(SeqJob('subqueue', QCtx, QOPS, qapply, depth=6 if q else 7))
    out += [SchedJob(n, f, bound=2 if q else 3, only=o) for n, f in
            (('sub-two-puts', sub_two_puts), ('sub-blocking', sub_blocking), ('sub-any-vs-put', sub_any_vs_put),
             ('sub-any-vs-any', sub_any_vs_any), ('sub-timeout', sub_timeout))]
    return out
