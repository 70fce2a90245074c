"""
C11: Heap, SetHeap, TimeBasedHeap, TimeBasedSetHeap against multiset / mapping models.
"""
import copy
import itertools

from mc.jobs import SeqJob, EnumJob
from mc.sched import require, Violation
from satella.coding.structures import Heap, SetHeap, TimeBasedHeap, TimeBasedSetHeap


class Opaque:
    """not orderable; equality and hash by name"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return 'O' + self.n


def drain(h):
    out = []
    while h:
        out.append(h.pop())
        require(len(out) < 100, 'endless heap')
    try:
        h.pop()
    except IndexError:
        pass
    else:
        raise Violation('popped from an empty heap')
    return out


# ------------------------------------------------------------------ Heap, SetHeap
class HCtx:
    def __init__(self, cls, dedup, init):
        self.h = cls(init) if init is not None else cls()
        self.dedup = dedup
        self.m = sorted(set(init or ()) if dedup else list(init or ()))

    def norm(self):
        self.m = sorted(set(self.m)) if self.dedup else sorted(self.m)


def h_ops(c):
    ops = [('push', x) for x in (1, 2, 3)] + [('pop',), ('many', (3, 1)), ('many', (2, 2)), ('many', ()),
                                            ('filter', 2), ('map',), ('filtermap',), ('mapdup',)]
    ops += [('pop_item', x) for x in (1, 2, 3)]
    ops += [('copy',), ('deepcopy',)]
    return ops


def h_apply(c, op):
    h, k = c.h, op[0]
    if k == 'push':
        h.push(op[1])
        c.m.append(op[1])
    elif k == 'many':
        h.push_many(iter(op[1]))
        c.m.extend(op[1])
    elif k == 'pop':
        try:
            r = h.pop()
        except IndexError:
            require(not c.m, 'pop failed with %s inside', c.m)
        else:
            require(c.m and r == c.m[0], 'popped %s of %s', r, c.m)
            c.m.pop(0)
    elif k == 'pop_item':
        try:
            r = h.pop_item(op[1])
        except ValueError:
            require(op[1] not in c.m, 'pop_item(%s) failed', op[1])
        else:
            require(op[1] in c.m and r == op[1], 'pop_item(%s) returned %s of %s', op[1], r, c.m)
            c.m.remove(op[1])
    elif k == 'filter':
        h.filter_map(filter_fun=lambda x: x != op[1])
        c.m = [x for x in c.m if x != op[1]]
    elif k == 'map':
        h.filter_map(map_fun=lambda x: 4 - x)
        c.m = [4 - x for x in c.m]
    elif k == 'filtermap':
        h.filter_map(lambda x: x > 1, lambda x: 5 - x)
        c.m = [5 - x for x in c.m if x > 1]
    elif k == 'mapdup':
        h.filter_map(map_fun=lambda x: min(x, 2))
        c.m = [min(x, 2) for x in c.m]
    elif k == 'copy' or k == 'deepcopy':
        new = getattr(copy, k)(h)
        require(type(new) is type(h) and new is not h, 'copy is a %s', type(new))
        keep = sorted(h)
        new.push(0)
        require(sorted(h) == keep, 'copy shares data')
        require(0 in new and 0 not in h, 'membership of the copy')
        new.pop()
        c.h = new
    c.norm()
    h = c.h
    require(len(h) == len(c.m) and bool(h) == bool(c.m), 'length %s, expected %s', len(h), len(c.m))
    require(sorted(h) == c.m, 'content %s, expected %s', sorted(h), c.m)
    require(list(h.iter_ascending()) == c.m, 'ascending %s of %s', list(h.iter_ascending()), c.m)
    require(list(h.iter_descending()) == c.m[::-1], 'descending %s of %s', list(h.iter_descending()), c.m)
    for x in range(6):
        require((x in h) == (x in c.m), '%s in heap: %s, content %s', x, x in h, c.m)


def h_finish(c):
    got = drain(c.h)
    require(got == c.m, 'drained %s, expected %s', got, c.m)


def push_tuple():
    h = Heap()
    h.push(2, 'b')
    h.push(1, 'a')
    require(h.pop() == (1, 'a') and h.pop() == (2, 'b'), 'push with several arguments')


def heap_inits():
    for n in range(5):
        for xs in itertools.product((1, 2, 3), repeat=n):
            yield xs


def check_init(xs):
    for cls in (Heap, SetHeap):
        h = cls(iter(xs)) if len(xs) % 2 else cls(list(xs))
        want = sorted(set(xs)) if cls is SetHeap else sorted(xs)
        require(len(h) == len(want), '%s(%s) has %s elements', cls.__name__, xs, len(h))
        src = list(xs)
        require(drain(h) == want, '%s(%s)', cls.__name__, xs)
        h = cls(src)
        h.push(9)
        require(src == list(xs), 'source list changed')
    push_tuple()
    return 1


# ------------------------------------------------------------------ time based
class TCtx:
    def __init__(self, unique, opaque):
        self.now = 0
        self.unique = unique
        self.h = (TimeBasedSetHeap if unique else TimeBasedHeap)(default_clock_source=lambda: self.now)
        self.m = []          # (ts, name)
        self.mk = (lambda n: Opaque(n)) if opaque else (lambda n: n)
        self.nm = (lambda o: o.n) if opaque else (lambda o: o)

    def put(self, ts, n):
        if self.unique:
            self.m = [x for x in self.m if x[1] != n]
        self.m.append((ts, n))


def t_ops(c):
    ops = []
    for n in 'ab':
        ops += [('put', t, n) for t in (1, 2)]
    ops += [('put', 1, 'c'), ('putnow', 'a'), ('tick',), ('pop',), ('due',), ('due', 2), ('due', 3), ('duepart',),
            ('many',)]
    ops += [(k, n) for k in ('pop_item', 'remove', 'get_ts') for n in 'ab']
    ops += [('pop_timestamp', 1), ('pop_timestamp', 2), ('filter',), ('copy',), ('deepcopy',)]
    return ops


def t_apply(c, op):
    h, k = c.h, op[0]
    if k == 'put':
        h.put(op[1], c.mk(op[2]))
        c.put(op[1], op[2])
    elif k == 'putnow':
        h.put(c.mk(op[1]))
        c.put(c.now, op[1])
    elif k == 'many':
        h.push_many([(2, c.mk('a')), (1, c.mk('b'))])
        c.put(2, 'a')
        c.put(1, 'b')
    elif k == 'tick':
        c.now = (c.now + 1) % 4
    elif k == 'pop':
        try:
            ts, o = h.pop()
        except IndexError:
            require(not c.m, 'pop failed with %s inside', c.m)
        else:
            e = (ts, c.nm(o))
            require(e in c.m and ts == min(x[0] for x in c.m), 'popped %s of %s', e, c.m)
            c.m.remove(e)
    elif k in ('due', 'duepart'):
        less = op[1] if len(op) > 1 else None
        it = h.pop_less_than(less) if less is not None else h.pop_less_than()
        lim = less if less is not None else c.now
        if k == 'duepart':
            got = list(itertools.islice(it, 1))
        else:
            got = list(it)
        got = [(ts, c.nm(o)) for ts, o in got]
        want = [x for x in c.m if x[0] < lim]
        require([x[0] for x in got] == sorted(x[0] for x in got), 'order %s', got)
        if k == 'due':
            require(sorted(got) == sorted(want), 'due before %s: %s, content %s', lim, got, c.m)
        else:
            require(len(got) == min(1, len(want)) and all(x in want for x in got), 'due before %s: %s of %s', lim, got, want)
            if got:
                require(got[0][0] == min(x[0] for x in want), 'not the earliest')
        for x in got:
            c.m.remove(x)
    elif k == 'pop_item':
        try:
            ts, o = h.pop_item(c.mk(op[1]))
        except ValueError:
            require(not any(x[1] == op[1] for x in c.m), 'pop_item failed')
        else:
            require((ts, c.nm(o)) in c.m and c.nm(o) == op[1], 'pop_item(%s) gave %s', op[1], (ts, o))
            c.m.remove((ts, c.nm(o)))
    elif k == 'remove':
        h.remove(c.mk(op[1]))
        c.m = [x for x in c.m if x[1] != op[1]]
    elif k == 'get_ts':
        tss = [x[0] for x in c.m if x[1] == op[1]]
        if tss:
            r = h.get_timestamp(c.mk(op[1]))
            require(r in tss, 'get_timestamp(%s) gave %s, is %s', op[1], r, tss)
        elif c.unique:
            try:
                r = h.get_timestamp(c.mk(op[1]))
            except ValueError:
                pass
            else:
                raise Violation('timestamp %s of an absent item' % (r,))
    elif k == 'pop_timestamp':
        try:
            o = h.pop_timestamp(op[1])
        except ValueError:
            require(not any(x[0] == op[1] for x in c.m), 'pop_timestamp failed')
        else:
            require((op[1], c.nm(o)) in c.m, 'pop_timestamp(%s) gave %s', op[1], o)
            c.m.remove((op[1], c.nm(o)))
    elif k == 'filter':
        h.filter_map(filter_fun=lambda e: e[0] != 1)
        c.m = [x for x in c.m if x[0] != 1]
    elif k in ('copy', 'deepcopy'):
        new = getattr(copy, k)(h)
        require(type(new) is type(h) and new is not h, 'copy is a %s', type(new))
        require(sorted((t, c.nm(o)) for t, o in new) == sorted(c.m), 'copy has other content')
        before = len(h)
        new.put(9, c.mk('z'))
        require(len(h) == before, 'copy shares data')
        new.remove(c.mk('z'))
        if k == 'copy':
            c.h = new
    h = c.h
    require(len(h) == len(c.m) and bool(h) == bool(c.m), 'length %s, expected %s', len(h), len(c.m))
    got = sorted((ts, c.nm(o)) for ts, o in h)
    require(got == sorted(c.m), 'content %s, expected %s', got, sorted(c.m))
    require(sorted(c.nm(o) for o in h.items()) == sorted(x[1] for x in c.m), 'items()')
    if c.m and not c.unique:
        ts, o = h.peek_closest()
        require((ts, c.nm(o)) in c.m and ts == min(x[0] for x in c.m), 'peek_closest gave %s of %s', (ts, o), c.m)
    asc = [(t, c.nm(o)) for t, o in h.iter_ascending()]
    require(sorted(asc) == sorted(c.m) and [t for t, _ in asc] == sorted(t for t, _ in asc), 'ascending %s', asc)


def t_finish(c):
    got = [(t, c.nm(o)) for t, o in drain(c.h)]
    require(sorted(got) == sorted(c.m) and [t for t, _ in got] == sorted(t for t, _ in got), 'drained %s, expected %s',
            got, c.m)


# ------------------------------------------------------------------ every arrangement of larger heaps
def heap_orders(n):
    """every arrangement of 0..n-1 in which each parent precedes its children in a binary tree: inserted in this order
    they reach every arrangement of a binary heap"""
    def rec(i, free, arr):
        if i == n:
            yield tuple(arr)
            return
        for x in sorted(free):
            if i == 0 or arr[(i - 1) // 2] < x:
                yield from rec(i + 1, free - {x}, arr + [x])
    return rec(0, frozenset(range(n)), [])


def shapes(n, how):
    def cases():
        for perm in itertools.chain(itertools.permutations(range(n)), *(heap_orders(i) for i in range(n + 1, n + 4))):
            for x in range(len(perm)):
                for h in how:
                    yield perm, x, h
    return cases


def check_shape_plain(case):
    perm, x, how = case
    cls, op = how
    h = cls()
    for i in perm:
        h.push(i)
    if op == 'pop_item':
        require(h.pop_item(x) == x, 'pop_item')
        want = [i for i in range(len(perm)) if i != x]
    elif op == 'filter':
        h.filter_map(filter_fun=lambda i: i != x)
        want = [i for i in range(len(perm)) if i != x]
    elif op == 'map':
        h.filter_map(map_fun=lambda i: (i + x) % len(perm))
        want = list(range(len(perm)))
    else:
        h.push_many([x + .5, -1])
        want = sorted(list(range(len(perm))) + [x + .5, -1])
    require(list(h.iter_ascending()) == want, '%s after %s(%s) on insertion order %s: ascending', cls.__name__, op, x, perm)
    got = drain(h)
    require(got == want, '%s after %s(%s) on insertion order %s: popped %s', cls.__name__, op, x, perm, got)


def check_shape_time(case):
    perm, x, how = case
    cls, op = how
    h = cls(lambda: 0)
    n = len(perm)
    for i in perm:
        h.put(i, 'abcdefghij'[i])
    stamps = {'abcdefghij'[i]: i for i in range(n)}
    name = 'abcdefghij'[x]
    if op == 'pop_item':
        r = h.pop_item(name)
        require(tuple(r) == (x, name), 'pop_item gave %s', r)
        del stamps[name]
    elif op == 'pop_timestamp':
        require(h.pop_timestamp(x) == name, 'pop_timestamp')
        del stamps[name]
    elif op == 'remove':
        h.remove(name)
        del stamps[name]
    elif op == 'earlier':
        if cls is TimeBasedSetHeap:
            h.put(-1, name)
            stamps[name] = -1
        else:
            h.pop_item(name)
            h.put(-1, name)
            stamps[name] = -1
    want = sorted((t, i) for i, t in stamps.items())
    for t in (n // 2, n + 1):
        got = [tuple(i) for i in h.pop_less_than(t)]
        exp = [i for i in want if i[0] < t]
        require(got == exp, '%s after %s(%s) on insertion order %s: due before %s: %s', cls.__name__, op, name, perm,
                t, got)
        want = [i for i in want if i[0] >= t]
    require(len(h) == 0, 'left over')


def shape_jobs(q):
    n = 6 if q else 7
    return [EnumJob('shapes', shapes(n, [(Heap, o) for o in ('pop_item', 'filter', 'map', 'many')] +
                                     [(SetHeap, o) for o in ('pop_item', 'filter', 'map', 'many')]),
                    check_shape_plain, shards=2 if q else 8),
            EnumJob('shapes-time', shapes(n, [(TimeBasedHeap, o) for o in ('pop_item', 'pop_timestamp', 'remove', 'earlier')] +
                                          [(TimeBasedSetHeap, o) for o in ('pop_item', 'pop_timestamp', 'remove', 'earlier')]),
                    check_shape_time, shards=2 if q else 8)]


class Held:
    '''an element holding something that can be changed'''

    def __init__(self, n):
        self.n, self.inner = n, [n]

    def __lt__(self, other):
        return self.n < other.n

    def __eq__(self, other):
        return isinstance(other, Held) and self.n == other.n

    def __hash__(self):
        return hash(self.n)


def copy_cases():
    for cls in (Heap, SetHeap, TimeBasedHeap, TimeBasedSetHeap):
        for how in ('copy', 'deepcopy'):
            for n in range(1, 4):
                for twice in (False, True):
                    yield cls, how, n, twice


def copy_check(case):
    cls, how, n, twice = case
    items = [Held(i) for i in range(n)]
    timed = cls in (TimeBasedHeap, TimeBasedSetHeap)
    if timed:
        h = cls()
        h.push_many([(1 + i.n, i) for i in items])
    else:
        h = cls(items)
    c = getattr(copy, how)(h)
    if twice:
        c = getattr(copy, how)(c)
    got = [x[1] if timed else x for x in c.iter_ascending()]
    require(got == items, 'copy of %s elements has %s', n, len(got))
    for mine, theirs in zip(items, got):
        require((mine is theirs) == (how == 'copy') and (mine.inner is theirs.inner) == (how == 'copy'),
                '%s: element %s shared: %s', how, mine.n, mine.inner is theirs.inner)


def jobs(tier):
    q = tier == 'quick'
    out = [EnumJob('init', heap_inits, check_init), EnumJob('copies', copy_cases, copy_check)] + shape_jobs(q)
    for cls, dd in ((Heap, False), (SetHeap, True)):
        for init in (None, (3, 1, 2, 2, 3), (1, 1)):
            out.append(SeqJob('%s-%s' % (cls.__name__, init), lambda cls=cls, dd=dd, init=init: HCtx(cls, dd, init),
                              h_ops, h_apply, depth=5 if q else 7, finish=h_finish))
    for u in (False, True):
        for op in (False, True):
            out.append(SeqJob('time-%s-%s' % ('set' if u else 'plain', 'opaque' if op else 'str'),
                              lambda u=u, op=op: TCtx(u, op), t_ops, t_apply, depth=5 if q else 6, finish=t_finish))
    return out
