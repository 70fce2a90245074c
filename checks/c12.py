"""
C12: SortedList, Ranking, SliceableDeque against sorted() / list / collections.deque.
"""
import collections
import itertools

from mc.jobs import SeqJob, EnumJob
from mc.sched import require, Violation
from satella.coding.structures import SortedList, SliceableDeque, Ranking


class El:
    """element with a key; equality by name; not orderable"""

    def __init__(self, name, k):
        self.name = name
        self.k = k

    def __eq__(self, o):
        return isinstance(o, El) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '%s%d' % (self.name, self.k)


SLICES = [slice(a, b, s) for a in (None, 0, 1, -1, -2, 5) for b in (None, 0, 2, -1, 7) for s in (None, 1, 2, -1)]


def same_slices(obj, lst):
    for i in range(-len(lst) - 2, len(lst) + 2):
        try:
            v = obj[i]
        except IndexError:
            require(not -len(lst) <= i < len(lst), 'index %s of %s missing', i, lst)
        else:
            require(-len(lst) <= i < len(lst), 'index %s of %s gave %s', i, lst, v)
            require(v is lst[i] or v == lst[i], 'index %s of %s gave %s', i, lst, v)
    for s in SLICES:
        require(list(obj[s]) == lst[s], 'slice %s of %s gave %s', s, lst, list(obj[s]))


# ------------------------------------------------------------------ SortedList
KEYS = {'default': lambda a: a, 'id': lambda a: a, 'neg': lambda a: -a, 'mod': lambda a: a % 2}


class SCtx:
    def __init__(self, key, init, elems):
        self.key = (lambda e: e.k) if elems else KEYS[key]
        self.pool = [El('x', 1), El('y', 1), El('z', 2)] if elems else [1, 2, 3]
        items = [self.pool[i] for i in init]
        if key == 'default':
            self.s = SortedList(iter(items))
        else:
            self.s = SortedList(items, key=self.key)
        self.m = list(items)


def s_ops(c):
    ops = [('add', i) for i in range(3)] + [('remove', i) for i in range(3)]
    return ops + [('pop',), ('popleft',), ('extend', 0, 2), ('extend', 1, 1)]


def s_check(c):
    got = list(c.s)
    require(len(c.s) == len(c.m) and bool(c.s) == bool(c.m), 'length %s of %s', len(c.s), c.m)
    rest = list(c.m)
    for x in got:
        require(x in rest, 'element %s should not be there: %s of %s', x, got, c.m)
        rest.remove(x)
    require(not rest, 'lost %s', rest)
    ks = [c.key(x) for x in got]
    require(ks == sorted(ks), 'not sorted: %s', got)
    for x in c.pool:
        require((x in c.s) == (x in c.m), '%s in list: %s', x, x in c.s)
        if x in c.m:
            require(c.s.index(x) == got.index(x), 'index(%s) is %s in %s', x, c.s.index(x), got)
        else:
            try:
                c.s.index(x)
            except ValueError:
                pass
            else:
                raise Violation('index of an absent element')


def s_apply(c, op):
    k = op[0]
    before = list(c.s)
    if k == 'add':
        x = c.pool[op[1]]
        i = c.s.add(x)
        c.m.append(x)
        require(isinstance(i, int) and c.s[i] is x, 'add(%s) said index %s: %s', x, i, list(c.s))
    elif k == 'extend':
        c.s.extend(iter([c.pool[i] for i in op[1:]]))
        c.m.extend(c.pool[i] for i in op[1:])
    elif k == 'remove':
        x = c.pool[op[1]]
        try:
            c.s.remove(x)
        except ValueError:
            require(x not in c.m, 'remove(%s) failed', x)
            require(list(c.s) == before, 'changed by a failed removal')
        else:
            require(x in c.m, 'removed an absent %s', x)
            c.m.remove(x)
    else:
        try:
            x = getattr(c.s, k)()
        except IndexError:
            require(not c.m, '%s failed with %s', k, c.m)
        else:
            kk = [c.key(e) for e in c.m]
            require(c.m and c.key(x) == (max(kk) if k == 'pop' else min(kk)), '%s gave %s of %s', k, x, c.m)
            c.m.remove(x)
    s_check(c)


def s_finish(c):
    s_check(c)
    same_slices(c.s, list(c.s))


# ------------------------------------------------------------------ Ranking
class RCtx:
    def __init__(self, init):
        self.pool = [El('a', 1), El('b', 2), El('c', 2), El('d', 0)]
        self.m = [self.pool[i] for i in init]
        self.src = list(self.m)
        self.r = Ranking(self.src, lambda e: e.k)


def r_ops(c):
    return [('add', i) for i, e in enumerate(c.pool) if e not in c.m] + [('remove', i) for i in range(4)] + [('remove-equal', 1)]


def r_apply(c, op):
    e = c.pool[op[1]]
    if op[0] == 'remove-equal':
        e = El(e.name, e.k)         # equal, but not the same object
        if e in c.m:
            require(c.r[c.r.get_position_of(e)] == e, 'position of an equal element')
    if op[0] == 'add':
        c.r.add(e)
        c.m.append(e)
    else:
        try:
            c.r.remove(e)
        except ValueError:
            require(e not in c.m, 'remove(%s) failed', e)
        else:
            require(e in c.m, 'removed an absent element')
            c.m.remove(e)
    r_check(c)


def r_check(c):
    order = list(c.r.get_sorted())
    require(sorted(order, key=repr) == sorted(c.m, key=repr), 'members %s, expected %s', order, c.m)
    require([x.k for x in order] == sorted(x.k for x in order), 'not sorted: %s', order)
    for i, x in enumerate(order):
        require(c.r[i] is x and c.r[i - len(order)] is x, 'position %s is %s', i, c.r[i])
        require(c.r.get_position_of(x) == i, 'position of %s is %s in %s', x, c.r.get_position_of(x), order)
        require(c.r.calculate_ranking_for(x) == i, 'ranking of %s is %s in %s', x, c.r.calculate_ranking_for(x), order)
    require(list(c.r[1:]) == order[1:], 'slice')
    for x in c.pool:
        if x not in c.m:
            try:
                p = c.r.get_position_of(x)
            except ValueError:
                pass
            else:
                raise Violation('position %s of an absent element' % p)
            try:
                p = c.r.calculate_ranking_for(x)
            except (KeyError, ValueError):
                pass
            else:
                raise Violation('ranking %s of %s, which is not there' % (p, x))


# ------------------------------------------------------------------ SliceableDeque
class DCtx:
    def __init__(self, init, maxlen):
        kw = {} if maxlen is None else {'maxlen': maxlen}
        self.d = SliceableDeque(init, **kw)
        self.m = collections.deque(init, **kw)


def d_ops(c):
    ops = [(f, x) for f in ('append', 'appendleft', 'remove', 'count', 'index') for x in (1, 2)]
    ops += [('extend', (3, 1)), ('extendleft', (3, 1)), ('pop',), ('popleft',), ('rotate', 1), ('rotate', -1), ('clear',),
            ('reverse',), ('insert', 1, 4), ('insert', -1, 4), ('insert', 9, 4)]
    ops += [('set', 0, 5), ('set', -1, 5), ('set', 3, 5), ('del', 0), ('del', -1), ('del', 4), ('iadd', (2,))]
    return ops


def do(x, op):
    k = op[0]
    try:
        if k == 'set':
            x[op[1]] = op[2]
        elif k == 'del':
            del x[op[1]]
        elif k == 'iadd':
            x += op[1]
        else:
            return 'ok', getattr(x, k)(*op[1:])
    except (IndexError, ValueError) as e:
        return 'exc', type(e)
    return 'ok', None


def d_apply(c, op):
    a = do(c.d, op)
    b = do(c.m, op)
    require(a == b, '%s gave %s, a deque gives %s', op, a, b)
    d_check(c)


def d_check(c):
    m = list(c.m)
    require(list(c.d) == m and list(reversed(c.d)) == m[::-1], 'content %s, expected %s', list(c.d), m)
    require(len(c.d) == len(m) and bool(c.d) == bool(m), 'length')
    for x in range(6):
        require((x in c.d) == (x in m), 'membership')


def d_finish(c):
    same_slices(c.d, list(c.m))


def jobs(tier):
    q = tier == 'quick'
    dp = 4 if q else 6
    out = []
    for key in ('default', 'neg', 'mod'):
        for init in ((), (2, 0, 1, 0)):
            out.append(SeqJob('sorted-%s-%s' % (key, init), lambda key=key, init=init: SCtx(key, init, False), s_ops,
                              s_apply, depth=dp, finish=s_finish))
    for init in ((), (2, 0, 1), (1, 0, 2)):
        out.append(SeqJob('sorted-elems-%s' % (init,), lambda init=init: SCtx('id', init, True), s_ops, s_apply, depth=dp,
                          finish=s_finish))
    for init in itertools.permutations(range(4), 2):
        out.append(SeqJob('ranking-%s' % (init,), lambda init=init: RCtx(init), r_ops, r_apply, depth=5 if q else 7,
                          finish=r_check))
    out.append(SeqJob('ranking-empty', lambda: RCtx(()), r_ops, r_apply, depth=5 if q else 7, finish=r_check))
    for init in ((), (1, 2, 3), (2, 1, 2, 1)):
        for ml in (None, 2, 3):
            out.append(SeqJob('deque-%s-%s' % (init, ml), lambda init=init, ml=ml: DCtx(init, ml), d_ops, d_apply,
                              depth=3 if q else 5, finish=d_finish))
    return out
