"""
C14: ExpiringEntryDict and SelfCleaningDefaultDict against a plain dict of (value, expiry), on a harness clock and on
the virtual clock with the background cleaner.
"""
import gc
import time
import weakref

from mc.jobs import SeqJob, SchedJob
from mc.sched import require, par, pick, Violation, advance, spawn
from satella.coding.concurrent import Monitor
from satella.coding.structures import ExpiringEntryDict, SelfCleaningDefaultDict

T = 2.0


class Ctx:
    def __init__(self, init, own_clock=True):
        self.now = 0.0
        self.own = own_clock
        self.d = ExpiringEntryDict(T, init, **({'time_getter': self.clock} if own_clock else {}))
        self.m = {k: (v, self.clock() + T) for k, v in init.items()}

    def clock(self):
        return self.now if self.own else time.monotonic()

    def live(self):
        n = self.clock()
        return {k: v for k, (v, e) in self.m.items() if e >= n}


KEYS = ['a', None, 7]


def ops(c):
    out = []
    for k in KEYS:
        out += [('set', k, 1), ('get', k), ('in', k), ('del', k)]
    out += [('set', 'a', 2), ('pop', 'a'), ('pop', 'a', 9), ('setdefault', 7, 5), ('update', 'a', 7), ('len',), ('iter',),
            ('items',), ('cleanup',), ('tick', 0.9), ('tick', 2.0), ('tick', 2.1), ('popitem',), ('clear',)]
    return out


def apply(c, op):
    k = op[0]
    live = c.live()
    now = c.clock()
    if k == 'tick':
        if c.own:
            c.now += op[1]
        else:
            advance(op[1])
    elif k == 'set':
        c.d[op[1]] = op[2]
        c.m[op[1]] = (op[2], now + T)
    elif k == 'update':
        c.d.update({op[1]: 3}, **{'z': 4})
        c.m[op[1]] = (3, now + T)
        c.m['z'] = (4, now + T)
    elif k == 'setdefault':
        r = c.d.setdefault(op[1], op[2])
        require(r == live.get(op[1], op[2]), 'setdefault gave %s', r)
        if op[1] not in live:
            c.m[op[1]] = (op[2], now + T)
    elif k == 'get':
        try:
            v = c.d[op[1]]
        except KeyError:
            require(op[1] not in live, 'live entry %s not found', op[1])
        else:
            require(op[1] in live and live[op[1]] == v, 'read %s, live entries are %s', v, live)
        require(c.d.get(op[1], 'dflt') == live.get(op[1], 'dflt'), 'get()')
    elif k == 'in':
        require((op[1] in c.d) is (op[1] in live), '%s in dict: %s', op[1], op[1] not in live)
    elif k == 'del':
        try:
            del c.d[op[1]]
        except KeyError:
            require(op[1] not in live, 'could not delete a live entry')
        else:
            require(op[1] in live, 'deleted an entry which is not there')
        c.m.pop(op[1], None)
    elif k == 'pop':
        try:
            r = c.d.pop(*op[1:])
        except KeyError:
            require(op[1] not in live and len(op) == 2, 'pop failed')
        else:
            require(r == (live[op[1]] if op[1] in live else op[2] if len(op) > 2 else None), 'pop gave %s', r)
            c.m.pop(op[1], None)
    elif k == 'popitem':
        try:
            a, b = c.d.popitem()
        except KeyError:
            require(not live, 'popitem failed')
        else:
            require(a in live and live[a] == b, 'popitem gave %s', (a, b))
            del c.m[a]
    elif k == 'clear':
        c.d.clear()
        c.m.clear()
    elif k == 'len':
        require(len(c.d) == len(live), 'length %s, live %s', len(c.d), live)
    elif k == 'iter':
        require(sorted(map(repr, c.d)) == sorted(map(repr, live)), 'iteration')
    elif k == 'items':
        require(sorted(map(repr, c.d.items())) == sorted(map(repr, live.items())), 'items')
    elif k == 'cleanup':
        c.d.cleanup()


def finish(c):
    live = c.live()
    for k in KEYS + ['z']:
        require((k in c.d) is (k in live), '%s in dict: %s', k, k not in live)
        try:
            v = c.d[k]
        except KeyError:
            require(k not in live, 'live entry %s not found', k)
        else:
            require(k in live and v == live[k], 'read %s of %s', v, live)
    require(len(c.d) == len(live), 'length %s, live %s', len(c.d), live)
    require(sorted(map(repr, c.d)) == sorted(map(repr, live)), 'iteration')
    require(bool(c.d) == bool(live), 'truth')
    require(c.d == live, 'equality with a dict')


# ------------------------------------------------------------------ self-cleaning
class SCtx:
    def __init__(self, init, factory, default):
        self.default = default
        self.d = SelfCleaningDefaultDict(factory, False, init)
        self.m = dict(init)


def s_ops(c):
    out = []
    for k in ('a', None):
        out += [('set', k, v) for v in (1, 2, c.default)] + [('get', k), ('del', k), ('in', k)]
    return out + [('len',), ('iter',), ('items',), ('cleanup',), ('clear',), ('update',)]


def s_apply(c, op):
    k = op[0]
    view = {a: b for a, b in c.m.items() if b != c.default}
    if k == 'set':
        c.d[op[1]] = op[2]
        c.m[op[1]] = op[2]
    elif k == 'get':
        v = c.d[op[1]]
        require(v == c.m.get(op[1], c.default), 'read %s', v)
    elif k == 'del':
        try:
            del c.d[op[1]]
        except KeyError:
            require(op[1] not in view, 'del of a present key failed')
        c.m.pop(op[1], None)
    elif k == 'in':
        require((op[1] in c.d) is (op[1] in view), '%s in dict: %s', op[1], op[1] not in view)
    elif k == 'len':
        require(len(c.d) == len(view), 'length %s of %s', len(c.d), view)
    elif k == 'iter':
        require(sorted(map(repr, c.d)) == sorted(map(repr, view)), 'iteration gave %s of %s', list(c.d), view)
    elif k == 'items':
        require(sorted(map(repr, c.d.items())) == sorted(map(repr, view.items())), 'items')
    elif k == 'cleanup':
        c.d.cleanup()
    elif k == 'clear':
        for x in list(c.d):
            del c.d[x]
        c.m.clear()
    elif k == 'update':
        c.d.update(a=5, b=c.default)
        c.m.update(a=5, b=c.default)


def s_finish(c):
    view = {a: b for a, b in c.m.items() if b != c.default}
    require(len(c.d) == len(view), 'length %s of %s', len(c.d), view)
    require(sorted(map(repr, c.d)) == sorted(map(repr, view)), 'iteration gave %s of %s', list(c.d), view)
    for k in ('a', None, 'b'):
        require((k in c.d) is (k in view), '%s in dict: %s', k, k not in view)
    for k in ('a', None, 'b'):
        require(c.d[k] == view.get(k, c.default), 'read %s', k)


# ------------------------------------------------------------------ with the background thread
def background():
    """entries written at different times vanish at theirs, with the cleaner working behind"""
    d = ExpiringEntryDict(7, external_cleanup=True)
    other = ExpiringEntryDict(1, external_cleanup=True)
    other['x'] = 1
    sc = SelfCleaningDefaultDict(list)
    lst, keep = [1], [2]
    sc['l'] = lst
    sc['k'] = keep
    m = {}
    t0 = time.monotonic()

    def check():
        n = time.monotonic()
        live = {k: v for k, (v, e) in m.items() if e >= n}
        for k in 'abc':
            require((k in d) is (k in live), 'key %s at %s', k, n - t0)
            require(d.get(k) == live.get(k), 'key %s at %s: %s', k, n - t0, d.get(k))
        require(len(d) == len(live) and sorted(d) == sorted(live), 'content %s, expected %s', dict(d), live)
    for step in range(3):
        k = pick(['a', 'b', 'renew'])
        if k == 'renew':
            k = 'a'
            d['a'] = 'new'
            m['a'] = ('new', time.monotonic() + 7)
        else:
            d[k] = step
            m[k] = (step, time.monotonic() + 7)
        check()
        advance(pick([1.5, 4, 6]))
        check()
        if step == 0:
            lst.clear()
            if pick([0, 1]):
                del other
    advance(6)
    check()
    require(len(sc) == 1 and sc['k'] == [2] and 'l' not in sc, 'the cleaner dropped an entry it should not')
    d['z'] = 1
    advance(20)
    require(len(d) == 0 and 'z' not in d, 'never expires')


class Val:
    pass


def cleaner_drops():
    """the background cleaner drops the expired entries of every dictionary still there, about every 5 seconds"""
    n = 3
    dead = pick([(), (0,), (1,), (2,), (0, 1), (0, 2), (1, 2)])
    ds, refs = [], []
    for i in range(n):
        d = ExpiringEntryDict(1, external_cleanup=True)
        v = Val()
        d['old'] = v
        refs.append(weakref.ref(v))
        ds.append(d)
    del d, v
    for i in dead:
        ds[i] = None
    gc.collect()
    advance(4)
    news = []
    for d in ds:
        if d is not None:
            v = Val()
            d['new'] = v
            news.append(weakref.ref(v))
    d = v = None
    advance(.7)
    require(all(r() is not None for r in news), 'a live entry is gone')
    advance(3.5)
    gc.collect()
    for i in range(n):
        require(refs[i]() is None, 'the entry of dictionary %s, expired 7 s ago, is still held (dictionaries %s gone)', i, dead)
    advance(5)
    gc.collect()
    require(not any(r() is not None for r in news), 'a later entry is still held')


def self_cleaning():
    """the same dictionary with the cleaner behind it"""
    d = SelfCleaningDefaultDict(int, **({'a': 1, 'b': 0} if pick([True, False]) else {}))
    m = dict(d)
    for step in range(3):
        k = pick(['a=2', 'a=0', 'c=0', 'del a', 'get c', 'wait'])
        if k[1:2] == '=':
            d[k[0]] = m[k[0]] = int(k[2])
        elif k == 'del a':
            try:
                del d['a']
            except KeyError:
                require(not m.get('a'), 'del of a present key failed')
            m.pop('a', None)
        elif k == 'get c':
            require(d['c'] == 0, 'an absent key is %s', d['c'])
        else:
            advance(5.5)
        live = {x: y for x, y in m.items() if y}
        for x in 'abc':
            require((x in d) is (x in live) and d.get(x, 0) == d[x] == live.get(x, 0), '%s after %s: %s of %s', x, k, d[x], live)
        with Monitor.acquire(d):
            require(dict(d) == live and len(d) == len(live), 'content %s, expected %s', dict(d), live)


def under_monitor():
    """the documented way: iterate while holding the dictionary's monitor"""
    kind = pick(['expiring', 'cleaning'])
    if kind == 'expiring':
        d = ExpiringEntryDict(3, external_cleanup=True)
    else:
        d = SelfCleaningDefaultDict(int)
    d['a'] = 1
    d['b'] = 2
    seen = []

    def user():
        with Monitor.acquire(d):
            for k in d:
                seen.append((k, d[k]))
            require(len(d) == 2 and 'a' in d, 'content')
            d['c'] = 3
            del d['c']
    par_ok(user, lambda: d.__setitem__('b', 2))
    require(sorted(seen) == [('a', 1), ('b', 2)], 'saw %s', seen)


def listed(d):
    with Monitor.acquire(d):        # as documented
        return list(d)


def par_ok(*fns):
    for k, v in par(*fns):
        if k == 'exc':
            raise v


def renew_race():
    """a renewal of an expiring entry is never undone by a reader that found the old one expired"""
    d = ExpiringEntryDict(1, {'k': 'old', 'other': 0})
    advance(pick([0.5, 1.5]))
    how = pick(['get', 'in', 'len', 'iter', 'del', 'cleanup'])

    def reader():
        if how == 'get':
            return d.get('k')
        if how == 'in':
            return 'k' in d
        if how == 'len':
            return len(d)
        if how == 'iter':
            return sorted(listed(d))
        if how == 'cleanup':
            return d.cleanup()
        try:
            del d['k']
        except KeyError:
            return 'absent'

    def writer():
        d['k'] = 'new'
    par_ok(reader, writer)
    if how != 'del':
        require(d.get('k') == 'new' and 'k' in d, 'the renewed entry was lost')
    require(len(d) == len(list(d)) and ('k' in d) == ('k' in list(d)), 'inconsistent')
    d['k'] = 'again'
    require(d['k'] == 'again', 'cannot be written')
    advance(2)
    require(len(d) == 0 and 'k' not in d, 'never expires')


def clean_race():
    """an entry stored while the cleaner looks at its predecessor stays"""
    d = SelfCleaningDefaultDict(list, False)
    a = []
    d.update(x=[1])
    v = d['x']
    v.clear()
    par_ok(lambda: pick([d.cleanup, lambda: len(d), lambda: listed(d)])(), lambda: d.__setitem__('x', [5]))
    require(d['x'] == [5] and len(d) == 1, 'entry lost')
    return a


def jobs(tier):
    q = tier == 'quick'
    o = ['dictionaries/expiring.py']
    out = []
    for init in ({}, {'a': 0, None: 1}):
        out.append(SeqJob('expiring-%d' % len(init), lambda init=init: Ctx(dict(init)), ops, apply, depth=4 if q else 5,
                          finish=finish, shards=6))
    out.append(SeqJob('expiring-clock', lambda: Ctx({'a': 0}, False), ops, apply, depth=3, finish=finish))
    for name, f, dv in (('int', int, 0), ('none', lambda: None, None), ('str', lambda: 'd', 'd')):
        for init in ({}, {'a': 1, 'b': dv}):
            out.append(SeqJob('cleaning-%s-%d' % (name, len(init)), lambda f=f, dv=dv, init=init: SCtx(init, f, dv), s_ops,
                              s_apply, depth=4 if q else 6, finish=s_finish))
    out.append(SchedJob('background', background, bound=0 if q else 1, only=o, fork=True))
    out.append(SchedJob('self-cleaning', self_cleaning, bound=0, only=o, fork=True))
    out.append(SchedJob('cleaner-drops', cleaner_drops, bound=0 if q else 1, only=o, fork=True))
    out.append(SchedJob('under-monitor', under_monitor, bound=1 if q else 2, only=o, fork=True))
    out.append(SchedJob('renew-race', renew_race, bound=2, only=o + ['heaps/']))
    out.append(SchedJob('clean-race', clean_race, bound=2, only=o))
    return out
