"""
C13: CacheDict, LRUCacheDict, LRU against a model of one entry per key (value with its time, remembered miss, nothing),
on a clock owned by the harness; the loader's outcome is an operation of the exploration.
"""
import logging
import time
from concurrent.futures import Executor, Future, ThreadPoolExecutor

import itertools

from mc.jobs import EnumJob, SeqJob, SchedJob
from mc.sched import require, par, pick, Violation, advance
from satella.coding.structures import CacheDict, LRUCacheDict, LRU

STALE, EXP = 1.0, 2.0


class Boom(Exception):
    pass


class LazyFuture(Future):
    def result(self, timeout=None):
        if not self.done():
            self.ctx.run_one(self)
        return super().result(0)


class Pool(Executor):
    """runs a job when somebody waits for it, or when the exploration says so"""

    def __init__(self):
        self.pending = []
        self.inline = False

    def submit(self, fn, *args, **kwargs):
        f = LazyFuture()
        f.ctx = self
        self.pending.append((f, fn, args, kwargs))
        if self.inline:
            self.run_one(f)
        return f

    def run_one(self, fut):
        for i, (f, fn, a, k) in enumerate(self.pending):
            if f is fut:
                del self.pending[i]
                break
        else:
            raise Violation('waiting for a job that is not pending')
        try:
            r = fn(*a, **k)
        except BaseException as e:
            fut.set_exception(e)
        else:
            fut.set_result(r)


class Ctx:
    def __init__(self, cfi=None, default=False, inline=False, lru=None, keys=2, clock_arg=True):
        self.now = 10.0 if clock_arg else None
        self.mode = 'ok'
        self.version = 0
        self.calls = []
        self.cfi = cfi
        self.default = default
        self.pool = Pool()
        self.pool.inline = inline
        kw = {}
        if default:
            kw['default_value_factory'] = list
        if cfi is not None:
            kw['cache_failures_interval'] = cfi
        if clock_arg:
            kw['time_getter'] = self.clock
        cls = CacheDict
        if lru is not None:
            cls = LRUCacheDict
            kw['max_size'] = lru
        self.lru = lru
        self.d = cls(STALE, EXP, self.load, value_getter_executor=self.pool, **kw)
        self.keys = range(keys)
        self.m = {}         # key -> ('v', value, ts) | ('m', None, ts)
        self.bg = []        # keys with a background fetch under way
        self.orders = {()}  # possible orders of use, least recent first

    def clock(self):
        return time.monotonic() if self.now is None else self.now

    def load(self, key):
        self.calls.append(key)
        if self.mode == 'key':
            raise KeyError(key)
        if self.mode == 'boom':
            raise Boom()
        return 'ld', key, self.version

    # model
    def used(self, k, sure=True):
        new = {tuple(x for x in o if x != k) + (k,) for o in self.orders}
        if not sure and all(k in o for o in self.orders):
            new |= self.orders
        self.orders = new

    def gone(self, k):
        self.orders = {tuple(x for x in o if x != k) for o in self.orders}

    def store(self, k, v, ts=None, sure=True):
        new = self.m.get(k, ('m',))[0] != 'v'
        if self.lru is not None and new:
            held = [x for x, e in self.m.items() if e[0] == 'v']
            if len(held) >= self.lru:
                out = [x for x in held if x not in set(self.d)]
                require(len(out) == 1, 'storing %s in a full cache of %s evicted %s', k, held, out)
                ok = {o for o in self.orders if [x for x in o if x in held][0] == out[0]}
                require(ok, 'evicted %s, least recently used first is %s', out[0], sorted(self.orders))
                self.orders = ok
                del self.m[out[0]]
                self.gone(out[0])
        self.m[k] = ('v', v, self.clock() if ts is None else ts)
        self.used(k, sure)

    def loaded(self, k, sure=True):
        """the model of a completed fetch"""
        if self.mode == 'ok':
            self.store(k, ('ld', k, self.version), sure=sure)
        elif self.mode == 'key':
            if self.m.get(k, ('m',))[0] == 'v':
                self.gone(k)
            self.m.pop(k, None)
            if self.cfi is not None:
                self.m[k] = ('m', None, self.clock())


def ops(c):
    out = [('get', k) for k in c.keys] + [('feed', k) for k in c.keys] + [('inval', k) for k in c.keys]
    out += [('set', c.keys[-1]), ('tick', 0.7), ('tick', 1.6), ('bump',)]
    if c.lru is None:
        out += [('feedts', 0, 0), ('feedts', 0, -1.3), ('feedts', 0, 5)]
    if c.m.get(0, ('m',))[0] == 'v' or 0 not in c.m:
        out.append(('del', 0))
    if c.bg:
        out.append(('run',))
    out += [('mode', m) for m in ('ok', 'key', 'boom') if m != c.mode]
    return out


def apply(c, op):
    k = op[0]
    c.calls.clear()
    if k == 'tick':
        if c.now is None:
            advance(op[1])
        else:
            c.now += op[1]
    elif k == 'mode':
        c.mode = op[1]
    elif k == 'bump':
        c.version = 1 - c.version
    elif k == 'set':
        c.d[op[1]] = 'set'
        c.store(op[1], 'set')
    elif k == 'feed':
        c.d.feed(op[1], 'fed')
        c.store(op[1], 'fed', sure=False)
    elif k == 'feedts':
        ts = 0 if op[2] == 0 else c.clock() + op[2]
        c.d.feed(op[1], 'fed', ts)
        c.store(op[1], 'fed', ts, sure=False)
    elif k == 'inval':
        c.d.invalidate(op[1])
        c.m.pop(op[1], None)
        c.gone(op[1])
    elif k == 'del':
        try:
            del c.d[op[1]]
        except KeyError:
            require(op[1] not in c.m, 'del failed')
        else:
            require(op[1] in c.m, 'del of an absent key succeeded')
            del c.m[op[1]]
            c.gone(op[1])
    elif k == 'run':
        jobs = list(c.pool.pending)
        require({j[2][0] for j in jobs} >= set(c.bg), 'a stale entry was read, but no refresh is under way')
        for j in jobs:
            c.pool.run_one(j[0])
            c.loaded(j[2][0], sure=False)
        c.bg = []
    elif k == 'get':
        get(c, op[1])
    check(c)


def get(c, k):
    e = c.m.get(k)
    now = c.clock()
    try:
        r = ('ok', c.d[k])
    except BaseException as x:
        r = ('exc', x)
    age = None if e is None else now - e[2]
    miss = ('ok', []) if c.default else 'KeyError'

    def same(want):
        if want == 'KeyError':
            require(r[0] == 'exc' and isinstance(r[1], KeyError), 'reading %s gave %s instead of KeyError', k, r)
        elif want == 'Boom':
            require(r[0] == 'exc' and isinstance(r[1], Boom), 'reading %s gave %s, the loader failed', k, r)
        else:
            require(r == want, 'reading %s gave %s, should give %s', k, r, want)
    if e is not None and e[0] == 'm' and age <= c.cfi:
        if not c.calls:
            same(miss)
            return
        # a size-limited cache may forget a miss
        require(c.lru is not None, 'the loader was asked again for a remembered miss')
        e = None
    if e is not None and e[0] == 'v' and age <= EXP:
        same(('ok', e[1]))
        c.used(k)
        if age > STALE:
            if c.pool.inline:
                require(c.calls == [k], 'a stale entry was not refreshed')
                c.loaded(k)
            else:
                require(not c.calls, 'reading a stale entry waited for the loader')
                c.bg.append(k)
        else:
            require(not c.calls, 'the loader was asked for a fresh entry')
        return
    require(c.calls == [k], 'the loader was asked for %s', c.calls)
    if c.mode == 'ok':
        same(('ok', ('ld', k, c.version)))
        c.loaded(k)
    elif c.mode == 'key':
        same(miss)
        c.loaded(k)
    else:
        same('Boom')
        if k in c.m:
            c.used(k, sure=False)


def check(c):
    now = c.clock()
    held = {k for k, e in c.m.items() if e[0] == 'v'}
    live = {k for k in held if now - c.m[k][2] <= EXP}
    got = list(c.d)
    require(len(got) == len(set(got)) == len(c.d), 'iteration %s, length %s', got, len(c.d))
    require(live <= set(got) <= held, 'holds %s, expected %s (live: %s)', got, held, live)
    if c.lru is not None:
        require(len(c.d) <= c.lru, 'holds %s entries, the limit is %s', len(c.d), c.lru)
    for k in c.keys:
        e = c.m.get(k)
        want = e is not None and now - e[2] <= (EXP if e[0] == 'v' else c.cfi)
        if c.lru is not None and e is not None and e[0] == 'm':
            continue
        require(c.d.has_info_about(k) is want, 'has_info_about(%s) is %s, entry %s', k, not want, e)


# ------------------------------------------------------------------ LRU
class LCtx:
    def __init__(self):
        self.l = LRU()
        self.o = []


def l_apply(c, op):
    k = op[0]
    if k == 'evict':
        try:
            x = c.l.get_item_to_evict()
        except KeyError:
            require(not c.o, 'nothing to evict of %s', c.o)
        else:
            require(c.o and x == c.o[0], 'evicted %s of %s', x, c.o)
            del c.o[0]
    elif k == 'remove':
        c.l.remove(op[1])
        c.o.remove(op[1])
    else:
        (c.l.add if k == 'add' else c.l.mark_as_used)(op[1])
        if op[1] in c.o:
            c.o.remove(op[1])
        c.o.append(op[1])
    require(len(c.l) == len(c.o), 'length')
    for x in range(4):
        require((x in c.l) == (x in c.o), 'membership of %s', x)


def l_ops(c):
    return [('add', x) for x in range(4) if x not in c.o] + [('use', x) for x in range(4)] + \
        [('remove', x) for x in c.o] + [('evict',)]


def l_finish(c):
    o = list(c.o)
    for x in o:
        require(c.l.get_item_to_evict() == x, 'not in order of use')


# ------------------------------------------------------------------ concurrent users
def concurrent():
    """two readers (and somebody invalidating, feeding or dropping the key): nobody sees a missing key"""
    n = [0]

    def load(k):
        n[0] += 1
        return 'ld', n[0]
    ex = ThreadPoolExecutor(max_workers=4)
    d = CacheDict(STALE, EXP, load, value_getter_executor=ex)
    age = pick([None, 0, 1.5, 3])
    if age is not None:
        d[1]
        advance(age)
    first = n[0]
    third = pick(['read', 'inval', 'feed'])
    fed = []

    def other():
        if third == 'read':
            return d[1]
        if third == 'inval':
            return d.invalidate(1)
        d.feed(1, 'fed')
        fed.append(1)
    rs = par(lambda: d[1], other)
    for i, (k, v) in enumerate(rs):
        if k == 'exc':
            raise v
        if i == 0 or third == 'read':
            require(v == 'fed' and third == 'feed' or v[0] == 'ld', 'read %s', v)
            if age == 3 or age is None:
                require(v == 'fed' or v[1] > first, 'an expired value was served')
    advance(0.1)
    v = d[1]
    require(v == 'fed' or v[0] == 'ld', 'read %s', v)
    ex.shutdown()
    return repr(rs)


# ------------------------------------------------------------------ intervals in every notation
NOTATIONS = [('0', 0), ('90', 90), ('2.5', 2.5), (7, 7), (0.25, 0.25), ('5s', 5), ('40s', 40), ('3 s', 3), ('1m', 60), ('30 min', 1800),
             ('2m', 120), ('3h', 3 * 3600), ('2 h', 7200), ('1d', 86400), ('2d', 2 * 86400), ('1w', 7 * 86400), ('2w', 14 * 86400)]


def interval_cases():
    for what, (i, _), cls in itertools.product(('stale', 'expire', 'miss'), enumerate(NOTATIONS), ('plain', 'lru')):
        yield what, i, cls


def check_interval(case):
    what, i, cls = case
    text, secs = NOTATIONS[i]
    now = [1000.0]
    calls = []
    fail = [False]

    def load(k):
        calls.append(k)
        if fail[0]:
            raise KeyError(k)
        return len(calls)
    pool = Pool()
    far = 10 ** 8
    kw = dict(value_getter_executor=pool, time_getter=lambda: now[0])
    a = {'stale': (text, far), 'expire': (0, text), 'miss': (0, far)}[what]
    if what == 'miss':
        kw['cache_failures_interval'] = text
    d = (CacheDict if cls == 'plain' else LRUCacheDict)(*a, load, **kw)
    if what == 'miss':
        fail[0] = True
        for after, asked in ((secs, 1), (secs + 0.125, 2)):
            now[0] = 1000.0
            d.invalidate('k')
            del calls[:]
            for t in (1000.0, 1000.0 + after):
                now[0] = t
                try:
                    d['k']
                except KeyError:
                    pass
                else:
                    raise Violation('a value from nowhere')
            require(len(calls) == asked, '%r: %s calls of the getter %s s after a miss', text, len(calls), after)
            now[0] = 1000.0
            d.invalidate('k')
            require(not d.has_info_about('k'), 'an invalidated miss is remembered')
            try:
                d['k']
            except KeyError:
                pass
            now[0] = 1000.0 + after
            require(d.has_info_about('k') == (asked == 1), '%r: has_info_about %s s after a miss', text, after)
        return
    d.feed('k', 'fed', 1000.0)
    now[0] = 1000.0 + secs
    require(d.has_info_about('k'), '%r: no info about a value %s s old', text, secs)
    require(d['k'] == 'fed' and not (pool.pending and what == 'stale'), '%r: a value %s s old', text, secs)
    del pool.pending[:]
    now[0] += 0.125
    v = d['k']
    if what == 'stale':
        require(v == 'fed' and len(pool.pending) == 1, '%r: stale value gave %s, pending %s', text, v, pool.pending)
        require(d.has_info_about('k'), 'no info about a stale value')
    else:
        require(v == 1 and calls == ['k'], '%r: expired value gave %s', text, v)
        require(d.has_info_about('k'), 'no info about a refreshed value')
        d.feed('k', 'fed', 1000.0)
        require(not d.has_info_about('k'), '%r: info about an expired value', text)
    require(not d.has_info_about('other'), 'info about a stranger')


def own_executor():
    """no executor given: misses, refreshes and failures still work"""
    state = ['ok']
    calls = []

    def load(k):
        calls.append(k)
        if state[0] == 'key':
            raise KeyError(k)
        return k * 2 + len(calls)
    d = CacheDict(STALE, EXP, load, cache_failures_interval=5)
    require(d[1] == 3 and d[1] == 3 and calls == [1], 'first read %s', calls)
    advance(1.5)
    require(d[1] == 3, 'stale')
    advance(0.1)
    require(d[1] == 4 and calls == [1, 1], 'refreshed %s', calls)
    advance(3)
    require(d[1] == 5 and len(calls) == 3, 'expired')
    state[0] = 'key'
    advance(3)
    for i in range(2):
        try:
            d[1]
        except KeyError:
            pass
        else:
            raise Violation('no KeyError')
    require(len(calls) == 4 and 1 not in set(d), 'miss remembered: %s', calls)
    state[0] = 'ok'
    advance(6)
    require(d[1] == 7, 'after the miss')
    del d


def info_race():
    """somebody asks has_info_about and iterates while the entry is being fed or dropped: an answer, never an error"""
    d = CacheDict(STALE, EXP, lambda k: 'ld', value_getter_executor=Pool(), cache_failures_interval=5)
    other = pick(['feed', 'inval', 'del', 'set'])
    had = other == 'del' or pick([False, True])
    if had:
        d.feed(1, 'old')

    def change():
        if other == 'feed':
            d.feed(1, 'v')
        elif other == 'set':
            d[1] = 'v'
        elif other == 'inval':
            d.invalidate(1)
        else:
            del d[1]
    (a, b) = par(lambda: d.has_info_about(1), change)
    for k, v in (a, b):
        if k == 'exc':
            raise v
    require(a[1] in (True, False), 'answered %r', a[1])
    require(d.has_info_about(1) == (other in ('feed', 'set')), 'afterwards')
    return a[1]


def jobs(tier):
    logging.getLogger('concurrent.futures').addHandler(logging.NullHandler())
    q = tier == 'quick'
    out = []
    for name, kw in [('plain', {}), ('inline', dict(inline=True)), ('misses', dict(cfi=2.9)), ('default', dict(cfi=0.9, default=True)),
                     ('default-only', dict(default=True))]:
        out.append(SeqJob('cache-one-%s' % name, lambda kw=kw: Ctx(keys=1, **kw), ops, apply, depth=5 if q else 7, shards=6))
        out.append(SeqJob('cache-two-%s' % name, lambda kw=kw: Ctx(keys=2, **kw), ops, apply, depth=4 if q else 5, shards=6))
    out.append(SeqJob('cache-clock', lambda: Ctx(keys=1, cfi=2.9, clock_arg=False), ops, apply, depth=4 if q else 5, shards=6))
    out.append(SeqJob('lru-cache-1', lambda: Ctx(keys=2, lru=1), ops, apply, depth=4 if q else 6))
    out.append(SeqJob('lru-cache-2', lambda: Ctx(keys=3, lru=2), ops, apply, depth=5 if q else 6, shards=6))
    out.append(SeqJob('lru-cache-3', lambda: Ctx(keys=4, lru=3), ops, apply, depth=4 if q else 5, shards=6))
    out.append(SeqJob('lru-cache-2-inline', lambda: Ctx(keys=3, lru=2, inline=True), ops, apply, depth=4 if q else 5, shards=6))
    out.append(SeqJob('lru-cache-2-misses', lambda: Ctx(keys=3, lru=2, cfi=2.9), ops, apply, depth=4 if q else 5, shards=6))
    out.append(SeqJob('lru', LCtx, l_ops, l_apply, depth=7 if q else 9, finish=l_finish))
    out.append(SchedJob('concurrent', concurrent, bound=1 if q else 2, only=['dictionaries/cache_dict.py']))
    out.append(EnumJob('intervals', interval_cases, check_interval))
    out.append(SchedJob('own-executor', own_executor, bound=0, only=['nothing']))
    out.append(SchedJob('info-race', info_race, bound=2, only=['dictionaries/cache_dict.py']))
    return out
