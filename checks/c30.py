"""
C30: every sequence helper against a reference on all short inputs over a small alphabet, given as list, tuple, one-shot iterator and generator;
a counting iterator checks how far lazy helpers read ahead; the list-like wrappers are explored as sequences of operations.
"""
import enum
import itertools
import warnings
from collections import deque
from fractions import Fraction

from mc.jobs import EnumJob, SeqJob
from mc.sched import require
from satella.coding import chain, exhaust, length
from satella.coding import sequences as s
from satella.coding import transforms as t

warnings.simplefilter('ignore')


class Stop(Exception):
    pass


class Item:
    """elements that can only be compared for identity (or equality within a kind)"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Item) and self.n == o.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return 'i%s' % self.n

    def __bool__(self):
        return self.n != 0


class Probe:
    """one-shot iterator that counts what was taken from it and may fail at a point"""

    def __init__(self, xs, fail_at=None, then=None):
        self.xs, self.n, self.fail_at, self.then = list(xs), 0, fail_at, then

    def __iter__(self):
        return self

    def __next__(self):
        if self.fail_at is not None and self.n == self.fail_at:
            raise self.then
        if self.n >= len(self.xs):
            raise StopIteration()
        self.n += 1
        return self.xs[self.n - 1]


class Iterable:
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)


def gen(xs):
    yield from xs


SOURCES = {'list': list, 'tuple': tuple, 'iter': iter, 'gen': gen, 'probe': Probe, 'iterable': Iterable}
A = [Item(0), Item(1), Item(2)]


def words(alphabet, n):
    for k in range(n + 1):
        yield from itertools.product(alphabet, repeat=k)


# ------------------------------------------------------------------ helpers taking one sequence
def tails(xs):
    return [xs[i:] for i in range(len(xs))]


def ref_add_next(xs, wrap, skip):
    out = [(a, b) for a, b in zip(xs, xs[1:])]
    if xs:
        if wrap:
            out.append((xs[-1], xs[0]))
        elif not skip:
            out.append((xs[-1], None))
    return out


def ref_unique(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def ref_groups(n, xs):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def ref_choose(xs, p, multi):
    m = [x for x in xs if p(x)]
    if not m or multi and len(m) > 1:
        return ValueError
    return m[0]


def ref_first(xs, p):
    for i, x in enumerate(xs):
        if p(x):
            return x, i
    return ValueError


def pred(v):
    return lambda x: x == v


class F:
    """one helper: how to call it, what to expect, over which parameters; ahead: how many elements beyond those it needs it may read
    (None: no claim); need(outputs, params): inputs needed for so many outputs"""

    def __init__(self, name, call, ref, params=((),), kinds=None, lst=True, need=None, alphabet=None, same_type=False):
        self.name, self.call, self.ref, self.params, self.kinds, self.lst = name, call, ref, params, kinds or list(SOURCES), lst
        self.need, self.alphabet = need, alphabet or A


def shift_ref(xs, k):
    if k >= 0:
        return xs[k:] + xs[:k]
    return xs[k:] + xs[:k]


HELPERS = [
    F('is_last', s.is_last, lambda xs: [(i == len(xs) - 1, x) for i, x in enumerate(xs)], need=lambda k: k + 1),
    F('add_next', s.add_next, ref_add_next, [(w, k) for w in (False, True) for k in (False, True)], need=lambda k, *a: k + 1),
    F('half_cartesian', s.half_cartesian, lambda xs, same=True: [(xs[i], xs[j]) for i in range(len(xs)) for j in range(len(xs))
                                                                 if i < j or i == j and same], [(), (True,), (False,)]),
    F('group_quantity', lambda q, n: (list(x) for x in s.group_quantity(n, q)), lambda xs, n: ref_groups(n, xs), [(1,), (2,), (3,), (7,)],
      need=lambda k, n: k * n + 1),
    F('filter_out_nones', s.filter_out_nones, lambda xs: [x for x in xs if x is not None], alphabet=[None, 0, 1]),
    F('filter_out_false', s.filter_out_false, lambda xs: [x for x in xs if x], alphabet=[None, 0, 1]),
    F('index_of_max', s.index_of_max, lambda xs: xs.index(max(xs)) if xs else ValueError, kinds=['list', 'tuple'], lst=False, alphabet=[3, 1, 2]),
    F('index_of', lambda q, v: s.index_of(pred(v), q), lambda xs, v: xs.index(v) if v in xs else ValueError, [(v,) for v in A], lst=False),
    F('choose', lambda q, v, m: s.choose(pred(v), q, m), lambda xs, v, m: ref_choose(xs, pred(v), m), [(v, m) for v in A for m in (False, True)],
      lst=False),
    F('choose-none', lambda q, v, m: s.choose(pred(v), q, m), lambda xs, v, m: ref_choose(xs, pred(v), m),
      [(v, m) for v in (None, 0) for m in (False, True)], lst=False, alphabet=[None, 0, '']),
    F('choose_one', lambda q, v: s.choose_one(pred(v), q), lambda xs, v: ref_choose(xs, pred(v), True), [(v,) for v in A], lst=False),
    F('choose_with_index', lambda q, v: s.choose_with_index(pred(v), q), lambda xs, v: ref_first(xs, pred(v)), [(v,) for v in A], lst=False),
    F('length', length, len, lst=False),
    F('exhaust', lambda q: exhaust(iter(q)), lambda xs: None, lst=False),
    F('append_sequence', lambda q, *e: s.append_sequence(([x] if x.n else (x, x) for x in q), *e),
      lambda xs, *e: [((x,) if x.n else (x, x)) + e for x in xs], [(), (1,), (1, None)], need=lambda k, *e: k),
    F('unique', s.unique, ref_unique),
    F('even', s.even, lambda xs: xs[::2], need=lambda k: 2 * k - 1),
    F('odd', s.odd, lambda xs: xs[1::2], need=lambda k: 2 * k),
    F('count', lambda q, *a: s.count(q, *a), lambda xs, st=None, step=1: [(st or 0) + i * step for i in range(len(xs))],
      [(), (0,), (5,), (-2, 3), (1, -1)], need=lambda k, *a: k),
    F('count-old', lambda q, a: s.count(q, start_at=a), lambda xs, a: [a + i for i in range(len(xs))], [(0,), (4,)]),
    F('shift', s.shift, shift_ref, [(k,) for k in range(-3, 4)]),
    F('skip_first', s.skip_first, lambda xs, n: xs[n:], [(n,) for n in range(5)], need=lambda k, n: k + n),
    F('stop_after', s.stop_after, lambda xs, n: xs[:n], [(n,) for n in range(6)], need=lambda k, n: min(k, n)),
    F('n_th', s.n_th, lambda xs, n=0: xs[n] if n < len(xs) else IndexError, [()] + [(n,) for n in range(6)], lst=False),
    F('take_n', s.take_n, lambda xs, n, skip=0: xs[skip:skip + n], [(n,) for n in range(6)] + [(n, k) for n in (0, 1, 3) for k in (1, 4, 6)]),
    F('is_empty', s.is_empty, lambda xs, e=True: not xs, [(), (True,), (False,)], lst=False),
    F('map_list', lambda q: s.map_list(repr, q), lambda xs: [repr(x) for x in xs]),
    F('to_iterator', lambda q: s.to_iterator(repr)(q), lambda xs: [repr(x) for x in xs], need=lambda k: k),
    F('enumerate2', s.enumerate2, lambda xs, a=0, b=1: [(a + i * b, x) for i, x in enumerate(xs)], [(), (3,), (1, 2), (0, -1)], need=lambda k, *a: k),
    F('smart_enumerate', lambda q, *a: s.smart_enumerate(((x, x) if x.n else [x] for x in q), *a),
      lambda xs, a=0, b=1: [(a + i * b, x, x) if x.n else (a + i * b, x) for i, x in enumerate(xs)], [(), (3,), (1, 2)], need=lambda k, *a: k),
    F('one_tuple', t.one_tuple, lambda xs: [(x,) for x in xs], need=lambda k: k),
    F('pad', lambda q, n, p: t.pad_to_multiple_of_length(q, n, p), lambda xs, n, p: xs + [p] * (-len(xs) % n),
      [(n, p) for n in (1, 2, 3, 5) for p in (None, 'p', 0)]),
    F('pad-factory', lambda q, n: t.pad_to_multiple_of_length(q, n, pad_with_factory=lambda c=itertools.count(): next(c)),
      lambda xs, n: xs + list(range(-len(xs) % n)), [(1,), (3,), (4,)]),
    F('split-front', lambda q: t.split_shuffle_and_join(q, lambda x: x.n == 1), lambda xs: [x for x in xs if x.n != 1] + [x for x in xs if x.n == 1]),
    F('split-back', lambda q: t.split_shuffle_and_join(q, lambda x: x.n == 1, False),
      lambda xs: [x for x in xs if x.n == 1] + [x for x in xs if x.n != 1]),
    F('split-all', lambda q: sorted(t.split_shuffle_and_join(q)), sorted, alphabet=[1, 2, 3]),
    F('list_values_to_indices', t.list_values_to_indices, lambda xs: {x: i for i, x in enumerate(xs)} if len(set(xs)) == len(xs) else ValueError,
      lst=False),
    F('hashables_to_int', lambda q: (lambda d: (set(d), sorted(d.values())))(t.hashables_to_int(q)), lambda xs: (set(xs), list(range(len(set(xs))))),
      lst=False),
    F('chain-one', chain, lambda xs: xs, kinds=['list', 'tuple', 'iter', 'gen', 'probe'], need=lambda k: k),
    F('multirun', lambda q: [len(x) for x in s.Multirun([[y] for y in q]).append(1)], lambda xs: [2] * len(xs)),
    F('multirun-iter', lambda q: [len(x) for x in s.Multirun([y] for y in q).append(1)], lambda xs: [2] * len(xs)),
    F('multirun-silent', lambda q: s.Multirun([[y] for y in q], dont_return_list=True).append(1), lambda xs: None, lst=False),
]


def helper_cases(h, n):
    def cases():
        for w in words(h.alphabet, n):
            for p in h.params:
                yield w, p
    return cases


def helper_check(h):
    def check(case):
        w, p = case
        xs = list(w)
        want = h.ref(list(xs), *p) if not (h.name == 'shift' and abs(p[0]) > len(xs)) else None
        for kind in h.kinds:
            src = SOURCES[kind](list(xs))
            try:
                r = h.call(src, *p)
                if h.lst:
                    if h.name in ('shift', 'is_last', 'add_next', 'even', 'odd', 'skip_first', 'stop_after', 'count', 'unique', 'enumerate2'):
                        require(iter(r) is r, '%s did not return an iterator: %r', h.name, r)
                    r = list(r)
            except Exception as e:
                r = type(e)
            if want is None and h.name == 'shift':
                # a shift by more than the length: some rotation
                require(isinstance(r, list) and (r in [xs[k:] + xs[:k] for k in range(len(xs))] or r == xs), '%s%s of %s is %s', h.name, p, xs, r)
                continue
            require(r == want and type(r) is type(want) or isinstance(want, type) and isinstance(r, type) and issubclass(r, want),
                    '%s%s of %s %s is %s, expected %s', h.name, p, kind, xs, r, want)
            if kind == 'list':
                require(src == xs, '%s modified its argument %s: %s', h.name, xs, src)
        if h.need is not None:
            # laziness: over an endless source, k results need no more than so many elements
            long = (xs or list(h.alphabet)) * 20
            src = Probe(long)
            it = iter(h.call(src, *p))
            require(src.n <= 1, '%s read %s elements before it was asked for any', h.name, src.n)
            for k in range(1, 5):
                try:
                    next(it)
                except StopIteration:
                    break
                require(src.n <= h.need(k, *p), '%s%s read %s elements for %s results of %s', h.name, p, src.n, k, long)
            # and a failing source fails after the results that were due, and is not mistaken for its end
            for exc in (Stop(), TypeError('x'), KeyError('x')):
                for at in range(len(xs) + 1):
                    src = Probe(xs, at, exc)
                    out = []
                    try:
                        for x in h.call(src, *p):
                            out.append(x)
                        if src.n < at or h.name == 'stop_after':
                            continue
                    except Exception as e:
                        require(e is exc, '%s%s over %s failing with %r at %s: %r', h.name, p, xs, exc, at, e)
                        full = h.ref(xs, *p)
                        require(out == full[:len(out)] or h.name in ('is_last', 'add_next', 'group_quantity'), '%s gave %s of %s', h.name, out, full)
                        continue
                    require(False, '%s%s over %s hid %r at %s: %s', h.name, p, xs, exc, at, out)
    return check


# ------------------------------------------------------------------ helpers taking several sequences
def multi_cases():
    ws = list(words((1, 2), 3))
    for a in ws:
        for b in ws:
            yield a, b


def cyc(xs, k):
    return xs[k:] + xs[:k]


def multi_check(case):
    a, b = map(list, case)
    for mk in (list, iter, gen):
        require(list(s.other_sequence_no_longer_than(mk(a), mk(b))) == b[:len(a)], 'other_sequence_no_longer_than %s %s', a, b)
        require(list(chain(mk(a), 7, mk(b), None)) == a + [7] + b + [None], 'chain %s %s', a, b)
        require(list(chain()) == [] and list(chain(mk(a))) == a, 'chain')
        require(list(s.smart_zip([(x, x) for x in a], mk(b))) == [(x, x, y) for x, y in zip(a, b)], 'smart_zip %s %s', a, b)
        require(list(s.smart_zip(mk(a), [(y,) for y in b], mk(a))) == list(zip(a, b, a)), 'smart_zip %s %s', a, b)
        for i in range(-len(a), len(a) + 1):
            for j in (-1, 0, 1):
                if abs(j) <= len(b):
                    r = list(s.zip_shifted((mk(a), i), (mk(b), j)))
                    require(r == list(zip(cyc(a, i), cyc(b, j))), 'zip_shifted (%s, %s) (%s, %s) is %s', a, i, b, j, r)
        require(list(s.zip_shifted(mk(a), mk(b))) == list(zip(a, b)), 'zip_shifted %s %s', a, b)
    for n in (1, 2, 3):
        for src in (iter(a), tuple(a), list(a)):
            r = list(s.group_quantity(n, src))
            require([list(x) for x in r] == ref_groups(n, list(a)), 'groups of %s of %s are %s', n, a, r)
    r = s.other_sequence_no_longer_than(a, p := Probe(b))
    list(r)
    require(p.n <= len(a), 'other_sequence_no_longer_than read %s of %s for %s', p.n, b, a)
    d = {'a': a, 'b': b, 'c': []}
    require(list(s.iter_dict_of_list(d)) == [('a', x) for x in a] + [('b', x) for x in b], 'iter_dict_of_list %s', d)
    als = s.AlreadySeen()
    seen = []
    for x in [y for y in a] + [[y] for y in b] + [y for y in a] + [[y] for y in a] + [y for y in b]:
        r = als.is_unique(x)
        require(r is (x not in seen), 'is_unique of %s after %s is %s', x, seen, r)
        seen.append(x)
    als = s.AlreadySeen()
    seen = []
    for x in [{y} for y in b] + [frozenset((y,)) for y in a] + [frozenset((y,)) for y in b] + [{y} for y in a]:
        r = als.is_unique(x)
        require(r is (x not in seen), 'is_unique of %s after %s is %s', x, seen, r)
        seen.append(x)
    da, db = {i: x for i, x in enumerate(a)}, {i: x for i, x in enumerate(b)}
    for nothing in (None, 0):
        dn, dm = {i: nothing if x == 1 else x for i, x in da.items()}, {i: nothing if x == 1 else x for i, x in db.items()}
        require(t.is_subset(dn, dm) is all(k in dm and dm[k] == v for k, v in dn.items()), 'is_subset %s %s', dn, dm)
    require(t.is_subset(da, db) is all(k in db and db[k] == v for k, v in da.items()), 'is_subset %s %s', da, db)
    try:
        r = list(t.unpack_dict(da, *b))
    except KeyError:
        r = None
    require(r == ([da[k] for k in b] if all(k in da for k in b) else None), 'unpack_dict of %s at %s is %s', da, b, r)
    r = list(t.unpack_dict(da, *b, map_through=repr, raise_if_not_found=False))
    require(r == [repr(da[k]) if k in da else None for k in b], 'unpack_dict of %s at %s is %s', da, b, r)


# ------------------------------------------------------------------ merging sorted inputs
def sorted_words(n, m):
    """non-descending key sequences"""
    for k in range(m + 1):
        yield from itertools.combinations_with_replacement(range(n), k)


def merge_cases(n, m, lists):
    def cases():
        yield from itertools.product(list(sorted_words(n, m)), repeat=lists)
    return cases


def merge_check(case):
    lists = [[(k, (Item('%s%s%s' % (i, j, k)),)) for j, k in enumerate(ks)] for i, ks in enumerate(case)]
    for mk in (list, Probe):
        srcs = [mk(l) for l in lists]
        m = t.merge_list(*srcs, merge_function=lambda a, b: a + b)
        require(iter(m) is m, 'not an iterator')
        out = list(m)
        want = {}
        for l in lists:
            for k, v in l:
                want.setdefault(k, []).extend(v)
        require([k for k, _ in out] == sorted(want), 'merging %s gave keys %s', case, [k for k, _ in out])
        for k, v in out:
            require(list(v) == want[k], 'merging %s gave %s for %s, in order %s', case, v, k, want[k])
        require(list(m) == [], 'not exhausted')
    # elements are consumed as they are required: at most one element ahead of each list and what shares the key
    ps = [Probe(l + [(99, ()), (100, ())]) for l in lists]
    m = t.merge_list(*ps, merge_function=lambda a, b: a + b)
    for k, _ in m:
        for p, l in zip(ps, lists):
            bound = sum(1 for x in p.xs if x[0] <= k) + 3
            require(p.n <= bound, 'at key %s %s elements of %s were read', k, p.n, p.xs)


def series_cases(n, m, count):
    def cases():
        ws = [w for k in range(m + 1) for w in itertools.combinations(range(n), k)]
        yield from itertools.product(ws, repeat=count)
    return cases


def series_check(case):
    for value in (lambda i, k: (i, k), lambda i, k: Item((i, k)), lambda i, k: None if (i + k) % 2 else 'x'):
        series = [[(k, value(i, k)) for k in ks] for i, ks in enumerate(case)]
        want = []
        if all(case):
            start = max(ks[0] for ks in case)
            for ts in sorted({k for ks in case for k in ks}):
                if ts >= start:
                    want.append((ts,) + tuple([v for k, v in sr if k <= ts][-1] for sr in series))
        for mk in (list, iter, gen):
            m = t.merge_series(*[mk(x) for x in series])
            got = list(m)
            require(got == want, 'series %s merged to %s, expected %s', series, got, want)
            require(list(m) == [], 'not exhausted')
        for a, b in ((Fraction(1, 2), -1), (0.25, 0), (1, -3)):
            move = lambda k: k * a + b
            got = list(t.merge_series(*[[(move(k), v) for k, v in sr] for sr in series]))
            require(got == [(move(row[0]),) + row[1:] for row in want], 'series %s at times t*%s%+d merged to %s', series, a, b, got)


# ------------------------------------------------------------------ numbers
def number_cases():
    for n in range(1, 5):
        for ts in itertools.combinations(range(0, 6), n):
            for vs in itertools.product((0, 3, -2), repeat=n):
                yield tuple(zip(ts, vs))


def number_check(ser):
    lo, hi = ser[0][0], ser[-1][0]
    for num in range(-2, 24):
        x = Fraction(num, 4)
        for clip in (False, True):
            try:
                r = t.linear_interpolate([(Fraction(a), Fraction(b)) for a, b in ser], x, clip)
            except ValueError:
                require(not clip and not lo <= x <= hi, '%s within %s refused', x, ser)
                continue
            if not lo <= x <= hi:
                require(clip and r == (ser[0] if x < lo else ser[-1])[1], '%s outside of %s gave %s', x, ser, r)
                continue
            (a, b), (c, d) = [p for p in ser if p[0] <= x][-1], [p for p in ser if p[0] >= x][0]
            want = b if a == c else b + Fraction(d - b, c - a) * (x - a)
            require(r == want, 'f(%s) of %s is %s, expected %s', x, ser, r, want)
    vals = sorted(v for _, v in ser)
    for q in range(0, 9):
        f = Fraction(q, 8) * (len(vals) - 1)
        i = int(f)
        want = vals[i] if f == i else vals[i] + (vals[i + 1] - vals[i]) * (f - i)
        r = t.percentile(vals, q / 8)
        require(abs(r - want) < 1e-9, 'percentile %s/8 of %s is %s, expected %s', q, vals, r, want)
    for q in (0.001, 0.009, 0.3331, 0.501, 0.991, 0.999):
        k = q * (len(vals) - 1)
        i = int(k)
        want = vals[i] if i + 1 == len(vals) else vals[i] + (vals[i + 1] - vals[i]) * (k - i)
        r = t.percentile(vals, q)
        require(abs(r - want) < 1e-9, 'percentile %s of %s is %s, expected %s', q, vals, r, want)
    if len(ser) == 1:
        for n in (4, 5, 7):
            for k in range(-n, n + 1):
                for mk in (list, tuple, iter, dict.fromkeys, deque):
                    r = list(s.shift(mk(range(n)), k))
                    require(r == [(i + k) % n for i in range(n)], 'shift by %s of %s elements (%s) is %s', k, n, mk, r)
    for v in (-3, 0, 2, 9):
        for a in (-2, 0, 3):
            for b in (a, a + 1, a + 4):
                require(t.clip(v, a, b) == min(max(v, a), b), 'clip %s %s %s', v, a, b)


def range_cases():
    q = (-1, -0.5, 0, 0.25, 1, 1.5)
    for a in q:
        yield (a,)
        for b in q:
            yield a, b
            for st in (1, 0.5, 0.75, -0.25, -1):
                yield a, b, st


def range_check(args):
    a = args[0] if len(args) > 1 else 0
    b = args[1] if len(args) > 1 else args[0]
    st = args[2] if len(args) > 2 else 1
    want = [a + i * st for i in range(100) if (a + i * st < b if st > 0 else a + i * st > b)]
    require(list(s.f_range(*args)) == want, 'f_range%s is %s, expected %s', args, list(s.f_range(*args)), want)
    for bad in ((), (1, 2, 3, 4)):
        try:
            s.f_range(*bad)
        except TypeError:
            continue
        require(False, 'f_range%s accepted', bad)


class En(enum.Enum):
    A = 0
    LONG = 'x'


def str_cases(depth):
    leaves = [1, 'a', '', None, En.A, En.LONG, 2.5, True]

    def nested(d):
        yield from leaves
        if d:
            sub = list(nested(d - 1))
            few = sub[::max(1, len(sub) // 9)]
            for k in (list, tuple):
                yield k()
                for x in sub:
                    yield k((x,))
                for x, y in itertools.product(few, few):
                    yield k((x, y))
            yield {}
            for key in (1, 'k', En.A):
                for x in sub:
                    yield {key: x}
            for x, y in itertools.product(few, few):
                yield {'p': x, 2: y}
    yield from nested(depth)


def str_ref(x, f, rec, str_none):
    if isinstance(x, str):
        return x
    if isinstance(x, enum.Enum):
        return x.name
    go = (lambda y: str_ref(y, f, rec, str_none)) if rec else f
    if isinstance(x, dict):
        return {go(k): go(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [go(y) for y in x]
    if x is None:
        return f(None) if str_none else None
    return f(x)


def str_check(x):
    before = repr(x)
    for f in (str, repr, lambda y: 'f'):
        for str_none in (False, True):
            for rec in (False, True):
                if not rec:
                    inner = list(x) + list(x.values()) if isinstance(x, dict) else x if isinstance(x, (list, tuple)) else ()
                    if any(y is None or isinstance(y, (enum.Enum, str)) for y in inner):
                        continue        # what becomes of those is not documented
                r = t.stringify(x, f, recursively=rec, str_none=str_none)
                w = str_ref(x, f, rec, str_none)
                require(r == w and type(r) is type(w), 'stringify of %s (%s, %s) is %s, expected %s', x, rec, str_none, r, w)
            require(repr(x) == before, 'changed to %s', x)
    if x is None:
        require(t.stringify(x) == t.stringify(x, str, False, False), 'defaults')
    elif not isinstance(x, (dict, list, tuple)) or not any(
            y is None or isinstance(y, (enum.Enum, str)) for y in (list(x) + list(x.values()) if isinstance(x, dict) else x)):
        for kw in ({}, {'str_none': True}, {'stringifier': repr}):
            r = t.stringify(x, **kw)
            w = str_ref(x, kw.get('stringifier', str), False, kw.get('str_none', False))
            require(r == w and type(r) is type(w), 'stringify of %s (%s) is %s, expected %s', x, kw, r, w)


def misc_cases():
    for n in range(5):
        for start in (0, 1, 5):
            for exc in (IndexError, ValueError, KeyError):
                yield n, start, exc


def misc_check(case):
    n, start, exc = case

    def at(i):
        if i >= n:
            raise exc()
        return i * 2
    try:
        r = list(s.iterate_callable(at, start))
    except KeyError:
        r = 'error'
    require(r == ('error' if exc is KeyError else [2 * i for i in range(start, n)]), 'iterate_callable up to %s from %s is %s', n, start, r)
    require(list(s.iterate_callable(at, start, exc)) == [2 * i for i in range(start, n)], 'iterate_callable')
    x = []
    l = s.make_list([x], n)
    require(l == [[x]] * n and len({id(y) for y in l}) == n and all(y[0] is x for y in l), 'make_list %s', l)
    l = s.make_list([x], n, True)
    require(l == [[x]] * n and len({id(y[0]) for y in l}) == n and all(y[0] is not x for y in l), 'make_list deep %s', l)
    c = itertools.count(start)
    require(list(itertools.islice(s.infinite_iterator(return_factory=lambda: next(c)), n)) == list(range(start, start + n)), 'infinite_iterator')
    require(list(itertools.islice(s.infinite_iterator(x), n)) == [x] * n, 'infinite_iterator')
    require(list(itertools.islice(s.infinite_iterator(), n)) == [None] * n, 'infinite_iterator')
    require(list(itertools.islice(s.infinite_counter(start, 3), n)) == [start + 3 * i for i in range(n)], 'infinite_counter')
    p = s.is_instance((int, str))
    require([p(y) for y in (1, 'a', None, 2.0, True)] == [True, True, False, False, True], 'is_instance')


def trees(d, w):
    """nested lists of depth d, width up to w, leaves are numbers"""
    yield 0
    if d:
        sub = list(trees(d - 1, w))
        for k in range(w + 1):
            for c in itertools.product(sub, repeat=k):
                yield list(c)


def tree_cases(d, w):
    def cases():
        for x in trees(d, w):
            if isinstance(x, list):
                for deep in (True, False):
                    for leaves in (True, False):
                        for none in (True, False):
                            yield x, deep, leaves, none
    return cases


def tree_check(case):
    x, deep, leaves, none = case

    def get(y):
        return y if isinstance(y, list) else (None if none else [])
    want = []

    def dfs(y):
        for z in y:
            if not (leaves and isinstance(z, list) and z):
                want.append(z)
            if isinstance(z, list):
                dfs(z)
    if deep:
        dfs(x)
    else:
        q = list(x)
        while q:
            z = q.pop(0)
            if isinstance(z, list):
                q.extend(z)
            if not (leaves and isinstance(z, list) and z):
                want.append(z)
    got = list(s.walk(x, get, deep_first=deep, leaves_only=leaves))
    require(len(got) == len(want) and all(a is b or a == b == 0 for a, b in zip(got, want)), 'walk %s gave %s, expected %s', case, got, want)
    require(list(s.walk(7, get)) == [], 'walk of a leaf')


# ------------------------------------------------------------------ list-like views of an iterator
class Lwi:
    def __init__(self, n, kind):
        self.src = [Item(i % 3) for i in range(n)]
        self.probe = Probe(self.src)
        self.w = s.ListWrapperIterator(self.probe if kind == 'iter' else Iterable(self.probe))
        self.need = 0
        self.p = 0


NON = Item('absent')
SLICES = [slice(a, b, c) for a in (None, 0, 1, -2) for b in (None, 0, 2, -1) for c in (None, 2, -1)]


def lwi_ops(c):
    n = len(c.src)
    out = [('next',), ('len',), ('in', 0), ('in', 1), ('in', 2), ('in', None), ('list',), ('exhaust',), ('reversed',)]
    out += [('get', i) for i in (-n - 1, -1, -2, 0, 1, n - 1, n)] + [('slice', i) for i in range(len(SLICES))]
    return out


def lwi_apply(c, op):
    n, w = len(c.src), c.w
    need = 0
    if op[0] == 'next':
        try:
            r = next(w)
        except StopIteration:
            require(c.p == n, 'ended at %s of %s', c.p, n)
            r = None
        else:
            require(c.p < n and r is c.src[c.p], 'next at %s of %s is %s', c.p, c.src, r)
            c.p += 1
        need = c.p
    elif op[0] == 'len':
        require(len(w) == n, 'len is %s of %s', len(w), n)
        need = n
    elif op[0] == 'exhaust':
        w.exhaust()
        need = n
    elif op[0] == 'in':
        x = NON if op[1] is None else Item(op[1])
        r = x in w
        require(r is (x in c.src), '%s in %s is %s', x, c.src, r)
        need = c.src.index(x) + 1 if r else n
        require(c.p <= w.internal_pointer <= n, 'pointer %s', w.internal_pointer)
        need = max(need, w.internal_pointer if not r or c.probe.n > c.need else 0)
        if r:
            need = max(c.src.index(x) + 1, c.need)
        c.p = w.internal_pointer
    elif op[0] == 'list':
        r = list(w)
        require(len(r) == n - c.p and all(a is b for a, b in zip(r, c.src[c.p:])), 'rest of %s from %s is %s', c.src, c.p, r)
        c.p = need = n
    elif op[0] == 'reversed':
        r = list(reversed(w))
        require(r == c.src[::-1], 'reversed is %s', r)
        need = n
    elif op[0] == 'get':
        i = op[1]
        try:
            r = w[i]
        except IndexError:
            require(not -n <= i < n, '[%s] of %s refused', i, n)
            r = None
        else:
            require(-n <= i < n and r is c.src[i], '[%s] of %s is %s', i, c.src, r)
        need = n if i < 0 else min(n, i + 1)
    elif op[0] == 'slice':
        sl = SLICES[op[1]]
        r = w[sl]
        require(r == c.src[sl] and type(r) is list, '[%s] of %s is %s', sl, c.src, r)
        simple = sl.step in (None, 2) and sl.stop is not None and sl.stop >= 0 and (sl.start or 0) >= 0
        need = min(n, sl.stop) if simple else n
    c.need = max(c.need, need)
    require(c.probe.n <= c.need, 'read %s elements where %s were needed', c.probe.n, c.need)


def lwi_key(c):
    return (c.p, c.need, c.probe.n)


class Avg:
    def __init__(self, n):
        self.n, self.a, self.l = n, s.RollingArithmeticAverage(n), []


AVG_OPS = [('i', 1), ('i', 4), ('i', -2), ('c',)]


def avg_apply(c, op):
    if op[0] == 'i':
        c.a.insert(op[1])
        c.l = (c.l + [op[1]])[-c.n:]
    else:
        c.a.clear()
        c.l = []
    try:
        r = c.a.avg()
    except ZeroDivisionError:
        r = None
    want = sum(c.l) / len(c.l) if c.l else None
    require(r == want, 'average of %s is %s', c.l, r)


class Con:
    def __init__(self):
        self.c, self.l = s.ConstruableIterator([1, 2]), [1, 2]


CON_OPS = [('next',), ('add', 3), ('imm', 4), ('many', (5, 6)), ('imany', (7, 8, 9)), ('imany', ()), ('for',)]


def con_apply(c, op):
    if op[0] == 'next':
        try:
            r = [next(c.c)]
        except StopIteration:
            r = []
        require(r == c.l[:1], 'next is %s of %s', r, c.l)
        c.l = c.l[1:]
    elif op[0] == 'add':
        c.c.add(op[1])
        c.l.append(op[1])
    elif op[0] == 'imm':
        c.c.add_immediate(op[1])
        c.l.insert(0, op[1])
    elif op[0] == 'many':
        c.c.add_many(iter(op[1]))
        c.l.extend(op[1])
    elif op[0] == 'imany':
        c.c.add_many_immediate(iter(op[1]))
        c.l[:0] = op[1]
    else:
        for x in c.c:
            require(x == c.l.pop(0), 'got %s', x)
        require(not c.l, 'left %s', c.l)
    require(c.c.__length_hint__() == len(c.l), 'length hint of %s', c.l)


class Ila:
    def __init__(self, n):
        self.src = list(range(n))
        self.a = s.IteratorListAdapter(iter(self.src))
        self.rest, self.unfolded = list(self.src), False


def ila_apply(c, op):
    """only what holds on either side of unfolding: elements come in order, once"""
    a = c.a
    if op[0] == 'next':
        try:
            r = [next(a)]
        except StopIteration:
            r = []
        require(r == c.rest[:1], 'next is %s of %s', r, c.rest)
        c.rest = c.rest[1:]
    elif not c.unfolded:
        c.unfolded = True
        c.all = list(c.rest)
    if op[0] == 'len':
        require(len(a) == len(c.all), 'length %s of %s', len(a), c.all)
    elif op[0] == 'get':
        for i in range(-len(c.all), len(c.all)):
            require(a[i] == c.all[i], '[%s] of %s is %s', i, c.all, a[i])
    elif op[0] == 'in':
        for x in range(5):
            require((x in a) is (x in c.all), '%s in %s', x, c.all)
    elif op[0] == 'list':
        for _ in range(2):
            a[0:0]
            require(list(a) == c.all, 'list %s of %s', list(a), c.all)


# ------------------------------------------------------------------ the same operation on many
class Counted:
    """records what is done with it"""

    def __init__(self, log, i):
        self.log, self.i = log, i

    def method(self, *args, **kwargs):
        """documentation of the method"""
        self.log.append((self.i, 'method', args, tuple(sorted(kwargs.items()))))
        return 'result'


INPLACE = {'iadd': '+=', 'isub': '-=', 'imul': '*=', 'itruediv': '/=', 'ifloordiv': '//=', 'ilshift': '<<=', 'irshift': '>>=', 'ipow': '**='}
for _name in INPLACE:
    def _op(self, other, _name=_name):
        self.log.append((self.i, _name, other))
        return self
    setattr(Counted, '__%s__' % _name, _op)


def multirun_check(case):
    n, kind, ops, silent = case
    log = []
    elements = [Counted(log, i) for i in range(n)]
    source = {'list': list, 'tuple': tuple, 'iter': iter, 'set': lambda e: dict.fromkeys(e)}[kind](elements)
    m = s.Multirun(source, dont_return_list=silent)
    expected = []
    if kind != 'iter':
        require(bool(m) is bool(n), 'truth of %s elements: %s', n, bool(m))
    require(list(m) == elements, 'iterates over %s', list(m))
    for op in ops:
        if op in INPLACE:
            names = {'m': m}
            exec('m %s 5' % INPLACE[op], names)
            require(names['m'] is m, '%s made another object', INPLACE[op])
            expected += [(i, op, 5) for i in range(n)]
        else:
            fun = m.method
            require(n == 0 or fun.__doc__ == Counted.method.__doc__, 'documentation of a method: %s', fun.__doc__)
            got = fun(1, k=2) if op == 'call' else fun()
            require(got is None if silent else (type(got) is list and len(got) == n and all(a is b for a, b in zip(got, elements))),
                    'returned %s', got)
            expected += [(i, 'method', (1,) if op == 'call' else (), (('k', 2),) if op == 'call' else ()) for i in range(n)]
    require(log == expected, 'done %s, expected %s', log, expected)


def intify_check(i):
    class Inty:
        def __int__(self):
            return 77

        def __len__(self):
            return 3

    class Sized:
        def __len__(self):
            return 3
    values = [(None, 0), (5, 5), (-5, -5), (2.9, 2), (-2.9, -2), (True, 1), (False, 0), ('12', 12), (' 12 ', 12), ('-3', -3), ('', 0), ('ab', 2), ('1.5', 3),
              (b'12', 12), (b'abc', 3), ([], 0), ([1, 2], 2), ({1: 2}, 1), ({1, 2, 3}, 3), ((), 0), (range(4), 4), (Inty(), 77), (Sized(), 3),
              (Fraction(7, 2), 3), (float('nan'), ValueError), (object(), ValueError), (lambda: 5, ValueError), (1j, ValueError), (iter([1]), ValueError)]
    v, want = values[i]
    try:
        got = t.intify(v)
    except ValueError:
        got = ValueError
    require(got is want or got == want and type(got) is type(want), 'intify(%r) is %s', v, got)


def pad_check(case):
    n, multiple, with_, factory = case
    made = []

    def make():
        made.append(1)
        return ('made', len(made))
    kwargs = {}
    if with_:
        kwargs['pad_with'] = 'p'
    if factory:
        kwargs['pad_with_factory'] = make
    try:
        got = t.pad_to_multiple_of_length(list(range(n)), multiple, **kwargs)
    except ValueError:
        require(with_ and factory, 'refused to pad')
        return
    require(not (with_ and factory), 'accepted both ways of padding')
    missing = -n % multiple
    want = list(range(n)) + ([('made', i + 1) for i in range(missing)] if factory else ['p' if with_ else None] * missing)
    require(got == want, 'padded %s to a multiple of %s: %s', n, multiple, got)


ILA_OPS = [('next',), ('len',), ('get',), ('in',), ('list',)]


def jobs(tier):
    th = tier == 'thorough'
    out = [EnumJob(h.name, helper_cases(h, 6 if th else 4), helper_check(h)) for h in HELPERS]
    out += [EnumJob('several', multi_cases, multi_check, shards=2),
            EnumJob('merge-2', merge_cases(4 if th else 3, 4 if th else 3, 2), merge_check, shards=2),
            EnumJob('merge-3', merge_cases(3, 3 if th else 2, 3), merge_check, shards=2), EnumJob('merge-0', lambda: [()], merge_check),
            EnumJob('series-2', series_cases(6 if th else 5, 4, 2), series_check, shards=2),
            EnumJob('series-3', series_cases(4, 4 if th else 3, 3), series_check, shards=4), EnumJob('series-1', series_cases(5, 5, 1), series_check),
            EnumJob('numbers', number_cases, number_check, shards=4), EnumJob('f_range', range_cases, range_check),
            EnumJob('multirun-operations', lambda: itertools.product(range(4), ('list', 'tuple', 'iter', 'set'), [o for k in range(3) for o in itertools.product(
                sorted(INPLACE) + ['call', 'call0'], repeat=k)], (False, True)), multirun_check, shards=2),
            EnumJob('intify-all', lambda: range(29), intify_check),
            EnumJob('padding', lambda: itertools.product(range(6), range(1, 5), (False, True), (False, True)), pad_check),
            EnumJob('misc', misc_cases, misc_check), EnumJob('stringify', lambda: str_cases(2), str_check, shards=2), EnumJob('walk', tree_cases(3 if th else 2, 3 if not th else 2), tree_check, shards=2)]
    for n in (0, 1, 3, 4):
        for kind in ('iter', 'iterable'):
            out.append(SeqJob('lwi-%s-%s' % (kind, n), lambda n=n, kind=kind: Lwi(n, kind), lwi_ops, lwi_apply, 5 if th else 4))
    for n in (1, 2, 3):
        out.append(SeqJob('average-%s' % n, lambda n=n: Avg(n), AVG_OPS, avg_apply, 8 if th else 6))
    out.append(SeqJob('construable', Con, CON_OPS, con_apply, 6 if th else 4))
    for n in (0, 1, 3):
        out.append(SeqJob('adapter-%s' % n, lambda n=n: Ila(n), ILA_OPS, ila_apply, 6))
    return out
