"""
C19: dictionary-like wrappers and Proxy.
"""
import collections
import copy
import itertools
import math
import operator
import pickle
import warnings

from mc.jobs import SeqJob, EnumJob
from mc.sched import require, Violation
from satella.coding.structures import TwoWayDictionary, DirtyDict, KeyAwareDefaultDict, DictionaryView, DictObject, \
    apply_dict_object, CountingDict, DefaultDict, Proxy, HashableWrapper

warnings.simplefilter('ignore')
MISS = '<missing>'


def look(d, k):
    try:
        return d[k]
    except KeyError:
        return MISS


def same_mapping(d, m, keys, what=''):
    """every way to read a mapping agrees with the model"""
    require(len(d) == len(m), '%slen %s of %s', what, len(d), m)
    require(bool(d) == bool(m), '%struth', what)
    require(sorted(map(repr, d)) == sorted(map(repr, m)), '%skeys %s of %s', what, list(d), m)
    require(sorted(map(repr, d.keys())) == sorted(map(repr, m)), '%skeys()', what)
    require(sorted(map(repr, d.items())) == sorted(map(repr, m.items())), '%sitems %s of %s', what, list(d.items()), m)
    require(sorted(map(repr, d.values())) == sorted(map(repr, m.values())), '%svalues', what)
    for k in keys:
        require((k in d) == (k in m), '%s%r in', what, k)
        if k in m:
            require(d[k] == m[k], '%s[%r] is %s, expected %s', what, k, d[k], m[k])


# ------------------------------------------------------------------ TwoWayDictionary
DOM = (None, 0, 'x')


class TCtx:
    def __init__(self, init):
        self.t = TwoWayDictionary(init)
        self.m = dict(init)


def tops(c):
    out = []
    for side in (0, 1):
        for k in DOM:
            out += [('del', side, k), ('pop', side, k), ('popd', side, k)]
            for v in DOM:
                out += [('set', side, k, v), ('setdefault', side, k, v), ('update', side, k, v)]
        out += [('popitem', side), ('clear', side)]
    return out


def tapply(c, op):
    k, side = op[0], op[1]
    d = c.t.reverse if side else c.t
    m = {v: q for q, v in c.m.items()} if side else dict(c.m)
    before = dict(m)
    if k in ('set', 'update', 'setdefault'):
        key, v = op[2], op[3]
        clash = [q for q, x in m.items() if x == v]
        if k == 'setdefault' and key in m:
            require(d.setdefault(key, v) == m[key], 'setdefault')
        else:
            try:
                if k == 'set':
                    d[key] = v
                elif k == 'setdefault':
                    require(d.setdefault(key, v) == v, 'setdefault')
                else:
                    d.update({key: v})
            except ValueError:
                require(clash, 'ValueError')
            else:
                require(not clash or clash == [key], 'took a value twice')
                m[key] = v
    elif k in ('del', 'pop', 'popd'):
        try:
            if k == 'del':
                del d[op[2]]
            elif k == 'pop':
                require(d.pop(op[2]) == m[op[2]], 'popped')
            else:
                require(d.pop(op[2], MISS) == m.get(op[2], MISS), 'popped')
        except KeyError:
            require(op[2] not in m, 'KeyError')
        else:
            require(op[2] in m or k == 'popd', 'no KeyError')
            m.pop(op[2], None)
    elif k == 'popitem':
        try:
            q, v = d.popitem()
        except KeyError:
            require(not m, 'KeyError')
        else:
            require(m.pop(q, MISS) == v, 'popitem')
    elif k == 'clear':
        d.clear()
        m = {}
    c.m = {v: q for q, v in m.items()} if side else m
    same_mapping(c.t, c.m, DOM, 'forward ')
    same_mapping(c.t.reverse, {v: q for q, v in c.m.items()}, DOM, 'reverse ')
    require(c.t.reverse.reverse is c.t, 'reverse of the reverse')


def tfinish(c):
    with c.t as t:
        require(t is c.t, 'context manager')
        same_mapping(t, c.m, DOM)
    c.t = TwoWayDictionary(c.m)
    c.t.done()


def two_way_build():
    for n in range(4):
        for vals in itertools.product((1, 2, 3), repeat=n):
            yield list(zip('abc', vals))


def two_way_built(pairs):
    vals = [v for _, v in pairs]
    try:
        t = TwoWayDictionary(pairs)
    except ValueError:
        require(len(set(vals)) < len(vals), 'refused %s', pairs)
    else:
        require(len(set(vals)) == len(vals), 'accepted %s', pairs)
        same_mapping(t.reverse, {v: k for k, v in pairs}, vals)


# ------------------------------------------------------------------ DirtyDict
class DCtx:
    def __init__(self, init):
        self.d = DirtyDict(init)
        self.m = dict(init)
        self.dirty = False


def dops(c):
    out = [('set', k, v) for k in (1, 2) for v in (1, None)]
    out += [(o, k) for k in (1, 2) for o in ('del', 'pop', 'popd')]
    out += [('setdefault', 1, 2), ('update', 2, 1), ('clear',), ('clear_dirty',), ('swap',), ('copyclear',), ('copy',), ('popitem',),
            ('reads',)]
    return out


def dapply(c, op):
    d, m, k = c.d, c.m, op[0]
    before = dict(m)
    reset = False
    if k == 'set':
        d[op[1]] = m[op[1]] = op[2]
    elif k == 'update':
        d.update({op[1]: op[2]})
        m[op[1]] = op[2]
    elif k == 'setdefault':
        require(d.setdefault(op[1], op[2]) == m.setdefault(op[1], op[2]), 'setdefault')
    elif k in ('del', 'pop', 'popd'):
        try:
            if k == 'del':
                del d[op[1]]
            elif k == 'pop':
                require(d.pop(op[1]) == m[op[1]], 'pop')
            else:
                require(d.pop(op[1], MISS) == m.get(op[1], MISS), 'pop')
        except KeyError:
            require(op[1] not in m, 'KeyError')
        else:
            require(op[1] in m or k == 'popd', 'no KeyError')
        m.pop(op[1], None)
    elif k == 'clear':
        d.clear()
        m.clear()
    elif k == 'popitem':
        try:
            q, v = d.popitem()
            require(m.pop(q) == v, 'popitem')
        except KeyError:
            require(not m, 'KeyError')
    elif k == 'clear_dirty':
        d.clear_dirty()
        reset = True
    elif k == 'swap':
        r = d.swap_and_clear_dirty()
        require(type(r) is dict and r == m, 'swapped %s', r)
        m.clear()
        r[9] = 9
        before = {}
        reset = True
    elif k == 'copyclear':
        r = d.copy_and_clear_dirty()
        require(type(r) is dict and r == m, 'copied %s', r)
        r[9] = 9
        reset = True
    elif k == 'copy':
        o = copy.copy(d)
        require(o.dirty == c.dirty, 'copied flag')
        same_mapping(o, m, (1, 2), 'copy ')
        c.d, d = o, o
    if m != before:
        c.dirty = True
    if reset:
        c.dirty = False
    same_mapping(d, m, (1, 2, 9))
    require(d.dirty == c.dirty, 'dirty is %s, expected %s', d.dirty, c.dirty)


# ------------------------------------------------------------------ defaults and counting
class KCtx:
    def __init__(self):
        self.calls = []
        self.d = KeyAwareDefaultDict(self.make, {1: 'one'})
        self.m = {1: 'one'}

    def make(self, k):
        if k == 'bad':
            raise ValueError('bad')
        self.calls.append(k)
        return made(k)


def made(k):
    return None if k is None else 'made %s' % k


KOPS = [('get', 1), ('get', 2), ('get', None), ('in', 2), ('set', 2), ('del', 1), ('del', 2), ('bad',), ('len',), ('iget', 1)]


def kapply(c, op):
    k = op[0]
    if k == 'get':
        n = len(c.calls)
        v = c.d[op[1]]
        want = c.m.get(op[1], made(op[1]))
        require(v == want, 'got %s', v)
        require(len(c.calls) == n + (op[1] not in c.m), 'factory called %s', c.calls)
        c.m[op[1]] = v
    elif k == 'iget':
        if op[1] in c.m:
            require(c.d.get(op[1]) == c.m[op[1]], 'get()')
    elif k == 'set':
        c.d[op[1]] = c.m[op[1]] = 'set'
    elif k == 'del':
        try:
            del c.d[op[1]]
        except KeyError:
            require(op[1] not in c.m, 'KeyError')
        else:
            require(c.m.pop(op[1], MISS) is not MISS, 'no KeyError')
    elif k == 'bad':
        try:
            c.d['bad']
        except ValueError:
            pass
        else:
            raise Violation('no exception')
    same_mapping(c.d, c.m, (1, 2, 3, None, 'bad'))


def defaults():
    for n in range(4):
        for prog in itertools.product(('get1', 'set1', 'del1', 'get2', 'inc2'), repeat=n):
            yield prog


def default_case(prog):
    d, m = DefaultDict(int), {}
    for p in prog:
        k = int(p[-1])
        if p[:3] == 'get':
            require(d[k] == m.get(k, 0), 'get')
        elif p[:3] == 'set':
            d[k] = m[k] = 7
        elif p[:3] == 'inc':
            d[k] += 1
            m[k] = m.get(k, 0) + 1
        else:
            try:
                del d[k]
            except KeyError:
                require(k not in m, 'KeyError')
            m.pop(k, None)
        same_mapping(d, m, (1, 2))


def countings():
    for n in range(5):
        for seq in itertools.product((1, 'a', None), repeat=n):
            for extra in (None, 0, 2):
                yield seq, extra


def counting(case):
    seq, extra = case
    for how in ('init', 'count', 'gen'):
        c = CountingDict(seq) if how == 'init' else CountingDict(x for x in seq) if how == 'gen' else CountingDict()
        m = dict(collections.Counter(seq))
        if how == 'count':
            for s in seq:
                c.count(s)
        if extra is not None and seq:
            c.count(seq[0], extra)
            m[seq[0]] += extra
        c.count('n', 0)     # none of a new element
        m['n'] = 0
        c.count('k', pieces=3)
        m['k'] = 3
        same_mapping(c, m, (1, 'a', None, 'n'))
        require(look(c, 'zz') == MISS, 'absent')
        c.clear()
        same_mapping(c, {}, (1,))
        c.count(1)
        same_mapping(c, {1: 1}, (1,))


# ------------------------------------------------------------------ DictionaryView
class VCtx:
    def __init__(self, pd, asd, n):
        base = [{1: 'a'}, {1: 'b', 2: None}, {2: 'c', 3: 0}][:n]
        self.ds = [dict(d) for d in base]
        self.ms = [dict(d) for d in base]
        self.v = DictionaryView(*self.ds, propagate_deletes=pd, assign_to_same_dict=asd)
        self.pd, self.asd = pd, asd


def vops(c):
    return [(o, k) for o in ('set', 'del') for k in (1, 2, 3, 4)] + [('direct', 0, 2), ('copy',), ('deepcopy',), ('undirect', 1)]


def vapply(c, op):
    k = op[0]
    if k == 'set':
        c.v[op[1]] = 'n'
        where = [m for m in c.ms if op[1] in m] if c.asd else []
        (where + [c.ms[0]])[0][op[1]] = 'n'
    elif k == 'del':
        where = [m for m in (c.ms if c.pd else c.ms[:1]) if op[1] in m]
        try:
            del c.v[op[1]]
        except KeyError:
            require(not where, 'KeyError')
        else:
            require(where, 'no KeyError')
            del where[0][op[1]]
    elif k == 'direct':
        c.ds[op[1]][op[2]] = c.ms[op[1]][op[2]] = 'd'
    elif k == 'undirect':
        c.ds[-1].pop(op[1], None)
        c.ms[-1].pop(op[1], None)
    elif k == 'copy':
        c.v = copy.copy(c.v)
    elif k == 'deepcopy':
        old = c.v
        c.v = copy.deepcopy(c.v)
        c.v[77] = 1
        require(77 not in old, 'a deep copy shares data')
        del c.v[77]
        c.v = old
    require(c.ds == c.ms, 'the dictionaries are %s, expected %s', c.ds, c.ms)
    full = {}
    for m in reversed(c.ms):
        full.update(m)
    same_mapping(c.v, full, (1, 2, 3, 4))
    order = []
    for m in c.ms:
        order += [x for x in m if x not in order]
    require(list(c.v) == order, 'order')
    require(look(c.v, 'zz') == MISS and c.v.get('zz', 5) == 5, 'absent')


# ------------------------------------------------------------------ DictObject
class OCtx:
    def __init__(self):
        self.o = DictObject({'a': 1, 5: 2})
        self.m = {'a': 1, 5: 2}


OOPS = [('aset', 'a'), ('aset', 'b'), ('iset', 'a'), ('iset', 5), ('adel', 'a'), ('adel', 'b'), ('idel', 'a'), ('idel', 5),
        ('pop', 'b'), ('setdefault', 'b'), ('update', 'a'), ('copy',), ('deepcopy',), ('pickle',), ('same',), ('clear',),
        ('setattr', 'with space')]


def oapply(c, op):
    k = op[0]
    o, m = c.o, c.m
    if k == 'aset':
        setattr(o, op[1], 'A')
        m[op[1]] = 'A'
    elif k == 'setattr':
        setattr(o, op[1], 'S')
        m[op[1]] = 'S'
    elif k == 'iset':
        o[op[1]] = m[op[1]] = 'I'
    elif k in ('adel', 'idel'):
        try:
            if k == 'adel':
                delattr(o, op[1])
            else:
                del o[op[1]]
        except (AttributeError if k == 'adel' else KeyError):
            require(op[1] not in m, 'missing')
        else:
            require(op[1] in m, 'deleted an absent one')
            del m[op[1]]
    elif k == 'pop':
        require(o.pop(op[1], MISS) == m.pop(op[1], MISS), 'pop')
    elif k == 'setdefault':
        require(o.setdefault(op[1], 'D') == m.setdefault(op[1], 'D'), 'setdefault')
    elif k == 'update':
        o.update({op[1]: 'U'})
        m[op[1]] = 'U'
    elif k == 'clear':
        o.clear()
        m.clear()
    elif k in ('copy', 'deepcopy', 'pickle'):
        if k == 'deepcopy':     # what is shared stays shared among the copies
            x = [1]
            a, b = copy.deepcopy([x, DictObject(p=x, q=DictObject(r=x))])
            require(b.p is a and b.q.r is a and a is not x, 'a deep copy separates what was shared')
        n = copy.copy(o) if k == 'copy' else copy.deepcopy(o) if k == 'deepcopy' else pickle.loads(pickle.dumps(o))
        require(n is not o and isinstance(n, DictObject) and n == o, 'copied %s to %s', o, n)
        o['tmp'] = 1
        require('tmp' not in n, 'a copy shares data')
        del o['tmp']
        c.o = o = n
    elif k == 'same':
        require(DictObject(o) is o and apply_dict_object(o) is o, 'DictObject of a DictObject')
    same_mapping(o, m, ('a', 'b', 5, 'zz'))
    require(o == m and isinstance(o, dict), 'is no dictionary')
    for q in ('a', 'b', 'zz'):
        require(hasattr(o, q) == (q in m), 'attribute %s', q)
        if q in m:
            require(getattr(o, q) == m[q], 'attribute %s', q)
    require(getattr(o, 'zz', MISS) == MISS, 'absent attribute')


def nested():
    leaves = [1, 'x', None, (1,)]
    lvl1 = leaves + [{}, {'k': 1}, [], [1, {'q': 2}], {3: {'k': 1}}]
    for a in lvl1:
        yield a
        for b in lvl1:
            yield {'a': a, 'b': b}
            yield [a, b]
            yield {'n': [{'a': a}, b]}


def nested_apply(v):
    orig = copy.deepcopy(v)
    r = apply_dict_object(v)
    require(r == v and v == orig, 'changed content')

    def walk(x, y):
        if isinstance(y, dict):
            require(isinstance(x, DictObject), '%r is not a DictObject', x)
            for k, val in y.items():
                walk(x[k], val)
                if isinstance(k, str):
                    walk(getattr(x, k), val)
        elif isinstance(y, list):
            require(type(x) is list and len(x) == len(y), 'list')
            for p, q in zip(x, y):
                walk(p, q)
        else:
            require(x == y and type(x) is type(y), 'leaf')
    walk(r, v)


# ------------------------------------------------------------------ Proxy
class Mat:
    def __init__(self, v):
        self.v = v

    def __matmul__(self, o):
        return ('mm', self.v, o)

    def __rmatmul__(self, o):
        return ('rmm', o, self.v)

    def __eq__(self, o):
        return isinstance(o, Mat) and o.v == self.v


BIN = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'lshift', 'rshift', 'and_', 'or_', 'xor', 'matmul',
       'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'divmod']
COMPARISONS = {'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'divmod'}
INPLACE = ['iadd', 'isub', 'imul', 'itruediv', 'ifloordiv', 'imod', 'ipow', 'ilshift', 'irshift', 'iand', 'ior', 'ixor']
VALUES = [5, -3, 0, 2.5, -2.75, 'ab%s', (1, 2), [1, 2], True, frozenset((1, 2)), 1 + 2j]
UN = {'neg': operator.neg, 'pos': operator.pos, 'invert': operator.invert, 'abs': abs, 'int': int, 'float': float,
      'complex': complex, 'str': str, 'repr': repr, 'bool': bool, 'round': round, 'round1': lambda v: round(v, 1), 'floor': math.floor,
      'ceil': math.ceil, 'trunc': math.trunc, 'hash': hash, 'len': len, 'list': list, 'reversed': lambda v: list(reversed(v)),
      'hex': hex, 'oct': oct, 'index': operator.index, 'contains': lambda v: 1 in v, 'item': lambda v: v[0], 'slice': lambda v: v[:1],
      'format': lambda v: format(v, ''), 'format2': lambda v: format(v, '>9'), 'real': lambda v: v.real, 'upper': lambda v: v.upper(),
      'count': lambda v: v.count(1), 'range': lambda v: list(range(7))[v], 'call': lambda v: v(), 'sorted': sorted,
      'dir': lambda v: sorted(dir(v)), 'pow3': lambda v: pow(v, 2, 7), 'hint': operator.length_hint}
WRAPPED = {'neg', 'pos', 'invert', 'abs', 'round', 'round1', 'floor', 'ceil', 'trunc', 'pow3'}


def run(f, *a):
    try:
        return ('ok', f(*a))
    except Exception as e:
        return ('exc', type(e))


def getop(name):
    return divmod if name == 'divmod' else getattr(operator, name)


def alike(got, want, what, wrapped=None):
    """same value and type, or both refused"""
    if want[0] == 'exc':
        require(got[0] == 'exc', '%s gave %r, expected %s', what, got[1], want[1])
        return
    require(got[0] == 'ok', '%s raised %s, expected %r', what, got[1], want[1])
    g, w = got[1], want[1]
    if wrapped is not None:
        require(isinstance(g, Proxy) == wrapped, '%s: result is %sa Proxy', what, '' if isinstance(g, Proxy) else 'not ')
        if wrapped:
            g = g._get_object()
    require(type(g) is type(w) and (g == w or g != g), '%s gave %r, expected %r', what, g, w)


def proxies():
    for w in (False, True):
        for o in BIN:
            for a in VALUES:
                for b in VALUES:
                    if o in ('lshift', 'pow', 'mul') and any(isinstance(z, int) and z > 20 for z in (a, b)):
                        continue
                    yield 'bin', w, o, a, b
        for o in INPLACE:
            for a in VALUES:
                for b in VALUES:
                    yield 'inplace', w, o, a, b
        for o in UN:
            for a in VALUES + [range(3), {1: 2}, Exception]:
                yield 'un', w, o, a, None
        yield 'other', w, None, None, None


def proxy_case(case):
    kind, w, o, a, b = case
    if kind == 'bin':
        f = getop(o)
        want = run(f, copy.copy(a), b)
        isw = None if want[0] == 'exc' or want[1] is NotImplemented else (w and o not in COMPARISONS)
        alike(run(f, Proxy(copy.copy(a), w), b), want, 'Proxy(%r) %s %r' % (a, o, b), isw)
        if not (o == 'mod' and isinstance(a, str)):
            alike(run(f, copy.copy(a), Proxy(b, w)), want, '%r %s Proxy(%r)' % (a, o, b), isw)
    elif kind == 'inplace':
        f = getattr(operator, o)
        x = copy.copy(a)
        want = run(f, x, b)
        y = copy.copy(a)
        p = Proxy(y, w)
        got = run(f, p, b)
        if want[0] == 'exc':
            require(got[0] == 'exc', '%s', got)
        else:
            require(got[0] == 'ok' and got[1] is p, 'in-place result is not the proxy: %s', got)
            alike(('ok', p._get_object()), want, '%r %s %r' % (a, o, b))
            require((p._get_object() is y) == (want[1] is x), 'in-place on a mutable object')
    elif kind == 'un':
        f = UN[o]
        want = run(f, a)
        if want[0] == 'ok' and o in WRAPPED:
            alike(run(f, Proxy(a, w)), want, '%s(Proxy(%r))' % (o, a), w)
        elif o == 'call' and want[0] == 'ok':
            require(type(Proxy(a, w)()) is type(want[1]), 'call')
        else:
            alike(run(f, Proxy(a, w)), want, '%s(Proxy(%r))' % (o, a))
    else:
        other_proxy(w)


class Obj:
    def __init__(self):
        self.x = 1
        self.log = []

    def __enter__(self):
        self.log.append('enter')
        return 'entered'

    def __exit__(self, *a):
        self.log.append(a[0])
        return a[0] is KeyError

    def __await__(self):
        yield 'step'
        return 'awaited'

    async def __aenter__(self):
        return 'aentered'

    async def __aexit__(self, *a):
        self.log.append('aexit')

    def __aiter__(self):
        return 'aiter'


def drive(coro):
    steps = []
    try:
        while True:
            steps.append(coro.send(None))
    except StopIteration as e:
        return steps, e.value


def other_proxy(w):
    ob = Obj()
    p = Proxy(ob, w)
    require(p.x == 1, 'attribute')
    p.x = 2
    p.y = 3
    require(ob.x == 2 and ob.y == 3, 'attribute set')
    del p.y
    require(not hasattr(ob, 'y') and not hasattr(p, 'y'), 'attribute deleted')
    with p as e:
        require(e == 'entered', 'enter')
        raise KeyError()
    require(ob.log == ['enter', KeyError], 'exit')

    async def f():
        return await p

    async def g():
        async with p as q:
            return q
    require(drive(f()) == (['step'], 'awaited'), 'await')
    require(drive(g()) == ([], 'aentered') and ob.log[-1] == 'aexit', 'async with')
    require(p.__aiter__() == 'aiter', 'aiter')
    d = {1: 2}
    p = Proxy(d, w)
    p[3] = 4
    del p[1]
    require(d == {3: 4} and p == {3: 4} and 3 in p and list(p) == [3] and len(p) == 1, 'items')
    it = Proxy(iter([1, 2]), w)
    require(next(it) == 1 and list(it) == [2], 'iterator')
    m = Proxy(Mat(3), w)
    r1, r2 = m @ 5, 5 @ m
    require((r1 == ('mm', 3, 5)) and (r2 == ('rmm', 5, 3)), 'matmul')
    # HashableWrapper: identity
    x, y = [1], [1]
    hx, hx2, hy = HashableWrapper(x), HashableWrapper(x), HashableWrapper(y)
    require(hx == hx2 and not hx != hx2 and hash(hx) == hash(hx2), 'wrapper of the same object')
    require(hx != hy and not hx == hy, 'wrappers of other objects')
    require({hx: 1}[hx2] == 1, 'as a key')
    before, table = hash(hx), {hx: 'x'}
    hx.append(5)
    require(hash(hx) == before and table[hx2] == 'x' and hx == hx2, 'hash changed along with the object')
    require(x == [1, 5] and len(hx) == 2, 'wrapped object')
    require(hash(HashableWrapper('s')) == hash('s'), 'hash of a hashable')


def jobs(tier):
    q = tier == 'quick'
    out = []
    for init in ({}, {1: 2, 2: 1}, {'x': 1}):
        out.append(SeqJob('two-way-%d' % len(init), lambda init=init: TCtx(init), tops, tapply, finish=tfinish, depth=4 if q else 6, shards=2))
    out.append(EnumJob('two-way-build', two_way_build, two_way_built))
    out.append(SeqJob('dirty', lambda: DCtx({1: 1}), dops, dapply, depth=6 if q else 8))
    out.append(SeqJob('key-aware', KCtx, KOPS, kapply, depth=6 if q else 8))
    out.append(EnumJob('default', defaults, default_case))
    out.append(EnumJob('counting', countings, counting))
    for pd in (True, False):
        for asd in (True, False):
            for n in (1, 2, 3):
                out.append(SeqJob('view-%s-%s-%d' % (pd, asd, n), lambda pd=pd, asd=asd, n=n: VCtx(pd, asd, n), vops, vapply, depth=5 if q else 8))
    out.append(SeqJob('dict-object', OCtx, OOPS, oapply, depth=5 if q else 7))
    out.append(EnumJob('nested', nested, nested_apply, shards=2))
    out.append(EnumJob('proxy', proxies, proxy_case, shards=8))
    return out
