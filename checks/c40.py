"""
C40: every expression over x of bounded size against direct evaluation, on every small argument; every small structure of such expressions.
"""
import collections
import itertools
import operator
import warnings

from mc.jobs import EnumJob
from mc.sched import require
from satella.coding.structures import HashableWrapper
from satella.coding.predicates import x, build_structure, PredicateClass

warnings.simplefilter('ignore')

X = 'X'        # stands for the argument
ARITH = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'and_', 'or_', 'xor', 'lshift', 'rshift', 'matmul']
COMPARE = ['eq', 'ne', 'lt', 'gt', 'le', 'ge']
UNARY = ['neg', 'invert', 'abs', 'int', 'str', 'float', 'false', 'type', 'len', 'length', 'identity', 'call-bit_length']
SYMBOLS = {'add': '+', 'sub': '-', 'mul': '*', 'truediv': '/', 'floordiv': '//', 'mod': '%', 'pow': '**', 'and_': '&', 'or_': '|', 'xor': '^',
           'lshift': '<<', 'rshift': '>>', 'matmul': '@', 'eq': '==', 'ne': '!=', 'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>='}


class Vec(tuple):
    """something with a matmul"""

    def __matmul__(self, other):
        return NotImplemented if isinstance(other, PredicateClass) else ('matmul', self, other)

    def __rmatmul__(self, other):
        return NotImplemented if isinstance(other, PredicateClass) else ('rmatmul', self, other)


# trees: X, ('c', constant), (op, tree), (op, tree, tree)
def build(tree):
    """The expression, as a user would write it"""
    if tree == X:
        return x
    if tree[0] == 'c':
        return tree[1]
    args = [build(t) for t in tree[1:]]
    op = tree[0]
    if op in SYMBOLS:
        return eval('a %s b' % SYMBOLS[op], {'a': args[0], 'b': args[1]})
    p, = args
    if op == 'neg':
        return -p
    elif op == 'invert':
        return ~p
    elif op == 'abs':
        return abs(p)
    elif op.startswith('call-'):
        return getattr(p, op[5:])()
    return getattr(p, op)()


def direct(tree, v):
    if tree == X:
        return v
    if tree[0] == 'c':
        return tree[1]
    args = [direct(t, v) for t in tree[1:]]
    op = tree[0]
    if op in SYMBOLS:
        return eval('a %s b' % SYMBOLS[op], {'a': args[0], 'b': args[1]})
    p, = args
    if op == 'neg':
        return -p
    elif op == 'invert':
        return ~p
    elif op == 'abs':
        return abs(p)
    elif op == 'false':
        return not p
    elif op == 'length':
        return len(p)
    elif op == 'identity':
        return p
    elif op.startswith('call-'):
        return getattr(p, op[5:])()
    return {'int': int, 'str': str, 'float': float, 'type': type, 'len': len}[op](p)


def attempt(f, *a):
    try:
        v = f(*a)
        return type(v), v
    except Exception as e:
        return type(e), 'raised'


def has_x(tree):
    return tree == X or tree[0] != 'c' and any(has_x(t) for t in tree[1:])


def show(tree):
    return 'x' if tree == X else repr(tree[1]) if tree[0] == 'c' else '%s(%s)' % (tree[0], ', '.join(map(show, tree[1:])))


ARGS = [0, 1, 3, -2, 2.5, True, '4', 'ab', [1, 2], Vec((1, 2)), None]


def check_tree(case):
    tree, args = case
    p = build(tree)
    require(isinstance(p, PredicateClass), '%s is a %s', show(tree), type(p))
    want = [attempt(direct, tree, v) for v in args]
    for again in range(2):
        for v, w in zip(args, want):
            got = attempt(p, v)
            require(got == w, '%s of %s is %s, should be %s', show(tree), repr(v), got, w)


LEAVES = [X, ('c', 2), ('c', -1)]
MORE_LEAVES = [X, ('c', 0), ('c', 2), ('c', '4'), ('c', [3]), ('c', Vec((7,)))]


def one_level(subtrees, leaves):
    for op in ARITH + COMPARE:
        for a, b in itertools.product(subtrees, leaves):
            yield op, a, b
            if a is not b:
                yield op, b, a
    for op in UNARY:
        for a in subtrees:
            yield op, a


def safe(tree):
    """constant parts must not be evaluated while building"""
    return has_x(tree) and (tree == X or all(t == X or t[0] == 'c' or safe(t) for t in tree[1:]))


def small_trees():
    for t in one_level(MORE_LEAVES, MORE_LEAVES):
        if safe(t) and not (t[0] == 'mod' and t[1] == ('c', '4')):     # formatting of strings
            yield t, ARGS


def big_trees(args, three):
    inner = [t for t in one_level(LEAVES, LEAVES) if safe(t)]
    for t in one_level(inner, LEAVES + [('add', X, ('c', 1))] if three else LEAVES):
        if t[0] in ('pow', 'lshift') and any(s != X and s[0] in ('pow', 'lshift', 'mul') for s in t[1:]):
            continue    # numbers too big
        yield t, args


# ------------------------------------------------------------------ methods
class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def method(self):
        return ('called', self.n)


OBJECTS = [Obj(n=1, items=[1, 2, 3], d={'a': 1}), Obj(n=2, items=[], d={}), Obj(n=3, items=[4, 5], d={'a': 1, 'b': 2}),
           Obj(n=None, items=[0, None, ''], d={None: None}), Obj(n=0, items=[[]], d={'a': 0})]

METHODS = [
    ('attr', lambda: x.n, lambda o: o.n),
    ('attr-method', lambda: x.method(), lambda o: o.method()),
    ('nested', lambda: x.d.items().len(), lambda o: len(o.d.items())),
    ('missing', lambda: x.nonexistent, lambda o: o.nonexistent),
    ('item', lambda: x.items[0], lambda o: o.items[0]),
    ('item-computed', lambda: x.items[x.n], lambda o: o.items[o.n]),
    ('slice', lambda: x.items[1:], lambda o: o.items[1:]),
    ('key', lambda: x.d['a'], lambda o: o.d['a']),
    ('has_keys-0', lambda: x.d.has_keys(), lambda o: True),
    ('has_keys-1', lambda: x.d.has_keys('a'), lambda o: 'a' in o.d),
    ('has_keys-2', lambda: x.d.has_keys('a', 'b'), lambda o: 'a' in o.d and 'b' in o.d),
    ('has_keys-3', lambda: x.d.has_keys('b', 'a', 'c'), lambda o: False),
    ('one_of-0', lambda: x.n.one_of(), lambda o: False),
    ('one_of-1', lambda: x.n.one_of(2), lambda o: o.n == 2),
    ('one_of-2', lambda: x.n.one_of(2, 3), lambda o: o.n in (2, 3)),
    ('has', lambda: x.items.has(x > 3), lambda o: any(i > 3 for i in o.items)),
    ('has-odd', lambda: x.items.has(x % 2 == 1), lambda o: any(i % 2 for i in o.items)),
    ('has-fun', lambda: x.items.has(lambda i: i == 2), lambda o: 2 in o.items),
    ('has_p', lambda: x.items.has_p(x == 5), lambda o: 5 in o.items),
    ('inside', lambda: x.items.inside(2), lambda o: 2 in o.items),
    ('inside-computed', lambda: x.items.inside(x.n), lambda o: o.n in o.items),
    ('instanceof', lambda: x.n.instanceof(int), lambda o: isinstance(o.n, int)),
    ('instanceof-tuple', lambda: x.items.instanceof((int, tuple)), lambda o: False),
    ('is_instance', lambda: x.items.is_instance(int, list), lambda o: True),
    ('is_instance-no', lambda: x.items.is_instance(int, str), lambda o: False),
    ('type', lambda: x.type(), type),
    ('type-attr', lambda: x.d.type(), lambda o: dict),
    ('length', lambda: x.items.length() == 3, lambda o: len(o.items) == 3),
    ('and', lambda: (x.n > 1) & (x.items.len() > 0), lambda o: (o.n > 1) & (len(o.items) > 0)),
    ('or', lambda: (x.n == 1) | x.d.has_keys('b'), lambda o: (o.n == 1) | ('b' in o.d)),
    ('false', lambda: x.items.false(), lambda o: not o.items),
    ('schema', lambda: x.d.is_valid_schema({'a': 'int'}), lambda o: set(o.d) >= {'a'}),
    ('has-none', lambda: x.items.has(x == None), lambda o: None in o.items),        # noqa: E711
    ('has-false', lambda: x.items.has(x.false()), lambda o: not all(o.items)),
    ('has-truth', lambda: x.items.has(x), lambda o: any(o.items)),
    ('has-rest', lambda: x.items.has(lambda i: i if i else None), lambda o: any(o.items)),
    ('has-zero', lambda: x.items.has(x == 0), lambda o: 0 in o.items),
    ('one_of-none', lambda: x.n.one_of(None, 0), lambda o: o.n in (None, 0)),
    ('one_of-unhashable', lambda: x.items.one_of([], [4, 5], 1), lambda o: o.items in ([], [4, 5])),
    ('one_of-hashable', lambda: x.items.one_of('a', 1, (2,)), lambda o: False),
    ('inside-none', lambda: x.items.inside(None), lambda o: None in o.items),
    ('type-none', lambda: x.n.type(), lambda o: type(o.n)),
    ('not-not', lambda: x.n.false().false(), lambda o: bool(o.n)),
    ('none-itself', lambda: (x.n != 1).false(), lambda o: o.n == 1),
    ('identity', lambda: x.n.identity(), lambda o: o.n),
]


def check_method(case):
    i, order = case
    name, make, want = METHODS[i]
    p = make()
    q = make()
    require(isinstance(p, PredicateClass), '%s is %s', name, p)
    for j in order:
        o = OBJECTS[j]
        got, w = attempt(p, o), attempt(want, o)
        if name == 'schema' and j == 2:
            continue            # superfluous keys: a matter of schemas, not of predicates
        require(got == w, '%s of object %d is %s, should be %s', name, j, got, w)
        require(attempt(q, o) == w, '%s: second instance differs', name)
    require(x(7) == 7, 'x itself changed')


def check_sharing(case):
    """one predicate used in two others, in every order of evaluation"""
    ops, order = case
    base = x + 1
    preds = [(base, lambda v: v + 1)]
    for op in ops:
        if op == 'double':
            preds.append((base * 2, lambda v: (v + 1) * 2))
        elif op == 'self':
            preds.append((base * base, lambda v: (v + 1) ** 2))
        elif op == 'neg':
            preds.append((-base, lambda v: -(v + 1)))
        elif op == 'identity':
            preds.append((base.identity(), lambda v: v + 1))
        elif op == 'chain':
            p, f = preds[-1]
            preds.append((p - 3, lambda v, f=f: f(v) - 3))
    for v in (0, 5, -3):
        for i in order:
            if i < len(preds):
                p, f = preds[i]
                require(p(v) == f(v), 'predicate %d of %s gives %s on %s', i, ops, p(v), v)
    require(len({id(p) for p, _ in preds}) == len(preds) and len(set(hash(p) for p, _ in preds)) == len(preds), 'predicates are not distinct')


# ------------------------------------------------------------------ structures
def structures(depth):
    yield 'x', lambda: x, lambda v: v
    yield 'x+1', lambda: x + 1, lambda v: v + 1
    yield '5', lambda: 5, lambda v: 5
    yield 'text', lambda: 'text', lambda v: 'text'
    yield 'empty text', lambda: '', lambda v: ''
    yield 'bytes', lambda: b'by', lambda v: b'by'
    yield 'None', lambda: None, lambda v: None
    if depth:
        subs = list(structures(depth - 1))
        if depth == 2:
            subs = subs[:4] + subs[7::211]
        for kind, cons in (('list', list), ('tuple', tuple)):
            for n in range(4 if depth == 1 else 3):
                for elems in itertools.product(subs, repeat=n):
                    if n == 3 and len({e[0] for e in elems}) == 3:
                        continue
                    yield (kind,) + tuple(e[0] for e in elems), \
                        lambda cons=cons, elems=elems: cons(e[1]() for e in elems), \
                        lambda v, cons=cons, elems=elems: cons(e[2](v) for e in elems)
        keys = [('x', lambda: x.identity(), lambda v: v), ('x+1', lambda: x + 1, lambda v: v + 1), ('k', lambda: 'k', lambda v: 'k'),
                ('9', lambda: 9, lambda v: 9), ('tuple', lambda: (x, 'k'), lambda v: (v, 'k'))]
        vals = subs if depth == 1 else subs[3:]
        for n in range(4 if depth == 1 else 3):
            for ks in itertools.permutations(keys, n):
                for vs in (itertools.product(vals, repeat=n) if n < 3 else ((a, b, a) for a in vals for b in vals)):
                    yield ('dict',) + tuple((k[0], e[0]) for k, e in zip(ks, vs)), \
                        lambda ks=ks, vs=vs: {k[1](): e[1]() for k, e in zip(ks, vs)}, \
                        lambda v, ks=ks, vs=vs: {k[2](v): e[2](v) for k, e in zip(ks, vs)}


def equal(a, b):
    """equal, and of the same kinds throughout"""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(equal, a, b))
    if isinstance(a, dict):
        return sorted(map(repr, a)) == sorted(map(repr, b)) and all(equal(a[k], b[k]) for k in a)
    return a == b


def check_structure(case):
    name, make, want = case
    s = make()
    for v in (2, 30, 0, 'ab' if 'x+1' not in repr(name) else 4) + ((None, '') if 'x+1' not in repr(name) else ()):
        got = build_structure(s, v)
        require(equal(got, want(v)), '%s on %s gave %s, should be %s', name, v, got, want(v))
        seen = []
        got = build_structure(s, v, lambda y: seen.append(y) or 'final')
        require(got == 'final' and len(seen) == 1 and equal(seen[0], want(v)), '%s: final operator got %s', name, seen)


def structure_cases(depth):
    # closures can not be handed to other processes, indices can
    return ((i, depth) for i, _ in enumerate(structures(depth)))


_cache = {}


def check_structure_i(case):
    i, depth = case
    if depth not in _cache:
        _cache[depth] = list(structures(depth))
    check_structure(_cache[depth][i])


# ------------------------------------------------------------------ hashable wrappers inside
def wrapper_cases():
    n = len(list(structures(1)))
    for i in range(0, n):
        for place in ('top', 'list', 'tuple', 'value', 'key', 'twice'):
            yield i, place


def check_wrapper(case):
    """a wrapped structure counts as the structure it wraps"""
    i, place = case
    if 1 not in _cache:
        _cache[1] = list(structures(1))
    name, make, want = _cache[1][i]
    inner = make()
    w = HashableWrapper(inner)
    v = 4
    res = want(v)
    if place == 'key':
        try:
            hash(res)
        except TypeError:
            return
        s, r = {w: 1}, {res: 1}
    else:
        s, r = {'top': (w, res), 'list': ([1, w], [1, res]), 'tuple': ((w, w), (res, res)), 'value': ({'k': w}, {'k': res}),
                'twice': ([HashableWrapper([w, x])], [[res, v]])}[place]
    got = build_structure(s, v)
    require(equal(got, r), 'wrapped %s at %s gave %s, should be %s', name, place, got, r)


def jobs(tier):
    deep = tier == 'thorough'
    perms = list(itertools.permutations(range(3))) + [(0, 0, 1, 2, 0)]
    return [
        EnumJob('expressions', lambda: small_trees(), check_tree, shards=4),
        EnumJob('nested-expressions', lambda: big_trees([0, 1, 3, -2, True, '4'] if not deep else ARGS, deep), check_tree, shards=8),
        EnumJob('methods', lambda: itertools.product(range(len(METHODS)), perms), check_method),
        EnumJob('sharing', lambda: itertools.product((o for n in range(1, 5) for o in itertools.product(('double', 'self', 'neg', 'identity', 'chain'), repeat=n)),
                                                     itertools.permutations(range(5), 3)), check_sharing, shards=4),
        EnumJob('structures', lambda: structure_cases(1), check_structure_i, shards=4),
        EnumJob('wrapped-structures', wrapper_cases, check_wrapper, shards=4),
        EnumJob('nested-structures', lambda: structure_cases(2), check_structure_i, shards=8),
    ]
