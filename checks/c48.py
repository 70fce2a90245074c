"""
C48: get_size on every small object graph against an independent walk, memory dumps over every mixture of troublesome objects,
random helpers over every outcome of the random source.
"""
import array
import base64
import collections
import gc
import io
import itertools
import random
import signal
import string
import sys
import warnings

from mc.jobs import EnumJob
from mc.sched import require
from satella.coding.transforms import b64encode, none_if_false
from satella.instrumentation.memory import get_size, dump_memory_on, install_dump_memory_on
from satella.random import shuffle_together, random_word, random_binary
from satella.warnings import mark_temporarily_disabled

warnings.simplefilter('ignore')


# ------------------------------------------------------------------ get_size
class Plain:
    pass


class Slotted:
    __slots__ = ('first', 'second')


class Private:
    __slots__ = ('__first', '__second')

    def fill(self, values):
        for name, value in zip(('_Private__first', '_Private__second'), values):
            setattr(self, name, value)


class SlottedBase:
    __slots__ = ('first', )


class SlottedChild(SlottedBase):
    __slots__ = ('second', )


class SlottedOpen(SlottedBase):
    """a slot, everything else in the __dict__"""


class WeakSlotted:
    __slots__ = ('first', 'second', '__weakref__')


class OneSlot:
    __slots__ = 'first'


class MyList(list):
    pass


class MyDict(dict):
    pass


class MyTuple(tuple):
    pass


class MyDeque(collections.deque):
    pass


class SlimList(list):
    __slots__ = ()


class Container:
    """somebody's own container: iterable, no __dict__"""
    __slots__ = ('items', )

    def __iter__(self):
        return iter(self.items)


class IterableObject:
    """somebody's own iterable that has a __dict__"""

    def __iter__(self):
        return iter(())


MUTABLE = ['list', 'deque', 'dict', 'plain', 'slots', 'private', 'child', 'open', 'weak', 'mylist', 'mydict', 'mydeque', 'slim',
           'keys', 'set', 'container', 'oneslot', 'iterable']
THREE = ['list', 'tuple', 'dict', 'plain', 'slots', 'mylist']
THOROUGH = ['keys', 'set', 'frozenset', 'private', 'child', 'open', 'mydict', 'container']
FROZEN = ['tuple', 'frozenset', 'mytuple']


def hashable(o):
    try:
        hash(o)
        return True
    except TypeError:
        return False


def make(kind):
    return {'list': list, 'deque': collections.deque, 'dict': dict, 'plain': Plain, 'slots': Slotted,
            'private': Private, 'child': SlottedChild, 'open': SlottedOpen, 'weak': WeakSlotted, 'mylist': MyList, 'mydict': MyDict,
            'mydeque': MyDeque, 'slim': SlimList, 'keys': dict, 'set': set, 'container': Container, 'oneslot': OneSlot,
            'iterable': IterableObject}[kind]()


def fill(kind, node, children):
    """Put the children in the node -> list of everything it consists of, or None if that's not possible"""
    if kind in ('list', 'deque', 'mylist', 'mydeque', 'slim'):
        node.extend(children)
        parts = list(children)
        if kind in ('mylist', 'mydeque'):
            node.note = 'a note of %d characters' % len(children)
            parts.append(vars(node))
        return parts
    elif kind == 'container':
        node.items = list(children)
        return [node.items]
    elif kind in ('dict', 'mydict'):
        keys = ['key-%d' % i for i in range(len(children))]
        for key, child in zip(keys, children):
            node[key] = child
        parts = list(children) + keys
        if kind == 'mydict':
            node.note = 'a note of %d characters' % len(children)
            parts.append(vars(node))
        return parts
    elif kind in ('keys', 'set'):
        if not all(hashable(c) for c in children):
            return None
        if kind == 'set':
            node.update(children)
            return list(node)       # of two equal ones only one is there
        else:
            for child in children:
                node[child] = 'value'
            if children:
                return list(node) + ['value']
        return []
    elif kind == 'private':
        node.fill(children)
        return list(children)
    elif kind in ('plain', 'iterable'):
        for name, child in zip(('first', 'second'), children):
            setattr(node, name, child)
        return [vars(node)]
    elif kind == 'open':
        for name, child in zip(('first', 'second'), children):
            setattr(node, name, child)
        return list(children[:1]) + [vars(node)]
    elif kind == 'oneslot':
        for child in children[:1]:
            node.first = child
        return list(children[:1])
    for name, child in zip(('first', 'second'), children):
        setattr(node, name, child)
    return list(children)


def build(spec):
    """spec: ((kind, (child, ...)), ...) child: number of a node or 's', 'n' -> (root, {id: (object, parts)}) or None"""
    text, number = 'shared' * 5, 10 ** 40
    nodes = [None] * len(spec)
    parts = {}
    for i in reversed(range(len(spec))):        # frozen ones are made of later nodes
        kind, children = spec[i]
        if kind in FROZEN:
            if any(isinstance(c, int) and c <= i for c in children):
                return None
    for i, (kind, children) in enumerate(spec):
        if kind not in FROZEN:
            nodes[i] = make(kind)

    def child(c):
        return {'s': text, 'n': number}[c] if isinstance(c, str) else nodes[c]
    for i in reversed(range(len(spec))):
        kind, children = spec[i]
        if kind in FROZEN:
            elements = [child(c) for c in children]
            if kind == 'frozenset' and not all(hashable(e) for e in elements):
                return None
            nodes[i] = {'tuple': tuple, 'frozenset': frozenset, 'mytuple': MyTuple}[kind](elements)
            parts[id(nodes[i])] = (nodes[i], list(nodes[i]) + ([vars(nodes[i])] if kind == 'mytuple' else []))
    for i, (kind, children) in enumerate(spec):
        if kind not in FROZEN:
            filled = fill(kind, nodes[i], [child(c) for c in children])
            if filled is None:
                return None
            parts[id(nodes[i])] = (nodes[i], filled)
    return nodes, parts


def reachable(root, parts, seen):
    stack = [root]
    total = 0
    while stack:
        o = stack.pop()
        if id(o) in seen:
            continue
        seen[id(o)] = o
        total += sys.getsizeof(o)
        if id(o) in parts:
            stack.extend(parts[id(o)][1])
        elif type(o) is dict:       # the __dict__ of an instance
            stack.extend(o)
            stack.extend(o.values())
        elif type(o) is list:
            stack.extend(o)
    return total


def graph_check(spec):
    built = build(spec)
    if built is None:
        return 0
    nodes, parts = built
    expected = reachable(nodes[0], parts, {})
    for _ in range(2):
        got = get_size(nodes[0])
        require(got == expected, 'size of %s: %s, expected %s', spec, got, expected)
    # two objects measured together share what they share
    seen = set()
    own = {}
    for node in reversed(nodes):
        got, expected = get_size(node, seen), reachable(node, parts, own)
        require(got == expected, 'sizes of the nodes of %s measured together: %s, expected %s', spec, got, expected)


def graphs_two():
    targets = (0, 1, 's', 'n')
    children = [()] + [(c, ) for c in targets] + [(a, b) for a in targets for b in targets]
    for kinds in itertools.product(MUTABLE + FROZEN, repeat=2):
        for cs in itertools.product(children, repeat=2):
            yield tuple(zip(kinds, cs))


def graphs_three(kinds):
    targets = (0, 1, 2, 's')
    children = [(a, b) for a, b in itertools.combinations(targets, 2)] + [(t, ) for t in targets]
    for kinds in itertools.product(kinds, repeat=3):
        for cs in itertools.product(children, repeat=3):
            yield tuple(zip(kinds, cs))


def consumable(kind, items):
    return {'iter': lambda: iter(items), 'gen': lambda: (y for y in items), 'map': lambda: map(str, items), 'zip': lambda: zip(items),
            'enumerate': lambda: enumerate(items), 'reversed': lambda: reversed(items), 'file': lambda: io.StringIO('\n'.join(items)),
            'chain': lambda: itertools.chain(items)}[kind]()


def consumable_check(case):
    kind, place, n = case
    items = ['item %d' % i for i in range(n)]
    subject, twin = consumable(kind, items), consumable(kind, items)
    holder = Plain()
    holder.it = subject
    slotted = Slotted()
    slotted.first = subject
    where = {'bare': subject, 'list': [subject], 'dict': {'a': subject}, 'attribute': holder, 'slot': slotted, 'tuple': (1, subject)}[place]
    size = get_size(where)
    require(size >= sys.getsizeof(subject), 'size of %s: %s', case, size)
    got, expected = list(subject), list(twin)
    require(got == expected, 'measuring %s took its elements: %s left of %s', case, got, expected)


def data_check(case):
    kind, n = case
    subject = {'str': 'x' * n, 'bytes': b'x' * n, 'bytearray': bytearray(n), 'int': 2 ** (8 * n), 'range': range(1000, 1000 + n),
               'memoryview': memoryview(bytes(n)), 'array': array.array('d', [1000.5] * n), 'none': None, 'float': n / 2,
               'bool': True}[kind]
    require(get_size(subject) == sys.getsizeof(subject), 'size of %s: %s, expected %s', case, get_size(subject), sys.getsizeof(subject))
    both = [subject, subject]
    require(get_size(both) == sys.getsizeof(both) + sys.getsizeof(subject), 'size of two of %s: %s', case, get_size(both))


# ------------------------------------------------------------------ memory dumps
class Good:
    def __repr__(self):
        return '<a good one>'


class BadRepr:
    error = None

    def __repr__(self):
        if self.error is None:
            return 5
        raise self.error('repr fails')


class BadSize:
    error = None

    def __repr__(self):
        return '<sizeless>'

    def __sizeof__(self):
        if self.error is None:
            return -5
        raise self.error('sizeof fails')


KINDS = {'good': Good, 'bad-repr': BadRepr, 'bad-size': BadSize}


def dump_check(case):
    objects, error, way = case
    BadRepr.error = BadSize.error = error
    gc.collect()
    gc.freeze()         # the rest of this process is of no interest
    try:
        held = [KINDS[o]() for o in objects]
        for h in held:
            h.dummy = 1         # so that its class is the only reason to be listed
        out = io.StringIO()
        if way == 'call':
            dump_memory_on(out)
        else:
            old = signal.getsignal(way)
            try:
                install_dump_memory_on(way, out)
                require(out.getvalue() == '', 'output before the signal')
                signal.raise_signal(way)
            finally:
                signal.signal(way, old)
        lines = out.getvalue().split('\n')
        for kind, cls in KINDS.items():
            n = objects.count(kind)
            listed = [l for l in lines if l.startswith('object ') and (' type %s size ' % (cls, )) in l]
            require(len(listed) == n, '%s objects %s listed out of %s', len(listed), kind, n)
            size = sys.getsizeof(next(h for h in held if isinstance(h, cls))) if n and kind != 'bad-size' else 0
            for l in listed:
                require(l.endswith(' size %s bytes' % (size, )), 'line %s, expected size %s', l, size)
                require(kind == 'bad-repr' or repr(cls()) in l, 'no representation in line %s', l)
            summary = [l for l in lines if l.startswith('%s: ' % (cls, ))]
            require(summary == (['%s: %s bytes %s instances' % (cls, n * size, n)] if n else []), 'summary of %s: %s', kind, summary)
        totals = [int(l.split(': ')[1].split()[0]) for l in lines if l.endswith(' instances')]
        require(totals == sorted(totals, reverse=True), 'summary not sorted by size')
    finally:
        gc.unfreeze()


def dump_cases():
    mixtures = [m for n in range(4) for m in itertools.combinations_with_replacement(sorted(KINDS), n)]
    for m in mixtures:
        for error in (None, ValueError, TypeError, KeyError) if any(o != 'good' for o in m) else (None, ):
            yield m, error, 'call'
    for signum in (signal.SIGUSR1, signal.SIGUSR2, signal.SIGHUP):
        yield ('good', 'bad-repr'), ValueError, signum


# ------------------------------------------------------------------ randomness
class Choices:
    """All sequences of picks, one after another"""

    def __init__(self):
        self.script = []
        self.at = 0

    def pick(self, n):
        if self.at == len(self.script):
            self.script.append([0, n])
        else:
            require(self.script[self.at][1] == n, 'the random source asked differently on replay')
        self.at += 1
        return self.script[self.at - 1][0]

    def next(self):
        while self.script and self.script[-1][0] + 1 >= self.script[-1][1]:
            self.script.pop()
        self.at = 0
        if not self.script:
            return False
        self.script[-1][0] += 1
        return True


def all_outcomes(fn):
    """Calls fn() with every outcome of the random source"""
    choices = Choices()

    def below(self, n):
        return choices.pick(n) if n > 1 else 0

    def fraction(self):
        return choices.pick(12) / 12
    old = random.Random._randbelow, random.Random.random
    random.Random._randbelow, random.Random.random = below, fraction
    fixed = [(name, getattr(random, name)) for name in ('random', )]
    random.random = lambda: fraction(None)
    try:
        while True:
            yield fn()
            if not choices.next():
                return
    finally:
        random.Random._randbelow = old[0]
        del random.Random.random
        if random.Random.random is not old[1]:
            random.Random.random = old[1]
        for name, value in fixed:
            setattr(random, name, value)


def shuffle_check(case):
    n, kinds = case
    args = [kind('%s%d' % ('abc'[i], j) for j in range(n)) if kind is not str else 'pqrst'[:n] for i, kind in enumerate(kinds)]
    before = [kind(a) for kind, a in zip(kinds, args)]
    orders = set()
    for result in all_outcomes(lambda: shuffle_together(*args)):
        require(args == before, 'arguments changed: %s', args)
        require(len(result) == len(args), '%s lists out of %s', len(result), len(args))
        if not args:
            continue
        positions = [list(args[0]).index(e) for e in result[0]]
        require(sorted(positions) == list(range(n)), 'not a permutation: %s', result)
        for a, r in zip(args, result):
            require(list(r) == [a[p] for p in positions], 'shuffled differently: %s', result)
        orders.add(tuple(positions))
    if args:
        require(orders == set(itertools.permutations(range(n))), 'of all orders only %s are possible', orders)


def shuffle_cases():
    for n in range(5):
        for k in range(4):
            for kinds in itertools.product((list, tuple, str, collections.deque), repeat=k):
                yield n, kinds


def word_check(case):
    length, letters, join = case
    joins = []

    def joiner(parts):
        joins.append(parts)
        return '-'.join(map(str, parts))
    words = set()
    for word in all_outcomes(lambda: random_word(length, letters, joiner) if join else random_word(length, letters)):
        if join:
            require(len(joins) == 1 and len(joins[0]) == length, 'joined %s', joins)
            require(word == '-'.join(map(str, joins[0])), 'word %s of %s', word, joins)
            word = tuple(joins.pop())
        require(len(word) == length, 'word %s of length %s', word, length)
        words.add(tuple(word))
    require(words == set(itertools.product(letters, repeat=length)), 'of all words only %s are possible', len(words))


def word_cases():
    for length in range(4):
        for letters in ('a', 'ab', 'abc', ('a', 'b'), ['x', 'y', 'z']):
            for join in (False, True):
                yield length, letters, join
        yield length, (1, 2, 3), True


def default_word_check(length):
    for word in all_outcomes(lambda: random_word(length)):
        require(type(word) is str and len(word) == length and set(word) <= set(string.ascii_lowercase), 'word %r of length %s', word, length)


def binary_check(length):
    got = random_binary(length)
    require(type(got) is bytes and len(got) == length, '%s bytes, expected %s', got, length)
    if length >= 16:
        require(random_binary(length) != got, 'twice the same')


# ------------------------------------------------------------------ small ones
def disabled_check(case):
    reason, args, kwargs = case
    ran = []
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')

        @mark_temporarily_disabled(reason)
        def function(*a, **kw):
            ran.append(1)
    require(len(caught) == 1 and 'function' in str(caught[0].message) and reason in str(caught[0].message), 'warned %s', caught)
    for _ in range(2):
        try:
            function(*args, **kwargs)
        except NotImplementedError as e:
            require(reason in str(e), 'raised %r', e)
        else:
            require(False, 'a disabled function returned')
    require(not ran, 'a disabled function ran')


ALPHABET = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def b64_check(first):
    for rest in itertools.chain([b''], (bytes([b]) for b in range(256)), (bytes([b, c]) for b in range(0, 256, 17) for c in range(0, 256, 15))):
        content = bytes([first]) + rest
        bits = ''.join('{:08b}'.format(b) for b in content)
        bits += '0' * (-len(bits) % 6)
        expected = ''.join(ALPHABET[int(bits[i:i + 6], 2)] for i in range(0, len(bits), 6))
        expected += '=' * (-len(expected) % 4)
        require(b64encode(content) == expected, 'b64encode(%s) = %s', content, b64encode(content))


def none_check(i):
    value = [0, 1, '', 'a', [], [0], None, {}, {1: 2}, False, True, 0.0, float('nan'), (), (0, ), b'', b'\0'][i]
    require(none_if_false(value) is (value if value else None), 'none_if_false(%r) = %r', value, none_if_false(value))


def jobs(tier):
    return [EnumJob('sizes-2', graphs_two, graph_check, shards=32),
            EnumJob('sizes-3', lambda: graphs_three(THREE if tier == 'quick' else THREE + THOROUGH), graph_check, shards=32),
            EnumJob('sizes-iterators', lambda: itertools.product(
                ['iter', 'gen', 'map', 'zip', 'enumerate', 'reversed', 'file', 'chain'],
                ['bare', 'list', 'dict', 'attribute', 'slot', 'tuple'], range(4)), consumable_check),
            EnumJob('sizes-data', lambda: itertools.product(
                ['str', 'bytes', 'bytearray', 'int', 'range', 'memoryview', 'array', 'none', 'float', 'bool'], (0, 1, 5, 300)), data_check),
            EnumJob('dumps', dump_cases, dump_check, shards=4),
            EnumJob('shuffle', shuffle_cases, shuffle_check, shards=8),
            EnumJob('words', word_cases, word_check, shards=4),
            EnumJob('default-words', lambda: range(4), default_word_check),
            EnumJob('binary', lambda: range(300), binary_check),
            EnumJob('disabled', lambda: itertools.product(('', 'a reason'), ((), (1, 'a')), ({}, {'k': 1})), disabled_check),
            EnumJob('base64', lambda: range(256), b64_check, shards=8),
            EnumJob('none-if-false', lambda: range(17), none_check)]
