"""
C37: operation sequences on immutable objects, all pairs of small values for the comparison mix-ins, enumerations, typed named tuples
and deep comparison.
"""
import abc
import copy
import enum
import itertools
import operator
import pickle
import warnings

from mc.jobs import EnumJob, SeqJob
from mc.sched import require
from satella.coding import assert_equal, Inequal, InequalityReason
from satella.coding.structures import (Immutable, frozendict, NotEqualToAnything, NOT_EQUAL_TO_ANYTHING, typednamedtuple, Vector, SetZip,
                                       OmniHashableMixin, HashableMixin, ComparableAndHashableBy, ComparableAndHashableByInt,
                                       ComparableAndHashableByStr, StrEqHashableMixin, ReprableMixin, DictionaryEQAble, ComparableEnum,
                                       ComparableIntEnum, HashableIntEnum, OnStrOnlyName)

warnings.simplefilter('ignore')


def run(f, *a):
    try:
        return 'value', f(*a)
    except Exception as e:
        return 'raise', type(e)


# ------------------------------------------------------------------ frozendict
KEYS = (1, 'a')
FROZEN_OPS = [(name, f) for name, f in [
    ('set', lambda d: d.__setitem__(1, 9)), ('set-new', lambda d: d.__setitem__('n', 9)), ('set-same', lambda d: d.__setitem__(1, d.get(1))),
    ('del', lambda d: d.__delitem__(1)), ('del-missing', lambda d: d.__delitem__('n')),
    ('pop', lambda d: d.pop(1)), ('pop-default', lambda d: d.pop('n', 0)), ('popitem', lambda d: d.popitem()), ('clear', lambda d: d.clear()),
    ('update', lambda d: d.update({1: 9})), ('update-kw', lambda d: d.update(n=1)), ('update-pairs', lambda d: d.update([('n', 1)])),
    ('setdefault', lambda d: d.setdefault('n', 1)), ('setdefault-old', lambda d: d.setdefault(1, 5)), ('ior', lambda d: operator.ior(d, {'n': 1}))]]
REMOVING = ('del', 'pop', 'popitem')


def check_frozen(case):
    content, seq = case
    d = frozendict(content)
    h = run(hash, d)
    for i in seq:
        name, f = FROZEN_OPS[i]
        kind, got = run(f, d)
        require(kind == 'raise' or not content and name == 'clear', '%s of frozendict(%s) was let through and gave %s', name, content, got)
        require(dict(d) == content and list(d) == list(content) and len(d) == len(content), '%s changed frozendict(%s) to %s', name, content, dict(d))
        if name not in REMOVING or 1 in content:
            require(got is TypeError, '%s of frozendict raised %s', name, got)
    require(run(hash, d) == h, 'hash changed')


class OwnFrozen(frozendict):
    def first(self):
        return next(iter(self), None)


FROZEN = [{}, {1: 2}, {1: 2, 'a': 3}, {'a': 3, 1: 2}, {1.0: 2.0}, {1: 3}, {2: 1}, {'a': (1, 2)}, {'a': None}, {1: [1]}, {'a': {}}]


def check_frozen_pair(case):
    a, b = case
    fa, fb = frozendict(a), frozendict(b)
    require((fa == fb) == (a == b) == (fb == fa) == (fa == b) and (fa != fb) == (a != b), 'equality of %s and %s', a, b)
    try:
        ha, hb = hash(fa), hash(fb)
    except TypeError:
        require(any(isinstance(v, (list, dict)) for d in (a, b) for v in d.values()), 'hash of hashable content failed')
        return
    require(not any(isinstance(v, (list, dict)) for d in (a, b) for v in d.values()), 'hash of an unhashable value')
    if a == b:
        require(ha == hb, 'equal frozen dicts %s %s have hashes %s %s', a, b, ha, hb)
        require({fa: 1}[fb] == 1, 'lookup by an equal frozen dict')


def check_frozen_copy(case):
    a, = case
    for how, f in [('copy', copy.copy), ('deepcopy', copy.deepcopy)] + [('pickle %d' % p, lambda d, p=p: pickle.loads(pickle.dumps(d, p)))
                                                                        for p in range(pickle.HIGHEST_PROTOCOL + 1)]:
        d = frozendict(a)
        c = f(d)
        require(type(c) is frozendict and c == d and dict(c) == a, '%s of frozendict gave %s', how, c)
        require(run(c.__setitem__, 1, 1) == ('raise', TypeError), '%s of a frozendict is not frozen', how)
    for how, f in [('copy', copy.copy), ('deepcopy', copy.deepcopy), ('pickle', lambda d: pickle.loads(pickle.dumps(d)))]:
        d = OwnFrozen(a)
        c = f(d)
        require(type(c) is OwnFrozen and c == d and dict(c) == a and c.first() == d.first(), '%s of an own frozendict gave %s %s', how, type(c), c)
        require(run(c.__setitem__, 1, 1) == ('raise', TypeError), '%s of a frozendict is not frozen', how)
    require(frozendict(list(a.items())) == a and frozendict(frozendict(a)) == a and dict(frozendict(a)) == a, 'construction')
    require([frozendict(a).get(k, 'no') for k in (1, 'a', 2)] == [a.get(k, 'no') for k in (1, 'a', 2)], 'lookup')


# ------------------------------------------------------------------ Immutable
class Plain(Immutable):
    cls_attr = 5

    def __init__(self, a=1, *, fail=False):
        self.a = a
        self.b = [a]
        self.b = 2
        self.tmp = 3
        del self.tmp
        if fail:
            raise ValueError()


class Child(Plain):
    def __init__(self, a=1, fail=False):
        self.before = 0
        super().__init__(a, fail=fail)
        self.c = 4

    def attempt(self):
        self.a = 99

    @property
    def prop(self):
        return self.a

    @prop.setter
    def prop(self, v):
        self.a = v


class Slotted(Immutable):
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a=1):
        self.a = a
        self.b = 2


class Abstract(Immutable, metaclass=abc.ABCMeta):
    @abc.abstractmethod
    def f(self):
        pass


class Concrete(Abstract):
    def __init__(self, a=1):
        self.a = a
        self.b = 2
        self.nested = Plain(a)      # constructing another one in between
        self.c = 4

    def f(self):
        return self.a


class Same(Immutable):
    def __init__(self, a=1):
        self.a = a
        self.b = 2

    def __eq__(self, other):
        return type(other) is type(self) and (self.a, self.b) == (other.a, other.b)

    __hash__ = None


IMM = [Plain, Child, Slotted, Concrete, Same]
ATTRS = ['a', 'b', 'new', 'cls_attr', '__dict__', '__class__']


class ImmCtx:
    def __init__(self, cls):
        self.o = cls()
        self.other = None
        self.cls = cls


def snapshot(o):
    return {n: getattr(o, n, '-') for n in ('a', 'b', 'c', 'before', 'new', 'cls_attr', 'tmp', '_x')}


def imm_ops(c):
    return ([('set', n) for n in ('a', 'b', 'new', 'cls_attr', '_x')] + [('del', n) for n in ('a', 'b', 'new', 'cls_attr')] + [('iadd', 'a'), ('aug', 'b')]
            + [('construct', v) for v in (1, 7)] + [('setattr-same', 'a')] + ([('prop', 1), ('attempt', 1)] if c.cls is Child else []))


def imm_apply(c, op):
    kind, name = op
    before = snapshot(c.o)
    if kind == 'construct':
        n = c.cls(name)
        require(n.a == name and n.b == 2 and not hasattr(n, 'tmp'), 'constructed %s', snapshot(n))
        if c.cls in (Child, Concrete):
            require(n.c == 4, 'constructed %s', snapshot(n))
        require(snapshot(c.o) == before, 'constructing another one changed this one')
        return
    if kind == 'set':
        r = run(setattr, c.o, name, 55)
    elif kind == 'setattr-same':
        r = run(setattr, c.o, name, c.o.a)
    elif kind == 'del':
        r = run(delattr, c.o, name)
    elif kind == 'prop':
        r = run(setattr, c.o, 'prop', 5)
    elif kind == 'attempt':
        r = run(c.o.attempt)
    else:
        def act():
            if kind == 'iadd':
                c.o.a += 1
            else:
                c.o.b *= 3
        r = run(act)
    require(r[0] == 'raise', '%s of %s on %s was let through', kind, name, c.cls.__name__)
    if kind != 'del' or name in before and before[name] != '-':
        require(r[1] is TypeError, '%s of %s raised %s', kind, name, r[1])
    require(snapshot(c.o) == before, '%s of %s changed %s to %s', kind, name, before, snapshot(c.o))


def check_imm_misc(case):
    cls, how = case
    if how == 'fail':
        if cls in (Plain, Child):
            require(run(lambda: cls(1, fail=True)) == ('raise', ValueError), 'failing constructor')
            require(cls(4).a == 4, 'construction after a failing one')
        return
    o = cls(6)
    c = {'copy': copy.copy, 'deepcopy': copy.deepcopy, 'pickle': lambda v: pickle.loads(pickle.dumps(v))}[how](o)
    require(type(c) is cls and c is not o and c.a == 6 and c.b == 2, '%s of %s', how, cls.__name__)
    require(run(setattr, c, 'a', 1) == ('raise', TypeError) and c.a == 6, '%s of %s is not immutable', how, cls.__name__)


def check_abstract(case):
    require(run(Abstract) == ('raise', TypeError), 'abstract class instantiated')
    require(isinstance(Concrete(), Abstract) and Concrete(3).f() == 3, 'abstract base')


# ------------------------------------------------------------------ mix-ins
class ByField(ComparableAndHashableBy):
    _COMPARABLE_BY = 'f'

    def __init__(self, f, g=0):
        self.f, self.g = f, g


class ByProp(ComparableAndHashableBy):
    _COMPARABLE_BY = 'half'

    def __init__(self, f, g=0):
        self.f, self.g = f * 2, g

    @property
    def half(self):
        return self.f / 2


class ByInt(ComparableAndHashableByInt):
    def __init__(self, f, g=0):
        self.f, self.g = f, g

    def __int__(self):
        return int(self.f)


class ByStr(ComparableAndHashableByStr):
    def __init__(self, f, g=0):
        self.f, self.g = f, g

    def __str__(self):
        return str(self.f)


class StrEq(StrEqHashableMixin):
    def __init__(self, f, g=0):
        self.f, self.g = f, g

    def __str__(self):
        return str(self.f)


class OmniOne(OmniHashableMixin):
    _HASH_FIELDS_TO_USE = 'f'

    def __init__(self, f, g=0, h=0):
        self.f, self.g, self.h = f, g, h


class OmniTuple(OmniHashableMixin):
    _HASH_FIELDS_TO_USE = ('f',)

    def __init__(self, f, g=0, h=0):
        self.f, self.g, self.h = f, g, h


class OmniTwo(OmniHashableMixin):
    _HASH_FIELDS_TO_USE = ['f', 'g']

    def __init__(self, f, g=0, h=0):
        self.f, self.g, self.h = f, g, h


class OmniFive(OmniHashableMixin):
    _HASH_FIELDS_TO_USE = ('a', 'f', 'b', 'c', 'g')

    def __init__(self, f, g=0, h=0):
        self.f, self.g, self.h, self.a, self.b, self.c = f, g, h, 1, None, 'c'


class OmniTwoChild(OmniTwo):
    pass


class OmniSlots(OmniHashableMixin):
    __slots__ = ('f', 'g', 'h')
    _HASH_FIELDS_TO_USE = ('f', 'g')

    def __init__(self, f, g=0, h=0):
        self.f, self.g, self.h = f, g, h


class Eqable(DictionaryEQAble):
    shared = 1

    def __init__(self, **kw):
        self.__dict__.update(kw)


class EqableChild(Eqable):
    pass


class Id(HashableMixin):
    def __init__(self, f, g=0):
        self.f, self.g = f, g


def laws(a, b, equal, what, hashed=True):
    require((a == b) is equal and (b == a) is equal, '%s: == gave %s, %s', what, a == b, b == a)
    require((a != b) is (not equal) and (b != a) is (not equal), '%s: != gave %s, %s', what, a != b, b != a)
    if equal and hashed:
        require(hash(a) == hash(b) and {a: 1}.get(b) == 1 and len({a, b}) == 1, '%s: equal, yet hashes are %s %s', what, hash(a), hash(b))


CMPS = [operator.lt, operator.le, operator.gt, operator.ge]
NUMS = [0, 1, 2, -1, 1.5, 1.0, True]


def check_ordering(case):
    cls, x, y, gx, gy = case
    key = {ByField: lambda v: v, ByProp: lambda v: v, ByInt: int, ByStr: str}[cls]
    a, b = cls(x, gx), cls(y, gy)
    what = '%s(%r) and (%r)' % (cls.__name__, x, y)
    laws(a, b, key(x) == key(y), what)
    for op in CMPS:
        require(op(a, b) is op(key(x), key(y)), '%s: %s gave %s', what, op.__name__, op(a, b))
    require(sorted([a, b]) == ([a, b] if key(x) <= key(y) else [b, a]), '%s: sorting', what)
    if cls is ByInt:
        require((a == int(y)) is (int(x) == int(y)) and all(op(a, int(y)) is op(int(x), int(y)) for op in CMPS), '%s: against a number', what)
        require(hash(a) == hash(int(x)), 'hash')
    if cls is ByStr:
        require((a == str(y)) is (str(x) == str(y)) and (str(y) == a) is (str(x) == str(y)), '%s: against a string', what)
        require(hash(a) == hash(str(x)), 'hash')
    if cls is ByField:
        require(hash(a) == hash(x), 'hash')


def check_omni(case):
    c1, c2, v1, v2 = case
    a, b = c1(*v1), c2(*v2)
    what = '%s%s and %s%s' % (c1.__name__, v1, c2.__name__, v2)
    n = 1 if c1 in (OmniOne, OmniTuple) else 2
    same = v1[:n] == v2[:n]
    if c1 is c2:
        laws(a, b, same, what)
        if c1 is OmniOne:
            require(hash(a) == hash(v1[0]), 'hash by a field')
    elif issubclass(c2, c1) or issubclass(c1, c2):
        require((a == b) is (not (a != b)) and (b == a) is (not (b != a)), '%s: == and != agree', what)
        if a == b:
            require(same, '%s: equal by other fields', what)
            require(hash(a) == hash(b), '%s: hash', what)
    else:
        laws(a, b, False, what)
    for other in (None, 5, 'x', v1):
        laws(a, other, False, '%s and %r' % (what, other))


DICTS = [{}, {'a': 1}, {'a': 1, 'b': 2}, {'b': 2, 'a': 1}, {'a': 2}, {'b': 1}, {'shared': 1}, {'a': 1, 'shared': 1}, {'a': None}, {'a': [1]}, {'a': 1.0}]


def check_eqable(case):
    c1, c2, i, j = case
    a, b = c1(**DICTS[i]), c2(**DICTS[j])
    laws(a, b, c1 is c2 and DICTS[i] == DICTS[j], '%s(%s) and %s(%s)' % (c1.__name__, DICTS[i], c2.__name__, DICTS[j]), hashed=False)
    laws(a, DICTS[i], False, 'object and a plain dictionary', hashed=False)


def check_streq(case):
    x, y = case
    a, b = StrEq(x, 1), StrEq(y, 2)
    laws(a, b, str(x) == str(y), 'StrEq(%r), (%r)' % (x, y))
    laws(a, str(y), str(x) == str(y), 'StrEq(%r) and a string %r' % (x, str(y)))
    i, j = Id(x), Id(x)
    laws(i, j, False, 'HashableMixin')
    laws(i, i, True, 'HashableMixin')
    n = NotEqualToAnything()
    for v in (x, n, NOT_EQUAL_TO_ANYTHING, a, None):
        require((n == v) is False and (n != v) is True, 'NotEqualToAnything compares to %s', v)


# ------------------------------------------------------------------ enums
class CE1(ComparableEnum):
    A = 1
    B = 'b'
    C = (1, 2)
    D = None


class CE2(ComparableEnum):
    A = 'b'
    B = 1
    E = 2


class PE(enum.Enum):
    A = 1
    B = 'b'
    Z = 'zz'


class IE1(ComparableIntEnum):
    A = 0
    B = 1
    C = -2


class IE2(ComparableIntEnum):
    X = 1
    Y = 3


class HE(HashableIntEnum):
    A = 0
    B = 1


class HasInt:
    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v


class Str(OnStrOnlyName, enum.Enum):
    A = 0
    B = 'x'


def check_enums(case):
    for m in CE1:
        for o in list(CE1) + list(CE2) + list(PE) + [1, 'b', (1, 2), None, 2, 'zz', 0, [1], 1.0]:
            v = o.value if isinstance(o, enum.Enum) else o
            laws(m, o, m.value == v if not isinstance(o, CE1) else m is o, '%s and %r' % (m, o), hashed=False)
    for m in list(IE1) + list(IE2):
        for o in list(IE1) + list(IE2) + list(HE) + [0, 1, 3, -2, 1.0, 0.5, True, -2.5, -1.5, 1e300, float('-inf')] + [HasInt(v) for v in (0, 1, -2, 3)]:
            v = int(o) if not isinstance(o, float) else o
            laws(m, o, m.value == v, '%r and %r' % (m, o), hashed=not isinstance(o, HasInt))
            for op in CMPS:
                require(op(m, o) is op(m.value, v), '%s of %r and %r gave %s', op.__name__, m, o, op(m, o))
                require(op(o, m) is op(v, m.value), '%s of %r and %r gave %s', op.__name__, o, m, op(o, m))
        require(hash(m) == hash(m.value) and {m: 1}[m.value] == 1, 'hash of %r', m)
    for m in HE:
        require(hash(m) == hash(m.value) and m == m.value and {m: 1}[m.value] == 1, 'hash of %r', m)
    require([str(m) for m in Str] == ['A', 'B'] and '%s' % Str.B == 'B', 'str of OnStrOnlyName')


# ------------------------------------------------------------------ typed named tuples
def positive(v):
    if int(v) < 0:
        raise ValueError('negative')
    return int(v) + 100


TYPES = [('int', int), ('str', str), ('float', float), ('none', None), ('self', 'self'), ('call', positive), ('list', list)]
TVALS = ['5', 7, 2.5, True, '-3', 'zz', None, [1], (2,)]


def coerce(t, v):
    if t in (None, 'self'):
        return v
    if isinstance(t, type) and isinstance(v, t):
        return v
    return t(v)


def same(a, b):
    return type(a) is type(b) and a == b


def check_tnt(case):
    types = case
    n = len(types)
    names = ['x', 'y', 'z'][:n]
    cls = typednamedtuple('Tnt', *[(nm, TYPES[i][1]) for nm, i in zip(names, types)])
    require(issubclass(cls, tuple) and cls.__name__ == 'Tnt' and cls._fields == tuple(names), 'class %s', cls)
    for vals in itertools.product(TVALS if n < 3 else TVALS[:5], repeat=n):
        want = []
        err = None
        for i, v in zip(types, vals):
            k, w = run(coerce, TYPES[i][1], v)
            if k == 'raise':
                err = w
                break
            want.append(w)
        for npos in range(n + 1):
            args, kw = vals[:npos], dict(zip(names[npos:], vals[npos:]))
            k, got = run(lambda: cls(*args, **kw))
            what = 'Tnt%s(%s, %s)' % ([TYPES[i][0] for i in types], args, kw)
            if err:
                require((k, got) == ('raise', err), '%s gave %s, expected %s', what, got, err)
                continue
            require(k == 'value', '%s raised %s', what, got)
            require(not any(isinstance(TYPES[i][1], type) and isinstance(v, TYPES[i][1]) and g is not v for i, v, g in zip(types, vals, got)),
                    '%s made others out of values of the proper type', what)
            require(isinstance(got, cls) and len(got) == n and all(same(a, b) for a, b in zip(got, want)), '%s gave %r', what, got)
            require(all(same(getattr(got, nm), w) for nm, w in zip(names, want)) and got == tuple(want), '%s: fields', what)
            require(repr(got) == 'Tnt(%s)' % ', '.join('%s=%r' % p for p in zip(names, want)), 'repr %r', got)
            require(list(got._asdict().items()) == list(zip(names, want)), '_asdict')
            if n:
                require(run(setattr, got, 'x', 1)[0] == 'raise' and got == tuple(want), 'field was assigned')
            # wrong calls
            for a2, k2 in ([args + ('1',), kw], [args, dict(kw, q='1')], [args[:-1], kw] if npos else [args, {a: b for a, b in kw.items() if a != names[npos]}]
                           if kw else [args + (1,), {}], [args, dict(kw, x='1')] if npos else [args, dict(kw, q=1)]):
                r = run(lambda: cls(*a2, **k2))
                require(r == ('raise', TypeError) or err, 'Tnt of %s called with %s %s gave %s', names, a2, k2, r)


# ------------------------------------------------------------------ vectors, set zips, reprs
def check_vector(case):
    a, b, k = case
    va, vb = Vector(a), Vector(b)
    for name, got, want in [('+', va + vb, [p + q for p, q in zip(a, b)]), ('-', va - vb, [p - q for p, q in zip(a, b)]),
                            ('*', va * k, [p * k for p in a]), ('/', va / k, [p / k for p in a])]:
        require(isinstance(got, Vector) and tuple(got) == tuple(want), '%s %s %s, %s gave %s', a, name, b, k, got)
    w, old = va, va
    w += vb
    x = va
    x *= k
    y = va
    y -= vb
    z = va
    z /= k
    require(tuple(w) == tuple(va + vb) and tuple(x) == tuple(va * k) and tuple(y) == tuple(va - vb) and tuple(z) == tuple(va / k), 'in-place operators')
    require(tuple(old) == tuple(a) and tuple(va) == tuple(a) and tuple(vb) == tuple(b), 'operands changed')
    require(va == a and hash(va) == hash(a) and va == Vector(a), 'comparison')


class ZipCtx:
    def __init__(self, k):
        self.sets = [{1, 2}, frozenset({2, 3}), {1: 'x', 5: 'y'}, set()]
        self.ref = list(range(k))
        self.z = SetZip(*[self.sets[i] for i in self.ref])


def zip_apply(c, op):
    kind, v = op
    if kind == 'iadd':
        z = c.z
        z += c.sets[v]
        require(z is c.z, '+= made another object')
        c.ref.append(v)
    else:
        if kind == 'add':
            c.sets[v].add(9) if v != 2 else c.sets[v].update({9: 1})
        else:
            (c.sets[v].discard if v != 2 else lambda k: c.sets[v].pop(k, 0))(1)
    members = [m for i in c.ref for m in c.sets[i]]
    require(sorted(c.z) == sorted(members) and len(c.z) == len(members), 'SetZip holds %s, len %s, expected %s', list(c.z), len(c.z), members)
    for i in (1, 2, 3, 5, 9, 'q'):
        require((i in c.z) is (i in members), '%s in SetZip', i)


def check_repr(case):
    fields, full, sub = case

    class R(ReprableMixin):
        _REPR_FIELDS = fields

        def __init__(self):
            self.a, self.b = 'x', [1]

        @property
        def c(self):
            return {'k': self.a}
    if full is not None:
        R._REPR_FULL_CLASSNAME = full
    cls = R
    if sub:
        class S(R):
            pass
        cls = S
    o = cls()
    name = cls.__module__ + '.' + cls.__qualname__ if full else cls.__name__
    want = name + '(' + ', '.join(repr(getattr(o, f)) for f in fields) + ')'
    require(repr(o) == want, 'repr is %s, expected %s', repr(o), want)


# ------------------------------------------------------------------ deep comparison
class Obj:
    def __init__(self, v, mode='eq'):
        self.v, self.mode = v, mode

    def __eq__(self, other):
        if self.mode == 'typeerror':
            raise TypeError('cannot compare')
        return isinstance(other, Obj) and self.v == other.v

    __hash__ = None

    def __repr__(self):
        return 'Obj(%r, %s)' % (self.v, self.mode)


def trees(depth):
    atoms = [0, 1, 'a', None, 1.0, b'a']
    if depth == 0:
        return atoms
    sub = trees(depth - 1)
    few = sub if depth == 1 else [0, 'a', [], [0], {'k': 0}, {}, {1}]
    out = list(atoms)
    out += [[], {}, set(), frozenset({1}), {0}, {0, 1}, {'a'}, Obj(1), Obj(2), Obj(1, 'typeerror'), bytearray(b'a')]
    out += [[s] for s in sub] + [[a, b] for a in few[:4] for b in few[:4]]
    out += [{'k': s} for s in sub] + [{'l': 0}, {'k': 0, 'l': 1}, {'l': 1, 'k': 0}, {0: 'k'}]
    return out


def differs(a, b):
    """None when equal, or the set of acceptable (obj1, obj2, reason); None in place of the tuple for anything"""
    if isinstance(a, Obj):
        if a.mode == 'typeerror':
            return 'any'
        return None if a == b else ('N', a, b)
    for kinds in ((set, frozenset), (list, tuple), (dict,)):
        if isinstance(a, kinds):
            if not isinstance(b, kinds):
                return 'any'
            if len(a) != len(b):
                return ('L', a, b)
            if kinds[0] is set:
                return None if a == b else 'any'
            if kinds[0] is list:
                for c, d in zip(a, b):
                    r = differs(c, d)
                    if r:
                        return r
                return None
            for k in a:
                if k not in b:
                    return ('K', k, None)
                r = differs(a[k], b[k])
                if r:
                    return r
            return None
    try:
        eq = a == b
    except TypeError:
        return 'any'
    return None if eq else ('N', a, b)


REASONS = {'N': InequalityReason.NOT_EQUAL, 'L': InequalityReason.LENGTH_MISMATCH, 'K': InequalityReason.KEY_NOT_FOUND}


def check_deep(case):
    a, b = case
    want = differs(a, b)
    try:
        r = assert_equal(a, b)
    except Inequal as e:
        require(want is not None, '%r and %r are equal, got Inequal(%r, %r, %s)', a, b, e.obj1, e.obj2, e.reason)
        if want != 'any':
            require(e.reason == REASONS[want[0]] and e.obj1 is want[1] and e.obj2 is want[2] or
                    (e.reason, e.obj1, e.obj2) == (REASONS[want[0]],) + want[1:], '%r and %r: Inequal(%r, %r, %s), expected %s', a, b, e.obj1, e.obj2, e.reason, want)
    except TypeError:
        require(want == 'any' and 'typeerror' in repr((a, b)), 'comparing %r and %r raised TypeError', a, b)
    else:
        require(want is None and r is None, '%r and %r were found equal', a, b)


def jobs(tier):
    big = tier == 'thorough'
    nops = range(len(FROZEN_OPS))
    tr = trees(2)
    vecs = list(itertools.product((0, 1, -2, 0.5), repeat=2))
    omni = [OmniOne, OmniTuple, OmniTwo, OmniTwoChild, OmniSlots, OmniFive]
    ovals = list(itertools.product((1, 2), (1, 2), (0, 1))) + [('a', (1, 2), 0), (1, 1.0, 0), (-1, 2, 0), (-2, 2, 0)]      # hash(-1) == hash(-2)
    out = [EnumJob('frozen-ops', lambda: [(c, s) for c in FROZEN for k in range(1, 4 if big else 3) for s in itertools.product(nops, repeat=k)], check_frozen, shards=4),
           EnumJob('frozen-pairs', lambda: itertools.product(FROZEN, FROZEN), check_frozen_pair),
           EnumJob('frozen-copies', lambda: [(c,) for c in FROZEN], check_frozen_copy),
           EnumJob('immutable-copies', lambda: itertools.product(IMM, ('copy', 'deepcopy', 'pickle', 'fail')), check_imm_misc),
           EnumJob('abstract', lambda: [()], check_abstract),
           EnumJob('ordering', lambda: itertools.product((ByField, ByProp, ByInt, ByStr), NUMS, NUMS, (0, 1), (0, 1)), check_ordering),
           EnumJob('omni', lambda: itertools.product(omni, omni, ovals, ovals), check_omni, shards=4),
           EnumJob('eqable', lambda: itertools.product((Eqable, EqableChild), (Eqable, EqableChild), range(len(DICTS)), range(len(DICTS))), check_eqable),
           EnumJob('streq', lambda: itertools.product((1, '1', 'a', '', None, 'None', 1.0), repeat=2), check_streq),
           EnumJob('enums', lambda: [()], check_enums),
           EnumJob('typednamedtuple', lambda: [t for n in range(4 if big else 3) for t in itertools.product(range(len(TYPES)), repeat=n)]
                   + [(0, 1, 5), (3, 0, 2), (5, 5, 1)], check_tnt, shards=4),
           EnumJob('vectors', lambda: itertools.product(vecs + [(1, 2, 3), (7, 49)], vecs, (1, 2, 0.5, -1, 49)), check_vector),
           EnumJob('reprs', lambda: itertools.product([(), ('a',), ('a', 'b'), ('c', 'a'), ['b']], (None, True, False), (False, True)), check_repr),
           EnumJob('deep', lambda: itertools.product(tr, tr), check_deep, shards=4)]
    for cls in IMM:
        out.append(SeqJob('immutable-%s' % cls.__name__, lambda cls=cls: ImmCtx(cls), imm_ops, imm_apply, depth=4 if big else 3, dedupe=False))
    out.append(SeqJob('setzip', lambda: ZipCtx(2), lambda c: [('iadd', i) for i in range(4)] + [('add', i) for i in (0, 2, 3)] + [('drop', i) for i in (0, 2)],
                      zip_apply, depth=5 if big else 4))
    out.append(SeqJob('setzip-empty', lambda: ZipCtx(0), lambda c: [('iadd', i) for i in range(4)] + [('add', i) for i in (0, 2, 3)], zip_apply,
                      depth=5 if big else 4))
    return out
