"""
C35: all small overload sets over a class lattice, in every registration order, against all argument tuples; chains of Optional access.
"""
import itertools
import operator
import warnings

from mc.jobs import EnumJob
from mc.sched import require
from satella.coding import overload, TypeSignature, class_or_instancemethod
from satella.coding.optionals import Optional, extract_optional, iterate_if_nnone, call_if_nnone

warnings.simplefilter('ignore')


class A:
    pass


class B(A):
    pass


class D(A):
    pass


class E(B, D):
    pass


TYPES = {'-': object, 'A': A, 'B': B, 'D': D, 'E': E, 'i': int, 'b': bool, 'o': object}
VALUES = [A(), B(), D(), E(), 1, True, None, 's']


def make(spec, tag, log):
    """spec: string of parameters 'x:A' -> 'A'; lower-case '=' suffix means a default"""
    params, glob = [], dict(TYPES, log=log, tag=tag)
    star = False
    for name, p in zip('xyz', spec):
        typ, default = p[0], p[1:]
        if typ == '*':
            params.append('*' + name)
            star = True
            continue
        params.append(name + ('' if typ == '-' else ': ' + TYPES[typ].__name__) + (' = None' if default else ''))
    for c in (A, B, D, E):
        glob[c.__name__] = c
    names = ', '.join('xyz'[:len(spec)])
    exec('def fun(%s):\n    """doc %s"""\n    log.append(tag)\n    return tag, (%s)\n' % (', '.join(params), tag, names + (',' if names else '')), glob)
    return glob['fun']


def accepts(spec, args):
    """the values of parameters, or None if the call does not match"""
    if spec and spec[-1][0] == '*':
        fixed = spec[:-1]
    else:
        fixed = spec
        if len(args) > len(spec):
            return None
    if any(not p[1:] for p in fixed[len(args):]):
        return None
    for p, v in zip(fixed, args):
        if not isinstance(v, TYPES[p[0]]):
            return None
    vals = list(args[:len(fixed)]) + [None] * (len(fixed) - len(args))
    if fixed is not spec:
        vals.append(tuple(args[len(fixed):]))
    return tuple(vals)


def generic(s1, s2):
    """s1 accepts everything s2 does and more"""
    f1, f2 = [TYPES[p[0]] for p in s1 if p[0] != '*'], [TYPES[p[0]] for p in s2 if p[0] != '*']
    return len(f1) == len(f2) and f1 != f2 and all(issubclass(b, a) for a, b in zip(f1, f2))


def check_overload(case):
    specs, nargs = case
    for order in itertools.permutations(range(len(specs))):
        log = []
        ov = None
        for i in order:
            f = make(specs[i], i, log)
            if ov is None:
                ov = overload(f)
                require(ov.__wrapped__ is f and ov.__doc__ == 'doc %d' % i, 'identity of the first function')
            else:
                require(ov.overload(f) is ov, 'overload() returned something else')
            try:
                ov.overload(make(specs[i], 'dup', log))
            except (TypeError, ValueError):
                pass
            else:
                require(False, 'signature %s registered twice', specs[i])
        require(len(list(ov.all_functions)) == len(specs), 'all_functions has %s', len(list(ov.all_functions)))

        class T:
            m = ov
        for n in nargs:
            for args in itertools.product(VALUES, repeat=n):
                matching = [i for i in range(len(specs)) if accepts(specs[i], args) is not None]
                ok = [i for i in matching if not any(generic(specs[i], specs[j]) for j in matching)]
                for how in range(3 if n else 1):
                    del log[:]
                    if how == 1 and any(p[0] == '*' for s in specs for p in s):
                        continue
                    try:
                        if how == 0:
                            got = ov(*args)
                        elif how == 1:
                            got = ov(*args[:-1], **{'xyz'[n - 1]: args[-1]})
                        else:
                            inst = args[0]
                            if type(inst) not in (A, B, D, E):
                                continue
                            type(inst).m = ov
                            try:
                                got = inst.m(*args[1:])
                            finally:
                                del type(inst).m
                    except TypeError as e:
                        require(not matching and not log, 'order %s of %s: %s raised %s, %s match', order, specs, args, e, matching)
                        continue
                    require(len(log) == 1 and got[0] == log[0] and log[0] in ok, 'order %s of %s: %s ran %s, expected one of %s', order, specs, args, log, ok)
                    want = accepts(specs[got[0]], args)
                    require(len(got[1]) == len(want) and all(a is b or a == b for a, b in zip(got[1], want)), 'arguments %s arrived as %s', args, got[1])
    for s1, s2 in itertools.permutations(specs, 2):
        t1, t2 = (TypeSignature.from_fun(make(s, 0, [])) for s in (s1, s2))
        if generic(s1, s2):
            require(t1.is_more_generic_than(t2) and t1 < t2, '%s should be more generic than %s', s1, s2)
        elif generic(s2, s1):
            require(not t1.is_more_generic_than(t2) and not t1 < t2, '%s should not be more generic than %s', s1, s2)
    for s in specs:
        t = TypeSignature.from_fun(make(s, 0, []))
        for n in nargs:
            for args in itertools.product(VALUES, repeat=n):
                require(bool(t.matches(*args)) == (accepts(s, args) is not None), '%s matches %s wrong', s, args)


def check_errors(case):
    exc, = case

    @overload
    def f(x: int):
        raise exc('own')

    @f.overload
    def f(x: str):
        return 5

    @f.overload
    def f():
        return 'none'
    try:
        f(1)
    except Exception as e:
        require(type(e) is exc and e.args == ('own',), 'exception of the implementation: %s', repr(e))
    else:
        require(False, 'exception of the implementation was lost')
    require(f('x') == 5 and f() == 'none', 'other overloads')

    class M:
        def __init__(self):
            self.k = exc

        @overload
        def m(self, x: int):
            return self, self.k, x

        @m.overload
        def m(self, x: str, y=1):
            return self, x, y
    class Empty(M):
        def __len__(self):      # an instance that is not true
            return 0
    e = Empty()
    require(e.m(1) == (e, exc, 1) and e.m('b', 3) == (e, 'b', 3), 'overloaded methods of an empty instance')

    @overload
    def kw(x: int, **others: str):
        return 'int', x, others

    @kw.overload
    def kw(x: int, y: float, *rest: str):
        return 'float', x, y, rest

    @kw.overload
    def kw(x: str, *, flag: bool = False):
        return 'str', x, flag
    require(kw(1) == ('int', 1, {}) and kw(1, a='x', b='z') == ('int', 1, {'a': 'x', 'b': 'z'}), 'keyword arguments')
    require(kw(1, 2.5) == ('float', 1, 2.5, ()) and kw(1, 2.5, 'q', 'r') == ('float', 1, 2.5, ('q', 'r')), 'further arguments')
    require(kw('a') == ('str', 'a', False) and kw('a', flag=True) == ('str', 'a', True), 'keyword-only argument')
    for wrong in (lambda: kw('a', flag=1.5), lambda: kw('a', True), lambda: kw(1.5), lambda: kw(1, 'y'), lambda: kw()):
        try:
            r = wrong()
        except TypeError:
            continue
        require(False, 'a call matching none gave %s', r)
    o, o2 = M(), M()
    require(o.m(1) == (o, exc, 1) and o2.m('a') == (o2, 'a', 1) and o.m('a', y=2) == (o, 'a', 2) and M.m(o, 5) == (o, exc, 5), 'overloaded methods')


# ------------------------------------------------------------------ optionals
class Obj:
    def __init__(self, v):
        self.attr = v

    def meth(self, *a, **k):
        return self.attr, a, k

    def __call__(self, *a, **k):
        return 'called', a, k

    def __bool__(self):
        return bool(self.attr)

    def __eq__(self, other):
        return other.attr == self.attr if isinstance(other, Obj) else NotImplemented

    __hash__ = None


def fresh():
    return [None, Obj(1), Obj(0), {'k': 1, 0: 2}, {}, [1, 2], [], 'ab', '', (5, 6), 0, 5, 2.5, len, Obj]


OPS = [('.attr', lambda o: o.attr), ('.meth', lambda o: o.meth(1, k=2)), ('.none', lambda o: o.missing), ('.obj', lambda o: o.obj), ('()', lambda o: o()),
       ('.__obj', lambda o: o.upper()),
       ('(1,k)', lambda o: o(1, k=2)), ('[0]', lambda o: o[0]), ("['k']", lambda o: o['k']), ('[:1]', lambda o: o[:1])]


def run(f, *a):
    try:
        return 'value', f(*a)
    except Exception as e:
        return 'raise', type(e)


def check_optional(case):
    i, chain = case
    v = fresh()[i]
    if v is None:
        o = Optional(None)
        for name, f in [OPS[j] for j in chain]:
            o = f(o)
            require(isinstance(o, Optional) and extract_optional(o) is None, '%s of an empty Optional gave %s', name, o)
            require(not o and len(o) == 0, 'an empty Optional is true or has length')
            require(5 not in o and not (o == 5) and not (o == Optional(None)) and not (5 == o), 'empty Optional compares or contains')
            o[0] = 5
            del o['k']
            require(extract_optional(o) is None and extract_optional(o.attr) is None, 'empty Optional was given an element')
        return
    ref = v
    o = v
    for name, f in [OPS[j] for j in chain]:
        want = run(f, ref)
        got = run(f, Optional(o))
        require(got[0] == want[0] and (got[1] is want[1] or got[1] == want[1] or callable(want[1]) or type(want[1]) is Obj),
                '%s of Optional(%s) gave %s, directly %s', name, o, got, want)
        if want[0] == 'raise' or want[1] is None:
            return
        require(not isinstance(got[1], Optional), '%s of Optional(%s) is wrapped', name, o)
        ref, o = want[1], got[1]


CMP = [operator.eq, operator.lt, operator.le, operator.gt, operator.ge]


def check_compare(case):
    i, j, ki, kj = case
    a, b = fresh()[i], fresh()[j]
    if ki == 'plain' and kj == 'plain' or ki == 'plain' and a is None or kj == 'plain' and b is None:
        return
    wa, wb = (Optional(v) if k == 'opt' else v for v, k in ((a, ki), (b, kj)))
    for op in CMP:
        got = run(op, wa, wb)
        if a is None or b is None:
            require(got == ('value', False), '%s of %s and %s (%s, %s) gave %s', op.__name__, a, b, ki, kj, got)
        else:
            require(got == run(op, a, b), '%s of %s and %s (%s, %s) gave %s', op.__name__, a, b, ki, kj, got)


def check_container(case):
    i, = case
    v = fresh()[i]
    o = Optional(v)
    require(extract_optional(o) is v and extract_optional(v) is v, 'extract_optional')
    require(bool(o) == bool(v), 'truth of %s', v)
    require(run(len, o) == (('value', 0) if v is None else run(len, v)), 'length of %s', v)
    for item in (1, 'k', 'a', None, 5, 99, ()):
        require(run(lambda: item in o) == (('value', False) if v is None else run(lambda: item in v)), '%s in Optional(%s)', item, v)
    for key in (0, 'k', 7, slice(0, 1)):
        for what in 'sd':
            v1, v2 = fresh()[i], fresh()[i]

            def act(t):
                if what == 's':
                    t[key] = [9]
                else:
                    del t[key]
            got, want = run(act, Optional(v1)), run(act, v2)
            if v is None:
                require(got == ('value', None), 'item operation on an empty Optional: %s', got)
            else:
                require(got[0] == want[0] and (v1 == v2 or callable(v1)), '%s of item %s on %s: %s %s', what, key, v, got, v1)
    seq = run(lambda: list(iterate_if_nnone(v)))
    require(seq == (('value', []) if v is None else run(lambda: list(v))), 'iterate_if_nnone(%s)', v)
    got = run(lambda: call_if_nnone(v, [1]))
    want = ('value', None) if v is None else run(lambda: v([1]))
    require(got == want, 'call_if_nnone(%s) gave %s', v, got)
    if isinstance(v, Obj):
        o.attr = 7
        o.fresh = 8
        require(v.attr == 7 and v.fresh == 8 and o.attr == 7, 'attribute set through Optional')
        del o.fresh
        require(not hasattr(v, 'fresh'), 'attribute deleted through Optional')


def check_both(case):
    depth, overridden = case

    class P:
        @class_or_instancemethod
        def m(self_or_cls, a, *args, k=1):
            return 'P', self_or_cls, a, args, k
    cls = P
    for _ in range(depth):
        class Q(cls):
            pass
        cls = Q
    if overridden:
        class R(cls):
            @class_or_instancemethod
            def m(self_or_cls, a, *args, k=1):
                return ('R',) + super(R, self_or_cls).m(a, *args, k=k)[1:]
        cls = R
    tag = 'R' if overridden else 'P'
    o = cls()
    require(cls.m(1) == (tag, cls, 1, (), 1) and o.m(1, 2, k=3) == (tag, o, 1, (2,), 3), 'class_or_instancemethod')
    f, g = cls.m, o.m
    require(f(5)[1] is cls and g(5)[1] is o, 'kept references')


def spec_sets(big):
    one = [(t,) for t in '-ABDEi'] + [()]
    two = [(a, b) for a in 'ABD' for b in 'ABi'] + [('-', 'A'), ('A', '-'), ('-', '-'), ('b', 'i'), ('i', 'b'), ('i', 'i')]
    more = [('A', 'i='), ('B', '-='), ('A', '*'), ('i', '*')]
    out = []
    for k in (1, 2, 3):
        out += [(c, (0, 1, 2)) for c in itertools.combinations(one, k)]
    for k in (1, 2, 3) if big else (1, 2):
        out += [(c, (2,)) for c in itertools.combinations(two, k)]
    if not big:
        out += [(c, (2,)) for c in itertools.combinations([('A', 'A'), ('B', 'A'), ('A', 'B'), ('B', 'B'), ('-', 'A'), ('D', 'A')], 3)]
    for k in (1, 2):
        out += [(c, (0, 1, 2)) for c in itertools.combinations(one[:4] + one[6:] + two[:3] + more, k) if set(c) & set(more)]
    for k in (4, 5):
        out += [(c, (1,)) for c in itertools.combinations([one[i] for i in range(5)], k)]
    if big:
        out += [(c, (0, 1, 2)) for c in itertools.combinations(one + more, 4)]
    out += [(c, (1, 3)) for c in itertools.combinations([('A', 'i', 'A'), ('B', 'i', '-'), ('B',), ('A', 'i=', 'A=')], 2)]
    # the same types with the same names are the same signature: a default makes it another one, skip these
    return [(c, n) for c, n in out if len({tuple(p for p in s) for s in c}) == len(c)]


def jobs(tier):
    big = tier == 'thorough'
    n = len(fresh())
    depth = 4 if big else 3
    return [EnumJob('overloads', lambda: spec_sets(big), check_overload, shards=16),
            EnumJob('errors', lambda: [(e,) for e in (TypeError, ValueError, KeyError, RuntimeError)], check_errors),
            EnumJob('optional', lambda: [(i, c) for i in range(n) for k in range(1, depth + 1) for c in itertools.product(range(len(OPS)), repeat=k)],
                    check_optional, shards=4),
            EnumJob('compare', lambda: itertools.product(range(n), range(n), ('opt', 'plain'), ('opt', 'plain')), check_compare),
            EnumJob('container', lambda: [(i,) for i in range(n)], check_container),
            EnumJob('both', lambda: itertools.product(range(3), (False, True)), check_both)]
