"""
C36: JSON encoding of all values of a small grammar in every position, data objects of every small field layout, JSON files, and
tracebacks captured from all small stacks over a domain of well-behaved and hostile values.
"""
import base64
import collections
import enum
import io
import itertools
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import threading
import types

from mc.jobs import SchedJob, SeqJob, EnumJob
from mc.sched import require, par, pick, advance
from satella.coding.transforms import jsonify
from satella.instrumentation import Traceback, dump_frames_on
from satella.instrumentation.trace_back import GenerationPolicy, StackFrame, StoredVariableValue
from satella.json import (JSONEncoder, JSONAble, JSONAbleDataObject, json_encode, read_json_from_file, write_json_to_file,
                          write_json_to_file_if_different)


# ------------------------------------------------------------------ encoding
class Color(enum.Enum):
    RED = 'red'
    PAIR = (1, 'x')
    NONE = None


class Num(enum.IntEnum):
    ONE = 1


class Able(JSONAble):
    def __init__(self, v):
        self.v = v

    def to_json(self):
        return self.v


class Duck:
    """to_json without being a JSONAble"""
    def __init__(self, v):
        self.v = v

    def to_json(self):
        return self.v


class Plain:
    def __init__(self, v):
        self.value, self.other = v, 1


class Slots:
    __slots__ = ('value', 'unset')

    def __init__(self, v):
        self.value = v


class Slot1:
    __slots__ = 'value'

    def __init__(self, v):
        self.value = v


class SlotBase:
    __slots__ = ('first',)


class SlotSub(SlotBase):
    __slots__ = ('value',)

    def __init__(self, v):
        self.first, self.value = 7, v


class SlotSubSub(SlotSub):
    __slots__ = ()


class Data(JSONAbleDataObject):
    value: list
    other: str = 'dflt'


NT = collections.namedtuple('NT', 'a b')
LEAVES = [(x, x) for x in (None, True, False, 0, -3, 2.5, '', 'zażółć "x"\n\u2028', 2 ** 70)] + [
    (Color.RED, 'red'), (Color.PAIR, [1, 'x']), (Color.NONE, None), (Num.ONE, 1),
    (b'ab', '<an instance of bytes>'), ({1}, '<an instance of set>'), (range(2), '<an instance of range>'),
    ([], []), ((), []), ({}, {}), (1j, '<an instance of complex>')]
CONT = [
    ('list', lambda v: [v], lambda e: [e]),
    ('list2', lambda v: [1, v], lambda e: [1, e]),
    ('tuple', lambda v: (v, 'z'), lambda e: [e, 'z']),
    ('dict', lambda v: {'k': v, 1: 2, None: 3, True: 4}, lambda e: {'k': e, '1': 4, 'null': 3}),
    ('dict2', lambda v: {2.5: v, False: 0}, lambda e: {'2.5': e, 'false': 0}),
    ('ordered', lambda v: collections.OrderedDict(k=v), lambda e: {'k': e}),
    ('default', lambda v: collections.defaultdict(list, k=v), lambda e: {'k': e}),
    ('named', lambda v: NT(v, 0), lambda e: [e, 0]),
    ('able', Able, lambda e: e),
    ('duck', Duck, lambda e: e),
    ('plain', Plain, lambda e: {'value': e, 'other': 1}),
    ('plain-enum', lambda v: Plain({Color.RED: v, 'k': 0}), lambda e: {'value': {'red': e, 'k': 0}, 'other': 1}),
    ('slots', Slots, lambda e: {'value': e}),
    ('slot1', Slot1, lambda e: {'value': e}),
    ('slotsub', SlotSub, lambda e: {'first': 7, 'value': e}),
    ('slotsubsub', SlotSubSub, lambda e: {'first': 7, 'value': e}),
    ('data', lambda v: Data(value=v), lambda e: {'value': e, 'other': 'dflt'}),
]


def enc_cases(depth):
    for d in range(depth + 1):
        for path in itertools.product(range(len(CONT)), repeat=d):
            for i in range(len(LEAVES)):
                yield path, i


def build(path, i):
    v, e = LEAVES[i]
    for c in reversed(path):
        v, e = CONT[c][1](v), CONT[c][2](e)
    return v, e


def enc_check(case):
    v, e = build(*case)
    what = [CONT[c][0] for c in case[0]], LEAVES[case[1]][0]
    for enc in (json_encode, lambda x: JSONEncoder().encode(x), lambda x: json.dumps(x, cls=JSONEncoder),
                lambda x: ''.join(JSONEncoder().iterencode(x))):
        t = enc(v)
        got = json.loads(t)
        require(got == e and json.dumps(got, sort_keys=True) == json.dumps(e, sort_keys=True), '%s encodes to %s', what, t)
    return len(case[0])


# ------------------------------------------------------------------ jsonify
class BadStr:
    def __init__(self, exc):
        self.exc = exc

    def __str__(self):
        raise self.exc('no')

    def __repr__(self):
        return 'the-repr'


class EnumSet(enum.Enum):
    S = frozenset([1])
    D = {'a': (1, 2)}


JL = [(lambda x=x: x, x) for x in (None, True, 1, 2.5, 'x', '')] + [
    (lambda: Color.RED, 'red'), (lambda: Color.PAIR, [1, 'x']), (lambda: Num.ONE, 1), (lambda: EnumSet.S, [1]),
    (lambda: EnumSet.D, {'a': [1, 2]}), (lambda: b'ab', [97, 98]), (lambda: {1}, [1]), (lambda: range(2), [0, 1]),
    (lambda: 1j, '1j'), (lambda: BadStr(TypeError), 'the-repr'), (lambda: BadStr(ValueError), 'the-repr')]
JC = [
    ('list', lambda v: [v], lambda e: [e]), ('tuple', lambda v: (v, 'z'), lambda e: [e, 'z']),
    ('dict', lambda v: {'k': v, 1: 2}, lambda e: {'k': e, 1: 2}), ('enumkey', lambda v: {Color.RED: v}, lambda e: {'red': e}),
    ('gen', lambda v: (x for x in [v]), lambda e: [e]), ('mapping', lambda v: types.MappingProxyType({'k': v}), lambda e: {'k': e}),
    ('able', Able, lambda e: e), ('named', lambda v: NT(v, 0), lambda e: [e, 0])]


def jsonify_cases(depth):
    for d in range(depth + 1):
        for path in itertools.product(range(len(JC)), repeat=d):
            for i in range(len(JL)):
                yield path, i


def jsonify_check(case):
    path, i = case
    v, e = JL[i][0](), JL[i][1]
    for c in reversed(path):
        v, e = JC[c][1](v), JC[c][2](e)
    got = jsonify(v)
    require(json.dumps(got) == json.dumps(e), '%s of %s: %r, expected %r', [JC[c][0] for c in path], JL[i][1], got, e)
    return len(path)


# ------------------------------------------------------------------ data objects
def data_cases():
    names = 'abc'
    for n in (1, 2, 3):
        for defaults in itertools.product([False, True], repeat=n):
            for cut in itertools.combinations_with_replacement(range(n + 1), 2):       # fields below the first are of the base class, below the second of its child
                for given in itertools.product([False, True], repeat=n):
                    for vals in ((1, 'x', None), ('ż', [1, {'k': 2}], 2.5)):
                        yield names[:n], defaults, cut, given, vals[:n]


def mk(names, defaults, lo, hi, base, name):
    ns = {'__annotations__': {names[i]: str for i in range(lo, hi)}}
    for i in range(lo, hi):
        if defaults[i]:
            ns[names[i]] = 'default-' + names[i]
    return type(name, (base,), ns)


def data_check(case):
    names, defaults, cut, given, vals = case
    n = len(names)
    cls = mk(names, defaults, 0, cut[0], JSONAbleDataObject, 'Base')
    if cut[0] < n:
        cls = mk(names, defaults, cut[0], cut[1], cls, 'Mid')
    if cut[1] < n:
        cls = mk(names, defaults, cut[1], n, cls, 'Sub')
    kw = {names[i]: vals[i] for i in range(n) if given[i]}
    missing = [names[i] for i in range(n) if not given[i] and not defaults[i]]
    try:
        o = cls(**kw)
    except ValueError:
        require(missing, '%s of %s refused %s', cls, names, kw)
        return 'refused'
    require(not missing, 'made without %s', missing)
    want = {names[i]: vals[i] if given[i] else 'default-' + names[i] for i in range(n)}
    require(o.to_json() == want, 'to_json %s, expected %s', o.to_json(), want)
    for k, v in want.items():
        require(getattr(o, k) == v, 'field %s', k)
    back = cls.from_json(json.loads(json_encode(o)))
    require(type(back) is cls and back == o and o == back and not (back != o) and back.to_json() == want, 'round trip')
    require(json.loads(json_encode([{'x': o}])) == [{'x': want}], 'nested')
    if not any(isinstance(v, list) for v in want.values()):
        require(hash(back) == hash(o) and len({o, back}) == 1, 'hash')
    for i in range(n):
        other = dict(want)
        other[names[i]] = 'different'
        p = cls(**other)
        require(p != o and not (p == o) and o != p, 'objects differing in %s are equal', names[i])
    for x in (None, 0, 'x', want, object()):
        require(o != x and not (o == x), 'equal to %r', x)
    return 'made'


# ------------------------------------------------------------------ files
VALUES = [[1], {'k': 'ż'}, 'x', None]


class FCtx:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix='verif-c36-')
        self.path = os.path.join(self.d, 'f.json')
        self.cur = self

    def __del__(self):
        shutil.rmtree(self.d, ignore_errors=True)


def fapply(ctx, op):
    k, i = op
    if k == 'write':
        write_json_to_file(ctx.path, VALUES[i])
        ctx.cur = VALUES[i]
    elif k == 'diff':
        before = os.stat(ctx.path).st_mtime_ns if os.path.exists(ctx.path) else None
        r = write_json_to_file_if_different(ctx.path, VALUES[i])
        require(r is (ctx.cur is ctx or ctx.cur != VALUES[i]), 'write_json_to_file_if_different said %s', r)
        if r is False:
            require(os.stat(ctx.path).st_mtime_ns == before, 'written although equal')
        ctx.cur = VALUES[i]
    elif k == 'corrupt':
        with open(ctx.path, 'wb') as f:
            f.write(b'{"a": ')
        ctx.cur = 'corrupt'
    else:
        try:
            got = read_json_from_file(ctx.path)
        except FileNotFoundError:
            require(ctx.cur is ctx, 'file not found')
        except ValueError:
            require(ctx.cur == 'corrupt', 'invalid JSON')
        else:
            require(ctx.cur is not ctx and ctx.cur != 'corrupt' and got == ctx.cur, 'read %r, expected %r', got, ctx.cur)


def fops(ctx):
    return [(k, i) for k in ('write', 'diff') for i in range(len(VALUES))] + [('read', 0), ('corrupt', 0)]


SCRIPT = '''
import sys, json
from satella.json import read_json_from_file, write_json_to_file, write_json_to_file_if_different
p = sys.argv[1]
v = {'k': 'za\\u017c\\u00f3\\u0142\\u0107 \\U0001f600'}
with open(p, 'wb') as f:
    f.write(json.dumps(v, ensure_ascii=False).encode('utf-8'))
assert read_json_from_file(p) == v, read_json_from_file(p)
write_json_to_file(p, v)
assert read_json_from_file(p) == v
assert write_json_to_file_if_different(p, v) is False
assert json.loads(open(p, 'rb').read().decode('utf-8')) == v
print('fine')
'''


def locale_check(env):
    d = tempfile.mkdtemp(prefix='verif-c36-')
    try:
        e = dict(os.environ, PYTHONPATH=os.environ.get('VERIF_REPO', '/repo'), PYTHONDONTWRITEBYTECODE='1', **env)
        r = subprocess.run([sys.executable, '-c', SCRIPT, os.path.join(d, 'f.json')], env=e, capture_output=True, text=True)
        require(r.stdout.strip() == 'fine', 'in the environment %s: %s', env, r.stderr[-300:])
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ tracebacks
class Quiet(BaseException):
    pass


class ReprRaises:
    def __repr__(self):
        raise ValueError('no repr')


class ReprBase:
    def __repr__(self):
        raise Quiet()


class ReprInt:
    def __repr__(self):
        return 5


class ReprDefines:
    def __init__(self):
        self.ns = None

    def __repr__(self):
        self.ns['defined_by_repr_%d' % len(self.ns)] = 1
        return 'defining'

    def __reduce__(self):
        return int, (3,)


class BadExc(Exception):
    def __repr__(self):
        raise RuntimeError('an exception without a repr')
    __str__ = __repr__


class ReduceRaises:
    def __repr__(self):
        return 'reduce-raises'

    def __reduce__(self):
        raise BadExc(ReprRaises())


class ReduceBase:
    def __repr__(self):
        return 'reduce-base'

    def __reduce__(self):
        raise Quiet()


class Meta(type):
    def __repr__(self):
        raise ValueError('a class without a repr')


class MetaRaises(metaclass=Meta):
    def __repr__(self):
        return 'meta-raises'


class AttrRaises:
    def __getattr__(self, item):
        raise RuntimeError(item)

    def __repr__(self):
        return 'attr-raises'


class Gone:
    """pickled by a reference to a module that is not there when loading"""
    def __repr__(self):
        return 'gone'

    def __reduce__(self):
        return MISSING, ()


MISSING = type('Missing', (), {'__module__': 'verif_missing_module', '__qualname__': 'Missing'})


def deep():
    x = []
    for _ in range(100000):
        x = [x]
    return x


# name -> (make, well-behaved)
VALS = {
    'int': (lambda: 5, True), 'str': (lambda: 'zażółć\n"', True), 'long': (lambda: 'x' * 300, True),
    'nested': (lambda: {'a': [1, (2, None)], 'b': {3}}, True), 'bytes': (lambda: b'\x00\xff', True),
    'repr-raises': (ReprRaises, False), 'repr-base': (ReprBase, False), 'repr-int': (ReprInt, False),
    'repr-defines': (ReprDefines, False), 'reduce-raises': (ReduceRaises, False), 'reduce-base': (ReduceBase, False),
    'meta': (MetaRaises, False), 'attr': (AttrRaises, False), 'lock': (threading.Lock, False), 'lambda': (lambda: (lambda: 1), False),
    'gen': (lambda: (i for i in range(3)), False), 'gone': (Gone, False), 'deep': (deep, False),
    'badexc': (lambda: BadExc(1), False),
}
POLICIES = {
    'default': (lambda: GenerationPolicy, True, None), 'instance': (lambda: GenerationPolicy(), True, None),
    'nopickle': (lambda: GenerationPolicy(enable_pickling=False), False, None),
    'compress': (lambda: GenerationPolicy(compress_at=5, compression_level=9), True, None),
    'short': (lambda: GenerationPolicy(repr_length_limit=4), True, 4),
    'nolimit': (lambda: GenerationPolicy(repr_length_limit=None), True, None),
}
SRC = '''
def level0(fns, vals, extra):
    mine_0 = vals[0]
    also_0 = 'local of level 0'
    return fns[1](fns, vals[1:], extra)
'''
LAST = '''
def last(fns, vals, extra):
    last_local = vals[0]
    raise extra
'''


def stack(vals):
    """functions, with globals of their own, that call each other; the last one raises"""
    fns, spaces = [], []
    for k in range(len(vals)):
        ns = {'__builtins__': {}, 'own_global_%d' % k: vals[k], 'number': k}
        src = LAST if k == len(vals) - 1 else SRC.replace('level0', 'level%d' % k).replace('_0', '_%d' % k).replace('fns[1]', 'fns[%d]' % (k + 1))
        exec(compile(src, 'file%d.py' % k, 'exec'), ns)
        fns.append(ns['last' if k == len(vals) - 1 else 'level%d' % k])
        spaces.append(ns)
        if isinstance(vals[k], ReprDefines):
            vals[k].ns = ns
    return fns, spaces


def tb_cases(q):
    names = list(VALS)
    for p in POLICIES:
        for v in names:
            yield p, (v,), 'tb'
    for v in itertools.product(names, repeat=2):
        yield 'default', v, 'tb'
    for v in itertools.product(['int', 'repr-raises', 'reduce-raises'] if q else names[:1] + names[5:11], repeat=3):
        yield 'default', v, 'tb'
    for v in names:
        yield 'default', (v, 'int'), 'exc-' + v
        yield 'default', ('int', v), 'frame'
        yield 'compress', ('int', v), 'gen'


def same_value(a, b):
    return type(a) is type(b) and a == b


def tb_check(case):
    policy, names, how = case
    mkpol, pickling, limit = POLICIES[policy]
    vals = [VALS[n][0]() for n in names]
    fns, spaces = stack(vals)
    exc = KeyError('the-error', VALS[how[4:]][0]()) if how.startswith('exc-') else KeyError('the-error')
    if how.endswith('badexc'):
        exc = BadExc('the-error')
    n = len(vals)
    if how == 'frame':
        holder = {}

        class Trap(KeyError):
            pass

        def grab(fns, vals, extra):
            last_local = vals[0]
            f = sys._getframe()
            holder['tb'] = Traceback(f, mkpol())
        fns[-1] = grab
        fns[0](fns, vals, exc) if n > 1 else grab(fns, vals, exc)
        tb = holder['tb']
        inner = 'grab'
    else:
        def user():
            if how == 'gen':
                def g():
                    yield 1
                    fns[0](fns, vals, exc)
                for _ in g():
                    pass
            else:
                fns[0](fns, vals, exc)
        try:
            user()
        except KeyError if not isinstance(exc, BadExc) else BadExc as e:
            before = sys.exc_info()
            tb = Traceback(policy=mkpol())
            require(sys.exc_info()[1] is before[1] is e and e.__traceback__ is before[2], 'the exception in progress changed')
        inner = 'last'
    want = [inner] + ['level%d' % k for k in range(n - 2, -1, -1)]
    if how == 'gen':
        want += ['g']
    if how != 'frame':
        want += ['user']
    want += ['tb_check']
    f = sys._getframe().f_back
    while f is not None:
        want.append(f.f_code.co_name)
        f = f.f_back
    got = [f.name for f in tb.frames]
    require(got == want, 'frames %s, the stack was %s', got[:8], want[:8])
    for k in range(n):
        fr = tb.frames[n - 1 - k]
        last = k == n - 1
        if not (last and how == 'frame'):
            require(fr.filename == 'file%d.py' % k and fr.lineno == (4 if last else 5), 'frame is at %s:%s', fr.filename, fr.lineno)
            g = set(spaces[k])
            need = {'own_global_%d' % k, 'number', '__builtins__'}
            require(need <= set(fr.globals), 'globals listed: %s', sorted(fr.globals))
            require(fr.globals['number'].load_value() == k if pickling else True, 'a global')
            check_value(fr.globals['own_global_%d' % k], vals[k], names[k], pickling, limit)
        loc = {'fns', 'vals', 'extra'} | ({'last_local'} if last else {'mine_%d' % k, 'also_%d' % k})
        if last and how == 'frame':
            loc |= {'f'}
            loc |= {x for x in fr.locals if x in ('holder', 'mkpol')}
        require(set(fr.locals) == loc, 'locals of the frame: %s, expected %s', sorted(fr.locals), sorted(loc))
        check_value(fr.locals['last_local' if last else 'mine_%d' % k], vals[k], names[k], pickling, limit)
    if how == 'tb' or how.startswith('exc') or how == 'gen':
        require(type(exc).__name__ in tb.formatted_traceback and 'file%d.py' % (n - 1) in tb.formatted_traceback, 'formatted traceback')
    bio = io.BytesIO()
    tb.pickle_to(bio)
    bio.seek(0)
    js = json.loads(json.dumps(tb.to_json()))
    js2 = json.loads(json_encode(tb))
    require(js == js2, 'json_encode of a traceback')
    text = tb.pretty_format()
    require('own_global' not in tb.formatted_traceback and inner in text and (how == 'frame' or 'last_local' in text), 'pretty format')
    printed = io.StringIO()
    tb.pretty_print(printed)
    require(printed.getvalue() == text and tb.formatted_traceback in text, 'pretty_print differs from pretty_format')
    short = str(tb)
    at = at2 = 0
    for k, fr in enumerate(tb.frames):
        head = '%s at %s:%s' % (fr.name, fr.filename, fr.lineno)
        at = text.find(head, at)
        require(at >= 0, 'frame %d (%s) is not printed, or out of order', k, fr.name)
        at += len(head)
        at2 = short.find(fr.name, at2)
        require(at2 >= 0, 'frame %d (%s) is not in the short text, or out of order', k, fr.name)
        at2 += len(fr.name)
        if k < n:
            end = text.find('%s at %s:%s' % (tb.frames[k + 1].name, tb.frames[k + 1].filename, tb.frames[k + 1].lineno), at)
            for name, value in fr.locals.items():
                at = text.find('%s: %s' % (name, value.repr), at, end)
                require(at >= 0, 'local variable %s of %s is not printed with it', name, fr.name)
    for what, t2 in (('pickle', Traceback.from_pickle(tb.pickle())), ('stream', Traceback.from_pickle(bio)), ('json', Traceback.from_json(js))):
        require(t2 == tb and tb == t2, '%s: not equal', what)
        require(t2.formatted_traceback == tb.formatted_traceback and t2.pretty_format() == text and str(t2) == str(tb), '%s: text differs', what)
        for fa, fb in zip(tb.frames[:n], t2.frames[:n]):
            for x, y in ((fa.locals, fb.locals), (fa.globals, fb.globals)):
                require(list(x) == list(y), '%s: names differ', what)
                for key in x:
                    a, b = x[key], y[key]
                    require((a.repr, a.type_, a.pickle_type, a.pickle) == (b.repr, b.type_, b.pickle_type, b.pickle),
                            '%s: variable %s was stored as %s', what, key, (b.pickle_type, b.pickle))
        for k in range(n):
            if VALS[names[k]][1]:
                v = t2.frames[n - 1 - k].locals['last_local' if k == n - 1 else 'mine_%d' % k]
                check_value(v, vals[k], names[k], pickling, limit)
    return n


def check_value(sv, val, name, pickling, limit):
    if VALS[name][1]:
        r = repr(val)
        require(sv.repr == (r if limit is None or len(r) <= limit else r[:limit] + '...'), 'stored repr %s', sv.repr)
        require(sv.type_ == repr(type(val)), 'stored type %s', sv.type_)
        if pickling:
            require(same_value(sv.load_value(), val), 'loaded %r instead of %r', sv.load_value(), val)
            return
    elif limit is None and name in ('reduce-raises', 'reduce-base', 'meta', 'attr', 'gone'):
        require(sv.repr == repr(val), 'stored repr %s', sv.repr)
    if not pickling or not VALS[name][1]:
        if not pickling or name in ('reduce-raises', 'reduce-base', 'lock', 'lambda', 'gen', 'gone', 'deep'):
            try:
                got = sv.load_value()
            except ValueError:
                return
            require(False, 'a value that could not be stored loads as %r', got)


def other_cases():
    for i in range(5):
        yield i


def other_check(i):
    if i == 0:
        for x in (5, None, 'x', [1]):
            for p in (pickle.dumps(x), io.BytesIO(pickle.dumps(x))):
                try:
                    Traceback.from_pickle(p)
                except ValueError:
                    continue
                require(False, 'a pickled %r was taken for a traceback', x)
    elif i == 1:
        def here():
            a_local = 1
            _private = 'private-value'
            __mangled = 3
            return Traceback()
        tb = here()
        mine = [f for f in tb.frames if f.name == 'here']
        require(len(mine) == 1 and mine[0].locals['_private'].load_value() == 'private-value' and set(mine[0].locals) == {'a_local', '_private', '__mangled'},
                'locals of a frame: %s', mine and mine[0].locals)
        for depth in (10, 60, 150):
            def down(k):
                return down(k - 1) if k else Traceback()
            levels = [f.locals['k'].load_value() for f in down(depth).frames if f.name == 'down']
            require(levels == list(range(depth + 1)), '%s levels of recursion are shown as %s', depth, levels)

            def fail(k):
                if not k:
                    raise ValueError('at the bottom')
                fail(k - 1)
            try:
                fail(depth)
            except ValueError:
                levels = [f.locals['k'].load_value() for f in Traceback().frames if f.name == 'fail']
            require(levels == list(range(depth + 1)), 'an exception %s levels below is shown as %s', depth, levels)

        def again(k, how):
            # the same exception raised anew on its way up
            try:
                if not k:
                    raise ValueError('at the bottom')
                again(k - 1, how)
            except ValueError as e:
                if how == 'e':
                    raise e
                elif how == 'with':
                    raise e.with_traceback(e.__traceback__)
                raise
        for k in range(4):
            for how in ('e', 'with', 'bare'):
                try:
                    again(k, how)
                except ValueError:
                    levels = [f.locals['k'].load_value() for f in Traceback().frames if f.name == 'again']
                require(levels == list(range(k + 1)), 'an exception raised again by %s levels is shown as %s', k, levels)
        require('here' in [f.name for f in tb.frames[:2]] and 'other_check' in [f.name for f in tb.frames], 'without an exception')
    elif i == 2:
        out = io.StringIO()
        marker_local = 'marker-value'
        dump_frames_on(10, None, out)
        require('marker-value' in out.getvalue() and 'other_check' in out.getvalue(), 'dump_frames_on')
    elif i == 3:
        frames = [f for f in Traceback().frames]
        a, b = frames[0], StackFrame.from_json(json.loads(json.dumps(frames[0].to_json())))
        require(a == b, 'a frame through JSON')
        for k, other in (('name', 'q'), ('filename', 'q.py'), ('line_no', -1), ('locals', {}), ('globals', {})):
            j = json.loads(json.dumps(a.to_json()))
            require(k in j, 'a frame without %s', k)
            if j[k] == other:
                continue
            j[k] = other
            require(not a == StackFrame.from_json(j), 'a frame equal to one of other %s', k)
        for n in range(0, 9):
            for v in ('abc', 12, [1, 2], None):
                for m in (0, 3, 5, 6):
                    sv = StoredVariableValue(v if n else '', GenerationPolicy(repr_length_limit=m))
                    full = repr(v if n else '')
                    require(sv.repr == (full if len(full) <= m else full[:m] + '...'), '%s limited to %s: %s', full, m, sv.repr)
    else:
        for v in (1, 'x', [1]):
            sv = StoredVariableValue(v)
            require(same_value(sv.load_value(), v) and str(sv) == repr(v), 'stored %r', v)
            s2 = StoredVariableValue.from_json(json.loads(json.dumps(sv.to_json())))
            require(s2 == sv and same_value(s2.load_value(), v), 'stored %r through JSON', v)


class BadLevel(GenerationPolicy):
    def get_compression_level(self, data_to_pickle):
        return 77


class Vanishing:
    """its class is gone, or fails to load, by the time it is wanted again"""

    def __init__(self, mode):
        self.mode = mode

    def __setstate__(self, state):
        if state['mode'] == 'raises':
            raise KeyError('loading')
        self.__dict__.update(state)


def broken_check(case):
    mode, compressing, through = case
    policy = {'none': GenerationPolicy(), 'all': GenerationPolicy(compress_at=0), 'bad-level': BadLevel(compress_at=0)}[compressing]
    value = Vanishing(mode)
    if mode == 'plain':
        value = ['plain', 'value'] * 20
    sv = StoredVariableValue(value, policy)
    require(sv.repr == repr(value) and sv.type_ == repr(type(value)), 'representation %s', sv.repr)
    if through == 'pickle':
        sv = pickle.loads(pickle.dumps(sv))
    elif through == 'json':
        sv = StoredVariableValue.from_json(json.loads(json.dumps(sv.to_json())))
    require(sv.repr == repr(value) and sv.type_ == repr(type(value)), 'representation %s', sv.repr)
    name = Vanishing.__name__
    if mode == 'gone':
        saved = globals().pop('Vanishing')
    try:
        got = sv.load_value()
    except ValueError:
        got = ValueError
    finally:
        if mode == 'gone':
            globals()['Vanishing'] = saved
    if mode in ('gone', 'raises') or compressing == 'bad-level':
        require(got is ValueError, 'loading a value that cannot be had gave %r', got)
    else:
        require(got == value if mode == 'plain' else got.mode == mode, 'loaded %r', got)


def frames_dump():
    """a dump shows what every thread is doing"""
    from satella.instrumentation import install_dump_frames_on
    import signal
    go = threading.Event()
    n = pick([0, 1, 2])
    way = pick(['call', signal.SIGUSR1, signal.SIGUSR2])
    inside = []

    def working_thread(my_number):
        my_text = 'worker-%d' % my_number
        inside.append(my_text)
        go.wait()
    ts = [threading.Thread(target=working_thread, args=(i,)) for i in range(n)]
    for t in ts:
        t.start()
    while len(inside) < n:
        advance(1)
    out = io.StringIO()
    my_own_local = 'the-main-one'
    if way == 'call':
        dump_frames_on(5, None, out)
        number = 5
    else:
        number = way
        handlers = {}       # only the main thread may install real ones
        old, signal.signal = signal.signal, handlers.__setitem__
        try:
            install_dump_frames_on(way, out)
        finally:
            signal.signal = old
        require(out.getvalue() == '' and list(handlers) == [way], 'dumped when nobody asked, or installed for %s', handlers)
        handlers[way](way, sys._getframe())
    go.set()
    for t in ts:
        t.join()
    text = out.getvalue()
    require(text.count('Stack frame dump requested in response to signal %s' % (number,)) == 1, 'dump begins with %s', text[:80])
    for what in ['frames_dump', "my_own_local: 'the-main-one'"] + ["my_text: 'worker-%d'" % i for i in range(n)]:
        require(what in text, '%s is not in the dump', what)
    require(text.count('** working_thread at ') == n, '%d threads shown', text.count('** working_thread at '))


def jobs(tier):
    q = tier == 'quick'
    return [
        EnumJob('encode', lambda: enc_cases(2 if q else 3), enc_check, shards=4),
        EnumJob('jsonify', lambda: jsonify_cases(2 if q else 3), jsonify_check, shards=2),
        EnumJob('data', data_cases, data_check),
        SeqJob('files', FCtx, fops, fapply, depth=3 if q else 4, dedupe=False, shards=2),
        EnumJob('locale', lambda: [{}, {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, {'LC_ALL': 'POSIX', 'PYTHONUTF8': '0',
                                   'PYTHONCOERCECLOCALE': '0'}, {'PYTHONUTF8': '1'}], locale_check, shards=4),
        EnumJob('tracebacks', lambda: tb_cases(q), tb_check, shards=8),
        EnumJob('others', other_cases, other_check),
        EnumJob('broken', lambda: itertools.product(('plain', 'fine', 'gone', 'raises'), ('none', 'all', 'bad-level'), ('direct', 'pickle', 'json')), broken_check),
        SchedJob('frames', frames_dump, bound=0, only=['nothing'], fork=True),
    ]
