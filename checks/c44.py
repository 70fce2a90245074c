"""
C44: all small programs over tainted variables (operators, in-place operators, aliases, items, attributes, iteration, calls) against the same program over the
plain values; all histories of tainting sessions, of one thread and of two.
"""
import copy
import gc
import itertools
import operator

from mc.jobs import EnumJob, SchedJob, SeqJob
from mc.sched import require, par
from satella.debug import TaintedObject, TaintingEnvironment, taint, access_tainted


class Thing:
    def __init__(self, v):
        self.v = v
        self.entered = []

    def __eq__(self, other):
        return type(other) is Thing and self.v == other.v

    def __repr__(self):
        return 'Thing(%r)' % (self.v,)

    def __hash__(self):
        return 7

    def get(self, *args, **kwargs):
        return self.v, args, tuple(kwargs.items())

    def __call__(self, n):
        return n * 2

    def __enter__(self):
        self.entered.append('in')
        return 'entered'

    def __exit__(self, exc_type, exc_val, exc_tb):
        self.entered.append(exc_type)
        return exc_type is KeyError


def strip(v):
    """the value with no taint at any depth"""
    v = access_tainted(v)
    if isinstance(v, list):
        return [strip(q) for q in v]
    if isinstance(v, tuple):
        return tuple(strip(q) for q in v)
    if isinstance(v, set):
        return {strip(q) for q in v}
    if isinstance(v, dict):
        return {strip(k): strip(q) for k, q in v.items()}
    if isinstance(v, Thing):
        t = Thing(strip(v.v))
        for k, q in v.__dict__.items():
            t.__dict__[k] = strip(q)
        return t
    return v


def same(a, b):
    return type(a) is type(b) and (a == b if not isinstance(a, Thing) else same(a.__dict__, b.__dict__))


def attempt(f, *args):
    try:
        return 'ok', f(*args)
    except Exception as e:
        return 'exc', type(e)


VALUES = [0, 5, -2, 2.5, True, '', 'ab', 'b', (), (1, 2), [], [1, 2], [[1], 'x'], {}, {'a': 1, 'b': [2]}, {1, 2}, None, b'xy']
BINARY = [operator.add, operator.sub, operator.mul, operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge]
INPLACE = [operator.iadd, operator.isub, operator.imul]
TAINTED_RESULT = [operator.add, operator.sub, operator.mul, operator.eq, operator.lt, operator.le, operator.gt, operator.ge]
REVERSED = [operator.add, operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge]


def cases_binary():
    yield from itertools.product(range(len(BINARY) + len(INPLACE)), range(len(VALUES)), range(len(VALUES)), ('TP', 'TT', 'PT'))


def check_binary(case):
    o, i, j, kinds = case
    op = (BINARY + INPLACE)[o]
    if kinds == 'PT' and op not in REVERSED:
        return      # not offered with a plain object on the left
    want = attempt(op, copy.deepcopy(VALUES[i]), copy.deepcopy(VALUES[j]))
    if kinds == 'PT' and op is operator.add and (want[0] == 'exc' or isinstance(VALUES[i], (list, str, tuple, bytes))):
        return      # sequences decide themselves what they concatenate with
    with TaintingEnvironment():
        a, b = copy.deepcopy(VALUES[i]), copy.deepcopy(VALUES[j])
        if kinds[0] == 'T':
            a = taint(a)
        if kinds[1] == 'T':
            b = taint(b)
        got = attempt(op, a, b)
        require(got[0] == want[0], '%s of %s and %s (%s): %s, should be %s', op.__name__, VALUES[i], VALUES[j], kinds, got, want)
        if got[0] == 'ok':
            if op in TAINTED_RESULT or op in INPLACE:
                require(isinstance(got[1], TaintedObject), '%s of %s and %s (%s) is not tainted: %s', op.__name__, VALUES[i], VALUES[j], kinds, got[1])
            require(same(strip(got[1]), want[1]), '%s of %s and %s (%s) = %s, should be %s', op.__name__, VALUES[i], VALUES[j], kinds, strip(got[1]), want[1])
        else:
            require(got[1] is want[1], '%s of %s and %s (%s) raised %s, should %s', op.__name__, VALUES[i], VALUES[j], kinds, got[1], want[1])


UNARY = {'str': str, 'len': len, 'bool': bool, 'int': int, 'float': float, 'hash': hash, 'dir': dir}


def check_unary(i):
    v = VALUES[i]
    with TaintingEnvironment() as env:
        raw = copy.deepcopy(v)
        t = taint(raw)
        require(isinstance(t, TaintedObject) and access_tainted(t) is raw, 'access_tainted(taint(%s)) is %s', v, access_tainted(t))
        require(taint(t) is t and TaintedObject(t) is t, 'tainted twice')
        require(access_tainted(raw) is raw, 'access_tainted of a plain value')
        for name, fn in UNARY.items():
            want, got = attempt(fn, v), attempt(fn, t)
            if name == 'str' and isinstance(v, (list, dict)):
                require(got[0] == 'ok' and type(got[1]) is str, 'str of a tainted container')
                continue        # shows the items tainted
            require(want == got and type(got[1]) is type(want[1]), '%s of tainted %s: %s, should be %s', name, v, got, want)
        got = attempt(repr, t)
        require(got[0] == 'ok' and type(got[1]) is str, 'repr of tainted %s: %s', v, got)
        if not isinstance(v, (list, dict)):
            require(str(v) in got[1], 'repr of tainted %s is %s', v, got)
        # iteration and items
        want, got = attempt(list, v), attempt(list, t)
        require(want[0] == got[0], 'iteration over tainted %s: %s', v, got)
        if want[0] == 'ok':
            require(same(strip(got[1]), want[1]), 'iteration over tainted %s: %s', v, strip(got[1]))
            require(all(isinstance(q, TaintedObject) for q in got[1]), 'iteration over tainted %s gave what is not tainted', v)
            if len(want[1]) < 2:        # one at a time
                it, tit = iter(v), taint(iter(v))
                for _ in range(3):
                    want1, got1 = attempt(next, it), attempt(next, tit)
                    require(want1[0] == got1[0], 'next() of tainted iterator over %s: %s', v, got1)
                    if want1[0] == 'ok':
                        require(isinstance(got1[1], TaintedObject) and same(strip(got1[1]), want1[1]),
                                'next() of tainted iterator over %s gave %s', v, got1)
                    else:
                        require(got1[1] is StopIteration, 'end of a tainted iterator over %s: %s', v, got1)
        for k in (0, 1, -1, 'a', 'b', slice(0, 1)):
            want, got = attempt(operator.getitem, v, k), attempt(operator.getitem, t, k)
            require(want[0] == got[0], 'tainted %s[%s]: %s', v, k, got)
            if want[0] == 'ok':
                require(isinstance(got[1], TaintedObject) and same(strip(got[1]), want[1]), 'tainted %s[%s] = %s', v, k, got[1])
        for method in ('upper', 'bit_length', 'copy', 'nothing'):
            want, got = attempt(lambda: getattr(v, method)()), attempt(lambda: getattr(t, method)())
            require(want[0] == got[0] and (want[0] == 'ok' or want[1] is got[1]), '%s() of tainted %s: %s', method, v, got)
            if want[0] == 'ok':
                require(isinstance(got[1], TaintedObject) and same(strip(got[1]), want[1]), '%s() of tainted %s = %s', method, v, got[1])
        live = list(env.get_tainted_variables())
        require(any(q is raw for q in live), '%s not among the tainted variables', v)
    require(attempt(taint, v) == ('exc', RuntimeError), 'tainting with no session')


def check_thing(case):
    setter, reader = case
    with TaintingEnvironment():
        raw = Thing([1, 'x'])
        t = taint(raw)
        require(isinstance(t.v, TaintedObject) and strip(t.v) == [1, 'x'], 'attribute of a tainted object')
        if setter == 'new':
            t.w = 4
            require(isinstance(t.w, TaintedObject) and t.w == 4 and strip(raw.w) == 4, 'attribute set is %s', strip(raw).__dict__)
        elif setter == 'over':
            t.v = 'z'
            require(isinstance(t.v, TaintedObject) and t.v == 'z' and strip(raw.v) == 'z', 'attribute set is %s', strip(raw).__dict__)
        elif setter == 'inplace':
            t.v += [3]
            require(strip(t.v) == [1, 'x', 3] and strip(raw.v) == [1, 'x', 3], 'attribute set is %s', strip(raw).__dict__)
        if reader == 'call':
            require(isinstance(t(5), TaintedObject) and strip(t(5)) == 10, 'a call')
        elif reader == 'method':
            got = t.get(1, k=2)
            require(isinstance(got, TaintedObject) and strip(got)[1:] == ((1,), (('k', 2),)), 'a method call: %s', strip(got))
        elif reader == 'class':
            k = taint(Thing)
            require(isinstance(k, TaintedObject) and access_tainted(k) is Thing, 'a class')
            o = k(3)
            require(isinstance(o, TaintedObject) and strip(o) == Thing(3), 'a class called: %s', o)
        elif reader == 'with':
            for exc in (None, KeyError, ValueError):
                inner = Thing(1)
                t2 = taint(inner)
                try:
                    with t2 as q:
                        require(isinstance(q, TaintedObject) and q == 'entered', 'with gave %s', q)
                        if exc is not None:
                            raise exc()
                except Exception as e:
                    require(exc is ValueError and type(e) is exc, 'with raised %s', repr(e))
                else:
                    require(exc is not ValueError, 'with swallowed')
                require(strip(inner.entered) == ['in', exc], 'with: %s', strip(inner.entered))


# ------------------------------------------------------------------ programs with aliases
class Program:
    """a and b start tainted, c is plain. Every step is done on the plain ones as well"""

    def __init__(self, start):
        self.env = TaintingEnvironment().__enter__()
        self.plain = dict(zip('abc', copy.deepcopy(start)))
        self.tainted = dict(zip('abc', copy.deepcopy(start)))
        self.tainted['a'] = taint(self.tainted['a'])
        self.tainted['b'] = taint(self.tainted['b'])

    def step(self, op):
        kind, x, y = op[0], op[1], op[2]
        def run(vs):
            if kind == 'alias':
                vs[x] = vs[y]
            elif kind == 'item':
                vs[x][0] = vs[y]
            elif kind == 'del':
                del vs[x][0]
            elif kind == 'append':
                vs[x].append(vs[y])
            elif kind == 'bin':
                vs['c'] = op[3](vs[x], vs[y])
            elif kind == 'inplace':
                vs[x] = op[3](vs[x], vs[y])
        a, b = attempt(run, self.plain), attempt(run, self.tainted)
        require(a == b, '%s: %s, should be %s', op, b, a)

    def compare(self, ops):
        for v in 'abc':
            require(same(strip(self.tainted[v]), self.plain[v]), '%s: %s should be %s, is %s', ops, v, self.plain[v], strip(self.tainted[v]))
            if v != 'c':
                require(isinstance(self.tainted[v], TaintedObject), '%s: %s is no longer tainted', ops, v)
        live = [strip(q) for q in self.env.get_tainted_variables()]
        for v in 'ab':
            require(any(same(q, self.plain[v]) for q in live), '%s: %s is not among the tainted variables', ops, v)

    def close(self):
        self.env.__exit__(None, None, None)


def program_job(name, start, depth):
    isl = isinstance(start[0], list)
    all_ops = [('alias', 'a', 'b'), ('alias', 'b', 'a'), ('bin', 'a', 'b', operator.add), ('bin', 'b', 'a', operator.add),
               ('inplace', 'a', 'b', operator.iadd), ('inplace', 'b', 'a', operator.iadd), ('inplace', 'a', 'c', operator.iadd)]
    if isl:
        all_ops += [('item', 'a', 'c'), ('item', 'b', 'c'), ('del', 'a', ''), ('append', 'a', 'c'), ('append', 'b', 'c')]
        all_ops = [o for o in all_ops if o[0] != 'alias' or o[1] != 'c']
    elif isinstance(start[0], int):
        all_ops += [('bin', 'a', 'b', operator.sub), ('inplace', 'a', 'b', operator.isub), ('inplace', 'b', 'c', operator.isub),
                    ('bin', 'a', 'c', operator.mul), ('inplace', 'a', 'b', operator.imul), ('bin', 'a', 'b', operator.lt)]

    def cases():
        for n in range(1, depth + 1):
            yield from itertools.product(range(len(all_ops)), repeat=n)

    def check(case):
        ops = [all_ops[i] for i in case]
        p = Program(start)
        try:
            for op in ops:
                if op[0] in ('append', 'item') and isinstance(p.plain['c'], list):
                    return      # no cycles
                p.step(op)
            p.compare(ops)
        finally:
            p.close()
    return EnumJob('programs-' + name, cases, check, shards=8)


# ------------------------------------------------------------------ sessions
class Sessions:
    def __init__(self):
        self.envs = [TaintingEnvironment(), TaintingEnvironment()]
        self.current = None
        self.keep = []


def session_job(depth):
    def fresh():
        try:
            TaintingEnvironment.get_session_in_progress().__exit__(None, None, None)       # of the previous history
        except RuntimeError:
            pass
        return Sessions()

    def ops(s):
        out = [('enter', 0), ('enter', 1), ('get',), ('taint',)]
        if s.current is not None:
            out += [('exit', None), ('exit', KeyError)]
        return out

    def apply(s, op):
        if op[0] == 'enter':
            e = s.envs[op[1]]
            got = attempt(e.__enter__)
            if s.current is None:
                require(got == ('ok', e), 'starting a session: %s', got)
                s.current = op[1]
            else:
                require(got == ('exc', RuntimeError), 'starting a session within a session: %s', got)
        elif op[0] == 'exit':
            e = s.envs[s.current]
            try:
                require(not e.__exit__(op[1], op[1] and op[1](), None), 'exception swallowed')
            finally:
                s.current = None
        elif op[0] == 'get':
            got = attempt(TaintingEnvironment.get_session_in_progress)
            want = ('exc', RuntimeError) if s.current is None else ('ok', s.envs[s.current])
            require(got == want, 'session in progress: %s', got)
        else:
            got = attempt(taint, ['v', len(s.keep)])
            require(got[0] == ('exc' if s.current is None else 'ok'), 'taint: %s', got)
            if got[0] == 'ok':
                s.keep.append((s.current, got[1]))
        for i, e in enumerate(s.envs):
            require(bool(e.enabled) == (s.current == i), 'session %d, enabled %s, in progress %s', i, e.enabled, s.current)
            vals = [strip(v) for v in e.get_tainted_variables() if isinstance(access_tainted(v), list)]
            want = [strip(t) for j, t in s.keep if j == i]
            require(sorted(vals) == sorted(want), 'tainted variables of session %d: %s, should be %s', i, vals, want)

    return SeqJob('sessions', fresh, ops, apply, depth, dedupe=False, shards=4)


def two_threads(n):
    def body():
        envs = [TaintingEnvironment() for _ in range(n)]

        def user(i):
            with envs[i] as env:
                v = taint('value %d' % i)
                require(TaintingEnvironment.get_session_in_progress() is env, 'session of another thread')
                w = v + '!'
                require(sorted(env.get_tainted_variables()) == ['value %d' % i, 'value %d!' % i], 'variables of another thread: %s', list(env.get_tainted_variables()))
                try:
                    TaintingEnvironment().__enter__()
                except RuntimeError:
                    pass
                else:
                    require(False, 'two sessions in a thread')
            try:
                taint(1)
            except RuntimeError:
                return 'ok'
            require(False, 'session goes on')
        for kind, v in par(*[lambda i=i: user(i) for i in range(n)]):
            require(kind == 'ok' and v == 'ok', 'tainting in two threads: %s', repr(v))
    return body


def jobs(tier):
    deep = tier == 'thorough'
    return [
        EnumJob('operators', cases_binary, check_binary, shards=4),
        EnumJob('values', lambda: range(len(VALUES)), check_unary),
        EnumJob('objects', lambda: list(itertools.product(('no', 'new', 'over', 'inplace'), ('no', 'call', 'method', 'class', 'with'))), check_thing),
        program_job('ints', (5, 7, 2), 4 if deep else 3),
        program_job('strings', ('x', 'yz', 'w'), 5 if deep else 4),
        program_job('lists', ([1, 2], [3], 4), 4 if deep else 3),
        session_job(6 if deep else 4),
        SchedJob('threads', two_threads(2), bound=2 if deep else 1, only=['tainting'], max_steps=100000),
    ]
