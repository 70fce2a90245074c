"""
C34: argument, contract and flow decorators over all functions of up to three parameters of every kind and all small call shapes, compared
with the binding Python itself performs for the undecorated function; flow decorators over all short histories.
"""
import itertools
import queue
import warnings

from mc.jobs import EnumJob, SeqJob
from mc.sched import require
from satella.coding import (get_arguments, call_with_arguments, wraps, chain_callables, source_to_function, update_attr_if_none,
                            update_key_if_not_none, update_key_if_true, queue_iterator, enum_value, length)
from satella.coding.decorators import (transform_result, transform_arguments, repeat_forever, execute_before, postcondition, precondition,
                                       queue_get, chain_functions, short_none, auto_adapt_to_methods, attach_arguments, for_argument,
                                       loop_while, copy_arguments, replace_argument_if, return_as_list, default_return,
                                       call_method_on_exception, execute_if_attribute_none, execute_if_attribute_not_none, cached_property)
from satella.coding.predicates import x
from satella.exceptions import PreconditionError

warnings.simplefilter('ignore')

PO, PK, VA, KO, VK = range(5)


class Sig:
    """a signature: list of (name, kind, has_default)"""

    def __init__(self, params):
        self.params = params
        out, slash, star = [], any(k == PO for _, k, _ in params), False
        pos = [p for p in params if p[1] == PO]
        for name, kind, dflt in params:
            if kind == KO and not star and not any(k == VA for _, k, _ in params):
                out.append('*')
                star = True
            out.append({VA: '*', VK: '**'}.get(kind, '') + name + ('=%r' % ('d' + name) if dflt else ''))
            if slash and (name, kind, dflt) == pos[-1]:
                out.append('/')
        self.src = ', '.join(out)
        names = [p[0] for p in params]
        glob = {'CALLS': []}
        exec('def fun(%s):\n    "doc of fun"\n    CALLS.append(1)\n    return {%s}\n' % (self.src, ', '.join('%r: %s' % (n, n) for n in names)), glob)
        self.fun = glob['fun']
        self.calls = glob['CALLS']
        self.names = names
        self.positional = [p for p in params if p[1] in (PO, PK)]

    def __repr__(self):
        return 'fun(%s)' % self.src


def signatures(upto):
    for n in range(upto + 1):
        for kinds in itertools.combinations_with_replacement(range(5), n):
            if kinds.count(VA) > 1 or kinds.count(VK) > 1:
                continue
            for dfl in itertools.product(*[(False, True) if k in (PO, PK, KO) else (False,) for k in kinds]):
                pos = [d for k, d in zip(kinds, dfl) if k in (PO, PK)]
                if pos != sorted(pos):
                    continue
                yield [('abcd'[i], k, d) for i, (k, d) in enumerate(zip(kinds, dfl))]


def shapes(maxpos, maxkw, names='abcz'):
    for npos in range(maxpos + 1):
        for k in range(maxkw + 1):
            for kw in itertools.combinations(names, k):
                yield npos, kw


def calls_of(sig, maxpos):
    for npos, kw in shapes(max(maxpos, len(sig.names)), 2, 'abcdz' if len(sig.names) > 3 else 'abcz'):
        args, kwargs = make_call(npos, kw)
        if not odd(sig, kwargs):
            yield npos, args, kwargs


def make_call(npos, kw):
    return tuple(10 + i for i in range(npos)), {n: 20 + ord(n) for n in kw}


def binds(sig, args, kwargs):
    """what Python does for the undecorated function: the locals, or None"""
    try:
        return sig.fun(*args, **kwargs)
    except TypeError:
        return None
    finally:
        sig.calls.clear()


def odd(sig, kwargs):
    """a positional-only name passed by keyword into ** parameters: inspect.signature itself refuses these in some Pythons"""
    return any(k == PO and n in kwargs for n, k, _ in sig.params) and any(k == VK for _, k, _ in sig.params)


def outcome(fn, *args, **kwargs):
    try:
        return 'value', fn(*args, **kwargs)
    except Exception as e:
        return 'raise', e


def expect(sig, deco, args, kwargs, want, what):
    sig.calls.clear()
    kind, got = outcome(deco, *args, **kwargs)
    call = '%s called with %s %s' % (what, args, kwargs)
    if want is None:
        require(kind == 'raise', '%s does not accept the call, decorated it returned %s', call, got)
        require(not sig.calls, '%s: the function was run', call)
    elif isinstance(want, type):
        require(kind == 'raise' and isinstance(got, want), '%s: %s expected, got %s', call, want, got)
        require(not sig.calls, '%s: the function was run nevertheless', call)
    else:
        require(kind == 'value', '%s raised %s, expected %s', call, repr(got), want)
        require(got == want, '%s gave %s, expected %s', call, got, want)
        require(len(sig.calls) == 1, '%s: the function was run %s times', call, len(sig.calls))


def identity(fun, deco, what, doc=True):
    require(deco.__name__ == fun.__name__ and deco.__module__ == fun.__module__, '%s: identity of the function is lost', what)
    require(not doc or deco.__doc__ == fun.__doc__, '%s: docstring is lost', what)
    require(deco.__wrapped__ is fun, '%s: __wrapped__ is wrong', what)


def P(tag):
    return lambda v: (tag, v)


# ---------------------------------------------------------------- one function, all calls
def check_bind(case):
    sig = Sig(case)
    fun = sig.fun
    for npos, args, kwargs in calls_of(sig, 4):
        want = binds(sig, args, kwargs)
        a2, k2 = list(args), dict(kwargs)
        kind, got = outcome(get_arguments, fun, *args, **kwargs)
        if want is None:
            require(kind == 'raise' and isinstance(got, TypeError), 'get_arguments(%s, %s, %s) gave %s', sig, args, kwargs, got)
        else:
            require(kind == 'value' and got == want, 'get_arguments(%s, %s, %s) gave %s, the call gives %s', sig, args, kwargs, got, want)
            expect(sig, lambda: call_with_arguments(fun, dict(want)), (), {}, want, '%r with %s through call_with_arguments' % (sig, want))
        require(list(args) == a2 and kwargs == k2, 'arguments altered')
    # each subset of arguments given to call_with_arguments
    full = {VA: (1, 2), VK: {'y': 1}}
    for given in itertools.chain.from_iterable(itertools.combinations(case, k) for k in range(len(case) + 1)):
        d = {n: full.get(k, 'v' + n) for n, k, _ in given}
        want = {}
        for n, k, dflt in case:
            if n in d:
                want[n] = d[n]
            elif k in full:
                want[n] = () if k == VA else {}
            elif dflt:
                want[n] = 'd' + n
            else:
                want = None
                break
        sig.calls.clear()
        kind, got = outcome(call_with_arguments, fun, dict(d))
        if want is None:
            require(kind == 'raise' and isinstance(got, TypeError), 'call_with_arguments(%s, %s) gave %s', sig, d, got)
        else:
            require(kind == 'value' and got == want, 'call_with_arguments(%s, %s) gave %s, expected %s', sig, d, got, want)
        kind, got = outcome(call_with_arguments, fun, dict(d, q=1))
        require(kind == 'raise' and isinstance(got, TypeError if want is None else ValueError), 'call_with_arguments(%s, %s) with extra q: %s', sig, d, got)


def check_for_argument(case):
    sig = Sig(case)
    fun = sig.fun
    pos = sig.positional
    va = [n for n, k, _ in case if k == VA]
    vk = [n for n, k, _ in case if k == VK]
    for nops in range(len(pos) + (2 if va else 0) + 1):
        for ops in itertools.product((None, 'f'), repeat=nops):
            if nops == 3 and ops.count(None) == 2:
                continue
            taken = {p[0] for p, o in zip(pos, ops)}
            for kwops in itertools.chain.from_iterable(itertools.combinations([n for n, k, _ in case if n not in taken and k not in (VA, VK, PO)]
                                                                              + (['z'] if vk else []), r) for r in range(3)):
                for returns in (False, True) if nops < 2 else (False,):
                    t = [None if o is None else (P(i) if i else "(0, x)") for i, o in enumerate(ops)]
                    kwo = {n: P(n) for n in kwops}
                    if returns:
                        kwo['returns'] = lambda r: ('ret', r)
                    deco = for_argument(*t, **kwo)(fun)
                    what = 'for_argument(%s, %s, returns=%s) on %s' % (ops, kwops, returns, sig)
                    identity(fun, deco, what)
                    for npos, args, kwargs in calls_of(sig, 4):
                        want = binds(sig, args, kwargs)
                        if want is not None:
                            if npos < nops and nops > len(pos):
                                continue        # operations without their arguments
                            for i, o in enumerate(ops):
                                if o is not None and i < len(pos):
                                    want[pos[i][0]] = (i, want[pos[i][0]])
                            if va:
                                want[va[0]] = tuple((len(pos) + i, v) if len(pos) + i < nops and ops[len(pos) + i] else v
                                                    for i, v in enumerate(want[va[0]]))
                            for n in kwops:
                                if n in want:
                                    want[n] = (n, want[n])
                                elif n in want[vk[0]]:
                                    want[vk[0]][n] = (n, want[vk[0]][n])
                            if returns:
                                want = ('ret', want)
                        expect(sig, deco, args, kwargs, want, what)


def check_conditions(case):
    sig = Sig(case)
    fun = sig.fun
    pos = sig.positional
    va = any(k == VA for _, k, _ in case)
    vk = any(k == VK for _, k, _ in case)
    byname = [n for n, k, _ in case if k in (PK, KO)] + (['z'] if vk else [])
    for nops in range(min(3, len(pos) + va) + 1):
        for ops in itertools.product((None, True, False), repeat=nops):
            for kwops in itertools.chain.from_iterable(itertools.product(*[[(n, v) for v in (None, True, False)] for n in c])
                                                       for r in range(2) for c in itertools.combinations(byname, r)):
                t = [None if o is None else (lambda v, o=o: o) if o else 'x is None' for o in ops]
                deco = precondition(*t, **{n: None if o is None else 'x is not None' if o else (lambda v: False) for n, o in kwops})(fun)
                what = 'precondition(%s, %s) on %s' % (ops, dict(kwops), sig)
                identity(fun, deco, what)
                for npos, args, kwargs in calls_of(sig, 3):
                    want = binds(sig, args, kwargs)
                    if want is None:
                        sig.calls.clear()
                        kind, got = outcome(deco, *args, **kwargs)
                        require(kind == 'raise' and not sig.calls, '%s: invalid call %s %s gave %s', what, args, kwargs, got)
                        continue
                    ok = True
                    missing = False
                    for i, o in enumerate(ops):
                        if i < npos:
                            passed = True
                        else:
                            passed = i < len(pos) and pos[i][1] == PK and pos[i][0] in kwargs
                            missing = missing or not passed
                        if passed and o is False:
                            ok = False
                    for n, o in kwops:
                        passed = n in kwargs or n in [p[0] for p in pos if p[1] == PK][:max(0, npos - len([p for p in pos if p[1] == PO]))]
                        if passed and o is False:
                            ok = False
                    if missing and npos < nops:
                        continue                # more conditions than arguments, an error to be fixed by the programmer
                    expect(sig, deco, args, kwargs, want if ok else PreconditionError, what)
    for o, cond in (True, lambda r: True), (False, lambda r: False), (True, 'isinstance(x, dict)'), (False, 'x is None'):
        deco = postcondition(cond)(fun)
        identity(fun, deco, 'postcondition')
        for npos, args, kwargs in calls_of(sig, 3):
            want = binds(sig, args, kwargs)
            if want is not None and not o:
                kind, got = outcome(deco, *args, **kwargs)
                require(kind == 'raise' and isinstance(got, PreconditionError), 'unmet postcondition: %s', got)
                require(len(sig.calls) == 1, 'postcondition: run %s times', len(sig.calls))
            else:
                expect(sig, deco, args, kwargs, want, 'postcondition(%s) on %s' % (o, sig))


def check_transform(case):
    sig = Sig(case)
    fun = sig.fun
    plain = [n for n, k, _ in case if k not in (VA, VK)]
    decos = []
    for r in range(len(plain) + 1):
        for chosen in itertools.combinations(plain, r):
            for other in plain or [None]:
                src = {n: '(%r, %s, %s)' % (n, n, other) for n in chosen}
                decos.append(('transform_arguments(%s)' % src, transform_arguments(**src)(fun),
                              lambda b, chosen=chosen, other=other: {k: (k, v, b[other]) if k in chosen else v for k, v in b.items()}))
    for n in sig.names:
        decos.append(('transform_result(%s)' % n, transform_result('(x, %s)' % n)(fun), lambda b, n=n: (b, b[n])))
    for n in plain + ['q']:
        def repl(b, n=n):
            return {k: [('r', v), 7] if k == n and isinstance(v, int) else v for k, v in b.items()}

        def repl2(b, n=n):
            return {k: ('r', v) if k == n and v != 10 else v for k, v in b.items()}
        decos.append(('replace_argument_if(%s, instance)' % n, replace_argument_if(n, [_R, 7], int)(fun), repl))
        decos.append(('replace_argument_if(%s, instances)' % n, replace_argument_if(n, [_R, 7], instance_of=(int, list))(fun), repl))
        decos.append(('replace_argument_if(%s, predicate)' % n, replace_argument_if(n, _R, predicate=lambda v: v != 10)(fun), repl2))
    for what, deco, ref in decos:
        what += ' on %r' % sig
        identity(fun, deco, what)
        for npos, args, kwargs in calls_of(sig, 3):
            want = binds(sig, args, kwargs)
            expect(sig, deco, args, kwargs, None if want is None else ref(want), what)


class _Repl:
    def __call__(self, v):
        return ('r', v)


from satella.coding.predicates import PredicateClass  # noqa: E402
_R = PredicateClass(_Repl())


def check_pass(case):
    """decorators that are to hand the call over as it is, or with declared additions"""
    sig = Sig(case)
    fun = sig.fun
    log = []

    @execute_before
    def plain():
        log.append('plain')

    @execute_before
    def withargs(*a, **k):
        log.append((a, k))

    decos = [('execute_before', plain(fun), ['plain'], (), {}),
             ('execute_before with arguments', withargs(2, k=3)(fun), [((2,), {'k': 3})], (), {}),
             ('execute_before with a keyword', withargs(k=3)(fun), [((), {'k': 3})], (), {}),
             ('default_return', default_return(5)(fun), [], (), {}),
             ('copy_arguments', copy_arguments()(fun), [], (), {}),
             ('deep copy_arguments', copy_arguments(True)(fun), [], (), {}),
             ('attach_arguments', attach_arguments()(fun), [], (), {}),
             ('auto_adapt_to_methods', auto_adapt_to_methods(lambda f: f)(fun), [], (), {}),
             ('chained', chain_functions(lambda *a, **k: (a, k))(fun), [], (), {}),
             ('chain_callables', chain_callables(fun, lambda v: v), [], (), {})]
    for nx in range(3):
        for kx in ((), ('a',), ('z',), ('b', 'z')):
            ex, ekw = tuple('e%d' % i for i in range(nx)), {n: 'E' + n for n in kx}
            decos.append(('attach_arguments(%s, %s)' % (ex, ekw), attach_arguments(*ex, **ekw)(fun), [], ex, ekw))
    for what, deco, before, ex, ekw in decos:
        if not what.startswith(('auto_adapt', 'chain_callables')):
            identity(fun, deco, what)
        for npos, args, kwargs in calls_of(sig, 3):
            del log[:]
            want = binds(sig, args + ex, dict(kwargs, **ekw))
            expect(sig, deco, args, kwargs, want, '%s on %r' % (what, sig))
            require(log == before, '%s ran beforehand: %s', what, log)


# ---------------------------------------------------------------- small value-level decorators
class MyErr(ValueError):
    pass


VALUES = [None, 0, False, '', (), [], {}, 1, 'a', (1,), (1, 2), ((1,), {'b': 2}), ((), {}), ({}, ()), ('a', {'k': 1}), [(1,), {}], {'a': 1}, (1, 2, 3),
          ((1, 2), 3), ((1,), {}, 3)]


def check_values(case):
    i, = case
    v = VALUES[i]

    def fun(*args, **kwargs):
        "doc"
        return args, kwargs

    def ident(*args):
        "doc"
        calls.append(args)
        return args[0]
    calls = []
    d = chain_functions(ident)(fun)
    identity(fun, d, 'chain_functions')
    got = d(v)
    if isinstance(v, dict):
        want = ((), v)
    elif isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], tuple) and isinstance(v[1], dict):
        want = v
    elif isinstance(v, tuple):
        want = (v, {})
    else:
        want = ((v,), {})
    require(got == want, 'chain_functions handed %s over as %s', v, got)
    for dv in ('D', 0, None):
        d = default_return(dv)(ident)
        identity(ident, d, 'default_return')
        got = d(v)
        require(got is dv if v is None else got is v, 'default_return(%s) of %s gave %s', dv, v, got)
    del calls[:]
    d = short_none(ident)
    identity(ident, d, 'short_none')
    require(d(v) is v and calls == ([] if v is None else [(v,)]), 'short_none(%s): calls %s', v, calls)
    require(short_none('(x, 1)')(v) == (None if v is None else (v, 1)), 'short_none of an expression')
    require(chain_callables(ident, lambda q: (q, 1))(v) == (v, 1), 'chain_callables')
    require(chain_callables(ident, lambda: 5)(v) == 5, 'chain_callables with second one taking no arguments')
    require(source_to_function('(x, 1)')(v) == (v, 1) and source_to_function(ident) is ident, 'source_to_function')
    for cond, ok in (lambda r: True, True), (lambda r: False, False), ('x == x', True), ('x != x', False):
        kind, got = outcome(postcondition(cond)(ident), v)
        require((kind == 'value' and got is v) if ok else isinstance(got, PreconditionError), 'postcondition on %s: %s', v, got)
    for nulls in (False, True):
        for items in itertools.product((v, None, 3), repeat=2):
            def gen():
                "doc"
                yield from items
            d = return_as_list(nulls)(gen)
            identity(gen, d, 'return_as_list')
            got = d()
            require(type(got) is list and got == [q for q in items if not (nulls and q is None)], 'return_as_list(%s) of %s gave %s', nulls, items, got)
    # helpers writing a value conditionally
    for flag in ('unset', True, False):
        dct = {'o': 1}
        r = update_key_if_true(dct, 'k', v) if flag == 'unset' else update_key_if_true(dct, 'k', v, flag)
        put = bool(v) if flag == 'unset' else flag
        require(r is dct and dct == (dict(o=1, k=v) if put else dict(o=1)), 'update_key_if_true(%s, %s): %s', v, flag, dct)
    for form in range(2):
        dct = {'o': 1, 'k': 2}
        r = update_key_if_not_none(dct, 'k', v) if form else update_key_if_not_none(dct, {'k': v, 'l': None})
        require(r is dct and dct == {'o': 1, 'k': 2 if v is None else v}, 'update_key_if_not_none: %s', dct)

    class Obj:
        pass
    for old in ('missing', None, 0, 7):
        for on_ae in (True, False):
            for ifnn in (True, False):
                o = Obj()
                if old != 'missing':
                    o.a = old
                kind, r = outcome(update_attr_if_none, o, 'a', v, on_ae, ifnn)
                if ifnn:
                    want = old if v is None else v
                elif old == 'missing':
                    want = v if on_ae else AttributeError
                else:
                    want = v if old is None else old
                if want is AttributeError:
                    require(kind == 'raise' and isinstance(r, AttributeError), 'update_attr_if_none: no AttributeError')
                else:
                    require(r is o and getattr(o, 'a', 'missing') == want, 'update_attr_if_none(%s -> %s, %s, %s): %s', old, v, on_ae, ifnn, o.__dict__)


def check_exceptions(case):
    """exceptions of the function leave every decorator as they are, the function being run once"""
    which, exc = case
    calls = []
    e = [MyErr('x'), KeyError('k'), TypeError('t'), StopIteration(), queue.Empty(), KeyboardInterrupt(), AttributeError('_a'), IndexError('i')][exc]

    class O:
        _a = None
        b = 1
        q = queue.Queue()

        def close(self):
            calls.append('close')

        def fun(self, arg=1):
            calls.append('fun')
            raise e
    O.q.put(5)
    deco, args = [
        (for_argument(None, int), (1,)), (for_argument(None), (1,)), (precondition(None, 'x == 1'), (1,)), (postcondition(lambda v: True), ()),
        (transform_result('x'), ()), (transform_arguments(arg='arg'), ()), (replace_argument_if('arg', 5, int), ()), (attach_arguments(1), ()),
        (copy_arguments(), ()), (execute_before(lambda: None), ()), (execute_if_attribute_none('_a'), ()), (execute_if_attribute_not_none('b'), ()),
        (cached_property('_a'), ()), (default_return(1), ()), (return_as_list(), ()), (chain_functions(lambda *a: a), ()), (repeat_forever, ()),
        (loop_while(lambda s: True), ()), (queue_get('q'), ()), (queue_get(lambda s: s.q, timeout=0, method_to_execute_on_empty='close'), ()),
        (call_method_on_exception(ArithmeticError, 'close'), ()), (auto_adapt_to_methods(lambda f: f), ())][which]
    O.g = deco(O.fun)
    try:
        r = O().g(*args)
    except BaseException as got:
        require(got is e, 'exception %s left as %s', repr(e), repr(got))
    else:
        require(False, 'exception %s was lost, result %s', repr(e), r)
    require(calls == ['fun'], 'calls: %s', calls)
    require(O.q.qsize() == (0 if which in (18, 19) else 1), 'queue has %s elements', O.q.qsize())


def check_cmoe(case):
    classes, exc, args, kwargs = case
    calls = []

    class T:
        def close(self, *a, **k):
            calls.append((a, k))
            return 'closed'

        @call_method_on_exception(classes, 'close', *args, **kwargs)
        def read(self, a, b=2):
            """doc"""
            if exc:
                raise exc(a, b)
            return a, b
    kind, got = outcome(T().read, 5)
    if exc is None:
        require(got == (5, 2) and not calls, 'no exception: %s, calls %s', got, calls)
    elif issubclass(exc, classes):
        require(got == 'closed' and calls == [(args, kwargs)], 'handled: %s, calls %s', got, calls)
    else:
        require(kind == 'raise' and type(got) is exc and got.args == (5, 2) and not calls, 'unlisted: %s, calls %s', got, calls)


# ---------------------------------------------------------------- flow
def check_loop(case):
    style, script, fails = case

    class T:
        def __init__(self):
            self.script = list(script)
            self.runs = 0
            self.terminated = not self.script.pop(0)

        def pred(self):
            return not self.terminated

        def run(self, a=1, b=2):
            """doc"""
            require(not self.terminated, 'function run when the condition does not hold')
            require((a, b) == (1, 2), 'arguments %s %s', a, b)
            self.runs += 1
            if self.runs == fails:
                raise MyErr()
            self.terminated = not self.script.pop(0)
            return 'r'
    t = T()
    want = script.index(False)
    if style == 'method':
        T.go = loop_while(lambda s: not s.terminated)(T.run)
        identity(T.run, T.go, 'loop_while')
        kind, got = outcome(t.go)
    elif style == 'method-x':
        T.go = loop_while(x.terminated == False)(T.run)  # noqa: E712
        kind, got = outcome(t.go, 1, b=2)
    else:
        @loop_while(lambda: not t.terminated)
        def go():
            return t.run()
        kind, got = outcome(go)
    if fails and fails <= want:
        require(kind == 'raise' and isinstance(got, MyErr) and t.runs == fails, 'exception in run %s: %s after %s runs', fails, got, t.runs)
    else:
        require(kind == 'value' and t.runs == want, 'condition %s: ran %s times, outcome %s', script, t.runs, got)


def check_repeat(case):
    n, = case
    runs = []

    @repeat_forever
    def go(a, b=2):
        runs.append((a, b))
        if len(runs) == n:
            raise MyErr()
        return 1
    kind, got = outcome(go, 5, b=6)
    require(isinstance(got, MyErr) and runs == [(5, 6)] * n, 'repeat_forever ran %s', runs)


class EmptyA(Exception):
    pass


class EmptyB(Exception):
    pass


class Q:
    def __init__(self, content, exc):
        self.content, self.exc, self.asked = list(content), exc, []

    def get(self, timeout='unset'):
        self.asked.append(timeout)
        if self.content:
            return self.content.pop(0)
        raise self.exc()

    def other(self, timeout):
        self.asked.append(('other', timeout))
        if self.content:
            return self.content.pop(0)
        raise self.exc()


def check_queue_get(case):
    getter, timeout, excs, exc, method, on_empty, content, body = case
    que = Q(content, exc)
    got, log = [], []

    class T:
        queue = que

        def empty(self):
            log.append('empty')

        def fun(self, item):
            """doc"""
            got.append(item)
            if body == 'nested-empty':
                raise exc('own')
            return ['res', item]
    kw = {}
    if timeout != 'default':
        kw['timeout'] = timeout
    if excs is not None:
        kw['exception_empty'] = excs
    if method:
        kw['queue_get_method'] = lambda q, t: q.other(t)
    if on_empty == 'name':
        kw['method_to_execute_on_empty'] = 'empty'
    elif on_empty == 'callable':
        kw['method_to_execute_on_empty'] = lambda: log.append('empty')
    T.go = queue_get('queue' if getter else lambda self: self.queue, **kw)(T.fun)
    identity(T.fun, T.go, 'queue_get')
    t = T()
    for i in range(len(content) + 2):
        kind, r = outcome(t.go)
        asked = que.asked.pop()
        tm = None if timeout == 'default' else timeout
        require(asked == (('other', tm) if method else tm) and not que.asked, 'queue was asked %s', asked)
        if i < len(content):
            require(got == [content[i]], 'function was given %s', got)
            if body == 'nested-empty':
                require(kind == 'raise' and isinstance(r, exc) and r.args == ('own',), 'exception of the function itself: %s', r)
            else:
                require(r == ['res', content[i]], 'result %s', r)
            require(not log, 'empty-queue method called for an element')
        elif excs is None and exc is not queue.Empty or excs is not None and not issubclass(exc, excs):
            require(kind == 'raise' and isinstance(r, exc) and not got and not log, 'foreign exception of the queue: %s', r)
        else:
            require(kind == 'value' and r is None and not got, 'empty queue gave %s', r)
            require(log == ['empty'] * (on_empty is not None), 'empty-queue method: %s', log)
        del got[:], log[:]


class AttrCtx:
    def __init__(self, unloaded):
        self.calls = calls = []
        self.unloaded = unloaded
        feed = self.feed = []

        class T:
            a = None
            _p = unloaded

            @execute_if_attribute_none('a')
            def if_none(self, v, *args, k=1):
                """doc"""
                calls.append(v)
                return v, args, k

            @execute_if_attribute_not_none('a')
            def if_not(self, v, *args, k=1):
                """doc"""
                calls.append(v)
                return v, args, k

            @property
            @cached_property('_p', unloaded)
            def prop(self):
                calls.append('prop')
                return feed[0]
        self.t = T()
        self.other = T()
        self.p = unloaded


ATTR = [None, 0, False, '', 1, 'x']


def attr_apply(c, op):
    kind, v = op
    del c.calls[:]
    if kind == 'set':
        c.t.a = v
    elif kind == 'reset':
        c.t._p = v
        c.p = v
    elif kind in ('if_none', 'if_not'):
        run = (c.t.a is None) == (kind == 'if_none')
        r = getattr(c.t, kind)(v, 2, k=3)
        require(r == ((v, (2,), 3) if run else None) and c.calls == [v] * run, '%s with attribute %s: %s, calls %s', kind, c.t.a, r, c.calls)
        require(getattr(c.other, kind)(v) == (None if kind == 'if_not' else (v, (), 1)), 'attribute of another instance')
    else:
        c.feed[:] = [v]
        r = c.t.prop
        if c.p == c.unloaded:
            require(r is v and c.calls == ['prop'], 'not loaded: %s, calls %s', r, c.calls)
            c.p = v
        else:
            require(r is c.p and not c.calls, 'loaded %s: %s, calls %s', c.p, r, c.calls)
        require(c.t._p is c.p, 'stored attribute: %s', c.t._p)
        require(c.other._p is c.unloaded, 'another instance was touched')
    c.calls[:] = []
    c.feed[:] = []


def attr_ops():
    out = [('set', v) for v in ATTR]
    out += [('if_none', 5), ('if_not', 5), ('if_none', None)]
    out += [('prop', v) for v in (None, 0, 'v', [])]
    out += [('reset', v) for v in (None, 0, 'u')]
    return out


def check_copies(case):
    deep, npos, kw = case
    seen = []

    @copy_arguments(deep)
    def fun(*args, **kwargs):
        seen[:] = [args, kwargs]
        for v in itertools.chain(args, kwargs.values()):
            v['l'].append(1)
            v['n'] = 1
        return len(args), sorted(kwargs)
    args = [{'l': [0]} for _ in range(npos)]
    kwargs = {n: {'l': [0]} for n in kw}
    require(fun(*args, **kwargs) == (npos, sorted(kw)), 'copy_arguments changed the call')
    for v in itertools.chain(args, kwargs.values()):
        require(v == {'l': [0] if deep else [0, 1]}, 'argument after the call (deep=%s): %s', deep, v)


def check_adapt(case):
    k, = case

    def times(fun):
        def outer(a, b=k):
            return fun(a * 2, b)
        return outer

    class T:
        base = 7

        @auto_adapt_to_methods(times)
        def m(self, a, b):
            return self.base, a, b

    @auto_adapt_to_methods(times)
    def f(a, b):
        return a, b

    @auto_adapt_to_methods
    def applied(fun):
        return times(fun)
    t, t2 = T(), T()
    t2.base = 8
    require(t.m(2) == (7, 4, k) and t2.m(3, 5) == (8, 6, 5) and t.m(3, b=5) == (7, 6, 5) and f(2) == (4, k) and f(2, 1) == (4, 1), 'auto_adapt_to_methods')

    class T2:
        @applied(times) if False else auto_adapt_to_methods(times)
        def m(self, a, b):
            return a, b
    require(T2().m(1) == (2, k), 'auto_adapt_to_methods')


# ---------------------------------------------------------------- wraps over things of various kinds
def check_wraps(case):
    kind, target = case

    def f(a, b=1) -> int:
        "docf"

    class C:
        "docc"

        def __init__(self, a):
            pass

        def __call__(self, a):
            "docm"
    import functools
    src = {'fun': f, 'class': C, 'obj': C(1), 'partial': functools.partial(f, 1), 'lambda': lambda q: q, 'method': C(1).__call__, 'builtin': len}[kind]
    if target == 'fun':
        def t(*args, **kwargs):
            pass
    elif target == 'class':
        class t:
            pass
    r = wraps(src)(t)
    require(r is t, 'wraps returned something else')
    for attr in ('__name__', '__doc__', '__module__'):
        if hasattr(src, attr) and (attr != '__module__' or isinstance(src.__module__, str)):
            require(getattr(t, attr) == getattr(src, attr), 'wraps: %s is %s', attr, getattr(t, attr))
    require(t.__wrapped__ is src or target == 'class' and t.__dict__.get('__wrapped__') is src or kind == 'method' and t.__wrapped__ == src, 'wraps: __wrapped__')
    import inspect
    require(str(inspect.signature(t)) == str(inspect.signature(src)), 'wraps: signature %s', inspect.signature(t))


def check_queue_iterator(case):
    q = queue.Queue()
    content, add = case
    for v in content:
        q.put(v)
    out = []
    for v in queue_iterator(q):
        out.append(v)
        if add and len(out) == 1:
            q.put('late')
    require(out == list(content) + (['late'] if add and content else []) and q.empty(), 'queue_iterator gave %s', out)


FALSY = [None, 0, False, '', (), [], {}, 0.0, b'', 1]


def check_falsy(case):
    """values that are false are values like any other, however they are passed on"""
    i, style = case
    v = FALSY[i]

    def fun(a, b=v):
        return [a, b]

    def call(deco):
        return outcome(deco, v) if style == 'positional' else outcome(deco, a=v) if style == 'keyword' else outcome(deco, 7) if style == 'default' \
            else outcome(deco, v, v)
    # what the second argument is, and was it passed
    a = 7 if style == 'default' else v
    for form in range(4):
        seen = []

        def op(q):
            seen.append(q)
            return ('op', q)
        deco = [for_argument(op, op), for_argument(op), for_argument(a=op), for_argument(b=op)][form](fun)
        kind, got = call(deco)
        want = [('op', a) if form in (0, 1, 2) else a, ('op', v) if form in (0, 3) else v]
        require(kind == 'value' and got == want and [type(q) for q in seen] == [type(q[1]) for q in got if isinstance(q, tuple) and q[:1] == ('op',)],
                'for_argument form %s, %s of %r: %s', form, style, v, got)
    for ops in ((), (None,)):
        kind, got = call(for_argument(*ops, returns=lambda q: ('r', q))(lambda a, b=v: v))
        require(kind == 'value' and got == ('r', v), 'for_argument(returns) of %r: %s', v, got)
    for ok in (True, False):
        seen = []

        def cond(q):
            seen.append(q)
            return ok
        for deco, checked in (precondition(cond)(fun), True), (precondition(a=cond)(fun), True), (precondition(None, cond)(fun), style == 'both'), \
                (precondition(b=cond)(fun), style == 'both'):
            del seen[:]
            if not checked:
                continue
            kind, got = call(deco)
            require(isinstance(got, PreconditionError) if not ok else (kind == 'value' and got == [a, v]), 'precondition on %r (%s): %s', v, style, got)
            require(len(seen) == 1 and type(seen[0]) is type(a) and seen[0] == a, 'precondition on %r was asked about %s', v, seen)
        kind, got = call(postcondition(cond)(lambda a, b=None: v))
        require(isinstance(got, PreconditionError) if not ok else (kind == 'value' and got is v), 'postcondition on %r: %s', v, got)
    kind, got = call(transform_arguments(a='(a, 1)')(fun))
    require(kind == 'value' and got == [(a, 1), v], 'transform_arguments on %r: %s', v, got)
    kind, got = call(transform_arguments(b='a')(fun))
    require(kind == 'value' and got == [a, a], 'transform_arguments of b on %r: %s', v, got)
    kind, got = call(transform_result('(x, a, b)')(lambda a, b=v: v))
    require(kind == 'value' and got == (v, a, v), 'transform_result on %r: %s', v, got)
    kind, got = call(replace_argument_if('a', [_R], predicate=lambda q: q != 7)(fun))
    require(kind == 'value' and got == [a if style == 'default' else [('r', a)], v], 'replace_argument_if(predicate) on %r: %s', v, got)
    kind, got = call(replace_argument_if('a', [_R], instance_of=type(a))(fun))
    require(kind == 'value' and got == [[('r', a)], v], 'replace_argument_if(instance_of) on %r: %s', v, got)
    kind, got = outcome(attach_arguments(v, k=v)(lambda *q, **k: (q, k)), v)
    require(kind == 'value' and got == ((v, v), {'k': v}), 'attach_arguments of %r: %s', v, got)
    for deep in (False, True):
        kind, got = call(copy_arguments(deep)(fun))
        require(kind == 'value' and got == [a, v], 'copy_arguments of %r: %s', v, got)
    require(chain_callables(lambda: v, lambda q: [q])() == [v], 'chain_callables handing over %r', v)
    require(get_arguments(fun, v) == {'a': v, 'b': v} and call_with_arguments(fun, {'a': v, 'b': v}) == [v, v]
            and call_with_arguments(fun, {'a': v}) == [v, v], 'get_arguments of %r', v)


def check_misc(case):
    n, = case
    import enum

    class En(enum.Enum):
        A = n
    require(enum_value(En.A) == n and enum_value(n) == n, 'enum_value')
    require(length(iter([0] * n)) == length(i % 2 or None for i in range(n)) == n, 'length of repeated elements')
    require(length([0] * n) == n and length(i for i in range(n)) == n and length({i: 1 for i in range(n)}) == n, 'length')


def check_contains(case):
    """contains() against a loop with =="""
    n, needle, kind = case
    from satella.coding import contains

    class Eq:
        def __init__(self, v):
            self.v = v

        def __eq__(self, other):
            return self.v == (other.v if isinstance(other, Eq) else other)
    nan = float('nan')
    pool = [1, 'a', None, nan, Eq(2), Eq('a')]
    hay = [pool[i] for i in n]
    needle = pool[needle]
    want = False
    for e in hay:
        if needle == e:
            want = True
    got = contains(needle, {'list': list, 'tuple': tuple, 'iter': iter, 'gen': lambda q: (v for v in q)}[kind](hay))
    require(got is want, 'contains(%r, %r) is %r', needle, hay, got)


def check_deprecated(case):
    """old names do what new ones do"""
    present, value, positional = case
    from satella.coding.misc import update_if_not_none, update_key_if_none
    for fun in (update_if_not_none, update_key_if_none, update_key_if_not_none):
        d = {'k': 'old', 'z': 1} if present else {'z': 1}
        want = dict(d)
        if value is not None:
            want['k'] = value
        require(fun(d, 'k', value) is d and d == want, '%s(%r) gave %s', fun.__name__, value, d)


def check_has_keys(case):
    keys, there = case
    from satella.coding.decorators import has_keys, precondition
    d = {k: None for k in there}
    missing = [k for k in keys if k not in d]
    ran = []

    @precondition(has_keys(list(keys)))
    def fun(dictionary):
        ran.append(1)
        return dictionary
    try:
        got = fun(d)
    except PreconditionError as e:
        require(missing and any(k in str(e) for k in missing) and not ran, 'raised %s with %s missing', e, missing)
        return
    require(not missing and got is d and ran == [1], 'accepted with %s missing', missing)


def check_chain_error(case):
    """an error of the second callable is not mistaken for it taking no arguments"""
    which, = case
    calls = []

    def second(v):
        calls.append(v)
        if which == 'type':
            raise TypeError('an error of its own')
        elif which == 'inner':
            (lambda q: q)()         # lacks an argument
        elif which == 'value':
            raise ValueError('x')
        elif which == 'no-args':
            raise TypeError('unsupported operand')
        return v
    kind, got = outcome(chain_callables(lambda *a: 5, second), 1)
    require(kind == 'raise' if which != 'none' else (kind, got) == ('value', 5), '%s gave %s %s', which, kind, got)
    require(calls == [5], 'called with %s', calls)


def jobs(tier):
    big = tier == 'thorough'
    sigs = list(signatures(4 if big else 3))
    out = [EnumJob('bind', lambda: sigs, check_bind, shards=4),
           EnumJob('for_argument', lambda: sigs, check_for_argument, shards=16),
           EnumJob('conditions', lambda: sigs, check_conditions, shards=16),
           EnumJob('transform', lambda: sigs, check_transform, shards=8),
           EnumJob('pass', lambda: sigs, check_pass, shards=4),
           EnumJob('values', lambda: [(i,) for i in range(len(VALUES))], check_values),
           EnumJob('falsy', lambda: itertools.product(range(len(FALSY)), ('positional', 'keyword', 'default', 'both')), check_falsy),
           EnumJob('exceptions', lambda: itertools.product(range(22), range(8)), check_exceptions),
           EnumJob('on-exception', lambda: itertools.product((MyErr, ValueError, (KeyError, ValueError), KeyError, Exception), (None, MyErr, KeyError, OSError),
                                                             ((), (1, 2)), ({}, {'k': 1})), check_cmoe),
           EnumJob('loops', lambda: [(st, sc + (False,), f) for st in ('method', 'method-x', 'function') for n in range(5) for sc in [(True,) * n]
                                     for f in range(5)], check_loop),
           EnumJob('repeat', lambda: [(n,) for n in range(1, 6)], check_repeat),
           EnumJob('queue_get', lambda: itertools.product((True, False), ('default', None, 0, 5), (None, EmptyA, (EmptyA, EmptyB)), (queue.Empty, EmptyA, EmptyB),
                                                          (True, False), (None, 'name', 'callable'), ((), (1,), (None, 0), ('a', 'b', 'c')), ('plain', 'nested-empty')),
                   check_queue_get, shards=4),
           EnumJob('copies', lambda: itertools.product((False, True), range(3), ((), ('a',), ('a', 'b'))), check_copies),
           EnumJob('adapt', lambda: [(0,), (5,)], check_adapt),
           EnumJob('wraps', lambda: itertools.product(('fun', 'class', 'obj', 'partial', 'lambda', 'method', 'builtin'), ('fun', 'class')), check_wraps),
           EnumJob('queue_iterator', lambda: itertools.product(((), (1,), (None, 0, 1)), (False, True)), check_queue_iterator),
           EnumJob('contains', lambda: itertools.product([n for k in range(4) for n in itertools.product(range(6), repeat=k)], range(6), ('list', 'tuple', 'iter', 'gen')), check_contains),
           EnumJob('deprecated', lambda: itertools.product((False, True), (None, 0, '', 'v', [], False), (False, True)), check_deprecated),
           EnumJob('has_keys', lambda: itertools.product(*[[c for k in range(4) for c in itertools.combinations('abc', k)]] * 2), check_has_keys),
           EnumJob('chain-errors', lambda: [(w,) for w in ('none', 'type', 'inner', 'value', 'no-args')], check_chain_error),
           EnumJob('misc', lambda: [(i,) for i in range(5)], check_misc)]
    for unl in (None, 'u', 0):
        out.append(SeqJob('attributes-%s' % unl, lambda unl=unl: AttrCtx(unl), lambda c: attr_ops(), attr_apply, depth=8 if big else 6))
    return out
