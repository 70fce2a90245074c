"""
C38: every short history of next/send/throw/close/delete over small generators behind each wrapper, compared with the bare generator;
histories of closeable objects; callables in context managers.
"""
import gc
import itertools
import operator
import typing as tp
import warnings

from mc.jobs import EnumJob
from mc.sched import require
from satella.coding import Closeable, EmptyContextManager, wrap_callable_in_context_manager, static_var
from satella.coding.generators import run_when_generator_completes, RunActionAfterGeneratorCompletes
from satella.coding.iterators import SelfClosingGenerator, hint_with_length

warnings.simplefilter('ignore')


class Err(Exception):
    pass


class Err2(Exception):
    pass


# generators: each writes what it goes through to the log
def g_empty(log):
    log.append('start')
    return 'ret'
    yield


def g_two(log):
    log.append('start')
    v = yield 1
    log.append(v)
    v = yield 2
    log.append(v)
    log.append('end')
    return ('ret', v)


def g_catch(log):
    log.append('start')
    for i in range(3):
        try:
            v = yield i
            log.append(v)
        except Err as e:
            log.append('caught')
            if i == 1:
                return 'by error'
    log.append('end')


def g_convert(log):
    try:
        v = yield 'a'
        log.append(v)
        yield 'b'
    except Err:
        raise Err2('own')
    finally:
        log.append('finally')


def g_fail(log):
    yield 1
    log.append('failing')
    raise Err('own')


def g_typeerror(log):
    yield 1
    log.append('failing')
    raise TypeError('own')


def g_stubborn(log):
    for i in range(2):
        try:
            yield i
        except GeneratorExit:
            log.append('exit')
            raise
    log.append('end')


GENS = [g_empty, g_two, g_catch, g_convert, g_fail, g_typeerror, g_stubborn]


def step(it, op):
    try:
        if op == 'next':
            return 'value', next(it)
        elif op == 'send-none':
            return 'value', it.send(None)
        elif op == 'send':
            return 'value', it.send('S')
        elif op == 'throw':
            return 'value', it.throw(Err, Err('thrown'))
        elif op == 'throw1':
            return 'value', it.throw(Err('thrown'))
        elif op == 'method-next':
            return 'value', it.next()
        elif op == 'close':
            return 'value', it.close()
        elif op == 'iterate':
            return 'value', list(it)
        elif op == 'delegate':
            def outer():
                r = yield from it
                yield ('result', r)
            return 'value', list(outer())
    except StopIteration as e:
        return 'stop', e.value
    except Exception as e:
        return type(e).__name__, e.args


def bare_step(it, op):
    return step(it, 'next' if op == 'method-next' else op)


OPS = ['next', 'send-none', 'send', 'throw', 'throw1', 'close', 'iterate', 'delegate', 'method-next']


def check_action(case):
    gi, ops, failing = case
    glog, wlog, calls = [], [], []
    bare = GENS[gi](glog)

    def action(*a, **k):
        calls.append((a, k))
        if failing:
            raise Err2('action')
    wrapped = run_when_generator_completes(GENS[gi](wlog), action, 1, k=2)
    require(isinstance(wrapped, tp.Generator) and isinstance(wrapped, RunActionAfterGeneratorCompletes) and iter(wrapped) is wrapped, 'kind of the wrapper')
    done = closed = failed = False
    for op in ops:
        want = bare_step(bare, op)
        was = done
        if not closed and not failed:
            if want[0] == 'stop' or op in ('iterate', 'delegate') and want[0] == 'value':
                done = True
            elif want[0] not in ('value',) and bare.gi_frame is None:
                failed = True       # ended by an exception, whether that counts as completion is not claimed any more
        if op == 'close':
            closed = True
        got = step(wrapped, op)
        if failed:
            return
        if done and not was and failing:
            require(got == ('Err2', ('action',)), '%s: exception of the action came as %s', op, got)
        else:
            require(got == want, '%s after %s: gave %s, the generator alone %s', op, ops, got, want)
        require(glog == wlog, '%s: generator ran as %s, alone as %s', ops, wlog, glog)
        require(calls == ([((1,), {'k': 2})] if done else []), '%s up to %s: the action ran %s, completed: %s', ops, op, calls, done)


SC_OPS = ['next', 'send-none', 'send', 'close', 'iterate', 'delegate-next']


def check_selfclosing(case):
    gi, ops, style, end = case
    glog, wlog = [], []
    bare = GENS[gi](glog)
    if style == 'function':
        w = SelfClosingGenerator(GENS[gi])(wlog)
    elif style == 'generator':
        w = SelfClosingGenerator(GENS[gi](wlog))
    else:
        w = SelfClosingGenerator(OnlyNext)(GENS[gi](wlog))
    ended = False
    require(iter(w) is w, 'iter')
    for op in ops:
        if style == 'class' and op.startswith('send'):
            continue
        if op == 'close':
            want = step(bare, 'iterate') if not ended else ('value', None)
            got = step(w, 'close')
            if want[0] == 'value':
                want = 'value', None
            ended = True
        elif op == 'delegate-next':
            want = step(bare, 'next')

            def outer():
                for v in w:
                    yield v
            it = outer()
            got = step(it, 'next')
            if got[0] == 'stop':
                got = 'stop', want[1]
            it.close()
            del it, outer       # a closed generator of CPython 3.12 still refers to what it iterated over
        else:
            want = step(bare, op)
            got = step(w, op)
        require(got == want, '%s in %s: gave %s, generator alone %s', op, ops, got, want)
        require(glog == wlog, '%s: ran as %s, alone as %s', ops, wlog, glog)
    if end == 'none':
        return
    rest = step(bare, 'iterate')
    if end == 'del':
        if rest[0] != 'value':
            rest = None         # exceptions in destructors go to the interpreter's hook
            import sys
            old, sys.unraisablehook = sys.unraisablehook, lambda a: None
            try:
                del w
                gc.collect()
            finally:
                sys.unraisablehook = old
        else:
            del w
            gc.collect()
    elif end == 'with':
        try:
            with w as q:
                require(q is w, 'context manager gives %s', q)
        except Exception as e:
            require((type(e).__name__, e.args) == rest, 'leaving the context raised %s, generator alone %s', repr(e), rest)
        else:
            require(rest[0] == 'value', 'leaving the context did not raise %s', rest)
    elif end == 'with-raise':
        try:
            with w:
                raise KeyError('k')
        except KeyError as e:
            require(e.args == ('k',) and rest[0] == 'value', 'exception of the block replaced the one of the generator')
        except Exception as e:
            require((type(e).__name__, e.args) == rest, 'leaving the context raised %s, generator alone %s', repr(e), rest)
        else:
            require(False, 'exception in the block was swallowed')
    require(glog == wlog, '%s then %s: generator ran as %s, alone as %s', ops, end, wlog, glog)


class OnlyNext:
    """an iterator without close()"""

    def __init__(self, gen):
        self.gen = gen

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.gen)


HINTS = [('pos', lambda g: hint_with_length(g, 5), 5), ('kw', lambda g: hint_with_length(g, length=0), 0),
         ('factory', lambda g: hint_with_length(g, length_factory=lambda: 7), 7), ('factory-pos', lambda g: hint_with_length(g, None, lambda: 8), 8)]


def check_hint(case):
    gi, ops, hi, style = case
    glog, wlog = [], []
    bare = GENS[gi](glog)
    name, make, hint = HINTS[hi]
    w = make(GENS[gi])(wlog) if style == 'function' else make(GENS[gi](wlog))
    require(operator.length_hint(w) == hint, '%s: length hint is %s', name, operator.length_hint(w))
    for op in ops:
        want, got = step(bare, op), step(w, op)
        require(got == want, '%s in %s: gave %s, generator alone %s', op, ops, got, want)
        require(glog == wlog, '%s: ran as %s, alone as %s', ops, wlog, glog)
    require(operator.length_hint(w) == hint, 'length hint changed')


def check_many(case):
    # one decorated generator function makes independent generators
    wrapper, hows = case
    log = []

    def numbers(tag, n):
        for i in range(n):
            yield tag, i
        log.append(tag)
    lengths = [3]
    f = SelfClosingGenerator(numbers) if wrapper == 'closing' else hint_with_length(numbers, length_factory=lambda: lengths[0])
    gens, left = [], []
    for how in hows:
        if how == 'new':
            gens.append(f(len(gens), 2))
            left.append(0)
        elif gens:
            k = 0 if how == 'first' else len(gens) - 1
            want = (k, left[k]) if left[k] < 2 else 'end'
            got = next(gens[k], 'end')
            require(got == want, '%s of %s in %s gave %s, should be %s', wrapper, k, hows, got, want)
            left[k] += 1
        if wrapper == 'hint':
            lengths[0] += 1
            for g in gens:
                require(operator.length_hint(g) == lengths[0], 'the length hint is %s, the factory says %s', operator.length_hint(g), lengths[0])
    for k, g in enumerate(gens):
        if wrapper == 'closing':
            g.close()
            require(log.count(k) == 1, 'closed generator %s ended %s times', k, log.count(k))


def check_hint_errors(case):
    for f in (lambda: hint_with_length(g_two), lambda: hint_with_length(g_two, None), lambda: hint_with_length(g_two, 5, lambda: 5),
              lambda: hint_with_length(g_two, length=0, length_factory=lambda: 5)):
        try:
            f()
        except ValueError:
            pass
        else:
            require(False, 'neither or both of lengths accepted')


# ------------------------------------------------------------------ Closeable
class Res(Closeable):
    def __init__(self, log, fail_init=False, fail_close=0):
        self.log = log
        self.fail_close = fail_close
        if fail_init:
            raise Err('init')
        super().__init__()

    def close(self):
        if super().close():
            self.log.append('cleaned')
            if self.fail_close:
                self.fail_close -= 1
                raise Err('close')
            return True
        return False


class SubRes(Res):
    def __init__(self, *a):
        super().__init__(*a)
        self.inner = []

    def close(self):
        if super().close():
            self.log.append('sub')


def check_closeable(case):
    cls, ops, fail_close = case
    log = []
    o = cls(log, False, fail_close)
    closed = False

    def cleanup(f):
        nonlocal closed
        want_raise = fail_close and not closed
        try:
            f()
        except Err:
            require(want_raise, 'closing raised')
        else:
            require(not want_raise, 'exception of the cleanup was lost')
        closed = True

    def with_():
        with o as q:
            require(q is o and o.closed == closed, 'context manager')

    def with_raise():
        try:
            with o:
                raise KeyError('k')
        except KeyError:
            pass
        else:
            require(False, 'exception in the block was swallowed')
    for op in ops:
        require(o.closed is closed, 'closed is %s', o.closed)
        cleanup({'close': o.close, 'with': with_, 'with-raise': with_raise}[op])
        require(o.closed is True, 'not closed after %s', op)
        require(log.count('cleaned') == 1, 'cleaned up %s times', log.count('cleaned'))
        require(cls is Res or fail_close or log.count('sub') == 1, 'derived cleanup ran %s times', log.count('sub'))
    import sys
    old, sys.unraisablehook = sys.unraisablehook, lambda a: None
    try:
        del o
        with_ = with_raise = None
        gc.collect()
    finally:
        sys.unraisablehook = old
    require(log.count('cleaned') == 1, 'after destruction cleaned up %s times', log.count('cleaned'))


def check_uninitialized(case):
    cls, = case
    log = []
    try:
        cls(log, True)
    except Err:
        pass
    gc.collect()
    require(log == [], 'cleanup of an object which was not initialized: %s', log)
    o = cls.__new__(cls)
    o.log = log
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        require(o.closed is True, 'uninitialized object is not closed')
        require(len(w) == 1, 'no warning')
    o.close()
    o.close()
    require(log == [], 'cleanup of an object which was not initialized: %s', log)


# ------------------------------------------------------------------ context managers
def check_ctxt(case):
    outcomes, fail_enter = case
    log = []

    class Mgr:
        def __init__(self, *a, **k):
            log.append(('new', a, k))

        def __enter__(self):
            if fail_enter:
                raise Err2('enter')
            log.append('enter')

        def __exit__(self, t, v, tb):
            log.append(('exit', t))
            return swallow

    def fun(*a, **k):
        "doc"
        log.append(('run', a, k))
        if outcome == 'raise':
            raise Err('own')
        return 'res'
    swallow = False
    w = wrap_callable_in_context_manager(fun, Mgr, 1, k=2)
    require(w.__name__ == 'fun' and w.__doc__ == 'doc' and log == [], 'wrapping has run something: %s', log)
    for outcome in outcomes:
        swallow = outcome == 'swallow'
        if swallow:
            outcome = 'raise'
        del log[:]
        r = step(iter(lambda: w(5, q=6), object()), 'next')
        new = ('new', (1,), {'k': 2})
        if fail_enter:
            require(r == ('Err2', ('enter',)) and log == [new], 'failing __enter__: %s %s', r, log)
        elif outcome == 'raise':
            require(log == [new, 'enter', ('run', (5,), {'q': 6}), ('exit', Err)], 'ran as %s', log)
            require(r == (('value', None) if swallow else ('Err', ('own',))), 'result %s', r)
        else:
            require(log == [new, 'enter', ('run', (5,), {'q': 6}), ('exit', None)] and r == ('value', 'res'), 'ran as %s, result %s', log, r)


def check_empty(case):
    args, kw, exc = case
    m = EmptyContextManager(*args, **kw)
    for _ in range(2):
        try:
            with m as q:
                if exc:
                    raise Err('own')
        except Err:
            require(exc, 'raised')
        else:
            require(not exc, 'exception was swallowed')


def check_static(case):
    value, n = case

    @static_var('counter', value)
    @static_var('other')
    def f(a, b=2):
        f.counter = (f.counter, a)
        return f.other, a, b

    class C:
        @static_var('calls', 0)
        def m(self):
            C.m.calls += 1
            return C.m.calls
    require(f.counter == value and f.other is None and f.__name__ == 'f', 'starting value')
    want = value
    for i in range(n):
        require(f(i) == (None, i, 2), 'result')
        want = (want, i)
        require(f.counter == want, 'static variable is %s', f.counter)
        require(C().m() == i + 1, 'static variable of a method')


def jobs(tier):
    big = tier == 'thorough'
    depth = 5 if big else 4
    ng = range(len(GENS))

    def histories(ops, lo, hi):
        for k in range(lo, hi + 1):
            yield from itertools.product(ops, repeat=k)
    return [EnumJob('action', lambda: [(g, h, f) for g in ng for h in histories(OPS, 1, depth) for f in (False, True) if len(h) < 4 or not f], check_action, shards=16),
            EnumJob('self-closing', lambda: [(g, h, st, e) for g in ng for h in histories(SC_OPS, 0, depth - 1) for st in ('function', 'generator', 'class')
                                             for e in ('del', 'with', 'with-raise', 'none')], check_selfclosing, shards=16),
            EnumJob('hint', lambda: [(g, h, hi, st) for g in ng for h in histories(['next', 'send-none', 'send', 'close', 'iterate'], 0, 4 if big else 3)
                                     for hi in range(len(HINTS)) for st in ('function', 'generator')], check_hint, shards=8),
            EnumJob('many', lambda: [(w, h) for w in ('closing', 'hint') for h in histories(('new', 'first', 'last'), 1, 6)], check_many),
            EnumJob('hint-errors', lambda: [()], check_hint_errors),
            EnumJob('closeable', lambda: [(c, h, f) for c in (Res, SubRes) for h in histories(('close', 'with', 'with-raise'), 0, 3) for f in (0, 1)
                                          if not (f and 'with-raise' in h)], check_closeable),
            EnumJob('uninitialized', lambda: [(Res,), (SubRes,)], check_uninitialized),
            EnumJob('contexts', lambda: [(o, f) for n in range(1, 4) for o in itertools.product(('ok', 'raise', 'swallow'), repeat=n) for f in (False, True)], check_ctxt),
            EnumJob('empty', lambda: itertools.product(((), (1,), (1, 'a')), ({}, {'k': 1}), (False, True)), check_empty),
            EnumJob('static', lambda: itertools.product((None, 0, 'x', 5), range(4)), check_static)]
