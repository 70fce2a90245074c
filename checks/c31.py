"""
C31: nestings of the exception helpers, as decorators and context managers, over a small exception hierarchy, compared with a reference
evaluation of the same nesting; recursive programs through one helper; two threads through one helper under all bounded interleavings.
"""
import itertools
import warnings

from mc.jobs import EnumJob, SchedJob
from mc.sched import require, Violation, par, pick, pause
from satella.coding import (silence_excs, rethrow_as, reraise_as, log_exceptions, raises_exception, catch_exception, expect_exception)

warnings.simplefilter('ignore')


class E1(Exception):
    pass


class Aside(Exception):
    pass


class E1a(E1):
    pass


class E1b(E1a):
    pass


class E2(Aside, E1b):        # a distant subclass
    pass


class E3(Exception):
    pass


class E4(Exception):
    pass


class B(BaseException):
    pass


KINDS = {'1': E1, '2': E2, '3': E3, 'B': B}


class Logger:
    def __init__(self):
        self.records = []

    def log(self, severity, msg, *args, exc_info=None, **kw):
        require(not args, 'log arguments %s', args)
        self.records.append((severity, msg, exc_info))


class H:
    """a helper: make(env) -> decorator/context manager; ref(exc, deco) -> ('through',) | ('value', v) | ('raise', type, args, cause?)"""

    def __init__(self, name, make, ref, styles='dc', logs=None):
        self.name, self.make, self.ref, self.styles, self.logs = name, make, ref, styles, logs

    def __repr__(self):
        return self.name


def mapping(*pairs, value=None, prep=repr):
    def ref(e):
        if e is None:
            return ('through',)
        for frm, to in pairs:
            if isinstance(e, frm):
                return ('value', value() if callable(value) else value) if to is None else ('raise', to, (prep(e),), None)
        return ('through',)
    return ref


def rr(frm, to, *args):
    def ref(e):
        if e is None or not isinstance(e, frm):
            return ('through',)
        return ('value', None) if to is None else ('raise', to, args, e)
    return ref


def through(e):
    return ('through',)


def swallow(*types):
    return lambda e: ('value', None) if e is not None and isinstance(e, types) else ('through',)


def expecting(types):
    def ref(e):
        if e is None:
            return ('raise', E4, ('none',), None)
        return ('value', None) if isinstance(e, types) else ('through',)
    return ref


HELPERS = [
    H('silence1', lambda g: silence_excs(E1), mapping((E1, None))),
    H('silence2', lambda g: silence_excs(E2), mapping((E2, None))),
    H('silence13', lambda g: silence_excs(E1, E3), mapping(((E1, E3), None))),
    H('silence-value', lambda g: silence_excs(E1, returns=5), mapping((E1, None), value=5)),
    H('silence-zero', lambda g: silence_excs(E1, returns=0), mapping((E1, None), value=0)),
    H('silence-factory', lambda g: silence_excs(E1, E3, returns_factory=lambda: ['f']), mapping(((E1, E3), None), value=lambda: ['f'])),
    H('silence-base', lambda g: silence_excs(B), mapping((B, None))),
    H('silence-none', lambda g: silence_excs(), through),
    H('rethrow-2', lambda g: rethrow_as(E1, E4), mapping((E1, E4))),
    H('rethrow-tuple', lambda g: rethrow_as((E1, E4)), mapping((E1, E4))),
    H('rethrow-many', lambda g: rethrow_as((E2, E3), E4), mapping(((E2, E3), E4))),
    H('rethrow-prec-1', lambda g: rethrow_as((E1, E4), (E2, E3)), mapping((E1, E4), (E2, E3))),
    H('rethrow-prec-2', lambda g: rethrow_as((E2, E4), (E1, E3)), mapping((E2, E4), (E1, E3))),
    H('rethrow-prec-3', lambda g: rethrow_as((E2, None), (E1, E3), (E3, E4)), mapping((E2, None), (E1, E3), (E3, E4))),
    H('rethrow-nested', lambda g: rethrow_as(((E2, E3), E1), (E1, None)), mapping(((E2, E3), E1), (E1, None))),
    H('rethrow-same', lambda g: rethrow_as((E1, E2), (E3, E1)), mapping((E1, E2), (E3, E1))),
    H('rethrow-prep', lambda g: rethrow_as(E1, E3, exception_preprocessor=lambda e: 'p' + type(e).__name__),
      mapping((E1, E3), prep=lambda e: 'p' + type(e).__name__)),
    H('rethrow-value', lambda g: rethrow_as((E1, None), (E3, E1), returns=7), mapping((E1, None), (E3, E1), value=7)),
    H('rethrow-base', lambda g: rethrow_as(BaseException, E4), mapping((BaseException, E4))),
    H('reraise', lambda g: reraise_as(E1, E3, 'a', 2), rr(E1, E3, 'a', 2)),
    H('reraise-many', lambda g: reraise_as((E2, E3), E1), rr((E2, E3), E1)),
    H('reraise-silent', lambda g: reraise_as((E2, E3), None), rr((E2, E3), None)),
    H('reraise-base', lambda g: reraise_as(B, E1, 'x'), rr(B, E1, 'x')),
    H('log', lambda g: log_exceptions(g), through, logs=lambda e: isinstance(e, Exception) and (40, str(e))),
    H('log-2', lambda g: log_exceptions(g, 50, '{a} {e}', {'a': 'loc', 'e': 'no'}, E2), through, logs=lambda e: isinstance(e, E2) and (50, 'loc %s' % e)),
    H('log-swallow', lambda g: log_exceptions(g, exc_types=(E1, E3), swallow_exception=True), swallow(E1, E3),
      logs=lambda e: isinstance(e, (E1, E3)) and (40, str(e))),
    H('log-list', lambda g: log_exceptions(g, exc_types=[E2, E3]), through, logs=lambda e: isinstance(e, (E2, E3)) and (40, str(e))),
    H('log-format', lambda g: log_exceptions(g, format_string='{e!r} {args!r} {{x}}'), through,
      logs=lambda e: isinstance(e, Exception) and (40, '%r () {x}' % e)),
    H('log-base', lambda g: log_exceptions(g, exc_types=B, swallow_exception=True), swallow(B), logs=lambda e: isinstance(e, B) and (40, str(e))),
    H('log-all', lambda g: log_exceptions(g, exc_types=None), through, logs=lambda e: (40, str(e))),
    H('expect', lambda g: expect_exception(E1, E4, 'none'), expecting(E1), styles='c'),
    H('expect-many', lambda g: expect_exception((E2, E3, B), E4, 'none'), expecting((E2, E3, B)), styles='c'),
]


def nest_cases(depth, helpers):
    def cases():
        hs = [(h, st) for h in helpers for st in h.styles]
        for combo in itertools.product(hs, repeat=depth):
            for outcome in 'v123B':
                yield combo, outcome
    return cases


def wrap(h, style, logger, fun):
    obj = h.make(logger)
    if style == 'd':
        return obj(fun)

    def block():
        r = None
        with obj:
            r = fun()
        return r
    return block


def nest_check(case):
    combo, outcome = case
    logger = Logger()
    v = ['value']
    exc = None if outcome == 'v' else KINDS[outcome]('m')

    def fun():
        if exc is not None:
            raise exc
        return v

    want = ('v', v) if exc is None else ('e', exc)
    logs = []
    f = fun
    for h, st in combo:
        f = wrap(h, st, logger, f)
    for twice in range(2):
        logger.records.clear()
        try:
            got = ('v', f())
        except BaseException as e:
            if isinstance(e, Violation):
                raise
            got = ('e', e)
        want, logs = ('v', v) if exc is None else ('e', exc), []
        verify = got[1] if got[0] == 'e' else None
        expected_chain = []
        for h, st in combo:
            e = want[1] if want[0] == 'e' else None
            if h.logs and e is not None:
                l = h.logs(e if isinstance(e, BaseException) else e[0](*e[1]))
                if l:
                    logs.append(l)
            ee = e if e is None or isinstance(e, BaseException) else e[0](*e[1])
            r = h.ref(ee)
            if r[0] == 'value':
                want = ('v', r[1] if st == 'd' else None)
            elif r[0] == 'raise':
                want = ('e', r[1:])
        if want[0] == 'v':
            require(got[0] == 'v' and got[1] == want[1] and type(got[1]) is type(want[1]), '%s: got %s, expected %s', case, got, want)
        elif isinstance(want[1], BaseException):
            require(got[0] == 'e' and got[1] is want[1], '%s: got %s, expected the very exception %r', case, got, want[1])
        else:
            t, args, cause = want[1]
            require(got[0] == 'e' and type(got[1]) is t and got[1].args == args, '%s: got %s, expected %s%s', case, got, t, args)
            if cause is not None:
                require(type(got[1].__cause__) is type(cause), '%s: cause is %r, not %r', case, got[1].__cause__, cause)
        require([(s, m) for s, m, _ in logger.records] == logs, '%s: logged %s, expected %s', case, logger.records, logs)
        if len(combo) == 1:
            for _, _, e in logger.records:
                require(e is exc, 'logged about %r', e)


# ------------------------------------------------------------------ recursion through one helper
def progs(depth, width, outcomes='v12B'):
    for o in outcomes:
        yield (), o
    if depth:
        sub = list(progs(depth - 1, width, outcomes))
        for k in range(1, width + 1):
            for c in itertools.product([(s, g) for s in sub for g in (False, True)], repeat=k):
                for o in outcomes:
                    yield c, o


def recursion_cases(depth, width, outcomes):
    def cases():
        for i, h in enumerate(HELPERS):
            if h.name in ('silence-value', 'rethrow-prec-1', 'rethrow-prec-3', 'rethrow-value', 'reraise', 'log-swallow', 'silence1', 'reraise-silent',
                          'silence-factory'):
                for st in h.styles:
                    for p in progs(depth, width, outcomes):
                        yield i, st, p
    return cases


def ref_run(h, st, p, log):
    subs, o = p
    out = None
    for s, guarded in subs:
        r = ref_run(h, st, s, log)
        if r[0] == 'e' and not guarded:
            out = r
            break
        log.append(r if r[0] == 'v' else ('e', r[1], r[2]))
    if out is None:
        out = ('v', 'val') if o == 'v' else ('e', KINDS[o], ('m',))
    e = None if out[0] == 'v' else out[1](*out[2])
    r = h.ref(e)
    if r[0] == 'value':
        return ('v', r[1] if st == 'd' else None)
    if r[0] == 'raise':
        return ('e', r[1], r[2])
    return out


def recursion_check(case):
    i, st, prog = case
    h = HELPERS[i]
    obj = h.make(Logger())
    log = []

    def body(p):
        subs, o = p
        for s, guarded in subs:
            try:
                log.append(('v', f(s)))
            except BaseException as e:
                if not guarded or isinstance(e, Violation):
                    raise
                log.append(('e', type(e), e.args))
        if o == 'v':
            return 'val'
        raise KINDS[o]('m')

    if st == 'd':
        f = obj(body)
    else:
        def f(p):
            r = None
            with obj:
                r = body(p)
            return r
    want_log = []
    want = ref_run(h, st, prog, want_log)
    try:
        got = ('v', f(prog))
    except BaseException as e:
        got = ('e', type(e), e.args)
    require(got == want, '%s as %s running %s ended with %s, expected %s', h, st, prog, got, want)
    require(log == want_log, '%s as %s running %s saw %s, expected %s', h, st, prog, log, want_log)


# ------------------------------------------------------------------ two threads through one helper
def threads(i, st):
    def body():
        h = HELPERS[i]
        g = Logger()
        obj = h.make(g)
        outs = pick([('v', '1'), ('1', 'v'), ('1', '3'), ('v', 'v'), ('2', '1')])

        def one(k, o):
            def base():
                pause()
                if o == 'v':
                    return 'val%s' % k
                raise KINDS[o]('m%s' % k)
            if st == 'c':
                def f():
                    r = None
                    with obj:
                        r = base()
                    return r
                return f
            return base
        fs = [one(k, o) for k, o in enumerate(outs)]
        if st == 'd':
            # one decorated function for both
            shared = obj(lambda k: fs[k]())
            fs2 = [lambda k=k: shared(k) for k in range(2)]
        else:
            fs2 = fs
        rs = par(*fs2)
        for k, (o, r) in enumerate(zip(outs, rs)):
            e = None if o == 'v' else KINDS[o]('m%s' % k)
            w = h.ref(e)
            if w[0] == 'value':
                want = ('ok', w[1] if st == 'd' else None)
            elif w[0] == 'raise':
                want = ('exc', w[1], w[2])
            else:
                want = ('ok', 'val%s' % k) if e is None else ('exc', type(e), e.args)
            got = r if r[0] == 'ok' else ('exc', type(r[1]), r[1].args)
            require(got == want, 'thread %s of %s (%s as %s) got %s, expected %s', k, outs, h, st, got, want)
        return outs
    return body


# ------------------------------------------------------------------ generators, functions
def gen_cases():
    for n in range(3):
        for outcome in 'v123B':
            for types in (E1, (E2, E3), Exception, B):
                for swallow_ in (False, True):
                    for how in ('next', 'send', 'throw', 'close'):
                        yield n, outcome, types, swallow_, how


def gen_check(case):
    n, outcome, types, swallow_, how = case
    g = Logger()
    sent = []

    @log_exceptions(g, exc_types=types, swallow_exception=swallow_, format_string='{e} {args} {kwargs}')
    def gen(a, *, b):
        for i in range(n):
            sent.append((yield a + b + i))
        if outcome != 'v':
            raise KINDS[outcome]('m')
        return 'ret'

    it = gen(10, b=20)
    out, end = [], None
    thrown = KINDS[outcome]('t') if outcome != 'v' else None
    try:
        x = next(it)
        out.append(x)
        if how == 'throw' and thrown:
            x = it.throw(thrown)
        elif how == 'close':
            it.close()
            end = 'closed'
        while end is None:
            x = it.send(x) if how == 'send' else next(it)
            out.append(x)
    except StopIteration as e:
        end = ('ret', e.value)
    except BaseException as e:
        end = e
    full = [30 + i for i in range(n)]
    fails = outcome != 'v'
    logged = fails and issubclass(KINDS[outcome], types)
    msg = 'm'
    if how in ('throw', 'close') and n:
        require(out == full[:1] or how == 'throw' and not thrown and out == full, 'yielded %s', out)
        msg = 't'
        if how == 'close':
            logged = fails = False
            require(end == 'closed', 'ended %r', end)
            require(not g.records, 'logged %s', g.records)
            return
        if not thrown:
            fails = False
    else:
        require(out == full, 'yielded %s, expected %s', out, full)
        if how == 'send':
            require(sent == full, 'received %s', sent)
    if not fails:
        require(end == ('ret', 'ret'), 'generator result became %r', end)
    elif logged and swallow_:
        require(end == ('ret', None), 'ended %r', end)
    else:
        require(type(end) is KINDS[outcome] and end.args == (msg,), 'ended %r', end)
    require([m for _, m, _ in g.records] == (["%s (10,) {'b': 20}" % msg] if logged else []), 'logged %s', g.records)


def fun_cases():
    for outcome in 'v123B':
        for types in (E1, E2, (E2, E3), (E1, B)):
            for instead in (None, 0, 'i'):
                for value in (False, True):
                    for ret in ('r', None):
                        yield outcome, types, instead, value, ret


def fun_check(case):
    outcome, types, instead, value, ret = case
    exc = None if outcome == 'v' else KINDS[outcome]('m')
    calls = []

    def fun():
        calls.append(1)
        if exc is not None:
            raise exc
        return ret
    try:
        r = raises_exception(types, fun)
    except BaseException as e:
        r = e
    want = False if exc is None else True if isinstance(exc, types) else exc
    require(r is want, 'raises_exception gave %r, expected %r', r, want)
    calls.clear()
    try:
        r = catch_exception(types, fun, instead, value)
    except ValueError as e:
        r = 'error'
    except BaseException as e:
        r = ('raised', e)
    if exc is not None:
        want = exc if isinstance(exc, types) else ('raised', exc)
        require(r is want or r == want, 'catch_exception gave %r, expected %r', r, want)
    elif instead is None:
        require(r == (ret if value else 'error'), 'catch_exception gave %r', r)
    else:
        require(r == instead, 'catch_exception gave %r instead of %r', r, instead)
    require(calls == [1], 'called %s times', len(calls))
    for cls in (silence_excs, rethrow_as):
        try:
            cls(E1, *(() if cls is silence_excs else (E3,)), returns=1, returns_factory=lambda: 2)
        except ValueError:
            continue
        require(False, '%s accepted both values', cls)


def args_cases():
    for h in HELPERS:
        if 'd' in h.styles:
            yield h.name


def args_check(name):
    h, = [x for x in HELPERS if x.name == name]

    def original(a, b=2, *c, d, **e):
        """doc"""
        return a, b, c, d, e
    f = h.make(Logger())(original)
    require(f(1, d=4) == (1, 2, (), 4, {}) and f(1, 2, 3, 4, d=5, x=6) == (1, 2, (3, 4), 5, {'x': 6}), 'arguments changed')
    require(f.__name__ == 'original' and f.__doc__ == 'doc', 'identity lost')

    class A:
        @h.make(Logger())
        def meth(self, x):
            return self, x
    a = A()
    require(a.meth(3) == (a, 3), 'method arguments')


def jobs(tier):
    t = tier == 'thorough'
    out = [EnumJob('nest-1', nest_cases(1, HELPERS), nest_check), EnumJob('nest-2', nest_cases(2, HELPERS), nest_check, shards=4),
           EnumJob('recursion', recursion_cases(2, 1, 'v12B'), recursion_check, shards=2),
           EnumJob('recursion-wide', recursion_cases(1, 2, 'v1B'), recursion_check, shards=2),
           EnumJob('generators', gen_cases, gen_check), EnumJob('functions', fun_cases, fun_check), EnumJob('arguments', args_cases, args_check)]
    if t:
        out.append(EnumJob('recursion-deep', recursion_cases(3, 1, 'v1B'), recursion_check, shards=8))
        out.append(EnumJob('nest-3', nest_cases(3, HELPERS[::2]), nest_check, shards=16))
    for i, h in enumerate(HELPERS):
        if h.name in ('silence-value', 'silence-factory', 'rethrow-prec-1', 'rethrow-value', 'reraise', 'log-swallow', 'reraise-silent'):
            for st in 'dc':
                out.append(SchedJob('threads-%s-%s' % (h.name, st), threads(i, st), bound=3 if t else 2, only=['recast_exceptions']))
    return out
