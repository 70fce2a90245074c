"""
C05: Future, WrappingFuture, ExecutorWrapper, FutureCollection, call_in_future, run_as_future, call_in_separate_thread.
"""
import concurrent.futures as cf
import logging
from concurrent.futures import Executor, Future as PyFuture, ThreadPoolExecutor, CancelledError

from mc.jobs import SchedJob, SeqJob
from mc.sched import require, par, spawn, pause, pick, Violation, clock, advance
from satella.coding.concurrent import (FutureCollection, run_as_future, call_in_separate_thread)
from satella.coding.concurrent.futures import (Future, WrappingFuture, ExecutorWrapper, call_in_future, wrap_if,
                                               InvalidStateError)
from satella.exceptions import WouldWaitMore


class Boom(Exception):
    pass


def ok(rs):
    for k, v in rs:
        if k == 'exc':
            raise v
    return [v for k, v in rs]


def outcome_of(fn, *a):
    try:
        return 'ok', fn(*a)
    except Boom as e:
        return 'boom', e.args
    except CancelledError:
        return 'cancelled', None
    except (cf.TimeoutError, WouldWaitMore):
        return 'timeout', None


class Watch:
    """registers one callback of each kind and checks what they saw"""

    def __init__(self, fut):
        self.fut = fut
        self.seen = []

    def register(self, kinds=('done', 'succ', 'fail')):
        if 'done' in kinds:
            self.fut.add_done_callback(lambda f: self.seen.append(('done', outcome_of(f.result, 0))))
        if 'succ' in kinds:
            require(self.fut.on_success(lambda v: self.seen.append(('succ', ('ok', v)))) is self.fut, 'on_success result')
        if 'fail' in kinds:
            require(self.fut.on_failure(lambda e: self.seen.append(('fail', ('boom', e.args)))) is self.fut, 'on_failure')
        if 'chain' in kinds:
            self.fut.chain(lambda v: self.seen.append(('chain', v)))

    def check(self, out, kinds=('done', 'succ', 'fail')):
        want = []
        if 'done' in kinds:
            want.append(('done', out))
        if 'succ' in kinds and out[0] == 'ok':
            want.append(('succ', out))
        if 'fail' in kinds and out[0] == 'boom':
            want.append(('fail', out))
        seen = [s for s in self.seen if s[0] != 'chain']
        require(sorted(seen, key=repr) == sorted(want, key=repr), 'outcome %s, callbacks saw %s', out, seen)
        if 'chain' in kinds and out[0] != 'cancelled':
            ch = [v for k, v in self.seen if k == 'chain']
            require(len(ch) == 1, 'chained function called %s times', len(ch))
            require((out[0] == 'ok' and ch[0] == out[1]) or (out[0] == 'boom' and isinstance(ch[0], Boom)), 'chained %s', ch)


def resolve(f, how):
    """-> outcome this attempt claims, or None if refused"""
    try:
        if how == 'result':
            f.set_result(5)
            return 'ok', 5
        if how == 'none':
            f.set_result(None)
            return 'ok', None
        if how == 'exc':
            f.set_exception(Boom(1))
            return 'boom', (1,)
        if how == 'cancel':
            return ('cancelled', None) if f.cancel() else None
    except InvalidStateError:
        return None


def basic():
    """completion vs. registration vs. waiting"""
    f = Future()
    how = pick(['result', 'none', 'exc', 'cancel'])
    if how != 'cancel' and pick([0, 1]):
        require(f.set_running_or_notify_cancel() is True, 'not running')
    w = Watch(f)
    kinds = ('done', 'succ', 'fail', 'chain')

    def wait():
        return outcome_of(f.result)
    r = ok(par(lambda: resolve(f, how), lambda: w.register(kinds), wait))
    require(r[0] is not None, 'could not resolve')
    require(r[2] == r[0], 'waiter got %s, outcome is %s', r[2], r[0])
    w.check(r[0], kinds)
    require(outcome_of(f.result) == r[0] and outcome_of(f.result, 1) == r[0], 'outcome changed')
    require(f.done() and f.cancelled() == (how == 'cancel') and not f.running(), 'state flags')
    e = outcome_of(f.exception)
    if how == 'exc':
        require(e[0] == 'ok' and isinstance(e[1], Boom), 'exception() says %s', e)
    elif how == 'cancel':
        require(e[0] == 'cancelled', 'exception() says %s', e)
    else:
        require(e == ('ok', None), 'exception() says %s', e)
    w2 = Watch(f)
    w2.register()
    w2.check(r[0])
    for again in ('result', 'exc'):
        require(resolve(f, again) is None, 'resolved twice')
    require(outcome_of(f.result) == r[0], 'outcome changed')


def competing():
    """two threads resolve: one outcome wins, everybody sees it"""
    f = Future()
    a, b = pick([('result', 'exc'), ('result', 'cancel'), ('exc', 'cancel'), ('none', 'result'), ('cancel', 'cancel')])
    w = Watch(f)
    w.register()
    r = ok(par(lambda: resolve(f, a), lambda: resolve(f, b)))
    final = outcome_of(f.result, 0)
    won = [x for x in r if x is not None]
    require(won and all(x == final for x in won), 'claimed %s, outcome %s', r, final)
    if (a, b) != ('cancel', 'cancel'):
        require(len(won) == 1, 'both claimed success: %s', r)
    w.check(final)


def pre_done():
    """pre-done callbacks change the outcome before anybody sees it"""
    f = Future()
    f.set_running_or_notify_cancel()
    how = pick(['result', 'exc'])
    change = pick(['none', 'result', 'exc', 'raise', 'two', 'inspect'])
    order = []

    def pre(fut):
        order.append('pre')
        if change == 'result' or change == 'two':
            pause()
            fut.set_result(77)
        elif change == 'exc':
            pause()
            fut.set_exception(Boom(9))
        elif change == 'raise':
            raise KeyError('x')
        elif change == 'inspect':
            if how == 'result':
                require(fut.result() == 5, 'pre-done callback sees %s', fut.result())
                require(fut.exception() is None, 'pre-done callback sees an exception')
            else:
                require(isinstance(fut.exception(), Boom), 'pre-done callback sees no exception')

    def pre2(fut):
        order.append('pre2')
        if change == 'two':
            require(fut.result() == 77, 'second pre-done callback sees %s', fut.result())
            fut.set_result(78)
    f.add_pre_done_callback(pre)
    f.add_pre_done_callback(pre2)
    w = Watch(f)
    w.register()

    def wait():
        return outcome_of(f.result)

    def waite():
        e = f.exception()
        return None if e is None else e.args
    r = ok(par(lambda: resolve(f, how), wait, waite))
    want = {'result': ('ok', 77), 'two': ('ok', 78), 'exc': ('boom', (9,))}.get(
        change, ('ok', 5) if how == 'result' else ('boom', (1,)))
    require(r[1] == want, '%s then pre-done %s: waiter got %s', how, change, r[1])
    require(r[2] == (want[1] if want[0] == 'boom' else None), 'exception() gave %s', r[2])
    require(outcome_of(f.result) == want, 'outcome %s', outcome_of(f.result))
    w.check(want)
    require(order == ['pre', 'pre2'], 'pre-done callbacks: %s', order)


def pre_done_registration():
    """a pre-done callback registered at any moment is called, once; in time, if it was registered before the future was done"""
    f = Future()
    how = pick(['result', 'exc', 'cancel'])
    kind = pick(['pre', 'pre-pre', 'pre-done'])
    if how != 'cancel':
        f.set_running_or_notify_cancel()
    calls = []

    def register():
        before = f.done()
        f.add_pre_done_callback(lambda fut: calls.append(('a', fut.done())))
        return before

    def second():
        if kind == 'pre-pre':
            f.add_pre_done_callback(lambda fut: calls.append(('b', None)))
        elif kind == 'pre-done':
            f.add_done_callback(lambda fut: calls.append(('b', None)))
    ok(par(register, lambda: resolve(f, how) if how != 'cancel' else f.cancel(), *([second] if kind != 'pre' else [])))
    names = sorted(n for n, _ in calls)
    if how == 'cancel':         # pre-done callbacks are about results; those coming after the cancellation are called at once
        require(names.count('a') <= 1 and names.count('b') == 1 if kind == 'pre-done' else len(set(names)) == len(names), 'callbacks of a cancelled future: %s', calls)
    else:
        require(names == (['a'] if kind == 'pre' else ['a', 'b']), 'callbacks called: %s', calls)


def pre_done_late_setter():
    """somebody else setting the result while pre-done callbacks run is refused"""
    f = Future()
    f.set_running_or_notify_cancel()
    a, b = pick([('result', 'exc'), ('exc', 'none')])
    f.add_pre_done_callback(lambda fut: pause())
    w = Watch(f)
    w.register()
    r = ok(par(lambda: resolve(f, a), lambda: resolve(f, b)))
    won = [x for x in r if x is not None]
    require(len(won) == 1, 'both setters succeeded: %s', r)
    final = outcome_of(f.result)
    require(final == won[0], 'claimed %s, outcome %s', r, final)
    w.check(final)


def failing_callback():
    """a callback that raises does not stop the others"""
    f = Future()
    if pick(['before', 'after']) == 'after':
        # a callback added to a finished future runs at once, and its failure is nobody else's
        how = pick(['result', 'exc', 'cancel'])
        out = resolve(f, how)
        ran = []

        def bad2(x=None):
            ran.append(1)
            raise Boom('cb')
        for add in (f.add_done_callback, f.add_pre_done_callback, f.on_success, f.on_failure):
            try:
                add(bad2)
            except Boom:
                raise Violation('%s let the callback\'s exception out' % (add.__name__,))
        require(len(ran) == (2 if how == 'cancel' else 3), 'callbacks of a finished future ran %s times', len(ran))
        w = Watch(f)
        w.register()
        w.check(out)
        return
    log = []

    def bad(x):
        log.append('bad')
        raise Boom('cb')
    how = pick(['result', 'exc'])
    f.add_done_callback(bad)
    (f.on_success if how == 'result' else f.on_failure)(bad)
    w = Watch(f)
    w.register()
    out = resolve(f, how)
    w.check(out)
    require(log == ['bad', 'bad'], 'log %s', log)


# ------------------------------------------------------------------ wrapping
def wrapping():
    """wrap, complete the source and register/wait in every order"""
    src = PyFuture()
    stage = pick(['pending', 'running'])
    how = pick(['result', 'exc', 'none'] + (['cancel'] if stage == 'pending' else []))
    if stage == 'running':
        src.set_running_or_notify_cancel()

    def complete():
        if how == 'cancel':
            src.cancel()
            if pick([0, 1]):
                src.set_running_or_notify_cancel()
            return 'cancelled', None
        return resolve(src, how)

    def user():
        f = wrap_if(src)
        require(isinstance(f, Future) and wrap_if(f) is f, 'not wrapped')
        w = Watch(f)
        w.register()
        return f, w, outcome_of(f.result)
    r = ok(par(complete, user))
    f, w, got = r[1]
    require(got == r[0], 'waiter got %s, source %s', got, r[0])
    w.check(r[0])
    require(f.done() and not f.running() and f.cancelled() == (how == 'cancel'), 'flags')
    require(outcome_of(f.result, 0) == r[0], 'outcome changed')


def wrapping_cancel():
    """cancelling through the wrapper races with the source being started and completed"""
    src = PyFuture()
    f = WrappingFuture(src)
    w = Watch(f)
    w.register()

    def work():
        if src.set_running_or_notify_cancel():
            src.set_result(5)
            return True
        return False

    def cancel():
        return f.cancel()

    def wait():
        return outcome_of(f.result)
    r = ok(par(work, cancel, wait))
    want = ('cancelled', None) if r[1] else ('ok', 5)
    require(r[0] == (not r[1]), 'cancel() said %s, but the work %s', r[1], 'ran' if r[0] else 'did not run')
    require(r[2] == want, 'cancel() said %s, waiter got %s', r[1], r[2])
    require(outcome_of(f.result, 0) == want, 'final %s', outcome_of(f.result, 0))
    require(f.cancelled() == r[1] and f.done(), 'flags')
    w.check(want)


def wrapping_wait():
    """concurrent.futures.wait on wrapped futures"""
    src = PyFuture()
    f = WrappingFuture(src)
    how = pick(['result', 'exc', 'cancel', 'wcancel'])

    def complete():
        if how == 'wcancel':
            f.cancel()
            src.set_running_or_notify_cancel()
        elif how == 'cancel':
            src.cancel()
            src.set_running_or_notify_cancel()
        else:
            resolve(src, how)

    def wait():
        d, nd = cf.wait([f])
        return d == {f} and not nd
    r = ok(par(complete, wait))
    require(r[1], 'wait() did not report the future as done')


def wrapping_pre_done():
    src = PyFuture()
    f = WrappingFuture(src)
    f.add_pre_done_callback(lambda fut: (pause(), fut.set_result(fut.result() + 2)))
    w = Watch(f)
    w.register()
    src.set_running_or_notify_cancel()
    r = ok(par(lambda: src.set_result(5), lambda: outcome_of(f.result)))
    require(r[1] == ('ok', 7), 'waiter got %s', r[1])
    w.check(('ok', 7))
    require(src.result() == 5, 'source changed')


class PairCtx:
    def __init__(self):
        self.src = PyFuture()
        self.f = WrappingFuture(self.src)
        self.ref = PyFuture()
        self.seen = []
        self.want = []
        self.n = 0


def pair_ops(c):
    return ['src-run', 'run', 'src-cancel', 'cancel', 'src-result', 'src-exc', 'callback', 'state']


def pair_apply(c, op):
    """a wrapping future against a standard one that got the same calls"""
    logging.getLogger('concurrent.futures').disabled = True
    via = c.f if '-' not in op and op != 'state' else c.src
    name = op.split('-')[-1]
    if name == 'callback':
        n = c.n = c.n + 1
        c.f.add_done_callback(lambda g: c.seen.append((n, g is c.f)))
        c.ref.add_done_callback(lambda g: c.want.append((n, True)))
    elif name != 'state':
        def do(x):
            try:
                if name == 'run':
                    return x.set_running_or_notify_cancel()
                if name == 'cancel':
                    return x.cancel()
                if name == 'result':
                    return x.set_result(None if c.n else 5)
                return x.set_exception(Boom(1))
            except BaseException as e:
                return type(e)
        a, b = do(via), do(c.ref)
        require(a == b, '%s gave %s, on a standard future %s', op, a, b)
    for what in ('done', 'running', 'cancelled'):
        a, b = getattr(c.f, what)(), getattr(c.ref, what)()
        require(a == b, 'after %s, %s() is %s, of a standard future %s', op, what, a, b)
    a, b = outcome_of(c.f.result, 0), outcome_of(c.ref.result, 0)
    require(a == b, 'after %s the outcome is %s, of a standard future %s', op, a, b)
    require(sorted(c.seen) == sorted(c.want), 'callbacks %s, of a standard future %s', c.seen, c.want)


def executors():
    """ExecutorWrapper, call_in_future"""
    how = pick(['wrap', 'call'])
    bad = pick([False, True])
    cancel = pick([False, True])
    got = []

    def fn(a, b=0):
        got.append((a, b))
        pause()
        if bad:
            raise Boom(a)
        return a + b
    tpe = ThreadPoolExecutor(max_workers=1)
    if how == 'wrap':
        ex = ExecutorWrapper(tpe)
        f = ex.submit(fn, 1, b=2)
        g = ex.submit(fn, 10)
    else:
        ex = tpe
        f = call_in_future(tpe, fn, 1, b=2)('ignored', x=5)
        g = call_in_future(tpe, fn, 10)()
    c = g.cancel() if cancel else False
    w = Watch(g)
    w.register()
    a = outcome_of(f.result)
    b = outcome_of(g.result)
    require(a == (('boom', (1,)) if bad else ('ok', 3)), 'first: %s', a)
    wb = ('cancelled', None) if c else (('boom', (10,)) if bad else ('ok', 10))
    require(b == wb, 'second: %s, cancel said %s', b, c)
    ex.shutdown()
    w.check(wb)
    require(got == ([(1, 2)] if c else [(1, 2), (10, 0)]), 'calls %s', got)


def unbound_call():
    # a function bound to no arguments is called with none, whatever is passed when scheduling
    how = pick([((), {}), ((1,), {}), ((), {'b': 2}), ((1, 2), {'c': 3})])
    bound = pick([((), {}), ((7,), {}), ((), {'z': 8})])
    got = []
    with ThreadPoolExecutor(max_workers=1) as tpe:
        f = call_in_future(tpe, lambda *a, **kw: got.append((a, kw)), *bound[0], **bound[1])(*how[0], **how[1])
        f.result()
    require(got == [bound], 'bound to %s and scheduled with %s, it was called with %s', bound, how, got)


class RecordingExecutor(Executor):
    def __init__(self):
        self.calls = []

    def shutdown(self, wait=True, **kwargs):
        self.calls.append(wait)


def wrapper_shutdown():
    how = pick(['default', 'true', 'false', 'positional', 'with'])
    ex = RecordingExecutor()
    w = ExecutorWrapper(ex)
    if how == 'with':
        with w:
            pass
    else:
        w.shutdown(*([False] if how == 'positional' else []),
                   **({'wait': how == 'true'} if how in ('true', 'false') else {}))
    require(ex.calls == [how in ('default', 'true', 'with')], 'shutdown (%s) waits %s', how, ex.calls)


def executor_map():
    with ThreadPoolExecutor(max_workers=2) as tpe:
        with ExecutorWrapper(tpe) as ex:
            r = list(ex.map(lambda x: x * 2, [3, 1, 2]))
    require(r == [6, 2, 4], 'map gave %s', r)


# ------------------------------------------------------------------ collections
OUT = ['result', 'exc', 'cancel', 'later', 'never']


def collection(satella):
    def body():
        n = pick([0, 1, 2, 3])
        outs = [pick(OUT) for _ in range(n)]
        fs = [Future() if satella else PyFuture() for _ in range(n)]
        build = pick(['list', 'gen', 'plus', 'plus-one', 'plus-list', 'iadd', 'iadd-list'])
        if build == 'list':
            fc = FutureCollection(fs)
        elif build == 'gen':
            fc = FutureCollection(x for x in fs)
        elif build == 'plus':
            a = FutureCollection(fs[:1])
            fc = a + FutureCollection(fs[1:2]) + tuple(fs[2:])
            require(len(a) == min(n, 1), 'operand of + changed')
        elif build == 'plus-one':
            fc = a = FutureCollection()
            for i, x in enumerate(fs):
                b = fc
                fc = b + x
                require(len(b) == i, 'operand of + changed')
            require(len(a) == 0, 'operand of + changed')
        elif build == 'plus-list':
            left, right = fs[:1], fs[1:]
            a = FutureCollection(left)
            fc = a + right
            require([a[i] for i in range(len(a))] == fs[:1] and right == fs[1:], 'operand of + changed')
            b = fc + FutureCollection(right)
            require(len(fc) == n and len(b) == n + len(right), 'operand of + changed')
        elif build == 'iadd-list':
            right = fs[1:]
            fc = q = FutureCollection(fs[:1])
            fc += right
            require(fc is q and right == fs[1:], 'not in place')
        else:
            fc = q = FutureCollection()
            for x in fs[:1]:
                fc += x
            fc += FutureCollection(fs[1:2])
            for x in fs[2:]:
                require(fc.add(x) is fc, 'add() does not return self')
            require(fc is q, 'not in place')
        require(len(fc) == n and [fc[i] for i in range(n)] == fs, 'members')
        called = []
        fc.add_done_callback(lambda f: called.append(fs.index(f)))
        for i, (f, o) in enumerate(zip(fs, outs)):
            if o == 'result':
                f.set_result(i)
            elif o == 'exc':
                f.set_exception(Boom(i))
            elif o == 'cancel':
                f.cancel()

        def later():
            advance(1)
            for i, (f, o) in enumerate(zip(fs, outs)):
                if o == 'later':
                    f.set_result(i * 10)
        h = spawn(later)
        t0 = clock()
        r = outcome_of(fc.result, 5)
        want = ('ok', [i * 10 if o == 'later' else i for i, o in enumerate(outs)])
        bad = [i for i, o in enumerate(outs) if o in ('exc', 'cancel', 'never')]
        if bad:
            o = outs[bad[0]]
            want = {'exc': ('boom', (bad[0],)), 'cancel': ('cancelled', None), 'never': ('timeout', None)}[o]
        require(r == want, 'members %s: result() gave %s', outs, r)
        e = outcome_of(fc.exception, 5)
        if not bad:
            require(e == ('ok', None), 'exception() gave %s', e)
        else:
            o = outs[bad[0]]
            if o == 'exc':
                require(e[0] == 'ok' and isinstance(e[1], Boom) and e[1].args == (bad[0],), 'exception() gave %s', e)
            else:
                require(e == want, 'exception() gave %s', e)
        h.value()
        require(sorted(called) == [i for i, o in enumerate(outs) if o != 'never'], 'callbacks called for %s', called)
    return body


def collection_forward():
    """set_result/set_exception/cancel/set_running_or_notify_cancel reach every member"""
    n = pick([0, 1, 3])
    fs = [pick([PyFuture, Future])() for _ in range(n)]
    fc = FutureCollection(list(fs))
    op = pick(['result', 'exc', 'cancel', 'run'])
    if op == 'result':
        fc.set_result('x')
        require(all(f.done() and f.result() == 'x' for f in fs), 'not all set')
        require(fc.result() == ['x'] * n, 'result')
    elif op == 'exc':
        fc.set_exception(Boom(1))
        require(all(f.done() and isinstance(f.exception(), Boom) for f in fs), 'not all set')
    elif op == 'cancel':
        states = [pick(['pending', 'running', 'done', 'cancelled']) for _ in fs]
        for f, s in zip(fs, states):
            if s == 'running':
                f.set_running_or_notify_cancel()
            elif s == 'done':
                f.set_result(1)
            elif s == 'cancelled':
                f.cancel()
        r = fc.cancel()
        can = [s in ('pending', 'cancelled') for s in states]
        require(r == all(can), 'members %s: cancel() said %s', states, r)
        require([f.cancelled() for f in fs] == can, 'members %s: cancelled %s', states, [f.cancelled() for f in fs])
    else:
        states = [pick(['pending', 'cancelled']) for _ in fs]
        for f, s in zip(fs, states):
            if s == 'cancelled':
                f.cancel()
        r = fc.set_running_or_notify_cancel()
        require(bool(r) == any(s == 'pending' for s in states), 'members %s: said %s', states, r)
        require([f.running() for f in fs] == [s == 'pending' for s in states], 'members %s: running %s', states,
                [f.running() for f in fs])
        d, nd = cf.wait(fs, timeout=0)
        require(d == {f for f, s in zip(fs, states) if s == 'cancelled'}, 'cancellation not announced')


def collection_one_callback():
    fs = [PyFuture(), PyFuture()]
    called = []
    fc = FutureCollection(fs)
    fc.add_done_callback(lambda f: called.append(f), only_one=True)
    fc.set_result(1)
    require(len(called) == 1, 'called %s times', len(called))
    one, called = PyFuture(), []
    fc = FutureCollection([one])
    fc.add_done_callback(called.append, only_one=True)
    require(called == [], 'called early')
    fc.set_result(1)
    require(called == [one], 'called with %s', called)
    try:
        FutureCollection().add_done_callback(lambda f: None, only_one=True)
    except IndexError:
        pass
    else:
        raise Violation('no IndexError')


# ------------------------------------------------------------------ helpers running functions in threads
def in_thread():
    kind = pick(['run_as_future', 'separate', 'separate-delay', 'separate-nothread'])
    exc = pick([None, Boom, SystemExit, KeyboardInterrupt])
    calls = []

    def f(a, b=1):
        calls.append((a, b, clock()))
        pause()
        if exc:
            raise exc(a)
        return a + b
    if kind == 'run_as_future':
        g = run_as_future(f)
    elif kind == 'separate':
        g = call_in_separate_thread()(f)
    elif kind == 'separate-delay':
        g = call_in_separate_thread(delay=3)(f)
    else:
        g = call_in_separate_thread(no_thread_attribute=True, daemon=True)(f)
    require(g.__name__ == 'f', 'name lost')
    fut = g(2, b=5)
    seen = []
    fut.add_done_callback(lambda x: seen.append(1))
    if kind == 'run_as_future' and pick([False, True]):
        require(not fut.cancel(), 'a call that was started has been cancelled')
        require(not fut.cancelled(), 'reported as cancelled')
    try:
        r = fut.result(timeout=100)
        require(exc is None and r == 7, 'result %s', r)
    except (Boom, SystemExit, KeyboardInterrupt) as e:
        require(type(e) is exc and e.args == (2,), 'exception %r', e)
    except cf.TimeoutError:
        raise Violation('the function ended (%s) but its future was never resolved' % exc)
    advance(1)
    require(seen == [1], 'callback called %s times', len(seen))
    require(len(calls) == 1 and calls[0][:2] == (2, 5), 'calls %s', calls)
    require(calls[0][2] == (3 if kind == 'separate-delay' else 0), 'called at %s', calls[0][2])


def jobs(tier):
    q = tier == 'quick'
    o = ['futures/']
    b = 2
    return [
        SeqJob('wrapped-pair', PairCtx, pair_ops, pair_apply, depth=4 if q else 5, dedupe=False, shards=8),
        SchedJob('basic', basic, bound=1 if q else 2, only=o),
        SchedJob('competing', competing, bound=2, only=o),
        SchedJob('pre-done', pre_done, bound=1 if q else 2, only=o),
        SchedJob('pre-done-registration', pre_done_registration, bound=1 if q else 2, only=o),
        SchedJob('pre-done-late-setter', pre_done_late_setter, bound=2 if q else 3, only=o),
        SchedJob('failing-callback', failing_callback, bound=0, only=o),
        SchedJob('wrapping', wrapping, bound=2, only=o + ['concurrent/futures/_base']),
        SchedJob('wrapping-cancel', wrapping_cancel, bound=2, only=o),
        SchedJob('wrapping-wait', wrapping_wait, bound=2, only=o),
        SchedJob('wrapping-pre-done', wrapping_pre_done, bound=2, only=o),
        SchedJob('executors', executors, bound=1 if q else 2, only=o),
        SchedJob('unbound-call', unbound_call, bound=0, only=o),
        SchedJob('wrapper-shutdown', wrapper_shutdown, bound=0, only=o),
        SchedJob('executor-map', executor_map, bound=1, only=o),
        SchedJob('collection-python', collection(False), bound=0, only=['futures/collection.py']),
        SchedJob('collection-satella', collection(True), bound=0, only=['futures/collection.py']),
        SchedJob('collection-forward', collection_forward, bound=0, only=['futures/collection.py']),
        SchedJob('collection-one', collection_one_callback, bound=0, only=['futures/collection.py']),
        SchedJob('in-thread', in_thread, bound=1 if q else 2, only=['concurrent/functions.py', 'concurrent/thread.py']),
    ]
