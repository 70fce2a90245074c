"""
C28: retries over all outcome sequences; back-off, stopwatches and sleeping on the virtual clock against small reference machines;
waiting for a service under all interleavings with the thread that reports its failures.
"""
import itertools
import time
from concurrent.futures import Future

from mc.jobs import SchedJob, SeqJob, EnumJob
from mc.sched import require, Violation, spawn, advance, clock, now, pause, stamp
from satella.coding.decorators import retry
from satella.exceptions import WouldWaitMore
from satella.time import measure, sleep, ExponentialBackoff, parse_time_string, time_ms, time_us, time_as_int


class Boom(Exception):
    pass


class SubValue(ValueError):
    pass


class BaseBoom(BaseException):
    pass


# ------------------------------------------------------------------ retry
KINDS = {'V': ValueError, 'S': SubValue, 'K': KeyError, 'B': BaseBoom}
CLASSES = {'default': (None, Exception), 'value': (ValueError, ValueError), 'two': ((ValueError, KeyError),) * 2, 'base': (BaseException,) * 2,
           'sub': ((SubValue,),) * 2}


def retry_cases():
    for n in range(1, 5):
        for seq in itertools.product('oVSKB', repeat=n):
            if any(c in 'oB' for c in seq[:-1]):
                continue
            for times in (None, 1, 2, 3):
                for cl in CLASSES:
                    if times is None and seq[-1] != 'o' and not any(not issubclass(KINDS[c], CLASSES[cl][1]) for c in seq if c != 'o'):
                        continue
                    for swallow in (None, True, False):
                        for cb in (0, 1, 2):
                            yield seq, times, cl, swallow, cb
    for cl in CLASSES:
        yield ('o',), 0, cl, None, 1


def retry_check(case):
    seq, times, cl, swallow, cb = case
    log, raised = [], []
    kw = {}
    if CLASSES[cl][0] is not None:
        kw['exc_classes'] = CLASSES[cl][0]
    if swallow is not None:
        kw['swallow_exception'] = swallow
    if cb:
        kw.update(on_failure=lambda e: log.append(('failure', e)), call_on_success=lambda i: log.append(('success', i)),
                  call_between_retries=lambda e: log.append(('between', e)))
    if cb == 2:
        kw['call_on_failure'] = lambda e: log.append(('failure2', e))

        def success(i):
            log.append(('success', i))
            raise Boom()        # this is no failure of the function
        kw['call_on_success'] = success

    @retry(times, **kw)
    def fun(a, b, *, c):
        require((a, b, c) == (1, 2, 3), 'arguments')
        i = sum(1 for x in log if x[0] == 'call')
        require(i < 20, 'never stops retrying')
        log.append(('call',))
        k = seq[i] if i < len(seq) else 'o'
        if k == 'o':
            return 'result', i
        raised.append(KINDS[k](i))
        raise raised[-1]

    require(fun.__name__ == 'fun', 'name lost')
    try:
        got = ('ok', fun(1, 2, c=3))
    except BaseException as e:
        if isinstance(e, Violation):
            raise
        got = ('exc', e)
    want, res = [], None
    limit = len(seq) + 1 if times is None else times
    for i in range(limit):
        if i:
            want.append(('between', raised[i - 1]) if i - 1 < len(raised) else 'nothing')
        want.append(('call',))
        k = seq[i] if i < len(seq) else 'o'
        if k == 'o':
            want.append(('success', i))
            res = ('exc', Boom) if cb == 2 else ('ok', ('result', i))
            break
        if not issubclass(KINDS[k], CLASSES[cl][1]):
            res = ('exc', raised[i] if i < len(raised) else None)
            break
    else:
        if limit:
            last = raised[limit - 1] if len(raised) >= limit else None
            want.append(('failure', last))
            if cb == 2:
                want.append(('failure2', last))
            res = ('ok', None) if swallow is not False else ('exc', last)
        else:
            res = ('ok', None)
    if not cb:
        want = [w for w in want if w == ('call',)]
    require(len(log) == len(want) and all(len(a) == len(b) and a[0] == b[0] and (len(a) == 1 or a[1] is b[1] or a[1] == b[1])
                                          for a, b in zip(log, want)), 'did %s, expected %s', log, want)
    if res == ('exc', Boom):
        require(got[0] == 'exc' and isinstance(got[1], Boom), 'got %s', got)
    else:
        require(got[0] == res[0] and (got[1] is res[1] or got[0] == 'ok' and got[1] == res[1]), 'got %s, expected %s', got, res)


# ------------------------------------------------------------------ back-off, alone
class Eb:
    def __init__(self, start, limit, grace):
        self.slept = []
        self.eb = ExponentialBackoff(start, limit, sleep_fun=self.sleep_fun, **({'grace_amount': grace} if grace else {}))
        self.start, self.limit, self.grace = start, limit, grace
        self.g = 0
        self.wait = 0
        self.until = None

    def sleep_fun(self, s):
        self.slept.append(s)
        advance(s)


def eb_ops(c):
    return [('failed',), ('success',), ('sleep',), ('tick', 0.5), ('tick', 2), ('tick', 30), ('wait',)]


def eb_apply(c, op):
    eb = c.eb
    if op[0] == 'failed':
        eb.failed()
        if c.g < c.grace:
            c.g += 1
        else:
            c.wait = min(c.limit, c.start if c.wait == 0 else 2 * c.wait)
            c.until = now() + c.wait
    elif op[0] == 'success':
        eb.success()
        c.g, c.wait, c.until = 0, 0, None
    elif op[0] == 'sleep':
        c.slept.clear()
        eb.sleep()
        require(c.slept == [c.wait], 'slept %s, expected %s', c.slept, c.wait)
    elif op[0] == 'tick':
        advance(op[1])
    elif c.until is None or now() > c.until:
        t = now()
        eb.wait_until_available()
        eb.wait_until_available(5)
        require(now() == t, 'waited %s for an available service', now() - t)
    t = now()
    require(eb.available is (c.wait == 0), 'available is %s', eb.available)
    if c.until is not None and t == c.until:
        return
    ready = c.until is None or t > c.until
    require(eb.ready_for_next_check is ready, 'ready is %s, %s s before the end', eb.ready_for_next_check, c.until and c.until - t)
    left = eb.time_until_next_check()
    require(left is None if ready else (left is not None and abs(left - (c.until - t)) < 1e-6), 'time until next check %s, expected %s',
            left, None if ready else c.until - t)
    require(eb.ready_for_next_check is ready, 'a second look gave %s', not ready)


def launch_cases():
    for n in range(5):
        for seq in itertools.product('VK', repeat=n):
            for end in ('o', 'B'):
                for classes in (Exception, ValueError, (ValueError, KeyError)):
                    for grace in (0, 1):
                        for imm in (False, True):
                            yield seq, end, classes, grace, imm


def launch_check(case):
    seq, end, classes, grace, imm = case
    slept = []
    eb = ExponentialBackoff(2, 5, slept.append, grace)
    it = iter(seq + (end,))
    calls = []

    def fun(*a, **kw):
        calls.append((a, kw))
        k = next(it)
        if k == 'o':
            return 'r'
        raise KINDS[k]()

    want, w, g = [], 0, 0
    res = 'r'
    for k in seq + (end,):
        if k == 'o':
            w = 0
            break
        if not issubclass(KINDS[k], classes):
            res = KINDS[k]
            break
        if g < grace:
            g += 1
        else:
            w = min(5, 2 * w or 2)
        want.append(w)
    n = len(want) + 1
    try:
        f = eb.launch(classes, immediate=imm)(fun)
        got = 'r' if imm else f(1, k=2)
    except BaseException as e:
        got = type(e)
    require(got == res, 'got %s, expected %s', got, res)
    require(slept == want, 'slept %s, expected %s', slept, want)
    require(calls == [((), {}) if imm else ((1,), {'k': 2})] * n, 'calls %s', calls)
    require(eb.available is (w == 0), 'available %s', eb.available)


# ------------------------------------------------------------------ back-off, waiting threads
def waiting(events, timeout, readers=0, waiters=1, start=4, limit=16):
    """events: the reporting thread's program; whoever waits is to return exactly when the service becomes available"""
    def body():
        eb = ExponentialBackoff(start, limit)
        hist = [(clock(), None)]     # (time, unavailable until)
        eb.failed()
        hist.append((clock(), clock() + start))
        w = start

        def available_at(t):
            """-> could it have been available at time t?"""
            ok = False
            for i, (at, until) in enumerate(hist):
                nxt = hist[i + 1][0] if i + 1 < len(hist) else float('inf')
                if at <= t <= nxt and (until is None or t >= until) and i > 0:
                    ok = True
            return ok

        def report():
            nonlocal w
            for e in events:
                if e == 'f':
                    t = clock()
                    w = min(limit, 2 * w if w else start)
                    hist.append((t, t + w))
                    eb.failed()
                    if clock() == t:
                        require(not eb.ready_for_next_check, 'failed right now, but it is ready')
                elif e == 's':
                    w = 0
                    hist.append((clock(), None))
                    eb.success()
                    require(eb.ready_for_next_check, 'success right now, but not ready')
                elif e == 'q':
                    until, t = hist[-1][1], clock()
                    if until is not None and t < until:
                        require(not eb.ready_for_next_check and abs(eb.time_until_next_check() - (until - clock())) < 1e-6,
                                'in back-off, but ready')
                else:
                    advance(e)

        def wait():
            t0 = clock()
            try:
                eb.wait_until_available(timeout) if timeout is not None else eb.wait_until_available()
            except WouldWaitMore:
                return 'timeout', t0, clock()
            return 'available', t0, clock()

        def read():
            for _ in range(2):
                eb.ready_for_next_check
                eb.time_until_next_check()
                advance(start)

        hs = [spawn(wait) for _ in range(waiters)]
        rs = [spawn(read) for _ in range(readers)]
        rep = spawn(report)
        out = []
        for h in hs + rs + [rep]:
            h.join()
            if h.exc is not None:
                raise h.exc
        for h in hs:
            what, t0, t = h.result
            out.append((what, t))
            if what == 'available':
                require(available_at(t), 'returned at %s, not available then: %s', t, hist)
                require(timeout is None or t - t0 <= timeout + 1e-3, 'returned after %s s, timeout is %s', t - t0, timeout)
            else:
                require(timeout is not None and abs(t - t0 - timeout) < 1e-3, 'timeout after %s s, not %s', t - t0, timeout)
            # nothing was missed: it was never available strictly between
            for i, (at, until) in enumerate(hist[1:], 1):
                end = hist[i + 1][0] if i + 1 < len(hist) else float('inf')
                free = at if until is None else until
                require(not (free < end and t0 <= free < t - 1e-3 and max(free, t0) < end - 1e-3), 'available at %s, waited until %s: %s', free, t, hist)
        return out
    return body


# ------------------------------------------------------------------ measure
class Watch:
    def __init__(self, kw, own):
        self.own = own
        self.t = 100.0
        self.kw = kw
        if own:
            self.m = measure(time_getter_callable=lambda: self.t, **kw)
        else:
            self.m = measure(**kw)
        self.running = not kw.get('create_stopped')
        self.acc = 0
        self.since = self.time() + kw.get('adjust', 0)
        self.free = not kw.get('stop_on_stop', True)       # can not be stopped

    def time(self):
        return self.t if self.own else now()

    def elapsed(self):
        return self.acc + (self.time() - self.since if self.running else 0)


W_OPS = [('tick', 1), ('tick', 2.5), ('start',), ('stop',), ('update',), ('reset',), ('reset_and_start',), ('reset_and_stop',), ('adjust', -1),
         ('adjust', 0.5), ('enter',), ('exit',)]


def w_apply(c, op):
    m = c.m

    def fails(f, *a):
        try:
            f(*a)
        except TypeError:
            return
        raise Violation('%s did not raise' % (op,))
    k = op[0]
    if k == 'tick':
        if c.own:
            c.t += op[1]
        else:
            advance(op[1])
    elif c.free and k in ('start', 'stop', 'update', 'reset_and_start', 'reset_and_stop'):
        if k != 'reset_and_start':
            fails(getattr(m, k))
    elif c.free and k in ('enter', 'exit'):
        if k == 'enter':
            require(m.__enter__() is m, 'enter')
        else:
            require(not m.__exit__(None, None, None), 'exit')
    elif k == 'adjust':
        if c.running or c.free:
            m.adjust(op[1])
            c.since += op[1]
    elif k in ('start', 'update'):
        if c.running:
            fails(getattr(m, k))
        else:
            getattr(m, k)()
            c.running, c.since = True, c.time()
    elif k in ('stop', 'exit', 'reset_and_stop'):
        f = m.stop if k == 'stop' else m.reset_and_stop if k == 'reset_and_stop' else lambda: m.__exit__(None, None, None)
        if not c.running:
            if k != 'reset_and_stop':
                fails(f)
            return
        f()
        c.acc = c.elapsed()
        c.running = False
        if k == 'reset_and_stop':
            c.acc = 0
    elif k == 'reset':
        m.reset()
        c.acc, c.since = 0, c.time()
        if not c.free:
            c.running = False
    elif k == 'reset_and_start':
        m.reset_and_start()
        c.acc, c.since, c.running = 0, c.time(), True
    elif k == 'enter':
        require(m.__enter__() is m, 'enter')
        if not c.running:
            c.running, c.since = True, c.time()
    if c.free and c.kw.get('create_stopped'):
        return
    e = c.elapsed()
    require(abs(m() - e) < 1e-6 and abs(m.get_time_elapsed() - e) < 1e-6, 'elapsed %s, expected %s', m(), e)
    if not c.free:
        require(m.stopped is (not c.running), 'stopped is %s', m.stopped)
    t = c.kw.get('timeout')
    if t is None:
        require(m.timeouted is False and m.time_remaining is None, 'no timeout given')
        m.assert_not_timeouted()
    else:
        require(abs(m.time_remaining - max(0, t - e)) < 1e-6, 'remaining %s, expected %s', m.time_remaining, max(0, t - e))
        if abs(e - t) > 1e-6:
            require(m.timeouted is (e > t), 'timeouted is %s after %s of %s', m.timeouted, e, t)
            try:
                m.assert_not_timeouted()
                require(e < t, 'not timeouted after %s of %s', e, t)
            except WouldWaitMore:
                require(e > t, 'timeouted after %s of %s', e, t)
    for v in (0.7, 3):
        if abs(e - v) > 1e-6:
            require(m.has_exceeded(v) is (e > v), 'has_exceeded(%s) after %s', v, e)
            try:
                m.raise_if_exceeded(v, Boom)
                require(e < v, 'not raised')
            except Boom:
                require(e > v, 'raised')


def w_key(c):
    return c.running, round(c.acc, 6), round(c.time() - c.since, 6)


def deco_cases():
    for kind in ('function', 'method', 'classmeth', 'generator', 'recursive', 'raising'):
        for stopped in (False, True):
            for timeout in (None, 2):
                for gap in (0, 3):
                    yield kind, stopped, timeout, gap


def deco_check(case):
    kind, stopped, timeout, gap = case
    m0 = measure(create_stopped=stopped, timeout=timeout)
    seen = []
    advance(gap)

    def look(m, want):
        require(isinstance(m, measure) and m is not m0, 'not a copy')
        require(all(m is not x for x in seen if kind != 'generator'), 'the same measurement again')
        require(abs(m() - (0 if stopped else want)) < 1e-6, 'measured %s, expected %s', m(), 0 if stopped else want)
        require(m.timeout == timeout, 'timeout lost')

    if kind == 'generator':
        @m0
        def f(m, a, *, k):
            require((a, k) == (1, 2), 'arguments')
            for i in range(3):
                look(m, i)
                seen.append(m)
                advance(1)
                yield i
        @m0
        def conversation(m):
            told = None
            try:
                while told != 'end':
                    try:
                        told = yield m(), told
                        advance(1)
                    except KeyError:
                        told = 'caught'
            finally:
                closed.append(True)
        for words in itertools.product(('a', 'throw', 'close'), repeat=2):
            closed = []
            g = conversation()
            require(next(g) == (0, None), 'first')
            said = []
            for w in words + ('end',):
                if w == 'throw':
                    require(g.throw(KeyError('x'))[1] == 'caught', 'exception not thrown into the generator')
                    said.append('thrown')
                elif w == 'close':
                    g.close()
                    require(closed == [True], 'closed, but the generator was not')
                    break
                else:
                    try:
                        r = g.send(w)
                    except StopIteration as e:
                        require(w == 'end', 'ended by %s', w)
                        break
                    require(r[1] == w != 'end' and abs(r[0] - (0 if stopped else 1 + sum(x != 'thrown' for x in said))) < 1e-6, 'sent %s after %s, got %s', w, said, r)
                    said.append(w)
        for _ in range(2):
            require(list(f(1, k=2)) == [0, 1, 2], 'elements')
        require(seen[0] is seen[1] and seen[0] is not seen[3], 'measurement shared')
        if not stopped:
            advance(5)
            require(abs(seen[0]() - 3) < 1e-6, 'counts on after the end: %s', seen[0]())
        return
    if kind == 'recursive':
        @m0
        def f(m, n):
            look(m, 0)
            seen.append(m)
            advance(1)
            if n:
                f(n - 1)
            look2 = m()
            require(abs(look2 - (0 if stopped else n + 1)) < 1e-6, 'measured %s at level %d', look2, n)
            return n
        for _ in range(2):
            require(f(2) == 2, 'result')
        return

    class X:
        @m0
        def f(self, m, a, *, k):
            require(isinstance(self, X), 'self')
            return work(m, a, k)

    def work(m, a, k):
        require((a, k) == (1, 2), 'arguments')
        look(m, 0)
        advance(1.5)
        look(m, 1.5)
        if stopped:
            m.start()
            advance(2)
            require(abs(m() - 2) < 1e-6, 'started by hand: %s', m())
        seen.append(m)
        if kind == 'raising':
            raise Boom()
        return 'r'

    @m0
    def g(m, a, *, k):
        return work(m, a, k)
    for _ in range(3):
        f = X().f if kind in ('method', 'classmeth') else g
        try:
            require(f(1, k=2) == 'r' and kind != 'raising', 'result')
        except Boom:
            require(kind == 'raising', 'raised')
        advance(1)
        if not stopped:
            require(abs(seen[-1]() - 1.5) < 1e-6 and seen[-1].stopped, 'counts on after the end: %s', seen[-1]())


def future_cases():
    yield from itertools.product(('result', 'exception', 'cancel', 'already', 'stopped'), (0, 1.5))


def future_check(case):
    how, d = case
    f = Future()
    if how == 'already':
        f.set_result(1)
    m = measure(f)
    if how != 'cancel' and how != 'already':
        f.set_running_or_notify_cancel()
    advance(d)
    require(abs(m() - (0 if how == 'already' else d)) < 1e-6, 'measured %s', m())
    if how == 'stopped':
        m.stop()
        advance(1)
    if how == 'exception':
        f.set_exception(Boom())
    elif how == 'cancel':
        f.cancel()
    elif how != 'already':
        f.set_result(1)
    advance(4)
    require(m.stopped and abs(m() - (0 if how == 'already' else d)) < 1e-6, 'measured %s of %s', m(), d)


# ------------------------------------------------------------------ sleeping
BEH = ['full', 'half-int', 'zero-int', 'half', 'end-int', 'over']


def sleep_cases():
    for n in range(4):
        for seq in itertools.product(BEH, repeat=n):
            for y in (0, 2, '2s', 0.5, -1, '1m', '-1', 3.0):
                for abort in (None, False, True):
                    yield seq, y, abort


def sleep_check(case):
    seq, y, abort = case
    it = iter(seq)
    want_s = {'2s': 2, '1m': 60, '-1': -1}.get(y, y)
    real = time.sleep
    interrupted = []
    over = [0]

    def scripted(s):
        if s < 0:
            raise ValueError('sleep length must be non-negative')
        b = next(it, 'full')
        advance_real = s if b in ('full', 'end-int', 'over') else s / 2 if b.startswith('half') else 0
        if b == 'over':
            over[0] += 1
            advance_real += 1
        real(advance_real)
        if b.endswith('int'):
            interrupted.append(now())
            raise KeyboardInterrupt()
    time.sleep = scripted
    t = now()
    try:
        try:
            r = sleep(y) if abort is None else sleep(y, abort_on_interrupt=abort)
        except KeyboardInterrupt:
            raise Violation('interrupt came through')
    finally:
        time.sleep = real
    d = now() - t
    if want_s < 0:
        require(r is False and d == 0, 'sleep(%r) took %s', y, d)
    elif abort and interrupted:
        require(r is False or d >= want_s - 1e-6, 'aborted sleep returned %s', r)
        require(len(interrupted) == 1 and now() == interrupted[0], 'slept on after the interrupt')
    else:
        require(r is True, 'returned %s', r)
        require(want_s - 1e-6 <= d <= want_s + over[0] + 1e-6, 'sleep(%r) took %s', y, d)


def late_sleeper():
    """the clock may go on by itself at any moment"""
    h = spawn(lambda: advance(7))
    t = clock()
    r = sleep(3)
    require(r is True and clock() - t >= 3 - 1e-6, 'slept %s', clock() - t)
    h.join()
    return clock() > 7


def parse_cases():
    for v in ('0', '1', '30', '1.5', '007', '1e2'):
        for sp in ('', ' '):
            for u, k in (('', 1), ('s', 1), ('m', 60), ('h', 3600), ('d', 86400), ('w', 604800), ('sec', 1), ('min', 60)):
                yield v + sp + u, float(v) * k
    for v in (0, 5, -3, 2.5, 1e9):
        yield v, v


def parse_check(case):
    s, want = case
    got = parse_time_string(s)
    require(got == want, '%r is %r, not %r', s, got, want)


def now_cases():
    for s in (0, 0.25, 0.999999, 1, 12345.678912):
        yield s


def now_check(s):
    advance(s)
    ns = time.time_ns
    time.time_ns = lambda: int(round(time.time() * 1e6)) * 1000 + 7
    try:
        t = time.time_ns()
        require(time_us() == t // 1000 and time_ms() == t // 1000000, 'us %s ms %s at %s ns', time_us(), time_ms(), t)
        require(time_as_int() == int(time.time()), 'time %s', time_as_int())
        require(type(time_us()) is int and type(time_ms()) is int and type(time_as_int()) is int, 'not integers')
    finally:
        time.time_ns = ns


def jobs(tier):
    t = tier == 'thorough'
    only = ['time/backoff']
    out = [EnumJob('retry', retry_cases, retry_check, shards=2), EnumJob('launch', launch_cases, launch_check),
           EnumJob('decorated', deco_cases, deco_check), EnumJob('future', future_cases, future_check),
           EnumJob('sleep', sleep_cases, sleep_check, shards=2), EnumJob('parse', parse_cases, parse_check),
           EnumJob('now', now_cases, now_check),
           SchedJob('late-sleep', late_sleeper, bound=3, only=['time/misc', 'time/measure'], clock_choice=True)]
    for p in ((1, 30, 0), (2, 7, 0), (4, 3, 0), (1, 4, 2), (0.5, 0.5, 1)):
        out.append(SeqJob('backoff-%s-%s-%s' % p, lambda p=p: Eb(*p), eb_ops, eb_apply, 6 if t else 5))
    for own in (True, False):
        for kw in ({}, {'timeout': 2}, {'create_stopped': True, 'timeout': 3}, {'stop_on_stop': False, 'timeout': 2}, {'adjust': -1}, {'adjust': 0.5, 'timeout': 1}):
            name = 'measure-%s-%s' % ('own' if own else 'default', '-'.join('%s=%s' % x for x in kw.items()) or 'plain')
            out.append(SeqJob(name, lambda kw=kw, own=own: Watch(kw, own), W_OPS, w_apply, 5 if t else 4))
    progs = {'early': ([1, 's'], None), 'again': ([1, 'f', 2, 's'], None), 'timeout': ([1, 'f'], 2.5), 'at-once': (['s'], None),
             'success-failed': (['s', 'f', 'q', 1, 's'], None), 'short': ([], 1), 'long': ([], 9), 'zero': (['s'], 0),
             'toggle': ([3.5, 'f', 'q', 4.5, 'q'], None)}
    for n, (ev, to) in progs.items():
        out.append(SchedJob('wait-' + n, waiting(ev, to), bound=3 if t else 2, only=only))
    out.append(SchedJob('wait-two', waiting([1, 's'], None, waiters=2), bound=2 if t else 1, only=only))
    out.append(SchedJob('readers', waiting([4, 'f', 'q', 'f', 'q'], None, readers=1), bound=2 if t else 1, only=only))
    return out
