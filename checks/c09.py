"""
C09: CallableGroup, CancellableCallback, CallNoOftenThan.
"""
from mc.jobs import SchedJob, SeqJob
from mc.sched import require, par, spawn, pause, pick, Violation, clock, advance
from satella.coding.concurrent import CallableGroup, CancellableCallback, CallNoOftenThan


class Boom(Exception):
    pass


def ok(rs):
    for k, v in rs:
        if k == 'exc':
            raise v
    return [v for k, v in rs]


KINDS = ['ok', 'fail', 'cancels-first', 'cancels-self', 'cancels-last', 'adds']


class Ctx:
    """system plus model: entries are [name, kind, one_shot, handle, cancelled, fired]"""

    def __init__(self, gather, swallow):
        self.g = CallableGroup(gather=gather, swallow_exceptions=swallow)
        self.gather = gather
        self.swallow = swallow
        self.entries = []
        self.log = []
        self.n = 0

    def add(self, kind, one_shot, style='plain'):
        name = self.n
        self.n += 1
        ent = dict(name=name, kind=kind, one_shot=one_shot, cancelled=False, fired=0)

        def fn(*a, **k):
            self.log.append((name, a, tuple(k.items())))
            ent['fired'] += 1
            if kind == 'fail':
                raise Boom(name)
            if kind == 'cancels-self':
                self.cancel(ent)
            elif kind == 'cancels-first' and self.live():
                self.cancel(self.live()[0])
            elif kind == 'cancels-last' and self.live():
                self.cancel(self.live()[-1])
            elif kind == 'adds' and self.n < 7:
                self.add('ok', False)
            return ('r', name) if name != 1 else None
        if style == 'cc':
            cc = CancellableCallback(fn)
            h = self.g.add(cc, one_shot)
            require(h is cc, 'add() returned another object')
            require(self.g.add(cc, one_shot) is cc, 'adding again')
        else:
            h = self.g.add(fn, one_shot) if one_shot else self.g.add(fn)
        require(isinstance(h, CancellableCallback) and bool(h), 'handle %r', h)
        ent['h'] = h
        self.entries.append(ent)

    def live(self):
        return [e for e in self.entries if not e['cancelled'] and not (e['one_shot'] and e['fired'])]

    def cancel(self, ent):
        ent['cancelled'] = True
        ent['h'].cancel()
        require(not ent['h'] and ent['h'].cancelled, 'not cancelled')


def seq_ops(c):
    ops = [('call',)]
    if c.n < 4:
        ops += [('add', k, o) for k in KINDS for o in (False, True)] + [('add', 'ok', False, 'cc')]
    ops += [('cancel', i) for i, e in enumerate(c.entries) if not e['cancelled']]
    ops += [('remove-cancelled',)]
    return ops


def seq_apply(c, op):
    if op[0] == 'add':
        c.add(*op[1:])
    elif op[0] == 'cancel':
        c.cancel(c.entries[op[1]])
    elif op[0] == 'remove-cancelled':
        had = c.g.has_cancelled_callbacks
        require(isinstance(had, bool), 'has_cancelled_callbacks')
        c.g.remove_cancelled()
        require(c.g.has_cancelled_callbacks is False, 'still has cancelled callbacks')
    else:
        before = [e for e in c.live()]
        names = [e['name'] for e in before]
        fired0 = {e['name']: e['fired'] for e in c.entries}
        was_cancelled = {e['name']: e['cancelled'] for e in c.entries}
        c.log.clear()
        exc = None
        try:
            res = c.g(1, k=2)
        except Boom as e:
            exc = e
        require(all(a == (1,) and k == (('k', 2),) for _, a, k in c.log), 'arguments: %s', c.log)
        got = [n for n, _, _ in c.log]
        by = {e['name']: e for e in c.entries}
        # simulate
        want = []
        stopped = None
        canc = {}
        cur = [n for n in names]
        live = list(names)

        def simlive():
            return [n for n in live]
        for n in cur:
            if n not in live:
                continue
            want.append(n)
            k = by[n]['kind']
            if by[n]['one_shot']:
                # whether it counts itself as live while running does not matter to others
                live.remove(n)
            if k == 'fail':
                if not c.swallow:
                    stopped = n
                    break
            elif k == 'cancels-self' and n in live:
                live.remove(n)
            elif k == 'cancels-first' and live:
                live.pop(0)
            elif k == 'cancels-last' and live:
                live.pop()
            elif k == 'adds':
                pass
        olds = [n for n in got if n in fired0]
        # entries added during the call may be called in it or not; what must be called is fixed
        if any(by[n]['kind'] in ('adds', 'cancels-last', 'cancels-first') for n in got):
            # targets depend on what was live: only check that nothing was forgotten or repeated
            require(len(set(got)) == len(got), 'called twice: %s', got)
            require(olds == sorted(olds, key=names.index), 'order: %s', got)
            for n in names:
                if n not in got:
                    require(by[n]['cancelled'] or (exc is not None), '%s was not called', n)
        else:
            require(got == want, 'called %s, expected %s', got, want)
        if exc is not None:
            require(not c.swallow and by[exc.args[0]]['kind'] == 'fail' and got[-1] == exc.args[0], 'exception %r', exc)
        else:
            require(c.swallow or not any(by[n]['kind'] == 'fail' for n in got), 'failure swallowed')
            if c.gather:
                if len(res) != len(got):         # these cancelled during the call may have their place
                    require(any(e['cancelled'] for e in c.entries), 'results %s of %s', res, got)
                    res = [x for x in res if x is not None]
                    got = [n for n in got if n != 1]
                require(len(res) == len(got), 'results %s for %s', res, got)
                for n, x in zip(got, res):
                    if by[n]['kind'] == 'fail':
                        require(isinstance(x, Boom) and x.args == (n,), 'result of %s: %r', n, x)
                    else:
                        require(x == (('r', n) if n != 1 else None), 'result of %s: %r', n, x)
            else:
                require(res is None, 'result %s', res)
        for e in c.entries:
            if e['one_shot']:
                require(e['fired'] <= 1, 'one-shot %s fired %s times', e['name'], e['fired'])


def state(c):
    return (tuple((e['kind'], e['one_shot'], e['cancelled'], bool(e['fired']) and e['one_shot']) for e in c.entries),)


def final(c):
    """the group as left behind: a plain call reaches every live entry in order"""
    for e in c.entries:
        require(bool(e['h']) == (not e['cancelled']), 'truth of the handle')
    seq_apply(c, ('call',))
    seq_apply(c, ('call',))


# ------------------------------------------------------------------ schedules
def two_callers():
    """two threads call the group: everybody is called twice, one-shots once"""
    g = CallableGroup(swallow_exceptions=pick([False, True]))
    log = []

    def mk(n):
        def f(x):
            log.append((n, x))
            pause()
            return n
        return f
    g.add(mk('a'))
    g.add(mk('one'), one_shot=True)
    g.add(mk('b'))
    r = ok(par(lambda: g(1), lambda: g(2)))
    for x in (1, 2):
        require([n for n, y in log if y == x and n != 'one'] == ['a', 'b'], 'caller %s: called %s', x, log)
    require([n for n, _ in log].count('one') == 1, 'one-shot fired: %s', log)
    log.clear()
    require(g(3) == ['a', 'b'] and [n for n, _ in log] == ['a', 'b'], 'afterwards: %s', log)


def call_and_add():
    """entries are added and cancelled while another thread calls"""
    g = CallableGroup(gather=pick([True, False]))
    log = []

    def mk(n):
        def f(x):
            log.append((n, x))
        return f
    a = g.add(mk('a'))
    g.add(mk('b'))
    what = pick(['add', 'cancel', 'add-one-shot', 'both'])

    def other():
        if what in ('cancel', 'both'):
            a.cancel()
        if what != 'cancel':
            g.add(mk('c'), one_shot=what == 'add-one-shot')
    ok(par(lambda: g(1), other))
    first = [n for n, _ in log]
    require(first.count('b') == 1 and first.count('a') <= 1 and first.count('c') <= 1, 'first call: %s', first)
    if what in ('add', 'add-one-shot'):
        require(first.count('a') == 1, 'first call: %s', first)
    log.clear()
    g(2)
    want = ['a', 'b', 'c']
    if what in ('cancel', 'both'):
        want.remove('a')
    if what == 'cancel' or (what == 'add-one-shot' and 'c' in first):
        want.remove('c')
    require([n for n, _ in log] == want, '%s: second call reached %s, expected %s', what, [n for n, _ in log], want)
    log.clear()
    g(3)
    require([n for n, _ in log] == [w for w in want if not (w == 'c' and what == 'add-one-shot')], 'third call: %s', log)


def cancelled_never():
    """after cancel() returned, the callback is not started any more"""
    g = CallableGroup()
    started = []
    done = []
    c = g.add(lambda: started.append(bool(done)))

    def canc():
        c.cancel()
        pause()
        done.append(1)

    def caller():
        g()
        g()
    ok(par(canc, caller))
    # a start that had been decided before the cancellation may still be under way, but only one
    require(sum(started) <= 1, 'started after cancellation: %s', started)
    n = len(started)
    g()
    require(len(started) == n, 'cancelled callback called')
    require(c() is None and len(started) == n, 'cancelled callback called')


# ------------------------------------------------------------------ rate limiting
class RCtx:
    def __init__(self, interval):
        self.interval = interval
        self.calls = []
        self.now = 0.0
        self.c = CallNoOftenThan(interval, self.f)
        self.fail = False

    def f(self, *a, **k):
        self.calls.append((clock(), a, k))
        if self.fail:
            raise Boom()
        return 'x'


def rate_fresh(interval):
    return lambda: RCtx(interval)


def rate_apply(c, op):
    if op[0] == 'adv':
        advance(op[1])
        return
    n = len(c.calls)
    last = c.calls[-1][0] if c.calls else None
    c.fail = op[0] == 'failcall'
    try:
        r = c.c(1, k=2)
    except Boom:
        require(c.fail and len(c.calls) == n + 1, 'failure out of nowhere')
        r = 'raised'
    else:
        require(not c.fail or len(c.calls) == n, 'failure lost')
    due = last is None or clock() - last >= c.interval - 1e-9
    if len(c.calls) > n:
        require(len(c.calls) == n + 1, 'called several times')
        require(due or c.failed_last, 'called at %s and again at %s, interval %s', last, clock(), c.interval)
        require(c.calls[-1][1:] == ((1,), {'k': 2}), 'arguments %s', c.calls[-1])
        if not c.fail:
            require(r == 'x', 'result %r', r)
        c.failed_last = c.fail
    else:
        require(r is None, 'result %r', r)
        require(not due or getattr(c, 'failed_last', False), 'not called although %s s passed', clock() - (last or 0))


def rate_two():
    calls = []

    def f():
        calls.append(clock())
        pause()
    c = CallNoOftenThan(5, f)
    advance(pick([0, 10]))
    ok(par(c, c))
    require(len(calls) == 1, 'called %s times within the interval', len(calls))
    advance(5)
    ok(par(c, c))
    require(len(calls) == 2, 'called %s times', len(calls))


def jobs(tier):
    q = tier == 'quick'
    o = ['concurrent/callablegroup.py', 'coding/deleters.py']
    out = []
    for ga in (True, False):
        for sw in (True, False):
            out.append(SeqJob('group-%s-%s' % ('gather' if ga else 'plain', 'swallow' if sw else 'raise'),
                              lambda ga=ga, sw=sw: Ctx(ga, sw), seq_ops, seq_apply, depth=4 if q else 6, key=None,
                              dedupe=False, finish=final, max_states=400000))
    b = 2 if q else 3
    out += [
        SchedJob('two-callers', two_callers, bound=b, only=o),
        SchedJob('call-and-add', call_and_add, bound=b, only=o),
        SchedJob('cancelled-never', cancelled_never, bound=b, only=o),
        SchedJob('rate-two', rate_two, bound=b, only=o),
    ]
    for iv in (1, 5, 1e8):
        out.append(SeqJob('rate-%s' % iv, rate_fresh(iv), [('call',), ('failcall',), ('adv', 0.5), ('adv', 1), ('adv', 4)],
                          rate_apply, depth=5 if q else 7, dedupe=False))
    return out
