"""
C33: exception handlers (install / uninstall / fire histories over all small handler sets, fired like the interpreter does, outside of
any except block, and by thread objects) and the memory pressure manager (all severity histories on a virtual clock).
"""
import gc
import io
import itertools
import logging
import os
import pickle
import shutil
import signal
import sys
import tempfile
import threading
import weakref
from collections import namedtuple

import psutil

from mc.jobs import SchedJob, SeqJob, EnumJob
from mc.sched import require, pick, advance, par, clock
from satella.exception_handling import (GlobalExcepthook, BaseExceptionHandler, FunctionExceptionHandler, exception_handler,
                                        MemoryErrorExceptionHandler, DumpToFileHandler, ALWAYS_FIRST, ALWAYS_LAST, NORMAL_PRIORITY)
from satella.instrumentation import Traceback
from satella.instrumentation.memory import (MemoryPressureManager, CustomCondition, Any, All, Not, GlobalAbsoluteValue,
                                            GlobalRelativeValue, LocalAbsoluteValue, LocalRelativeValue, install_force_gc_collect)


class Boom(Exception):
    pass


class HandlerFailed(Exception):
    pass


BEHAVIOURS = ['none', 'true', 'false', 'raise', 'empty', 'falses', 'mixed']
HANDLES = {'true', 'mixed'}


def behave(b, depth=[0]):
    if b == 'raise':
        local_of_failing = 1
        raise HandlerFailed('handler failed', local_of_failing)
    return {'none': None, 'true': True, 'false': False, 'empty': [], 'falses': [False, False], 'mixed': [False, True]}[b]


class Sub(BaseExceptionHandler):
    def __init__(self, fn, priority):
        super().__init__(priority)
        self.fn = fn

    def handle_exception(self, type_, value, traceback):
        r = self.fn(type_, value, traceback)
        return any(r) if isinstance(r, list) else r


def make(how, fn, prio):
    if how == 'sub':
        return Sub(fn, prio)
    if how == 'bare' and prio == NORMAL_PRIORITY:
        return exception_handler(fn)
    if how == 'fun':
        return FunctionExceptionHandler(fn, priority=prio)
    return exception_handler(priority=prio)(fn)


def caught(exc=None):
    def raising_function(local_x):
        raise exc or Boom('boom-text')
    try:
        raising_function(31337)
    except Exception:
        return sys.exc_info()


class HCtx:
    """specs: list of (priority, behaviour, how)"""

    def __init__(self, specs):
        for h in list(GlobalExcepthook().installed_hooks):
            GlobalExcepthook().remove_hook(h)
        self.specs = specs
        self.log = log = []
        self.handlers = []
        for i, (p, b, how) in enumerate(specs):
            def fn(t, v, tb, i=i, b=b):
                log.append((i, t, v, tb))
                if b == 'self-remove':
                    self.handlers[i].uninstall()
                    self.on.discard(i)
                    return None
                return behave(b)
            self.handlers.append(make(how, fn, p))
        self.on = set()


def hops(ctx):
    return [(a, i) for i in range(len(ctx.specs)) for a in ('install', 'uninstall')] + ['main', 'thread', 'sub-thread']


def fire(ctx, how, info):
    err, old = io.StringIO(), sys.stderr
    sys.stderr = err
    del ctx.log[:]
    try:
        if how == 'main':
            sys.excepthook(*info)
        else:
            def job():
                raise info[1]
            if how == 'thread':
                t = threading.Thread(target=job)
            else:
                class T(threading.Thread):
                    def run(self):
                        job()
                t = T()
            try:
                t.run()
            except Exception as e:
                require(e is info[1], 'the thread function saw %r instead of its exception', e)
    finally:
        sys.stderr = old
    return err.getvalue()


def hcheck(ctx, how, info):
    on = sorted(ctx.on)
    specs = ctx.specs
    before = set(ctx.on)
    text = fire(ctx, how, info)
    called = [e[0] for e in ctx.log]
    for i, t, v, tb in ctx.log:
        require(t is info[0] and v is info[1] and tb is not None, 'handler got %s %s %s', t, v, tb)
    require(len(set(called)) == len(called) and set(called) <= before, '%s called while %s are installed', called, on)
    prios = [specs[i][0] for i in called]
    require(prios == sorted(prios), 'handlers called in the order %s', [(specs[i]) for i in called])
    stop = [i for i in called if specs[i][1] in HANDLES]
    require(len(stop) <= 1 and (not stop or called[-1] == stop[0]), 'handlers ran after one declared it handled: %s', called)
    limit = specs[stop[0]][0] if stop else None
    must = {i for i in on if limit is None or specs[i][0] < limit}
    require(must <= set(called), 'handlers %s were not called, only %s', must - set(called), called)
    default = 'boom-text' in text.split('Error while processing')[0] if not any(specs[i][1] == 'raise' for i in called) else None
    printed = 'Boom: boom-text' in text
    # the original hook has priority 10000
    if stop and limit < 10000:
        if default is not None:
            require(not printed, 'the default hook printed a handled exception')
    elif not stop and not any(specs[i][1] == 'raise' for i in called):
        require(printed, 'the default hook was not reached')
    return len(called)


def happly(ctx, op):
    if op in ('main', 'thread', 'sub-thread'):
        hcheck(ctx, op, caught())
        return
    a, i = op
    h = ctx.handlers[i]
    if a == 'install':
        r = h.install()
        require(r is h, 'install() returned %r', r)
        ctx.on.add(i)
    elif i in ctx.on:
        h.uninstall()
        ctx.on.discard(i)
    else:
        try:
            h.uninstall()
        except ValueError:
            return
        raise AssertionError('removing a hook that is not there did not raise ValueError')


def hfinish(ctx):
    try:
        hcheck(ctx, 'main', caught())
        hcheck(ctx, 'thread', caught())
        for i in list(ctx.on):
            ctx.handlers[i].uninstall()
            ctx.on.discard(i)
        hcheck(ctx, 'main', caught())
    finally:
        for h in list(GlobalExcepthook().installed_hooks):
            GlobalExcepthook().remove_hook(h)


PRIOS = [ALWAYS_FIRST, -1, NORMAL_PRIORITY, ALWAYS_LAST, 20000]


def kind_cases():
    for cls in (KeyboardInterrupt, GeneratorExit, MemoryError, OSError, StopIteration, SyntaxError, UnicodeError, type('Own', (Boom,), {}), type('Base', (BaseException,), {})):
        for hows in itertools.product(('dec', 'sub', 'fun'), repeat=2):
            for handled in (False, True):
                yield cls, hows, handled


def kind_check(case):
    # whatever the kind of an exception, the handlers are asked
    cls, hows, handled = case
    ctx = HCtx([(-1, 'true' if handled else 'none', hows[0]), (0, 'none', hows[1])])
    try:
        for h in ctx.handlers:
            h.install()
        try:
            raise cls('boom-text')
        except BaseException:
            info = sys.exc_info()
        text = fire(ctx, 'main', info)
        require([e[:3] for e in ctx.log] == [(i, info[0], info[1]) for i in range(1 if handled else 2)], 'handlers of %s called as %s', cls, ctx.log)
        require(('boom-text' in text) is not handled, 'the default hook printed %s of a %s exception', text, 'handled' if handled else 'unhandled')
    finally:
        for h in list(GlobalExcepthook().installed_hooks):
            GlobalExcepthook().remove_hook(h)


def h_cases(n, prios):
    hows = ['dec', 'sub', 'fun', 'bare']
    one = list(itertools.product(prios, BEHAVIOURS + ['self-remove']))
    for k in range(1, n + 1):
        for j, specs in enumerate(itertools.product(one, repeat=k)):
            yield tuple((p, b, hows[(j + i) % 4]) for i, (p, b) in enumerate(specs))


def h_check(specs):
    ctx = HCtx(list(specs))
    try:
        for i in range(len(specs)):
            happly(ctx, ('install', i))
        n = hcheck(ctx, 'main', caught())
        n += hcheck(ctx, 'thread', caught())
        for i in range(len(specs)):
            if i in ctx.on:
                happly(ctx, ('uninstall', i))
                n += hcheck(ctx, 'sub-thread', caught())
    finally:
        for h in list(GlobalExcepthook().installed_hooks):
            GlobalExcepthook().remove_hook(h)
    return n


def plain_hook_cases():
    return itertools.product(BEHAVIOURS, [False, True], ['main', 'thread'])


def plain_hook_check(case):
    """callables added straight to the hook are handlers of normal priority"""
    behaviour, first, how = case
    hooks = GlobalExcepthook()
    for h in list(hooks.installed_hooks):
        hooks.remove_hook(h)
    ctx = HCtx([(ALWAYS_FIRST, 'none', 'sub'), (NORMAL_PRIORITY, behaviour, 'plain'), (ALWAYS_LAST, 'none', 'dec')])

    def plain(t, v, tb):
        ctx.log.append((1, t, v, tb))
        return behave(behaviour)
    try:
        if first:
            ctx.handlers[1] = hooks.add_hook(plain)
        ctx.handlers[0].install()
        ctx.handlers[2].install()
        if not first:
            ctx.handlers[1] = hooks.add_hook(plain)
        require(isinstance(ctx.handlers[1], BaseExceptionHandler) and ctx.handlers[1].priority == NORMAL_PRIORITY, 'add_hook gave %r', ctx.handlers[1])
        require(hooks.add_hook(ctx.handlers[1]) is ctx.handlers[1], 'added twice')
        ctx.on = {0, 1, 2}
        hcheck(ctx, how, caught())
        hooks.remove_hook(ctx.handlers[1])
        ctx.on = {0, 2}
        hcheck(ctx, how, caught())
    finally:
        for h in list(hooks.installed_hooks):
            hooks.remove_hook(h)


# ------------------------------------------------------------------ the memory error handler
def me_cases():
    for exc in (MemoryError, Boom, type('Sub', (MemoryError,), {})):
        for hook in ['default'] + BEHAVIOURS:
            for pg in (False, True):
                for leader in (False, True):
                    for life in ('install', 'uninstall', 'reinstall', 'twice', 'remove-add'):
                        yield exc, hook, pg, leader, life


def me_check(case):
    exc, hook, pg, leader, life = case
    kills = []
    rest = os.kill, os.killpg, os.getpgid, signal.raise_signal, os.abort, os._exit
    me = os.getpid()
    later = []
    err, old = io.StringIO(), sys.stderr
    hooks = GlobalExcepthook()
    try:
        os.kill = lambda *a: kills.append(('kill',) + a)
        os.killpg = lambda *a: kills.append(('killpg',) + a)
        os.getpgid = lambda p: me if leader else me + 1
        signal.raise_signal = os.abort = os._exit = lambda *a: kills.append(('other',) + a)
        seen = []
        args = {} if hook == 'default' else {'custom_hook': lambda *a: (seen.append(a), behave(hook))[1]}
        h = MemoryErrorExceptionHandler(kill_pg=pg, **args)
        h2 = FunctionExceptionHandler(lambda *a: later.append(a), priority=5)
        h2.install()
        require(h.install() is h, 'install() returned something else')
        if life == 'twice':
            try:
                h.install()
            except RuntimeError:
                pass
            else:
                require(False, 'installed twice without RuntimeError')
        if life in ('uninstall', 'reinstall'):
            h.uninstall()
        if life == 'reinstall':
            require(h.install() is h, 'reinstalled')
        on = life != 'uninstall'
        info = caught(exc('boom-text'))
        sys.stderr = err
        for k in range(2):
            del kills[:], later[:], seen[:]
            sys.excepthook(*info)
            is_mem = issubclass(exc, MemoryError)
            require(len(seen) == (1 if is_mem and on and hook != 'default' else 0), 'custom hook called %s times', len(seen))
            handled = on and is_mem and hook in HANDLES
            if on and is_mem and not handled:
                want = ('killpg', me, 9) if pg and leader else ('kill', me, 9)
                require(kills == [want], 'kills: %s, expected %s', kills, want)
            else:
                require(kills == [], 'killed: %s', kills)
                require(len(later) == (0 if handled else 1), 'later handlers ran %s times', len(later))
    finally:
        sys.stderr = old
        os.kill, os.killpg, os.getpgid, signal.raise_signal, os.abort, os._exit = rest
        for x in list(hooks.installed_hooks):
            hooks.remove_hook(x)
    return '%s %s' % (len(kills), len(later))


# ------------------------------------------------------------------ dumps
class LogCapture(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.records = []

    def emit(self, record):
        self.records.append(record)


class WriteOnly:
    def __init__(self):
        self.data = []

    def write(self, x):
        self.data.append(x)


SINKS = ['stringio', 'writeonly', 'path', 'dir', 'none', 'logger', 'logger-level']


def d_cases():
    for n in (0, 1, 2):
        for sinks in itertools.product(SINKS, repeat=n):
            for pick_ in ([], ['bytesio', 'pdir', 'pdir'], ['ppath', 'pnone', 'bytesio']):
                for how in ('main', 'in-except', 'thread'):
                    yield sinks, pick_, how


def d_check(case):
    sinks, pickles, how = case
    d = tempfile.mkdtemp(prefix='verif-c33-')
    hooks = GlobalExcepthook()
    cap = LogCapture()
    logger = logging.getLogger('verif.c33')
    logger.addHandler(cap)
    logger.setLevel(1)
    logger.propagate = False
    err, old = io.StringIO(), sys.stderr
    later = []
    try:
        hr, gets = [], []
        for i, s in enumerate(sinks):
            if s == 'stringio':
                o = io.StringIO()
                hr.append(o)
                gets.append(o.getvalue)
            elif s == 'writeonly':
                o = WriteOnly()
                hr.append(o)
                gets.append(lambda o=o: ''.join(o.data))
            elif s == 'path':
                p = os.path.join(d, 'f%d' % i)
                hr.append(p)
                gets.append(lambda p=p: open(p, encoding='utf8').read())
            elif s == 'dir':
                p = os.path.join(d, 'd')            # all share one directory
                os.makedirs(p, exist_ok=True)
                hr.append(p)

                def texts(p=p):
                    fs = [x for x in os.listdir(p)]
                    require(len(fs) == sinks.count('dir'), '%s files in the directory of %s dumps', len(fs), sinks.count('dir'))
                    all_ = [open(os.path.join(p, x), encoding='utf8').read() for x in fs]
                    return min(all_, key=len)
                gets.append(texts)
            elif s == 'none':
                hr.append(None)
            else:
                hr.append(logger if s == 'logger' else (logger, logging.INFO))
        ps, pgets = [], []
        for s in pickles:
            if s == 'bytesio':
                o = io.BytesIO()
                ps.append(o)
                pgets.append(o.getvalue)
            elif s == 'pdir':
                pd = os.path.join(d, 'pd')
                os.makedirs(pd, exist_ok=True)
                ps.append(pd)

                def pickled(n=ps.count(pd) - 1):
                    fs = sorted(os.listdir(pd))
                    require(len(fs) == pickles.count('pdir'), '%s files in the directory of %s pickles', len(fs), pickles.count('pdir'))
                    return open(os.path.join(pd, fs[n]), 'rb').read()
                pgets.append(pickled)
            elif s == 'ppath':
                p = os.path.join(d, 'pickle')
                ps.append(p)
                pgets.append(lambda: open(p, 'rb').read())
            else:
                ps.append(None)
        h = DumpToFileHandler(hr, ps or None)
        h.install()
        h2 = FunctionExceptionHandler(lambda *a: later.append(a) or True, priority=5)
        h2.install()
        sys.stderr = err
        if how == 'main':
            info = caught()
            sys.excepthook(*info)
        elif how == 'in-except':
            try:
                unrelated = 1
                raise KeyError('unrelated')
            except KeyError:
                info = caught()
                sys.excepthook(*info)
        else:
            def job():
                def raising_function(local_x):
                    raise Boom('boom-text')
                raising_function(31337)
            try:
                threading.Thread(target=job).run()
            except Boom:
                pass
        sys.stderr = old
        require(err.getvalue() == '', 'a handler failed: %s', err.getvalue()[:300])
        for g in gets:
            t = g()
            for need in ('Boom: boom-text', 'raising_function', 'local_x: 31337'):
                require(need in t, '%s is not in the dump %s', need, t[:300])
        recs = [r for r in cap.records]
        want = [logging.ERROR if s == 'logger' else logging.INFO for s in sinks if s.startswith('logger')]
        require([r.levelno for r in recs] == want, 'logged at %s', [r.levelno for r in recs])
        for r in recs:
            require('boom-text' in r.getMessage() and r.exc_info and 'boom-text' in str(r.exc_info[1]), 'log record %r', r.getMessage())
        for g in pgets:
            tb = Traceback.from_pickle(g())
            require(tb.frames[0].name == 'raising_function' and tb.frames[0].locals['local_x'].load_value() == 31337,
                    'pickled traceback is of %s', tb.frames[0].name)
        require(len(later) == 1, 'a dump swallowed the exception')
    finally:
        sys.stderr = old
        for x in list(hooks.installed_hooks):
            hooks.remove_hook(x)
        logger.removeHandler(cap)
        shutil.rmtree(d)
    return len(sinks) + len(pickles)


def dump_bad():
    for bad in (5, object(), ('a',), [1]):
        yield bad


def dump_bad_check(bad):
    try:
        DumpToFileHandler([bad])
    except TypeError:
        return
    require(False, 'invalid stream accepted')


# ------------------------------------------------------------------ conditions
Mem = namedtuple('Mem', 'rss')
VM = namedtuple('VM', 'available total')


def conds(depth):
    base = [('ga', 30), ('gr', 30), ('la', 30), ('lr', 30), ('lr', 60), ('c', True), ('c', False)]
    yield from base
    if depth:
        subs = list(conds(depth - 1)) if depth > 1 else base
        for c in subs:
            yield ('not', c)
        for op in ('any', 'all'):
            yield (op,)
            for a in subs:
                yield (op, a)
            for a, b in itertools.product(base, base):
                yield (op, a, b)
                if depth > 1:
                    yield (op, ('not', a), b)
                    yield (op, a, ('any', b, ('c', False)))
                    yield (op, b, ('all', a, ('c', True)))


def build(c):
    k = c[0]
    if k == 'not':
        return Not(build(c[1]))
    if k in ('any', 'all'):
        return {'any': Any, 'all': All}[k](*[build(x) for x in c[1:]])
    if k == 'c':
        return CustomCondition(lambda: c[1])
    return {'ga': GlobalAbsoluteValue, 'gr': GlobalRelativeValue, 'la': LocalAbsoluteValue, 'lr': LocalRelativeValue}[k](c[1])


def truth(c, avail, total, rss, mx):
    k = c[0]
    if k == 'not':
        return not truth(c[1], avail, total, rss, mx)
    if k in ('any', 'all'):
        return {'any': any, 'all': all}[k](truth(x, avail, total, rss, mx) for x in c[1:])
    if k == 'c':
        return c[1]
    if k == 'ga':
        return avail < c[1]
    if k == 'gr':
        return avail * 100 < c[1] * total
    if k == 'la':
        return mx - rss < c[1]
    return (mx - rss) * 100 < c[1] * mx


def cond_check(c):
    real = psutil.virtual_memory
    n = 0
    try:
        for avail, total in ((0, 100), (29, 100), (30, 100), (31, 100), (100, 100), (29, 50), (15, 50), (14, 50)):
            psutil.virtual_memory = lambda: VM(avail, total)
            for rss, mx in ((0, 100), (39, 100), (40, 100), (41, 100), (69, 100), (70, 100), (71, 100), (100, 100), (35, 50), (36, 50),
                            (110, 100)):
                got = build(c).can_fire(Mem(rss), mx)
                require(bool(got) == truth(c, avail, total, rss, mx), '%s with %s of %s free, using %s of %s: %s', c, avail, total, rss,
                        mx, got)
                n += 1
    finally:
        psutil.virtual_memory = real
    return n


# ------------------------------------------------------------------ memory pressure
class Obj:
    def __init__(self, log, name):
        self.log, self.name = log, name

    def cleanup(self):
        self.log.append(('cleanup', self.name))

    def other(self):
        self.log.append(('other', self.name))


def pressure(ticks, spacing, extra):
    def body():
        levels = [False, False, False]
        log = []
        # a condition of a higher level can hold without those of the lower ones: they are passed through
        m = MemoryPressureManager(None, [CustomCondition(lambda i=i: levels[i]) for i in range(2)], 10)
        M = MemoryPressureManager
        for lv in range(3):
            if lv:
                M.register_on_entered_severity(lv)(lambda lv=lv: log.append(('in', lv)))
                M.register_on_left_severity(lv)(lambda lv=lv: log.append(('out', lv)))
            M.register_on_remaining_in_severity(lv, spacing)(lambda lv=lv: log.append(('stay', lv)))
        M.register_on_memory_normal(lambda: log.append(('normal',)))
        cc = M.register_on_entered_severity(1)(lambda: log.append(('cancellable',)))
        cs = M.register_on_remaining_in_severity(0)(lambda: log.append(('stay-cancellable',)))
        o = [Obj(log, 0), Obj(log, 1)]
        M.cleanup_on_entered(1, o[0])
        M.cleanup_on_entered(2, o[1], lambda y: y.other())
        alive, cancelled, stopped, cur, last = [True, True], False, False, 0, {}
        ref = [weakref.ref(x) for x in o]
        t = 0
        advance(5)
        require(log in ([], [('stay', 0), ('stay-cancellable',)]), 'at the start: %s', log)
        if log:                 # the first look may come before the registrations
            last[0] = 0
        trail = []
        for k in range(ticks):
            del log[:]
            t += 10
            op = pick([0, 1, 2, 3] + extra)
            trail.append(op)
            if isinstance(op, int):
                levels[0] = op in (1, 3)
                levels[1] = op in (2, 3)
            elif op == 'stop':
                m.stop()
                stopped = True
            elif op == 'resume':
                m.resume()
                stopped = False
            elif op == 'cancel':
                cc.cancel()
                cs.cancel()
                cancelled = True
            elif op == 'free':
                o[0] = None
                gc.collect()
                alive[0] = False
            target = 2 if levels[1] else 1 if levels[0] else 0
            advance(10)
            want = []
            if not stopped:
                if cur == target:
                    if cur not in last or t - last[cur] >= spacing:
                        want.append(('stay', cur))
                        last[cur] = t
                    if cur == 0 and not cancelled:
                        want.append(('stay-cancellable',))
                while cur < target:
                    cur += 1
                    want.append(('in', cur))
                    if cur == 1 and not cancelled:
                        want.append(('cancellable',))
                    if cur == 1 and alive[0]:
                        want.append(('cleanup', 0))
                    if cur == 2:
                        want.append(('other', 1))
                while cur > target:
                    want.append(('out', cur))
                    cur -= 1
                    if cur == 0:
                        want.append(('normal',))
            require(sorted(map(str, log)) == sorted(map(str, want)), 'after %s: %s, expected %s', trail, log, want)
            moves = [e for e in log if e[0] in ('in', 'out', 'normal')]
            require(moves == [e for e in want if e[0] in ('in', 'out', 'normal')], 'after %s the order is %s', trail, moves)
            require(m.severity_level == cur, 'severity level %s, should be %s', m.severity_level, cur)
            if not alive[0]:
                require(ref[0]() is None, 'a registered object is kept alive')
        m.terminate()
        return tuple(trail)
    return body


def cleanup_race():
    levels = [False]
    log = []
    m = MemoryPressureManager(None, [CustomCondition(lambda: levels[0])], 10)
    M = MemoryPressureManager
    a, b = Obj(log, 'a'), Obj(log, 'b')
    M.cleanup_on_entered(1, a)
    advance(5)
    levels[0] = True
    advance(5)                  # just now the manager is noticing
    M.cleanup_on_entered(1, b)
    advance(5)
    levels[0] = False
    advance(10)
    del log[:]
    levels[0] = True
    advance(10)
    m.terminate()
    require(sorted(log) == [('cleanup', 'a'), ('cleanup', 'b')], 'cleaned: %s', log)


def cleanup_many(n):
    levels = [False]
    log = []
    m = MemoryPressureManager(None, [CustomCondition(lambda: levels[0])], 10)
    objs = {i: Obj(log, i) for i in range(n)}
    for i in range(n):
        MemoryPressureManager.cleanup_on_entered(1, objs[i], (lambda y: y.cleanup()) if i % 2 else (lambda y: y.other()))
    for entering in range(2):
        for i in list(objs):
            if not pick([True, False]):
                del objs[i]
        gc.collect()
        levels[0] = False
        advance(20)
        del log[:]
        levels[0] = True
        advance(20)
        want = [('cleanup' if i % 2 else 'other', i) for i in objs]
        require(sorted(log) == sorted(want), 'of %s alive %s were cleaned', sorted(objs), log)
    m.terminate()


def register_race():
    levels = [False]
    log = []
    m = MemoryPressureManager(None, [CustomCondition(lambda: levels[0])], 10)
    M = MemoryPressureManager
    M.register_on_entered_severity(1)(lambda: log.append('a'))
    advance(5)
    levels[0] = True
    advance(5)
    M.register_on_entered_severity(1)(lambda: log.append('b'))
    advance(5)
    levels[0] = False
    advance(10)
    del log[:]
    levels[0] = True
    advance(10)
    m.terminate()
    require(sorted(log) == ['a', 'b'], 'called: %s', log)


def gc_installed():
    levels = [False]
    calls = []
    real = gc.collect
    gc.collect = lambda *a: calls.append(1)
    try:
        m = MemoryPressureManager(None, [CustomCondition(lambda: levels[0])], 10)
        if pick([False, True]):
            install_force_gc_collect(1)
        else:
            install_force_gc_collect()
        advance(5)
        require(calls == [], 'collected')
        levels[0] = True
        advance(10)
        require(calls == [1], 'collections: %s', calls)
        levels[0] = False
        advance(10)
        require(calls == [1], 'collections: %s', calls)
        m.terminate()
    finally:
        gc.collect = real


def hook_race():
    """exceptions of two threads, while a handler is being installed and another removed"""
    hooks = GlobalExcepthook()
    for h in list(hooks.installed_hooks):
        hooks.remove_hook(h)
    log = []
    a = FunctionExceptionHandler(lambda t, v, tb: log.append(('a', str(v))), priority=0)
    b = FunctionExceptionHandler(lambda t, v, tb: log.append(('b', str(v))), priority=1)
    c = FunctionExceptionHandler(lambda t, v, tb: (log.append(('c', str(v))), True)[1], priority=2)
    a.install()
    c.install()

    def job(n):
        def f():
            raise Boom(n)
        try:
            threading.Thread(target=f).run()
        except Boom:
            pass
    try:
        r = par(lambda: job('1'), lambda: job('2'), lambda: (b.install(), a.uninstall()))
        for k, v in r:
            if k == 'exc':
                raise v
        for n in '12':
            got = [x for x, y in log if y == n]
            require(got.count('c') == 1 and got[-1] == 'c' and len(set(got)) == len(got) and got == sorted(got),
                    'handlers that ran: %s', got)
            require('a' in got or 'b' in got, 'neither the one being removed nor the one installed before it ran')
        del log[:]
        job('3')
        require(log == [('b', '3'), ('c', '3')], 'afterwards: %s', log)
    finally:
        for h in list(hooks.installed_hooks):
            hooks.remove_hook(h)


def jobs(tier):
    q = tier == 'quick'
    out = []
    for n, specs in (('mixed', [(0, 'none', 'dec'), (-1, 'raise', 'sub'), (5, 'true', 'fun')]),
                     ('same', [(0, 'none', 'sub'), (0, 'true', 'dec')]),
                     ('last', [(ALWAYS_LAST, 'true', 'sub'), (20000, 'none', 'fun'), (ALWAYS_FIRST, 'falses', 'dec')]),
                     ('self', [(0, 'self-remove', 'fun'), (1, 'none', 'fun')])):
        out.append(SeqJob('hist-' + n, lambda specs=specs: HCtx(specs), hops, happly, finish=hfinish, depth=(3 if len(specs) > 2 else 4) + (not q), dedupe=False,
                          shards=4))
    out.append(EnumJob('kinds', kind_cases, kind_check))
    out.append(EnumJob('handlers', lambda: h_cases(2, PRIOS), h_check, shards=8))
    if not q:
        out.append(EnumJob('handlers3', lambda: (c for c in h_cases(3, [-1, 0, ALWAYS_LAST]) if len(c) == 3), h_check, shards=8))
    out += [EnumJob('plain-hooks', plain_hook_cases, plain_hook_check), EnumJob('memory-error', me_cases, me_check, shards=2), EnumJob('dump', d_cases, d_check, shards=4),
            EnumJob('dump-bad', dump_bad, dump_bad_check), EnumJob('conditions', lambda: conds(2), cond_check, shards=8)]
    for sp in (0, 15, 25):
        out.append(SchedJob('pressure-%d' % sp, pressure(4 if q else 5, sp, []), bound=0, only=['nothing'], fork=True))
    out.append(SchedJob('pressure-ctl', pressure(3 if q else 4, 0, ['stop', 'resume', 'cancel', 'free']), bound=0, only=['nothing'],
                        fork=True))
    o = ['memthread.py']
    out += [SchedJob('cleanup-race', cleanup_race, bound=1 if q else 2, only=o, fork=True),
            SchedJob('cleanup-many', lambda: cleanup_many(3 if q else 4), bound=0, only=['nothing'], fork=True),
            SchedJob('register-race', register_race, bound=1 if q else 2, only=['callablegroup.py'], fork=True),
            SchedJob('gc', gc_installed, bound=0, only=['nothing'], fork=True),
            SchedJob('hook-race', hook_race, bound=1 if q else 2, only=['global_eh.py'], fork=True)]
    return out
