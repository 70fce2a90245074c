"""
C45: tracing of futures, functions and exceptions and Cassandra futures: all outcomes of a future by the moment at which it is traced, all interleavings of completion
and tracing, all short histories of traced calls, against what was recorded by opentracing's own mock tracer.
"""
import itertools
import sys
import warnings
from concurrent.futures import Future as PythonFuture, ThreadPoolExecutor

import opentracing
from opentracing.mocktracer import MockTracer
from cassandra.cluster import ResponseFuture

from mc.jobs import EnumJob, SchedJob
from mc.sched import require, par
from satella.cassandra import wrap_future, parallel_for
from satella.coding.concurrent import Future, WrappingFuture, parallel_construct
from satella.opentracing import trace_future, trace_function, trace_exception, set_maximum_traceback_length

warnings.simplefilter('ignore')


class FakeResponse(ResponseFuture):
    """completes as the driver's ones do: callbacks are called once, at once if completed before"""

    def __init__(self):
        self.outcome = None
        self.cbs, self.ebs = [], []

    def add_callback(self, fn, *args, **kwargs):
        if self.outcome is None:
            self.cbs.append(lambda v: fn(v, *args, **kwargs))
        elif self.outcome[0] == 'ok':
            fn(self.outcome[1], *args, **kwargs)
        return self

    def add_errback(self, fn, *args, **kwargs):
        if self.outcome is None:
            self.ebs.append(lambda v: fn(v, *args, **kwargs))
        elif self.outcome[0] == 'exc':
            fn(self.outcome[1], *args, **kwargs)
        return self

    def complete(self, kind, v):
        self.outcome = kind, v
        for c in self.cbs if kind == 'ok' else self.ebs:
            c(v)

    def result(self):
        if self.outcome[0] == 'ok':
            return self.outcome[1]
        raise self.outcome[1]


RESULTS = {'result': 5, 'result-0': 0, 'result-list': [], 'result-None': None}


def complete(fut, how):
    """:return: the exception it ended with"""
    if isinstance(fut, FakeResponse):
        exc = None if how.startswith('result') else ValueError('failed') if how != 'exit' else SystemExit(3)
        if exc is None:
            fut.complete('ok', RESULTS[how])
        else:
            fut.complete('exc', exc)
        return exc
    if isinstance(fut, WrappingFuture):
        return complete(fut.source_future, how)
    if how == 'cancel':
        fut.cancel()
        fut.set_running_or_notify_cancel()
        return None
    fut.set_running_or_notify_cancel()
    if how in RESULTS:
        fut.set_result(RESULTS[how])
    elif how == 'raised':
        try:
            raise ValueError('failed')
        except ValueError as e:
            exc = e
        fut.set_exception(exc)
        return exc
    elif how == 'in-handler':
        exc = ValueError('failed')
        try:
            raise KeyError('unrelated')
        except KeyError:
            fut.set_exception(exc)
        return exc
    else:
        exc = ValueError('failed') if how != 'exit' else SystemExit(3)
        fut.set_exception(exc)
        return exc
    return None


FUTURES = {'python': PythonFuture, 'satella': Future, 'wrapping': lambda: WrappingFuture(PythonFuture()), 'cassandra': FakeResponse}
ENDS = ['result', 'result-0', 'result-list', 'result-None', 'exception', 'exit', 'raised', 'in-handler', 'cancel']


def verify_span(tracer, span, exc, what):
    done = tracer.finished_spans()
    require(done == [span], '%s: the span was finished %d times', what, len(done))
    if exc is None:
        require('error' not in span.tags and not span.logs, '%s: the span tells of an error: %s %s', what, span.tags, span.logs)
    else:
        require(span.tags.get('error') is True, '%s: the span has no error', what)
        require(len(span.logs) == 1, '%s: %d logs', what, len(span.logs))
        kv = span.logs[0].key_values
        require(kv['error.object'] is exc and kv['error.kind'] is type(exc) and kv['message'] == str(exc), '%s: logged %s', what, kv)
        require(kv['stack'] is exc.__traceback__, '%s: the stack is %s', what, kv['stack'])


def check_future(case):
    kind, end, when = case
    tracer = MockTracer()
    span = tracer.start_span('future')
    fut = FUTURES[kind]()
    if when == 'before':
        trace_future(fut, span)
        require(not tracer.finished_spans(), 'finished at once')
    exc = complete(fut, end)
    if when == 'after':
        trace_future(fut, span)
    elif when == 'handler':
        try:
            raise IndexError('another one')
        except IndexError:
            trace_future(fut, span)
    verify_span(tracer, span, exc, case)


def future_race(kind, end):
    def body():
        tracer = MockTracer()
        span = tracer.start_span('future')
        fut = FUTURES[kind]()
        (k, exc), (k2, v) = par(lambda: complete(fut, end), lambda: trace_future(fut, span))
        require(k == 'ok' and k2 == 'ok', 'raised %s %s', exc, v)
        verify_span(tracer, span, exc, (kind, end))
    return body


# ------------------------------------------------------------------ Cassandra futures
def check_wrap(case):
    end, when, callbacks = case
    fut = FakeResponse()
    exc = None
    if when == 'after':
        exc = complete(fut, end)
    w = wrap_future(fut)
    require(isinstance(w, PythonFuture), 'wrapped is %s', w)
    called = []
    for i in range(callbacks):
        w.add_done_callback(lambda f: called.append(f))
    if when == 'before':
        require(w.running() and not w.done() and not w.cancel(), 'wrapped future is not running')
        exc = complete(fut, end)
    require(w.done() and not w.cancelled(), 'wrapped future is not done')
    require(called == [w] * callbacks, 'callbacks: %s', called)
    if exc is None:
        require(w.result() is RESULTS[end] and w.exception() is None, 'result %r', w.result())
    else:
        require(w.exception() is exc, 'exception')
    require(wrap_future(w) is w, 'wrapped twice')
    f = Future()
    require(wrap_future(f) is f, 'a Python future wrapped')


class Cursor:
    def __init__(self, outcomes):
        self.asked, self.outcomes, self.awaited = [], outcomes, []

    def execute_async(self, *args):
        f = FakeResponse()
        n = len(self.asked)
        self.asked.append(args)
        f.outcome = self.outcomes[n]
        res = f.result

        def result():
            self.awaited.append((n, len(self.asked)))
            return res()
        f.result = result
        return f


def check_parallel(case):
    query_kind, args, bad, lazy = case
    n = len(args)
    queries = ['q%d' % i for i in range(n)]
    query = {'str': 'query', 'list': queries, 'iter': iter(queries), 'short': queries[:1], 'longer': queries + ['more']}[query_kind]
    want_n = min(n, 1) if query_kind == 'short' else n
    err = KeyError('x')
    cur = Cursor([('ok', 'row%d' % i) if i != bad else ('exc', err) for i in range(n)])
    it = parallel_for(cur, query, iter(args) if lazy else list(args))
    got = []
    try:
        for v in it:
            got.append(v)
    except KeyError as e:
        require(e is err and bad < want_n, 'raised %s', e)
        want = ['row%d' % i for i in range(bad)]
    else:
        require(bad is None or bad >= want_n, 'swallowed')
        want = ['row%d' % i for i in range(want_n)]
    require(got == want, 'parallel_for%s gave %s, should %s', case, got, want)
    asked = [(('query' if query_kind == 'str' else 'q%d' % i),) + (() if a is None else (a,)) for i, a in enumerate(args)][:want_n]
    require(cur.asked == asked, 'parallel_for%s asked %s, should %s', case, cur.asked, asked)
    require(all(m == want_n for _, m in cur.awaited), 'waited before everything was sent')


def parallel_cases():
    for n in range(4):
        for args in itertools.product((None, (1,)), repeat=n):
            for q in ('str', 'list', 'iter', 'short', 'longer'):
                for bad in [None] + list(range(n)):
                    for lazy in (False, True):
                        yield q, args, bad, lazy
    for n in (4, 5, 8):
        for a in (None, (1,), ()):
            for q in ('str', 'list', 'iter'):
                for bad in (None, 0, n - 1):
                    yield q, (a,) * n, bad, True


# ------------------------------------------------------------------ traced functions
def check_function(case):
    """a history of calls of one traced function: each has a span of its own, with tags of its own"""
    tags, factory, history = case
    tracer = MockTracer()
    given = None if tags is None else dict(tags)
    fact = {'no': None, 'dict': {'arg': lambda v, **kw: v, 'kw': lambda v, k=None: k}, 'list': [('arg', lambda v, k=None: v), ('kw', lambda *a, **k: k.get('k'))]}[factory]

    @trace_function(tracer, 'name', tags=given, tags_factory=fact)
    def fun(v, k=None):
        """docs"""
        require(tracer.active_span is not None and tracer.active_span.operation_name == 'name', 'no span')
        tracer.active_span.set_tag('own', v)
        if v == 'raise':
            raise ValueError('from within')
        if v == 'nested':
            fun('inner')
        return 'result', v, k
    require(fun.__name__ == 'fun' and fun.__doc__ == 'docs', 'name of a traced function')
    expected = []

    def call(v, k, parent):
        me = {'own': v}
        if tags is not None:
            me.update(tags)
        if factory in ('dict', 'list'):
            me.update(arg=v, kw=k)
        if v == 'nested':
            call('inner', None, True)
        if v == 'raise':
            me['error'] = True
        expected.append((me, parent))
    for v in history:
        k = 'kw-' + v
        try:
            got = fun(v, k=k)
        except ValueError as e:
            require(v == 'raise' and str(e) == 'from within', 'raised %s', e)
        else:
            require(v != 'raise' and got == ('result', v, k), 'returned %s', got)
        call(v, k, False)
        require(tracer.active_span is None, 'a span is still active')
    spans = tracer.finished_spans()
    require(len(spans) == len(expected), '%d spans, should be %d', len(spans), len(expected))
    for s, (t, parent) in zip(spans, expected):
        require(s.operation_name == 'name' and s.tags == t, 'history %s: span has tags %s, should have %s', history, s.tags, t)
        require((s.parent_id is not None) == parent, 'history %s: parent', history)
    require(given == tags, 'tags given were changed to %s', given)


def function_cases():
    for tags in (None, {}, {'a': 1}):
        for factory in ('no', 'dict', 'list'):
            for n in (1, 2, 3):
                for h in itertools.product(('one', 'raise', 'nested'), repeat=n):
                    yield tags, factory, h


def function_race():
    def body():
        tracer = MockTracer()

        @trace_function(tracer, 'name', tags={'a': 1}, tags_factory=[('arg', lambda v: v)])
        def fun(v):
            require(tracer.active_span.tags['arg'] == v, 'span of another thread')
            tracer.active_span.set_tag('own', v)
            return v
        for i, (k, v) in enumerate(par(*[lambda i=i: fun(i) for i in range(2)])):
            require(k == 'ok' and v == i, 'call gave %s', v)
        got = sorted((s.tags['arg'], s.tags['own'], len(s.tags), s.parent_id) for s in tracer.finished_spans())
        require(got == [(0, 0, 3, None), (1, 1, 3, None)], 'spans %s', got)
    return body


def construct(title, fail):
    def body():
        tracer = MockTracer()
        opentracing.set_global_tracer(tracer)
        seen = []

        def f(v):
            s = tracer.active_span
            seen.append((v, s and s.parent_id, s and s.operation_name))
            if fail and v == 1:
                raise ValueError('one')
            return None if v == 2 else v * 10
        with ThreadPoolExecutor(2) as tpe:
            parallel_construct([7], f, tpe)
            require(seen == [(7, None, None)], 'a span out of nowhere: %s', seen)
            del seen[:]
            with tracer.start_active_span('parent') as scope:
                try:
                    got = parallel_construct(range(3), f, tpe, title)
                except ValueError:
                    require(fail, 'raised')
                else:
                    require(not fail and got == [0, 10], 'constructed %s', got)
        require(tracer.active_span is None, 'left active')
        for v, parent, name in seen:
            require(parent == scope.span.context.span_id, '%s ran under %s, should be a child of the current span', v, parent)
            require(name == (title or 'New span'), 'span title is %s', name)
        require(len(tracer.finished_spans()) == len(seen) + 1, '%d spans', len(tracer.finished_spans()))
        require(fail or len(seen) == 3, 'called for %s', seen)
    return body


# ------------------------------------------------------------------ exceptions
def boom(n):
    if n:
        return boom(n - 1)
    raise ValueError('boom')


def caught(n=0):
    try:
        boom(n)
    except ValueError as e:
        return e


def check_exception(case):
    how, limit, glob, depth = case
    tracer = MockTracer()
    span = tracer.start_span('s')
    set_maximum_traceback_length(glob)
    kw = {} if limit is None else {'max_tb_length': limit}
    try:
        exc = caught(depth)
        full = None
        if how == 'none':
            trace_exception(span, **kw)
            exc = None
        elif how == 'no-span':
            try:
                boom(depth)
            except ValueError:
                trace_exception(None, **kw)
            exc = None
        elif how == 'current':
            try:
                boom(depth)
            except ValueError as e:
                exc = e
                trace_exception(span, **kw)
        elif how == 'all-given':
            trace_exception(span, type(exc), exc, exc.__traceback__, **kw)
        elif how == 'given-other':
            try:
                raise KeyError('other')
            except KeyError:
                trace_exception(span, type(exc), exc, exc.__traceback__, **kw)
        elif how == 'no-traceback':
            trace_exception(span, type(exc), exc, **kw)
        elif how == 'type-only':
            try:
                boom(depth)
            except ValueError as e:
                exc = e
                trace_exception(span, ValueError, **kw)
        elif how == 'never-raised':
            exc = ValueError('boom')
            trace_exception(span, ValueError, exc, **kw)
    finally:
        set_maximum_traceback_length(65536)
    if exc is None:
        require(not span.tags and not span.logs, '%s: traced %s %s', case, span.tags, span.logs)
        return
    require(span.tags == {'error': True}, '%s: tags %s', case, span.tags)
    require(len(span.logs) == 1, '%s: %d logs', case, len(span.logs))
    kv = span.logs[0].key_values
    require(kv['event'] == 'error' and kv['error.object'] is exc and kv['error.kind'] is ValueError and kv['message'] == 'boom', '%s: logged %s', case, kv)
    m = glob if limit is None else limit
    require(len(kv['stack']) <= m, '%s: stack of %d, at most %d', case, len(kv['stack']), m)
    require(kv['stack'].startswith(('Traceback', 'NoneType', 'ValueError', 'KeyError')) or len(kv['stack']) < 10, '%s: stack begins with %r', case, kv['stack'][:30])
    if how != 'never-raised':
        require(len(kv['stack']) == m or m > 1000 and 'c45' in kv['stack'], '%s: stack of %d characters', case, len(kv['stack']))


def jobs(tier):
    deep = tier == 'thorough'
    out = [
        EnumJob('futures', lambda: [(k, e, w) for k in FUTURES for e in ENDS for w in ('before', 'after', 'handler')], check_future),
        EnumJob('wrapped', lambda: list(itertools.product(('result', 'result-0', 'result-list', 'result-None', 'exception', 'exit'), ('before', 'after'), range(3))), check_wrap),
        EnumJob('parallel-for', parallel_cases, check_parallel),
        EnumJob('functions', function_cases, check_function, shards=4),
        EnumJob('exceptions', lambda: list(itertools.product(('none', 'no-span', 'current', 'all-given', 'given-other', 'no-traceback', 'type-only', 'never-raised'),
                                                             (None, 1, 10, 100000), (5, 65536), range(3))), check_exception, shards=4),
        SchedJob('functions-race', function_race(), bound=2, only=['satella/opentracing'], max_steps=100000),
    ]
    for k in ('python', 'satella', 'wrapping'):
        for e in ('result', 'exception', 'cancel'):
            out.append(SchedJob('race-%s-%s' % (k, e), future_race(k, e), bound=4 if deep else 3, only=['satella/opentracing', 'futures.py']))
    for title in (None, 'title'):
        for fail in (False, True):
            out.append(SchedJob('construct-%s-%s' % (title, fail), construct(title, fail), bound=2 if deep else 1, only=['list_processor'], fork=True))
    return out
