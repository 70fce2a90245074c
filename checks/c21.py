"""
C21: metric types against functions of the list of recorded (time, value, labels); the metric tree against a dict of paths.
"""
import itertools
import math
import time
import warnings
from concurrent.futures import Future, ThreadPoolExecutor

from mc.jobs import SeqJob, EnumJob, SchedJob
from mc.sched import require, par, Violation, advance
from satella.coding.structures import CacheDict, LRUCacheDict
from satella.exceptions import MetricAlreadyExists
from satella.instrumentation.metrics import getMetric, MetricLevel, AggregateMetric, LabeledMetric, MetricData, \
    MetricDataCollection
from satella.instrumentation.metrics.structures import MetrifiedCacheDict, MetrifiedLRUCacheDict, \
    MetrifiedExclusiveWritebackCache, MetrifiedThreadPoolExecutor

DIS, RUN, DEB, INH = MetricLevel.DISABLED, MetricLevel.RUNTIME, MetricLevel.DEBUG, MetricLevel.INHERIT


def rep(mdc):
    """name+labels -> MetricData; a series may not be reported twice"""
    out = {}
    for d in mdc.values:
        k = (d.name, frozenset(d.labels.items()))
        require(k not in out, 'series %s reported twice: %s', k, mdc)
        out[k] = d
    return out


def close(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return a == b or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)
    return a == b


def same(mdc, want, what, ts=None, internal=False, exact_type=False):
    got = rep(mdc)
    require(set(got) == set(want), '%s: series %s, expected %s', what, sorted(map(repr, got)), sorted(map(repr, want)))
    for k, v in want.items():
        require(close(got[k].value, v), '%s: %s is %r, recorded values give %r', what, k, got[k].value, v)
        require(got[k].internal == internal, '%s: %s internal is %s', what, k, got[k].internal)
        if ts is not None:
            require(got[k].timestamp == ts.get(k, ts.get(None)), '%s: %s timestamp %s, expected %s', what, k, got[k].timestamp,
                    ts.get(k, ts.get(None)))
        else:
            require(got[k].timestamp is None, '%s: %s has a timestamp', what, k)


def key(name, **labels):
    return name, frozenset(labels.items())


# ------------------------------------------------------------------ metric types
def quantile(vals, p):
    vals = sorted(vals)
    if not vals:
        return 0.0
    k = (len(vals) - 1) * p
    lo = int(math.floor(k))
    hi = min(lo + 1, len(vals) - 1)
    return vals[lo] + (vals[hi] - vals[lo]) * (k - lo)


class TCtx:
    """one metric under test; hist: [(time, value, labels tuple)] of accepted records"""

    def __init__(self, typ, labels, base=None, **kw):
        getMetric('').reset()
        self.typ, self.kw, self.labels = typ, kw, labels
        self.base = base or {}
        if base:
            kw['labels'] = base
        self.events = []
        if typ == 'linkfail':
            kw = dict(kw, callback_on_online=lambda a, l: self.events.append((True, a, dict(l))),
                      callback_on_offline=lambda a, l: self.events.append((False, a, dict(l))))
        self.m = getMetric('x.m', typ, **kw)
        require(getMetric('x.m', typ) is self.m, 'another object for the same name')
        self.level = INH
        self.hist = []
        self.t0 = time.time()

    def effective(self):
        return RUN if self.level == INH else self.level

    def expected(self):
        """-> {series: value}, {series: timestamp}"""
        kw, h = self.kw, self.hist
        out, ts = {}, {}
        groups = {}
        for e in h:
            groups.setdefault(e[2], []).append(e)
        labelled = any(l for l in groups)
        if not groups:
            groups = {(): []}
        own_ts = h[-1][0] if h else self.t0
        for l, es in groups.items():
            lab = {**self.base, **dict(l)}
            t = es[-1][0] if es else self.t0
            part = self.series([e[1] for e in es], [e[3] for e in es], lab, labelled)
            out.update(part)
            ts.update({k: t for k in part})
        if labelled:
            part = self.totals([e[1] for e in h], [e[3] for e in h], groups)
            out.update(part)
            ts.update({k: own_ts for k in part})
        return out, ts

    def series(self, vals, times, lab, labelled):
        kw, typ = self.kw, self.typ
        if typ in ('int', 'float'):
            conv = int if typ == 'int' else float
            return {key('m', **lab): conv(vals[-1]) if vals else conv(0)}
        if typ == 'counter':
            out = {key('m', **lab): sum(vals)}
            if kw.get('count_calls'):
                out[key('m.count', **lab)] = len(vals)
            return out
        if typ == 'summary':
            w = vals[-kw['last_calls']:]
            out = {key('m', quantile=p, **lab): quantile(w, p) for p in kw['quantiles']}
            if kw.get('count_calls', True):
                out[key('m.count', **lab)] = len(vals)
                out[key('m.sum', **lab)] = sum(vals)
            return out
        if typ == 'histogram':
            out = self.buckets('m', vals, lab)
            out[key('m.sum', **lab)] = sum(vals)
            out[key('m.count', **lab)] = len(vals)
            return out
        if typ == 'cps':
            now = time.monotonic()
            return {key('m', period=p, **lab): sum(1 for t in times if now - t < p) for p in kw.get('time_unit_vectors') or [1]}
        raise Violation('type')

    def buckets(self, name, vals, lab):
        lim = [0.0] + list(self.kw['buckets']) + [math.inf]
        # labels as the library writes them: ge is the upper, le the lower end
        return {key(name, ge=hi, le=lo, **lab): sum(1 for v in vals if lo <= v < hi) for lo, hi in zip(lim, lim[1:])}

    def totals(self, vals, times, groups):
        kw, typ = self.kw, self.typ
        out = {}
        if typ == 'counter':
            if kw.get('sum_children', True):
                out[key('m.sum', **self.base)] = sum(vals)
            if kw.get('count_calls'):
                out[key('m.count', **self.base)] = len(vals)
        if typ == 'summary':
            if kw.get('aggregate_children', True):
                w = []
                for es in groups.values():
                    w += [e[1] for e in es][-kw['last_calls']:]
                out.update({key('m.total', quantile=p, **self.base): quantile(w, p) for p in kw['quantiles']})
            if kw.get('count_calls', True):
                out[key('m.count', **self.base)] = len(vals)
                out[key('m.sum', **self.base)] = sum(vals)
        if typ == 'histogram' and kw.get('aggregate_children', True):
            out.update(self.buckets('m.total', vals, self.base))
            out[key('m.total.sum')] = sum(vals)
            out[key('m.total.count')] = len(vals)
        if typ == 'cps' and kw.get('aggregate_children', True):
            now = time.monotonic()
            for p in kw.get('time_unit_vectors') or [1]:
                out[key('m.total', period=p, **self.base)] = sum(1 for t in times if now - t < p)
        return out

    def compare(self):
        want, ts = self.expected()
        stamped = ts if self.kw.get('enable_timestamp') else None
        internal = self.kw.get('internal', False)
        same(self.m.to_metric_data(), want, self.typ, stamped, internal)
        if self.effective() == RUN:
            def up(d, n):
                return {(n + '.' + k[0], k[1]): v for k, v in d.items()}
            same(getMetric('x').to_metric_data(), up(want, 'x'), 'parent', up(ts, 'x') if stamped is not None else None, internal)
            same(getMetric('').to_metric_data(), up(want, 'x'), 'root', up(ts, 'x') if stamped is not None else None, internal)
        for l in {e[2] for e in self.hist if e[2]}:
            part = rep(self.m.get_specific_metric_data(dict(l)))
            for k, v in part.items():
                require(k in want and close(v.value, want[k]), 'specific data of %s: %s', l, part)


LABELS = [(('k', 'a'),), (('k', 'b'),), (('j', 1), ('k', 'a'))]


def tops(c):
    vals = {'int': [2, -1], 'float': [2.5, -1], 'counter': [1, -2], 'summary': [1.0, 4.0, 2.5], 'histogram': [0.0, 1.0, 1.5, 2.0, 7.0],
            'cps': [None]}[c.typ]
    out = [('rec', how, v, l) for v in vals for l in c.labels for how in ('runtime',)]
    out += [('rec', how, vals[0], c.labels[0]) for how in ('debug', 'handle-run', 'handle-int')]
    out += [('level', l) for l in (DIS, RUN, DEB, INH) if l != c.level]
    if c.typ == 'cps' or c.kw.get('enable_timestamp'):
        out += [('adv', d) for d in (0.4, 0.7)]
    return out


def tapply(c, op):
    k = op[0]
    if k == 'adv':
        advance(op[1])
    elif k == 'level':
        c.m.level = op[1]
        c.level = op[1]
        require(c.m.level == c.effective(), 'level reads %s', c.m.level)
    else:
        _, how, v, l = op
        args = () if v is None else (v,)
        need = DEB if how == 'debug' else RUN
        if how == 'runtime':
            c.m.runtime(*args, **dict(l if len(c.hist) % 2 else l[::-1]))      # the order of keywords means nothing
        elif how == 'debug':
            c.m.debug(*args, **dict(l))
        elif how == 'handle-run':
            c.m.handle(RUN, *args, **dict(l))
        else:
            c.m.handle(2, *args, **dict(l))
        if c.effective() >= need:
            c.hist.append((time.time(), v if v is not None else 1, l, time.monotonic()))


def tfinish(c):
    c.compare()
    c.compare()     # reporting changes nothing


TYPES = [('int', {}), ('int', dict(internal=True)), ('int', dict(enable_timestamp=True)), ('int', dict(base={'h': 'q'})),
         ('float', {}), ('float', dict(enable_timestamp=True)),
         ('counter', {}), ('counter', dict(count_calls=True)), ('counter', dict(sum_children=False, count_calls=True)),
         ('counter', dict(internal=True)), ('counter', dict(enable_timestamp=True)), ('counter', dict(base={'h': 'q'})),
         ('summary', dict(last_calls=2, quantiles=(0.5, 0.95))), ('summary', dict(last_calls=3, quantiles=[0.25, 1.0], count_calls=False)),
         ('summary', dict(last_calls=2, quantiles=[0.5], aggregate_children=False, internal=True)),
         ('summary', dict(last_calls=2, quantiles=[0.5], enable_timestamp=True, base={'h': 'q'})),
         ('histogram', dict(buckets=(1.0, 2.0))), ('histogram', dict(buckets=[1.0], aggregate_children=False)),
         ('histogram', dict(buckets=[1.0], internal=True, enable_timestamp=True)),
         ('cps', {}), ('cps', dict(time_unit_vectors=[1, 2])), ('cps', dict(time_unit_vectors=[2, 1])), ('cps', dict(time_unit_vectors=[1], aggregate_children=False, internal=True))]


# ------------------------------------------------------------------ linkfail
class LCtx(TCtx):
    def __init__(self, labels, addresses, to_off, to_on, **kw):
        self.addresses = addresses
        super().__init__('linkfail', labels, consecutive_failures_to_offline=to_off, consecutive_successes_to_online=to_on, **kw)
        self.model = {}      # (labels, address) -> [working, fails, succs]
        self.want_events = []
        self.to_off, self.to_on = to_off, to_on


def lops(c):
    return [('rec', s, a, l) for s in (True, False) for a in c.addresses for l in c.labels]


def lapply(c, op):
    _, s, a, l = op
    if a == 0:
        c.m.runtime(s, **dict(l))
    else:
        c.m.runtime(s, a, **dict(l))
    st = c.model.setdefault((l, a), [True, 0, 0])
    if s:
        st[1] = 0
        st[2] += 1
        if not st[0] and st[2] == c.to_on:
            st[0] = True
            c.want_events.append((True, a, dict(l)))
    else:
        st[2] = 0
        st[1] += 1
        if st[0] and st[1] == c.to_off:
            st[0] = False
            c.want_events.append((False, a, dict(l)))
    require(c.events == c.want_events, 'callbacks %s, expected %s', c.events, c.want_events)


def lfinish(c):
    want = {}
    per = {}
    for (l, a) in c.model:
        per.setdefault(l, set()).add(a)
    for (l, a), st in c.model.items():
        lab = dict(l)
        if per[l] != {0}:
            lab['address'] = a
        want[key('m.consecutive_failures', **lab)] = st[1]
        want[key('m.consecutive_successes', **lab)] = st[2]
        want[key('m.status', **lab)] = int(st[0])
    same(c.m.to_metric_data(), want, 'linkfail')
    same(getMetric('').to_metric_data(), {('x.' + k[0], k[1]): v for k, v in want.items()}, 'root')


# ------------------------------------------------------------------ the tree
PATHS = ['a', 'a.b', 'a.b.c', 'a.d', 'ab']
LEAF = {'a.b.c', 'a.d'}


class Tree:
    def __init__(self):
        getMetric('').reset()
        self.root = getMetric('')
        self.nodes = {'': dict(level=RUN, obj=self.root, kind='base', value=None)}

    def parent(self, p):
        return '' if '.' not in p else p.rsplit('.', 1)[0]

    def eff(self, p):
        while self.nodes[p]['level'] == INH:
            p = self.parent(p)
        return self.nodes[p]['level']

    def children(self, p):
        return [k for k in self.nodes if k and self.parent(k) == p]

    def report(self, p, name):
        """-> {series: value}, set of series that depend on a disabled metric (left open)"""
        n = self.nodes[p]
        if n['kind'] != 'base':
            return {name: n['value']}, set()
        out, free = {}, set()
        for ch in self.children(p):
            leaf = ch.rsplit('.', 1)[-1]
            if self.eff(ch) > self.eff(p):
                continue
            o, f = self.report(ch, leaf)
            if self.eff(ch) == DIS and self.eff(p) != DIS:
                f = set(o)
            pre = name + '.' if name else ''
            out.update({pre + k: v for k, v in o.items()})
            free |= {pre + k for k in f}
        return out, free


def gops(c):
    out = []
    for p in PATHS:
        typ = 'int' if p in LEAF else 'base'
        out += [('get', p, typ, l) for l in (None, DEB)]
        if p in c.nodes:
            out += [('reset', p)]
            if c.nodes[p]['kind'] == 'int':
                out += [('rec', p, 'runtime'), ('rec', p, 'debug')]
    out += [('get', 'a.b.c', 'int', RUN), ('get', 'a.d', 'int', DIS), ('get', 'a.d', 'counter', None), ('get', 'a.d.x', 'int', None),
            ('get', 'a.b', 'int', None), ('bad', 'a-b'), ('bad', 'a b'), ('reset', ''), ('get', 'a.d', 'int', INH)]
    out += [('level', p, l) for p in ('', 'a', 'a.b', 'a.d') if p in c.nodes for l in (DIS, RUN, DEB, INH)
            if (p or l != INH) and c.nodes[p]['level'] != l]
    return out


def gapply(c, op):
    k = op[0]
    if k == 'bad':
        try:
            getMetric(op[1], 'int')
        except ValueError:
            return
        raise Violation('name %r accepted' % op[1])
    if k == 'get':
        _, p, typ, lev = op
        want = None
        if p in c.nodes:
            if c.nodes[p]['kind'] != typ:
                want = MetricAlreadyExists
        else:
            q = p
            while q not in c.nodes:
                q = c.parent(q)
            if c.nodes[q]['kind'] != 'base':
                want = TypeError
        try:
            m = getMetric(p, typ) if lev is None else getMetric(p, typ, lev)
        except (MetricAlreadyExists, TypeError) as e:
            require(want is not None and isinstance(e, want), 'getMetric%s raised %r', op, e)
            return
        require(want is None, 'getMetric%s did not raise', op)
        if p not in c.nodes:
            parts = p.split('.')
            for i in range(1, len(parts)):
                q = '.'.join(parts[:i])
                if q not in c.nodes:
                    c.nodes[q] = dict(level=lev or INH, obj=getMetric(q), kind='base', value=None)
            c.nodes[p] = dict(level=lev or INH, obj=m, kind=typ, value=0)
        if lev is not None:
            c.nodes[p]['level'] = lev
        require(m is c.nodes[p]['obj'], 'another object for %s', p)
        require(m.get_fully_qualified_name() == p, 'name of %s: %s', p, m.get_fully_qualified_name())
    elif k == 'reset':
        p = op[1]
        c.nodes[p]['obj'].reset()
        if p == '':
            c.nodes = {'': dict(level=RUN, obj=getMetric(''), kind='base', value=None)}
        else:
            for q in list(c.nodes):
                if q == p or q.startswith(p + '.'):
                    del c.nodes[q]
    elif k == 'level':
        c.nodes[op[1]]['obj'].level = op[2]
        c.nodes[op[1]]['level'] = op[2]
    elif k == 'rec':
        n = c.nodes[op[1]]
        v = n['value'] + 1
        getattr(n['obj'], op[2])(v)
        if c.eff(op[1]) >= (RUN if op[2] == 'runtime' else DEB):
            n['value'] = v


def gfinish(c):
    for p, n in c.nodes.items():
        require(n['obj'].level == c.eff(p), 'level of %s reads %s, expected %s', p, n['obj'].level, c.eff(p))
    for p, n in c.nodes.items():
        want, free = c.report(p, p.rsplit('.', 1)[-1])
        got = {d.name: d.value for d in n['obj'].to_metric_data().values}
        require(len(got) == len(n['obj'].to_metric_data().values), 'twice')
        for s in set(got) | set(want):
            if s in free:
                require(s not in got or got[s] == want[s], '%s reports %s for %s', p, got, s)
                continue
            require(s in got and s in want, '%s reports %s, expected %s', p, got, want)
            require(got[s] == want[s], '%s reports %s, expected %s', p, got, want)
    for p, n in c.nodes.items():
        require(getMetric(p, n['kind']) is n['obj'], 'another object for %s', p)


def gkey(c):
    return tuple((p, int(n['level']), n['kind'], n['value']) for p, n in sorted(c.nodes.items()))


# ------------------------------------------------------------------ measure()
class Boom(Exception):
    pass


class Base(BaseException):
    pass


def measure_cases():
    for style in ('call', 'context', 'generator', 'future'):
        for outcome in ('ok', 'boom') + (('base',) if style == 'context' else ()):
            for incl in (True, False):
                for lev in (RUN, DEB):
                    for mlev in (RUN, DEB, DIS):
                        for labels in ({}, {'k': 'v'}):
                            for wrap in ('plain', 'labeled', 'aggregate'):
                                yield style, outcome, incl, lev, mlev, labels, wrap


def measure_check(case):
    style, outcome, incl, lev, mlev, labels, wrap = case
    getMetric('').reset()
    getMetric('').level = DEB
    c1 = getMetric('s', 'summary', mlev, quantiles=[0.5])
    c2 = getMetric('t', 'counter', mlev, count_calls=True)
    m = {'plain': c1, 'labeled': LabeledMetric(c1, own='x'), 'aggregate': AggregateMetric(c1, c2)}[wrap]
    t = [10.0]

    def getter():
        return t[0]
    got = None
    kw = dict(logging_level=lev, value_getter=getter, **labels)
    try:
        if style == 'future':
            f = Future()
            m.measure_future(f, **kw)
            t[0] += 3
            if outcome == 'ok':
                f.set_result(5)
            else:
                f.set_exception(Boom())
            got = f.result()
        elif style == 'call':
            @m.measure(include_exceptions=incl, **kw)
            def fn(a, b=2):
                t[0] += 3
                if outcome != 'ok':
                    raise Boom()
                return a + b
            got = fn(3)
            require(got == 5, 'result %s', got)
        elif style == 'context':
            with m.measure(include_exceptions=incl, **kw):
                t[0] += 3
                if outcome == 'base':
                    raise KeyboardInterrupt()
                if outcome != 'ok':
                    raise Boom()
            got = 5
        else:
            @m.measure(include_exceptions=incl, **kw)
            def gen(a):
                t[0] += 1
                x = yield a
                t[0] += x
                if outcome != 'ok':
                    raise Boom()
                yield a + 1
                return 5

            def outer():
                r = yield from gen(1)
                return r
            g = outer()
            require(next(g) == 1 and g.send(2) == 2, 'elements')
            try:
                next(g)
            except StopIteration as e:
                got = e.value
        require(outcome == 'ok', 'the exception disappeared')
        require(got == 5, 'result %s', got)
    except Boom:
        require(outcome == 'boom', 'raised')
    except KeyboardInterrupt:
        if outcome != 'base':
            raise
    recorded = mlev >= lev and (outcome == 'ok' or incl or style == 'future')
    lab = dict(labels, **({'own': 'x'} if wrap == 'labeled' else {}))
    for met, n in ((c1, 's'), (c2, 't')):
        d = rep(met.to_metric_data())
        cnt = d.get(key(n + '.count', **(lab if lab and recorded and (n == 's' or wrap == 'aggregate') else {})))
        want = 1 if recorded and (n == 's' or wrap == 'aggregate') else 0
        require(cnt is not None and cnt.value == want, '%s calls recorded, expected %s: %s', cnt, want, d)
        if want and n == 's':
            require(d[key('s.sum', **lab)].value == 3 and d[key('s.sum')].value == 3, 'measured %s', d)
    # the same decorator object keeps working
    return repr(recorded)


def misc_cases():
    return ['callable', 'callable-labels', 'uptime', 'empty', 'container', 'aggregate', 'labeled', 'leaf-child', 'root-inherit',
            'deprecated-quantile', 'container-timestamp', 'data-repr', 'odd-addition']


def misc_check(case):
    getMetric('').reset()
    if case == 'callable':
        v = [1]
        m = getMetric('a.c', 'callable', value_getter=lambda: v[0])
        for x in (1, 5, -2):
            v[0] = x
            require([(d.name, d.value, dict(d.labels)) for d in m.to_metric_data().values] == [('c', x, {})], 'callable')
            require([(d.name, d.value) for d in getMetric().to_metric_data().values] == [('a.c', x)], 'callable in root')
    elif case == 'callable-labels':
        m = getMetric('c', 'callable', labels={'h': 1}, value_getter=lambda: 0)
        LabeledMetric(m, key='x', callable=lambda: 7)
        LabeledMetric(m, key='y', callable=lambda: 8)
        got = {k: d.value for k, d in rep(m.to_metric_data()).items()}
        require(got == {key('c', h=1): 0, key('c', h=1, key='x'): 7, key('c', h=1, key='y'): 8}, 'callable labels %s', got)
    elif case == 'uptime':
        advance(5)
        ticks = [7.5]
        own = getMetric('own', 'uptime', time_getter=lambda: ticks[0])
        for add in (0, 1, 2.25):
            ticks[0] += add
            advance(3)
            require(abs([d.value for d in own.to_metric_data().values][0] - (ticks[0] - 7.5)) < 1e-9, 'uptime by a clock of its own')
        m = getMetric('u', 'uptime')
        for t in (0, 1.5, 2):
            advance(t)
            t0 = sum(x for x in (0, 1.5, 2) if x <= t) if t != 2 else 3.5
            require(abs([d.value for d in m.to_metric_data().values][0] - t0) < 1e-9, 'uptime')
    elif case == 'empty':
        m = getMetric('e', 'empty')
        m.runtime(5, a=2)
        m.debug()
        require(not m.to_metric_data().values and not getMetric().to_metric_data().values, 'empty metric reports')
    elif case == 'container':
        m = getMetric('a.b')
        for f in (m.runtime,):
            try:
                f(1)
            except TypeError:
                continue
            raise Violation('container accepts values')
    elif case == 'aggregate':
        a, b = getMetric('a', 'int'), getMetric('b', 'counter')
        am = AggregateMetric(a, b)
        for v in (3, 4):
            am.runtime(v, k='z')
        am.debug(9, k='z')
        am.handle(RUN, 5, k='z')
        require(rep(a.to_metric_data())[key('a', k='z')].value == 5, 'aggregate int')
        require(rep(b.to_metric_data())[key('b', k='z')].value == 12, 'aggregate counter')
    elif case == 'labeled':
        a = getMetric('a', 'counter')
        lm = LabeledMetric(a, k='z', j=1)
        lm.runtime(2)
        lm.runtime(3, extra='q')
        lm.debug(100)
        a.runtime(4, k='z', j=1)
        d = rep(a.to_metric_data())
        require({k: x.value for k, x in d.items()} == {key('a', k='z', j=1): 6, key('a', k='z', j=1, extra='q'): 3, key('a.sum'): 9},
                'labeled %s', d)
        for n, extras in enumerate(itertools.product(({}, {'extra': 'q'}, {'more': 1}), repeat=3)):
            m = getMetric('m%d' % n, 'counter')
            wrapped = [LabeledMetric(m, k='z'), LabeledMetric(m, k='y', j=2)]
            want = {key(m.name + '.sum'): 0}
            for i, e in enumerate(extras):
                for w, own in zip(wrapped, ({'k': 'z'}, {'k': 'y', 'j': 2})):
                    w.runtime(i + 1, **e)
                    k = key(m.name, **own, **e)
                    want[k] = want.get(k, 0) + i + 1
                    want[key(m.name + '.sum')] += i + 1
            d = {k: x.value for k, x in rep(m.to_metric_data()).items()}
            require(d == want, 'labeled, with %s: %s, expected %s', extras, d, want)
    elif case == 'leaf-child':
        getMetric('l', 'int')
        for _ in range(2):
            try:
                getMetric('l.k', 'int')
            except TypeError:
                continue
            raise Violation('a leaf got a child')
    elif case == 'deprecated-quantile':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            a = getMetric('q', 'quantile', quantiles=[0.5, 0.9], last_calls=3)
        b = getMetric('s', 'summary', quantiles=[0.5, 0.9], last_calls=3)
        for v in (3, 1, 4, 1, 5):
            for m in (a, b):
                m.runtime(v, k='z')
                m.runtime(v * 2)
        got = sorted((d.name[1:], d.value, sorted(d.labels.items())) for d in a.to_metric_data().values)
        want = sorted((d.name[1:], d.value, sorted(d.labels.items())) for d in b.to_metric_data().values)
        require(repr(got) == repr(want) and got, 'quantile %s, summary %s', got, want)
    elif case == 'container-timestamp':
        t0 = time.time()
        m = getMetric('a', enable_timestamp=True)
        c = getMetric('a.b', 'int')
        e = getMetric('z', 'int', enable_timestamp=True)
        advance(3)
        c.runtime(2)
        e.runtime(4)
        require([(d.name, d.value, d.timestamp) for d in m.to_metric_data().values] == [('a.b', 2, t0)], 'timestamp of a container')
        got = {d.name: (d.value, d.timestamp) for d in getMetric('').to_metric_data().values}
        require(got == {'a.b': (2, t0), 'z': (4, t0 + 3)}, 'timestamps in the root %s', got)
    elif case == 'data-repr':
        d = MetricData('n', 3.5, {'k': 'z'}, 7)
        require(all(x in repr(d) for x in ("'n'", '3.5', "'k'", "'z'", '7')), 'shown as %r', d)
        require(repr(d) in repr(MetricDataCollection(d)), 'collection shown as %r', MetricDataCollection(d))
    elif case == 'odd-addition':
        c = MetricDataCollection(MetricData('n', 1))
        for other in (1, None, 'n', [MetricData('n', 2)]):
            try:
                c + other
            except TypeError:
                continue
            raise Violation('added %r to metric data' % (other,))
    elif case == 'root-inherit':
        try:
            getMetric('').level = INH
        except AssertionError:
            return
        raise Violation('root inherits')


# ------------------------------------------------------------------ structures with metrics
class SCtx:
    def __init__(self, lru):
        getMetric('').reset()
        self.mk = {n: getMetric('st.' + n, 'counter') for n in ('hits', 'miss', 'ref', 'evict')}
        self.summary = getMetric('st.time', 'summary', quantiles=[0.5], last_calls=10)
        self.now = 10.0
        self.mode = 'ok'
        self.calls = [0, 0]
        self.took = 0.25
        self.lru = lru
        self.want = dict(hits=0, miss=0)

        def clock():
            return self.now

        def mk(i):
            def getter(k):
                self.calls[i] += 1
                if i == 1:
                    self.now += self.took
                if self.mode == 'miss':
                    raise KeyError(k)
                return k, self.mode
            return getter
        kw = dict(time_getter=clock, cache_failures_interval=1.9, value_getter_executor=Inline())
        mkw = dict(cache_hits=self.mk['hits'], cache_miss=self.mk['miss'], refreshes=self.mk['ref'], how_long_refresh_takes=self.summary)
        if lru:
            self.ref = LRUCacheDict(1.0, 2.0, mk(0), max_size=lru, **kw)
            self.sut = MetrifiedLRUCacheDict(1.0, 2.0, mk(1), max_size=lru, evictions=self.mk['evict'], **kw, **mkw)
        else:
            self.ref = CacheDict(1.0, 2.0, mk(0), **kw)
            self.sut = MetrifiedCacheDict(1.0, 2.0, mk(1), **kw, **mkw)


class Inline:
    def submit(self, fn, *a, **k):
        f = Future()
        try:
            f.set_result(fn(*a, **k))
        except Exception as e:
            f.set_exception(e)
        return f


def sops(c):
    out = [('get', k) for k in range(3 if c.lru else 2)] + [('adv', d) for d in (0.6, 1.3, 2.3)] + [('mode', m) for m in ('ok', 'miss')
                                                                                              if m != c.mode]
    return out + [('inval', 0), ('feed', 0)]


def sapply(c, op):
    k = op[0]
    if k == 'adv':
        c.now += op[1]
    elif k == 'mode':
        c.mode = op[1]
    elif k == 'feed':
        c.ref.feed(op[1], 'fed')
        c.sut.feed(op[1], 'fed')
    elif k == 'inval':
        c.ref.invalidate(op[1])
        c.sut.invalidate(op[1])
    else:
        c.took = 0
        hit = c.ref.has_info_about(op[1])
        c.want['hits' if hit else 'miss'] += 1
        r = []
        for d in (c.ref, c.sut):
            try:
                r.append(('ok', d[op[1]]))
            except KeyError:
                r.append(('missing', None))
        require(r[0] == r[1], 'the cache with metrics read %s, without %s', r[1], r[0])


def sfinish(c):
    got = {n: [d.value for d in m.to_metric_data().values][0] for n, m in c.mk.items()}
    require(got['hits'] == c.want['hits'] and got['miss'] == c.want['miss'], 'counted %s, expected %s', got, c.want)
    require(c.calls[0] == c.calls[1] == got['ref'], 'loads %s, counted %s', c.calls, got['ref'])
    require(rep(c.summary.to_metric_data())[key('time.count')].value == c.calls[1], 'measured loads')


def wb_cases():
    return itertools.product('grwd', repeat=4)


def wb_check(case):
    getMetric('').reset()
    hits, miss, waiting = getMetric('h', 'counter'), getMetric('m', 'counter'), getMetric('w', 'callable')
    store = {1: 'a'}
    w = MetrifiedExclusiveWritebackCache(store.__setitem__, store.__getitem__, store.__delitem__, cache_hits=hits, cache_miss=miss,
                                         entries_waiting=waiting, executor=Inline())
    model, known = dict(store), set()
    h = m = 0
    for op in case:
        if op in 'gr':
            k = 1 if op == 'g' else 2
            if k in known:
                h += 1
            else:
                m += 1
            try:
                v = w[k]
                require(model.get(k) == v, 'read %s', v)
                known.add(k)
            except KeyError:
                require(k not in model, 'KeyError')
                known.add(k)
        elif op == 'w':
            w[2] = model[2] = 'n'
            known.add(2)
        else:
            if 2 in model:
                del w[2]
                del model[2]
                known.discard(2)
        n = [d.value for d in waiting.to_metric_data().values][0]
        require(n == w.get_queue_length() == 0, 'entries waiting %s', n)
    require(store == model, 'store')
    got = [[d.value for d in x.to_metric_data().values][0] for x in (hits, miss)]
    require(got[0] + got[1] == h + m, 'reads counted %s, made %s', got, h + m)
    if 'd' not in case:
        require(got == [h, m], 'hits, misses %s, expected %s', got, [h, m])


# ------------------------------------------------------------------ threads
def wb_waiting():
    getMetric('').reset()
    waiting = getMetric('w', 'callable')
    ex = ThreadPoolExecutor(max_workers=1)
    w = MetrifiedExclusiveWritebackCache(lambda k, v: advance(10), lambda k: k, None, executor=ex, entries_waiting=waiting)
    seen = []
    for i in range(3):
        w[i] = 1
        advance(1)
        seen.append([d.value for d in waiting.to_metric_data().values][0])
    require(seen == [0, 1, 2], 'entries waiting %s', seen)
    w.sync()
    require([d.value for d in waiting.to_metric_data().values] == [0], 'after sync')
    ex.shutdown()


def pool_metrics():
    getMetric('').reset()
    wm, em, tm = getMetric('w', 'summary', quantiles=[1.0]), getMetric('e', 'summary', quantiles=[1.0]), getMetric('n', 'callable')
    ex = MetrifiedThreadPoolExecutor(max_workers=1, time_spent_waiting=wm, time_spent_executing=em, waiting_tasks=tm)
    f = [ex.submit(lambda i=i: (advance(2), i)[1]) for i in range(3)]
    advance(1)
    require([d.value for d in tm.to_metric_data().values] == [2], 'waiting tasks')
    require([x.result() for x in f] == [0, 1, 2], 'results')
    ex.shutdown()
    a, b = rep(wm.to_metric_data()), rep(em.to_metric_data())
    require(close(a[key('w.sum')].value, 6.0) and a[key('w.count')].value == 3, 'waiting %s', a)
    require(close(b[key('e.sum')].value, 6.0) and b[key('e.count')].value == 3, 'executing %s', b)


def create_race():
    getMetric('').reset()
    r = par(lambda: getMetric('p.q', 'counter'), lambda: getMetric('p.q', 'counter'))
    for k, v in r:
        if k == 'exc':
            raise v
    require(r[0][1] is r[1][1] is getMetric('p.q', 'counter'), 'two objects under one name')
    r[0][1].runtime(2)
    require([(d.name, d.value) for d in getMetric().to_metric_data().values] == [('p.q', 2)], 'reported')


def create_siblings():
    getMetric('').reset()
    r = par(lambda: getMetric('p.q', 'counter').runtime(1), lambda: getMetric('p.r', 'counter').runtime(2))
    for k, v in r:
        if k == 'exc':
            raise v
    got = sorted((d.name, d.value) for d in getMetric().to_metric_data().values)
    require(got == [('p.q', 1), ('p.r', 2)], 'after two creations: %s', got)


def many_cases():
    for i in range(len(TYPES)):
        for n in (1, 3, 4, 5, 9):
            for order in ('up', 'down', 'twice', 'back'):
                yield i, n, order


def many_check(case):
    # more children than any sequence above makes, recorded to in various orders
    i, n, order = case
    typ, kw = TYPES[i]
    labels = [(('k', 'v%d' % j),) for j in range(n)]
    c = TCtx(typ, labels, **dict(kw))
    seq = {'up': labels, 'down': labels[::-1], 'twice': labels * 2, 'back': labels + labels[-2::-1]}[order]
    for j, l in enumerate(seq):
        v = {'cps': None, 'counter': j + 1, 'int': 3 * j - 4, 'float': j + 0.5}.get(typ, (j * 7) % 5 / 2)
        tapply(c, ('rec', 'runtime', v, l))
        if (typ == 'cps' or kw.get('enable_timestamp')) and j % 3 == 2:
            advance(0.37)
    tfinish(c)


def jobs(tier):
    q = tier == 'quick'
    out = []
    for i, (typ, kw) in enumerate(TYPES):
        for labels in ([()], LABELS):
            if typ == 'histogram' and kw.get('aggregate_children') is False:
                pass
            d = 3 if q else 4
            if len(labels) == 1 and typ not in ('histogram', 'summary'):
                d += 1
            out.append(SeqJob('%s-%d-%s' % (typ, i, 'labels' if labels[0] else 'plain'),
                              lambda typ=typ, labels=labels, kw=kw: TCtx(typ, labels, **kw), tops, tapply, finish=tfinish, depth=d,
                              dedupe=False))
    for n, labels, addr, off, on, d in (('plain', [()], [0], 2, 2, 7), ('addr', [()], [0, 5], 2, 1, 5), ('addr2', [()], [7, 5], 1, 2, 5),
                                        ('labels', [(('k', 'a'),), (('k', 'b'),)], [0], 2, 2, 5),
                                        ('both', [(('k', 'a'),), (('k', 'b'),)], [0, 3], 2, 1, 4)):
        out.append(SeqJob('linkfail-' + n, lambda labels=labels, addr=addr, off=off, on=on: LCtx(labels, addr, off, on), lops, lapply,
                          finish=lfinish, depth=d if q else d + 1, dedupe=False))
    out.append(SeqJob('tree', Tree, gops, gapply, finish=gfinish, depth=4 if q else 5, shards=8))
    out.append(EnumJob('measure', measure_cases, measure_check))
    out.append(EnumJob('misc', misc_cases, misc_check))
    out.append(EnumJob('children', many_cases, many_check))
    out.append(SeqJob('cache', lambda: SCtx(0), sops, sapply, finish=sfinish, depth=4 if q else 5, dedupe=False))
    out.append(SeqJob('lru-1', lambda: SCtx(1), sops, sapply, finish=sfinish, depth=4 if q else 5, dedupe=False))
    out.append(SeqJob('lru', lambda: SCtx(2), sops, sapply, finish=sfinish, depth=4 if q else 5, dedupe=False))
    out.append(EnumJob('writeback', wb_cases, wb_check, shards=4))
    o = ['metrics/__init__.py', 'metric_types/base.py']
    out += [SchedJob('waiting', wb_waiting, bound=0, only=['nothing']), SchedJob('pool', pool_metrics, bound=0, only=['nothing']),
            SchedJob('create', create_race, bound=2, only=o), SchedJob('siblings', create_siblings, bound=1 if q else 2, only=o)]
    return out
