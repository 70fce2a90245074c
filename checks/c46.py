"""
C46: the Prometheus endpoint, over a network made of queues: all interleavings of starting, terminating, joining and requests; binding that fails.
"""
import io
import itertools
import socket
import socketserver
import http.server
import sys
import time

from mc.jobs import EnumJob, SchedJob
from mc.sched import require, par, spawn, now, pause
from satella.instrumentation.metrics import MetricData, MetricDataCollection, getMetric
from satella.instrumentation.metrics.exporters import PrometheusHTTPExporterThread, metric_data_collection_to_prometheus

socketserver.time = time.monotonic


class Connection:
    def __init__(self, net, data):
        self.net, self.data, self.out, self.done = net, data, b'', False

    def makefile(self, mode, bufsize=-1):
        return io.BytesIO(self.data)

    def sendall(self, b):
        self.out += bytes(b)

    def shutdown(self, how):
        pass

    def close(self):
        self.done = True

    def settimeout(self, v):
        pass

    def setsockopt(self, *a):
        pass


class Listener:
    def __init__(self, net):
        self.net, self.bound, self.closed, self.queue = net, False, False, []

    def gettimeout(self):
        return None

    def close(self):
        self.closed = True

    def fileno(self):
        return 99


class Selector:
    """select() over the listener, polling on the clock"""

    def __init__(self):
        self.server = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def register(self, server, events, data=None):
        self.server = server

    def unregister(self, server):
        pass

    def close(self):
        pass

    def select(self, timeout=None):
        deadline = None if timeout is None else now() + timeout
        while True:
            if self.server.socket.queue:
                return [(self.server, 1)]
            if deadline is not None and now() > deadline:
                return []
            time.sleep(0.25 if deadline is None else min(0.25, deadline - now() + 0.001))


class Network:
    def __init__(self, fail=None):
        self.fail, self.listeners = fail, []

    def __enter__(self):
        net = self
        T, H, S = socketserver.TCPServer, http.server.HTTPServer, socketserver

        def init(server, address, handler, bind_and_activate=True):
            S.BaseServer.__init__(server, address, handler)
            server.socket = Listener(net)
            net.listeners.append(server.socket)
            if bind_and_activate:
                try:
                    server.server_bind()
                    server.server_activate()
                except BaseException:
                    server.server_close()
                    raise

        def server_bind(server):
            pause()
            if net.fail == 'bind':
                raise OSError(98, 'Address already in use')
            server.socket.bound = True
            server.server_name, server.server_port = server.server_address[:2]

        def server_activate(server):
            pause()
            if net.fail == 'listen':
                raise OSError(98, 'Address already in use')

        def get_request(server):
            return server.socket.queue.pop(0), ('127.0.0.1', 5555)
        self.saved = [(T, '__init__', T.__init__), (T, 'server_bind', T.server_bind), (H, 'server_bind', H.__dict__.get('server_bind')),
                      (T, 'server_activate', T.server_activate), (T, 'get_request', T.get_request), (S, '_ServerSelector', S._ServerSelector),
                      (sys, 'stderr', sys.stderr)]
        T.__init__, T.server_bind, H.server_bind, T.server_activate, T.get_request = init, server_bind, server_bind, server_activate, get_request
        S._ServerSelector = Selector
        sys.stderr = io.StringIO()
        return self

    def __exit__(self, *a):
        for obj, name, v in self.saved:
            setattr(obj, name, v)

    def connect(self, data):
        c = Connection(self, data)
        l = self.listeners[-1]
        require(l.bound and not l.closed, 'connection refused')
        l.queue.append(c)
        return c

    def ask(self, path, method='GET', limit=5):
        c = self.connect(('%s %s HTTP/1.0\r\nHost: x\r\n\r\n' % (method, path)).encode())
        deadline = now() + limit
        while not c.done:
            require(now() < deadline, 'no answer to %s', path)
            time.sleep(0.1)
        head, _, body = c.out.partition(b'\r\n\r\n')
        line = head.split(b'\r\n')[0].split() if head else [b'', b'0']
        return int(line[1]), body.decode('utf8'), head.decode('latin1')

    def wait_up(self, limit=5):
        deadline = now() + limit
        while not self.listeners[-1].bound:
            require(now() < deadline, 'does not listen')
            time.sleep(0.1)


class Exporter(PrometheusHTTPExporterThread):
    def __init__(self, data=(), labels=None, metric=False):
        self.answers = list(data)
        self.asked = 0
        super().__init__('localhost', 1025, labels, metric)

    def get_metric_data(self):
        self.asked += 1
        v = self.answers[min(self.asked, len(self.answers)) - 1]
        if isinstance(v, Exception):
            raise v
        return MetricDataCollection(*[MetricData(*q) for q in v])


SIMPLE = [[('a.b', 1), ('c', 2.5, {'x': 'y'})]]
BOUND = 2.0


def finish(t, net, started=True):
    asked = now()
    require(t.terminate() is t, 'terminate gives %s', t)
    require(t.terminating, 'not terminating')
    if started:
        t.join()
        require(not t.is_alive(), 'still alive')
        require(all(l.closed for l in net.listeners), 'the port is still open')
    require(now() - asked <= BOUND, 'terminating took %s s', now() - asked)


def lifecycle(history, fail=None):
    """s: start, t: terminate, j: join, w: wait, g: get"""
    def body():
        with Network(fail) as net:
            t = Exporter(SIMPLE)
            started = terminated = False
            for op in history:
                if op == 's':
                    require(t.start() is t, 'start gives something else')
                    started = True
                elif op == 't':
                    t0 = now()
                    t.terminate()
                    require(now() - t0 <= BOUND, 'terminate took long')
                    terminated = True
                elif op == 'j':
                    t0 = now()
                    t.join()
                    require(now() - t0 <= BOUND, 'join took long')
                elif op == 'w':
                    time.sleep(1.1)
                elif op == 'g':
                    net.wait_up()
                    require(net.ask('/metrics')[0] == 200, 'no data')
            finish(t, net, started)
    return body


def lifecycle_with():
    def body():
        with Network() as net:
            with Exporter(SIMPLE) as t:
                net.wait_up()
                require(net.ask('/metrics')[0] == 200, 'no data')
            require(not t.is_alive(), 'still alive')
            require(net.listeners[-1].closed, 'the port is still open')
    return body


def racing(n):
    """termination by several threads while starting up"""
    def body():
        with Network() as net:
            t = Exporter(SIMPLE)
            t.start()
            for kind, v in par(*[t.terminate for _ in range(n)]):
                require(kind == 'ok', 'terminate raised %s', v)
            finish(t, net)
    return body


def request_race():
    """a request that got in is answered in full, or not at all"""
    def body():
        with Network() as net:
            t = Exporter(SIMPLE)
            t.start()
            net.wait_up()
            c = net.connect(b'GET /metrics HTTP/1.0\r\n\r\n')
            t.terminate()
            finish(t, net)
            require(not c.out or c.out.startswith(b'HTTP/1.0 200') and canon(c.out.decode().partition('\r\n\r\n')[2]) == ['a_b 1', 'c{x="y"} 2.5'], 'answered %s', c.out)
    return body


# ------------------------------------------------------------------ content
DATA = [[], [('a', 1)], [('a.b', 1), ('c', 2.5, {'x': 'y'})], [('n', 0, {'q': 'a"b\\c\nd'}), ('n', -1, {'q': 'z', 'r': 5})],
        [('t', 3, {}, 10.5)], [('i', 1, {}, None, True), ('j', 2)], [('i', 1, {}, None, True)]]


def rendered(data, labels):
    out = ''
    for q in data:
        q = tuple(q) + (None,) * (5 - len(q))
        if q[4]:
            continue
        ls = dict(q[2] or {})
        ls.update(labels)
        out += q[0].replace('.', '_')
        if ls:
            out += '{' + ','.join('%s="%s"' % (k, str(v).replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')) for k, v in ls.items()) + '}'
        out += ' %s' % (q[1],)
        if q[3] is not None:
            out += ' %d' % int(q[3] * 1000)
        out += '\n'
    return out


def canon(text):
    """neither the order of lines nor of labels matters"""
    out = []
    for line in text.split('\n'):
        if line:
            name, brace, rest = line.partition('{')
            labels, _, tail = rest.rpartition('}')
            out.append(name + brace + ','.join(sorted(labels.split(','))) + ('}' if brace else '') + tail)
    return sorted(out)


def content(first, second, labels):
    def body():
        with Network() as net:
            t = Exporter([DATA[first], DATA[second]], labels)
            t.start()
            net.wait_up()
            for d in (first, second):
                code, text, head = net.ask('/metrics')
                require(code == 200, 'code %s', code)
                require('text/plain' in head, 'content type: %s', head)
                want = rendered(DATA[d], labels or {})
                require(canon(text) == canon(want), 'answered %s, should be %s', repr(text), repr(want))
            finish(t, net)
    return body


def odd_requests(which):
    def body():
        with Network() as net:
            t = Exporter([DATA[1], ValueError('cannot'), DATA[1]] if which == 'failing' else [DATA[1]])
            t.start()
            net.wait_up()
            if which == 'failing':
                require(net.ask('/metrics')[0] == 200, 'first')
                code, text, _ = net.ask('/metrics')
                require(code != 200, 'failing data gave %s', text)
            elif which == 'garbage':
                c = net.connect(b'nonsense\r\n\r\n')
                time.sleep(1)
                require(c.done and b' 200 ' not in c.out, 'garbage answered %s', c.out)
            elif which == 'dropped':
                c = net.connect(b'')
                time.sleep(1)
                require(c.done and not c.out, 'nothing answered %s', c.out)
            elif which == 'post':
                require(net.ask('/metrics', 'POST')[0] == 501, 'POST')
            else:
                code, text, _ = net.ask(which)
                require(code == 404, '%s gives %s', which, code)
                require(t.asked == 0, 'data read for %s', which)
            code, text, _ = net.ask('/metrics')
            require(code == 200 and text == 'a 1\n', 'not served any more: %s %s', code, text)
            finish(t, net)
    return body


def real_metrics():
    """the default data: all metrics of this process"""
    def body():
        with Network() as net:
            m = getMetric('c46.metric', 'int')
            m.runtime(5)
            t = PrometheusHTTPExporterThread('localhost', 1025, {'service': 's'}, enable_metric=True)
            t.start()
            net.wait_up()
            for v in (5, 6, 7):
                m.runtime(v)
                code, text, _ = net.ask('/metrics')
                require(code == 200 and 'c46_metric{service="s"} %d\n' % v in text, 'metrics served: %s', text)
            exports = [d.value for d in getMetric('prometheus.exports_per_time', 'cps').to_metric_data().values if d.labels.get('period') == 60]
            require(exports == [3], 'counted exports: %s', exports)
            finish(t, net)
    return body


def jobs(tier):
    deep = tier == 'thorough'
    only = ['exporters/prometheus']
    opts = dict(only=only, fork=True, max_steps=100000)
    out = []
    b = 3 if deep else 2
    for h in ('', 't', 'tt', 's', 'sw', 'st', 'stt', 'sg', 'swgt', 'sgg', 'swtj', 'stj', 'swtt', 'sgtj', 'stjt'):
        out.append(SchedJob('history-' + h, lifecycle(h), bound=b, **opts))
    for f in ('bind', 'listen'):
        for h in ('s', 'sw', 'st', 'swt', 'swtt', 'sj', 'sjt', 'stj'):
            out.append(SchedJob('history-%s-%s-fails' % (h, f), lifecycle(h, f), bound=b, **opts))
    out.append(SchedJob('with', lifecycle_with(), bound=b, **opts))
    for n in (1, 2):
        out.append(SchedJob('racing-%d' % n, racing(n), bound=b, **opts))
    out.append(SchedJob('request-race', request_race(), bound=b, clock_choice=True, **opts))
    for i, j in itertools.product(range(len(DATA)), repeat=2):
        for n, labels in enumerate((None, {'service': 's"'})):
            out.append(SchedJob('content-%d-%d-%d' % (i, j, n), content(i, j, labels), bound=0, **opts))
    for which in ('failing', 'garbage', 'dropped', 'post', '/', '/metricsx', '/metrics/x', '/x/metrics', '/metrics/metrics', 'metrics', '/index.html'):
        out.append(SchedJob('odd-%s' % which.replace('/', '_'), odd_requests(which), bound=b, **opts))
    out.append(SchedJob('default', real_metrics(), bound=0, **opts))
    return out
