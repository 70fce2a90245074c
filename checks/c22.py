"""
C22: metric data collections against a dict from (name, labels) to (value, timestamp, internal); the text export is read back
by an independent parser of the Prometheus text format.
"""
import copy
import itertools
import json

from mc.jobs import SeqJob, EnumJob
from mc.sched import require, Violation
from satella.instrumentation.metrics import MetricData, MetricDataCollection, getMetric
from satella.instrumentation.metrics.exporters import metric_data_collection_to_prometheus

NAMES = ['m', 'm.sum', 'a.m']
LABELS = [{}, {'k': 'v'}, {'k': 'w', 'j': 2}]


def model(mdc):
    out = {}
    for d in mdc.values:
        k = (d.name, frozenset(d.labels.items()))
        require(k not in out, 'series %s twice in %s', k, mdc)
        out[k] = (d.value, d.timestamp, bool(d.internal))
    return out


def fresh_like(m):
    return MetricDataCollection([MetricData(n, v, dict(l), t, i) for (n, l), (v, t, i) in m.items()])


class Ctx:
    """two collections and their models; operations on one may not be seen through the other"""

    def __init__(self):
        self.c = [MetricDataCollection(), MetricDataCollection(MetricData('m', 1, {'k': 'v'}))]
        self.m = [{}, {('m', frozenset({('k', 'v')})): (1, None, False)}]
        self.n = 1

    def item(self, i):
        self.n += 1
        n, l = NAMES[i % 3], LABELS[i // 3]
        return (n, frozenset(l.items())), (self.n, None, False)


def ops(c):
    out = [('iadd', 0, i) for i in (0, 1, 4, 5, 8)] + [('add', 0, i) for i in (0, 4)] + [('addi', 0, 8)]
    for w in (0, 1):
        out += [('prefix', w, 'a'), ('postfix', w, 'sum'), ('prefix', w, ''), ('labels', w), ('stamp', w), ('value', w), ('internals', w)]
    out += [('sum', 0), ('isum', 0), ('sumr', 0), ('isum', 1), ('wrap',), ('json',), ('copy',)]
    return out


def rename(m, f):
    out = {}
    for (n, l), v in m.items():
        out[f(n), l] = v
    return out


def apply(c, op):
    k = op[0]
    if k in ('iadd', 'add', 'addi'):
        s, v = c.item(op[2])
        if k == 'addi':
            v = (v[0], 7.5, True)
        d = MetricData(s[0], v[0], dict(s[1]), v[1], v[2])
        if k == 'add':
            old = c.c[0]
            before = model(old)
            c.c[0] = c.c[0] + d
            require(model(old) == before, 'adding changed the operand')
        else:
            c.c[0] += d
        c.m[0] = {**c.m[0], s: v}
    elif k in ('prefix', 'postfix'):
        w, t = op[1], op[2]
        f = (lambda n: n if t == '' else t + '.' + n) if k == 'prefix' else (lambda n: n + '.' + t)
        x = c.c[w]
        r = x.prefix_with(t) if k == 'prefix' else x.postfix_with(t)
        require(r is x, '%s_with does not return the collection', k)
        c.m[w] = rename(c.m[w], f)
    elif k == 'labels':
        # a label that would merge two series is left out
        new = {(n, frozenset({**dict(l), 'z': 9}.items())): v for (n, l), v in c.m[op[1]].items()}
        if len(new) == len(c.m[op[1]]):
            c.c[op[1]].add_labels({'z': 9})
            c.m[op[1]] = new
    elif k == 'stamp':
        require(c.c[op[1]].set_timestamp(33.5) is c.c[op[1]], 'set_timestamp')
        c.m[op[1]] = {s: (v, 33.5, i) for s, (v, t, i) in c.m[op[1]].items()}
    elif k == 'value':
        require(c.c[op[1]].set_value(-4) is c.c[op[1]], 'set_value')
        c.m[op[1]] = {s: (-4, t, i) for s, (v, t, i) in c.m[op[1]].items()}
    elif k == 'internals':
        c.c[op[1]].remove_internals()
        c.m[op[1]] = {s: v for s, v in c.m[op[1]].items() if not v[2]}
    elif k == 'sum':
        c.c[0] = c.c[0] + c.c[1]
        c.m[0] = {**c.m[0], **c.m[1]}
    elif k == 'sumr':
        c.c[0] = c.c[1] + c.c[0]
        c.m[0] = {**c.m[1], **c.m[0]}
    elif k == 'isum':
        a, b = op[1], 1 - op[1]
        c.c[a] += c.c[b]
        c.m[a] = {**c.m[a], **c.m[b]}
    elif k == 'wrap':
        c.c[0] = MetricDataCollection(c.c[1])
        c.m[0] = dict(c.m[1])
    elif k == 'json':
        j = c.c[1].to_json()
        snap = copy.deepcopy(j)
        c.c[0] = MetricDataCollection.from_json(j)
        require(j == snap, 'reading the JSON form changed it')
        c.m[0] = dict(c.m[1])
    elif k == 'copy':
        c.c[0] = MetricDataCollection(*list(c.c[1].values))
        c.m[0] = dict(c.m[1])


def finish(c):
    for i in (0, 1):
        got = model(c.c[i])
        require(got == c.m[i], 'collection %s holds %s, expected %s', i, got, c.m[i])
        twin = fresh_like(c.m[i])
        require(c.c[i] == twin and twin == c.c[i] and c.c[i].strict_eq(twin) and twin.strict_eq(c.c[i]),
                'differs from a collection of the same data: %s', c.c[i])
        for (n, l), v in c.m[i].items():
            require(MetricData(n, 0, dict(l)) in c.c[i].values, '%s %s cannot be found in the set', n, l)
        back = MetricDataCollection.from_json(json.loads(json.dumps(c.c[i].to_json())))
        require(model(back) == c.m[i], 'JSON round trip: %s', back)
        if c.m[i]:
            s, (v, t, it) = sorted(c.m[i].items(), key=repr)[0]
            other = dict(c.m[i])
            other[s] = (v + 1000, t, it)
            require(not c.c[i].strict_eq(fresh_like(other)), 'strictly equal to different values')
            del other[s]
            require(not c.c[i].strict_eq(fresh_like(other)) and not fresh_like(other).strict_eq(c.c[i]), 'equal to a part')
            require(c.c[i] != fresh_like(other), 'equal to a part')
        compare_export(c.c[i], c.m[i])


# ------------------------------------------------------------------ text export
def parse(text):
    """an independent reader of the text format -> [(name, labels, value text, timestamp text)]"""
    out = []
    pos = 0
    n = len(text)
    while pos < n:
        if text[pos] == '\n':
            pos += 1
            continue
        st = pos
        while pos < n and text[pos] not in '{ \n':
            pos += 1
        name = text[st:pos]
        require(name and all(ch.isalnum() or ch in '_:' for ch in name), 'bad name %r in %r', name, text)
        labels = {}
        if pos < n and text[pos] == '{':
            pos += 1
            while text[pos] != '}':
                st = pos
                while text[pos] != '=':
                    pos += 1
                ln = text[st:pos]
                require(ln and ln not in labels and all(ch.isalnum() or ch == '_' for ch in ln), 'bad label name %r in %r', ln, text)
                require(text[pos + 1] == '"', 'unquoted label in %r', text)
                pos += 2
                val = ''
                while text[pos] != '"':
                    if text[pos] == '\\':
                        require(text[pos + 1] in '\\"n', 'bad escape in %r', text)
                        val += {'\\': '\\', '"': '"', 'n': '\n'}[text[pos + 1]]
                        pos += 2
                    else:
                        require(text[pos] != '\n', 'line break within a label of %r', text)
                        val += text[pos]
                        pos += 1
                labels[ln] = val
                pos += 1
                if text[pos] == ',':
                    pos += 1
            pos += 1
        require(text[pos] == ' ', 'no value after %r in %r', name, text)
        end = text.index('\n', pos)
        fields = text[pos + 1:end].split(' ')
        require(len(fields) in (1, 2), 'fields %s', fields)
        out.append((name, labels, fields[0], fields[1] if len(fields) == 2 else None))
        pos = end + 1
    return out


def compare_export(mdc, m):
    try:
        got = parse(metric_data_collection_to_prometheus(mdc))
    except IndexError:
        raise Violation('the export breaks off: %r' % metric_data_collection_to_prometheus(mdc))
    got = sorted((n, tuple(sorted(l.items())), float(v), None if t is None else int(t)) for n, l, v, t in got)
    want = sorted((n.replace('.', '_'), tuple(sorted((k, str(v)) for k, v in l)), float(v), None if t is None else int(t * 1000))
                  for (n, l), (v, t, i) in m.items() if not i)
    require(list(map(repr, got)) == list(map(repr, want)), 'exported %s, data %s', got, want)


ALPHA = ['', '"', '\\', '\n', 'n', ',', '}', '{', '=', ' ', 'é', "'"]
VALUES = [0, -1, 2.5, 1e300, 1e-9, float('inf'), float('-inf')]


def export_cases():
    for n in range(0, 4):
        for t in itertools.product(ALPHA[1:], repeat=n):
            yield 'label', ''.join(t)
    for v in VALUES:
        for ts in (None, 0, 10, 1600000000.25):
            for internal in (False, True):
                for l in LABELS:
                    yield 'value', v, ts, internal, l
    for r in range(0, 4):
        for t in itertools.product(range(6), repeat=r):
            yield 'many', t


def export_check(case):
    if case[0] == 'label':
        m = {('m', frozenset({('k', case[1]), ('j', case[1][::-1])})): (1, None, False), ('m', frozenset()): (2, None, False)}
    elif case[0] == 'value':
        _, v, ts, internal, l = case
        m = {('a.b.m', frozenset(l.items())): (v, ts, internal)}
    else:
        m = {}
        for j, i in enumerate(case[1]):
            m[NAMES[i % 3], frozenset(LABELS[i // 3].items())] = (j, None, j == 1)
    c = fresh_like(m)
    compare_export(c, m)
    back = MetricDataCollection.from_json(json.loads(json.dumps(c.to_json())))
    require(model(back) == m, 'JSON round trip: %s of %s', back, m)
    for d in c.values:
        j = d.to_json('pre')
        e = MetricData.from_json(dict(j))
        require(e.name == 'pre.' + d.name and e.value == d.value and e.labels == d.labels and e.timestamp == d.timestamp and
                e.internal == d.internal, 'single JSON round trip')


def whole_cases():
    for types in itertools.permutations(['int', 'counter', 'summary', 'histogram', 'cps', 'linkfail'], 2):
        for labels in ({}, {'k': 'a"b\n'}):
            for internal in (False, True):
                yield types, labels, internal


def whole_check(case):
    types, labels, internal = case
    getMetric('').reset()
    for i, t in enumerate(types):
        m = getMetric('r%d.%s' % (i % 2, t), t, internal=internal and i == 0)
        for _ in range(2):
            if t == 'cps':
                m.runtime(**labels)
            else:
                m.runtime(1, **labels)
    root = getMetric('').to_metric_data()
    compare_export(root, model(root))
    require(root == fresh_like(model(root)), 'the root data differs from a collection of the same series')
    text = metric_data_collection_to_prometheus(root)
    require(internal == ('r0_' not in text), 'internal metrics in the export: %s', text)
    parts = MetricDataCollection()
    for i in (0, 1):
        parts += getMetric('r%d' % i).to_metric_data()
    require(model(parts) == model(root), 'parts do not add up')


def jobs(tier):
    q = tier == 'quick'
    return [SeqJob('ops', Ctx, ops, apply, finish=finish, depth=3 if q else 4, dedupe=False, shards=8),
            EnumJob('export', export_cases, export_check, shards=4),
            EnumJob('whole', whole_cases, whole_check, shards=2)]
