"""
C24: trees of configuration sources against a recursive reference evaluator, provided repeatedly; the declarative form of every
tree next to the built one. Files live in a scratch directory made per case.
"""
import copy
import itertools
import json
import logging
import os
import shutil
import tempfile

from mc.jobs import EnumJob
from mc.sched import require, Violation
from satella.coding.algos import merge_dicts
from satella.configuration.sources import StaticSource, JSONSource, AlternativeSource, OptionalSource, MergingSource, \
    BuildObjectFrom, EnvironmentSource, EnvVarsSource, FileSource, DirectorySource, BaseSource, load_source_from_dict, \
    load_source_from_list, FORMAT_SOURCES
from satella.configuration import sources as S
from satella.exceptions import ConfigurationError

FAIL = '<fails>'
DOCS = [{}, {'a': 1}, {'a': 2, 'b': [1]}, {'a': {'x': 1, 'y': [3]}}, {'a': {'x': 2, 'y': [4], 'z': {'w': 1}}, 'b': [2]}, {'b': {'q': []}}]


class Src(Exception):
    pass


def merge(a, b):
    """without touching either"""
    if isinstance(a, dict) and isinstance(b, dict):
        out = {k: copy.deepcopy(v) for k, v in a.items()}
        for k, v in b.items():
            out[k] = merge(out[k], v) if k in out else copy.deepcopy(v)
        return out
    if isinstance(a, list) and isinstance(b, list):
        return copy.deepcopy(a) + copy.deepcopy(b)
    return copy.deepcopy(b)


# specs: ('static', i) ('json', i) ('bad',) ('env', i|None) ('envjson', i|None|'bad') ('file', i|'bad'|None) ('merge', silent, specs)
# ('alt', specs) ('opt', spec) ('build', spec)
def ref(s):
    k = s[0]
    if k in ('static', 'json', 'bytes', 'b64'):
        return copy.deepcopy(DOCS[s[1]])
    if k in ('bad', 'badtype'):
        raise Src()
    if k == 'env':
        if s[1] is None:
            raise Src()
        return {'name': 'v%d' % s[1]}
    if k in ('envjson', 'file'):
        if s[1] is None or s[1] == 'bad':
            raise Src()
        return copy.deepcopy(DOCS[s[1]])
    if k == 'merge':
        out, good = {}, 0
        for x in s[2]:
            try:
                p = ref(x)
                good += 1
            except Src:
                if not s[1]:
                    raise
                continue
            out = merge(out, p)
        if not good and s[2] and s[1] != 'lenient':
            raise Src()
        return out
    if k == 'alt':
        for x in s[1]:
            try:
                return ref(x)
            except Src:
                continue
        raise Src()
    if k == 'opt':
        try:
            return ref(s[1])
        except Src:
            return {}
    if k == 'build':
        return {'key': ref(s[1])}
    raise AssertionError(s)


def text(i):
    return json.dumps(DOCS[i])


class World:
    """files and environment for one case"""

    def __init__(self):
        self.base = tempfile.mkdtemp(prefix='verif-c24-')
        self.n = 0
        self.envs = []
        self.statics = []

    def close(self):
        shutil.rmtree(self.base)
        for e in self.envs:
            os.environ.pop(e, None)

    def env(self, value):
        self.n += 1
        name = 'VERIF_C24_%d' % self.n
        self.envs.append(name)
        os.environ.pop(name, None)
        if value is not None:
            os.environ[name] = value
        return name

    def file(self, content):
        self.n += 1
        p = os.path.join(self.base, 'f%d' % self.n)
        if content is not None:
            with open(p, 'wb') as f:
                f.write(content)
        return p

    def make(self, s):
        """-> (source object, declarative form)"""
        k = s[0]
        if k == 'static':
            d = copy.deepcopy(DOCS[s[1]])
            self.statics.append((d, DOCS[s[1]]))
            d2 = copy.deepcopy(DOCS[s[1]])
            self.statics.append((d2, DOCS[s[1]]))
            return StaticSource(d), {'type': 'StaticSource', 'arg': d2}
        if k == 'json':
            return JSONSource(text(s[1])), {'type': 'JSONSource', 'args': [text(s[1])]}
        if k == 'bytes':
            return JSONSource(text(s[1]).encode('utf-16'), encoding='utf-16'), {
                'type': 'JSONSource', 'args': [{'type': 'binary', 'value': text(s[1]), 'encoding': 'utf-16'}], 'encoding': 'utf-16'}
        if k == 'bad':
            return JSONSource('{"a": [1], "b"'), {'type': 'JSONSource', 'arg': '{"a": [1], "b"'}
        if k == 'badtype':
            return JSONSource('[1]'), {'type': 'JSONSource', 'arg': '[1]'}
        if k == 'env':
            n = self.env(None if s[1] is None else 'v%d' % s[1])
            return EnvironmentSource(n, 'name'), {'type': 'EnvironmentSource', 'args': [n], 'config_name': 'name'}
        if k == 'envjson':
            n = self.env(None if s[1] is None else '{"' if s[1] == 'bad' else text(s[1]))
            return EnvVarsSource(n), {'type': 'EnvVarsSource', 'args': [n]}
        if k == 'file':
            p = self.file(None if s[1] is None else b'{"a": [1], "b"' if s[1] == 'bad' else text(s[1]).encode())
            return FileSource(p), {'type': 'FileSource', 'args': [p]}
        if k == 'merge':
            xs = [self.make(x) for x in s[2]]
            kw = {}
            if s[1]:
                kw['on_fail'] = MergingSource.SILENT
            if s[1] == 'lenient':
                kw['fail_if_no_sources_are_correct'] = False
            return MergingSource(*(x for x, _ in xs), **kw), dict(kw, type='MergingSource', args=[d for _, d in xs])
        if k == 'alt':
            xs = [self.make(x) for x in s[1]]
            return AlternativeSource(*(x for x, _ in xs)), {'type': 'AlternativeSource', 'args': [d for _, d in xs]}
        if k == 'opt':
            x, d = self.make(s[1])
            return OptionalSource(x), dict(d, optional=True) if not d.get('optional') else {'type': 'OptionalSource', 'args': [d]}
        if k == 'build':
            x, d = self.make(s[1])
            return BuildObjectFrom('key', x), {'type': 'BuildObjectFrom', 'key': 'key', 'child': d}
        raise AssertionError(s)

    def untouched(self):
        for d, orig in self.statics:
            require(d == orig, 'a source was changed from %s to %s', orig, d)


def provide(src):
    try:
        r = src.provide()
    except ConfigurationError:
        return FAIL
    require(isinstance(r, dict), 'provided %r', r)
    return r


def expected(s):
    try:
        return ref(s)
    except Src:
        return FAIL


LEAVES = [('static', i) for i in range(6)] + [('json', 2), ('bad',)]
MORE = LEAVES + [('json', 4), ('bytes', 2), ('badtype',), ('env', 1), ('env', None), ('envjson', 3), ('envjson', None), ('envjson', 'bad'),
                 ('file', 4), ('file', 'bad'), ('file', None)]


def trees(q):
    for x in MORE:
        yield x
        yield ('opt', x)
        yield ('build', x)
        yield ('merge', False, (x,))
        yield ('alt', (x,))
    yield ('merge', False, ())
    yield ('alt', ())
    for a, b in itertools.product(MORE, MORE):
        for sil in (False, True, 'lenient'):
            yield ('merge', sil, (a, b))
        yield ('alt', (a, b))
    for t in itertools.product(LEAVES, repeat=3):
        yield ('merge', False, t)
        if not q or ('bad',) in t:
            yield ('merge', True, t)
    inner = [('merge', False, (('static', 2), ('static', 4))), ('merge', True, (('bad',), ('static', 4))), ('alt', (('bad',), ('static', 4))),
             ('opt', ('bad',)), ('opt', ('static', 3)), ('build', ('static', 2)), ('merge', True, (('bad',),)), ('alt', (('bad',),)),
             ('opt', ('merge', False, (('static', 3), ('bad',)))), ('opt', ('alt', (('bad',), ('file', None)))), ('opt', ('merge', True, (('bad',), ('static', 4)))),
             ('opt', ('build', ('bad',))), ('opt', ('alt', (('bad',), ('static', 2)))), ('build', ('merge', False, (('static', 3), ('static', 4))))]
    for a, b in itertools.product(inner, inner + LEAVES):
        yield ('merge', False, (a, b))
        yield ('merge', True, (b, a))
        yield ('alt', (a, b))
        yield ('build', ('merge', False, (b, a)))
        yield ('opt', ('merge', False, (b, a)))


def tree_check(s):
    w = World()
    try:
        want = expected(s)
        src, decl = w.make(s)
        snap = copy.deepcopy(decl)
        other = load_source_from_dict(decl)
        require(decl == snap, 'loading changed the description')
        for name, x in (('built', src), ('declared', other), ('listed', load_source_from_list([decl]))):
            for i in range(3):
                got = provide(x)
                require(got == want, '%s %s provided %s at time %d, expected %s', name, s, got, i + 1, want)
        w.untouched()
    finally:
        w.close()
    return repr(want)[:40]


def shared_cases():
    ids = range(6)
    for t in itertools.product(ids, repeat=3):
        yield t


def shared_check(t):
    """the same sources used by several composites, provided in turns"""
    docs = [copy.deepcopy(DOCS[i]) for i in t]
    ss = [StaticSource(d) for d in docs]
    comps = [(MergingSource(*ss), ('merge', False, tuple(('static', i) for i in t))),
             (MergingSource(*reversed(ss)), ('merge', False, tuple(('static', i) for i in reversed(t)))),
             (MergingSource(ss[0], ss[0], BuildObjectFrom('key', ss[1])),
              ('merge', False, (('static', t[0]), ('static', t[0]), ('build', ('static', t[1]))))),
             (AlternativeSource(ss[2]), ('static', t[2]))]
    for order in ((0, 1, 2, 3), (3, 2, 1, 0), (1, 1, 0, 2)):
        for i in order:
            got = provide(comps[i][0])
            require(got == ref(comps[i][1]), 'shared sources: %s provided %s, expected %s', comps[i][1], got, ref(comps[i][1]))
    require(docs == [DOCS[i] for i in t], 'sources changed to %s', docs)


def changing_cases(q):
    states = (None, 'bad', 2, 4, 1)
    for kind in ('env', 'envjson', 'file', 'dir', 'alt', 'opt', 'merge'):
        for h in itertools.product(states, repeat=3):
            yield kind, h


def changing_check(case):
    """the environment and the files are as they stand when asked"""
    kind, history = case
    w = World()
    try:
        env = w.env(None)
        path = w.file(None)
        if kind == 'dir':
            os.mkdir(path)
            inner = os.path.join(path, 'f')
        e, f = EnvVarsSource(env), FileSource(path)
        src = {'env': EnvironmentSource(env, 'name'), 'envjson': e, 'file': f, 'dir': DirectorySource(path),
               'alt': AlternativeSource(f, e, StaticSource({'z': 1})), 'opt': OptionalSource(e),
               'merge': MergingSource(f, e, on_fail=MergingSource.SILENT)}[kind]
        got = []
        for st in history:
            t = None if st is None else '{"a": [1], "b"' if st == 'bad' else text(st)
            doc = copy.deepcopy(DOCS[st]) if isinstance(st, int) else FAIL
            os.environ.pop(env, None)
            if t is not None:
                os.environ[env] = t
            p = inner if kind == 'dir' else path
            if kind in ('dir', 'file', 'alt', 'merge'):
                if os.path.exists(p):
                    os.unlink(p)
                if t is not None and not (kind == 'alt' and st == 2):
                    with open(p, 'w') as fo:
                        fo.write(t)
            want = doc
            if kind == 'env':
                want = FAIL if t is None else {'name': t}
            elif kind == 'dir' and st is None:
                want = {}
            elif kind == 'alt' and doc == FAIL:
                want = {'z': 1}
            elif kind == 'opt' and doc == FAIL:
                want = {}
            elif kind == 'merge' and doc != FAIL:
                want = merge(doc, doc)
            r = provide(src)
            require(r == want, '%s after %s provided %s, expected %s', kind, history, r, want)
            got.append((r, copy.deepcopy(r)))
        for a, b in got:
            require(a == b, 'earlier outcome changed from %s to %s', b, a)
    finally:
        w.close()


# ------------------------------------------------------------------ files and directories
CONTENTS = {'json': (b'{"a": [1]}', {'a': [1]}), 'yaml': (b'b: 2\n', {'b': 2}), 'toml': (b'[c]\nd = 3\n', {'c': {'d': 3}}),
            'malformed': (b'{"a": [', None), 'list': (b'[1, {}]', None), 'binary': (b'\xff\x00\xfe', None), 'empty': (b'', None)}
READABLE = {'json': 'JSONSource', 'yaml': 'YAMLSource', 'toml': 'TOMLSource'}


def dir_cases():
    names = [n for n in CONTENTS if n not in READABLE or READABLE[n] in FORMAT_SOURCES]
    for n in (0, 1, 2, 3):
        for files in itertools.combinations(names, n):
            for sub in (None,) + tuple(names[:4]):
                for silent in (False, True):
                    for scan in (True, False):
                        for flt in (None, 'json'):
                            yield files, sub, silent, scan, flt


def dir_check(case):
    files, sub, silent, scan, flt = case
    base = tempfile.mkdtemp(prefix='verif-c24-')
    try:
        used = []
        for f in files:
            with open(os.path.join(base, f), 'wb') as fo:
                fo.write(CONTENTS[f][0])
            if flt is None or f == flt:
                used.append(f)
        if sub is not None:
            os.mkdir(os.path.join(base, 'subdir'))
            with open(os.path.join(base, 'subdir', 'x' + sub), 'wb') as fo:
                fo.write(CONTENTS[sub][0])
            if scan and flt is None:
                used.append(sub)
        kw = {}
        if flt:
            kw['fname_filter'] = lambda p: os.path.basename(p) == flt
        d = DirectorySource(base, scan_subdirectories=scan, on_fail=DirectorySource.SILENT if silent else DirectorySource.RAISE, **kw)
        vals = [CONTENTS[f][1] for f in used]
        if CONTENTS['empty'][1] is None and 'empty' in used:
            # an empty file is a valid (empty) TOML document
            vals = [v if f != 'empty' else ({} if 'TOMLSource' in FORMAT_SOURCES else None) for f, v in zip(used, vals)]
        want = {}
        for v in vals:
            want = merge(want, v) if v is not None else want
        for i in range(2):
            got = provide(d)
            if None in vals and not silent:
                require(got == FAIL, 'provided %s in spite of a malformed file', got)
            elif used and all(v is None for v in vals):
                require(got in (FAIL, {}), 'provided %s of malformed files only', got)
            else:
                require(got == want, 'directory of %s provided %s, expected %s', used, got, want)
        for f in files:
            want_f = CONTENTS[f][1] if f != 'empty' else ({} if 'TOMLSource' in FORMAT_SOURCES else None)
            got = provide(FileSource(os.path.join(base, f)))
            require(got == (FAIL if want_f is None else want_f), 'file %s provided %s', f, got)
            for n, cls in READABLE.items():
                if cls in FORMAT_SOURCES and f in READABLE:
                    got = provide(FileSource(os.path.join(base, f), interpret_as=[cls]))
                    ok = f == n or (f == 'json' and n == 'yaml')
                    require(got == (CONTENTS[f][1] if ok else FAIL), '%s read as %s provided %s', f, n, got)
                    require(provide(FileSource(os.path.join(base, f), interpret_as=[getattr(S, cls)])) == got, 'class or name')
        require(provide(FileSource(base)) == FAIL and provide(FileSource(os.path.join(base, 'none'))) == FAIL, 'not a file')
        gone = DirectorySource(os.path.join(base, 'none'), on_fail=DirectorySource.SILENT if silent else DirectorySource.RAISE)
        require(provide(gone) == ({} if silent else FAIL), 'missing directory')
    finally:
        shutil.rmtree(base)


def ftree_cases():
    for dirs in itertools.product((0, 1), repeat=4):
        # files at: the top, a, a/b, a/b/c
        for enc in ('utf-8', 'latin-1', 'utf-16'):
            for how in ('default', 'json', 'yaml first'):
                for scan in (True, False):
                    yield dirs, enc, how, scan


def ftree_check(case):
    dirs, enc, how, scan = case
    base = tempfile.mkdtemp(prefix='verif-c24-')
    try:
        want, path = {}, base
        for depth, on in enumerate(dirs):
            if depth:
                path = os.path.join(path, 'abc'[depth - 1])
                os.mkdir(path)
            if on:
                text = '{"k%d": "\u00e9%d", "sub": {"d%d": [%d]}}' % ((depth,) * 4)
                with open(os.path.join(path, 'f%d.json' % depth), 'wb') as fo:
                    fo.write(text.encode(enc))
                if scan or not depth:
                    want = merge(want, {'k%d' % depth: '\u00e9%d' % depth, 'sub': {'d%d' % depth: [depth]}})
        kw = {}
        if how == 'json':
            kw['interpret_as'] = ['JSONSource']
        elif how == 'yaml first':
            kw['interpret_as'] = ['YAMLSource', S.JSONSource] if 'YAMLSource' in FORMAT_SOURCES else [S.JSONSource]
        d = DirectorySource(base, encoding=enc, scan_subdirectories=scan, **kw)
        for i in range(2):
            got = provide(d)
            require(got == want, 'tree %s (%s, %s) provided %s, expected %s', dirs, enc, how, got, want)
        if how == 'json':
            # a file in a format not asked for is one nothing can parse
            with open(os.path.join(path if scan else base, 'other'), 'wb') as fo:
                fo.write('x: 1\n'.encode(enc))
            require(provide(d) == FAIL, 'a YAML file was read although only JSON was asked for')
            quiet = DirectorySource(base, encoding=enc, scan_subdirectories=scan, on_fail=DirectorySource.SILENT, **kw)
            if want:
                got = provide(quiet)
                require(got == want, 'silent tree %s provided %s, expected %s', dirs, got, want)
    finally:
        shutil.rmtree(base)


# ------------------------------------------------------------------ merge_dicts, HTTP, misc
def val(depth):
    out = [1, None, 'x', [], [1], [2]]
    if depth:
        sub = val(depth - 1)[:5 if depth > 1 else 6]
        out.append({})
        out += [{'k': v} for v in sub] + [{'j': v} for v in sub[:2]] + [{'k': v, 'j': 3} for v in sub[:3]]
    return out


def merge_cases():
    vs = val(2)
    return itertools.product(range(len(vs)), range(len(vs)))


def merge_check(case):
    a, b = copy.deepcopy(val(2)[case[0]]), copy.deepcopy(val(2)[case[1]])
    want = merge(a, b)
    b0 = copy.deepcopy(b)
    r = merge_dicts(a, b)
    require(r == want, 'merging gave %s, expected %s', r, want)
    require(b == b0, 'the second operand was changed to %s', b)
    if type(a) is type(b) and isinstance(a, (dict, list)):
        require(r is a, 'not updated in place')


def http_cases():
    for status in (200, 204, 301, 400, 404, 500):
        for body in ('dict', 'list', 'garbage', 'error'):
            yield status, body


def http_check(case):
    import requests
    status, body = case
    if not hasattr(S, 'HTTPJSONSource'):
        return

    class R:
        status_code = status

        def json(self):
            if body == 'garbage':
                r = requests.Response()
                r._content = b'{"a"'
                return r.json()
            return {'a': 1} if body == 'dict' else [1]
    calls = []

    def request(method, url, **kw):
        calls.append((method, url, kw))
        if body == 'error':
            raise requests.ConnectionError('no')
        return R()
    old = requests.request
    requests.request = request
    try:
        s = S.HTTPJSONSource('http://x/', 'POST', timeout=3)
        for i in range(2):
            got = provide(s)
            require(calls[i] == ('POST', 'http://x/', {'timeout': 3}), 'requested %s', calls)
            require(got == ({'a': 1} if body == 'dict' and status < 400 else FAIL), 'HTTP %s provided %s', case, got)
        require(provide(AlternativeSource(s, StaticSource({'f': 1}))) == ({'a': 1} if body == 'dict' and status < 400 else {'f': 1}), 'fallback')
    finally:
        requests.request = old


def misc_cases():
    return ['unknown', 'notype', 'dictarg', 'lambda', 'import', 'env-cast', 'base', 'fmt', 'badargs', 'base64', 'odd-reader', 'on-fail']


def misc_check(case):
    def fails(d):
        try:
            load_source_from_dict(d)
        except ConfigurationError:
            return
        raise Violation('%r loaded' % (d,))
    if case == 'unknown':
        fails({'type': 'NoSuchSource'})
        fails({'type': 'MergingSource', 'args': [{'type': 'JSONSource', 'args': []}]})
    elif case == 'notype':
        fails({'args': []})
        fails({})
    elif case == 'badargs':
        fails({'type': 'JSONSource', 'args': [], 'nosuch': 1})
    elif case == 'dictarg':
        import warnings
        d = {'type': 'StaticSource', 'args': [{'a': 5, 'type': 'unrelated'}]}
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            require(load_source_from_dict(d).provide() == {'a': 5, 'type': 'unrelated'}, 'a dict with a type of its own')
        require(load_source_from_dict({'type': 'StaticSource', 'args': [{'a': 5}]}).provide() == {'a': 5}, 'dict')
    elif case in ('lambda', 'env-cast', 'import'):
        import warnings
        os.environ['VERIF_C24_X'] = '7'
        try:
            cast = {'lambda': {'type': 'lambda', 'operation': 'int(x) + 1'}, 'env-cast': None,
                    'import': {'type': 'import', 'module': 'decimal', 'attribute': 'Decimal',
                               'cast_before': {'type': 'lambda', 'operation': 'int(x)'}}}[case]
            d = {'type': 'EnvironmentSource', 'args': ['VERIF_C24_X', 'n']}
            if cast:
                d['cast_to'] = cast
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                s = load_source_from_dict(d)
                require(s.provide() == {'n': {'lambda': 8, 'env-cast': '7', 'import': 7}[case]}, 'cast %s', s.provide())
                if cast:
                    os.environ['VERIF_C24_X'] = 'q'
                    require(provide(s) == FAIL, 'bad value cast')
                    os.environ['VERIF_C24_X'] = '7'
                    require(provide(s) != FAIL, 'good again')
                e = EnvironmentSource('VERIF_C24_X')
                require(e.provide() == {'VERIF_C24_X': '7'}, 'name')
                del os.environ['VERIF_C24_X']
                require(provide(s) == FAIL and provide(e) == FAIL, 'variable removed')
                os.environ['VERIF_C24_X'] = '3'
                require(e.provide() == {'VERIF_C24_X': '3'}, 'variable changed')
        finally:
            os.environ.pop('VERIF_C24_X', None)
    elif case == 'base64':
        import base64
        for cls, good, bad in (('JSONSource', '{"a": "\u0105"}', '{'), ('YAMLSource', 'a: "\u0105"', 'a: [\n'), ('TOMLSource', 'a = "\u0105"', 'a = ')):
            if cls in FORMAT_SOURCES:
                c = getattr(S, cls)
                for _ in range(2):
                    g = c(base64.b64encode(good.encode('utf-8')), encoding='base64')
                    for _ in range(2):
                        require(provide(g) == {'a': '\u0105'}, '%s of base64 gave %s', cls, provide(g))
                    require(provide(c(base64.b64encode(bad.encode()), encoding='base64')) == FAIL, '%s of malformed base64', cls)
                require(provide(c(base64.b64encode(b'\xff\xfe\xff'), encoding='base64')) == FAIL, '%s of undecodable base64', cls)
    elif case == 'odd-reader':
        class Odd(BaseSource):
            def __init__(self, root, encoding='utf-8'):
                super().__init__()

            def provide(self):
                return [1]

        class Refuses(Odd):
            def provide(self):
                raise ConfigurationError('no')
        fd, path = tempfile.mkstemp(prefix='verif-c24-')
        try:
            os.write(fd, b'{"a": 5}')
            os.close(fd)
            for readers in itertools.product([Odd, Refuses, S.JSONSource, 'JSONSource'], repeat=2):
                want = {'a': 5} if any(isinstance(r, str) or r is S.JSONSource for r in readers) else FAIL
                require(provide(S.FileSource(path, interpret_as=list(readers))) == want, 'readers %s', readers)
        finally:
            os.unlink(path)
    elif case == 'on-fail':
        class Bad(BaseSource):
            def provide(self):
                raise ConfigurationError('no')
        for mode in (77, None, 'x'):
            require(provide(S.MergingSource(Bad(), S.StaticSource({'a': 1}), on_fail=mode)) == FAIL, 'on_fail=%s', mode)
            require(provide(S.MergingSource(S.StaticSource({'a': 1}), on_fail=mode)) == {'a': 1}, 'on_fail=%s', mode)
    elif case == 'base':
        b = BaseSource()
        b.provide()['x'] = 1
        require(b.provide() == {}, 'base')
    elif case == 'fmt':
        for cls, good, bad in (('JSONSource', '{"a": 5}', '{'), ('YAMLSource', 'a: 5', 'a: [\n'), ('TOMLSource', 'a = 5', 'a = ')):
            if cls in FORMAT_SOURCES:
                c = getattr(S, cls)
                for enc in ('utf-8', 'utf-16', 'ascii', 'no-such-encoding'):
                    for i in range(2):
                        g = c(good.encode('utf-8' if enc.startswith('no') else enc), encoding=enc)
                        ok = not enc.startswith('no')
                        for _ in range(2):
                            require(provide(g) == ({'a': 5} if ok else FAIL), '%s in %s', cls, enc)
                        b = c(bad.encode(), encoding='utf-8')
                        for _ in range(2):
                            require(provide(b) == FAIL, '%s malformed', cls)
                require(provide(c(b'\xff\xff', encoding='utf-8')) == FAIL, 'undecodable')


def jobs(tier):
    logging.getLogger('satella').setLevel(logging.CRITICAL)
    q = tier == 'quick'
    return [EnumJob('changing', lambda: changing_cases(q), changing_check, shards=2), EnumJob('trees', lambda: trees(q), tree_check, shards=16), EnumJob('shared', shared_cases, shared_check, shards=2),
            EnumJob('directories', dir_cases, dir_check, shards=8), EnumJob('file-trees', ftree_cases, ftree_check), EnumJob('merge', merge_cases, merge_check),
            EnumJob('http', http_cases, http_check), EnumJob('misc', misc_cases, misc_check)]
