"""
C25: the file helpers in a scratch directory. Reference: the bytes that should be on disk, a twin plain file for AutoflushFile, an
independent walk for find_files. Faults: every single failing open/read/write/flush/close of a helper, in turn.
"""
import builtins
import errno
import io
import itertools
import os
import re
import shutil
import tempfile

from mc.jobs import SeqJob, EnumJob
from mc.sched import require
from satella.files import read_re_sub_and_write, find_files, split, read_in_file, write_to_file, write_out_file_if_different, \
    make_noncolliding_name, try_unlink, DevNullFilelikeObject, read_lines, AutoflushFile, jump_to_directory

real_open = builtins.open


class Scratch:
    def __enter__(self):
        self.cwd = os.getcwd()
        self.d = tempfile.mkdtemp(prefix='verif-c25-')
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.cwd)
        shutil.rmtree(self.d, ignore_errors=True)


def on_disk(p):
    try:
        with real_open(p, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


def put(p, data):
    if data is None:
        if os.path.exists(p):
            os.unlink(p)
    else:
        with real_open(p, 'wb') as f:
            f.write(data)


def raised(f, *exc):
    try:
        f()
    except exc:
        return True
    return False


# ------------------------------------------------------------------ read and write
TEXTS = ['', 'a', 'a\r\nb\n', '\u017c\u00f3', ' x\n\n', 'aaaa' * 5000, '\ufeffz', 'a\rb\x0cc']
BROKEN = {'<garbage>': b'\xff\xfe\xff', '<cut>': b'a\0\xc5'}       # not decodable, the second one only at its very end
ENCODINGS = [None, 'utf-8', 'utf-16-le', 'latin-1', 'utf-8-sig', 'ascii']


def enc(t, e):
    try:
        return t.encode(e or 'utf-8')
    except UnicodeEncodeError:
        return None


def rw_cases():
    for e in ENCODINGS:
        ts = [t for t in TEXTS if enc(t, e) is not None]
        for prev in [None] + ts + ['<garbage>', '<cut>']:
            for t in ts:
                yield e, prev, t


def rw_check(case):
    e, prev, t = case
    arg = t.encode('utf-8') if e is None else t
    data = enc(t, e)
    with Scratch():
        os.mkdir('sub')
        for p in ('f', os.path.join('sub', 'g.txt')):
            before = None if prev is None else BROKEN[prev] if prev in BROKEN else enc(prev, e)
            put(p, before)
            put('other', b'other')
            # reading
            if before is None:
                require(raised(lambda: read_in_file(p, e), FileNotFoundError), 'reading a missing file did not raise')
                for d in (None, '', b'x', 5):
                    require(read_in_file(p, e, default=d) is d, 'default %r not returned', d)
            elif prev not in BROKEN or e in (None, 'latin-1'):
                want = before if e is None else before.decode(e)
                for args in ((), ('dflt',)):
                    got = read_in_file(p, e, *args)
                    require(type(got) is type(want) and got == want, 'read %r, not %r', got[:50], want[:50])
            else:
                require(raised(lambda: read_in_file(p, e, 'dflt'), UnicodeError), 'undecodable file was read')
            require(on_disk(p) == before, 'reading changed the file')
            # writing
            write_to_file(p, arg, e)
            require(on_disk(p) == data, 'wrote %r, file has %r', arg[:50], on_disk(p)[:50])
            got = read_in_file(p, e)
            require(got == arg and type(got) is type(arg), 'wrote %r, read %r', arg[:50], got[:50])
            # if different
            put(p, before)
            if prev in BROKEN and e not in (None, 'latin-1'):
                if not raised(lambda: write_out_file_if_different(p, arg, e), UnicodeError, OSError):
                    require(on_disk(p) == data, 'not written')
            else:
                was = None if before is None else (before if e is None else before.decode(e))
                stamp = None
                if before is not None:
                    os.utime(p, (1000, 1000))
                    stamp = os.stat(p).st_mtime_ns, os.stat(p).st_ino
                r = write_out_file_if_different(p, arg, e)
                require(r is (was != arg), 'had %r, wrote %r: reported %s', was, arg[:50], r)
                require(on_disk(p) == (before if was == arg else data), 'file has %r', on_disk(p)[:50])
                if was == arg:
                    require((os.stat(p).st_mtime_ns, os.stat(p).st_ino) == stamp, 'an equal file was written again')
                require(write_out_file_if_different(p, arg, e) is False, 'written again')
            require(on_disk('other') == b'other', 'another file changed')
            require(sorted(os.listdir('.')) == ['f', 'other', 'sub'] if p == 'f' else True, 'extra files: %s', os.listdir('.'))
        # directories
        require(raised(lambda: read_in_file('sub', e), FileNotFoundError), 'a directory was read')
        require(read_in_file('sub', e, 'd') == 'd', 'default for a directory')
        require(raised(lambda: write_to_file('sub', arg, e), OSError) and raised(lambda: write_to_file('no/x', arg, e), OSError),
                'writing to a directory')


def lines_cases():
    for n in range(6):
        for t in itertools.product(['a', ' b', '\t', '\n', '\r\n', '\u017c'], repeat=n):
            if n < 5 or t[0] == 'a':
                yield ''.join(t)


def lines_check(s):
    with Scratch():
        for e in ('utf-8', 'utf-16'):
            put('f', s.encode(e))
            want = [x.strip() for x in s.splitlines()]
            kw = {} if e == 'utf-8' else {'encoding': e}
            got = read_lines('f', delete_empty_lines=False, **kw)
            require(got == want, 'lines of %r: %s', s, got)
            got = read_lines('f', **kw)
            require(got == [x for x in want if x], 'non-empty lines of %r: %s', s, got)


RES = ['a', 'b+', '^a', r'(a)(b)', 'x*']


def sub_cases():
    for n in range(5):
        for t in itertools.product('ab\n', repeat=n):
            for r in RES:
                yield ''.join(t), r


def sub_check(case):
    s, r = case
    with Scratch():
        for repl in ('', 'zz', r'<\g<0>>', lambda m: m.group(0).upper() + '!'):
            for pat in (r, re.compile(r), re.compile(r, re.M)):
                put('f', s.encode())
                put('g', b'g')
                read_re_sub_and_write('f', pat, repl)
                want = re.sub(pat, repl, s).encode()
                require(on_disk('f') == want, '%r with %s: %r, expected %r', s, pat, on_disk('f'), want)
                require(on_disk('g') == b'g' and sorted(os.listdir('.')) == ['f', 'g'], 'another file changed')


# ------------------------------------------------------------------ paths
def split_cases():
    for n in range(7):
        for t in itertools.product('a/.', repeat=n):
            yield ''.join(t)
    for p in ('a\\b/c', 'c:/x/y', '/a b/c', '~/x', '/\u017c/y.txt', 'x/y:/z'):
        yield p


def split_check(p):
    got = split(p)
    require(isinstance(got, list) and got, 'split(%r) gave %r', p, got)
    for x in got[1:]:
        require('/' not in x, 'split(%r) left a separator: %r', p, got)
    require('/' not in got[0] or not got[0].strip('/') or re.fullmatch('.:[/\\\\]', got[0]), 'split(%r) left a separator: %r', p, got)
    j = os.path.join(*got)
    if '//' not in p:
        require(j == p, 'join of split(%r) = %r is %r', p, got, j)
    else:
        require(os.path.normpath(j) == os.path.normpath(p), 'join of split(%r) = %r is %r', p, got, j)


def name_cases():
    for p in ('f', 'f.txt', 'a.b.txt', 'd.x/f', '/d/f.txt', '.rc', 'f.1.txt', 'f.'):
        d, f = os.path.split(p)
        stem, ext = (f.rsplit('.', 1)[0], '.' + f.rsplit('.', 1)[1]) if '.' in f else (f, '')
        cand = [os.path.join(d, stem + x + ext) for x in ('', '.1', '.2', '.3')]
        for mask in range(16):
            taken = {c for i, c in enumerate(cand) if mask >> i & 1}
            want = next((c for c in cand if c not in taken), os.path.join(d, stem + '.4' + ext))
            yield p, taken, want
        for n in (9, 10, 11, 12, 105):
            cand = [os.path.join(d, stem + ('.%d' % i if i else '') + ext) for i in range(n + 1)]
            yield p, set(cand[:-1]), cand[-1]


def name_check(case):
    p, taken, want = case
    got = make_noncolliding_name(p, lambda x: x in taken)
    require(got == want, '%s with %s taken gave %s', p, taken, got)
    if not p.startswith('/'):
        with Scratch():
            os.mkdir('d.x')
            for t in taken:
                put(t, b'')
            require(make_noncolliding_name(p) == want, '%s on disk', p)
            require(sorted(os.path.join(d, f) if d != '.' else f for d, _, fs in
                           ((os.path.relpath(x, '.'), y, z) for x, y, z in os.walk('.')) for f in fs) == sorted(taken), 'files made')


NODES = ['x.txt', 'y.py', 'd/x.txt', 'd/e/y.txt', 'd/e/x.py', 'd2', 'x/x']
WILD = [r'(.*)', r'(.*)\.txt', r'x', r'(.*)\.txt$', r'(.*)d/(.*)', r'(.*)pre/(.*)x', r'$', r'root', r'x\.']


def find_cases():
    for mask in range(1 << len(NODES)):
        yield tuple(n for i, n in enumerate(NODES) if mask >> i & 1)


def find_check(nodes):
    with Scratch():
        os.mkdir('root')
        for n in nodes:
            p = os.path.join('root', n)
            os.makedirs(p if n == 'd2' else os.path.dirname(p), exist_ok=True)
            if n != 'd2':
                put(p, b'')
        files = [n for n in nodes if n != 'd2']
        require(set(find_files('root')) == {'root/' + f for f in files}, 'all files: %s', sorted(find_files('root')))
        for w in WILD:
            for pre in (None, 'pre'):
                for scan in (True, False):
                    for entire in (False, True):
                        for with_path in (True, False):
                            want = []
                            for f in files:
                                if not scan and '/' in f:
                                    continue
                                full = '/'.join(([pre] if pre else []) + (['root'] if with_path else []) + [f])
                                if re.match(w, full if entire else f.rsplit('/', 1)[-1]):
                                    want.append(full)
                            got = list(find_files('root', w, prefix_with=pre, scan_subdirectories=scan,
                                                  apply_wildcard_to_entire_path=entire, prefix_with_path=with_path))
                            if not scan:        # whether directories themselves are listed then is left open
                                got = [g for g in got if g.rsplit('/', 1)[-1] not in ('d', 'd2', 'x')]
                            require(sorted(got) == sorted(want), 'find %s prefix=%s scan=%s entire=%s with_path=%s: %s, expected %s',
                                    w, pre, scan, entire, with_path, sorted(got), sorted(want))


# ------------------------------------------------------------------ deleting, jumping
def unlink_cases():
    for kind in ('none', 'file', 'emptydir', 'dir', 'deep', 'dangling', 'filelink', 'dirlink', 'nodir'):
        yield kind


def unlink_check(kind):
    with Scratch() as d:
        os.mkdir('w')
        os.chdir('w')
        put('target', b't')
        os.mkdir('tdir')
        put('tdir/x', b't')
        p = 'p'
        if kind == 'file':
            put(p, b'x')
        elif kind in ('emptydir', 'dir', 'deep'):
            os.mkdir(p)
            if kind != 'emptydir':
                put('p/x', b'x')
            if kind == 'deep':
                os.makedirs('p/y/z')
                put('p/y/z/w', b'')
                os.symlink('../tdir', 'p/l')
        elif kind == 'dangling':
            os.symlink('nowhere', p)
        elif kind == 'filelink':
            os.symlink('target', p)
        elif kind == 'dirlink':
            os.symlink('tdir', p)
        elif kind == 'nodir':
            p = 'q/p'
        there = os.path.lexists(p)
        r = try_unlink(p)
        require(r is (there and not os.path.lexists(p)), 'deleting %s reported %s', kind, r)
        if kind != 'dirlink':
            require(not os.path.lexists(p), '%s still there', kind)
        require(on_disk('target') == b't' and on_disk('tdir/x') == b't', 'deleting %s deleted more', kind)
        require(try_unlink('none') is False, 'nothing deleted')


class Boom(Exception):
    pass


def jump_cases():
    for n in (1, 2, 3):
        for t in itertools.product(['new', 'old', 'new/sub', '.', '..', 'abs'], repeat=n):
            for boom in range(-1, n):
                yield t, boom


def jump_check(case):
    t, boom = case
    with Scratch() as d:
        d = os.path.realpath(d)
        os.makedirs('w/w/w/old')
        os.chdir('w/w/w')

        def go(i):
            if i == len(t):
                return
            here = os.getcwd()
            p = os.path.join(d, 'w', 'w', 'abs') if t[i] == 'abs' else t[i]
            try:
                with jump_to_directory(p):
                    want = os.path.realpath(os.path.join(here, p))
                    require(os.getcwd() == want, 'jumped to %s, not %s', os.getcwd(), want)
                    go(i + 1)
                    require(os.getcwd() == want, 'back in %s, not %s', os.getcwd(), want)
                    if i == boom:
                        raise Boom()
                require(i != boom, 'exception lost')
            except Boom:
                require(i == boom, 'who raised?')
            require(os.getcwd() == here, 'left in %s, not %s', os.getcwd(), here)
        go(0)


# ------------------------------------------------------------------ AutoflushFile against a twin
class Auto:
    def __init__(self, mode, had):
        self.s = Scratch()
        self.s.__enter__()
        self.mode = mode
        self.kw = {} if 'b' in mode else {'encoding': 'utf-8'}
        for p in ('f', 't'):
            put(p, had)
        if had is not None and mode[0] == 'w':
            put('t', b'')
        self.f = AutoflushFile('f', mode, **self.kw)
        self.t = open('t', mode.replace('w', 'a'), **self.kw)
        self.t.seek(0, 2)
        self.closed = False
        self.k = None
        self.same()

    def same(self):
        if not self.closed:
            self.t.flush()
        a, b = on_disk('f'), on_disk('t')
        require(a == b, 'mode %s: file has %r, expected %r', self.mode, a, b)


def auto_ops(mode):
    b = 'b' in mode
    x, y = (b'x', b'yz\n') if b else ('x', 'z\u017c\n')
    out = [('write', x), ('write', y), ('write', x[:0]), ('truncate', 0), ('truncate', 1), ('seek', 0), ('seek', 0, 2), ('ext', b'E'), ('close',)]
    if '+' in mode:
        out += [('read',), ('read', 1), ('readall',)]
    else:
        out += [('badread',)]
    if b:
        out += [('seek', 1), ('seek', 1, 0)]
    return out


def auto_apply(c, op):
    if op[0] == 'ext':
        for p in ('f', 't'):
            if p == 't' and not c.closed:
                c.t.flush()
            with real_open(p, 'ab') as f:
                f.write(op[1])
        if not c.closed:
            c.t.seek(c.t.tell())
    elif c.closed:
        if op[0] != 'close':
            name = {'badread': 'read'}.get(op[0], op[0])
            require(raised(lambda: getattr(c.f, name)(*op[1:]), ValueError), '%s on a closed file did not raise ValueError', op)
    elif op[0] == 'close':
        c.f.close()
        c.t.close()
        c.closed = True
    elif op[0] == 'badread':
        require(raised(c.f.read, io.UnsupportedOperation), 'reading in mode %s', c.mode)
    else:
        name = 'read' if op[0] == 'readall' else op[0]
        want = getattr(c.t, name)(*op[1:])
        c.t.flush()
        got = getattr(c.f, op[0])(*op[1:])
        require(got == want and type(got) is type(want), 'mode %s: %s gave %r, expected %r', c.mode, op, got, want)
        c.t.seek(c.t.tell())
    c.same()


def auto_key(c):
    if c.k is None:
        c.k = c.closed, on_disk('f'), None if c.closed else c.t.tell()
    return c.k


def auto_finish(c):
    auto_key(c)
    if not c.closed:
        c.t.close()
    c.s.__exit__()


def auto_misc():
    for m in ('r', 'rb', 'x', '', 'q', 'r+', 'rw', 'wa'):
        yield m


def auto_bad(m):
    with Scratch():
        put('f', b'keep')
        require(raised(lambda: AutoflushFile('f', m), ValueError), 'mode %r accepted', m)
        require(on_disk('f') == b'keep', 'bad mode %r changed the file', m)


# ------------------------------------------------------------------ DevNull
def null_ops(c):
    return [('write', 'ab'), ('write', b'abc'), ('write', 5), ('read',), ('read', 7), ('tell',), ('seek', 3), ('seekable',), ('writable',),
            ('truncate',), ('truncate', 4), ('flush',), ('close',)]


def null_apply(c, op):
    if op[0] == 'close':
        c['f'].close()
        c['closed'] = True
        return
    f = lambda: getattr(c['f'], op[0])(*op[1:])
    if c['closed']:
        require(raised(f, ValueError), '%s on a closed object', op)
        return
    ok = bytes if c['bin'] else str
    if op[0] == 'write' and not isinstance(op[1], ok):
        require(raised(f, TypeError), 'wrote %r', op[1])
        return
    want = {'write': lambda: len(op[1]), 'read': lambda: ok(), 'seekable': lambda: True, 'writable': lambda: True, 'flush': lambda: None
            }.get(op[0], lambda: 0)()
    got = f()
    require(got == want and type(got) is type(want), '%s gave %r', op, got)


def null_with_check(case):
    binary, how = case
    f = DevNullFilelikeObject(binary) if binary else DevNullFilelikeObject()
    try:
        with f as g:
            require(g is f, 'entering gave %r', g)
            require(f.write(b'ab' if binary else 'ab') == 2, 'wrote')
            if how == 'raise':
                raise KeyError('inside')
            if how == 'close':
                f.close()
        require(how != 'raise', 'an exception was lost')
    except KeyError:
        require(how == 'raise', 'raised')
    for what in (lambda: f.write(b'x' if binary else 'x'), f.read, f.flush, f.tell):
        require(raised(what, ValueError), 'usable after having been closed')
    f.close()


# ------------------------------------------------------------------ faults
class Faulty:
    """a file whose k-th call fails; data written only reaches the disk when flushed or closed"""

    def __init__(self, ctl, f, path):
        self.ctl, self.f, self.pending, self.path = ctl, f, [], path
        ctl.live += 1
        self.closed = False

    def _hit(self, what):
        self.ctl.hit(what + ' ' + self.path)

    def read(self, *a):
        self._hit('read')
        return self.f.read(*a)

    def readline(self, *a):
        self._hit('readline')
        return self.f.readline(*a)

    def readlines(self, *a):
        self._hit('readlines')
        return self.f.readlines(*a)

    def __iter__(self):
        return iter(self.readlines())

    def __next__(self):
        r = self.readline()
        if not r:
            raise StopIteration()
        return r

    def write(self, d):
        self._hit('write')
        self.pending.append(d)
        return len(d)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def flush(self):
        self._hit('flush')
        for d in self.pending:
            self.f.write(d)
        self.pending = []
        self.f.flush()

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.ctl.live -= 1
        try:
            self._hit('close')
            for d in self.pending:
                self.f.write(d)
        finally:
            self.f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, name):
        return getattr(self.f, name)


class Control:
    def __init__(self, k, err):
        self.k, self.err, self.n, self.fired, self.live = k, err, 0, None, 0

    def hit(self, what):
        self.n += 1
        if self.n - 1 == self.k:
            self.fired = what
            raise OSError(self.err, 'injected')

    def open(self, path, mode='r', *a, **kw):
        if not isinstance(path, str) or path not in ('f', './f'):
            return real_open(path, mode, *a, **kw)
        self.hit('open')
        return Faulty(self, real_open(path, mode, *a, **kw), path)


HELPERS = {
    'read': (lambda: read_in_file('f'), lambda before, r, now: r == before and now == before),
    'read-default': (lambda: read_in_file('f', None, None), lambda before, r, now: r == before and now == before),
    'read-text': (lambda: read_in_file('f', 'utf-8', ''), lambda before, r, now: r == before.decode() and now == before),
    'lines': (lambda: read_lines('f'), lambda before, r, now: r == [x for x in before.decode().split('\n') if x] and now == before),
    'write': (lambda: write_to_file('f', b'new'), lambda before, r, now: now == b'new'),
    'write-text': (lambda: write_to_file('f', 'new', 'utf-8'), lambda before, r, now: now == b'new'),
    'differ': (lambda: write_out_file_if_different('f', b'new'), lambda before, r, now: now == b'new' and r is (before != b'new')),
    'differ-text': (lambda: write_out_file_if_different('f', 'new', 'utf-8'),
                    lambda before, r, now: now == b'new' and r is (before != b'new')),
    'sub': (lambda: read_re_sub_and_write('f', 'o', 'X'), lambda before, r, now: now == before.replace(b'o', b'X')),
    'unlink': (lambda: try_unlink('f'), lambda before, r, now: r is (now is None)),
}


def fault_cases():
    for h in HELPERS:
        for before in (b'old\nword', b'new', b''):
            for err in (errno.EIO, errno.EACCES, errno.ENOSPC, errno.EINTR + 0 if False else errno.EPERM):
                for k in range(8):
                    yield h, before, err, k


def fault_check(case):
    h, before, err, k = case
    call, ok = HELPERS[h]
    with Scratch():
        put('f', before)
        ctl = Control(k, err)
        old_listdir = os.unlink, io.open
        real_unlink = os.unlink

        def unlink(p, *a, **kw):
            ctl.hit('unlink')
            return real_unlink(p, *a, **kw)
        builtins.open = io.open = ctl.open
        if h == 'unlink':
            os.unlink = os.remove = unlink
        try:
            try:
                r = call()
                done = True
            except OSError as e:
                done = False
                require(ctl.fired is not None, 'failed by itself: %s', e)
                require(e.errno == err or e.__context__ is not None, 'another error: %r', e)
        finally:
            builtins.open = io.open = real_open
            os.unlink = os.remove = real_unlink
        require(ctl.live == 0, '%s left %d files open', h, ctl.live)
        if done:
            require(ok(before, r, on_disk('f')), '%s returned %r after a failing %s, the file has %r', h, r, ctl.fired, on_disk('f'))
    return ctl.fired


def autofault_cases():
    for mode in ('w', 'a', 'wb', 'ab', 'w+', 'ab+'):
        for k in range(14):
            yield mode, k


def autofault_check(case):
    mode, k = case
    b = 'b' in mode
    with Scratch():
        put('f', b'')
        ctl = Control(k, errno.EIO)

        def opener(path, m='r', *a, **kw):
            if path == 'f':
                ctl.hit('open')
            return real_open(path, m, *a, **kw)
        sure = b''
        builtins.open = opener
        try:
            try:
                f = AutoflushFile('f', mode)
            except OSError:
                require(ctl.fired, 'failed by itself')
                return
            for i in range(8):
                d = b'%d' % i
                try:
                    f.write(d if b else d.decode())
                    sure += d
                except OSError:
                    require(ctl.fired, 'failed by itself')
                require(on_disk('f') == sure, 'file has %r, written %r', on_disk('f'), sure)
            require(ctl.fired or k >= 9 or len(sure) == 8, 'not all written')
        finally:
            builtins.open = real_open


def jobs(tier):
    t = tier == 'thorough'
    out = [EnumJob('read-write', rw_cases, rw_check, shards=4), EnumJob('lines', lines_cases, lines_check, shards=4),
           EnumJob('sub', sub_cases, sub_check, shards=4), EnumJob('split', split_cases, split_check),
           EnumJob('names', name_cases, name_check), EnumJob('find', find_cases, find_check, shards=4),
           EnumJob('unlink', unlink_cases, unlink_check), EnumJob('jump', jump_cases, jump_check, shards=2),
           EnumJob('autoflush-bad-mode', auto_misc, auto_bad), EnumJob('faults', fault_cases, fault_check, shards=2),
           EnumJob('autoflush-faults', autofault_cases, autofault_check)]
    for mode in ('w', 'wb', 'w+', 'wb+', 'a', 'ab', 'a+', 'ab+'):
        for had in (None, b'old'):
            out.append(SeqJob('autoflush-%s-%s' % (mode, 'old' if had else 'new'), lambda mode=mode, had=had: Auto(mode, had),
                              auto_ops(mode), auto_apply, (5 if t else 4) if '+' in mode else 4 + t, key=auto_key, finish=auto_finish))
    out.append(EnumJob('devnull-with', lambda: itertools.product((False, True), ('plain', 'raise', 'close')), null_with_check))
    for binary in (False, True):
        out.append(SeqJob('devnull-%s' % binary, lambda binary=binary: {'f': DevNullFilelikeObject(binary), 'closed': False, 'bin': binary},
                          null_ops, null_apply, 3, key=lambda c: c['closed'], dedupe=False))
    return out
