"""
C29: BinaryParser against a (low, high, position) window machine: every window of every short stream, every program of reads, skips,
nested parsers, saved and restored positions up to a depth; and every struct format on every amount of remaining bytes.
"""
import itertools
import struct

from mc.jobs import SeqJob, EnumJob
from mc.sched import require
from satella.exceptions import NotEnoughBytes
from satella.parsing import BinaryParser

STREAM = bytes([0x11, 0x82, 0x03, 0xF4, 0x25, 0x96])
KINDS = {'bytes': bytes, 'bytearray': bytearray, 'view': lambda b: memoryview(bytes(b))}


def data(x):
    return bytes(x)


class P:
    """a parser and its window machine"""

    def __init__(self, bp, all_, lo, hi):
        self.bp, self.all, self.lo, self.hi, self.pos, self.saved = bp, all_, lo, hi, lo, None

    def look(self):
        bp = self.bp
        require(len(bp) == self.hi - self.lo, 'len is %s, window holds %s', len(bp), self.hi - self.lo)
        require(bytes(bp) == self.all[self.lo:self.hi], 'bytes() is %s, window holds %s', bytes(bp), self.all[self.lo:self.hi])
        require(bp.get_remaining_bytes_count() == self.hi - self.pos, 'remaining count is %s, not %s', bp.get_remaining_bytes_count(),
                self.hi - self.pos)
        require(data(bp.get_remaining_bytes()) == self.all[self.pos:self.hi], 'remaining bytes are %s, not %s', bp.get_remaining_bytes(),
                self.all[self.pos:self.hi])
        require(bp.pointer == self.pos, 'pointer is %s, not %s', bp.pointer, self.pos)
        for n in range(0, 8):
            try:
                bp.assert_has_bytes(n)
                ok = True
            except NotEnoughBytes:
                ok = False
            require(ok == (self.pos + n <= self.hi), 'has %s bytes: %s', n, ok)

    def read(self, n, fun, want):
        """fun reads n bytes, returning want(those bytes)"""
        if self.pos + n > self.hi:
            try:
                r = fun()
            except NotEnoughBytes:
                return None
            require(False, 'read %r: %s bytes with %s remaining', r, n, self.hi - self.pos)
        b = self.all[self.pos:self.pos + n]
        r = fun()
        self.pos += n
        if want is not None:
            w = want(b)
            require(r == w and type(r) is type(w) or isinstance(w, bytes) and data(r) == w, 'read %r instead of %r', r, w)
        return r


class Ctx:
    def __init__(self, kind, size, offset, length):
        all_ = STREAM[:size]
        args = [KINDS[kind](all_)]
        if offset is not None:
            args.append(offset)
        kw = {} if length is None else {'length': length}
        lo = offset or 0
        self.error = None
        self.ps = []
        self.src = args[0]
        self.all = all_
        try:
            bp = BinaryParser(*args, **kw)
        except NotEnoughBytes:
            require(lo > size, 'rejected an offset of %s in a stream of %s', lo, size)
            return
        require(lo <= size, 'accepted an offset of %s in a stream of %s', lo, size)
        # the length is a maximum
        self.ps.append(P(bp, all_, lo, size if length is None else min(size, lo + length)))
        self.ps[-1].look()


FORMATS = ['B', '>h', '=H', struct.Struct('<I'), '?', 'b']
MULTI = ['BB', '>Hb', struct.Struct('!BH'), '2s', '', '=BB']


def fmt(f):
    return f.format if isinstance(f, struct.Struct) else f


def ops(c):
    if not c.ps:
        return []
    out = [('bytes', n) for n in (0, 1, 2, 4)] + [('skip', n) for n in (0, 1, 3)] + [('parser', n) for n in (0, 1, 2, 4)]
    out += [('struct', i) for i in range(len(FORMATS))] + [('structs', i) for i in range(len(MULTI))]
    out += [('reset',), ('save',), ('bad',)]
    if c.ps[-1].saved is not None:
        out.append(('restore',))
    if len(c.ps) > 1:
        out.append(('up',))
    return out


def apply(c, op):
    p = c.ps[-1]
    bp = p.bp
    if op[0] == 'bytes':
        p.read(op[1], lambda: bp.get_bytes(op[1]), lambda b: b)
    elif op[0] == 'skip':
        p.read(op[1], lambda: bp.skip(op[1]), None)
    elif op[0] == 'struct':
        f = FORMATS[op[1]]
        p.read(struct.calcsize(fmt(f)), lambda: bp.get_struct(f), lambda b: struct.unpack(fmt(f), b)[0])
    elif op[0] == 'structs':
        f = MULTI[op[1]]
        p.read(struct.calcsize(fmt(f)), lambda: bp.get_structs(f), lambda b: struct.unpack(fmt(f), b))
    elif op[0] == 'parser':
        at = p.pos
        q = p.read(op[1], lambda: bp.get_parser(op[1]), None)
        if q is not None:
            p.look()
            require(isinstance(q, BinaryParser), 'not a parser')
            c.ps.append(P(q, c.all, at, at + op[1]))
    elif op[0] == 'reset':
        bp.reset()
        p.pos = p.lo
    elif op[0] == 'save':
        p.saved = bp.pointer
    elif op[0] == 'restore':
        bp.pointer = p.pos = p.saved
    elif op[0] == 'bad':
        for f in ('BB', '>2H', '=HH'):
            try:
                r = bp.get_struct(f)
            except AssertionError:
                continue
            require(False, 'single element of %r is %r', f, r)
    elif op[0] == 'up':
        c.ps.pop()
    for q in c.ps:
        q.look()
    require(data(c.src) == c.all, 'stream modified')


def key(c):
    return [(p.lo, p.hi, p.pos, p.saved) for p in c.ps]


def skey(c):
    return repr(key(c))


def format_cases():
    for pre in ('', '<', '>', '=', '!', '@'):
        for ch in 'cbB?hHiIlLqQefd' + ('nN' if pre in ('', '@') else ''):
            for off in (0, 1):
                for missing in (0, 1, None):
                    for obj in (False, True):
                        yield pre + ch, off, missing, obj


RAW = bytes(range(0x3c, 0x50))


def format_check(case):
    f, off, missing, obj = case
    n = struct.calcsize(f)
    for single in (True, False):
        size = off + n - missing if missing is not None else off + n + 3
        bp = BinaryParser(RAW[:size])
        bp.skip(min(off, size))
        p = P(bp, RAW[:size], 0, size)
        p.pos = min(off, size)
        for again in range(2):
            g = struct.Struct(f) if obj else f
            p.read(n, lambda: (bp.get_struct if single else bp.get_structs)(g),
                   lambda b: struct.unpack(f, b)[0] if single else struct.unpack(f, b))
            p.look()
            bp.reset()
            p.pos = 0
            p.look()


def pair_cases():
    fs = [p + c for p in ('', '<', '>', '=') for c in 'bBhHiIqf'] + ['BB', '>BH', 'HB', '<HB', '2s', '4s']
    for a in fs:
        for b in fs:
            yield a, b


def pair_check(case):
    """how one struct is read does not depend on what was read before"""
    bp = BinaryParser(RAW)
    p = P(bp, RAW, 0, len(RAW))
    for f in case + case[::-1]:
        n = struct.calcsize(f)
        p.read(n, lambda: bp.get_structs(f), lambda b: struct.unpack(f, b))
        bp.pointer = p.pos = p.pos - n
        if f.lstrip('<>=') in 'bBhHiIqf':
            p.read(n, lambda: bp.get_struct(f), lambda b: struct.unpack(f, b)[0])
        bp.reset()
        p.pos = 0
        sub = p.read(8, lambda: bp.get_parser(8), None)
        q = P(sub, RAW, 0, 8)
        q.read(n, lambda: sub.get_structs(f), lambda b: struct.unpack(f, b))
        q.look()
        p.look()


def jobs(tier):
    t = tier == 'thorough'
    out = [EnumJob('formats', format_cases, format_check), EnumJob('format-pairs', pair_cases, pair_check)]
    for kind in KINDS:
        sizes = (0, 1, 3, 6) if kind == 'bytes' else (0, 4)
        for size in sizes:
            for off in [None] + list(range(size + 2)):
                for ln in [None] + list(range(size + 3)):
                    if kind != 'bytes' and not t and (off, ln) not in ((None, None), (2, None), (1, 2), (3, 0), (0, 6)):
                        continue
                    if size == 6 and not t and off is not None and ln is not None and (off in (3, 4) or ln in (1, 3, 4)):
                        continue
                    out.append(SeqJob('%s-%s-%s-%s' % (kind, size, off, ln), lambda a=(kind, size, off, ln): Ctx(*a), ops, apply,
                                      5 if t else 3))
    return out
