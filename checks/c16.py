"""
C16: SparseMatrix against a dict from (column, row) to value.
"""
import itertools

from mc.jobs import SeqJob, EnumJob
from mc.sched import require, Violation
from satella.coding.structures import SparseMatrix

OUT = object()


def bounds(m):
    return (max((c for c, _ in m), default=-1) + 1, max((r for _, r in m), default=-1) + 1)


def dense(m):
    w, h = bounds(m)
    return [[m.get((c, r)) for c in range(w)] for r in range(h)]


def at(sm, c, r):
    try:
        return sm[c, r]
    except IndexError:
        return OUT


def agrees(sm, m, what='matrix'):
    w, h = bounds(m)
    require((sm.columns, sm.rows) == (w, h), '%s: bounds %s, occupied cells are %s', what, (sm.columns, sm.rows), m)
    require(len(sm) == h, '%s: len %s of %s rows', what, len(sm), h)
    require(bool(sm) == bool(m), '%s: truth %s with %s', what, bool(sm), m)
    d = dense(m)
    require(list(sm) == d, '%s: rows %s, expected %s', what, list(sm), d)
    require(sm[:, :] == d, '%s: [:, :]', what)
    for r in range(-h, h + 2):
        for c in range(-w, w + 2):
            v = at(sm, c, r)
            if r < h and c < w:
                require(v is m.get((c % w, r % h)) or v == m.get((c % w, r % h)), '%s: at %s read %s of %s', what, (c, r), v, m)
            else:
                require(v is OUT or v is None, '%s: at %s outside read %s', what, (c, r), v)
    for r in range(h):
        require(sm.get_row(r) == d[r], '%s: row %s', what, r)
        require(sm[:, r] == d[r] and sm[..., r] == d[r] and sm[:, r - h] == d[r], '%s: row slice %s', what, r)
    for c in range(w):
        col = [m.get((c, r)) for r in range(h)]
        require(sm[c, :] == col and sm[c, ...] == col and sm[c - w, :] == col, '%s: column slice %s', what, c)
    if m:
        require(sm.max() == max(m.values()) and sm.min() == min(m.values()), '%s: extremes %s %s of %s', what, sm.min(),
                sm.max(), m)
    for c, r in itertools.product(range(w), range(h)):
        for diag in (True, False):
            got = sorted(sm.get_neighbour_coordinates(c, r, diag))
            want = sorted((x, y) for x in range(w) for y in range(h) if (x, y) != (c, r) and
                          (max(abs(x - c), abs(y - r)) == 1 if diag else abs(x - c) + abs(y - r) == 1))
            require(got == want, '%s: neighbours of %s %s: %s expected %s', what, (c, r), diag, got, want)


class Ctx:
    def __init__(self, init=None, few=False):
        self.few = few
        self.sm = SparseMatrix(init)
        self.m = {}
        for r, row in enumerate(init or []):
            for c, v in enumerate(row):
                self.put(c, r, v)

    def put(self, c, r, v):
        if v is None:
            self.m.pop((c, r), None)
        else:
            self.m[c, r] = v


ROWS = [(5,), (None, 6), (0, -8, None)]


def ops(c):
    w, h = bounds(c.m)
    cells = [(0, 0), (1, 0), (0, 2), (1, 1), (2, 1), (-1, -1), (-2, 0)]
    rows = ROWS
    if c.few:
        cells, rows = [(0, 0), (0, 2), (1, 1), (-1, -1)], ROWS[1:]
    out = [('set', p, v) for p in cells for v in (1, None)]
    out += [('del', p) for p in cells]
    for i in (0, 1, -1):
        out += [('delrow', i), ('delcol', i), ('delete_row', i), ('setcol', i, ROWS[0]), ('setcol', i, ROWS[1])]
        out += [('setrow', i, r) for r in rows]
    out += [('append', r) for r in rows]
    out += [('all', ((1, None), (None, 2))), ('all', ()), ('delall',), ('nullall',), ('clear',), ('shoot',), ('delete_row', 5),
            ('delrow', 5), ('read',)]
    return out


def norm(i, n):
    return i + n if i < 0 else i


def expect(f, ok):
    """ok: the index exists"""
    try:
        f()
    except IndexError:
        require(not ok, 'IndexError')
        return False
    return ok


def apply(c, op):
    sm, k = c.sm, op[0]
    w, h = bounds(c.m)
    if k in ('set', 'del'):
        x, y = norm(op[1][0], w), norm(op[1][1], h)
        ok = x >= 0 and y >= 0

        def f():
            if k == 'set':
                sm[op[1]] = op[2]
            else:
                del sm[op[1]]
        if expect(f, ok):
            c.put(x, y, op[2] if k == 'set' else None)
    elif k in ('delrow', 'delete_row'):
        y = norm(op[1], h)

        def f():
            if k == 'delrow':
                del sm[:, op[1]]
            else:
                sm.delete_row(op[1])
        if expect(f, y >= 0):
            for x in range(w):
                c.put(x, y, None)
    elif k == 'delcol':
        x = norm(op[1], w)

        def f():
            del sm[op[1], :]
        if expect(f, x >= 0):
            for y in range(h):
                c.put(x, y, None)
    elif k == 'setrow':
        y = norm(op[1], h)

        def f():
            if op[1]:
                sm[:, op[1]] = op[2]
            else:
                sm[..., op[1]] = iter(op[2])
        if expect(f, y >= 0):
            for x, v in enumerate(op[2]):
                c.put(x, y, v)
    elif k == 'setcol':
        x = norm(op[1], w)

        def f():
            sm[op[1], :] = op[2]
        if expect(f, x >= 0):
            for y, v in enumerate(op[2]):
                c.put(x, y, v)
    elif k == 'append':
        sm.append_row(iter(op[1]))
        for x, v in enumerate(op[1]):
            c.put(x, h, v)
    elif k == 'all':
        sm[:, :] = op[1]
        c.m = {}
        for y, row in enumerate(op[1]):
            for x, v in enumerate(row):
                c.put(x, y, v)
    elif k in ('delall', 'clear', 'nullall'):
        if k == 'delall':
            del sm[:, :]
        elif k == 'clear':
            sm.clear()
        else:
            sm[:, :] = None
        c.m = {}
    elif k == 'shoot':
        if len(c.m) and max(w, h) > 6:
            return
        s2 = sm.shoot()
        agrees(s2, {(x * 2, y * 2): v for (x, y), v in c.m.items()}, 'shot')
    elif k == 'read':
        agrees(sm, c.m)


def finish(c):
    sm = c.sm
    agrees(sm, c.m)
    again = SparseMatrix.from_iterable(dense(c.m))
    agrees(again, c.m, 'from_iterable')
    require(sm == again and again == sm, 'not equal to a matrix of the same content %s', c.m)
    again[1, 1] = 99
    require(sm != again, 'equal to a matrix of other content')
    agrees(sm, c.m, 'after changing the other matrix')


def slices():
    for a in ((slice(0, 1), 0), (0, slice(None, 1)), (slice(None, None, 2), 0), (slice(1, None), slice(None))):
        for how in ('get', 'set', 'del'):
            yield a, how


def custom_slice(case):
    a, how = case
    sm = SparseMatrix([[1, 2], [3, 4]])
    try:
        if how == 'get':
            sm[a]
        elif how == 'set':
            sm[a] = [1]
        else:
            del sm[a]
    except IndexError:
        pass
    else:
        raise Violation('custom slicing was not refused')
    require(list(sm) == [[1, 2], [3, 4]], 'changed to %s', list(sm))


def jobs(tier):
    q = tier == 'quick'
    out = []
    for n, init, few, depth in (('empty', None, False, 3), ('full', [[1, 2], [3, 4]], False, 3), ('empty-few', None, True, 4)):
        out.append(SeqJob('ops-' + n, lambda init=init, few=few: Ctx(init, few), ops, apply, finish=finish, depth=depth + (not q), shards=8))
    out.append(EnumJob('slices', slices, custom_slice))
    return out
