"""
C17: SyncableDroppable over an in-memory database, with faults of the database, clean restarts and concurrent users.
"""
import bisect
import math

from mc.jobs import SeqJob, SchedJob
from mc.sched import require, par, pick, Violation
from satella.coding.structures import SyncableDroppable, DBStorage

SPAN_MEM, SPAN_DB = 3, 6


class DBError(Exception):
    pass


class It:
    def __init__(self, db, it):
        self.db, self.it = db, it

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def close(self):
        self.db.open -= 1


def live_iterator(db, starting_key):
    """a cursor that sees what is stored while it is open"""
    last = None
    while True:
        todo = [t for t in db.data if (t[0] > last if last is not None else starting_key is None or t[0] >= starting_key)]
        if not todo:
            return
        last = todo[0][0]
        yield todo[0]


class DB(DBStorage):
    live = False

    def __init__(self):
        self.data = []
        self.meta = {'start': None, 'stop': None, 'synced': None}
        self.open = 0
        self.fail_in = None

    def fault(self):
        if self.fail_in is not None:
            self.fail_in -= 1
            if self.fail_in < 0:
                raise DBError()

    def put(self, key, value):
        self.fault()
        require(key not in [k for k, _ in self.data], 'key %s put twice', key)
        self.data.append((key, value))

    def iterate(self, starting_key):
        i = 0 if starting_key is None else bisect.bisect_left([k for k, _ in self.data], starting_key)
        self.open += 1
        return It(self, live_iterator(self, starting_key) if self.live else iter(self.data[i:]))

    def delete(self, key):
        self.fault()
        require(key in [k for k, _ in self.data], 'deleting absent %s', key)
        self.data = [t for t in self.data if t[0] != key]

    def on_change_start_entry(self, v):
        self.meta['start'] = v

    def on_change_stop_entry(self, v):
        self.meta['stop'] = v

    def on_change_synced_up_to(self, v):
        self.meta['synced'] = v


class Ctx:
    def __init__(self, first=0, spans=(SPAN_MEM, SPAN_DB)):
        self.db = DB()
        self.mem, self.indb = spans
        self.first = first
        self.open()
        self.pts = []
        self.synced = None

    def open(self):
        m = self.db.meta
        self.sd = SyncableDroppable(self.db, m['start'], m['stop'], m['synced'], self.mem, self.indb)

    def todo(self):
        return [p for p in self.pts if self.synced is None or p[0] > self.synced]


def ops(c):
    out = [('new', 1), ('new', 4), ('tomem',), ('todb',), ('cleandb',), ('restart',),
           ('sync', math.inf, 'ok'), ('sync', 1, 'ok'), ('sync', 2, 'fail'), ('sync', 3, 'ok'), ('old',),
           ('todb-fail', 0), ('todb-fail', 1), ('tomem-fail', 0), ('cleandb-fail', 0), ('cleandb-fail', 1)]
    return out


def apply(c, op):
    sd, k = c.sd, op[0]
    if k == 'new':
        key = c.pts[-1][0] + op[1] if c.pts else c.first
        c.pts.append((key, 'v%s' % key))
        sd.on_new_data(key, 'v%s' % key)
    elif k == 'old':
        if c.pts:
            for key in (c.pts[-1][0], c.pts[-1][0] - 1):
                try:
                    sd.on_new_data(key, 'x')
                except ValueError:
                    pass
                else:
                    raise Violation('accepted an old key')
    elif k == 'tomem':
        before = list(c.db.data)
        sd.cleanup_keep_in_memory()
        if c.pts:
            cut = c.pts[-1][0] - c.mem
            require(all(p in c.db.data for p in c.pts if p[0] < cut), 'left in memory: all of %s but %s', c.pts, c.db.data)
            require(all(p in before for p in c.db.data if p[0] > cut), 'moved to the database too early: %s, after %s; points %s',
                    c.db.data, before, c.pts)
    elif k == 'todb':
        sd.sync_to_db()
        require(c.db.data == c.pts, 'the DB holds %s of %s', c.db.data, c.pts)
    elif k == 'restart':
        sd.sync_to_db()
        c.open()
    elif k == 'cleandb':
        sd.cleanup_keep_in_db()
        if c.pts:
            c.pts = [p for p in c.pts if p[0] >= c.pts[-1][0] - c.indb]
        require(sd.start_entry == c.db.meta['start'] == (c.pts[0][0] if c.pts else None), 'start entry %s, reported %s, of %s',
                sd.start_entry, c.db.meta['start'], c.pts)
    elif k in ('todb-fail', 'tomem-fail', 'cleandb-fail'):
        c.db.fail_in = op[1]
        try:
            {'todb': sd.sync_to_db, 'tomem': sd.cleanup_keep_in_memory, 'cleandb': sd.cleanup_keep_in_db}[k[:-5]]()
        except DBError:
            done = False
        else:
            done = True
        c.db.fail_in = None
        if k == 'cleandb-fail' and c.pts:
            keep = [p for p in c.pts if p[0] >= c.pts[-1][0] - c.indb]
            if done:
                c.pts = keep
            else:       # what was to be deleted may be there or not
                left = list(sd.get_archive(-100, 1000))
                require([p for p in left if p in keep] == keep and left == [p for p in c.pts if p in left],
                        'after a failed clean-up there is %s of %s', left, c.pts)
                c.pts = left
    elif k == 'sync':
        todo = c.todo()
        try:
            got = sd.on_sync_request(op[1]) if op[1] != math.inf else sd.on_sync_request()
        except ValueError:
            require(not todo, 'nothing to sync, though %s', todo)
            return
        got = list(got)
        want = todo if op[1] == math.inf else todo[:op[1]]
        require(want and got == want, 'offered %s to sync, expected %s', got, want)
        if op[2] == 'ok':
            sd.on_synced_up_to(got[-1][0])
            c.synced = got[-1][0]


def finish(c):
    check(c.sd, c.db, c.pts)
    try:
        got = list(c.sd.on_sync_request())
    except ValueError:
        got = []
    require(got == c.todo(), 'offered %s to sync, expected %s', got, c.todo())
    require(c.db.meta['synced'] == c.synced, 'synced up to')


def check(sd, db, pts):
    keys = [p[0] for p in pts]
    for a in [-100] + keys + [k + 1 for k in keys]:
        for b in keys + [a, 1000]:
            got = list(sd.get_archive(a, b))
            want = [p for p in pts if a <= p[0] <= b]
            require(got == want, 'archive %s..%s is %s, expected %s', a, b, got, want)
    try:
        got = sd.get_latest_value()
    except ValueError:
        require(not pts, 'no latest value of %s', pts)
    else:
        require(pts and got == pts[-1], 'latest %s of %s', got, pts)
    require(db.open == 0, '%s iterators left open', db.open)
    start, stop = (pts[0][0], pts[-1][0]) if pts else (None, None)
    require(sd.stop_entry == stop and db.meta['stop'] == stop, 'stop entry %s, reported %s, of %s', sd.stop_entry,
            db.meta['stop'], pts)
    require(start is None or sd.start_entry <= start, 'start entry %s of %s', sd.start_entry, pts)


# ------------------------------------------------------------------ schedules
def ok(rs):
    for k, v in rs:
        if k == 'exc':
            raise v
    return [v for k, v in rs]


def series(n, moved=0, step=2):
    db = DB()
    sd = SyncableDroppable(db, None, None, None, SPAN_MEM, SPAN_DB)
    pts = []
    for i in range(n):
        if i == moved and i:
            sd.sync_to_db()
        sd.on_new_data(i * step, i)
        pts.append((i * step, i))
    return db, sd, pts


def add_vs_cleanup():
    db, sd, pts = series(3, pick([0, 1, 3]), step=4)
    op = pick(['todb', 'tomem', 'cleandb'])
    f = {'todb': sd.sync_to_db, 'tomem': sd.cleanup_keep_in_memory, 'cleandb': sd.cleanup_keep_in_db}[op]
    ok(par(lambda: sd.on_new_data(9, 'n'), f))
    pts.append((9, 'n'))
    if op == 'cleandb':
        got = list(sd.get_archive(-1, 100))
        require(got in (pts[1:], pts), 'left is %s', got)
        pts = got
    check(sd, db, pts)


def two_adders():
    db, sd, pts = series(pick([0, 2]))
    r = par(lambda: sd.on_new_data(10, 'a'), lambda: sd.on_new_data(11, 'b'))
    won = [p for p, x in zip([(10, 'a'), (11, 'b')], r) if x[0] != 'exc']
    for x in r:
        require(x[0] != 'exc' or isinstance(x[1], ValueError), '%r', x)
    require((11, 'b') in won, 'the later point was refused')
    check(sd, db, pts + won)


def read_vs_move():
    db, sd, pts = series(3, pick([0, 1]))
    db.live = pick([False, True])
    op = pick(['todb', 'tomem', 'add', 'add+todb'])

    def go():
        if op.startswith('add'):
            sd.on_new_data(9, 'n')
        if op.endswith('todb'):
            sd.sync_to_db()
        elif op == 'tomem':
            sd.cleanup_keep_in_memory()
    how = pick(['archive', 'sync', 'latest'])

    def rd():
        if how == 'archive':
            return list(sd.get_archive(-1, 100))
        if how == 'sync':
            return list(sd.on_sync_request())
        return sd.get_latest_value()
    got = ok(par(rd, go))[0]
    full = pts + ([(9, 'n')] if op.startswith('add') else [])
    if how == 'latest':
        require(got in (pts[-1], full[-1]), 'latest %s', got)
    else:
        require(got in (pts, full), '%s gave %s, points are %s', how, got, full)
    check(sd, db, full)


def jobs(tier):
    q = tier == 'quick'
    o = ['structures/syncable_droppable.py']
    out = [SeqJob('ops-first%d' % f, lambda f=f: Ctx(f), ops, apply, finish=finish, depth=8 if q else 11, shards=1) for f in (0, 5)]
    for spans in ((1, 4), (0.5, 1), (4, 5), (1, 9), (2, math.inf)):
        out.append(SeqJob('spans-%s-%s' % spans, lambda spans=spans: Ctx(0, spans), ops, apply, finish=finish, depth=6 if q else 8))
    out += [SchedJob(n, f, bound=2, only=o) for n, f in
            (('add-vs-cleanup', add_vs_cleanup), ('two-adders', two_adders), ('read-vs-move', read_vs_move))]
    return out
