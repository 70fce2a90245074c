"""
C27: transactions over a recording connection on which any one call fails, over every way of giving the connection and every way the
block ends; the same over a real SQLite database; lazily loaded objects against a counter.
"""
import functools
import itertools
import logging
import sqlite3

from mc.jobs import SeqJob, EnumJob
from mc.sched import require
from satella.dao import Loadable, must_be_loaded
from satella.db import transaction


class DbError(Exception):
    pass


class Boom(Exception):
    pass


class FalsyBoom(Exception):
    def __bool__(self):
        return False


class BaseBoom(BaseException):
    pass


class Rec:
    """what happened, and which call fails"""

    def __init__(self, fail):
        self.fail, self.log = fail, []

    def call(self, what):
        self.log.append(what)
        if what == self.fail or (self.fail is not None and self.fail == (what, self.log.count(what))):
            raise DbError(what)


class Cur:
    def __init__(self, r):
        self.r = r

    def execute(self, *a):
        self.r.call('execute')

    def close(self):
        self.r.call('cursor.close')


class Conn:
    def __init__(self, r):
        self.r = r

    def cursor(self):
        self.r.call('cursor')
        self.cur = Cur(self.r)
        return self.cur

    def commit(self):
        self.r.call('commit')

    def rollback(self):
        self.r.call('rollback')

    def close(self):
        self.r.call('close')


class CallableConn(Conn):
    """like sqlite3.Connection, which can be called too"""

    def __call__(self, *a):
        raise AssertionError('the connection was called')


class FalseConn(Conn):
    def __bool__(self):
        return False


class Pool:
    def __init__(self, r):
        self.r = r

    def get(self):
        self.r.call('getter')
        return Conn(self.r)

    def get_with(self, a, b=0):
        require((a, b) == (1, 2), 'arguments')
        return self.get()

    __call__ = get

    @classmethod
    def of_class(cls):
        return cls.inst.get()

    @staticmethod
    def static():
        return Pool.inst.get()


OPEN = {
    'connection': lambda r: Conn(r), 'callable-connection': lambda r: CallableConn(r), 'falsy-connection': lambda r: FalseConn(r),
    'lambda': lambda r: (lambda: Pool(r).get()), 'method': lambda r: Pool(r).get, 'callable': lambda r: Pool(r),
    'partial': lambda r: functools.partial(Pool(r).get_with, 1, b=2), 'classmethod': lambda r: (setattr(Pool, 'inst', Pool(r)), Pool.of_class)[1],
    'static': lambda r: (setattr(Pool, 'inst', Pool(r)), Pool.static)[1],
    'lazy-falsy': lambda r: (lambda: (r.call('getter'), FalseConn(r))[1]),
}
LAZY = {k for k in OPEN if 'connection' not in k}
OUTCOMES = ['ok', 'early', Boom, FalsyBoom, BaseBoom, KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration, 'return']
FAILS = [None, 'getter', 'cursor', 'execute', ('execute', 2), 'commit', 'rollback', 'cursor.close', 'close']


def cases():
    for o in OPEN:
        for out in OUTCOMES:
            for f in FAILS:
                for close in (False, True):
                    for log in (False, True):
                        yield o, out, f, close, log


class Log(logging.Handler):
    def __init__(self):
        super().__init__()
        self.n = 0

    def emit(self, record):
        self.n += 1


def check(case):
    style, out, fail, close, log = case
    r = Rec(fail)
    given = OPEN[style](r)
    kw = {'close_the_connection_after': close}
    if not log:
        kw['log_exception'] = False
    t = transaction(given, **kw)
    require(r.log == [], 'calls before the block: %s', r.log)
    thrown = []
    entered = []
    h = Log()
    lg = logging.getLogger('satella')
    old = lg.level, lg.propagate
    lg.addHandler(h)
    lg.setLevel(1)

    def use():
        with t as cur:
            entered.append(cur)
            try:
                cur.execute('a')
                if out == 'return':
                    return 'r'
                if out == 'early':
                    return None
                cur.execute('b')
                if isinstance(out, type):
                    raise out('x')
            except BaseException as e:
                thrown.append(e)
                raise
        return 'end'
    try:
        got = ('ok', use())
    except BaseException as e:
        got = ('exc', e)
    finally:
        lg.removeHandler(h)
    n = r.log.count
    if not entered:
        require(got[0] == 'exc' and isinstance(got[1], DbError) and fail in ('getter', 'cursor'), 'not entered: %s', got)
        require(n('commit') == 0, 'committed without a cursor')
        return
    require(n('getter') == (style in LAZY), 'the connection was asked for %d times', n('getter'))
    require(n('cursor') == 1, '%d cursors', n('cursor'))
    if thrown:
        require(n('commit') == 0 and n('rollback') == 1, 'block raised %r: %s', thrown[0], r.log)
        require(got[0] == 'exc', 'exception %r lost', thrown[0])
        if fail not in ('rollback', 'cursor.close', 'close') or got[1] is thrown[0]:
            require(got[1] is thrown[0], '%r came out as %r', thrown[0], got[1])
        else:
            require(isinstance(got[1], DbError), '%r came out as %r', thrown[0], got[1])
        if not log:
            require(h.n == 0, 'logged in spite of log_exception=False')
        elif fail not in ('rollback', 'cursor.close', 'close'):
            require(h.n == 1, 'exception logged %d times', h.n)
    else:
        require(n('commit') == 1, 'block ended well: %s', r.log)
        require(n('rollback') == 0 or fail == 'commit', 'block ended well: %s', r.log)
        failed = fail in ('commit', 'cursor.close') or (fail == 'close' and close)
        require((got[0] == 'exc' and isinstance(got[1], DbError)) if failed else got == ('ok', 'r' if out == 'return' else None if out == 'early' else 'end'),
                'failing %s: %s', fail, got)
    require(n('cursor.close') == 1, 'cursor closed %d times after a failing %s', n('cursor.close'), fail)
    require(n('close') == (1 if close else 0), 'connection closed %d times after a failing %s', n('close'), fail)
    if close:
        require(r.log[-1] == 'close', 'connection closed before the rest: %s', r.log)
    done = 'rollback' if thrown else 'commit'
    require(r.log.index(done) > max(i for i, x in enumerate(r.log) if x in ('execute', 'cursor')), 'order %s', r.log)


# ------------------------------------------------------------------ SQLite, sequences of transactions
class Sq:
    def __init__(self, lazy):
        self.opened = 0
        self.db = 'file:verif%d?mode=memory&cache=shared' % id(self)
        self.keep = sqlite3.connect(self.db, uri=True)
        self.keep.execute('create table t (x int)')
        self.keep.commit()
        self.rows = []
        self.n = 0
        self.conn = None
        if lazy:
            self.t = transaction(self.get)
        else:
            self.t = transaction(self.get())

    def get(self):
        self.opened += 1
        self.conn = sqlite3.connect(self.db, uri=True)
        return self.conn


def sq_apply(c, op):
    rows = []
    try:
        with c.t as cur:
            for kind in op:
                if kind == 'i':
                    c.n += 1
                    cur.execute('insert into t values (?)', (c.n,))
                    rows.append(c.n)
                elif kind == 'r':
                    cur.execute('select x from t order by x')
                    require([r[0] for r in cur.fetchall()] == c.rows + rows, 'own rows')
                elif kind == '!':
                    raise Boom()
                elif kind == '?':
                    cur.execute('not sql')
    except Boom:
        rows = []
    except sqlite3.OperationalError:
        require('?' in op, 'failed by itself')
        rows = []
    else:
        require('!' not in op and '?' not in op, 'exception lost')
    c.rows += rows
    got = [r[0] for r in c.keep.execute('select x from t order by x').fetchall()]
    require(got == c.rows, 'others see %s, committed %s', got, c.rows)
    require(c.opened <= 1, 'connected %d times', c.opened)
    try:
        cur.execute('select 1')
    except sqlite3.ProgrammingError:
        pass
    else:
        require(False, 'cursor left open')


def sq_finish(c):
    c.keep.close()
    if c.conn is not None:
        c.conn.close()


# ------------------------------------------------------------------ lazily loaded objects
class Obj(Loadable):
    def __init__(self, lazy, fails):
        self.log = []
        self.fails = fails
        if lazy is None:
            super().__init__()
        else:
            super().__init__(lazy)

    def refresh(self, load_from=None):
        self.log.append(load_from)
        if self.fails:
            self.fails -= 1
            raise DbError()
        super().refresh(load_from)

    @must_be_loaded
    def value(self, a, *args, k=1, **kw):
        require(self.log, 'called before loading')
        if a == 'boom':
            raise Boom()
        return self, a, args, k, kw


class LCtx:
    def __init__(self, lazy, fails):
        self.failed = False
        self.loaded = False
        self.fails = fails
        self.n = 0
        try:
            self.o = Obj(lazy, fails)
        except DbError:
            self.failed = True
            require(not lazy and fails, 'failed by itself')
            return
        require(lazy or not fails, 'loading error lost')
        if not lazy:
            self.n, self.loaded = 1, True
        require(len(self.o.log) == self.n, 'loaded %d times', len(self.o.log))


def l_apply(c, op):
    if c.failed:
        return
    load = op[0] == 'refresh' or not c.loaded
    ok = True
    if load:
        c.n += 1
        if c.fails:
            c.fails -= 1
            ok = False
        else:
            c.loaded = True
    try:
        if op[0] == 'refresh':
            c.o.refresh(*op[1:])
        elif op[0] == 'value':
            got = c.o.value(1, 2, k=3, z=4)
            require(got == (c.o, 1, (2,), 3, {'z': 4}), 'got %s', got)
        else:
            try:
                c.o.value('boom')
                require(False, 'exception lost')
            except Boom:
                require(ok, 'called though not loaded')
        require(ok, 'loading error lost')
    except DbError:
        require(not ok, 'failed by itself')
    require(len(c.o.log) == c.n, 'loaded %d times, expected %d', len(c.o.log), c.n)
    require(c.o.log[-1] == (op[1] if len(op) > 1 else None) if load else True, 'loaded from %s', c.o.log[-1:])


def jobs(tier):
    t = tier == 'thorough'
    out = [EnumJob('transactions', cases, check, shards=4)]
    progs = [p for n in (0, 1, 2, 3) for p in itertools.product('ir!?', repeat=n) if '!' not in p[:-1] and '?' not in p[:-1]]
    for lazy in (False, True):
        out.append(SeqJob('sqlite-%s' % ('lazy' if lazy else 'given'), lambda lazy=lazy: Sq(lazy), progs, sq_apply, 3 if t else 2,
                          finish=sq_finish, dedupe=False, shards=4))
    for lazy in (None, False, True):
        for fails in (0, 1, 2):
            out.append(SeqJob('loadable-%s-%d' % (lazy, fails), lambda lazy=lazy, fails=fails: LCtx(lazy, fails),
                              [('value',), ('boom',), ('refresh',), ('refresh', 'serialised')], l_apply, 5 if t else 4, dedupe=False))
    return out
