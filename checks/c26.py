"""
C26: PIDFileLock by several simulated processes (threads with a pid of their own) on a real scratch file, with a scheduling point
and a possible crash at every system call that touches the file. Advisory file locks become locks of the scheduler, because the
processes share this one.
"""
import builtins
import fcntl
import io
import itertools
import os
import shutil
import tempfile
import threading

import psutil

from mc.jobs import SchedJob, SeqJob, EnumJob
from mc.sched import require, Violation, spawn, pick, pause
from satella.exceptions import ResourceLocked
from satella.os import PIDFileLock


class Crash(BaseException):
    pass


class Proc:
    def __init__(self, pid):
        self.pid, self.calls, self.crash_at, self.dead, self.files = pid, 0, None, False, []


class Raw(io.RawIOBase):
    """a file descriptor of a simulated process"""

    def __init__(self, w, fd, readable, writable):
        super().__init__()
        self.w, self.fd, self.r, self.wr, self.locked = w, fd, readable, writable, None
        self.proc = w.me()
        if self.proc is not None:
            self.proc.files.append(self)
        w.fds[fd] = self

    def readable(self):
        return self.r

    def writable(self):
        return self.wr

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def readinto(self, b):
        d = self.w.read(self.fd, len(b))
        b[:len(d)] = d
        return len(d)

    def write(self, b):
        return self.w.write(self.fd, bytes(b))

    def seek(self, o, wh=0):
        if self.fd is None:
            raise Crash()
        return self.w.real['lseek'](self.fd, o, wh)

    def tell(self):
        if self.fd is None:
            raise Crash()
        return self.w.real['lseek'](self.fd, 0, 1)

    def truncate(self, n=None):
        self.w.step()
        n = self.tell() if n is None else n
        self.w.real['ftruncate'](self.fd, n)
        return n

    def really_close(self):
        if self.fd is not None:
            fd, self.fd = self.fd, None
            self.w.fds.pop(fd, None)
            self.w.unlock(self)
            self.w.real['close'](fd)

    def close(self):
        if not self.closed:
            super().close()
            if self.fd is not None and not (self.proc is not None and self.proc.dead):
                try:
                    self.w.step()
                finally:
                    self.really_close()


class World:
    OS = ['open', 'fdopen', 'unlink', 'remove', 'link', 'rename', 'replace', 'stat', 'lstat', 'fstat', 'read', 'write', 'ftruncate',
          'truncate', 'close', 'getpid', 'kill', 'lseek']

    def __init__(self, content):
        self.d = tempfile.mkdtemp(prefix='verif-c26-')
        self.path = os.path.join(self.d, 'lock')
        self.real = {n: getattr(os, n) for n in self.OS}
        self.rest = builtins.open, io.open, fcntl.flock, fcntl.lockf, psutil.process_iter, psutil.pid_exists, psutil.pids
        self.procs = {}
        self.alive = {777}
        self.holders = {}
        self.active = set()
        self.seen = {}
        self.fds = {}
        self.locks = {}
        if content is not None:
            with open(self.path, 'wb') as f:
                f.write(content)

    def me(self):
        return self.procs.get(threading.get_ident())

    def step(self):
        p = self.me()
        if p is None:
            return
        if p.dead:
            raise Crash()
        pause()
        if p.dead:
            raise Crash()
        p.calls += 1
        if p.crash_at is not None and p.calls - 1 == p.crash_at:
            self.die(p)
            raise Crash()

    def die(self, p):
        p.dead = True
        self.alive.discard(p.pid)
        self.holders.pop(p.pid, None)
        for f in list(p.files):
            f.really_close()

    def mine(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            return os.fspath(path).startswith(self.d)
        except TypeError:
            return False

    def read(self, fd, n):
        if fd is None:
            raise Crash()
        if fd in self.fds:
            self.step()
        return self.real['read'](fd, n)

    def write(self, fd, d):
        if fd is None:
            raise Crash()
        if fd in self.fds:
            self.step()
        return self.real['write'](fd, d)

    def os_open(self, path, flags, mode=0o777, *a, **kw):
        if not self.mine(path):
            return self.real['open'](path, flags, mode, *a, **kw)
        self.step()
        fd = self.real['open'](path, flags, mode, *a, **kw)
        acc = flags & os.O_ACCMODE
        Raw(self, fd, acc in (os.O_RDONLY, os.O_RDWR), acc in (os.O_WRONLY, os.O_RDWR))
        return fd

    def wrap(self, raw, mode, buffering=-1, encoding=None, errors=None, newline=None, *a, **kw):
        if buffering == 0:
            return raw
        raw.r = 'r' in mode or '+' in mode
        raw.wr = any(c in mode for c in 'wax+')
        cls = io.BufferedRandom if '+' in mode else io.BufferedReader if 'r' in mode else io.BufferedWriter
        b = cls(raw)
        return b if 'b' in mode else io.TextIOWrapper(b, encoding or 'utf-8', errors, newline)

    def file_open(self, path, mode='r', *a, **kw):
        if isinstance(path, int):
            if path in self.fds:
                return self.wrap(self.fds[path], mode, *a, **kw)
        elif self.mine(path):
            self.step()
            f = self.rest[0](path, mode.replace('t', '').replace('b', '') + 'b', 0)
            fd = os.dup(f.fileno())
            f.close()
            return self.wrap(Raw(self, fd, True, True), mode, *a, **kw)
        return self.rest[0](path, mode, *a, **kw)

    def flock(self, f, op):
        fd = f if isinstance(f, int) else f.fileno()
        if fd not in self.fds:
            return self.rest[2](fd, op)
        raw = self.fds[fd]
        if op & fcntl.LOCK_UN:
            self.step()
            self.unlock(raw)
            return
        self.step()
        st = self.real['fstat'](fd)
        lk = self.locks.setdefault(st.st_ino, threading.Lock())
        if raw.locked is lk:
            return
        if op & fcntl.LOCK_NB:
            if not lk.acquire(False):
                raise BlockingIOError(11, 'locked')
        else:
            lk.acquire()
            if raw.proc is not None and raw.proc.dead:
                lk.release()
                raise Crash()
        raw.locked = lk

    def lockf(self, f, op, *a):
        return self.flock(f, op)

    def unlock(self, raw):
        if raw.locked is not None:
            lk, raw.locked = raw.locked, None
            lk.release()

    def os_close(self, fd):
        if fd in self.fds:
            self.fds[fd].close()
        else:
            self.real['close'](fd)

    def generic(self, name):
        real = self.real[name]

        def call(path, *a, **kw):
            if self.mine(path):
                self.step()
            return real(path, *a, **kw)
        return call

    def getpid(self):
        p = self.me()
        return self.real['getpid']() if p is None else p.pid

    def kill(self, pid, sig):
        if sig != 0:
            raise AssertionError('kill of %s' % pid)
        self.step()
        if pid not in self.alive:
            raise ProcessLookupError(3, 'no such process')

    def iter(self, *a, **kw):
        self.step()

        class P:
            def __init__(self, pid):
                self.pid = pid

            def is_running(self):
                return True
        return [P(x) for x in sorted(self.alive)]

    def pid_exists(self, pid):
        self.step()
        return pid in self.alive

    def pids(self):
        self.step()
        return sorted(self.alive)

    def __enter__(self):
        for n in ('unlink', 'remove', 'link', 'rename', 'replace', 'stat', 'lstat', 'fstat', 'ftruncate', 'truncate'):
            setattr(os, n, self.generic(n))
        os.open, os.fdopen, os.read, os.write, os.close = self.os_open, self.file_open, self.read, self.write, self.os_close
        os.getpid, os.kill = self.getpid, self.kill
        builtins.open = io.open = self.file_open
        fcntl.flock, fcntl.lockf = self.flock, self.lockf
        psutil.process_iter, psutil.pid_exists, psutil.pids = self.iter, self.pid_exists, self.pids
        return self

    def __exit__(self, *a):
        for n, f in self.real.items():
            setattr(os, n, f)
        builtins.open, io.open, fcntl.flock, fcntl.lockf, psutil.process_iter, psutil.pid_exists, psutil.pids = self.rest
        for r in list(self.fds.values()):
            r.locked = None
            r.really_close()
        shutil.rmtree(self.d, ignore_errors=True)

    def content(self):
        try:
            fd = self.real['open'](self.path, os.O_RDONLY)
        except FileNotFoundError:
            return None
        try:
            return self.real['read'](fd, 100)
        finally:
            self.real['close'](fd)

    def names(self, pid):
        c = self.content()
        try:
            return c is not None and int(c) == pid
        except ValueError:
            return False

    # ---- what a process does
    def acquire(self, lock, p):
        self.active.add(p.pid)
        for s in self.seen.values():
            s.add(p.pid)
        self.seen[p.pid] = {x for x in self.active if x != p.pid}
        if self.names(777):
            self.seen[p.pid].add(777)
        try:
            lock.acquire()
        except ResourceLocked as e:
            pid = getattr(e, 'pid', None)
            require(pid is not None and pid == e.args[0], 'holder not named by the error: %r', e)
            require(self.seen[p.pid], 'process %d was told that %s holds the lock, though nobody could', p.pid, pid)
            require(p.pid not in self.holders, 'told that it is locked')
            self.active.discard(p.pid)
            return False
        finally:
            self.seen.pop(p.pid, None)
        require(not self.holders, 'processes %s and %d hold the lock together', sorted(self.holders), p.pid)
        require(not self.content_names_living_other(p.pid), 'the file names another living process')
        require(self.names(p.pid), 'lock is held by %d, the file has %r', p.pid, self.content())
        self.holders[p.pid] = True
        return True

    def content_names_living_other(self, pid):
        return any(self.names(x) for x in self.alive if x != pid)

    def release(self, lock, p):
        require(self.names(p.pid), 'lock is held by %d, the file has %r', p.pid, self.content())
        self.holders.pop(p.pid, None)
        try:
            lock.release()
        finally:
            if not p.dead:
                self.active.discard(p.pid)
        require(not self.names(p.pid), 'released by %d, but the file still names it', p.pid)

    def process(self, pid, crash_at=None, rounds=1, hold=1):
        p = Proc(pid)
        p.crash_at = crash_at
        self.alive.add(pid)
        got = []

        def run():
            self.procs[threading.get_ident()] = p
            lock = PIDFileLock('lock', self.d)
            try:
                for _ in range(rounds):
                    if self.acquire(lock, p):
                        got.append(pid)
                        for _ in range(hold):
                            pause()
                        self.release(lock, p)
                # and it ends
            except Crash:
                got.append('crashed')
                self.active.discard(pid)
                return
            finally:
                del self.procs[threading.get_ident()]
                if not p.dead:
                    self.die(p)
        run.got = got
        return run

    def at_end(self):
        """nobody is left: a new process gets the lock"""
        r = self.process(900)
        h = spawn(r)
        h.join()
        if h.exc is not None:
            raise h.exc
        require(r.got == [900], 'nobody holds the lock, but it can not be acquired: the file has %r', self.content())


STATES = {'absent': None, 'stale': b'4000\n', 'garbage': b'what?\n', 'empty': b'', 'binary': b'\xff\xfe'}


def race(n, states, crash=None, rounds=1):
    def body():
        st = pick(states)
        with World(STATES[st]) as w:
            k = pick(range(crash)) if crash else None
            runs = [w.process(101 + i, k if i == 0 else None, rounds) for i in range(n)]
            hs = [spawn(r) for r in runs]
            for h in hs:
                h.join()
            for h in hs:
                if h.exc is not None:
                    raise h.exc if isinstance(h.exc, Violation) else Violation('%s in a process: %s' % (type(h.exc).__name__, h.exc))
            out = [r.got for r in runs]
            w.at_end()
            return out
    return body


def after_crash(crash):
    """the first process dies at some step, then a second one comes"""
    def body():
        st = pick(list(STATES))
        with World(STATES[st]) as w:
            k = pick(range(crash))
            a = w.process(101, k)
            h = spawn(a)
            h.join()
            if h.exc is not None:
                raise h.exc
            w.at_end()
            require(w.content() is None, 'released, but the file is still there')
            return a.got
    return body


def successors(states):
    """a process, and another one that starts when it has ended, against a third one"""
    def body():
        st = pick(states)
        with World(STATES[st]) as w:
            a, b, c = (w.process(101 + i) for i in range(3))

            def one_after_another():
                a()
                b()
            hs = [spawn(c), spawn(one_after_another)] if pick([True, False]) else [spawn(one_after_another), spawn(c)]
            for h in hs:
                h.join()
            for h in hs:
                if h.exc is not None:
                    raise h.exc if isinstance(h.exc, Violation) else Violation('%s in a process: %s' % (type(h.exc).__name__, h.exc))
            out = [r.got for r in (a, b, c)]
            w.at_end()
            return out
    return body


# ------------------------------------------------------------------ one process, all sequences
class Ctx:
    def __init__(self):
        self.w = World(None)
        self.locks = [PIDFileLock('lock', self.w.d), PIDFileLock('lock', self.w.d)]
        self.held = None
        self.file = None        # None absent, 'me', 'other', 'junk'


OPS = [('acquire', 0), ('acquire', 1), ('release', 0), ('release', 1), ('with', 0), ('withexc', 1), ('put', 'other'), ('put', 'stale'),
       ('put', 'garbage'), ('put', 'empty'), ('put', None)]


def apply(c, op):
    w = c.w
    w.__enter__()
    w.procs[threading.get_ident()] = p = Proc(101)
    w.alive.add(101)
    try:
        if op[0] == 'put':
            if c.held is not None:
                return          # nobody touches the file of a living holder
            if w.content() is not None:
                w.real['unlink'](w.path)
            data = {'other': b'777\n', 'stale': b'4000', 'garbage': b'x', 'empty': b'', None: None}[op[1]]
            if data is not None:
                with w.rest[0](w.path, 'wb') as f:
                    f.write(data)
            c.file = 'other' if op[1] == 'other' else None if op[1] is None else 'junk'
            return
        lock = c.locks[op[1]]
        if op[0] == 'release':
            if c.held != op[1]:
                before = w.content()
                try:
                    lock.release()
                except RuntimeError:
                    pass
                else:
                    raise Violation('released a lock that was not acquired')
                require(w.content() == before, 'the file changed')
            else:
                lock.release()
                require(w.content() is None, 'released, but the file is there')
                c.held, c.file = None, None
            return
        holder = 101 if c.held is not None else 777 if c.file == 'other' else None
        before = w.content()
        if op[0] == 'acquire':
            try:
                lock.acquire()
            except ResourceLocked as e:
                require(holder is not None and e.args[0] == holder and e.pid == holder and e.is_alive is True,
                        'locked by %r, expected %r', e.args, holder)
                require(w.content() == before, 'the file changed from %r to %r', before, w.content())
            else:
                require(holder is None, 'acquired, though %d holds it', holder)
                require(w.names(101), 'the file has %r', w.content())
                c.held, c.file = op[1], 'me'
            return

        class Boom(Exception):
            pass
        try:
            with lock:
                require(holder is None, 'acquired, though %d holds it', holder)
                require(w.names(101), 'the file has %r', w.content())
                if op[0] == 'withexc':
                    raise Boom()
        except ResourceLocked as e:
            require(holder is not None and e.args[0] == holder, 'locked by %r', e.args)
            require(w.content() == before, 'the file changed')
        except Boom:
            require(op[0] == 'withexc' and w.content() is None, 'released, but the file is there')
            c.file = None
        else:
            require(op[0] == 'with' and w.content() is None, 'exception lost, or the file is there')
            c.file = None
    finally:
        d = w.d
        for n, f in w.real.items():
            setattr(os, n, f)
        builtins.open, io.open, fcntl.flock, fcntl.lockf, psutil.process_iter, psutil.pid_exists, psutil.pids = w.rest
        w.procs.clear()


def finish(c):
    c.k = key(c)
    shutil.rmtree(c.w.d, ignore_errors=True)


def key(c):
    if getattr(c, 'k', None) is None:
        c.k = c.held, c.file, c.w.content()
    return c.k


def jobs(tier):
    t = tier == 'thorough'
    none = ['no-such-file']
    return [SchedJob('two', race(2, list(STATES)), bound=3 if t else 2, only=none),
            SchedJob('two-again', race(2, ['absent', 'stale'], rounds=2), bound=2, only=none),
            SchedJob('successors', successors(['absent', 'stale'] if not t else list(STATES)), bound=2, only=none),
            SchedJob('three', race(3, ['absent', 'stale'] if not t else list(STATES)), bound=2 if t else 1, only=none),
            SchedJob('crash', race(2, ['absent', 'stale'] if not t else list(STATES), crash=16), bound=2, only=none),
            SchedJob('after-crash', after_crash(18), bound=0, only=none),
            SeqJob('one-process', Ctx, OPS, apply, 4 + t, key=key, finish=finish, dedupe=False, shards=8)]
