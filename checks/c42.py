"""
C42: reading of child processes under all interleavings of child, reader and waiter (a process with a pipe of bounded capacity, on the scheduler's
clock) and for real; signals delivered at every poll of hang_until_sig; executables in every small PATH; the system calls of daemonize and suicide.
"""
import io
import itertools
import json
import os
import shutil
import signal
import stat
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import warnings

import satella
from mc import sched
from mc.jobs import EnumJob, SchedJob
from mc.sched import require, spawn, now
from satella.exceptions import ProcessFailed
from satella.os import whereis, safe_listdir, hang_until_sig, suicide, is_running_as_root, daemonize
from satella.processes import read_nowait, call_and_return_stdout

warnings.simplefilter('ignore')
REPO = os.path.dirname(os.path.dirname(os.path.abspath(satella.__file__)))


# ------------------------------------------------------------------ a process under the scheduler
class Pipe(io.RawIOBase):
    """a pipe that holds up to some bytes, seen from the reading end"""

    def __init__(self, capacity):
        self.cond = threading.Condition()
        self.data = b''
        self.capacity = capacity
        self.ended = False
        self.dead = False

    def write_end(self, chunk):
        with self.cond:
            while chunk:
                while len(self.data) >= self.capacity and not self.dead:
                    self.cond.wait()
                if self.dead:
                    return
                n = self.capacity - len(self.data)
                self.data += chunk[:n]
                chunk = chunk[n:]
                self.cond.notify_all()

    def end(self):
        with self.cond:
            self.ended = True
            self.cond.notify_all()

    def kill(self):
        with self.cond:
            self.dead = self.ended = True
            self.cond.notify_all()

    def readable(self):
        return True

    def _take(self, n):
        with self.cond:
            while not self.data and not self.ended:
                self.cond.wait()
            out, self.data = self.data[:n], self.data[n:]
            self.cond.notify_all()
            return out

    def read(self, n=-1):
        out = b''
        while n is None or n < 0 or len(out) < n:
            part = self._take(None if n is None or n < 0 else n - len(out))
            if not part:
                break
            out += part
        return out

    def read1(self, n=-1):
        return self._take(None if n < 0 else n)

    def readline(self, n=-1):
        out = b''
        while not out.endswith(b'\n'):
            c = self._take(1)
            if not c:
                break
            out += c
        return out

    def readinto(self, b):
        out = self._take(len(b))
        b[:len(out)] = out
        return len(out)


class Process:
    """stands for subprocess.Popen; script: list of ('write', bytes), ('sleep', s), ('close',)"""
    started = []

    def __init__(self, args, script=None, rc=0, capacity=4, stdout=None, **kwargs):
        self.args = args
        self.script = script or args
        self.stdout = Pipe(capacity)
        self.returncode = None
        self.kwargs = kwargs
        self.rc = rc
        self.killed = self.hold = False
        self.cond = threading.Condition()
        self.stdin = self.stderr = None
        self.pid = 12345
        Process.started.append(self)
        spawn(self.run)

    def run(self):
        for op in self.script:
            if self.killed:
                break
            if op[0] == 'write':
                self.stdout.write_end(op[1])
            elif op[0] == 'sleep':
                with self.cond:
                    if not self.killed:
                        self.cond.wait(op[1])
            elif op[0] == 'close':
                self.stdout.end()
            elif op[0] == 'hold':       # a process of its own has the pipe for this long
                spawn(lambda s=op[1]: self.held(s))
                self.hold = True
            elif op[0] == 'rc':
                self.rc = op[1]
        with self.cond:
            self.returncode = -9 if self.killed else self.rc
            self.cond.notify_all()
        if not self.hold:
            self.stdout.end()

    def held(self, seconds):
        time.sleep(seconds)
        self.stdout.end()

    def poll(self):
        return self.returncode

    def wait(self, timeout=None):
        with self.cond:
            if not self.cond.wait_for(lambda: self.returncode is not None, timeout):
                raise subprocess.TimeoutExpired(self.args, timeout)
            return self.returncode

    def kill(self):
        with self.cond:
            self.killed = True
            self.cond.notify_all()
        if not self.hold:
            self.stdout.kill()

    terminate = kill

    def communicate(self, input=None, timeout=None):
        out = []
        h = spawn(lambda: out.append(self.stdout.read()))
        self.wait(timeout)
        h.join()
        return out[0], None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


def written(script):
    return b''.join(op[1] for op in script if op[0] == 'write')


def reader(script, capacity):
    def body():
        proc = Process(script, capacity=capacity)
        out = []
        fut = read_nowait(proc, out)
        require(proc.wait() == 0, 'return code')
        fut.result()
        require(b''.join(out) == written(script), 'read %s, process wrote %s', out, written(script))
    return body


def reader_progress(script, capacity):
    """the process is never stopped by nobody reading: nobody but the thread reads, and waiting comes later"""
    def body():
        proc = Process(script, capacity=capacity)
        out = []
        fut = read_nowait(proc, out)
        fut.result()
        require(proc.stdout.ended, 'reading ended before the process closed its output')
        require(b''.join(out) == written(script), 'read %s, process wrote %s', out, written(script))
        proc.wait()
    return body


def call(script, timeout, rc, expected, encoding, capacity=4):
    takes = sum(op[1] for op in script if op[0] == 'sleep')

    def body():
        saved = subprocess.Popen
        Process.started = []
        subprocess.Popen = lambda args, **kw: Process(args, script, rc, capacity, **kw)
        start = now()
        try:
            try:
                got = 'value', call_and_return_stdout('cmd', timeout=timeout, encoding=encoding, expected_return_code=expected)
            except TimeoutError as e:
                got = 'timeout', None
            except ProcessFailed as e:
                got = 'failed', e.rc, e.stdout_so_far
        finally:
            subprocess.Popen = saved
        proc, = Process.started
        out = written(script)
        if encoding:
            out = out.decode(encoding)
        seconds = float(timeout.rstrip('s')) if isinstance(timeout, str) else timeout
        if seconds is not None and takes > seconds:
            require(got == ('timeout', None), 'gave %s instead of timing out', got)
            require(proc.killed and proc.returncode == -9, 'process was left running')
            require(now() - start <= seconds + 0.2, 'took %s', now() - start)
        elif expected is not None and expected != rc:
            require(got == ('failed', rc, out), 'gave %s, process failed with %s', got, rc)
            require(not proc.killed, 'the process was killed')
        else:
            require(got == ('value', out), 'gave %s, process wrote %s', got, out)
            require(not proc.killed, 'the process was killed')
    return body


# ------------------------------------------------------------------ real ones
def in_child(fn, *args):
    """result of fn(*args) in a forked process, with the real clock there"""
    sys.stdout.flush()
    sys.stderr.flush()
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                r = 'ok', fn(*args)
            except BaseException:
                r = 'exc', traceback.format_exc()[-600:]
            os.write(wfd, repr(r).encode())
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        return 'died', status
    return eval(data)


SCRIPT = '''
import sys, warnings
warnings.simplefilter('ignore')
from satella.processes import call_and_return_stdout
from satella.exceptions import ProcessFailed
import hashlib
for n, unit, rc, expected, encoding in eval(sys.argv[1]):
    u = bytes(unit)
    code = "import sys; u = %r; sys.stdout.buffer.write((u * (%d // len(u) + 1))[:%d] if len(u) == 1 else b'a' * (%d - len(u)) + u + b'b' * 10); sys.stdout.flush(); sys.exit(%d)" % (u, n, n, n, rc)
    data = (u * n)[:n] if len(u) == 1 else b'a' * (n - len(u)) + u + b'b' * 10
    want = data.decode(encoding) if encoding else data
    for timeout in (None, 300):
        try:
            got = call_and_return_stdout([sys.executable, '-S', '-E', '-c', code], timeout=timeout, encoding=encoding, expected_return_code=expected)
            assert expected is None or expected == rc, 'return code unnoticed'
        except ProcessFailed as e:
            assert expected not in (None, rc), 'return code is right'
            assert e.rc == rc
            got = e.stdout_so_far
        assert got == want, ('output', n, len(got), len(want), got[-20:])
print('done')
'''


def check_real(case):
    p = subprocess.run([sys.executable, '-c', SCRIPT, repr([case])], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONPATH=REPO))
    require(p.stdout == b'done\n', '%s: %s', case, (p.stdout + p.stderr).decode()[-400:])


def real_cases(deep):
    sizes = [0, 1, 2047, 2048, 2049, 4096, 65535, 65536, 65537, 200000] + ([1, 2, 3, 2050, 4095, 4097, 6143, 6144, 131072, 1000000] if deep else [])
    for n in sizes:
        yield n, [97], 0, 0, None
        if n > 10:
            yield n + 1, list('é'.encode()), 0, None, 'utf8'
    for n in (1, 2, 2048, 2049):
        yield n, [10], 0, None, None
        yield n, [0], 0, None, 'utf8'
    for rc, expected in itertools.product((0, 1, 255), (None, 0, 1)):
        yield 10, [97], rc, expected, None


# ------------------------------------------------------------------ signals
SIGS = [signal.SIGTERM, signal.SIGINT, signal.SIGUSR1, signal.SIGUSR2]


class Interrupted(Exception):
    pass


def hang_once(extra, deliveries, own):
    """deliveries: for each poll, signals that arrive during it"""
    seen = []

    def own_handler(s, frame):
        seen.append(s)
    before = {}
    for s in SIGS:
        signal.signal(s, own_handler if own else (signal.SIG_IGN if s != signal.SIGINT else own_handler))
        before[s] = signal.getsignal(s)
    waited_for = {signal.SIGTERM, signal.SIGINT} | set(extra or ())
    results = []
    for round_ in range(2):
        polls = []
        arrived = []
        todo = list(deliveries)

        def sleep(s):
            polls.append(s)
            if arrived and waited_for & set(arrived):
                raise Interrupted('polls after the signal')
            if not todo:
                raise Interrupted('nothing arrives any more')
            for sig in todo.pop(0):
                arrived.append(sig)
                signal.raise_signal(sig)
        sched.SLEEP_HOOK[0] = sleep
        try:
            if extra is None:
                hang_until_sig(sleep_interval=2)
            else:
                hang_until_sig(extra, 2)
            r = 'released'
        except Interrupted as e:
            r = 'still hanging' if e.args[0] == 'nothing arrives any more' else e.args[0]
        finally:
            sched.SLEEP_HOOK[0] = None
        restored = all(signal.getsignal(s) == before[s] for s in SIGS)
        results.append((r, len(polls), restored, [s for s in arrived if s not in waited_for] == [s for s in seen] or not own))
        del seen[:]
    return results


def check_hang(case):
    extra, deliveries, own = case
    kind, res = in_child(hang_once, extra, deliveries, own)
    require(kind == 'ok', 'hang_until_sig: %s', res)
    waited = {signal.SIGTERM, signal.SIGINT} | set(extra or ())
    at = next((i for i, sigs in enumerate(deliveries) if waited & set(sigs)), None)
    for r, polls, restored, passed in res:
        if at is None:
            require(r == 'still hanging', 'signals %s with %s: %s', deliveries, extra, r)
        else:
            require(r == 'released', 'signals %s with %s: %s', deliveries, extra, r)
            require(polls == at + 1, 'released after %s polls, signal came in %s', polls, at + 1)
        require(restored, 'handlers of signals were not restored')
        require(passed, 'a signal that was not waited for did not reach its handler')


def hang_cases(deep):
    one = [()] + [(s,) for s in SIGS]
    for extra in (None, [], [signal.SIGUSR1], [signal.SIGUSR1, signal.SIGUSR2], (signal.SIGTERM,), [signal.SIGUSR1, signal.SIGUSR1]):
        for n in range(1, 4 if deep else 3):
            for d in itertools.product(one, repeat=n):
                for own in (True, False):
                    yield extra, d, own


# ------------------------------------------------------------------ executables
ENTRIES = {
    'exec': True, 'exec-owner': True, 'exec-group': True, 'exec-other': True, 'setuid': True, 'plain': False, 'directory': False, 'link-exec': True, 'link-plain': False,
    'link-broken': False, 'link-loop': False, 'link-directory': False, None: False,
}


def put(directory, name, kind):
    path = os.path.join(directory, name)
    if kind is None:
        return
    if kind == 'directory':
        os.mkdir(path)
    elif kind.startswith('link-'):
        target = path + '.target'
        if kind == 'link-loop':
            os.symlink(name, path)
            return
        elif kind == 'link-directory':
            os.mkdir(target)
        elif kind != 'link-broken':
            open(target, 'w').close()
            os.chmod(target, 0o755 if kind == 'link-exec' else 0o644)
        os.symlink(target, path)
    else:
        open(path, 'w').close()
        os.chmod(path, {'exec': 0o755, 'exec-owner': 0o700, 'exec-group': 0o610, 'exec-other': 0o601, 'setuid': 0o4700, 'plain': 0o644}[kind])


def check_whereis(case):
    first, second, other, order = case
    top = tempfile.mkdtemp(prefix='verif-c42-')
    saved = os.environ.get('PATH')
    try:
        dirs = {'a': os.path.join(top, 'a'), 'b': os.path.join(top, 'b'), 'none': os.path.join(top, 'none'), 'file': os.path.join(top, 'file')}
        os.mkdir(dirs['a'])
        os.mkdir(dirs['b'])
        open(dirs['file'], 'w').close()
        put(dirs['a'], 'prog', first)
        put(dirs['b'], 'prog', second)
        put(dirs['a'], 'progx', other)
        put(dirs['b'], 'pro', other)
        os.environ['PATH'] = ':'.join(dirs[d] for d in order)
        found = list(whereis('prog'))
        want = [os.path.join(dirs[d], 'prog') for d in order if d == 'a' and ENTRIES[first] or d == 'b' and ENTRIES[second]]
        require(found == want, '%s: found %s, should be %s', case, found, want)
        require(list(whereis('absent')) == [], 'found what there is not')
        require(sorted(safe_listdir(dirs['a'])) == sorted(os.listdir(dirs['a'])), 'listing')
        require(list(safe_listdir(dirs['none'])) == [] and list(safe_listdir(dirs['file'])) == [], 'listing of what is not a directory')
    finally:
        os.environ['PATH'] = saved
        shutil.rmtree(top)


def whereis_cases():
    orders = [('a', 'b'), ('b', 'a'), ('a', 'none', 'b'), ('file', 'a', 'b')]
    for a, b in itertools.product(ENTRIES, repeat=2):
        for o in orders:
            yield a, b, 'exec', o
    for a, other in itertools.product(ENTRIES, repeat=2):
        yield a, None, other, ('a', 'b')
    yield 'exec', 'exec', None, ()


# ------------------------------------------------------------------ ending and leaving
def suicide_probe(flag, leader):
    """what would be killed"""
    if leader:
        os.setpgid(0, 0)
    me, group = os.getpid(), os.getpgid(0)
    log = []

    class Killed(BaseException):
        pass

    def kill(pid, sig):
        log.append(('kill', pid, sig))
        raise Killed()

    def killpg(pid, sig):
        log.append(('killpg', pid, sig))
        raise Killed()
    os.kill, os.killpg = kill, killpg
    try:
        suicide(*flag)
    except Killed:
        pass
    return log, me, group


def suicide_real(leader, flag):
    """in a new group: a sibling in the group lives or dies with us"""
    os.setpgid(0, 0)
    rfd, wfd = os.pipe()
    sibling = os.fork()
    if sibling == 0:
        os.close(wfd)
        try:
            while True:
                signal.pause()
        finally:
            os._exit(0)
    if leader:
        suicide(flag)
    pid = os.fork()
    if pid == 0:
        suicide(flag)
        os._exit(0)
    status = os.waitpid(pid, 0)[1]
    try:
        alive = os.waitpid(sibling, os.WNOHANG) == (0, 0)
    finally:
        try:
            os.kill(sibling, 9)
        except ProcessLookupError:
            pass
    return status, alive


def check_suicide(case):
    flag, leader = case
    kind, res = in_child(suicide_probe, flag, leader)
    require(kind == 'ok', 'suicide: %s', res)
    log, me, group = res
    want = ('killpg', me, 9) if leader and (not flag or flag[0]) else ('kill', me, 9)
    equivalent = [want] + ([('kill', -me, 9), ('killpg', 0, 9), ('kill', 0, 9)] if want[0] == 'killpg' else [])
    require(len(log) == 1 and log[0] in equivalent, 'kills %s, should be %s', log, want)
    if not leader:
        kind, res = in_child(suicide_real, False, not flag or flag[0])
        require((kind, res) == ('ok', (9, True)), 'suicide of a process which does not lead the group: %s', res)
    elif not flag or flag[0]:
        kind, res = in_child(suicide_real, True, True)
        require((kind, res) == ('died', 9), 'suicide of a leader: %s', res)


def daemon_probe(redirect, uid, gid, wfd):
    first = os.getpid()
    parent = os.getppid()

    def leave():
        os._exit(0)
    os.umask(0o77)
    try:
        kw = {} if redirect is None else {'redirect_std_to_devnull': redirect}
        daemonize(exit_via=leave, uid=uid, gid=gid, **kw)
        res = {'pid': os.getpid(), 'ppid': os.getppid(), 'sid': os.getsid(0), 'first': first, 'cwd': os.getcwd(), 'umask': os.umask(0),
               'euid': os.geteuid(), 'egid': os.getegid(), 'root': is_running_as_root()}
        if redirect is None or redirect:
            print('to nowhere')
            sys.stdout.flush()
            sys.stderr.write('to nowhere')
            sys.stderr.flush()
            res['read'] = sys.stdin.read()
            res['names'] = [f.name for f in (sys.stdin, sys.stdout, sys.stderr)]
        else:
            res['closed'] = [f.closed for f in (sys.stdin, sys.stdout, sys.stderr)]
        r = 'ok', res
    except BaseException:
        r = 'exc', traceback.format_exc()[-600:]
    os.write(wfd, repr(r).encode())
    os._exit(0)


def check_daemonize(case):
    redirect, uid, gid = case
    sys.stdout.flush()
    sys.stderr.flush()
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            signal.setitimer(signal.ITIMER_REAL, 0)
            null = os.open('/dev/null', os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(null, fd)
            sys.stdin, sys.stdout, sys.stderr = open(0, closefd=False), open(1, 'w', closefd=False), open(2, 'w', closefd=False)
            daemon_probe(redirect, uid, gid, wfd)
        finally:
            os._exit(1)
    os.close(wfd)
    with os.fdopen(rfd, 'rb') as f:
        data = f.read()
    status = os.waitpid(pid, 0)[1]
    require(status == 0 and data, 'daemonize: the process that called it ended with %s, the daemon reported %s', status, data)
    kind, r = eval(data)
    require(kind == 'ok', 'daemonize(%s): %s', case, r)
    require(r['pid'] != pid and r['first'] == pid, 'did not fork')
    require(r['sid'] != r['pid'] and r['sid'] != os.getsid(0) and r['sid'] != pid, 'session is %s', r)
    require(r['cwd'] == '/' and r['umask'] == 0, 'directory or umask: %s', r)
    require(r['euid'] == (os.geteuid() if uid is None else 65534) and r['root'] == (r['euid'] == 0), 'user is %s', r)
    require(r['egid'] == (os.getegid() if gid is None else 65534), 'group is %s', r)
    if redirect is None or redirect:
        require(r['read'] in ('', b'') and r['names'] == ['/dev/null'] * 3, 'streams: %s', r)
    else:
        require(all(r['closed']), 'streams were not closed: %s', r)


def may_change_user():
    os.setegid(65534)
    os.seteuid(65534)


def daemon_cases():
    import grp
    import pwd
    uids, gids = [None], [None]
    if in_child(may_change_user)[0] == 'ok':
        uids.append(65534)
        gids.append(65534)
        for e in pwd.getpwall():
            if e.pw_uid == 65534:
                uids.append(e.pw_name)
        for e in grp.getgrall():
            if e.gr_gid == 65534:
                gids.append(e.gr_name)
    return itertools.product((None, True, False), uids[:3], gids[:3])


def jobs(tier):
    deep = tier == 'thorough'
    b = 2 if deep else 1
    only = ['processes.py']
    out = []
    scripts = {
        'nothing': [], 'line': [('write', b'a\n')], 'fill': [('write', b'abcdefghij\n')], 'two': [('write', b'abc'), ('sleep', 1.0), ('write', b'defgh')],
        'close': [('write', b'ab'), ('close',), ('sleep', 1.0)], 'slow': [('sleep', 5.0), ('write', b'x')],
    }
    for name, script in scripts.items():
        out.append(SchedJob('reader-' + name, reader(script, 4), bound=b, only=only))
        if name != 'close':
            out.append(SchedJob('reader-alone-' + name, reader_progress(script, 4), bound=b, only=only))
    for name, script in scripts.items():
        for timeout in (None, 3, '3s', 10):
            out.append(SchedJob('call-%s-%s' % (name, timeout), call(script, timeout, 0, 0, None), bound=1, only=only))
        for rc, expected in ((1, 0), (0, 1), (1, 1), (1, None)):
            out.append(SchedJob('call-%s-%s-%s' % (name, rc, expected), call(script, 3, rc, expected, 'ascii'), bound=1, only=only))
    held = [('write', b'ab'), ('hold', 50.0), ('sleep', 5.0)]
    for timeout in (3, '3s', 1):
        out.append(SchedJob('call-held-%s' % timeout, call(held, timeout, 0, 0, None), bound=b, only=only))
    out.append(SchedJob('call-held', call([('write', b'abcdefgh'), ('hold', 5.0)], None, 0, 0, None), bound=1, only=only))
    out += [
        EnumJob('real-processes', lambda: real_cases(deep), check_real, shards=8),
        EnumJob('signals', lambda: hang_cases(deep), check_hang, shards=8),
        EnumJob('whereis', lambda: whereis_cases(), check_whereis, shards=4),
        EnumJob('suicide', lambda: itertools.product(((), (True,), (False,)), (True, False)), check_suicide),
        EnumJob('daemonize', lambda: daemon_cases(), check_daemonize, shards=2),
    ]
    return out
