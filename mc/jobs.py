"""Job kinds: SchedJob (schedules), SeqJob (operation sequences), EnumJob (finite input/fault spaces)."""
import collections
import os
import pickle
import signal
import sys
import time as _time
import traceback

from . import sched
from .sched import Violation, Stuck
from .canon import canon

_real_monotonic = sched._real_monotonic
_cpu = sched._real_cpu


class Hang(BaseException):
    pass


def twice(fn, *a):
    """a hang is believed only if it comes back"""
    try:
        return fn(*a)
    except Hang:
        return fn(*a)


def with_watchdog(seconds, fn, *a):
    t0, c0 = _real_monotonic(), _cpu()

    def onalarm(sig, frm):
        # the machine may be busy with something else: count the time we were given, and wait much longer otherwise
        if _cpu() - c0 > 0.8 * seconds or _real_monotonic() - t0 > 3 * seconds:
            raise Hang('hang: no answer within %d s' % seconds)
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, seconds, 1.0)
    try:
        return fn(*a)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def describe(e):
    tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
    return '%s: %s' % (type(e).__name__, e), tb


class Job:
    kind = '?'
    name = '?'

    def initial(self):
        return [None]

    def execute(self, payload, budget):
        """-> (stats, new_payloads, violation|None)"""
        raise NotImplementedError


# --------------------------------------------------------------------------- schedules
class SchedJob(Job):
    kind = 'schedules'

    def __init__(self, name, body, bound=2, only=None, clock_choice=False, max_steps=20000, horizon=100000.0,
                 fork=False, fine=False, allow_thread_excs=True, min_outcomes=1, cap=None):
        self.name = name
        self.body = body
        self.bound = bound
        self.only = only
        self.clock_choice = clock_choice
        self.max_steps = max_steps
        self.horizon = horizon
        self.fork = fork
        self.fine = fine
        self.allow_thread_excs = allow_thread_excs
        self.min_outcomes = min_outcomes
        self.cap = cap

    def initial(self):
        return [[b'']]

    def one(self, prefix, record=False):
        ex = sched.Execution(prefix, max_steps=self.max_steps, horizon=self.horizon, clock_choice=self.clock_choice,
                             bound=self.bound, record=record)
        outcome = []

        def body():
            outcome.append(self.body())
        ex.run(body)
        fail = ex.failure
        if fail is None and not self.allow_thread_excs and ex.thread_excs:
            fail = Violation('unhandled exception in a thread: %r' % (ex.thread_excs[0][1],))
        if fail is not None and isinstance(fail, sched.VKill):
            fail = None
        msg = None
        if fail is not None:
            msg = describe(fail)
        return dict(trace=ex.trace, steps=ex.steps, diverged=ex.diverged, msg=msg, hung=getattr(ex, 'hung', False),
                    outcome=repr(outcome[0]) if outcome else None, log=ex.log)

    def one_isolated(self, prefix, record=False):
        if not self.fork:
            return self.one(prefix, record)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                res = self.one(prefix, record)
                data = pickle.dumps(res)
                while data:
                    n = os.write(w, data)
                    data = data[n:]
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(w)
        chunks = []
        while True:
            d = os.read(r, 1 << 16)
            if not d:
                break
            chunks.append(d)
        os.close(r)
        os.waitpid(pid, 0)
        data = b''.join(chunks)
        if not data:
            return dict(trace=[], steps=0, diverged=True, msg=('Crash: child died', ''), hung=True, outcome=None, log=None)
        return pickle.loads(data)

    def execute(self, payload, budget):
        sched.instrument(self.only, self.fine)
        stack = list(payload)
        st = dict(executions=0, states=0, transitions=0, diverged=0, outcomes=set(), maxdepth=0)
        sample = None
        end = _real_monotonic() + budget
        while stack and _real_monotonic() < end:
            p = stack.pop()
            r = self.one_isolated(p)
            st['executions'] += 1
            tr = r['trace']
            st['states'] += max(len(tr) - len(p), 0) + 1
            st['transitions'] += r['steps']
            st['maxdepth'] = max(st['maxdepth'], len(tr))
            if r['diverged']:
                st['diverged'] += 1
            if r['outcome'] is not None:
                st['outcomes'].add(r['outcome'])
            if sample is None:
                sample = dict(job=self.name, schedule_choices=len(tr), preempted_at=[i for i, (c, _) in enumerate(tr) if c][:8],
                              outcome=r['outcome'])
            if r['msg'] is not None:
                # confirm by replaying the very same schedule
                again = None
                full = bytes(c for c, _ in tr)
                if not r['hung']:
                    for _ in range(3):
                        again = self.one_isolated(full, record=True)
                        if again['msg'] is not None:
                            break
                if r['hung'] or again['msg'] is not None:
                    v = dict(job=self.name, kind=self.kind, case=list(full), message=r['msg'][0], tb=r['msg'][1],
                             log=(again or {}).get('log'))
                    return st, [], v, sample
                st['unconfirmed'] = st.get('unconfirmed', 0) + 1
                continue
            cost = 0
            costs_before = []
            for c, cs in tr:
                costs_before.append(cost)
                cost += cs[c]
            base = bytes(c for c, _ in tr)
            for i in range(len(p), len(tr)):
                cs = tr[i][1]
                for alt in range(1, len(cs)):
                    if costs_before[i] + cs[alt] <= self.bound:
                        stack.append(base[:i] + bytes((alt,)))
        out = []
        if stack:
            # hand back the rest, split for other workers (the oldest entries are the largest subtrees)
            k = 8
            out = [stack[i::k] for i in range(k) if stack[i::k]]
        return st, out, None, sample

    def replay(self, case):
        sched.instrument(self.only, self.fine)
        r = self.one(bytes(case), record=True)
        for l in r['log'] or ():
            print(l)
        return r['msg']


# --------------------------------------------------------------------------- operation sequences
class SeqJob(Job):
    """
    Subclass or pass: fresh() -> ctx ; ops: list or callable(ctx)->list ; apply(ctx, op) performs op on the system
    and the model, comparing; key(ctx) -> hashable state (default: canon of ctx).
    """
    kind = 'sequences'

    def __init__(self, name, fresh, ops, apply, depth, key=None, max_states=200000, time_cap=400, finish=None,
                 dedupe=True, shards=1):
        self.name = name
        self.fresh = fresh
        self.ops = ops
        self.apply = apply
        self.depth = depth
        self.key = key
        self.max_states = max_states
        self.time_cap = time_cap
        self.finish = finish
        self.dedupe = dedupe
        self.shards = shards        # split by the first operation, states are then merged within a shard only

    def build(self, seq):
        sched.IDLE_CLOCK[0] = 0.0
        ctx = self.fresh()
        for op in seq:
            self.apply(ctx, op)
        return ctx

    def initial(self):
        return list(range(self.shards))

    def execute(self, payload, budget):
        payload = payload or 0
        st = dict(executions=0, states=0, transitions=0, outcomes=set(), maxdepth=0)
        seen = set()
        sample = None
        capped = False
        t0 = _real_monotonic()
        frontier = [()]
        try:
            ctx = with_watchdog(30, self.build, ())
            if self.finish is not None:
                self.finish(ctx)
        except BaseException as e:
            return st, [], self.viol((), e), None
        seen.add(self.state(ctx))
        for d in range(self.depth):
            nxt = []
            for seq in frontier:
                ops = self.ops
                if callable(ops):
                    ops = ops(self.build(seq))
                if d == 0 and self.shards > 1:
                    ops = list(ops)[payload::self.shards]
                for op in ops:
                    s2 = seq + (op,)
                    try:
                        ctx = twice(with_watchdog, 30, self.build, s2)
                        if self.finish is not None:
                            k = self.state(ctx) if self.dedupe else None
                            with_watchdog(30, self.finish, ctx)
                        else:
                            k = self.state(ctx) if self.dedupe else None
                    except BaseException as e:
                        return st, [], self.viol(s2, e), sample
                    st['executions'] += 1
                    st['transitions'] += 1
                    if self.dedupe:
                        if k in seen:
                            continue
                        seen.add(k)
                    else:
                        seen.add(s2)
                    nxt.append(s2)
                    if sample is None or len(s2) <= 4:
                        sample = dict(job=self.name, operations=[repr(o) for o in s2])
                if len(seen) > self.max_states or _real_monotonic() - t0 > self.time_cap:
                    capped = True
                    break
            st['maxdepth'] = d + 1
            frontier = nxt
            if capped or not frontier:
                break
        st['states'] = len(seen)
        st['capped'] = capped
        return st, [], None, sample

    def state(self, ctx):
        if self.key is not None:
            return self.key(ctx)
        return canon(ctx)

    def viol(self, seq, e):
        m, tb = describe(e)
        return dict(job=self.name, kind=self.kind, case=[repr(o) for o in seq], rawcase=pickle_or_none(seq), message=m, tb=tb)

    def replay_raw(self, seq):
        try:
            ctx = with_watchdog(30, self.build, seq)
            if self.finish is not None:
                self.finish(ctx)
        except BaseException as e:
            return describe(e)
        return None


def pickle_or_none(x):
    try:
        return pickle.dumps(x).hex()
    except Exception:
        return None


# --------------------------------------------------------------------------- finite enumeration
class EnumJob(Job):
    """cases: callable -> iterable (deterministic); check(case) raises on violation, may return an outcome label."""
    kind = 'enumeration'

    def __init__(self, name, cases, check, shards=1, watchdog=30, nontrivial=None):
        self.name = name
        self.cases = cases
        self.check = check
        self.shards = shards
        self.watchdog = watchdog

    def initial(self):
        return [(i, self.shards) for i in range(self.shards)]

    def execute(self, payload, budget):
        i0, n = payload
        st = dict(executions=0, states=0, transitions=0, outcomes=set(), maxdepth=0)
        sample = None
        for i, case in enumerate(self.cases()):
            if i % n != i0:
                continue
            sched.IDLE_CLOCK[0] = 0.0
            try:
                o = twice(with_watchdog, self.watchdog, self.check, case)
            except BaseException as e:
                m, tb = describe(e)
                return st, [], dict(job=self.name, kind=self.kind, case=repr(case)[:2000], rawcase=pickle_or_none(case),
                                    index=i, message=m, tb=tb), sample
            st['executions'] += 1
            st['states'] += 1
            st['transitions'] += 1 if not isinstance(o, int) or isinstance(o, bool) else o
            if isinstance(o, str) and len(st['outcomes']) < 1000:
                st['outcomes'].add(o)
            if sample is None:
                sample = dict(job=self.name, case=repr(case)[:300], outcome=repr(o)[:100])
        return st, [], None, sample

    def replay_index(self, index):
        for i, case in enumerate(self.cases()):
            if i == index:
                try:
                    with_watchdog(self.watchdog, self.check, case)
                except BaseException as e:
                    return describe(e)
        return None
