"""
C43: the CPU time collector and what relies on it, on a machine whose load is a function of the scheduler's clock: occupancy, usage and percentiles under
all interleavings of callers with the collecting thread, CPU-aware sleeps over all small load profiles, CPU-aware threads.
"""
import itertools
import multiprocessing
import threading
import time
from collections import namedtuple

import psutil

from mc.jobs import EnumJob, SchedJob
from mc.sched import require, par, spawn, now, CLOCK0
from satella.instrumentation import cpu_time
from satella.instrumentation.cpu_time import calculate_occupancy_factor, sleep_cpu_aware, CPUTimeManager, get_own_cpu_usage, \
    CPUTimeAwareIntervalTerminableThread, pCPUtimes

CPUS = 4
Times = namedtuple('scputimes', 'user nice system idle iowait irq softirq steal guest guest_nice')
PTimes = namedtuple('pcputimes', 'user system children_user children_system iowait')


class Machine:
    """load(t) is piecewise constant: slots of given length from a given time, the last one lasts"""

    def __init__(self, loads, slot=1.0, start=None):
        self.loads, self.slot = loads, slot
        self.start = now() if start is None else start

    def busy(self):
        t = now() - self.start
        if t < 0:
            return self.loads[0] * t
        total = 0.0
        for i, l in enumerate(self.loads):
            last = i == len(self.loads) - 1
            part = t if last else min(t, self.slot)
            total += l * part
            t -= part
            if t <= 0:
                break
        return total

    def cpu_times(self, *a, **k):
        b = (self.busy() + 1000) * CPUS
        return Times(b / 2, 0, b / 2, 0, 0, 0, 0, 0, 0, 0)

    def process(self, pid=None):
        m = self

        class P:
            def cpu_times(self):
                return PTimes(m.busy() + 7, 2 * m.busy(), 0.0, 3.0, 0.0)
        return P()

    def __enter__(self):
        self.saved = psutil.cpu_times, psutil.Process, multiprocessing.cpu_count
        psutil.cpu_times, psutil.Process, multiprocessing.cpu_count = self.cpu_times, self.process, lambda: CPUS
        return self

    def __exit__(self, *a):
        psutil.cpu_times, psutil.Process, multiprocessing.cpu_count = self.saved


def close(a, b):
    return abs(a - b) < 1e-6


# ------------------------------------------------------------------ occupancy
def occupancy(threads, calls, load=0.5):
    def body():
        with Machine([load]):
            calculate_occupancy_factor()

            def caller(i):
                time.sleep(0.3 + i * 0.1)
                return [calculate_occupancy_factor() for _ in range(calls)]
            for kind, got in par(*[lambda i=i: caller(i) for i in range(threads)]):
                require(kind == 'ok', 'calculate_occupancy_factor raised %s', got)
                require(all(close(g, load) for g in got), 'occupancy %s on a machine loaded in %s', got, load)
    return body


def first_calls(n):
    """the collecting thread comes up once, whoever is first"""
    def body():
        with Machine([0.5]):
            before = threading.active_count()
            for kind, got in par(*[get_own_cpu_usage for _ in range(n)]):
                require(kind == 'ok' and got is None, 'get_own_cpu_usage at once: %s', repr(got))
            require(threading.active_count() - before <= 1, '%d collecting threads', threading.active_count() - before)
    return body


def check_occupancy(case):
    loads, gaps = case
    m = Machine(loads)
    with m:
        calculate_occupancy_factor()
        last, last_t = m.busy(), now()
        for g in gaps:
            time.sleep(g)
            of = calculate_occupancy_factor()
            want = (m.busy() - last) / (now() - last_t)
            # the collecting thread might have asked in between: then it is an average of a later part
            require(min(loads) - 1e-6 <= of <= max(loads) + 1e-6, 'occupancy %s with loads %s', of, loads)
            if len(set(loads)) == 1:
                require(close(of, want), 'occupancy %s, should be %s', of, want)
            last, last_t = m.busy(), now()


def alone(fn, *args):
    """a body without preemptions"""
    def body():
        fn(*args)
    return body


# ------------------------------------------------------------------ sleeping
def sleeps(cases):
    def body():
        with Machine([0.0]):
            calculate_occupancy_factor()
        for loads, seconds, below, above, each in cases:
            start = now()
            # start off the seconds at which the collecting thread looks
            frac = (start - CLOCK0) % 1
            time.sleep((1.37 - frac) % 1 + 0.5)
            with Machine(loads, each):
                time.sleep(0.013)
                with Machine(loads, each) as m:
                    start = now()
                    kw = {}
                    if below is not None:
                        kw['of_below'] = below
                    if above is not None:
                        kw['of_above'] = above
                    if each != 1:
                        kw['check_each'] = each
                    got = sleep_cpu_aware(seconds, **kw)
                    took = now() - start
                total = float(seconds[:-1]) if isinstance(seconds, str) else seconds
                want, t, i = False, 0.0, 0
                if kw.get('of_below') is None and kw.get('of_above') is None:
                    t = total
                else:
                    while t < total - 1e-9:
                        t = min(total, t + each)
                        load = loads[min(i, len(loads) - 1)]
                        i += 1
                        if above is not None and load > above or below is not None and load < below:
                            want = True
                            break
                require(got is want, '%s over loads %s gave %s', (seconds, below, above, each), loads, got)
                require(abs(took - t) < 0.15, '%s over loads %s took %s, should take %s', (seconds, below, above, each), loads, took, t)
    return body


# ------------------------------------------------------------------ usage of this process and percentiles
def usage(load, window):
    def body():
        with Machine([load]):
            CPUTimeManager.set_window_size(window)
            CPUTimeManager.set_refresh_each('2s')
            got = None
            deadline = now() + 100
            while got is None:
                require(now() < deadline, 'usage never becomes available')
                time.sleep(1.5)
                got = get_own_cpu_usage()
            require(isinstance(got, pCPUtimes), 'usage is %s', got)
            require(close(got.user, load) and close(got.system, 2 * load) and got.children_system == 0 and got.iowait == 0, 'usage %s, load %s', got, load)
    return body


def percentiles(loads):
    """every second has its own load"""
    def body():
        CPUTimeManager.set_window_size(3)
        CPUTimeManager.set_refresh_each(1)
        require(CPUTimeManager.percentile(0.9) == 0, 'percentile before there is data')
        with Machine(loads):
            time.sleep(40)
        with Machine([0.4]):
            time.sleep(60)
            for p in (0.0, 0.3, 0.5, 0.9, 1.0):
                require(close(CPUTimeManager.percentile(p), 0.4), 'percentile of a constant load is %s', CPUTimeManager.percentile(p))
    return body


def ramp(window, down, requested):
    """the load of each second differs from the next by the same amount, so that the percentiles are known"""
    def body():
        CPUTimeManager.set_window_size(window)
        CPUTimeManager.set_refresh_each(1)
        loads = [i / 100 for i in range(1, 100)]
        with Machine(loads[::-1] if down else loads):
            t = Loop(100, percentile=requested)
            time.sleep(3.5 * (window + 1) + 10.3)
            for _ in range(3):
                top = CPUTimeManager.percentile(1.0)
                for p in (0.0, 0.25, requested, 0.5, 0.9, 1.0):
                    want = top - (1 - p) * (window - 1) * 0.01
                    require(close(CPUTimeManager.percentile(p), want), 'load %s by 0.01: percentile %s is %s, should be %s',
                            'falls' if down else 'rises', p, CPUTimeManager.percentile(p), want)
                time.sleep(window + 2)
    return body


class Loop(CPUTimeAwareIntervalTerminableThread):
    def __init__(self, *a, takes=0.0, fail_at=None, **k):
        self.starts, self.takes, self.fail_at, self.overruns, self.cleaned = [], takes, fail_at, 0, 0
        super().__init__(*a, **k)

    def prepare(self):
        if self.fail_at == 0:
            raise ValueError('prepare')

    def loop(self):
        self.starts.append(now())
        if self.takes:
            time.sleep(self.takes)
        if self.fail_at == len(self.starts):
            raise ValueError('loop')

    def on_overrun(self, time_taken):
        self.overruns += 1

    def cleanup(self):
        self.cleaned += 1


def percentile_race(n):
    def body():
        with Machine([0.5]):
            CPUTimeManager.set_window_size(1)
            CPUTimeManager.set_refresh_each(1)
            time.sleep(30)          # past the first window
            CPUTimeManager.percentile(0.9)

            def user(i):
                time.sleep(0.5 * i)
                p = 0.3 + i / 10
                Loop(5, percentile=p)
                return [CPUTimeManager.percentile(p) for _ in range(2)]
            for kind, got in par(*[lambda i=i: user(i) for i in range(n)]):
                require(kind == 'ok', 'percentile raised %s', repr(got))
                require(all(close(g, 0.5) for g in got), 'percentiles %s of a constant load of 0.5', got)
    return body


# ------------------------------------------------------------------ threads
def aware(seconds, sooner, loads, takes, rounds):
    s = float(seconds[:-1]) if isinstance(seconds, str) else seconds
    m = s * 0.1 if sooner is None else sooner

    def body():
        with Machine(loads):
            CPUTimeManager.set_window_size(2)
            CPUTimeManager.set_refresh_each(1)
            time.sleep(15)
            t = Loop(seconds, sooner, takes=takes)
            require(t.start() is t, 'start')
            time.sleep(s * rounds + 0.5)
            t.terminate()
            asked = now()
            t.join()
            require(now() - asked <= max(3, takes) + 0.2, 'terminating took %s', now() - asked)
            require(t.cleaned == 1, 'cleaned up %d times', t.cleaned)
            require(len(t.starts) >= (rounds if takes <= s else s * rounds // takes), 'called only %d times', len(t.starts))
            for a, b in zip(t.starts, t.starts[1:]):
                if takes > s:
                    require(close(b - a, takes), 'loops taking too long %s apart', b - a)
                else:
                    require(max(takes, s - m) - 1e-3 <= b - a <= s + 0.25, 'loops %s apart, interval %s, at most %s sooner', b - a, s, m)
            require((t.overruns > 0) == (takes > s), '%d overruns', t.overruns)
    return body


def aware_idle(seconds, sooner, low):
    """load that only falls is always below what it was, load that only rises never is"""
    def body():
        loads = [i / 100 for i in range(1, 100)]
        if low:
            loads = loads[::-1]
        with Machine(loads):
            CPUTimeManager.set_window_size(4)
            CPUTimeManager.set_refresh_each(1)
            time.sleep(15.3)
            t = Loop(seconds, sooner, percentile=0.5)
            t.start()
            time.sleep(2 * seconds + 0.6)
            require(len(t.starts) >= 3, 'not called again')
            for a, b in zip(t.starts, t.starts[1:]):
                if low:
                    require(seconds - sooner <= b - a <= seconds - sooner + 2.3, 'load falls: called after %s, could have after %s', b - a, seconds - sooner)
                else:
                    require(seconds - 0.01 <= b - a <= seconds + 0.3, 'load rises: called after %s', b - a)
            t.terminate().join()
    return body


def aware_failing(on, terminate_on):
    def body():
        with Machine([0.5]):
            errors = []
            t = Loop(2, fail_at=on, terminate_on=terminate_on)
            run = t.run

            def watched():
                try:
                    run()
                except BaseException as e:
                    if not isinstance(e, Exception):
                        raise
                    errors.append(type(e))
            t.run = watched
            t.start()
            time.sleep(2 * on + 2)
            require(len(t.starts) == on, 'called %d times', len(t.starts))
            t.join()
            require(t.cleaned == 1, 'cleaned up %d times', t.cleaned)
            if terminate_on is ValueError:
                require(t.terminating, 'not terminated')
                require(not errors, 'reported %s', errors)
            else:
                require(errors == [ValueError], 'reported %s', errors)
    return body


def jobs(tier):
    deep = tier == 'thorough'
    only = ['cpu_time']
    out = [
        SchedJob('occupancy-race', occupancy(2, 1), bound=2 if deep else 1, only=only, fork=True),
        SchedJob('occupancy-race-2', occupancy(2, 2), bound=2 if deep else 1, only=only, fork=True),
        SchedJob('first-calls', first_calls(2), bound=2 if deep else 1, only=only, fork=True),
        SchedJob('percentile-race', percentile_race(1), bound=2 if deep else 1, only=only, fork=True, max_steps=100000),
        SchedJob('percentile-race-2', percentile_race(2), bound=2 if deep else 1, only=only, fork=True, max_steps=100000),
    ]
    nothing = ['nothing']
    profiles = list(itertools.product((0.1, 0.5, 0.9), repeat=3))
    cases = []
    for loads in profiles:
        for seconds, each in ((3, 1), (2.5, 1), ('3s', 1), (3, 2), (1, 1), (0.5, 1)):
            for below, above in ((None, None), (0.3, None), (None, 0.7), (0.3, 0.7)):
                if deep or seconds == 3 or loads in profiles[::5]:
                    cases.append((loads, seconds, below, above, each))
    for i in range(0, len(cases), 40):
        out.append(SchedJob('sleep-%d' % (i // 40), sleeps(cases[i:i + 40]), bound=0, only=nothing, fork=True, max_steps=200000))
    out.append(SchedJob('occupancy', lambda: [check_occupancy((l, g)) for l in profiles for g in itertools.product((0.25, 1.0, 2.5), repeat=2)] and None,
                        bound=0, only=nothing, fork=True, max_steps=400000))
    for load, window in ((0.5, 1), (0.25, 3), (0.0, 2)):
        out.append(SchedJob('usage-%s-%s' % (load, window), usage(load, window), bound=0, only=nothing, fork=True))
    for i, loads in enumerate(profiles if deep else profiles[::4]):
        out.append(SchedJob('percentiles-%d' % i, percentiles(loads), bound=0, only=nothing, fork=True, max_steps=100000))
    for window in (1, 2, 3, 4, 5, 8):
        for down in (False, True):
            for requested in (0.9, 0.3):
                out.append(SchedJob('ramp-%d-%s-%s' % (window, down, requested), ramp(window, down, requested), bound=0, only=nothing, fork=True, max_steps=100000))
    for seconds, sooner in ((5, None), ('5s', None), (5, 2), ('10s', 3), (5, 0)):
        for takes in (0.0, 1.0, 6.0, 11.0):
            for loads in ([0.5], [0.9, 0.1] * 30):
                out.append(SchedJob('aware-%s-%s-%s-%d' % (seconds, sooner, takes, len(loads)), aware(seconds, sooner, loads, takes, 4), bound=0, only=nothing, fork=True, max_steps=100000))
    for low in (True, False):
        for sooner in (10, 4, 0):
            out.append(SchedJob('aware-idle-%s-%d' % (low, sooner), aware_idle(20, sooner, low), bound=0, only=nothing, fork=True, max_steps=100000))
    for on in (0, 1, 2):
        for te in (None, ValueError, KeyError):
            out.append(SchedJob('aware-failing-%d-%s' % (on, te and te.__name__), aware_failing(on, te), bound=0, only=nothing, fork=True, max_steps=100000))
    return out
