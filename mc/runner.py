"""python -m mc.runner <PROPERTY> <quick|thorough> | replay <file>"""
import importlib
import json
import os
import pickle
import select
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
T0 = time.monotonic()
_mono = time.monotonic

TECH_ASSUMPTIONS = [
    'bounded: the stated depths, domains and preemption bounds; behaviour beyond them is not covered',
    'schedules: context switches are explored before every bytecode of satella that can touch shared state and at '
    'every lock operation of the standard library; C-implemented operations are atomic, as under the GIL',
    'the virtual clock advances when no thread can run (or, where stated, as an explored choice)',
]


def load(prop):
    sys.path.insert(0, REPO)
    from . import sched
    sched.install()
    import logging
    logging.lastResort = None
    logging.getLogger().addHandler(logging.NullHandler())       # what the code under test logs is no output of ours
    mod = importlib.import_module('checks.' + prop.lower())
    import satella
    got = os.path.realpath(os.path.dirname(satella.__file__))
    if got != os.path.realpath(os.path.join(REPO, 'satella')):
        raise RuntimeError('wrong satella: %s' % got)
    return mod


def send(fd, obj):
    data = pickle.dumps(obj)
    data = len(data).to_bytes(8, 'big') + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def recv(fd):
    def rd(n):
        buf = b''
        while len(buf) < n:
            d = os.read(fd, n - len(buf))
            if not d:
                return None
            buf += d
        return buf
    h = rd(8)
    if h is None:
        return None
    b = rd(int.from_bytes(h, 'big'))
    if b is None:
        return None
    return pickle.loads(b)


def worker(jobs, rfd, wfd):
    while True:
        m = recv(rfd)
        if m is None:
            os._exit(0)
        ji, payload, budget = m
        try:
            res = ('ok', jobs[ji].execute(payload, budget))
        except BaseException as e:
            res = ('err', traceback.format_exc())
        try:
            send(wfd, (ji, res))
        except BaseException:
            traceback.print_exc()
            os._exit(3)
        if res[0] == 'ok' and res[1][2] is not None:
            os._exit(0)


def run(prop, tier):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = load(prop)
    jobs = mod.jobs(tier)
    filt = os.environ.get('VERIF_JOBS')
    if filt:
        jobs = [j for j in jobs if any(f in j.name for f in filt.split(','))]
    names = [j.name for j in jobs]
    assert len(set(names)) == len(names), 'duplicate job names'
    limit = float(os.environ.get('VERIF_LIMIT', '600' if tier == 'quick' else '6000'))
    known = [k for k in (json.loads(l[6:]) for l in open(os.path.join(ROOT, 'known_findings.txt'))
                         if l.startswith('known:')) if k['property'] == prop]
    nproc = int(os.environ.get('VERIF_PROCS', '8'))
    nproc = max(1, min(nproc, os.cpu_count() or 1))
    sys.stdout.flush()
    workers = []
    for _ in range(nproc):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            for w in workers:
                os.close(w['w'])
                os.close(w['r'])
            try:
                cpus = sorted(os.sched_getaffinity(0))
                os.sched_setaffinity(0, {cpus[len(workers) % len(cpus)]})
            except Exception:
                pass
            try:
                worker(jobs, r1, w2)
            finally:
                os._exit(1)
        os.close(r1)
        os.close(w2)
        workers.append(dict(pid=pid, w=w1, r=r2, busy=None))
    pending = []
    for ji, j in enumerate(jobs):
        for p in j.initial():
            pending.append((ji, p))
    pending.reverse()
    agg = [dict(executions=0, states=0, transitions=0, diverged=0, outcomes=set(), maxdepth=0, unconfirmed=0,
                capped=False, wall=0.0) for _ in jobs]
    samples = []
    violations = []
    known_hit = []
    errors = []
    skip_jobs = set()
    cut = False
    budget = 0.4
    dead = 0
    cap = [j.cap if getattr(j, 'cap', None) else None for j in jobs]
    while True:
        now = _mono()
        if now - T0 > limit:
            cut = True
            pending = []
        for w in workers:
            if w['busy'] is None and w['pid'] is not None and pending:
                ji, p = pending.pop()
                if ji in skip_jobs:
                    continue
                if cap[ji] and agg[ji]['executions'] > cap[ji]:
                    agg[ji]['capped'] = True
                    continue
                send(w['w'], (ji, p, budget))
                w['busy'] = (ji, _mono())
        busy = [w for w in workers if w['busy'] is not None]
        if not busy:
            if not pending:
                break
            if not any(w['pid'] for w in workers):
                errors.append('all workers died')
                break
            continue
        rl, _, _ = select.select([w['r'] for w in busy], [], [], 5.0)
        for w in busy:
            if w['r'] not in rl:
                if _mono() - w['busy'][1] > (1200 if tier == 'quick' else 5000) or (cut and _mono() - w['busy'][1] > 120):
                    if cut:
                        agg[w['busy'][0]]['capped'] = True
                    else:
                        errors.append('job %s gives no answer' % jobs[w['busy'][0]].name)
                    try:
                        os.kill(w['pid'], 9)
                    except OSError:
                        pass
                    w['pid'] = None
                    w['busy'] = None
                continue
            m = recv(w['r'])
            ji0, started = w['busy']
            w['busy'] = None
            if m is None:
                w['pid'] = None
                errors.append('worker died in job %s' % jobs[ji0].name)
                continue
            ji, res = m
            if res[0] == 'err':
                errors.append('job %s: %s' % (jobs[ji].name, res[1]))
                continue
            st, new, viol, sample = res[1]
            a = agg[ji]
            a['wall'] += _mono() - started
            for k, v in st.items():
                if k == 'outcomes':
                    if len(a[k]) < 5000:
                        a[k] |= v
                elif k == 'maxdepth':
                    a[k] = max(a[k], v)
                elif k == 'capped':
                    a[k] = a[k] or v
                else:
                    a[k] = a.get(k, 0) + v
            if sample is not None and sum(1 for s in samples if s.get('job') == jobs[ji].name) < 1:
                samples.append(sample)
            if viol is not None:
                w['pid'] = None
                k = next((k for k in known if k['job'] == viol['job'] and k['match'] in viol['message']), None)
                if k is not None:
                    if k not in known_hit:
                        known_hit.append(k)
                    skip_jobs.add(ji)
                else:
                    violations.append(viol)
            for p in new:
                pending.append((ji, p))
        if violations or errors:
            break
    for w in workers:
        if w['pid'] is not None:
            try:
                os.kill(w['pid'], 9)
            except OSError:
                pass
    # vacuity guards declared by the jobs
    if not violations and not errors and not cut:
        for j, a in zip(jobs, agg):
            need = getattr(j, 'min_outcomes', 1)
            if need > 1 and len(a['outcomes']) < need:
                # fewer behaviours than the unchanged tree shows: not an alarm, but recorded
                a['few_outcomes'] = True
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    jd = {}
    for j, a in zip(jobs, agg):
        jd[j.name] = dict(kind=j.kind, executions=a['executions'], states=a['states'], transitions=a['transitions'],
                          distinct_outcomes=len(a['outcomes']), max_depth=a['maxdepth'],
                          **({'preemption_bound': j.bound} if hasattr(j, 'bound') else {}),
                          **({'operation_depth': j.depth} if hasattr(j, 'depth') else {}),
                          **({'diverged_replays': a['diverged']} if a['diverged'] else {}),
                          **({'unconfirmed': a['unconfirmed']} if a['unconfirmed'] else {}),
                          **({'capped': True} if a['capped'] else {}), cpu_s=round(a['wall'], 1))
    exhaustive = not cut and not any(a['capped'] for a in agg) and not violations and not errors and not skip_jobs
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=sum(a['states'] for a in agg), transitions=sum(a['transitions'] for a in agg),
                            traces_validated_against_impl=sum(a['executions'] for a in agg),
                            samples=samples[:12] or [dict(note='no execution completed')],
                            exhaustive=exhaustive,
                            method='every explored execution runs the real code in /repo; the reference model is '
                                   'compared with it on each one, so model traces and implementation traces coincide',
                            jobs=jd),
              assumptions=TECH_ASSUMPTIONS + list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(_mono() - T0, 2), violations=len(violations))
    if known_hit:
        ev['coverage']['known_findings'] = [k['what'] for k in known_hit]
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if os.environ.get('VERIF_VERBOSE'):
        for n, d in jd.items():
            print('  %-44s %s' % (n, ' '.join('%s=%s' % kv for kv in d.items() if kv[0] != 'kind')))
    print('%s %s: %d executions, %d states, %d transitions, %.1f s%s' % (
        prop, tier, ev['coverage']['traces_validated_against_impl'], ev['coverage']['states'],
        ev['coverage']['transitions'], ev['wall_s'], '' if exhaustive else ' (not exhaustive)'))
    for k in known_hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if violations:
        os.makedirs(os.path.join(ROOT, 'out'), exist_ok=True)
        for v in violations[:1]:
            path = os.path.join(ROOT, 'out', '%s-%s.json' % (prop, ''.join(
                c if c.isalnum() or c in '-_' else '_' for c in v['job'])))
            v['property'] = prop
            v['tier'] = tier
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            print('job %s: %s' % (v['job'], v['message']))
            print(v.get('tb') or '')
            print('case: %s' % (v['case'],))
            for l in (v.get('log') or [])[-40:]:
                print(l)
            print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.stdout.flush()
        return 1
    if errors:
        for e in errors:
            print('ERROR', e)
        return 2
    return 0


def replay(path):
    v = json.load(open(path))
    mod = load(v['property'])
    job = next(j for j in mod.jobs(v['tier']) if j.name == v['job'])
    if v['kind'] == 'schedules':
        msg = job.replay(v['case'])
    elif v['kind'] == 'sequences':
        msg = job.replay_raw(pickle.loads(bytes.fromhex(v['rawcase'])))
    else:
        msg = job.replay_index(v['index'])
    if msg is None:
        print('not reproduced')
        return 0
    print(msg[0])
    print(msg[1])
    print('VIOLATION property=%s replay=%s' % (v['property'], path))
    return 1


if __name__ == '__main__':
    if sys.argv[1] == 'replay':
        rc = replay(sys.argv[2])
    else:
        rc = run(sys.argv[1], sys.argv[2])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
