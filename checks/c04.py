"""
C04: SequentialIssuer and IDAllocator against a set of identifiers taken: all allocate/free/mark histories for all small ranges,
threads issuing, allocating and marking at once.
"""
from mc.jobs import SchedJob, SeqJob
from mc.sched import require, par, Violation
from satella.coding.concurrent import IDAllocator, SequentialIssuer
from satella.exceptions import AlreadyAllocated, Empty


# ---------------------------------------------------------------- sequences
class AllocCtx:
    def __init__(self, start, top, **kw):
        self.a = IDAllocator(**kw)
        self.start, self.top = start, top
        self.used = set()


def alloc_job(kw, depth):
    start = kw.get('start_at', 0)
    top = kw.get('top_limit')

    vals = sorted({start - 1, start, start + 1, start + 2, start + 11} |
                  ({top - 1, top, top + 1, top + start - 1} if top is not None else set()))
    ops = [('alloc',)] + [('free', v) for v in vals] + [('mark', v) for v in vals]

    def fresh():
        return AllocCtx(start, top, **kw)

    def inrange(v):
        return v >= start and (top is None or v < top)

    def apply(c, op):
        if op[0] == 'alloc':
            full = top is not None and len(c.used) >= max(0, top - start)
            try:
                v = c.a.allocate_int()
            except Empty:
                require(full, 'allocation reported exhaustion with only %s in use of range [%s,%s)', c.used, start, top)
                return
            require(not full, 'allocation returned %s although the range [%s,%s) is exhausted', v, start, top)
            require(type(v) is int and inrange(v), 'allocated %r outside of [%s,%s)', v, start, top)
            require(v not in c.used, 'allocated %s twice', v)
            c.used.add(v)
        elif op[0] == 'free':
            v = op[1]
            try:
                c.a.mark_as_free(v)
            except ValueError:
                require(v not in c.used, 'freeing allocated %s refused', v)
                return
            require(v in c.used, 'freeing %s, which is not allocated, accepted', v)
            c.used.discard(v)
        else:
            v = op[1]
            try:
                c.a.mark_as_allocated(v)
            except AlreadyAllocated:
                require(v in c.used, 'marking free %s says already allocated', v)
                return
            except ValueError:
                require(not inrange(v), 'marking %s, inside [%s,%s), refused', v, start, top)
                return
            require(inrange(v), 'marking %s outside of [%s,%s) accepted', v, start, top)
            require(v not in c.used, 'marking allocated %s accepted', v)
            c.used.add(v)

    def finish(c):
        # drain: everything that is not in use can be allocated, exactly once
        n = (top - start - len(c.used)) if top is not None else 25
        got = set()
        for _ in range(max(0, n)):
            try:
                v = c.a.allocate_int()
            except Empty:
                raise Violation('exhausted after %s more allocations, in use %s, range [%s,%s)' % (
                    len(got), c.used, start, top))
            require(inrange(v) and v not in c.used and v not in got, 'drain handed out %s; in use %s', v, c.used | got)
            got.add(v)
        if top is not None:
            try:
                v = c.a.allocate_int()
            except Empty:
                pass
            else:
                raise Violation('handed out %s from an exhausted range' % v)
        for v in sorted(got | c.used):
            c.a.mark_as_free(v)

    return SeqJob('alloc%s' % sorted(kw.items()), fresh, ops, apply, depth, finish=finish)


class IssuerCtx:
    def __init__(self, *a):
        self.s = SequentialIssuer(*a)
        self.next = a[0] if a else 0


def issuer_job(args, depth):
    s = args[0] if args else 0
    ops = [('issue',)] + [('nlt', s + d) for d in (-2, -1, 0, 1, 2, 3, 5)]

    def apply(c, op):
        if op[0] == 'issue':
            v = c.s.issue()
            require(v == c.next, 'issued %s, expected %s', v, c.next)
            c.next = v + 1
        else:
            v = c.s.no_less_than(op[1])
            e = max(c.next, op[1])
            require(v == e, 'no_less_than(%s) issued %s, expected %s', op[1], v, e)
            c.next = v + 1
    return SeqJob('issuer%r' % (args,), lambda: IssuerCtx(*args), ops, apply, depth)


# ---------------------------------------------------------------- schedules
def issuers():
    s = SequentialIssuer(5)
    a, b = par(lambda: [s.issue(), s.no_less_than(6)], lambda: [s.no_less_than(5), s.issue()])
    ids = a[1] + b[1]
    require(len(set(ids)) == 4, 'identifiers issued twice: %s', ids)
    require(a[1][0] < a[1][1] and b[1][0] < b[1][1] and min(ids) >= 5, 'issued backwards: %s', ids)
    return sorted(ids)


def issuers3():
    s = SequentialIssuer()
    r = par(s.issue, s.issue, lambda: s.no_less_than(1))
    ids = [x[1] for x in r]
    require(len(set(ids)) == 3, 'identifiers issued twice: %s', ids)
    return ids


def allocators():
    s = IDAllocator(start_at=3, top_limit=6)
    live = []

    def user():
        out = []
        x = s.allocate_int()
        require(x not in live, '%s allocated twice', x)
        live.append(x)
        out.append(x)
        live.remove(x)
        s.mark_as_free(x)
        x = s.allocate_int()
        require(x not in live, '%s allocated twice', x)
        live.append(x)
        return x
    r = par(user, user)
    for k, v in r:
        if k == 'exc':
            raise v
    require(r[0][1] != r[1][1], 'same identifier %s held twice', r[0][1])
    y = s.allocate_int()
    require({y, r[0][1], r[1][1]} == {3, 4, 5}, 'range not covered: %s', (y, r))
    try:
        z = s.allocate_int()
    except Empty:
        return [x[1] for x in r]
    raise Violation('handed out %s of an exhausted range' % z)


def markers():
    s = IDAllocator(top_limit=2)

    def mark():
        try:
            s.mark_as_allocated(0)
            return 0
        except AlreadyAllocated:
            return None

    def alloc():
        try:
            return s.allocate_int()
        except Empty:
            return None
    r = par(mark, alloc, mark)
    for k, v in r:
        if k == 'exc':
            raise v
    got = [v for k, v in r if v is not None]
    require(len(set(got)) == len(got), 'identifier held twice: %s', r)
    require(0 in got, 'identifier 0 marked by nobody: %s', r)
    left = 2 - len(got)
    for _ in range(left):
        got.append(s.allocate_int())
    require(sorted(got) == [0, 1], 'range not covered: %s', got)
    return r


def jobs(tier):
    q = tier == 'quick'
    out = []
    for kw in ({}, {'start_at': 1}, {'top_limit': 3}, {'start_at': 2, 'top_limit': 4}, {'start_at': 5, 'top_limit': 7},
               {'start_at': -2, 'top_limit': 1}, {'start_at': -2, 'top_limit': 0}, {'top_limit': 0}, {'top_limit': 1}, {'start_at': 0, 'top_limit': 12},
               {'start_at': 3, 'top_limit': 14}):
        out.append(alloc_job(kw, 4 if q else 5))
    for a in ((), (1,), (7,), (-3,)):
        out.append(issuer_job(a, 5 if q else 7))
    b = 2 if q else 3
    out += [SchedJob('issuers', issuers, bound=b), SchedJob('issuers3', issuers3, bound=b),
            SchedJob('allocators', allocators, bound=b),
            SchedJob('markers', markers, bound=b)]
    return out
