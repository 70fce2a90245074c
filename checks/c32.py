"""
C32: programs of entering, leaving, setting, deleting, pushing up in nested contexts against a stack of dictionaries; threads running such programs
under all bounded interleavings.
"""
import itertools
import warnings

from mc.jobs import SchedJob, SeqJob, EnumJob
from mc.sched import require, Violation, par, pick, pause, spawn
from satella.coding import Context

warnings.simplefilter('ignore')
NAMES = ('a', 'b', 'value')
GONE = object()


class Boom(Exception):
    pass


class Ctx:
    """a stack of contexts and its model: a list of dictionaries"""

    def __init__(self, top=None):
        self.outer = Context()
        self.layers = [self.outer.__enter__()] if top is None else [top]
        self.managers = [self.outer]
        self.model = [{}]

    def seen(self, depth, name):
        for d in reversed(self.model[:depth + 1]):
            if name in d:
                return d[name]
        return GONE

    def look(self):
        require(Context.get() is self.layers[-1], 'the current context is not the innermost one')
        for depth, l in enumerate(self.layers):
            for n in NAMES:
                want = self.seen(depth, n)
                try:
                    got = getattr(l, n)
                except AttributeError:
                    got = GONE
                require(got is want or got == want, 'in layer %s of %s %s is %s, expected %s', depth, self.model, n, got, want)
                require(l.does_exist(n) is (want is not GONE), 'existence of %s in layer %s of %s', n, depth, self.model)
                require(hasattr(l, n) is (want is not GONE), 'presence of %s in layer %s of %s', n, depth, self.model)

    def close(self):
        while len(self.layers) > 1:
            self.leave(None)
            self.look()
        if self.managers[0] is not None:
            self.managers[0].__exit__(None, None, None)

    def leave(self, exc):
        m = self.managers.pop()
        self.layers.pop()
        self.model.pop()
        r = m.__exit__(type(exc), exc, None) if exc is not None else m.__exit__(None, None, None)
        require(not r, 'exception swallowed')


OPEN = []


def fresh():
    while OPEN:
        c = OPEN.pop()
        for m in reversed(c.managers):
            m.__exit__(None, None, None)
    c = Ctx()
    OPEN.append(c)
    return c


def ops(c):
    out = [('set', n, v, w) for n in NAMES[:2] for v in (1, None) for w in ('top', 'get')] + [('del', n) for n in NAMES[:2]]
    out += [('set', 'a', 5, 'outer'), ('del-outer', 'b')] if len(c.layers) > 1 else []
    out += [('enter', ())]
    if len(c.layers) < 4:
        out += [('enter', (('a', 7),)), ('enter', (('a', 8), ('value', 9))), ('again',)]
    if len(c.layers) > 1:
        out += [('exit',), ('raise',), ('push', 'a'), ('push', 'b'), ('pushv', 'a', 3)]
    return out


def apply(c, op):
    top, m = c.layers[-1], c.model[-1]
    if op[0] == 'set':
        if op[3] == 'outer':
            setattr(c.layers[0], op[1], op[2])
            c.model[0][op[1]] = op[2]
        else:
            setattr(top if op[3] == 'top' else Context.get(), op[1], op[2])
            m[op[1]] = op[2]
    elif op[0] == 'del':
        if c.seen(len(c.model) - 1, op[1]) is GONE:
            # whether deleting what is not there fails is open; it stays unseen
            try:
                delattr(top, op[1])
            except AttributeError:
                pass
        else:
            delattr(top, op[1])
        m[op[1]] = GONE
    elif op[0] == 'del-outer':
        if op[1] in c.model[0] and c.model[0][op[1]] is not GONE:
            delattr(c.layers[0], op[1])
            c.model[0][op[1]] = GONE
    elif op[0] == 'enter':
        cm = Context(**dict(op[1]))
        l = cm.__enter__()
        c.managers.append(cm)
        c.layers.append(l)
        c.model.append(dict(op[1]))
    elif op[0] == 'again':
        cm = Context.get()
        l = cm.__enter__()
        c.managers.append(cm)
        c.layers.append(l)
        c.model.append(dict(m))
    elif op[0] == 'exit':
        c.leave(None)
    elif op[0] == 'raise':
        c.leave(Boom())
    elif op[0] == 'push':
        v = c.seen(len(c.model) - 1, op[1])
        if v is GONE:
            try:
                top.push_up(op[1])
            except (AttributeError, KeyError):
                pass
            else:
                require(False, 'pushed up an unset variable')
        else:
            top.push_up(op[1])
            c.model[-2][op[1]] = v
            m.pop(op[1], None)
    elif op[0] == 'pushv':
        top.push_up(op[1], op[2])
        c.model[-2][op[1]] = op[2]
    c.look()


def key(c):
    return repr([sorted((k, 'gone' if v is GONE else v) for k, v in d.items()) for d in c.model])


def finish(c):
    # unwinding shows every enclosing context as it was
    before = [{n: c.seen(d, n) for n in NAMES} for d in range(len(c.model))]
    while len(c.layers) > 1:
        c.leave(None)
        c.look()
        require({n: c.seen(len(c.model) - 1, n) for n in NAMES} == before[len(c.model) - 1], 'model')
    c.managers.pop().__exit__(None, None, None)
    OPEN.clear()


# ------------------------------------------------------------------ statements, threads
def run_nested(prog, depth, model, check):
    """prog: nested lists of steps: ('set', n, v), ('del', n), ('with', kw, prog, raises), ('try', prog)"""
    for step in prog:
        if step[0] == 'set':
            setattr(Context.get(), step[1], step[2])
            model[-1][step[1]] = step[2]
        elif step[0] == 'del':
            delattr(Context.get(), step[1])
            model[-1][step[1]] = GONE
        else:
            cur = Context.get()
            model.append(dict(step[1]))
            e = Boom()
            try:
                with Context(**dict(step[1])) as c:
                    require(c is Context.get(), 'not the current context')
                    check(model)
                    run_nested(step[2], depth + 1, model, check)
                    if step[3]:
                        raise e
            except Boom as f:
                require(f is e, 'another exception')
            else:
                require(not step[3], 'exception swallowed')
            model.pop()
            require(Context.get() is cur, 'the enclosing context is not restored')
        check(model)


def check(model):
    c = Context.get()
    pause()
    for n in NAMES:
        want = GONE
        for d in reversed(model):
            if n in d:
                want = d[n]
                break
        got = getattr(c, n, GONE)
        require(got is want or got == want, 'in %s %s is %s, expected %s', model, n, got, want)


PROGS = [
    [('set', 'a', 1), ('with', (), [('set', 'a', 2), ('set', 'b', 3)], False)],
    [('with', (('a', 4),), [('with', (), [('del', 'a'), ('set', 'b', 1)], True), ('set', 'b', 2)], False), ('set', 'a', 6)],
    [('set', 'a', 5), ('with', (), [('with', (), [('set', 'a', 7)], False), ('with', (), [], True)], False), ('with', (), [('del', 'a')], False)],
    [('set', 'b', 8)],
]


def two_threads(k):
    def body():
        p, q = pick(list(itertools.combinations_with_replacement(range(len(PROGS)), 2)))

        def one(i):
            model = [{}]
            check(model)
            run_nested(PROGS[i], 0, model, check)
            return True
        for r in par(lambda: one(p), lambda: one(q)):
            if r[0] == 'exc':
                raise r[1]
        return p, q
    return body


def handed_over():
    """a thread started within a context has a context of its own, and the starter's is not touched by it"""
    def other():
        c = Context.get()
        require(getattr(c, 'a', GONE) is GONE, 'variable of another thread is seen')
        c.a = 'other'
        with Context() as d:
            d.b = 'other'
            pause()
            require(c.a == 'other' and d.a == 'other', 'own variable lost')
        return c

    def starter():
        with Context(a=1) as c:
            h = spawn(other)
            c.b = 2
            require((c.a, c.b) == (1, 2), 'variables changed')
            with Context() as d:
                require((d.a, d.b) == (1, 2) and Context.get() is d, 'variables changed')
                o = h.value()
                require((d.a, d.b) == (1, 2) and Context.get() is d, 'variables changed')
            require((c.a, c.b) == (1, 2) and Context.get() is c and o is not c, 'variables changed')
        require(not hasattr(Context.get(), 'a'), 'still set')
    r = par(starter)[0]
    if r[0] == 'exc':
        raise r[1]


def jobs(tier):
    t = tier == 'thorough'
    return [SeqJob('stack', fresh, ops, apply, 6 if t else 5, finish=finish, shards=8),
            SchedJob('threads', two_threads(2), bound=1, only=['coding/environment']) if not t else
            SchedJob('threads', two_threads(2), bound=2, only=['coding/environment']),
            SchedJob('hand-over', handed_over, bound=3 if t else 2, only=['coding/environment'])]
