"""
C39: small class lattices through the class-building helpers, small package trees through the import helpers, and every module of the
package imported first in a fresh interpreter.
"""
import abc
import importlib
import itertools
import os
import shutil
import subprocess
import sys
import tempfile
import traceback
import warnings

import satella
from mc.jobs import EnumJob
from mc.sched import require
from satella.coding import metaclass_maker, wrap_with, dont_wrap, wrap_property, DocsFromParent, CopyDocsFrom
from satella.imports import import_from, import_class

REPO = os.path.dirname(os.path.dirname(os.path.abspath(satella.__file__)))


# ------------------------------------------------------------------ documentation
def method(name, doc, tag):
    def fun(self):
        return tag
    fun.__name__ = name
    fun.__doc__ = doc
    return fun


NAMES = ['c', 'a', 'b', 'd']


def namespace(spec, docs, tag):
    """spec: per name one of None, 'doc', 'nodoc'"""
    ns = {'const': 3, 'label': 'text'}
    for name, s in zip(NAMES, spec):
        if s:
            ns[name] = method(name, '%s %s' % (tag, name) if s == 'doc' else None, (tag, name))
    if docs:
        ns['__doc__'] = tag + ' class'
    return ns


def check_copy_docs(case):
    src, dst, src_doc, dst_doc = case
    Source = type('Source', (), namespace(src, src_doc, 'source'))
    orig = namespace(dst, dst_doc, 'target')
    Target = CopyDocsFrom(Source)('Target', (), dict(orig))
    require(Target.__name__ == 'Target' and Target.__bases__ == (object,) and Target.const == 3 and Target.label == 'text', 'the class changed')
    require(Target.__doc__ == ('target class' if dst_doc else 'source class' if src_doc else None), 'class documentation %s', Target.__doc__)
    for i, name in enumerate(NAMES[:len(dst)]):
        if dst[i]:
            want = 'target ' + name if dst[i] == 'doc' else 'source ' + name if src[i] == 'doc' else None
            got = getattr(Target, name).__doc__
            require(got == want, 'documentation of %s is %s, should be %s', name, got, want)
            require(getattr(Target(), name)() == ('target', name), 'method %s does something else', name)
        else:
            require(not hasattr(Target, name), 'method %s came from nowhere', name)
        if src[i]:
            require(getattr(Source, name).__doc__ == ('source ' + name if src[i] == 'doc' else None), 'documentation of the source changed')


def copy_cases(n):
    states = [None, 'doc', 'nodoc']
    for src in itertools.product(states, repeat=n):
        for dst in itertools.product(states, repeat=n):
            for sd, dd in itertools.product((True, False), repeat=2):
                yield src, dst, sd, dd


def check_parent_docs(case):
    shape, specs, classdocs = case
    # specs in order: child, then ancestors
    if shape == 'chain':
        G = type('G', (), namespace(specs[2], classdocs[2], 'G'))
        P = type('P', (G,), namespace(specs[1], classdocs[1], 'P'))
        bases, order = (P,), ['P', 'G']
    elif shape == 'two':
        P = type('P', (), namespace(specs[1], classdocs[1], 'P'))
        G = type('G', (), namespace(specs[2], classdocs[2], 'G'))
        bases, order = (P, G), ['P', 'G']
    elif shape == 'breadth':
        P = type('P', (), namespace(specs[1], classdocs[1], 'P'))
        H = type('H', (), namespace((), True, 'H'))     # a grandparent comes only after all of the parents
        bases, order = (type('Y', (H,), {}), P), ['P', 'G']
        G = type('G', (), {})
        specs, classdocs = (specs[0], specs[1], (None,) * len(specs[1])), (classdocs[0], classdocs[1], False)
    elif shape == 'abc':
        G = abc.ABCMeta('G', (), namespace(specs[2], classdocs[2], 'G'))
        P = abc.ABCMeta('P', (G,), namespace(specs[1], classdocs[1], 'P'))
        bases, order = (P,), ['P', 'G']
    Child = DocsFromParent('Child', bases, namespace(specs[0], classdocs[0], 'child'))
    require(Child.__name__ == 'Child' and Child.__bases__ == bases and Child.const == 3, 'the class changed')
    require(type(Child) is type(bases[0]), 'metaclass is %s', type(Child))
    want = 'child class' if classdocs[0] else 'P class' if classdocs[1] else 'G class' if classdocs[2] else 'H class' if shape == 'breadth' else None
    require(Child.__doc__ == want, 'class documentation is %s, should be %s', Child.__doc__, want)
    for i, name in enumerate(NAMES[:len(specs[0])]):
        if not specs[0][i]:
            continue
        want = 'child ' + name if specs[0][i] == 'doc' else 'P ' + name if specs[1][i] == 'doc' else 'G ' + name if specs[2][i] == 'doc' else None
        got = getattr(Child, name).__doc__
        require(got == want, 'documentation of %s is %s, should be %s', name, got, want)
        require(getattr(Child(), name)() == ('child', name), 'method %s does something else', name)
        for cls, spec, tag in ((P, specs[1], 'P'), (G, specs[2], 'G')):
            if spec[i]:
                require(getattr(cls, name).__doc__ == ('%s %s' % (tag, name) if spec[i] == 'doc' else None), 'documentation of an ancestor changed')


def parent_cases(n):
    states = [None, 'doc', 'nodoc']
    for shape in ('chain', 'two', 'abc', 'breadth'):
        for specs in itertools.product(list(itertools.product(states, repeat=n)), repeat=3):
            yield shape, specs, (True, True, True)
            yield shape, specs, (False, True, False)
        for classdocs in itertools.product((True, False), repeat=3):
            yield shape, (('doc',),) * 3, classdocs


# ------------------------------------------------------------------ metaclasses
def metas():
    log = []

    def meta(name, bases):
        def new(mcs, cname, cbases, ns):
            if cname == 'C':
                log.append(('new', name))
            return super(cls, mcs).__new__(mcs, cname, cbases, ns)

        def init(c, cname, cbases, ns):
            if cname == 'C':
                log.append(('init', name))
            super(cls, c).__init__(cname, cbases, ns)
        cls = type(name, bases, {'__new__': new, '__init__': init, 'tag_' + name: property(lambda c: name)})
        return cls
    A = meta('A', (type,))
    B = meta('B', (type,))
    A1 = meta('A1', (A,))
    AB = meta('AB', (A, B))
    BA1 = meta('BA1', (B, A1))
    ABC = abc.ABCMeta
    return log, [type, A, B, A1, AB, BA1, ABC]


def check_metaclass(case):
    choice = case
    log, ms = metas()
    bases = tuple(ms[m]('Base%d' % i, (), {'base%d' % i: i}) for i, m in enumerate(choice))
    del log[:]
    try:
        native = type(type('C', bases, {}))
    except TypeError:
        native = None
    del log[:]
    try:
        C = metaclass_maker('C', bases, {'own': 'attr'})
    except TypeError as e:
        # metaclasses whose orders of inheritance exclude each other can not be reconciled
        needed = [ms[m] for m in choice]
        maximal = [m for i, m in enumerate(needed) if m not in needed[:i] and not any(o is not m and issubclass(o, m) for o in needed)]
        try:
            type('Test', tuple(maximal), {})
        except TypeError:
            return 'irreconcilable'
        require(False, 'could not make a class out of metaclasses %s: %s', needed, e)
    require(C.__bases__ == (bases or (object,)) and C.__name__ == 'C' and C.own == 'attr', 'class is %s of bases %s', C, C.__bases__)
    for i, b in enumerate(bases):
        require(isinstance(C, type(b)), 'metaclass %s of the class is not a %s', type(C), type(b))
        require(getattr(C(), 'base%d' % i) == i, 'nothing inherited from base %d', i)
        for m in type(b).__mro__:
            if m.__name__ in ('A', 'B', 'A1', 'AB', 'BA1'):
                require(getattr(C, 'tag_' + m.__name__) == m.__name__, 'metaclass %s is not in effect', m)
                for kind in ('new', 'init'):
                    require(log.count((kind, m.__name__)) == 1, '%s of metaclass %s called %d times', kind, m, log.count((kind, m.__name__)))
    if native is not None:
        require(type(C) is native, 'metaclass is %s, natively %s', type(C), native)
    # another class out of the same ones
    D = metaclass_maker('D', bases, {})
    require(type(D) is type(C), 'metaclasses of same bases differ: %s and %s', type(C), type(D))
    # precedence among metaclasses follows the order of bases, in whichever order those come
    for order in (bases, bases[::-1]):
        try:
            got = type(metaclass_maker('R', order, {}))
        except TypeError:
            continue
        needed = [type(b) for b in order]
        want = [m for i, m in enumerate(needed) if m not in needed[:i] and not any(o is not m and issubclass(o, m) for o in needed)]
        require([m for m in got.__mro__ if m in want] == want, 'metaclasses of bases %s come as %s', needed, got.__mro__)
    E = metaclass_maker('E', (C,), {})
    require(type(E) is type(C) and issubclass(E, C), 'metaclass of a child is %s', type(E))


# ------------------------------------------------------------------ wrapping
def check_wrap_property(case):
    has, wrapped, doc = case
    log = []

    def fget(self):
        log.append('get')
        return self.v

    def fset(self, v):
        log.append(('set', v))
        self.v = v

    def fdel(self):
        log.append('del')
        del self.v
    fget.__doc__ = doc
    prop = property(fget, fset if has[0] else None, fdel if has[1] else None)

    def wg(f):
        def g(self):
            log.append('pre-get')
            return f(self) + 100
        return g

    def ws(f):
        def s(self, v):
            log.append('pre-set')
            return f(self, v * 2)
        return s

    def wd(f):
        def d(self):
            log.append('pre-del')
            return f(self)
        return d
    kw = {}
    if wrapped[0]:
        kw['getter'] = wg
    if wrapped[1]:
        kw['setter'] = ws
    if wrapped[2]:
        kw['deleter'] = wd

    class K:
        p = wrap_property(**kw)(prop)
    require(isinstance(K.p, property), 'not a property')
    require(K.p.__doc__ == doc, 'documentation is %s', K.p.__doc__)
    k = K()
    k.v = 5
    require(k.p == (105 if wrapped[0] else 5) and log == ['pre-get'] * wrapped[0] + ['get'], 'getter: %s', log)
    del log[:]
    if has[0]:
        k.p = 7
        require(k.v == (14 if wrapped[1] else 7) and log == ['pre-set'] * wrapped[1] + [('set', k.v)], 'setter: %s', log)
    else:
        try:
            k.p = 7
        except (AttributeError, TypeError):
            pass
        else:
            require(False, 'read-only property was written')
        require(k.v == 5, 'read-only property was written')
    del log[:]
    if has[1]:
        del k.p
        require(not hasattr(k, 'v') and log == ['pre-del'] * wrapped[2] + ['del'], 'deleter: %s', log)
    # the original works as it did
    del log[:]

    class O:
        p = prop
    o = O()
    o.v = 3
    require(o.p == 3 and log == ['get'], 'the original property changed')


MEMBERS = ['plain', 'selected', 'saved', 'abstract', 'prop', 'prop_sel', 'const', 'cls', 'prop_rw', 'special']


def check_wrap_with(case):
    members, which, sel = case
    calls = []

    def body(name):
        def f(self, *a):
            calls.append(name)
            return 1
        f.__name__ = name
        return f

    def wrapc(f):
        def w(self, *a):
            calls.append('wrapped')
            return f(self, *a) + 10
        return w

    wrapp = wrap_property(wrapc)
    ns = {}
    for m in members:
        if m in ('plain', 'selected'):
            ns[m] = body(m)
        elif m == 'saved':
            ns[m] = dont_wrap(body(m))
        elif m == 'abstract':
            ns[m] = dont_wrap(abc.abstractmethod(body(m)))
        elif m == 'prop_rw':
            ns[m] = property(body(m), lambda self, v: calls.append(('set', v)), lambda self: calls.append('del'))
        elif m.startswith('prop'):
            ns[m] = property(body(m))
        elif m == 'const':
            ns[m] = 17
        elif m == 'cls':
            ns[m] = classmethod(body(m))
        elif m == 'special':
            ns['__call__'] = body('special')

    class Base:
        def inherited(self):
            calls.append('inherited')
            return 1
    kw = {}
    if 'c' in which:
        kw['callables'] = wrapc
    if 'p' in which:
        kw['properties'] = wrapp
    if sel:
        kw['selector_callables'] = lambda f: f.__name__ != 'selected'
        kw['selector_properties'] = lambda p: p.fget.__name__ != 'prop_sel'
    K = wrap_with(**kw)('K', (Base,), dict(ns))
    require(isinstance(K, abc.ABCMeta) and K.__bases__ == (Base,) and K.__name__ == 'K', 'class is %s', K)
    if 'abstract' in members:
        try:
            K()
        except TypeError:
            pass
        else:
            require(False, 'abstract class was instantiated')
        K = type(K)('K2', (K,), {'abstract': lambda self: 1})
    k = K()

    def want(name, wrapped):
        del calls[:]
        v = getattr(k, name)
        v = v if name.startswith('prop') else v()
        require((v, calls) == ((11, ['wrapped', name]) if wrapped else (1, [name])), '%s: gave %s with calls %s, should be wrapped: %s',
                name, v, calls, wrapped)
    for m in members:
        if m == 'plain':
            want(m, 'c' in which)
        elif m == 'selected':
            want(m, 'c' in which and not sel)
        elif m == 'saved':
            want(m, False)
        elif m in ('prop', 'prop_rw'):
            want(m, 'p' in which)
            if m == 'prop_rw':
                del calls[:]
                k.prop_rw = 4
                del k.prop_rw
                require(calls == [('set', 4), 'del'], 'setting and deleting: %s', calls)
        elif m == 'prop_sel':
            want(m, 'p' in which and not sel)
        elif m == 'const':
            require(k.const == 17, 'constant changed')
        elif m == 'cls':
            want(m, False)
        elif m == 'special':
            del calls[:]
            v = k()
            require((v, calls) == ((11, ['wrapped', m]) if 'c' in which else (1, [m])), 'calling the object gave %s with calls %s', v, calls)
    want('inherited', False)


# ------------------------------------------------------------------ imports
serial = itertools.count()
FILES = {
    'mod_all': "__all__ = ['one', '_hidden']\none = 'one'\n_hidden = 'hidden'\ntwo = 'two'\n",
    'mod_noall': "three = 'three'\n_private = 'private'\n",
    'mod_bad': "__all__ = ['four', 'missing']\nfour = 'four'\n",
    '_under': "__all__ = ['under']\nunder = 'under'\n",
    '__main__': "raise SystemExit('imported __main__')\n",
}
PACKAGES = {'sub': "__all__ = []\n", 'subno': "six = 'six'\n", 'json': "__all__ = []\n", '_hid': "__all__ = []\n"}
IN_PACKAGE = {'inner': "__all__ = ['five']\nfive = 'five'\n"}


def check_import_from(case):
    files, packs, flags = case
    recursive, fail, create, skip_under, skip_noall = flags
    top = tempfile.mkdtemp(prefix='verif-c39-')
    name = 'verifpkg%d_%d' % (os.getpid(), next(serial))
    sys.dont_write_bytecode = True
    try:
        root = os.path.join(top, name)
        os.mkdir(root)
        open(os.path.join(root, '__init__.py'), 'w').write('__all__ = []\n')
        for f in files:
            open(os.path.join(root, f + '.py'), 'w').write(FILES[f])
        for p in packs:
            os.mkdir(os.path.join(root, p))
            open(os.path.join(root, p, '__init__.py'), 'w').write(PACKAGES[p])
            for f, src in IN_PACKAGE.items():
                open(os.path.join(root, p, f + '.py'), 'w').write(src)
        sys.path.insert(0, top)
        importlib.invalidate_caches()
        mod = importlib.import_module(name)
        got_all, got = [], {}
        want, attrerr = {}, False
        for f in files:
            if f.startswith('_') and skip_under:
                continue
            if f == 'mod_all':
                want['one'] = 'one'
                if not skip_under:
                    want['_hidden'] = 'hidden'
            elif f == 'mod_noall':
                if not skip_noall:
                    want['three'] = 'three'
                    if not skip_under:
                        want['_private'] = 'private'
            elif f == 'mod_bad':
                want['four'] = 'four'
                attrerr = fail
            elif f == '_under':
                want['under'] = 'under'
        for p in packs:
            if recursive and not (p == '_hid' and skip_under) and not (p == 'subno' and skip_noall):
                want[p] = ('package', p)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                import_from(mod.__path__, name, got_all, got, recursive=recursive, fail_on_attributerror=fail, create_all=create,
                            skip_single_underscores=skip_under, skip_not_having_all=skip_noall)
            except AttributeError:
                require(attrerr, 'AttributeError')
                return 'attribute error'
        require(not attrerr, 'name that is not there went unnoticed')
        keep = {k: v for k, v in got.items() if not (k.startswith('__') and k.endswith('__'))}
        require(sorted(keep) == sorted(want), 'imported %s, should have %s', sorted(keep), sorted(want))
        require(sorted(got_all) == sorted(got), '__all__ is %s, imported were %s', got_all, sorted(got))
        for k, v in want.items():
            if isinstance(v, tuple):
                m = got[k]
                require(m is importlib.import_module(name + '.' + v[1]), '%s is %s', k, m)
                require(m.five == 'five', 'nothing imported into the subpackage')
                if v[1] != 'subno' or create:
                    require(m.__all__ == ['five'], '__all__ of subpackage %s is %s', k, m.__all__)
            else:
                require(got[k] == v, '%s is %s', k, got[k])
    finally:
        if top in sys.path:
            sys.path.remove(top)
        for m in [m for m in sys.modules if m == name or m.startswith(name + '.')]:
            del sys.modules[m]
        shutil.rmtree(top)


def import_cases(deep):
    flags = list(itertools.product((True, False), repeat=5))
    for n in range(3 if not deep else 4):
        for files in itertools.combinations(['mod_all', 'mod_noall', 'mod_bad', '_under'], n):
            for m in range(2 if not deep else 3):
                for packs in itertools.combinations(sorted(PACKAGES), m):
                    for f in flags:
                        yield files, packs, f
    for f in flags:
        if f[3]:
            yield ('mod_all', '__main__'), ('sub',), f


def check_import_class(case):
    path, want = case
    try:
        got = import_class(path)
    except ImportError as e:
        require(want is None, 'import of %s: %s', path, e)
        return
    require(got is want and want is not None, 'import of %s gave %s', path, got)


# ------------------------------------------------------------------ modules on their own
PROBE = '''
import sys, threading, signal, os, importlib, logging, time
def state():
    return (os.getcwd(), [signal.getsignal(s) for s in (2, 15, 14, 10, 12)], sys.getrecursionlimit(), sys.getswitchinterval(),
            logging.root.level, list(logging.root.handlers), sys.stdout, sys.stderr, sys.gettrace(), sys.getprofile(),
            time.time, time.monotonic, time.sleep, threading.Lock, threading.RLock, threading.Condition, threading.active_count())
before = state()
m = importlib.import_module(name)
for i, (a, b) in enumerate(zip(before, state())):
    assert a == b, (i, a, b)
missing = [n for n in getattr(m, '__all__', ()) if not hasattr(m, n)]
assert not missing, missing
exec('from %s import *' % name, {})
'''


def modules():
    for d, dirs, files in os.walk(os.path.join(REPO, 'satella')):
        for f in sorted(files):
            if f.endswith('.py'):
                m = os.path.relpath(os.path.join(d, f), REPO)[:-3].replace(os.sep, '.')
                yield (m[:-len('.__init__')] if m.endswith('.__init__') else m),


def check_module(case):
    # in a child process that has nothing of satella loaded
    sys.stdout.flush()
    sys.stderr.flush()
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.dup2(wfd, 1)
            os.dup2(wfd, 2)
            for m in [m for m in sys.modules if m == 'satella' or m.startswith('satella.')]:
                del sys.modules[m]
            warnings.simplefilter('ignore')
            exec(PROBE, {'name': case[0]})
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, 'rb') as f:
        output = f.read()
    os.waitpid(pid, 0)
    require(output == b'', 'import of %s before other modules: %s', case[0], output.decode()[-500:])


def jobs(tier):
    deep = tier == 'thorough'
    n = len(metas()[1])
    return [
        EnumJob('copy-docs', lambda: copy_cases(3 if deep else 2), check_copy_docs, shards=8),
        EnumJob('copy-docs-first', lambda: (((s, 'doc', 'doc'), (t, 'nodoc', 'nodoc'), True, False) for s in (None, 'doc', 'nodoc') for t in (None, 'doc', 'nodoc')), check_copy_docs),
        EnumJob('parent-docs', lambda: parent_cases(2), check_parent_docs, shards=4),
        EnumJob('metaclasses', lambda: (c for k in range(1, 5 if deep else 4) for c in itertools.product(range(n), repeat=k)), check_metaclass, shards=4),
        EnumJob('wrap-property', lambda: itertools.product(itertools.product((True, False), repeat=2), itertools.product((True, False), repeat=3), ('doc', None)), check_wrap_property),
        EnumJob('wrap-with', lambda: ((m, w, s) for k in range(len(MEMBERS) + 1) for m in itertools.combinations(MEMBERS, k)
                                      for w in ('', 'c', 'p', 'cp') for s in (True, False)), check_wrap_with, shards=2),
        EnumJob('import-from', lambda: import_cases(deep), check_import_from, shards=8),
        EnumJob('import-class', lambda: [('subprocess.Popen', subprocess.Popen), ('subprocess.Nonexistent', None), ('nonexistent_module.X', None),
                                         ('os.path.join', os.path.join), ('os.nonexistent.join', None), ('satella.coding.structures.Heap', importlib.import_module('satella.coding.structures').Heap)],
                check_import_class),
        EnumJob('modules', lambda: modules(), check_module, shards=8),
    ]
