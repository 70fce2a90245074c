"""A generic canonical form of an object graph, for state deduplication."""
import collections
import datetime
import types
import weakref

ATOMS = (int, float, str, bytes, bool, type(None), complex, type(Ellipsis), datetime.datetime, datetime.timedelta)


def canon(obj):
    memo = {}
    out = []
    _c(obj, memo, out, 0)
    return hash_friendly(out)


def hash_friendly(out):
    return tuple(out)


def _c(o, memo, out, depth):
    t = type(o)
    if t in (int, str, bytes, bool, type(None), float):
        out.append((t.__name__, repr(o) if t is float else o))
        return
    if issubclass(t, (type, types.ModuleType)):
        out.append(('T', getattr(o, '__name__', '?')))
        return
    if issubclass(t, (types.BuiltinFunctionType,)):
        out.append(('bf', o.__name__))
        s = getattr(o, '__self__', None)
        if s is not None and not isinstance(s, types.ModuleType):
            _c(s, memo, out, depth + 1)
        return
    i = id(o)
    if i in memo:
        out.append(('ref', memo[i][0]))
        return
    memo[i] = (len(memo), o)
    if t in (list, tuple, collections.deque):
        out.append((t.__name__, len(o)))
        for x in o:
            _c(x, memo, out, depth + 1)
        return
    if t in (dict, collections.OrderedDict, collections.defaultdict):
        out.append((t.__name__, len(o)))
        for k, v in o.items():
            _c(k, memo, out, depth + 1)
            _c(v, memo, out, depth + 1)
        return
    if t in (set, frozenset):
        # order-free: canonicalise members independently, then sort
        out.append((t.__name__, len(o)))
        subs = []
        for x in o:
            sub = []
            _c(x, dict(memo), sub, depth + 1)
            subs.append((repr(sub), sub))
        for _, s in sorted(subs, key=lambda z: z[0]):
            out.extend(s)
        return
    m = getattr(t, '__mc_canon__', None)
    if m is not None:
        out.append(m(o))
        return
    if issubclass(t, types.FunctionType):
        out.append(('F', o.__qualname__))
        for c in o.__closure__ or ():
            try:
                _c(c.cell_contents, memo, out, depth + 1)
            except ValueError:
                out.append('emptycell')
        return
    if issubclass(t, types.MethodType):
        out.append(('M', o.__func__.__qualname__))
        _c(o.__self__, memo, out, depth + 1)
        return
    if issubclass(t, weakref.ref):
        out.append('wr')
        return
    if issubclass(t, (types.GeneratorType,)):
        out.append(('gen', o.gi_frame.f_lasti if o.gi_frame else -1))
        if o.gi_frame:
            for k, v in o.gi_frame.f_locals.items():
                out.append(k)
                _c(v, memo, out, depth + 1)
        return
    out.append(('O', t.__module__, t.__qualname__))
    if issubclass(t, (list, tuple, collections.deque)):
        for x in t.__mro__:
            if x in (list, tuple, collections.deque):
                for y in x.__iter__(o):
                    _c(y, memo, out, depth + 1)
                break
    elif issubclass(t, dict):
        for k in dict.__iter__(o):
            _c(k, memo, out, depth + 1)
            _c(dict.__getitem__(o, k), memo, out, depth + 1)
    elif issubclass(t, (set, frozenset)):
        b = set if issubclass(t, set) else frozenset
        subs = []
        for x in b.__iter__(o):
            sub = []
            _c(x, dict(memo), sub, depth + 1)
            subs.append((repr(sub), sub))
        for _, s in sorted(subs, key=lambda z: z[0]):
            out.extend(s)
    found = False
    try:
        d = object.__getattribute__(o, '__dict__')
    except AttributeError:
        d = None
    if d is not None:
        found = True
        for k in d:
            out.append(k)
            _c(d[k], memo, out, depth + 1)
    for c in t.__mro__:
        sl = c.__dict__.get('__slots__', ())
        if isinstance(sl, str):
            sl = (sl,)
        for s in sl:
            if s in ('__dict__', '__weakref__'):
                continue
            n = s
            if s.startswith('__') and not s.endswith('__'):
                n = '_%s%s' % (c.__name__.lstrip('_'), s)
            try:
                v = object.__getattribute__(o, n)
            except AttributeError:
                continue
            found = True
            out.append(n)
            _c(v, memo, out, depth + 1)
    if not found and not issubclass(t, (list, tuple, dict, set, frozenset, collections.deque)):
        try:
            out.append(repr(o) if ' at 0x' not in repr(o) else ('?', t.__qualname__))
        except Exception:
            out.append('?')
