"""
C23: configuration schemas against a recursive reference evaluator; every schema object validates every short sequence of
values, so that a verdict that depends on history shows; the declarative form of a schema is decided next to the built one.
"""
import itertools
import math
import os
import re
import shutil
import tempfile

from mc.jobs import EnumJob
from mc.sched import require, Violation
from satella.coding.structures import DictObject
from satella.configuration.schema import Boolean, Integer, Float, String, IPv4, List, Dict, Union, Caster, Descriptor, Regexp, \
    File, Directory, FileContents, FileObject, DirectoryObject, create_key, descriptor_from_dict, CheckerCondition, \
    register_custom_descriptor
from satella.configuration.schema.base import must_be_type, must_be_one_of
from satella.exceptions import ConfigurationValidationError, ConfigurationSchemaError


class Bad(Exception):
    pass


@register_custom_descriptor('verif_word')
class Word(Regexp):
    REGEXP = r'[a-z]+$'


@register_custom_descriptor('verif_head')
class WordHead(Regexp):
    REGEXP = r'(x|tr)(u?)'


class WordCompiled(Regexp):
    REGEXP = re.compile(r'[a-z]+$')


# a spec is: a name, or ('list', spec|None), ('union', specs), ('dict', ((key, spec, optional, default), ...)), ('cast', f),
# ('checked', spec, which)
def octet(s):
    return s.isascii() and s.isdigit() and len(s) <= 3 and int(s) <= 255


def ref(spec, v):
    if isinstance(spec, str):
        if spec == 'any':
            return v
        if spec == 'bool':
            if isinstance(v, str):
                if v.upper() in ('TRUE', 'FALSE'):
                    return v.upper() == 'TRUE'
                raise Bad()
            return bool(v)
        try:
            if spec == 'int':
                return int(v)
            if spec == 'float':
                return float(v)
        except (TypeError, ValueError, OverflowError):
            raise Bad()
        if spec == 'str':
            return str(v)
        if spec == 'ipv4':
            s = str(v)
            p = s.split('.')
            if len(p) != 4 or not all(octet(x) for x in p):
                raise Bad()
            return s
        if spec in ('verif_word', 'word_compiled'):
            s = str(v)
            if re.fullmatch('[a-z]+\n?', s) is None:
                raise Bad()
            return s.rstrip('\n')
        if spec == 'verif_head':
            for head in ('x', 'tr'):
                if str(v).startswith(head):
                    return head + 'u' * str(v).startswith(head + 'u')
            raise Bad()
    k = spec[0]
    if k == 'list':
        if not isinstance(v, (list, tuple)):
            raise Bad()
        return [ref(spec[1] or 'any', x) for x in v]
    if k == 'union':
        for s in spec[1]:
            try:
                return ref(s, v)
            except Bad:
                pass
        raise Bad()
    if k == 'dict':
        if not isinstance(v, dict):
            raise Bad()
        out = {}
        for name, s, opt, default in spec[1]:
            if name in v:
                out[name] = ref(s, v[name])
            elif opt:
                out[name] = default
            else:
                raise Bad()
        for x in v:
            if x not in out:
                out[x] = v[x]
        return out
    if k == 'cast':
        try:
            return spec[1](v)
        except (ValueError, TypeError, OverflowError):
            raise Bad()
    if k == 'checked':
        if spec[2] == 'type':
            if not isinstance(v, (int, str)):
                raise Bad()
        elif spec[2] == 'short' and len(repr(v)) > 4:
            raise Bad()
        r = ref(spec[1], v)
        if spec[2] == 'oneof' and r not in (5, 0, 'x', True):
            raise Bad()
        if spec[2] == 'both' and (r in (5,) or len(repr(r)) > 3):
            raise Bad()
        return r
    raise AssertionError(spec)


SIMPLE = {'bool': Boolean, 'int': Integer, 'float': Float, 'str': String, 'ipv4': IPv4, 'any': Descriptor, 'verif_word': Word,
          'word_compiled': WordCompiled, 'verif_head': WordHead}


def build(spec):
    if isinstance(spec, str):
        return SIMPLE[spec]()
    k = spec[0]
    if k == 'list':
        return List() if spec[1] is None else List(build(spec[1]))
    if k == 'union':
        return Union(*map(build, spec[1]))
    if k == 'dict':
        return Dict([create_key(build(s), n, o, d) for n, s, o, d in spec[1]])
    if k == 'cast':
        return Caster(spec[1])
    d = build(spec[1])
    if spec[2] == 'type':
        d.add_checker(must_be_type(int, str))
    elif spec[2] == 'oneof':
        d.add_checker(must_be_one_of(5, 0, 'x', True))
    elif spec[2] == 'short':
        d.add_checker(CheckerCondition(lambda v: len(repr(v)) <= 4, 'too long'))
    else:
        d.add_checker(CheckerCondition(lambda v: v not in (5,), 'five', is_pre_checker=False))
        d.add_checker(CheckerCondition(lambda v: len(repr(v)) <= 3, 'long', is_pre_checker=False))
    return d


def declarative(spec, long=False):
    """-> JSON-like form, or None if it has none"""
    if isinstance(spec, str):
        if spec == 'word_compiled':
            return None
        return {'type': spec} if long else spec
    k = spec[0]
    if k == 'list':
        if spec[1] is None:
            return {'type': 'list'}
        of = declarative(spec[1], long)
        return None if of is None else {'type': 'list', 'of': of}
    if k == 'union':
        of = [declarative(s, long) for s in spec[1]]
        return None if None in of else {'type': 'union', 'of': of}
    if k == 'dict':
        out = {}
        for n, s, o, d in spec[1]:
            if o:
                x = declarative(s, True)
                if x is None or 'type' not in x:
                    return None
                x = dict(x, default=d) if d is not None else dict(x, optional=True)
            else:
                x = declarative(s, long)
                if x is None:
                    return None
            out[n] = x
        return out
    if k == 'cast' and spec[1] in (int, float, str):
        return {'type': 'caster', 'cast_to': spec[1].__name__}
    return None


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


SCALARS = [None, True, 0, 5, -1, 2.7, float('inf'), '', '5', '5.5', ' 7 ', 'x', 'xY', 'true', 'FALSE', 'trues', 'false ', '10.0.0.1', '10.0.0.1.2',
           '256.1.1.1', '1.2.3', '1.2.3.4 ', '1.2.3.4\n', ' 1.2.3.4', '1.2.3.1234', '255.255.255.255', b'ab', '1e5', 'inf', '-3', 'x u', ' x']
STRUCTS = [[], [None], [1, None], [1, '2'], ['x'], (5, 0), [[1], [2]], {}, {'a': 1}, {'a': 'x'}, {'b': 2}, {'a': '3', 'b': 'x', 'c': []}, {'a': {'b': '7'}},
           {'a': ['1', 2]}, [{'a': 1}], {'a': None}]
VALUES = SCALARS + STRUCTS
LEAVES = list(SIMPLE)


def dicts(s):
    yield ('dict', (('a', s, False, None),))
    yield ('dict', (('a', s, True, 9), ('b', 'int', True, None)))
    yield ('dict', (('b', s, False, None), ('a', 'any', True, None)))
    for d in (0, '', False):
        yield ('dict', (('a', s, True, d),))


def specs(depth):
    for s in LEAVES:
        yield s
    yield ('list', None)
    for f in (int, float, str):
        yield ('cast', f)
    for s in LEAVES[:-1]:     # what is checked after conversion is, for a pattern, the whole text
        for w in ('type', 'oneof', 'short', 'both'):
            yield ('checked', s, w)
    for s in LEAVES + [('cast', int), ('checked', 'int', 'both'), ('checked', 'str', 'short')]:
        yield ('list', s)
        yield from dicts(s)
    for a, b in itertools.permutations(['int', 'bool', 'ipv4', 'verif_word', ('list', 'int'), ('cast', int), ('cast', float),
                                        ('dict', (('a', 'int', False, None),)), ('checked', 'str', 'oneof')], 2):
        yield ('union', (a, b))
    inner = [('list', 'int'), ('union', ('int', 'verif_word')), ('dict', (('b', 'int', True, 4),)), ('list', ('list', 'int'))]
    for s in inner:
        yield ('list', s)
        yield from dicts(s)
    if depth > 1:
        for s in inner:
            for t in inner:
                yield ('union', (s, t))
                yield ('dict', (('a', s, True, 1), ('b', t, True, 2)))
                yield ('list', ('union', (s, t)))


def verdict(d, v):
    import copy
    before = copy.deepcopy(v)
    try:
        r = d(v)
    except ConfigurationValidationError:
        r = Bad
    require(same(v, before), 'validating changed the value %r to %r', before, v)
    return r


def expected(spec, v):
    try:
        return ref(spec, v)
    except Bad:
        return Bad


def agree(d, spec, v, what):
    got, want = verdict(d, v), expected(spec, v)
    require((got is Bad) == (want is Bad), '%s %s of %r: %s, expected %s', what, spec, v, 'refused' if got is Bad else 'accepted %r' % (got,),
            'refused' if want is Bad else want)
    if want is not Bad:
        require(same(got, want), '%s %s of %r gave %r, expected %r', what, spec, v, got, want)


def forms(spec):
    out = [('built', build(spec), spec, lambda v: v)]
    for long in (False, True):
        dcl = declarative(spec, long)
        if dcl is None:
            continue
        if isinstance(spec, tuple) and spec[0] == 'dict':
            out.append(('declared', descriptor_from_dict(dcl), spec, lambda v: v))
        else:
            out.append(('declared', descriptor_from_dict({'k': dcl}), ('dict', (('k', spec, False, None),)), lambda v: {'k': v}))
    return out


def pair_cases(q):
    for spec in specs(1 if q else 2):
        yield spec


def pair_check(spec):
    n = 0
    pick = VALUES
    for what, d, s, wrap in forms(spec):
        for v in pick:
            agree(d, s, wrap(v), what)
        if s[0] == 'dict':
            dcl = declarative(s)
            for v in pick:
                v = wrap(v)
                if not isinstance(v, dict) or not all(isinstance(k, str) for k in v):
                    continue
                o, want = DictObject(v), expected(s, v) is not Bad
                require(o.is_valid_schema(d) is want, '%s: is_valid_schema of %s, should be %s', s, v, want)
                if dcl:
                    require(o.is_valid_schema(dcl) is want, '%s: is_valid_schema of %s, should be %s', dcl, v, want)
                    if all(k.isidentifier() and k != 'schema' for k in dcl):
                        require(o.is_valid_schema(**dcl) is want, '%s: is_valid_schema of %s, should be %s', dcl, v, want)
                require(o == v and type(o) is DictObject, 'is_valid_schema changed its object')
        # one object, values in an order that puts every ordered pair next to each other
        for i, a in enumerate(pick):
            for b in pick[i % 3::3]:
                agree(d, s, wrap(a), what)
                agree(d, s, wrap(b), what)
                n += 1
        # fresh objects: first a refused, then any
    bad = [v for v in pick if expected(spec, v) is Bad][:4]
    good = [v for v in pick if expected(spec, v) is not Bad][:4]
    for a, b, c in itertools.product(bad + good, repeat=3):
        d = build(spec)
        for v in (a, b, c):
            agree(d, spec, v, 'fresh')
        n += 1
    return n


# ------------------------------------------------------------------ files
def file_cases():
    for kind in ('file', 'dir', 'file_contents'):
        for order in itertools.permutations(range(4), 3):
            yield kind, order


def file_check(case):
    kind, order = case
    base = tempfile.mkdtemp(prefix='verif-c23-')
    try:
        f, d = os.path.join(base, 'f'), os.path.join(base, 'd')
        with open(f, 'wb') as fo:
            fo.write(b' ab\xc3\xa9\r\n')
        os.mkdir(d)
        paths = [f, d, os.path.join(base, 'missing'), None]
        schemas = [SIMPLE_FILES[kind](), descriptor_from_dict({'k': kind})]
        for i in order:
            p = paths[i]
            ok = i == (1 if kind == 'dir' else 0)
            for j, s in enumerate(schemas):
                got = verdict(s, p if j == 0 else {'k': p})
                require((got is not Bad) == ok, '%s of path %d: %s', kind, i, got)
                if ok:
                    got = got if j == 0 else got['k']
                    if kind == 'file':
                        require(isinstance(got, FileObject) and str(got) == p and got == FileObject(p) and got != FileObject(p + 'x') and
                                got != p and got != DirectoryObject(p) and DirectoryObject(p) != got and
                                hash(got) == hash(FileObject(p)), 'file object')
                        require(got.get_value() == b' ab\xc3\xa9\r\n' and got.get_value('utf-8') == ' ab\xe9\r\n', 'contents')
                        with got.open('rb') as fo:
                            require(fo.read() == b' ab\xc3\xa9\r\n', 'opened')
                    elif kind == 'dir':
                        require(isinstance(got, DirectoryObject) and got == DirectoryObject(p) and list(got.get_files()) == [], 'dir')
                    else:
                        require(got == b' ab\xc3\xa9\r\n', 'contents %r', got)
        if kind == 'file_contents':
            for enc, strip, want in ((None, True, b'ab\xc3\xa9'), ('utf-8', False, ' ab\xe9\r\n'), ('utf-8', True, 'ab\xe9'),
                                     ('ascii', False, Bad)):
                require(verdict(FileContents(enc, strip), f) == want, 'contents %s %s', enc, strip)
                dd = {'type': 'file_contents', 'strip_afterwards': strip}
                if enc:
                    dd['encoding'] = enc
                got = verdict(descriptor_from_dict({'k': dd}), {'k': f})
                require(got == (want if want is Bad else {'k': want}), 'declared contents %s', got)
            u = Union(FileContents(), String())
            require(verdict(u, os.path.join(base, 'missing')) == os.path.join(base, 'missing'), 'union of a missing file')
    finally:
        shutil.rmtree(base)


SIMPLE_FILES = {'file': File, 'dir': Directory, 'file_contents': FileContents}


def bad_schemas():
    return [{'a': 'nosuch'}, {'a': {'type': 'nosuch'}}, {'a': 5}, {'a': None}, {'a': {'type': 'list', 'of': 'nosuch'}},
            {'a': {'b': 'nosuch'}}, {'a': {'type': 'union', 'of': ['int', 'nosuch']}}]


def bad_schema_check(case):
    try:
        descriptor_from_dict(case)
    except ConfigurationSchemaError:
        return
    raise Violation('schema %r accepted' % (case,))


def misc_cases():
    return ['shared', 'mapper', 'types', 'expr', 'fq', 'default']


def misc_check(case):
    if case == 'shared':        # one descriptor serving several keys
        for base, good, bad in (Integer(), '1', 'q'), (List(Integer()), ['1'], ['q']), (Union(Integer(), Boolean()), '1', 'q'):
            want = base(good)
            keys = [create_key(base, 'a'), create_key(base, 'b', True, 7), create_key(base, 'c', True)]
            for d in (Dict(keys), Dict([create_key(base, 'a'), create_key(base, 'b', True, 7), create_key(base, 'c', True)])):
                require(d({'a': good}) == {'a': want, 'b': 7, 'c': None}, 'shared descriptor: %s', d({'a': good}))
                require(d({'a': good, 'b': good, 'c': good}) == {'a': want, 'b': want, 'c': want}, 'shared descriptor')
                require(d({'a': good, 'c': good}) == {'a': want, 'b': 7, 'c': want}, 'shared descriptor')
                for v in ({}, {'b': good}, {'c': good}, {'a': bad}, {'a': good, 'b': bad}, {'a': good, 'c': bad}):
                    require(verdict(d, v) is Bad, 'shared descriptor: %s accepted', v)
            require(base(good) == want and verdict(base, bad) is Bad, 'the descriptor itself')
    elif case == 'mapper':
        d = Dict([create_key(Integer(), 'a')], unknown_key_mapper=lambda k, v: (k, v))
        for _ in range(2):
            require(d({'a': '1', 'z': 2, 'y': 3}) == {'a': 1, 'z': ('z', 2), 'y': ('y', 3)}, 'mapper')
            require(verdict(d, {'z': 1}) is Bad, 'missing')
    elif case == 'types':
        d = descriptor_from_dict({'a': int, 'b': str, 'c': float, 'd': bool})
        require(d({'a': '1', 'b': 2, 'c': 3, 'd': 'true'}) == {'a': 1, 'b': '2', 'c': 3.0, 'd': True}, 'types')
    elif case == 'expr':
        d = descriptor_from_dict({'a': {'type': 'caster', 'cast_to': 'int', 'expr': 'y(x) + 1'}})
        require(d({'a': '4'}) == {'a': 5} and verdict(d, {'a': 'q'}) is Bad and d({'a': '4'}) == {'a': 5}, 'expr')
    elif case == 'fq':
        d = descriptor_from_dict({'a': {'type': 'caster', 'cast_to': 'decimal.Decimal'}})
        import decimal
        require(d({'a': '4'}) == {'a': decimal.Decimal(4)}, 'fq')
    elif case == 'default':
        d = descriptor_from_dict({'a': {'type': 'int', 'default': 5}, 'b': {'type': 'int', 'optional': True},
                                  'c': {'x': {'type': 'str', 'default': 'q'}}})
        require(d({'c': {}}) == {'a': 5, 'b': None, 'c': {'x': 'q'}}, 'defaults')
        require(verdict(d, {}) is Bad and verdict(d, {'a': 'x', 'c': {}}) is Bad, 'refusals')
        require(d({'c': {}, 'a': '1'}) == {'a': 1, 'b': None, 'c': {'x': 'q'}}, 'defaults again')


def jobs(tier):
    q = tier == 'quick'
    return [EnumJob('schemas', lambda: pair_cases(q), pair_check, shards=16), EnumJob('files', file_cases, file_check),
            EnumJob('bad-schemas', bad_schemas, bad_schema_check), EnumJob('misc', misc_cases, misc_check)]
