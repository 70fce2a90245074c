"""
C41: every exception class of the package with small argument lists through str, repr, pickle, copy, raise and catch; lattices of coded exceptions.
"""
import copy
import itertools
import pickle
import queue
import sys
import types
import warnings

import satella.exceptions as exceptions
from mc.jobs import EnumJob
from mc.sched import require
from satella.exceptions import CustomException, CodedCustomException, BaseSatellaError

warnings.simplefilter('ignore')

# classes a user would derive, in a module of their own so that they can be pickled
user = types.ModuleType('verif_c41_user')
sys.modules['verif_c41_user'] = user
exec('''
from satella.exceptions import *
class Simple(CustomException):
    pass
class Outer:
    class Nested(CustomException):
        pass
class Required(CustomException):
    def __init__(self, a, b=2, **kwargs):
        super().__init__(a, b, **kwargs)
        self.a = a
class Mixed(BaseSatellaError, KeyError):
    pass
class MixedOS(BaseSatellaError, OSError):
    pass
class NoSuper(CustomException):
    def __init__(self, v):
        self.v = v
class Coded(CodedCustomException):
    code = 7
''', user.__dict__)
USER = ['Simple', 'Outer.Nested', 'Required', 'Mixed', 'MixedOS', 'NoSuper', 'Coded']

LIBRARY = ['CustomException', 'CodedCustomException', 'BaseSatellaError', 'BaseSatellaException', 'ResourceLockingError', 'ResourceLocked', 'ResourceNotLocked',
           'WouldWaitMore', 'PreconditionError', 'Empty', 'ConfigurationError', 'ConfigurationSchemaError', 'ConfigurationMisconfiguredError',
           'ConfigurationValidationError', 'MetricAlreadyExists', 'AlreadyAllocated', 'ProcessFailed', 'NotEnoughBytes']


def find(name):
    if name in USER:
        o = user
        for part in name.split('.'):
            o = getattr(o, part)
        return o
    return getattr(exceptions, name)


VALUES = ['m', 0, 1, None, b'out', ('t', 1)]
KWARGS = [{}, {'label': 'value'}, {'k': 1, 'z': None}, {'z': 2, 'hint': 'first'}]


def make(cls, name, args, kwargs):
    """None if the class does not take these"""
    n = len(args)
    if name == 'ProcessFailed':
        return cls(*args) if n == 2 and not kwargs else None
    if name == 'MetricAlreadyExists':
        return cls(*args) if n == 4 and not kwargs else None
    if name == 'ConfigurationValidationError':
        return cls(*args, **kwargs) if 1 <= n <= 2 else None
    if name == 'NoSuper':
        return cls(*args) if n == 1 and not kwargs else None
    if name == 'Required':
        return cls(*args, **kwargs) if 1 <= n <= 2 else None
    return cls(*args, **kwargs)


def stated(name, args):
    """what args should be"""
    if name in ('CodedCustomException', 'Coded'):
        return tuple(args) + ('', None)[len(args):]
    if name == 'ConfigurationValidationError' and len(args) == 1:
        return args + (None,)
    if name == 'Required' and len(args) == 1:
        return args + (2,)
    return args


def attributes(e):
    return {k: v for k, v in e.__dict__.items() if not k.startswith('_')}


def check_exception(case):
    name, args, kwargs = case
    cls = find(name)
    try:
        e = make(cls, name, args, kwargs)
    except TypeError as f:
        require(False, '%s%s: %s', name, args, f)
    if e is None:
        return 'not applicable'
    require(e.args == stated(name, args), 'args of %s(%s) are %s', name, args, e.args)
    require(e.kwargs == kwargs if hasattr(e, 'kwargs') or name == 'CustomException' else True, 'kwargs of %s are %s', name, getattr(e, 'kwargs', None))
    # text
    items = [repr(a) for a in stated(name, args)] + ['%s=%r' % kv for kv in kwargs.items()]
    short = '%s(%s)' % (name.split('.')[-1], ', '.join(items))
    if name != 'ProcessFailed':
        require(str(e) == short, 'str is %s, should be %s', str(e), short)
    long = '%s.%s(%s)' % (cls.__module__, name, ', '.join(items))
    require(repr(e) == long, 'repr is %s, should be %s', repr(e), long)
    import satella
    back = eval(repr(e), {'satella': satella, 'verif_c41_user': user})
    require(type(back) is cls and back.args == e.args and attributes(back) == attributes(e), 'repr does not stand for the exception: %s', repr(back))
    # catching
    for base in cls.__mro__[:-2]:
        if not issubclass(base, BaseException):
            continue
        try:
            raise e
        except base as f:
            require(f is e, 'caught something else')
    # transport
    for how in ['copy', 'deepcopy'] + list(range(pickle.HIGHEST_PROTOCOL + 1)):
        try:
            f = copy.copy(e) if how == 'copy' else copy.deepcopy(e) if how == 'deepcopy' else pickle.loads(pickle.dumps(e, how))
        except Exception as err:
            require(False, '%s does not survive %s: %s', repr(e), how, err)
        require(type(f) is cls and f.args == e.args and f.__dict__ == e.__dict__ and str(f) == str(e) and repr(f) == repr(e),
                '%s comes as %s out of %s', repr(e), repr(f), how)


def exception_cases(values, n):
    for name in LIBRARY + USER:
        lens = {'ProcessFailed': (2,), 'MetricAlreadyExists': (4,), 'NoSuper': (1,), 'ConfigurationValidationError': (1, 2), 'Required': (1, 2)}.get(name, range(n + 1))
        for k in lens:
            for args in itertools.product(values if k < 4 else ('m', 1), repeat=k):
                for kw in KWARGS:
                    if name in ('MixedOS', 'WouldWaitMore') and kw:
                        continue        # OSError itself takes no keywords
                    yield name, args, kw


# attributes and ancestry given in the documentation
BASES = {'BaseSatellaError': [CustomException, Exception], 'ResourceLockingError': [BaseSatellaError], 'ResourceLocked': [exceptions.ResourceLockingError],
         'ResourceNotLocked': [exceptions.ResourceLockingError], 'WouldWaitMore': [exceptions.ResourceLockingError, TimeoutError],
         'PreconditionError': [BaseSatellaError, ValueError], 'Empty': [BaseSatellaError, queue.Empty], 'ConfigurationError': [BaseSatellaError],
         'ConfigurationSchemaError': [exceptions.ConfigurationError], 'ConfigurationMisconfiguredError': [exceptions.ConfigurationError],
         'ConfigurationValidationError': [exceptions.ConfigurationSchemaError], 'MetricAlreadyExists': [BaseSatellaError],
         'AlreadyAllocated': [exceptions.ResourceLocked], 'ProcessFailed': [BaseSatellaError, OSError], 'NotEnoughBytes': [BaseSatellaError],
         'CodedCustomException': [CustomException], 'ImpossibleError': [BaseException]}


def check_bases(case):
    name, = case
    for b in BASES[name]:
        require(issubclass(getattr(exceptions, name), b), '%s is not a %s', name, b)
    if name == 'ImpossibleError':
        require(not issubclass(exceptions.ImpossibleError, Exception), 'ImpossibleError can be caught as an Exception')


def check_attributes(case):
    rc, out = case
    e = exceptions.ProcessFailed(rc, out)
    require((e.rc, e.stdout_so_far) == (rc, out), 'attributes of ProcessFailed')
    e = exceptions.MetricAlreadyExists('m', 'name', rc, out)
    require((e.name, e.requested_type, e.existing_type) == ('name', rc, out), 'attributes of MetricAlreadyExists')
    e = exceptions.ConfigurationValidationError('m', out)
    require(e.value == out, 'value of ConfigurationValidationError')
    e = CodedCustomException('m', rc)
    require(e.message == 'm' and e.code == rc, 'code is %s', e.code)
    require(user.Coded('m').code == 7 and user.Coded('m', rc).code == rc, 'code')


# ------------------------------------------------------------------ coded exceptions
def lattice(codes, mixins):
    class R1(CodedCustomException):
        pass

    class R2(CodedCustomException):
        pass

    def derive(name, bases, code):
        return type(CodedCustomException)(name, bases, {} if code is None else {'code': code})
    mixed = (ValueError,) if mixins else ()
    A = derive('A', (R1,) + mixed, codes[0])
    B = derive('B', (R1,), codes[1])
    AA = derive('AA', (A,), codes[2])
    C = derive('C', (R2,) + mixed, codes[3])
    CC = derive('CC', (C,), codes[4])
    M = derive('M', (AA, CC), None)        # of both hierarchies
    classes = [R1, R2, A, B, AA, C, CC, M]
    roots = {R1: {R1}, A: {R1}, B: {R1}, AA: {R1}, R2: {R2}, C: {R2}, CC: {R2}, M: {R1, R2}}
    return classes, roots


def check_coded(case):
    codes, mixins = case
    classes, roots = lattice(codes, mixins)

    def class_code(cls):
        for c in cls.__mro__:
            if c is CodedCustomException:
                return None
            if 'code' in c.__dict__:
                return c.__dict__['code']
    for cls in classes:
        for code in (None, 2, 3):
            for assign in (False, True):
                if code is None:
                    e, effective = cls('message'), class_code(cls)
                elif assign:
                    e, effective = cls('message'), code
                    e.code = code
                else:
                    e, effective = cls('message', code), code
                require(isinstance(e, CodedCustomException) and isinstance(e, CustomException), 'not a coded exception')
                for other in classes:
                    want = other in cls.__mro__ or not roots[other].isdisjoint(roots[cls]) and effective is not None and class_code(other) == effective
                    got = isinstance(e, other)
                    require(got is want, 'instance of %s with code %s, instance of %s with code %s: %s', cls.__name__, effective, other.__name__, class_code(other), got)
                try:
                    raise e
                except cls as f:
                    require(f is e, 'caught another')
    for other in classes:
        require(not isinstance(5, other) and not isinstance(ValueError('m'), other), 'unrelated objects')


def jobs(tier):
    deep = tier == 'thorough'
    return [
        EnumJob('exceptions', lambda: exception_cases(VALUES if deep else VALUES[:4] + [('t', 1)], 3 if deep else 2), check_exception, shards=8),
        EnumJob('ancestry', lambda: ((n,) for n in BASES), check_bases),
        EnumJob('attributes', lambda: itertools.product((0, 1, -9, 'c'), ('', 'text', b'bytes', None)), check_attributes),
        EnumJob('coded', lambda: itertools.product(itertools.product((None, 2, 3), repeat=5), (False, True)), check_coded, shards=4),
    ]
