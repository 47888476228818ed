"""Plain-data values for test cases: every case is built from Python data that
can be written to a replay file and rebuilt without Hypothesis.

`V(kind, *args)` stands for a value that plain data cannot express; `build`
turns a case into the real objects, with `env` supplying classes/instances.
"""
import base64
import datetime
import decimal
import fractions
import json
import math
import uuid

try:
    import numpy as np
except ImportError:         # see envchild.py
    np = None


class V(object):
    """A tagged value: kind and plain arguments"""
    __slots__ = ('kind', 'args')

    def __init__(self, kind, *args):
        self.kind = kind
        self.args = tuple(args)

    def __repr__(self):
        return 'V(%s)' % ', '.join([repr(self.kind)] + [repr(a) for a in self.args])

    def __eq__(self, other):
        return isinstance(other, V) and repr(self) == repr(other)

    def __hash__(self):
        return hash(repr(self))


def encode(val):
    """Case -> JSON-compatible data"""
    if val is None or isinstance(val, (bool, str)):
        return val
    if isinstance(val, int):
        return val if abs(val) < 2 ** 53 else {'$': 'int', 'v': str(val)}
    if isinstance(val, float):
        if math.isnan(val) or math.isinf(val) or True:
            return {'$': 'float', 'v': repr(val)}
    if isinstance(val, complex):
        return {'$': 'complex', 'v': [repr(val.real), repr(val.imag)]}
    if isinstance(val, bytes):
        return {'$': 'bytes', 'v': base64.b64encode(val).decode()}
    if isinstance(val, list):
        return [encode(v) for v in val]
    if isinstance(val, tuple):
        return {'$': 'tuple', 'v': [encode(v) for v in val]}
    if isinstance(val, (set, frozenset)):
        return {'$': 'set', 'v': [encode(v) for v in sorted(val, key=repr)]}
    if isinstance(val, dict):
        return {'$': 'dict', 'v': [[encode(k), encode(v)] for k, v in val.items()]}
    if isinstance(val, V):
        return {'$': 'V', 'k': val.kind, 'v': [encode(a) for a in val.args]}
    if isinstance(val, datetime.datetime):
        return {'$': 'V', 'k': 'datetime', 'v': list(val.timetuple()[:6]) + [val.microsecond]}
    raise TypeError('cannot encode %r' % (val,))


def decode(val):
    """Inverse of encode"""
    if isinstance(val, list):
        return [decode(v) for v in val]
    if not isinstance(val, dict):
        return val
    tag = val['$']
    v = val.get('v')
    if tag == 'int':
        return int(v)
    if tag == 'float':
        return float(v)
    if tag == 'complex':
        return complex(float(v[0]), float(v[1]))
    if tag == 'bytes':
        return base64.b64decode(v)
    if tag == 'tuple':
        return tuple(decode(x) for x in v)
    if tag == 'set':
        return set(decode(x) for x in v)
    if tag == 'dict':
        return {decode(k): decode(x) for k, x in v}
    if tag == 'V':
        return V(val['k'], *[decode(x) for x in v])
    raise TypeError('cannot decode %r' % (val,))


class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyStr(str):
    pass


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MySet(set):
    pass


class MyDict(dict):
    pass


class Opaque(object):
    """An object that is no value of any property"""
    def __repr__(self):
        return '<Opaque>'


class Truthless(object):
    """An object whose truth value is False"""
    def __bool__(self):
        return False

    def __repr__(self):
        return '<Truthless>'


SUBCLASSES = {
    'MyInt': MyInt, 'MyFloat': MyFloat, 'MyStr': MyStr, 'MyList': MyList,
    'MyTuple': MyTuple, 'MySet': MySet, 'MyDict': MyDict,
}


def build(val, env=None):
    """Case value -> fresh real Python object"""
    if isinstance(val, V):
        kind, args = val.kind, val.args
        if env and kind in env:
            return env[kind](*args)
        if kind == 'np':            # V('np', 'int32', 5)
            return np.dtype(args[0]).type(build(args[1], env))
        if kind == 'nparray':       # V('nparray', 'float64', [[...]])
            return np.array(build(args[1], env), dtype=args[0])
        if kind == 'npshape':       # V('npshape', 'float64', (0, 3), start)
            count = int(np.prod(args[1])) if args[1] else 1
            flat = np.arange(count) * args[2] + args[3]
            return flat.astype(args[0]).reshape(args[1])
        if kind == 'decimal':
            return decimal.Decimal(args[0])
        if kind == 'fraction':
            return fractions.Fraction(args[0], args[1])
        if kind == 'datetime':
            return datetime.datetime(*args)
        if kind == 'tzdatetime':
            return datetime.datetime(*args, tzinfo=datetime.timezone.utc)
        if kind == 'zoned':         # V('zoned', minutes from UTC, year, month, ...)
            return datetime.datetime(*args[1:], tzinfo=datetime.timezone(
                datetime.timedelta(minutes=args[0])))
        if kind == 'date':
            return datetime.date(*args)
        if kind == 'uuid':
            return uuid.UUID(int=args[0])
        if kind == 'opaque':
            return Opaque()
        if kind == 'truthless':
            return Truthless()
        if kind == 'range':
            return range(*args)
        if kind == 'frozenset':
            return frozenset(build(a, env) for a in args[0])
        if kind == 'sub':           # V('sub', 'MyList', [...])
            return SUBCLASSES[args[0]](build(args[1], env))
        raise TypeError('unknown kind %r' % (kind,))
    if isinstance(val, list):
        return [build(v, env) for v in val]
    if type(val) is tuple:
        return tuple(build(v, env) for v in val)
    if isinstance(val, set):
        return set(build(v, env) for v in val)
    if isinstance(val, dict):
        return {build(k, env): build(v, env) for k, v in val.items()}
    return val


def dumps(case):
    return json.dumps(encode(case), indent=1, sort_keys=True)


def loads(text):
    return decode(json.loads(text))


def show(val, limit=400):
    """Short repr for messages and samples"""
    text = repr(val)
    if len(text) > limit:
        text = text[:limit // 2] + ' ... ' + text[-limit // 2:]
    return text
