"""Reference model of the documented property types.

A property spec is a plain dict, e.g. {'t': 'Integer', 'min': 0}. `make`
builds the real property; `accept` says what assigning a value must do;
`json_of`, `equal` model serialization and equality. The model is written
from the documentation of each type and shares no code with the library.
"""
import datetime
import decimal
import fractions
import numbers
import re

try:
    import numpy as np
except ImportError:         # see envchild.py
    np = None
import properties

from .csscolors import CSS, LETTERS

TOL = 1e-9
BAD = ('bad',)
SKIP = ('skip',)


class Unclaimed(Exception):
    """The model does not say what must happen in this case"""


def ok(val):
    return ('ok', val)


class NewInst(object):
    """Expected: a new instance of class `index` with these values"""

    def __init__(self, index, values):
        self.index = index
        self.values = values

    def __repr__(self):
        return 'NewInst(%r, %r)' % (self.index, self.values)


class AnyColor(object):
    """Expected: some valid color"""
    def __repr__(self):
        return 'AnyColor'


class Env(object):
    """The HasProperties classes a spec may refer to.

    class_specs: list of dicts {'name': str, 'props': [(name, spec), ...],
    'base': index or None}; class i may only refer to classes < i.
    """

    def __init__(self, class_specs=(), body=None, base=None):
        self.specs = list(class_specs)
        self.classes = []
        self.body = body
        self.base = base or properties.HasProperties
        for spec in self.specs:
            self.classes.append(self._make_class(spec))

    def _make_class(self, spec):
        body = {name: make(pspec, self) for name, pspec in spec['props']}
        if self.body is not None:
            body.update(self.body(spec))
        base = self.base
        if spec.get('base') is not None:
            base = self.classes[spec['base']]
        return type(base)(str(spec['name']), (base,), body)

    def props(self, index):
        """All (name, spec) of a class, inherited first"""
        spec = self.specs[index]
        out = []
        if spec.get('base') is not None:
            out = self.props(spec['base'])
        own = dict(spec['props'])
        return [(n, s) for n, s in out if n not in own] + list(spec['props'])

    def make_inst(self, index, values):
        """V('inst', index, {name: value}) -> real instance"""
        from .values import build
        obj = self.classes[index]()
        for name, val in values.items():
            setattr(obj, name, build(val, self.builders()))
        return obj

    def builders(self):
        return {'inst': self.make_inst}

    def is_a(self, cls, index):
        return issubclass(cls, self.classes[index])


EMPTY = Env()


def make(spec, env=EMPTY):
    """Spec -> real property"""
    kind = spec['t']
    kwargs = {k: v for k, v in spec.items()
              if k in ('min', 'max', 'cast', 'strip', 'change_case', 'unicode',
                       'regex', 'case_sensitive', 'min_length', 'max_length',
                       'coerce', 'observe_mutations', 'required', 'length',
                       'default', 'strict_instances', 'remove_parameters',
                       'remove_fragment')}
    if 'default' in kwargs:
        from .values import build
        kwargs['default'] = build(kwargs['default'], env.builders())
    doc = spec.get('doc', '')
    if kind == 'StringChoice':
        choices = spec['choices']
        if isinstance(choices, dict):
            choices = {k: (list(v) if isinstance(v, list) else v)
                       for k, v in choices.items()}
        else:
            choices = list(choices)
        return properties.StringChoice(doc, choices, **kwargs)
    if kind in ('Tuple', 'List', 'Set'):
        if 'prop' in spec:
            kwargs['prop'] = make(spec['prop'], env)
        return getattr(properties, kind)(doc, **kwargs)
    if kind == 'Dictionary':
        for key in ('key_prop', 'value_prop'):
            if key in spec:
                kwargs[key] = make(spec[key], env)
        return properties.Dictionary(doc, **kwargs)
    if kind == 'Union':
        return properties.Union(doc, [make(s, env) for s in spec['props']], **kwargs)
    if kind == 'Instance':
        return properties.Instance(doc, env.classes[spec['cls']], **kwargs)
    if kind == 'Array':
        if 'dtype' in spec:
            types = {'int': int, 'float': float, 'bool': bool}
            dtype = tuple(types[d] for d in spec['dtype'])
            kwargs['dtype'] = dtype if len(dtype) > 1 else dtype[0]
        if 'shape' in spec:
            shape = spec['shape']
            kwargs['shape'] = set(shape) if isinstance(shape, list) else shape
        return properties.Array(doc, **kwargs)
    if kind == 'Any':
        return properties.Property(doc, **kwargs)
    if kind == 'URL':
        from properties.extras import URL
        return URL(doc, **kwargs)
    return getattr(properties, kind)(doc, **kwargs)


def is_number(val):
    return isinstance(val, (int, float, np.integer, np.floating, np.bool_,
                            fractions.Fraction))


def in_bounds(spec, val):
    low, high = spec.get('min'), spec.get('max')
    if low is not None and not val >= low:
        return False
    if high is not None and not val <= high:
        return False
    return True


def near_tolerance(diff):
    return 0.9e-9 < diff < 1.1e-9


def unclear(spec, val, func):
    """Other kinds of values: refused unless cast can convert them"""
    if spec.get('cast') or isinstance(val, np.ndarray):
        try:
            func(val)
            return SKIP
        except Exception:                                       # pylint: disable=broad-except
            pass
    return BAD


def accept_integer(spec, val):
    if isinstance(val, np.complexfloating) and (spec.get('cast') or val.imag == 0):
        return SKIP     # numpy lets these convert, with a warning
    if isinstance(val, (complex, np.complexfloating)):
        return BAD
    if spec.get('cast'):
        if not (is_number(val) or isinstance(val, (str, decimal.Decimal))):
            return unclear(spec, val, int)
        try:
            out = int(val)
        except (ValueError, OverflowError, TypeError):
            return BAD
        return ok(out) if in_bounds(spec, out) else BAD
    if isinstance(val, str) or not (
            is_number(val) or isinstance(val, decimal.Decimal)):
        return unclear(spec, val, int)
    try:
        out = int(val)
    except (ValueError, OverflowError):
        return BAD
    diff = abs(fractions.Fraction(val if not isinstance(val, np.generic)
                                  else val.item()) - out)
    if near_tolerance(diff):
        return SKIP
    if diff > TOL:
        return BAD
    return ok(out) if in_bounds(spec, out) else BAD


def accept_float(spec, val):
    if isinstance(val, np.complexfloating) and (spec.get('cast') or val.imag == 0):
        return SKIP     # numpy lets these convert, with a warning
    if isinstance(val, (complex, np.complexfloating)):
        return BAD
    if spec.get('cast'):
        if not (is_number(val) or isinstance(val, (str, decimal.Decimal))):
            return unclear(spec, val, float)
    elif not is_number(val):
        return unclear(spec, val, float)
    try:
        out = float(val)
    except (ValueError, OverflowError):
        return BAD
    return ok(out) if in_bounds(spec, out) else BAD


def accept_complex(spec, val):
    numeric = is_number(val) or isinstance(val, (complex, np.complexfloating))
    if not numeric and not (spec.get('cast') and isinstance(val, str)):
        return unclear(spec, val, complex)
    try:
        return ok(complex(val))
    except (ValueError, OverflowError):
        return BAD


def accept_boolean(spec, val):
    if spec.get('cast'):
        if isinstance(val, np.ndarray) and val.size != 1:
            return SKIP
        return ok(bool(val))
    if isinstance(val, (bool, np.bool_)):
        return ok(bool(val))
    return BAD


def coerce_text(spec, val):
    chars = spec.get('strip', '')
    val = str(val)
    val = val.strip(chars)
    if spec.get('change_case') == 'upper':
        val = val.upper().strip(chars)
    elif spec.get('change_case') == 'lower':
        val = val.lower().strip(chars)
    return val


def accept_string(spec, val):
    if not isinstance(val, str):
        return BAD
    if spec.get('regex') is not None and not re.search(spec['regex'], val):
        return BAD
    out = coerce_text(spec, val)
    if spec.get('unicode') is False and type(val) is not str:
        return ok(type(val)(out))
    return ok(out)


def accept_choice(spec, val):
    if not isinstance(val, str):
        return BAD
    choices = spec['choices']
    if not isinstance(choices, dict):
        choices = {c: [] for c in choices}
    fold = (lambda x: x) if spec.get('case_sensitive') else (lambda x: x.upper())
    for key, alts in choices.items():
        alts = alts if isinstance(alts, list) else [alts]
        if fold(val) in [fold(x) for x in [key] + alts]:
            return ok(key)
    return BAD


HEX = '0123456789abcdefABCDEF'


def accept_color(spec, val):
    if isinstance(val, str):
        if val in CSS:
            return ok(CSS[val])
        if val in LETTERS:
            return ok(LETTERS[val])
        if val.lower() == 'random':
            return ok(AnyColor())
        if val.lower() in CSS or val.lower() in LETTERS:
            return SKIP
        if val.startswith('##'):
            return SKIP
        if any(ord(c) > 127 and c.upper().isascii() for c in val):
            return SKIP
        body = val[1:] if val.startswith('#') else val
        if len(body) not in (3, 6) or any(c not in HEX for c in body):
            return BAD
        if len(body) == 3:
            return ok(tuple(int(c * 2, 16) for c in body))
        return ok(tuple(int(body[i:i + 2], 16) for i in (0, 2, 4)))
    if not isinstance(val, (list, tuple)):
        return BAD
    if len(val) != 3:
        return BAD
    if any(isinstance(v, (bool, np.generic)) for v in val):
        return SKIP
    if any(not isinstance(v, int) or not 0 <= v <= 255 for v in val):
        return BAD
    return ok(tuple(int(v) if type(v) is int else v for v in val))


DATE = re.compile(r'([0-9]{4})([-/])([0-9]{2})([-/])([0-9]{2})')
STAMP = re.compile(r'([0-9]{4})-([0-9]{2})-([0-9]{2})'
                   r'T([0-9]{2}):([0-9]{2}):([0-9]{2})Z')


def accept_datetime(spec, val):
    if isinstance(val, datetime.datetime):
        return ok(val)
    if not isinstance(val, str):
        return BAD
    match = DATE.fullmatch(val)
    if match:
        nums = [int(match.group(i)) for i in (1, 3, 5)]
    else:
        match = STAMP.fullmatch(val)
        if not match:
            # strptime also takes some unpadded forms; only clear junk is bad
            loose = re.fullmatch(r'[\d\s/:TZtz-]*', val)
            return SKIP if loose and any(c.isdigit() for c in val) else BAD
        nums = [int(g) for g in match.groups()]
    try:
        return ok(datetime.datetime(*nums))
    except ValueError:
        return BAD


CONTAINER = {'Tuple': tuple, 'List': list, 'Set': set}


def accept_sequence(spec, val, env):
    cls = CONTAINER[spec['t']]
    if not isinstance(val, cls):
        if not spec.get('coerce'):
            return BAD
        if not isinstance(val, (list, tuple, set, np.ndarray)):
            val = [val]
    out_cls = type(val) if isinstance(val, cls) else cls
    out = []
    skipped = False
    for item in val:
        res = accept(spec.get('prop', {'t': 'Any'}), item, env)
        if res is SKIP:
            skipped = True
        elif res is BAD:
            return BAD
        else:
            out.append(res[1])
    if skipped:
        return SKIP
    try:
        return ok(out_cls(out))
    except TypeError:
        return SKIP     # a set of unhashable values is not claimed


def accept_dict(spec, val, env):
    if spec.get('coerce'):
        if not isinstance(val, dict):
            try:
                val = dict(val)
            except (TypeError, ValueError):
                return BAD
        else:
            val = dict(val)
    if not isinstance(val, dict):
        return BAD
    out = type(val)()
    skipped = False
    for key, item in val.items():
        res = accept(spec.get('key_prop', {'t': 'Any'}), key, env)
        res2 = accept(spec.get('value_prop', {'t': 'Any'}), item, env)
        if res is BAD or res2 is BAD:
            return BAD
        if res is SKIP or res2 is SKIP:
            skipped = True
            continue
        out[res[1]] = res2[1]
    return SKIP if skipped else ok(out)


def accept_union(spec, val, env):
    for sub in spec['props']:
        res = accept(sub, val, env)
        if res is SKIP:
            return SKIP
        if res is not BAD:
            return res
    return BAD


def accept_instance(spec, val, env):
    cls = env.classes[spec['cls']]
    if isinstance(val, cls):
        return ok(val)
    if isinstance(val, NewInst):
        return ok(val) if env.is_a(env.classes[val.index], spec['cls']) else BAD
    if not isinstance(val, dict):
        return BAD
    known = dict(env.props(spec['cls']))
    values = {}
    skipped = False
    for key, item in val.items():
        if not isinstance(key, str) or key not in known:
            return BAD
        if item is properties.undefined:
            continue
        res = accept(known[key], item, env)
        if res is BAD:
            return BAD
        if res is SKIP:
            skipped = True
        else:
            values[key] = res[1]
    return SKIP if skipped else ok(NewInst(spec['cls'], values))


def accept_any(spec, val, env):
    return ok(val)


SIMPLE = {
    'Integer': accept_integer, 'Float': accept_float, 'Complex': accept_complex,
    'Boolean': accept_boolean, 'Bool': accept_boolean,
    'String': accept_string, 'StringChoice': accept_choice,
    'Color': accept_color, 'DateTime': accept_datetime,
}
NESTED = {
    'Tuple': accept_sequence, 'List': accept_sequence, 'Set': accept_sequence,
    'Dictionary': accept_dict, 'Union': accept_union,
    'Instance': accept_instance, 'Any': accept_any,
}


def accept(spec, val, env=EMPTY):
    """What assigning val must do: ok(stored value), BAD or SKIP"""
    if spec['t'] in SIMPLE:
        return SIMPLE[spec['t']](spec, val)
    return NESTED[spec['t']](spec, val, env)


def has_json_keys(spec):
    """Can all keys of dictionaries in values of this spec be JSON keys?"""
    if spec['t'] == 'Dictionary' and spec.get('key_prop', {}).get('t') in (
            'Color', 'Complex', 'Tuple'):
        return False
    subs = [spec[k] for k in ('prop', 'key_prop', 'value_prop') if k in spec]
    return all(has_json_keys(s) for s in subs + list(spec.get('props', ())))


def within_length(spec, val):
    low, high = spec.get('min_length'), spec.get('max_length')
    return ((low is None or len(val) >= low) and
            (high is None or len(val) <= high))


def fully_valid(spec, val, env=EMPTY):
    """Does an accepted, stored value also pass validate()? (lengths, required)"""
    kind = spec['t']
    if kind in CONTAINER:
        return within_length(spec, val) and all(
            fully_valid(spec.get('prop', {'t': 'Any'}), v, env) for v in val)
    if kind == 'Dictionary':
        return all(
            fully_valid(spec.get('key_prop', {'t': 'Any'}), k, env) and
            fully_valid(spec.get('value_prop', {'t': 'Any'}), v, env)
            for k, v in val.items())
    if kind == 'Union':
        # validated by the first member whose assert_valid passes
        unclear_member = False
        for sub in spec['props']:
            res = accept(sub, val, env)
            if res is BAD:
                continue
            if res is SKIP or not same(res[1], val):
                unclear_member = True       # a member that would convert it
            elif fully_valid(sub, val, env):
                return True
        if unclear_member:
            raise Unclaimed('validity of %r' % (val,))
        return False
    if kind == 'Instance':
        return inst_valid(val, env)
    return True


def class_index(obj, env):
    for i, cls in enumerate(env.classes):
        if type(obj) is cls:
            return i
    raise KeyError(obj)


def inst_valid(obj, env):
    """Is this instance of a spec'd class valid, by the model?"""
    index = obj.index if isinstance(obj, NewInst) else class_index(obj, env)
    for name, spec in env.props(index):
        if isinstance(obj, NewInst):
            val = obj.values.get(name)
        else:
            val = getattr(obj, name)
        if val is None:
            if spec.get('required', True):
                return False
        elif not fully_valid(spec, val, env):
            return False
    return True


def plain(cls):
    """The builtin behind an observable container class"""
    if cls.__name__.startswith('Observable'):
        return cls.__mro__[1]
    return cls


def same(exp, act, env=EMPTY):
    """Exactly the expected value: same type and content (nan equals nan)"""
    if exp is act:
        return True
    if isinstance(exp, NewInst):
        if isinstance(act, NewInst):
            return False
        if type(act) is not env.classes[exp.index]:
            return False
        for name, spec in env.props(exp.index):
            val = getattr(act, name)
            if name not in exp.values:
                if val is not None:
                    return False
            elif not same(exp.values[name], val, env):
                return False
        return True
    if isinstance(exp, AnyColor):
        return (type(act) is tuple and len(act) == 3 and
                all(type(v) is int and 0 <= v <= 255 for v in act))
    if isinstance(exp, properties.HasProperties):
        return exp is act
    if isinstance(exp, np.ndarray):
        return (type(exp) is type(act) and exp.dtype == act.dtype and
                exp.shape == act.shape and repr(exp.tolist()) == repr(act.tolist()))
    if plain(type(exp)) is not plain(type(act)):
        return False
    if isinstance(exp, (list, tuple)):
        return len(exp) == len(act) and all(
            same(e, a, env) for e, a in zip(exp, act))
    if isinstance(exp, (set, frozenset)):
        if len(exp) != len(act):
            return False
        rest = list(act)
        for e in exp:
            for i, a in enumerate(rest):
                if same(e, a, env):
                    del rest[i]
                    break
            else:
                return False
        return True
    if isinstance(exp, dict):
        if len(exp) != len(act):
            return False
        for (k, v), (k2, v2) in zip(exp.items(), act.items()):
            if not (same(k, k2, env) and same(v, v2, env)):
                return False
        return True
    if isinstance(exp, (float, complex)):
        return repr(exp) == repr(act)
    if exp is act:
        return True
    return exp == act


def describe(obj, seen=None):
    """A deep, comparable picture of a value (instances by class and content)"""
    seen = seen or ()
    if isinstance(obj, properties.HasProperties):
        if id(obj) in seen:
            return ('cycle', seen.index(id(obj)))
        seen = seen + (id(obj),)
        out = [type(obj).__name__]
        for name in sorted(obj._props):
            prop = obj._props[name]
            if isinstance(prop, properties.basic.DynamicProperty):
                continue
            out.append((name, describe(getattr(obj, name), seen)))
        return tuple(out)
    if np is not None and isinstance(obj, np.ndarray):
        return (type(obj).__name__, str(obj.dtype), obj.shape, repr(obj.tolist()))
    if isinstance(obj, dict):
        return (plain(type(obj)).__name__,
                [(describe(k, seen), describe(v, seen)) for k, v in obj.items()])
    if isinstance(obj, (list, tuple)):
        return (plain(type(obj)).__name__, [describe(v, seen) for v in obj])
    if isinstance(obj, (set, frozenset)):
        return (plain(type(obj)).__name__, sorted(repr(describe(v, seen)) for v in obj))
    return (type(obj).__name__, repr(obj))


def json_of(spec, val, env=EMPTY, include_class=True):
    """The JSON value a stored value must serialize to"""
    kind = spec['t']
    if val is None:
        return None
    if kind == 'Float':
        if val != val or val in (float('inf'), float('-inf')):
            return str(val)
        return val
    if kind == 'Complex':
        return str(val)
    if kind == 'Color':
        return list(val)
    if kind == 'DateTime':
        return '%04d-%02d-%02dT%02d:%02d:%02dZ' % (
            val.year, val.month, val.day, val.hour, val.minute, val.second)
    if kind in CONTAINER:
        return [json_of(spec.get('prop', {'t': 'Any'}), v, env, include_class)
                for v in val]
    if kind == 'Dictionary':
        return {json_of(spec.get('key_prop', {'t': 'Any'}), k, env, include_class):
                json_of(spec.get('value_prop', {'t': 'Any'}), v, env, include_class)
                for k, v in val.items()}
    if kind == 'Union':
        for sub in spec['props']:
            res = accept(sub, val, env)
            if res is SKIP or res[0] == 'ok' and not same(res[1], val, env):
                raise Unclaimed()       # converted by an earlier member
            if res[0] == 'ok':
                return json_of(sub, val, env, include_class)
        raise KeyError(val)
    if kind == 'Instance':
        index = class_index(val, env)
        out = {}
        for name, pspec in env.props(index):
            item = json_of(pspec, getattr(val, name), env, include_class)
            if item is not None:
                out[name] = item
        if include_class:
            out['__class__'] = env.specs[index]['name']
        return out
    return val


class Opts(object):
    """Options of a deserialize call"""

    def __init__(self, trusted=False, strict=False, assert_valid=False):
        self.trusted = trusted
        self.strict = strict
        self.assert_valid = assert_valid


def raw_load(spec, data, env=EMPTY, opts=None):
    """What a property must turn JSON data into, before validating it"""
    opts = opts or Opts()
    kind = spec['t']
    if data is None:
        return ok(None)
    if kind in ('Integer', 'Float', 'Complex'):
        func = {'Integer': int, 'Float': float, 'Complex': complex}[kind]
        if not isinstance(data, (str, int, float, complex)):
            return SKIP if hasattr(data, '__array__') else BAD
        try:
            out = func(data)
        except (ValueError, OverflowError, TypeError):
            return BAD
        if kind == 'Integer' and not isinstance(data, str) and out != data:
            return SKIP
        return ok(out)
    if kind in ('Boolean', 'Bool'):
        if isinstance(data, str):
            word = data.upper()
            if word in ('TRUE', 'Y', 'YES', 'ON'):
                return ok(True)
            if word in ('FALSE', 'N', 'NO', 'OFF'):
                return ok(False)
            return BAD
        return ok(data) if isinstance(data, (int, np.bool_)) else BAD
    if kind == 'Color':
        if isinstance(data, (str, dict)):
            return BAD
        return ok(tuple(data)) if isinstance(data, (list, tuple)) else BAD
    if kind == 'DateTime':
        return accept_datetime(spec, data) if isinstance(data, str) else BAD
    if kind in CONTAINER:
        if isinstance(data, (str, dict)):
            return SKIP     # taken apart by the library; not claimed
        try:
            items = list(data)
        except TypeError:
            return BAD
        out = []
        for item in items:
            res = raw_load(spec.get('prop', {'t': 'Any'}), item, env, opts)
            if res[0] != 'ok':
                return res
            out.append(res[1])
        try:
            return ok(CONTAINER[kind](out))
        except TypeError:
            return BAD
    if kind == 'Dictionary':
        if not isinstance(data, dict):
            return BAD
        out = {}
        for key, item in data.items():
            res = raw_load(spec.get('key_prop', {'t': 'Any'}), key, env, opts)
            res2 = raw_load(spec.get('value_prop', {'t': 'Any'}), item, env, opts)
            for part in (res, res2):
                if part[0] != 'ok':
                    return part
            try:
                out[res[1]] = res2[1]
            except TypeError:
                return BAD
        return ok(out)
    if kind == 'Union':
        inner = Opts(opts.trusted, opts.strict or bool(spec.get('strict_instances')),
                     bool(spec.get('strict_instances')))
        if isinstance(data, dict) and data.get('__class__'):
            for sub in spec['props']:
                if (sub['t'] == 'Instance' and
                        env.specs[sub['cls']]['name'] == data['__class__']):
                    return raw_load(sub, data, env, inner)
        for sub in spec['props']:
            res = raw_load(sub, data, env, inner)
            if res is BAD:
                continue
            if res is not SKIP:
                final = accept(sub, res[1], env)
                if final is BAD:
                    continue
                if final is not SKIP:
                    return res
            return SKIP
        return ok(data)
    if kind == 'Instance':
        return load_inst(spec['cls'], data, env, opts)
    return ok(data)


def load_inst(index, data, env, opts=None):
    """What Class.deserialize(data) must give: ok(NewInst), BAD or SKIP"""
    opts = opts or Opts()
    if not isinstance(data, dict):
        return BAD
    name = data.get('__class__')
    if name and name != env.specs[index]['name']:
        names = [s['name'] for s in env.specs]
        if opts.trusted and name in names:
            index = names.index(name)
        elif opts.trusted and name in properties.HasProperties._REGISTRY:
            return SKIP
        elif opts.strict:
            return BAD
    known = dict(env.props(index))
    if opts.strict and any(k not in known and k != '__class__' for k in data):
        return BAD
    inner = Opts(opts.trusted, opts.strict)
    values = {}
    skipped = False
    for key, pspec in known.items():
        if key not in data:
            continue
        res = raw_load(pspec, data[key], env, inner)
        if res[0] == 'ok':
            res = accept(pspec, res[1], env)
        if res is BAD:
            return BAD
        if res is SKIP:
            skipped = True
        else:
            values[key] = res[1]
    if skipped:
        return SKIP
    out = NewInst(index, values)
    if opts.assert_valid and not inst_valid(out, env):
        return BAD
    return ok(out)


def load(spec, data, env=EMPTY, opts=None):
    """What loading data into a property must store: ok(value), BAD or SKIP"""
    res = raw_load(spec, data, env, opts)
    return accept(spec, res[1], env) if res[0] == 'ok' else res


def equal(spec, one, two, env=EMPTY):
    """Must the property report two stored values as equal? None: not claimed"""
    kind = spec['t']
    if kind in ('Float', 'Complex'):
        one, two = complex(one), complex(two)
        out = True
        for a, b in ((one.real, two.real), (one.imag, two.imag)):
            if a != a or b != b:
                out = out and a != a and b != b
            elif a != b:
                if abs(a - b) == float('inf'):
                    out = False
                elif near_tolerance(abs(a - b)):
                    return None
                else:
                    out = out and abs(a - b) < TOL
        return out
    if kind in ('Tuple', 'List'):
        if len(one) != len(two):
            return False
        res = [equal(spec.get('prop', {'t': 'Any'}), a, b, env)
               for a, b in zip(one, two)]
        return False if False in res else (None if None in res else True)
    if kind == 'Dictionary':
        if set(one) != set(two):
            return False
        res = [equal(spec.get('value_prop', {'t': 'Any'}), v, two[k], env)
               for k, v in one.items()]
        return False if False in res else (None if None in res else True)
    if kind == 'Union':
        return equal_union(spec, one, two, env)
    if kind == 'Instance':
        if one is two:
            return True
        if type(one) is not type(two):
            return False
        return inst_equal(one, two, env)
    if kind == 'Set':
        if len(one) != len(two):
            return False
        if one == two:
            return True
        return None if spec.get('prop', {}).get('t') in ('Float', 'Complex') else False
    return one == two


def kind_of(val):
    """Broad kind of a stored value"""
    if isinstance(val, (int, float, complex)):
        return 'number'
    for cls in (str, list, tuple, set, dict, datetime.datetime,
                properties.HasProperties):
        if isinstance(val, cls):
            return cls.__name__
    return 'other'


def equal_union(spec, one, two, env):
    kind = kind_of(one)
    if kind == 'other' or kind_of(two) == 'other':
        return None
    if kind != kind_of(two):
        return False
    out = False
    for sub in spec['props']:
        owned = True
        for val in (one, two):
            res = accept(sub, val, env)
            if res is SKIP:
                return None
            owned = owned and res is not BAD and same(res[1], val, env)
        try:
            res = equal(sub, one, two, env)
        except (TypeError, ValueError, AttributeError, KeyError):
            continue
        if owned and res:
            return True
        if res is not False:
            out = None
    if kind == 'number' and not out:
        return None if complex(one) == complex(two) else out
    return out


def inst_equal(one, two, env):
    out = True
    for name, spec in env.props(class_index(one, env)):
        a, b = getattr(one, name), getattr(two, name)
        if (a is None) != (b is None):
            return False
        if a is None:
            continue
        res = equal(spec, a, b, env)
        if res is False:
            return False
        if res is None:
            out = None
    return out
