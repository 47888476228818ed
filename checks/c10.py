"""C10: serializing and loading gives an equal object"""
import json

import numpy as np
import properties
from hypothesis import strategies as st
from properties.extras import URL

from vlib import gens, model
from vlib.common import has_union
from vlib.harness import facet
from vlib.values import build

from .c04 import array_spec, array_value

ID = 'C10'
RULE = ('random class families and object graphs without self references (nested '
        'containers, unions, instances, arrays, vectors, UUIDs, URLs), with custom '
        'serializers at any level and pass-through options; non-trivial: at least one '
        'value is set and the object was loaded back')
FACETS = []
ASSUMPTIONS = [
    'values whose JSON an earlier union member also loads, dictionary keys that are no '
    'JSON keys, microseconds and time zones are not claimed to survive']


@st.composite
def cases(draw):
    specs = draw(gens.class_specs(count=3, depth=draw(st.integers(1, 2))))
    return specs, draw(gens.instance_case(specs, len(specs) - 1, fill=0.85,
                                          max_size=3))


def strict_json(data):
    """Text of pure JSON data, with text keys as JSON has them"""
    return json.dumps(data, allow_nan=False)


def text_keys(data):
    """The data as JSON sees it"""
    return json.loads(json.dumps(data))


@facet('roundtrip', strategy=cases, quick=1400, shards=6)
def check_roundtrip(case, ctx):
    specs, init = case
    env = model.Env(specs)
    index = len(specs) - 1
    if not all(model.has_json_keys(s) for one in specs for _, s in one['props']):
        ctx.label('no JSON keys')
        return
    obj = env.make_inst(index, {})
    for name, raw in init.items():
        setattr(obj, name, build(raw, env.builders()))
    picture = model.describe(obj)
    log = []
    properties.observer(obj, properties.everything, lambda o, c: log.append(c))
    data = obj.serialize()
    spec = {'t': 'Instance', 'cls': index}
    expected = model.json_of(spec, obj, env)
    ctx.check(same_json(data, expected), 'serialized to %r, expected %r', data, expected)
    ctx.check(same_json(obj.serialize(include_class=False),
                        model.json_of(spec, obj, env, False)),
              'serialized without classes to %r', obj.serialize(include_class=False))
    text = strict_json(data)
    cls = env.classes[index]
    ctx.check(properties.HasProperties.deserialize(
        {'__class__': 'zz'}) is not None and model.describe(obj) == picture and not log,
              'serializing changed the object')
    for source in (data, json.loads(text)):
        res = model.load_inst(index, source, env)
        again = res[0] == 'ok' and matches(env, index, res[1], obj)
        if not again and any(has_union(s) for one in specs for _, s in one['props']):
            ctx.label('ambiguous in JSON')
            continue
        back = cls.deserialize(source)
        ctx.nontrivial(len(data) > 1)
        ctx.check(type(back) is cls and back is not obj, 'loaded a %s', type(back))
        ctx.check(properties.equal(back, obj) and properties.equal(obj, back),
                  'loaded %r from %r, not equal to %r', model.describe(back), source,
                  picture)
        ctx.check(again and model.same(res[1], back, env), 'loaded %r, expected %r',
                  model.describe(back), res[1])
        again = back.serialize()
        sort = "'Set'" in repr(specs)
        ctx.check(text_keys(again) == text_keys(data) or
                  sort and unordered(text_keys(again)) == unordered(text_keys(data)),
                  'serialized again to %r, first %r', again, data)
        ctx.check(again.keys() == data.keys(), 'keys %r and %r', list(again), list(data))
        for name, _ in env.props(index):
            ctx.check((getattr(back, name) is None) == (getattr(obj, name) is None),
                      '%s undefined on one side only', name)
        ctx.check(text_keys(source) == text_keys(data), 'loading modified its input')


def unordered(data):
    """The same data with lists sorted (sets come in any order)"""
    if isinstance(data, dict):
        return {k: unordered(v) for k, v in data.items()}
    if isinstance(data, list):
        return sorted((unordered(v) for v in data), key=sort_key)
    return data


def sort_key(data):
    return repr(sorted((k, sort_key(v)) for k, v in data.items()) if isinstance(data, dict)
                else data)


def close_json(one, two):
    """Equal up to rounding of the last digits"""
    if isinstance(one, dict) and isinstance(two, dict):
        return one.keys() == two.keys() and all(close_json(v, two[k])
                                                for k, v in one.items())
    if isinstance(one, list) and isinstance(two, list):
        return len(one) == len(two) and all(map(close_json, one, two))
    if isinstance(one, float) and isinstance(two, float):
        return abs(one - two) <= 1e-12 * max(abs(one), abs(two), 1)
    return one == two


def same_json(one, two):
    """Equal, with the same types all the way"""
    if isinstance(one, dict) and isinstance(two, dict):
        return (len(one) == len(two) and
                all(any(k == k2 and type(k) is type(k2) for k2 in two) for k in one) and
                all(same_json(v, two[k]) for k, v in one.items()))
    if isinstance(one, list) and isinstance(two, list):
        if len(one) != len(two):
            return False
        return all(same_json(a, b) for a, b in zip(one, two))
    if isinstance(one, float) and isinstance(two, float):
        return repr(one) == repr(two)
    return type(one) is type(two) and one == two


def matches(env, index, inst, obj):
    """Does the modelled load result hold the values of the real object?"""
    if type(obj) is not env.classes[inst.index]:
        return False
    for name, spec in env.props(index):
        val = getattr(obj, name)
        if (name in inst.values) != (val is not None):
            return False
        if val is not None and not matches_value(env, inst.values[name], val):
            return False
    return True


def matches_value(env, exp, val):
    if isinstance(exp, model.NewInst):
        return isinstance(val, properties.HasProperties) and matches(
            env, exp.index, exp, val)
    if isinstance(exp, (list, tuple, set)):
        kind = [c for c in (list, tuple, set) if isinstance(exp, c)][0]
        if not isinstance(val, kind) or len(exp) != len(val):
            return False
        if kind is set:
            return all(any(matches_value(env, e, v) for v in val) for e in exp)
        return all(matches_value(env, e, v) for e, v in zip(exp, val))
    if isinstance(exp, dict):
        return isinstance(val, dict) and len(exp) == len(val) and all(
            k in val and matches_value(env, v, val[k]) for k, v in exp.items())
    if isinstance(exp, str):
        return isinstance(val, str) and exp == val
    return type(exp) is type(val) and repr(exp) == repr(val)


# ------------------------------------------------- other property types

@st.composite
def other_cases(draw):
    spec = draw(array_spec())
    wrap = draw(st.sampled_from(['none', 'none', 'List', 'Tuple', 'Dictionary']))
    return spec, draw(array_value(spec)), wrap, draw(st.sampled_from(
        ['http://a.b/c', 'https://x.y/z?q=1', 'not a url'])), draw(st.booleans())


@facet('other_types', strategy=other_cases, quick=900, shards=2)
def check_other(case, ctx):
    spec, raw, wrap, url, subclass = case
    prop = model.make(spec)
    value = build(raw)
    if wrap in ('List', 'Tuple'):
        prop = getattr(properties, wrap)('', prop)
        value = [value, value] if wrap == 'List' else (value, value)
    elif wrap == 'Dictionary':
        prop = properties.Dictionary('', value_prop=prop)
        value = {'k': value, 'l': value}

    class Holder(properties.HasProperties):
        val = prop
        uid = properties.Uuid('')
        link = URL('', required=False)
    cls = type(Holder)(str('SubHolder'), (Holder,), {}) if subclass else Holder
    try:
        obj = cls(val=value)
    except ValueError:
        ctx.label('refused')
        return
    try:
        obj.link = url
    except ValueError:
        ctx.check(obj.link is None, 'refused URL stored')
    ctx.nontrivial()
    ctx.label(spec['t'])
    data = obj.serialize()
    keys = {'val', 'uid', '__class__'} | ({'link'} if obj.link is not None else set())
    ctx.check(set(data) == keys, 'serialized keys %r', sorted(data))
    ctx.check(data['uid'] == str(obj.uid) and data['__class__'] == cls.__name__,
              'uid or class in %r', data)
    text = strict_json(data)
    for source in (data, json.loads(text)):
        if spec['t'].endswith('Array') and empty(obj.val):
            ctx.label('empty')
            continue
        back = cls.deserialize(source)
        ctx.check(type(back) is cls, 'loaded a %s', type(back))
        ctx.check(back.uid == obj.uid, 'uid %s loaded as %s', obj.uid, back.uid)
        ctx.check(properties.equal(obj, back), '%r loaded as %r', model.describe(obj),
                  model.describe(back))
        ctx.check(types_of(back.val) == types_of(obj.val), '%r loaded as %r',
                  obj.val, back.val)
        ctx.check(back.link == obj.link, 'link %r loaded as %r', obj.link, back.link)
        again = back.serialize()
        ctx.check(json.dumps(again) == json.dumps(data) or
                  'length' in spec and close_json(again, data),
                  'serialized again to %r, first %r', again, data)


def empty(val):
    vals = val.values() if isinstance(val, dict) else (
        val if isinstance(val, (list, tuple)) else [val])
    return any(isinstance(v, np.ndarray) and v.size == 0 for v in vals)


def types_of(val):
    if isinstance(val, dict):
        return [(k, types_of(v)) for k, v in val.items()]
    if isinstance(val, (list, tuple)):
        return [type(val).__name__] + [types_of(v) for v in val]
    if isinstance(val, np.ndarray):
        return type(val).__name__, val.shape, val.dtype.kind
    return type(val).__name__


# ------------------------------------------------- custom (de)serializers

@st.composite
def custom_cases(draw):
    kind = draw(st.sampled_from(['Integer', 'String', 'List', 'Tuple', 'Set', 'Dictionary',
                                 'Union', 'Instance', 'Array', 'Vector3', 'Any', 'Boolean',
                                 'Float', 'Color', 'DateTime', 'List of', 'Dictionary of',
                                 'Union of', 'Renamed', 'Dynamic', 'Uuid', 'Optional']))
    style = draw(st.sampled_from(['plain', 'kwargs', 'named']))
    which = draw(st.sampled_from(['both', 'both', 'serializer', 'deserializer', 'none']))
    extra = draw(st.dictionaries(st.sampled_from(['flavor', 'depth']), gens.small_ints()))
    return kind, style, which, extra, draw(st.booleans()), draw(gens.small_ints())


@facet('custom', strategy=custom_cases, quick=1500, shards=2)
def check_custom(case, ctx):
    kind, style, which, extra, include, num = case
    saved, loaded, table = [], [], []

    def record(log, val, kwargs):
        log.append((val, dict(kwargs)))

    def save(val, kwargs):
        record(saved, val, kwargs)
        if val is None:
            return None
        table.append(val)
        return {'ticket': len(table) - 1}

    def fetch(val, kwargs):
        record(loaded, val, kwargs)
        return table[val['ticket']]
    if style == 'plain':
        ser, des = (lambda v: save(v, {})), (lambda v: fetch(v, {}))
    elif style == 'kwargs':
        ser = lambda v, **kw: save(v, kw)                               # noqa: E731
        des = lambda v, **kw: fetch(v, kw)                              # noqa: E731
    else:
        def ser(v, include_class=None, flavor='none', **_):
            return save(v, {'include_class': include_class, 'flavor': flavor})

        def des(v, trusted=None, flavor='none', **_):
            return fetch(v, {'trusted': trusted, 'flavor': flavor})
    opts = {}
    if which in ('both', 'serializer'):
        opts['serializer'] = ser
    if which in ('both', 'deserializer'):
        opts['deserializer'] = des

    class Inner(properties.HasProperties):
        num = properties.Integer('')
    inner = Inner(num=num)
    props = properties
    table_of = {
        'Integer': (lambda o: props.Integer('', **o), num),
        'Optional': (lambda o: props.Integer('', required=False, **o), None),
        'String': (lambda o: props.String('', **o), 'n%d' % num),
        'List': (lambda o: props.List('', props.Integer(''), **o), [num, 1]),
        'Tuple': (lambda o: props.Tuple('', props.Integer(''), **o), (num, 1)),
        'Set': (lambda o: props.Set('', props.Integer(''), **o), {num}),
        'Dictionary': (lambda o: props.Dictionary(
            '', key_prop=props.String(''), value_prop=props.Integer(''), **o), {'k': num}),
        'Union': (lambda o: props.Union('', [props.Integer(''), props.String('')], **o),
                  num),
        'Instance': (lambda o: props.Instance('', Inner, **o), inner),
        'Array': (lambda o: props.Array('', dtype=int, **o), np.array([num, 1])),
        'Vector3': (lambda o: props.Vector3('', **o), [num, 0., 1.]),
        'Any': (lambda o: props.Property('', **o), num),
        'Boolean': (lambda o: props.Boolean('', **o), num > 0),
        'Float': (lambda o: props.Float('', **o), num / 2.),
        'Color': (lambda o: props.Color('', **o), (1, 2, 3)),
        'DateTime': (lambda o: props.DateTime('', **o), '2020-01-02'),
        'List of': (lambda o: props.List('', props.Integer('', **o)), [num, 1]),
        'Dictionary of': (lambda o: props.Dictionary(
            '', key_prop=props.String(''), value_prop=props.Integer('', **o)), {'k': num}),
        'Union of': (lambda o: props.Union(
            '', [props.String(''), props.Integer('', **o)]), num),
        'Renamed': (lambda o: props.Integer('', **o), num),
        'Dynamic': (lambda o: props.Integer('', **o), num),
        'Uuid': (lambda o: props.Uuid('', **o), None),
    }
    make, value = table_of[kind]
    body = {'val': make(opts), 'plain': props.Integer('', default=7)}
    if kind == 'Renamed':
        body['old'] = props.Renamed('val')
    if kind == 'Dynamic':
        def val(self):
            return num
        body['val'] = make(opts)(val)
    cls = type(props.HasProperties)('Holder', (props.HasProperties,), body)
    obj = cls()
    if kind in ('Dynamic', 'Uuid', 'Optional'):
        pass
    else:
        obj.val = value
    stored = obj.val
    items = {'List of': lambda v: list(v), 'Dictionary of': lambda v: list(v.values())}.get(
        kind, lambda v: [v])(stored)
    dynamic = kind == 'Dynamic'
    data = obj.serialize(include_class=include, save_dynamic=dynamic, **extra)
    ctx.nontrivial(which != 'none')
    ctx.label(which)
    expected_calls = [] if stored is None or 'serializer' not in opts else items
    ctx.check([s[0] is i or s[0] == i for s, i in zip(saved, expected_calls)] ==
              [True] * len(expected_calls) and len(saved) == len(expected_calls),
              'serializer calls %r, expected %r', saved, expected_calls)
    for _, kwargs in saved:
        if style == 'kwargs':
            ctx.check(kwargs.get('include_class') == include and
                      all(kwargs.get(k) == v for k, v in extra.items()),
                      'serializer options %r', kwargs)
        elif style == 'named':
            ctx.check(kwargs == {'include_class': include,
                                 'flavor': extra.get('flavor', 'none')},
                      'serializer options %r', kwargs)
    ctx.check(('__class__' in data) == include and data['plain'] == 7, 'data %r', data)
    if stored is None:
        ctx.check('val' not in data, 'undefined value in %r', data)
        return
    if expected_calls:
        tickets = [{'ticket': i} for i in range(len(items))]
        want = {'List of': tickets, 'Dictionary of': {'k': tickets[0]}}.get(
            kind, tickets[0])
        ctx.check(data['val'] == want, 'serialized to %r, expected %r', data['val'], want)
    if which not in ('both',) or dynamic:
        return
    extra = {k: v for k, v in extra.items() if k == 'flavor'}
    back = cls.deserialize(dict(data), **extra)
    ctx.check(len(loaded) == len(items), '%d deserializer calls', len(loaded))
    for (_, kwargs) in loaded:
        if style == 'kwargs':
            ctx.check(kwargs.get('trusted') is False and
                      all(kwargs.get(k) == v for k, v in extra.items()),
                      'deserializer options %r', kwargs)
        elif style == 'named':
            ctx.check(kwargs == {'trusted': False, 'flavor': extra.get('flavor', 'none')},
                      'deserializer options %r', kwargs)
    ctx.check(cls._props['val'].equal(back.val, stored), 'loaded %r, expected %r',
              back.val, stored)
    if kind == 'Renamed':
        back = cls.deserialize({'old': data['val']})
        ctx.check(back.val == stored, 'loaded %r by its old name', back.val)


# ------------------------------------------------- dynamic and immutable properties

@st.composite
def dynamic_cases(draw):
    return (draw(gens.small_ints()), draw(st.booleans()), draw(st.booleans()),
            draw(st.booleans()), draw(st.booleans()),
            draw(st.sampled_from(['fixed', 'other', 0, False, '', 0.0, 1.5, True])))


@facet('dynamic', strategy=dynamic_cases, quick=400, shards=1)
def check_dynamic(case, ctx):
    num, save, include, undefined, nested, const = case
    ctx.nontrivial()
    given = {'const': const}

    class Inner(properties.HasProperties):
        base = properties.Integer('', required=False)

        @properties.Integer('twice')
        def twice(self):
            return None if self.base is None else 2 * self.base

        const = properties.GettableProperty('', default=lambda: given['const'])

    class Outer(properties.HasProperties):
        inner = properties.Instance('', Inner)
        many = properties.List('', properties.Instance('', Inner))
    obj = Inner() if undefined else Inner(base=num)
    want = {'const': const}
    if not undefined:
        want['base'] = num
        if save:
            want['twice'] = 2 * num
    if include:
        want['__class__'] = 'Inner'
    top = obj
    if nested:
        top = Outer(inner=obj, many=[obj, obj])
        want = {'inner': want, 'many': [dict(want), dict(want)]}
        if include:
            want['__class__'] = 'Outer'
    data = top.serialize(include_class=include, save_dynamic=save)
    ctx.check(data == want, 'serialized to %r, expected %r', data, want)
    given['const'] = 'fixed'
    back = type(top).deserialize(data)
    ctx.check(properties.equal(top, back), 'loaded %r', model.describe(back))
    ctx.check(back.serialize(include_class=include, save_dynamic=save) == want,
              'serialized again to %r', back.serialize())


# ------------------------------------------------- instances of plain classes

class Blob(object):
    """A class JSON knows nothing about"""

    def __init__(self, num=0):
        self.num = num


class Words(list):
    """A list of its own"""


PLAIN = {'dict': dict, 'list': list, 'str': str, 'int': int, 'Words': Words, 'Blob': Blob}


@st.composite
def plain_cases(draw):
    name = draw(st.sampled_from(sorted(PLAIN)))
    leaf = st.one_of(gens.small_ints(), st.text('ab', max_size=2), st.booleans())
    data = {'dict': st.dictionaries(st.text('ab', max_size=2), leaf, max_size=3),
            'list': st.lists(leaf, max_size=3), 'Words': st.lists(leaf, max_size=3),
            'str': st.text('ab', max_size=3)}.get(name, gens.small_ints())
    return (name, draw(data), draw(st.sampled_from(['alone', 'list', 'dict', 'union'])),
            draw(st.booleans()), draw(st.booleans()))


@facet('plain', strategy=plain_cases, quick=400, shards=1)
def check_plain(case, ctx):
    name, raw, where, custom, trusted = case
    kind = PLAIN[name]
    value = kind(raw)
    opts = {}
    if custom:
        opts = {'serializer': lambda v, **kw: {'num': v.num} if name == 'Blob' else v,
                'deserializer': lambda v, **kw: Blob(v['num']) if name == 'Blob' else kind(v)}
    prop = properties.Instance('', kind, **opts)
    if where == 'list':
        prop, value = properties.List('', prop), [value]
    elif where == 'dict':
        prop, value = properties.Dictionary('', value_prop=prop), {'k': value}
    elif where == 'union':
        prop = properties.Union('', [properties.Color('', required=False), prop])
        if name in ('str', 'list', 'Words'):
            try:
                properties.Color('').validate(None, value)
                return
            except ValueError:
                pass
    cls = type(properties.HasProperties)('Holder', (properties.HasProperties,), {'val': prop})
    obj = cls(val=value)
    ctx.nontrivial()
    ctx.label('custom' if custom else 'without')
    if name == 'Blob' and not custom:
        ctx.raises(TypeError, obj.serialize, 'serializing a Blob')
        data = {'val': {'list': [{'num': 1}], 'dict': {'k': {'num': 1}}}.get(where, {'num': 1})}
    else:
        data = obj.serialize()
        form = {'num': value.num} if name == 'Blob' and where not in ('list', 'dict') else \
            [{'num': v.num} for v in value] if name == 'Blob' and where == 'list' else \
            {k: {'num': v.num} for k, v in value.items()} if name == 'Blob' else value
        ctx.check(data == {'val': form, '__class__': 'Holder'}, '%r serialized to %r', form, data)
        data = json.loads(strict_json(data))
    if not custom and where == 'union':
        # a union then goes on with the JSON value, which may do for the constructor
        return
    if not custom:
        # nothing says how to make such an object: it must not get lost
        try:
            back = cls.deserialize(data, trusted=trusted)
        except (TypeError, ValueError, AttributeError):
            return
        ctx.check(False, 'loaded %r without a deserializer', model.describe(back))
    back = cls.deserialize(data, trusted=trusted)
    pairs = zip(value, back.val) if where == 'list' else \
        [(value['k'], back.val['k'])] if where == 'dict' else [(value, back.val)]
    for one, two in pairs:
        ctx.check(type(two) is kind and getattr(one, 'num', one) == getattr(two, 'num', two),
                  '%r loaded as %r', one, two)
