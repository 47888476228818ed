"""C05: containers validate every element and keep their own copy"""
import collections

import properties
from hypothesis import strategies as st

from vlib import gens, model
from vlib.common import decide
from vlib.harness import facet
from vlib.values import MyList, MySet, V, build

ID = 'C05'
RULE = ('random (nested) tuple/list/set/dictionary declarations with element '
        'properties of every kind, coerce, observe_mutations and length limits; '
        'values valid, with one bad element at a random place, of other container '
        'classes or of other kinds; non-trivial: a container value with at least '
        'one element, or a length exactly next to a limit')
FACETS = []


@gens.cached
def nested_spec(classes=2):
    inner = gens.any_spec(1, classes)
    return gens.container_spec(inner, gens.hashable_spec(), gens.hashable_spec())


@st.composite
def cases(draw):
    specs = draw(gens.class_specs(count=2, depth=0, max_props=2))
    while len(specs) < 2:
        specs = specs + [{'name': 'Extra', 'props': [('alpha', {'t': 'Integer'})],
                          'base': None}]
    spec = draw(nested_spec())
    table = gens.props_of(specs)
    value = draw(st.one_of(
        gens.valid_value(spec, table), gens.near(spec, table), gens.near(spec, table),
        gens.junk() if not draw(st.booleans()) else gens.candidate(spec, table)))
    return specs, spec, value


@facet('accept', strategy=cases, quick=900, shards=5)
def check_accept(case, ctx):
    specs, spec, raw = case
    env = model.Env(specs)
    value = build(raw, env.builders())
    ctx.nontrivial(hasattr(value, '__len__') and not isinstance(value, (str, bytes))
                   and len(value) > 0)
    before = safe_describe(value)
    try:
        decide(spec, value, ctx, env)
    finally:
        after = safe_describe(value)
    ctx.check(before == after, 'assigning changed the value passed in: %r', before)


def safe_describe(val):
    try:
        return model.describe(val)
    except Exception:                                           # pylint: disable=broad-except
        return repr(val)


@st.composite
def coerce_cases(draw):
    elem = draw(st.sampled_from([
        {'t': 'Integer'}, {'t': 'Float'}, {'t': 'String', 'strip': ' '},
        {'t': 'StringChoice', 'choices': ['red', 'blue']}, {'t': 'Any'}]))
    kind = draw(st.sampled_from(['Tuple', 'List', 'Set']))
    spec = {'t': kind, 'prop': elem}
    spec.update(draw(gens.flag('coerce')))
    items = draw(st.lists(st.one_of(gens.valid_value(elem), gens.valid_value(elem),
                                    gens.scalars()), max_size=4))
    style = draw(st.sampled_from(['list', 'tuple', 'set', 'array', 'single', 'frozen',
                                  'range', 'dict', 'MyList', 'MyTuple', 'MySet']))
    return spec, style, items


@facet('coerce', strategy=coerce_cases, quick=800, shards=2)
def check_coerce(case, ctx):
    """Every kind of container given to every kind of container property"""
    spec, style, items = case
    values = [build(i) for i in items]
    if any(isinstance(v, list) for v in values):
        values = [tuple(v) if isinstance(v, list) else v for v in values]
    if style == 'single':
        value = values[0] if values else 3
    elif style == 'range':
        value = range(len(values))
    elif style == 'dict':
        value = {i: i for i in range(len(values))}
    elif style == 'frozen':
        value = build(V('frozenset', [i for i in range(len(values))]))
    elif style == 'array':
        value = build(V('nparray', 'int64', list(range(len(values)))))
    elif style.startswith('My'):
        value = build(V('sub', style, []))
        value = type(value)(values)
    else:
        value = {'list': list, 'tuple': tuple, 'set': set}[style](values)
    ctx.nontrivial(len(values) > 0)
    ctx.label(style)
    decide(spec, value, ctx)


def spoil(val):
    """Change a container and everything in it, as its owner could"""
    count = 0
    if isinstance(val, list):
        for item in val:
            count += spoil(item)
        val.append('spoiled')
        return count + 1
    if isinstance(val, tuple):
        return sum(spoil(item) for item in val)
    if isinstance(val, dict):
        for item in val.values():
            count += spoil(item)
        val['spoiled'] = 1
        return count + 1
    if isinstance(val, set):
        val.add('spoiled')
        return 1
    return 0


@st.composite
def isolation_cases(draw):
    spec = draw(gens.container_spec(
        st.one_of(gens.simple_spec(), gens.container_spec(
            gens.simple_spec(), gens.hashable_spec(), gens.hashable_spec(),
            observe=False)),
        gens.hashable_spec(), gens.hashable_spec(), observe=False))
    return spec, draw(gens.valid_value(spec)), draw(st.sampled_from(
        ['init', 'set', 'validate', 'default', 'load', 'pass']))


@facet('isolation', strategy=isolation_cases, quick=700, shards=3)
def check_isolation(case, ctx):
    """No change of the caller's container reaches the stored one or back"""
    spec, raw, how = case
    value = build(raw)
    if model.accept(spec, value)[0] != 'ok':
        return
    can_save = model.has_json_keys(spec)
    if how == 'load' and not can_save:
        how = 'set'

    class Holder(properties.HasProperties):
        val = model.make(spec)
    obj = Holder()
    ctx.label(how)
    if how == 'init':
        obj = Holder(val=value)
    elif how == 'set':
        obj.val = value
    elif how == 'validate':
        obj.val = Holder._props['val'].validate(None, value)
    elif how == 'default':
        class Sub(Holder):
            _defaults = {'val': value}
        obj = Sub()
    elif how == 'load':
        data = Holder(val=value).serialize()
        picture = model.describe(data)
        obj = Holder.deserialize(data)
        ctx.check(model.describe(data) == picture, 'loading changed the data')
        value = data['val']
    else:
        first = Holder(val=value)
        obj.val = first.val
        value = first.val
    picture = model.describe(obj.val)
    count = spoil(value)
    ctx.nontrivial(count > 0)
    ctx.check(model.describe(obj.val) == picture,
              'a change of the value passed in reached the property: %r', obj.val)
    value_picture = model.describe(value)
    spoil(obj.val)
    ctx.check(model.describe(value) == value_picture,
              'a change of the stored value reached the value passed in')
    if not can_save:
        return
    kept = Holder(val=build(raw))
    data = kept.serialize()
    picture = model.describe(kept.val)
    spoil(data['val'])
    ctx.check(model.describe(kept.val) == picture, 'serialized data shares the value')


@st.composite
def length_cases(draw):
    kind = draw(st.sampled_from(['Tuple', 'List', 'Set', 'List']))
    spec = {'t': kind, 'prop': {'t': 'Integer'}}
    low, high = sorted([draw(st.integers(0, 5)), draw(st.integers(0, 5))])
    spec.update(draw(st.sampled_from([{'min_length': low}, {'max_length': high},
                                      {'min_length': low, 'max_length': high},
                                      {'min_length': low, 'max_length': low}])))
    if kind != 'Tuple':
        spec.update(draw(gens.flag('observe_mutations')))
    nested = draw(st.sampled_from(['no', 'no', 'List', 'Dictionary', 'Union', 'Instance']))
    if kind == 'Set' and nested == 'no':
        nested = 'no'
    return spec, nested, draw(st.integers(0, 6)), draw(st.integers(-3, 3))


@facet('lengths', strategy=length_cases, quick=900, shards=2)
def check_lengths(case, ctx):
    """Length limits are inclusive and decide validation, also after changes"""
    spec, nested, count, change = case
    kind = spec['t']
    low, high = spec.get('min_length', 0), spec.get('max_length', 10 ** 9)
    ctx.nontrivial(min(abs(count - low), abs(count - high)) <= 1)
    ctx.label(nested)
    inner = model.make(spec)
    if nested == 'List':
        inner = properties.List('', inner)
    elif nested == 'Dictionary':
        inner = properties.Dictionary('', key_prop=properties.String(''),
                                      value_prop=inner)
    elif nested == 'Union':
        inner = properties.Union('', [properties.String(''), inner])
    elif nested == 'Instance':
        class Inner(properties.HasProperties):
            val = inner
        inner = properties.Instance('', Inner)

    class Holder(properties.HasProperties):
        val = inner
    cls = {'Tuple': tuple, 'List': list, 'Set': set}[kind]

    def wrap(num):
        plain = cls(range(num))
        if nested == 'List':
            return [cls(range(low)), plain] if low == num else [plain]
        if nested == 'Dictionary':
            return {'a': plain}
        if nested == 'Instance':
            return {'val': plain}
        return plain
    obj = Holder(val=wrap(count))

    def stored():
        if nested == 'List':
            return obj.val[-1]
        if nested == 'Dictionary':
            return obj.val['a']
        if nested == 'Instance':
            return obj.val.val
        return obj.val

    def verdict(num):
        good = low <= num <= high
        ctx.label('valid' if good else 'invalid')
        if good:
            ctx.check(obj.validate() is True, 'length %d refused', num)
        else:
            err = ctx.raises(properties.ValidationError, obj.validate,
                             'validate with length %d in %r' % (num, spec))
            ctx.check('val' in str([e.prop for e in err.error_tuples]),
                      'error does not name the property')
    verdict(count)
    ctx.check(stored() == cls(range(count)), 'contents changed')
    if kind == 'Tuple':
        return
    target = stored()
    new = count
    for i in range(abs(change)):
        if change > 0:
            if kind == 'List':
                target.append(100 + i)
            else:
                target.add(100 + i)
            new += 1
        elif new:
            target.pop()
            new -= 1
        target = stored()
    verdict(new)


# ---------------------------------------- subclasses with constructors of their own

class Named0(collections.namedtuple('Named0', [])):
    """no fields"""


Named1 = collections.namedtuple('Named1', 'one')
Named2 = collections.namedtuple('Named2', 'one two')
Named3 = collections.namedtuple('Named3', 'one two three', defaults=(7, 8))


class Slotted(list):
    """A list with room for one attribute"""
    __slots__ = ('note',)


class Counted(dict):
    """A dictionary that counts what is put in one by one"""

    def __init__(self, *args, **kwargs):
        super(Counted, self).__init__(*args, **kwargs)
        self.puts = 0

    def __setitem__(self, key, value):
        self.puts += 1
        super(Counted, self).__setitem__(key, value)


CLASSES = {
    'Tuple': {'Named0': 0, 'Named1': 1, 'Named2': 2, 'Named3': 3},
    'List': {'Slotted': None, 'UserList': None},
    'Set': {'MySet': None},
    'Dictionary': {'OrderedDict': None, 'Counter': None, 'Counted': None},
}


@st.composite
def class_cases(draw):
    kind = draw(st.sampled_from(sorted(CLASSES) + ['Tuple', 'Tuple']))
    name = draw(st.sampled_from(sorted(CLASSES[kind])))
    size = CLASSES[kind][name]
    if size is None:
        size = draw(st.integers(0, 4))
    items = draw(st.lists(st.integers(0, 9), min_size=size, max_size=size,
                          unique=kind in ('Set', 'Dictionary')))
    elem = draw(st.sampled_from(['Integer', 'Float', 'Any']))
    bad = draw(st.integers(0, 3)) == 0
    coerce = draw(st.booleans())
    observe = kind != 'Tuple' and draw(st.booleans())
    place = draw(st.sampled_from(['alone', 'alone', 'list', 'union', 'dict']))
    return kind, name, items, elem, bad, coerce, observe, place


@facet('classes', strategy=class_cases, quick=500, shards=1)
def check_classes(case, ctx):
    """Subclasses of the builtin containers, also those built from something
    else than one list, keep their class and get the converted elements"""
    kind, name, items, elem, bad, coerce, observe, place = case
    ctx.label(name)
    ctx.nontrivial(len(items) > 0)
    make = {'Named0': lambda i: Named0(), 'Named1': lambda i: Named1(*i),
            'Named2': lambda i: Named2(*i), 'Named3': lambda i: Named3(*i),
            'Slotted': Slotted, 'MySet': MySet, 'UserList': MyList,
            'OrderedDict': lambda i: collections.OrderedDict((k, k) for k in i),
            'Counter': lambda i: collections.Counter({k: k for k in i}),
            'Counted': lambda i: Counted({k: k for k in i})}[name]
    given = [str(i) if bad and n == 0 else i for n, i in enumerate(items)]
    value = make(given)
    leaf = properties.Property('') if elem == 'Any' else getattr(properties, elem)('')
    options = {'coerce': coerce}
    if kind != 'Tuple':
        options['observe_mutations'] = observe
    if kind == 'Dictionary':
        prop = properties.Dictionary('', value_prop=leaf, **options)
    else:
        prop = getattr(properties, kind)('', leaf, **options)
    outer, wrap, unwrap = prop, lambda v: v, lambda v: v
    if place == 'list':
        outer, wrap, unwrap = properties.List('', prop), lambda v: [v], lambda v: v[0]
    elif place == 'dict':
        outer = properties.Dictionary('', value_prop=prop)
        wrap, unwrap = lambda v: {'k': v}, lambda v: v['k']
    elif place == 'union':
        outer = properties.Union('', [properties.Bool(''), prop])

    class Holder(properties.HasProperties):
        val = outer
    obj = Holder()
    if bad and items and elem != 'Any':
        ctx.raises(properties.ValidationError, lambda: setattr(obj, 'val', wrap(value)),
                   '%s with text as first element' % name)
        ctx.check(obj.val is None, 'refused value stored')
        return
    try:
        obj.val = wrap(value)
    except Exception as err:                                    # pylint: disable=broad-except
        ctx.fail('%r to a %s property: %s: %s' % (value, kind, type(err).__name__, err))
    for turn in range(2):
        stored = unwrap(obj.val)
        cls = type(value)
        if kind == 'Dictionary' and coerce:
            cls = dict
        ctx.check(isinstance(stored, cls), 'stored a %s for a %s', type(stored).__name__,
                  name)
        if not observe and not (kind == 'Dictionary' and coerce):
            ctx.check(type(stored) is type(value), 'stored a %s for a %s',
                      type(stored).__name__, name)
        ctx.check(stored is not value, 'stored the container passed in')
        if kind == 'Dictionary':
            got, want = list(stored.items()), list(value.items())
            last = [v for _, v in got]
        else:
            got, want = list(stored), list(value)
            last = got
        ctx.check(got == want or (kind == 'Set' and stored == value), 'stored %r for %r',
                  stored, value)
        if elem == 'Float':
            ctx.check(all(type(v) is float for v in last), 'elements are %r', last)
        if name.startswith('Named') and items:
            ctx.check(stored.one == value.one, 'field one is %r', stored.one)
        ctx.check(obj.validate() is True, 'the stored value is not valid')
        if turn == 0:
            seen = []
            properties.observer(obj, 'val', change_only=True)(
                lambda inst, change: seen.append(change))
            obj.val = obj.val
            ctx.check(not seen, 'setting the current value reported a change')


def known_finding(case):
    """Does the recorded finding still fail?"""
    value = {'defaultdict-observed': collections.defaultdict(int, {'a': 1})}[case]
    prop = properties.Dictionary('', observe_mutations=True)
    try:
        return prop.validate(None, value) != {'a': 1}
    except TypeError:
        return True
