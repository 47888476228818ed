"""C12: copying and equality"""
import json

import numpy as np
import properties
from hypothesis import strategies as st

from vlib import gens, model
from vlib.common import has_union
from vlib.harness import facet
from vlib.values import V, build

from .c04 import array_spec, array_value
from .c09 import mutate
from .c10 import empty, types_of

ID = 'C12'
RULE = ('random object graphs (nested containers, unions, instances of declared classes '
        'and of subclasses, arrays), pairs built separately and then changed at one place '
        'at any depth; non-trivial: an object was copied and changed, or two objects '
        'compared')
FACETS = []
ASSUMPTIONS = [
    'values without a JSON form, or whose JSON an earlier union member also loads, are not '
    'claimed to copy', 'floats closer than the tolerance (1e-9) count as equal; at the '
    'tolerance itself nothing is claimed']


def specialise(draw, raw, specs):
    """Put instances of subclasses where instances of a base class are"""
    if isinstance(raw, V):
        if raw.kind == 'inst':
            index, values = raw.args
            values = {k: specialise(draw, v, specs) for k, v in values.items()}
            subs = [i for i, one in enumerate(specs) if one.get('base') == index and
                    not set(values) & {n for n, _ in one['props']}]
            if subs and draw(st.booleans()):
                index = draw(st.sampled_from(subs))
            return V('inst', index, values)
        if raw.kind == 'sub':
            return V('sub', raw.args[0], specialise(draw, raw.args[1], specs))
        return raw
    if isinstance(raw, (list, tuple)):
        return type(raw)([specialise(draw, v, specs) for v in raw])
    if isinstance(raw, dict):
        return {k: specialise(draw, v, specs) for k, v in raw.items()}
    return raw


@st.composite
def family(draw):
    specs = draw(gens.class_specs(count=3, depth=draw(st.integers(1, 2))))
    top = len(specs) - 1
    if draw(st.integers(0, 1)):      # a subclass of something, so that values can be one
        specs = specs + [{'name': 'Sub', 'props': [('extra', {'t': 'Integer'})],
                          'base': draw(st.integers(0, max(0, top - 1)))}]
    init = draw(gens.instance_case(specs, top, fill=0.85, max_size=3))
    return specs, top, {k: specialise(draw, v, specs) for k, v in init.items()}


@st.composite
def copy_cases(draw):
    specs, top, init = draw(family())
    ops = draw(st.lists(st.tuples(
        st.integers(0, 30), st.sampled_from(['add', 'drop', 'swap', 'repeat']),
        gens.junk()), min_size=1, max_size=4))
    return specs, top, init, ops, draw(st.booleans())


def shared(one, two):
    """Mutable objects that both graphs contain"""
    a, b = {}, {}
    collect(one, a)
    collect(two, b)
    return [a[k] for k in a if k in b]


def collect(val, out):
    if isinstance(val, properties.HasProperties):
        if id(val) in out:
            return
        out[id(val)] = val
        for name in val._props:
            if isinstance(val._props[name], (properties.basic.DynamicProperty,
                                             properties.Renamed)):
                continue
            collect(getattr(val, name), out)
    elif isinstance(val, (list, set, dict, np.ndarray)):
        out[id(val)] = val
    if isinstance(val, dict):
        for key, item in val.items():
            collect(key, out)
            collect(item, out)
    elif isinstance(val, (list, tuple, set)):
        for item in val:
            collect(item, out)


def builtins(picture):
    """The picture with container subclasses as builtins (JSON has no others)"""
    if isinstance(picture, (list, tuple)):
        return type(picture)(builtins(v) for v in picture)
    return {'MyList': 'list', 'MyTuple': 'tuple', 'MySet': 'set', 'MyDict': 'dict'}.get(
        picture, picture) if isinstance(picture, str) else picture


@facet('copies', strategy=copy_cases, quick=1300, shards=4)
def check_copies(case, ctx):
    specs, top, init, ops, reverse = case
    env = model.Env(specs)
    if not all(model.has_json_keys(s) for one in specs for _, s in one['props']):
        ctx.label('no JSON keys')
        return
    obj = env.make_inst(top, init)
    unions = any(has_union(s) for one in specs for _, s in one['props'])
    if unions:
        res = model.load_inst(top, model.json_of({'t': 'Instance', 'cls': top}, obj, env),
                              env, model.Opts(trusted=True))
        if res[0] != 'ok' or not model.same(res[1], obj, env):
            ctx.label('ambiguous in JSON')
            return
    fired = []
    properties.observer(obj, properties.everything, lambda o, c: fired.append(c))
    picture = model.describe(obj)
    twin = properties.copy(obj)
    ctx.nontrivial()
    ctx.check(type(twin) is type(obj) and twin is not obj, 'copy is %r', twin)
    ctx.check(model.describe(obj) == picture, 'copying changed the object')
    ctx.check(not fired, 'copying notified')
    ctx.check(builtins(model.describe(twin)) == builtins(picture), 'copy is %r, original %r',
              model.describe(twin), picture)
    ctx.check(properties.equal(obj, twin) is True and properties.equal(twin, obj) is True,
              'copy not equal: %r', picture)
    both = shared(obj, twin)
    ctx.check(not both, 'copy shares %r', both)
    before = model.describe(twin if reverse else obj)
    first, second = (obj, twin) if reverse else (twin, obj)
    for op in ops:
        try:
            mutate(first, env, op, ctx)
        except TypeError:
            ctx.label('unhashable')
    ctx.check(model.describe(second) == before, 'changing one changed the other to %r',
              model.describe(second))
    if not reverse:
        ctx.check(not fired, 'changing the copy notified listeners of the original')
    ctx.check(not shared(first, second) or any(isinstance(o[2], V) for o in ops),
              'sharing after changes')


# ------------------------------------------------- equality

def leaves(raw, path=()):
    """Paths of all places in a raw value that can be changed"""
    out = [path]
    if isinstance(raw, V):
        if raw.kind in ('inst', 'sub'):
            out += leaves(raw.args[1], path + ('V',))
    elif isinstance(raw, (list, tuple)):
        for i, val in enumerate(raw):
            out += leaves(val, path + (i,))
    elif isinstance(raw, dict):
        for i, val in enumerate(raw.values()):
            out += leaves(val, path + (i,))
    return out


def change_at(raw, path, how, new):
    if not path:
        return changed(raw, how, new)
    step, rest = path[0], path[1:]
    if step == 'V':
        return V(raw.kind, raw.args[0], change_at(raw.args[1], rest, how, new))
    if isinstance(raw, (list, tuple)):
        items = list(raw)
        items[step] = change_at(items[step], rest, how, new)
        return type(raw)(items)
    key = list(raw)[step]
    out = dict(raw)
    out[key] = change_at(raw[key], rest, how, new)
    return out


def well_formed(raw):
    if isinstance(raw, V):
        if raw.kind == 'inst':
            return isinstance(raw.args[1], dict) and well_formed(raw.args[1])
        return raw.kind != 'sub' or (isinstance(raw.args[1], (list, tuple, set, dict, int,
                                                              float, str)) and
                                     well_formed(raw.args[1]))
    if isinstance(raw, (list, tuple)):
        return all(well_formed(v) for v in raw)
    if isinstance(raw, dict):
        return all(isinstance(k, (str, int, float, tuple)) and well_formed(v)
                   for k, v in raw.items())
    return True


def changed(raw, how, new):
    if how == 'replace':
        return new
    if isinstance(raw, bool):
        return not raw
    if isinstance(raw, int):
        return raw + (1 if how == 'up' else -1)
    if isinstance(raw, float):
        return raw * 2 + 1 if how == 'up' else raw + 1e-12
    if isinstance(raw, str):
        return raw + 'x' if how == 'up' else raw[:-1]
    if isinstance(raw, (list, tuple)) and raw:
        if how == 'up':
            return raw + raw[-1:]
        if how == 'down':
            return raw[:-1]
        return raw[::-1]
    if isinstance(raw, set) and raw:
        return set(sorted(raw, key=repr)[1:])
    if isinstance(raw, dict) and raw:
        keys = list(raw)
        if how == 'up':
            return {k: raw[k] for k in reversed(keys)}
        return {k: raw[k] for k in keys[:-1]}
    if isinstance(raw, V) and raw.kind == 'inst':
        return V('inst', raw.args[0], changed(raw.args[1], 'down', None))
    return new


@st.composite
def equal_cases(draw):
    specs, top, init = draw(family())
    if draw(st.integers(0, 5)) == 0:
        return specs, top, init, draw(gens.instance_case(specs, top, max_size=2))
    other = dict(init)
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2]))):
        if not other:
            break
        name = draw(st.sampled_from(list(other)))
        paths = leaves(other[name])
        path = draw(st.sampled_from(paths))
        how = draw(st.sampled_from(['up', 'down', 'swap', 'replace', 'missing']))
        if how == 'missing':
            other.pop(name)
        else:
            new = change_at(other[name], path, how, draw(gens.scalars()))
            if well_formed(new):
                other[name] = new
    return specs, top, init, other


@facet('equality', strategy=equal_cases, quick=1800, shards=5)
def check_equality(case, ctx):
    specs, top, one, two = case
    env = model.Env(specs)
    a, again = env.make_inst(top, one), env.make_inst(top, one)
    ctx.nontrivial()
    for other in (a, again):
        ctx.check(properties.equal(a, other) is True, 'not equal to itself: %r',
                  model.describe(a))
    ctx.check(properties.equal(again, a) is True, 'not symmetric')
    if one == two:
        return
    try:
        b = env.make_inst(top, two)
    except (ValueError, TypeError):
        ctx.label('refused')
        return
    pictures = model.describe(a), model.describe(b)
    got, back = properties.equal(a, b), properties.equal(b, a)
    ctx.check(pictures == (model.describe(a), model.describe(b)), 'comparing changed them')
    ctx.check(got is back, 'equal is %r one way, %r the other', got, back)
    want = model.inst_equal(a, b, env)
    if want is None:
        ctx.label('unclaimed equality')
        return
    ctx.label('equal' if want else 'different')
    ctx.check(got is want, 'equal is %r for %r and %r', got, *pictures)


# ------------------------------------------------- classes and other values

@st.composite
def class_cases(draw):
    kinds = ['base', 'sub', 'namesake', 'twin']
    return (draw(st.sampled_from(kinds)), draw(st.sampled_from(kinds)),
            draw(st.sampled_from([1, 1, 2, None])), draw(st.sampled_from([1, 1, 2, None])),
            draw(st.sampled_from(['top', 'List', 'Tuple', 'Dictionary', 'Union', 'Any',
                                  'Instance', 'Set'])), draw(gens.scalars()))


@facet('classes', strategy=class_cases, quick=900, shards=1)
def check_classes(case, ctx):
    kind1, kind2, num1, num2, where, other = case

    def declare(name, base):
        return type(properties.HasProperties)(str(name), (base,), {
            'num': properties.Integer('')} if base is properties.HasProperties else {})
    base = declare('Base', properties.HasProperties)
    classes = {'base': base, 'sub': declare('Sub', base), 'namesake': declare('Base', base),
               'twin': declare('Base', properties.HasProperties)}
    one = classes[kind1]() if num1 is None else classes[kind1](num=num1)
    two = classes[kind2]() if num2 is None else classes[kind2](num=num2)
    want = kind1 == kind2 and num1 == num2
    ctx.nontrivial()
    other = build(other)
    for val in (other, None, {}, 'x'):
        ctx.check(not properties.equal(one, val) and not properties.equal(val, one),
                  'equal to %r', val)
    ctx.check(properties.equal(other, other) == (other == other), 'plain values differ')
    ctx.raises(ValueError, lambda: properties.copy(other), 'copying %r' % (other,))
    if where == 'top':
        ctx.check(properties.equal(one, two) is want, 'equal is not %r', want)
        ctx.check(properties.equal(two, one) is want, 'equal is not %r', want)
        return
    props = properties
    item = props.Instance('', props.HasProperties)
    prop = {
        'List': lambda: props.List('', item), 'Tuple': lambda: props.Tuple('', item),
        'Dictionary': lambda: props.Dictionary('', value_prop=item),
        'Union': lambda: props.Union('', [props.Integer(''), item]),
        'Any': lambda: props.Property(''), 'Instance': lambda: item,
        'Set': lambda: props.Set('', item),
    }[where]()

    class Outer(props.HasProperties):
        val = prop

    def wrap(val):
        return {'List': [val], 'Tuple': (val,), 'Dictionary': {'k': val},
                'Set': {val}}.get(where, val)
    first, second = Outer(val=wrap(one)), Outer(val=wrap(two))
    ctx.check(properties.equal(first, Outer(val=wrap(one))) is True,
              'not equal with the same value')
    if where in ('Any', 'Set'):
        return
    for x, y in ((first, second), (second, first)):
        ctx.check(properties.equal(x, y) is want, 'equal of outer objects is not %r', want)


# ------------------------------------------------- arrays, other types, options

@st.composite
def array_cases(draw):
    spec = draw(array_spec())
    value = draw(array_value(spec))
    return (spec, value, draw(st.sampled_from(['none', 'List', 'Tuple', 'Dictionary',
                                               'Instance'])),
            draw(st.sampled_from([0, 1e-12, 1e-10, 1e-6, 1e-3, 1, 'nan', 'shape'])),
            draw(st.integers(0, 9)))


@facet('arrays', strategy=array_cases, quick=900, shards=2)
def check_arrays(case, ctx):
    spec, raw, wrap, delta, where = case

    class Holder(properties.HasProperties):
        val = model.make(spec)
    try:
        obj = Holder(val=build(raw))
    except ValueError:
        ctx.label('refused')
        return
    arr = np.array(obj.val)
    ctx.nontrivial()
    ctx.label(spec['t'])
    same = Holder(val=build(raw))
    ctx.check(properties.equal(obj, same) is True, '%r not equal to itself', obj.val)
    if not empty(obj.val):
        outer = obj
        if wrap != 'none':
            prop = properties.Instance('', Holder)
            outer_prop = {
                'List': lambda: properties.List('', prop),
                'Tuple': lambda: properties.Tuple('', prop),
                'Dictionary': lambda: properties.Dictionary('', value_prop=prop),
                'Instance': lambda: prop}[wrap]()

            class Outer(properties.HasProperties):
                top = outer_prop
            outer = Outer(top={'List': [obj], 'Tuple': (obj,), 'Dictionary': {'k': obj},
                               'Instance': obj}[wrap])
        twin = properties.copy(outer)
        ctx.check(properties.equal(outer, twin) is True and
                  properties.equal(twin, outer) is True, 'copy of %r is not equal: %r',
                  model.describe(outer), model.describe(twin))
        ctx.check(not shared(outer, twin), 'copy shares an array')
        if twin is not outer:
            inner = twin if wrap == 'none' else {
                'List': lambda: twin.top[0], 'Tuple': lambda: twin.top[0],
                'Dictionary': lambda: twin.top['k'], 'Instance': lambda: twin.top}[wrap]()
            ctx.check(types_of(inner.val) == types_of(obj.val), 'copied to %r', inner.val)
            ctx.check(not np.shares_memory(inner.val, obj.val), 'shared memory')
            if inner.val.size:
                inner.val[...] = 0
                ctx.check(np.array_equal(np.array(obj.val), arr,
                                         equal_nan=arr.dtype.kind == 'f'),
                          'writing to the copy changed the original')
    if 'length' in spec or not arr.size or arr.dtype.kind != 'f':
        return
    other = arr.copy()
    if delta == 'shape':
        if spec['t'] != 'Array' or arr.ndim != 1 or spec.get('shape', ('*',)) != ('*',):
            return
        other = other[:-1]
        want = False
    else:
        spot = other.reshape(-1)
        old = spot[where % spot.size]
        spot[where % spot.size] = old + (float('nan') if delta == 'nan' else delta)
        new = spot[where % spot.size]
        if abs(old) == float('inf'):
            return
        diff = abs(new - old)
        if diff != diff:
            want = bool(old != old and new != new)
        elif diff <= 5e-10:
            want = True
        elif diff > 2e-9 + 1.1e-5 * abs(old):
            want = False
        else:
            return
    try:
        other = Holder(val=other)
    except ValueError:
        return
    ctx.check(properties.equal(obj, other) is want and properties.equal(other, obj) is want,
              'equal of %r and %r is not %r', obj.val, other.val, want)


@st.composite
def option_cases(draw):
    return (draw(st.dictionaries(st.sampled_from(['flavor', 'include_class', 'trusted',
                                                  'strict', 'assert_valid']),
                                 st.booleans())),
            draw(st.booleans()), draw(st.booleans()), draw(st.booleans()))


@facet('options', strategy=option_cases, quick=300, shards=1)
def check_options(case, ctx):
    options, sub, full, removed = case
    log = []

    class Inner(properties.HasProperties):
        num = properties.Integer('', serializer=lambda v, **kw: (log.append(kw), v)[1],
                                 deserializer=lambda v, **kw: (log.append(kw), v)[1])
        must = properties.Integer('')
        given = properties.Integer('', default=5)

    class Sub(Inner):
        more = properties.Integer('', default=9)

    class Outer(properties.HasProperties):
        inner = properties.Instance('', Inner)
    inner = (Sub if sub else Inner)(num=3)
    if full:
        inner.must = 4
    inner.given = 6
    if removed:
        if sub:
            del inner.given
        else:
            inner.given = 7
    obj = Outer(inner=inner)
    ctx.nontrivial(bool(options))
    if options.get('assert_valid') and not full:
        ctx.raises(ValueError, lambda: properties.copy(obj, **options), 'incomplete copy')
        return
    if (options.get('strict') and sub and (
            options.get('include_class', True) is False or
            options.get('trusted', True) is False)):
        ctx.raises(ValueError, lambda: properties.copy(obj, **options), 'strict copy')
        return
    twin = properties.copy(obj, **options)
    ctx.check(len(log) == 2, '%d calls', len(log))
    for kwargs in log:
        want = dict({'include_class': True, 'trusted': True}, **options)
        for key in options:
            if key not in ('assert_valid', 'strict'):
                ctx.check(kwargs.get(key) is want[key], '%s in %r', key, kwargs)
        ctx.check(kwargs.get('trusted') is want['trusted'], 'trusted in %r', kwargs)
    keeps = options.get('include_class', True) and options.get('trusted', True)
    ctx.check(type(twin.inner) is (type(inner) if keeps else Inner),
              'copied to a %s', type(twin.inner))
    ctx.check(twin.inner.num == 3 and twin.inner.must == inner.must, 'values lost')
    ctx.check(twin.inner.given == (inner.given if inner.given is not None else 5),
              'given is %r', twin.inner.given)
    ctx.check(json.dumps(obj.serialize()) is not None, 'no JSON')


# ------------------------------------------------- containers that declare nothing

PLAIN = st.sampled_from([None, 0, 1, -1, 0.0, True, False, '', 'x', 'X'])


@st.composite
def plain_values(draw, depth=2):
    how = draw(st.sampled_from(['leaf', 'leaf', 'list', 'tuple', 'dict']))
    if how == 'leaf' or depth == 0:
        return draw(PLAIN)
    if how == 'dict':
        return draw(st.dictionaries(st.sampled_from('abc'), plain_values(depth - 1),
                                    max_size=2))
    items = draw(st.lists(plain_values(depth - 1), max_size=2))
    return tuple(items) if how == 'tuple' else items


@st.composite
def plain_pairs(draw):
    kind = draw(st.sampled_from(['Dictionary', 'Dictionary', 'List', 'Tuple', 'Set']))
    leaf = draw(st.sampled_from([plain_values(), PLAIN]))
    if kind == 'Dictionary':
        one = st.dictionaries(st.sampled_from(['a', 'b', 'c', 1, None]), leaf, max_size=3)
    elif kind == 'Set':
        one = st.lists(PLAIN, max_size=3).map(set)
    else:
        one = st.lists(leaf, max_size=3)
    first = draw(one)
    second = draw(one)
    how = draw(st.sampled_from(['free', 'free', 'same', 'rename', 'value']))
    if how == 'same' or (how == 'rename' and kind != 'Dictionary'):
        second = first
    elif how == 'rename' and first:
        key = draw(st.sampled_from(sorted(first, key=repr)))
        second = {('z' if k == key else k): v for k, v in first.items()}
    elif how == 'value' and isinstance(first, list) and first:
        second = list(first)
        second[draw(st.integers(0, len(first) - 1))] = draw(leaf)
    elif how == 'value' and isinstance(first, dict) and first:
        second = dict(first)
        second[draw(st.sampled_from(sorted(first, key=repr)))] = draw(leaf)
    return kind, first, second


def as_kind(kind, raw):
    value = build(raw)
    return tuple(value) if kind == 'Tuple' else value


@facet('plain', strategy=plain_pairs, quick=1000, shards=1)
def check_plain(case, ctx):
    """Containers of anything are equal when Python says so"""
    kind, first, second = case
    one, two = as_kind(kind, first), as_kind(kind, second)
    prop = getattr(properties, kind)('anything')
    want = one == two
    ctx.nontrivial(bool(one) and bool(two))
    ctx.label('%s %s' % (kind, want))
    for left, right in ((one, two), (two, one)):
        ctx.check(prop.equal(left, right) is want, '%s: equal(%r, %r) is not %r', kind, left,
                  right, want)

    class Holder(properties.HasProperties):
        val = prop
    left, right = Holder(val=one), Holder(val=two)
    ctx.check(properties.equal(left, right) is want, 'objects holding %r and %r', one, two)
    log = []
    properties.observer(left, 'val', lambda o, c: log.append(c['value']), change_only=True)
    left.val = two
    ctx.check(bool(log) is not want, 'changing %r to %r notified %r', one, two, log)


# ------------------------------------------------- classes of the same name

@st.composite
def namesakes(draw):
    classes = draw(st.lists(st.tuples(
        st.sampled_from(['Same', 'Same', 'Other']),
        st.dictionaries(st.sampled_from('abc'), st.integers(0, 5), max_size=2),
        st.booleans()), min_size=2, max_size=4))
    return classes


@facet('namesakes', strategy=namesakes, quick=300, shards=1)
def check_namesakes(case, ctx):
    """A copy is of the very class of the original, whatever else has that name"""
    made = []
    for name, values, nested in case:
        body = {n: properties.Integer('number') for n in values}
        if nested and made:
            body['inner'] = properties.Instance('one of these', made[-1][0])
        cls = type(properties.HasProperties)(name, (properties.HasProperties,), body)
        obj = cls(**values)
        if 'inner' in body:
            obj.inner = made[-1][1]
        made.append((cls, obj))
    ctx.nontrivial(len({n for n, _, _ in case}) < len(case))
    for cls, obj in made:
        twin = properties.copy(obj)
        ctx.check(type(twin) is cls and properties.equal(twin, obj), 'the copy of %r is %r',
                  model.describe(obj), model.describe(twin))
        if 'inner' in cls._props:
            ctx.check(type(twin.inner) is type(obj.inner) and twin.inner is not obj.inner,
                      'the inner object became %r', twin.inner)
    for cls, obj in made:
        for other, two in made:
            if cls is not other:
                ctx.check(not properties.equal(obj, two), 'objects of two classes are equal')


# ------------------------------------------------- sets with several equal items

@st.composite
def cluster_sets(draw):
    """Items as (cluster, variant): items of one cluster are equal, but not the same"""
    item = st.tuples(st.integers(0, 3), st.integers(0, 3))
    one = draw(st.lists(item, unique=True, max_size=5))
    how = draw(st.sampled_from(['free', 'variants', 'variants', 'one off', 'one off']))
    if how == 'free':
        two = draw(st.lists(item, unique=True, max_size=5))
    else:
        two = []
        for cluster, _ in one:
            free = [(cluster, v) for v in range(4) if (cluster, v) not in two]
            two.append(draw(st.sampled_from(free)))
        if how == 'one off' and two:
            place = draw(st.integers(0, len(two) - 1))
            new = draw(item)
            if new not in two:
                two[place] = new
        two = draw(st.permutations(two))
    return (draw(st.sampled_from(['float', 'object', 'tuple', 'union', 'complex'])), one, two,
            draw(st.booleans()))


@facet('sets', strategy=cluster_sets, quick=1500, shards=1)
def check_sets(case, ctx):
    """Sets are equal exactly if their items pair up"""
    kind, one, two, observed = case

    class Item(properties.HasProperties):
        num = properties.Float('')

    prop = {'float': lambda: properties.Float(''), 'complex': lambda: properties.Complex(''),
            'object': lambda: properties.Instance('', Item),
            'tuple': lambda: properties.Tuple('', properties.Float('')),
            'union': lambda: properties.Union('', [properties.String(''),
                                                   properties.Float('')])}[kind]()

    class Holder(properties.HasProperties):
        val = properties.Set('', prop, observe_mutations=observed)

    def item(cluster, variant):
        num = cluster + variant * 1e-11
        if kind == 'object':
            return Item(num=num)
        return {'tuple': (num, 0.0), 'complex': complex(0, num)}.get(kind, num)
    log = []
    a = Holder(val=set(item(*pair) for pair in one))
    b = Holder(val=set(item(*pair) for pair in two))
    properties.observer(a, 'val', lambda obj, change: log.append(1), change_only=True)
    clusters = sorted(c for c, _ in one), sorted(c for c, _ in two)
    want = clusters[0] == clusters[1]
    ctx.nontrivial(any(len(set(c)) < len(c) for c in clusters))
    ctx.label('%s %s' % (kind, 'same' if want else 'different'))
    ctx.check(properties.equal(a, b) is want, 'sets of %r and %r: %r', one, two, not want)
    ctx.check(properties.equal(b, a) is want, 'sets of %r and %r: %r', two, one, not want)
    ctx.check(properties.equal(a, a) is True, 'not equal to itself')
    ctx.check(len(a.val) == len(one) and len(b.val) == len(two), 'comparing changed the sets')
    held = set(b.val)
    a.val = held
    ctx.check(bool(log) is not want, 'change notified %r from %r to %r', log, one, two)


# ------------------------------------------------- arrays that are almost equal

@st.composite
def border_cases(draw):
    base = draw(st.sampled_from([1.0, -1.0, 3.0, 0.5, -20.0, 1000.0, 0.0, 1e-9, 1e6]))
    return (draw(st.sampled_from(['Array', 'Vector3', 'Vector2', 'Vector3Array', 'List',
                                  'Union'])), base,
            draw(st.sampled_from([1, -1])),
            draw(st.one_of(st.floats(-2e-5, 2e-5), st.sampled_from([0.0, 5e-6, 1e-5]))),
            draw(st.integers(0, 1)))


@facet('borders', strategy=border_cases, quick=800, shards=1)
def check_borders(case, ctx):
    """Equality of arrays near the limit of what still counts as equal is symmetric,
    and the same on its own, in an object and in change detection"""
    kind, base, sign, part, place = case
    other = base + sign * (1e-9 + 1e-5 * abs(base)) * (1 + part)
    ctx.nontrivial(other != base)
    ctx.label(kind)

    def spread(num):
        row = [0.0, 0.0]
        row[place] = num
        if kind in ('Vector3', 'Vector3Array'):
            row = row + [2.0]
        return [row] if kind == 'Vector3Array' else row
    prop = {
        'Array': lambda: properties.Array(''), 'Vector3': lambda: properties.Vector3(''),
        'Vector2': lambda: properties.Vector2(''),
        'Vector3Array': lambda: properties.Vector3Array(''),
        'List': lambda: properties.List('', properties.Array('')),
        'Union': lambda: properties.Union('', [properties.String(''),
                                               properties.Array('')])}[kind]()

    class Holder(properties.HasProperties):
        val = prop

    def make(num):
        return Holder(val=[spread(num)] if kind == 'List' else spread(num))
    one, two = make(base), make(other)
    there = properties.equal(one, two)
    ctx.check(there == properties.equal(two, one), 'equal of %r and %r depends on the order',
              base, other)
    ctx.check(bool(prop.equal(one.val, two.val)) == bool(there) ==
              bool(prop.equal(two.val, one.val)), 'the property and the objects differ')
    seen = []
    properties.observer(one, 'val', lambda obj, change: seen.append(1), change_only=True)
    one.val = two.val
    ctx.check(bool(seen) is not bool(there), 'change notified %r, equal is %r', seen, there)
