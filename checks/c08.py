"""C08: instance properties"""
import properties
from hypothesis import strategies as st

from vlib import gens, model
from vlib.common import decide
from vlib.harness import facet
from vlib.values import V, build

ID = 'C08'
RULE = ('random class families (inheritance, nested instances and containers) with an '
        'instance, a keyword dictionary (valid, with bad values, unknown or non-text '
        'keys, nested dictionaries), a constructor argument or anything else; '
        'non-trivial: the value is an instance, a dictionary or a constructor argument '
        'for the class')
FACETS = []


@st.composite
def nested_keywords(draw, specs, index, depth=2, bad=1):
    """Keywords for a class, with dictionaries for inner instances"""
    props = gens.props_of(specs)
    out = {}
    for name, sub in props(index):
        pick = draw(st.integers(0, 9))
        if pick == 0:
            continue
        if pick <= bad:
            out[name] = draw(gens.candidate(sub, props, 2) if bad == 1 else
                             st.one_of(gens.junk(), gens.near(sub, props)))
        elif sub['t'] == 'Instance' and depth and pick < 8:
            out[name] = draw(nested_keywords(specs, sub['cls'], depth - 1, bad))
        else:
            out[name] = draw(gens.valid_value(sub, props, 3))
    pick = draw(st.integers(0, 19)) if bad == 1 else 2
    if pick == 0:
        out[draw(st.sampled_from(['zz_unknown', 'alphabet', '']))] = 1
    elif pick == 1:
        out[draw(st.sampled_from([1, None, (1, 2)]))] = 1
    return out


@st.composite
def cases(draw):
    specs = draw(gens.class_specs(count=4, depth=1))
    index = draw(st.integers(0, len(specs) - 1))
    props = gens.props_of(specs)
    spec = {'t': 'Instance', 'cls': index}
    wrap = draw(st.integers(0, 7))
    kind = draw(st.integers(0, 9))
    if kind < 5:
        value = draw(nested_keywords(specs, index))
        if draw(st.integers(0, 5)) == 0:
            value = V('sub', 'MyDict', value)
    elif kind < 8:
        # an instance of any of the classes, related or not
        other = draw(st.integers(0, len(specs) - 1))
        value = V('inst', other, draw(gens.instance_case(specs, other, fill=0.5)))
    else:
        value = draw(gens.candidate(spec, props))
    if wrap == 0:
        spec, value = {'t': 'List', 'prop': spec}, [value]
    elif wrap == 1:
        spec = {'t': 'Dictionary', 'key_prop': {'t': 'String'}, 'value_prop': spec}
        value = {'k': value}
    elif wrap == 2:
        spec, value = {'t': 'Tuple', 'prop': spec}, (value, value)
    return specs, spec, value


@facet('assign', strategy=cases, quick=1200, shards=5)
def check_assign(case, ctx):
    specs, spec, raw = case
    env = model.Env(specs)
    value = build(raw, env.builders())
    picture = model.describe(value)
    decide(spec, value, ctx, env)
    ctx.nontrivial(isinstance(raw, (dict, list, tuple)) or (
        isinstance(raw, V) and raw.kind in ('inst', 'sub')))
    ctx.check(model.describe(value) == picture, 'the input was modified: %r to %r',
              picture, model.describe(value))
    if spec['t'] != 'Instance' or not isinstance(value, env.classes[spec['cls']]):
        return

    class Holder(properties.HasProperties):
        one = model.make(spec, env)
        two = model.make(spec, env)
        many = properties.List('', model.make(spec, env))
    obj = Holder(one=value, two=value, many=[value, value])
    ctx.label('shared')
    ctx.check(obj.one is value and obj.two is value and
              obj.many[0] is value and obj.many[1] is value,
              'an instance was not stored as the same object')
    obj.two = obj.one
    ctx.check(obj.two is value, 'passing the instance on copied it')


def bad_leaves(env, index, data):
    """Names of the properties a dictionary for a class must be refused for"""
    out = []
    known = dict(env.props(index))
    for key, item in data.items():
        sub = known[key]
        if model.accept(sub, item, env) is model.BAD:
            if sub['t'] == 'Instance' and isinstance(item, dict) and all(
                    k in dict(env.props(sub['cls'])) for k in item):
                out += bad_leaves(env, sub['cls'], item)
            else:
                out.append(key)
    return out


@st.composite
def cause_cases(draw):
    specs = draw(gens.class_specs(count=3, depth=0, unions=False))
    return specs, draw(nested_keywords(specs, len(specs) - 1, 2, 4))


@facet('causes', strategy=cause_cases, quick=900, shards=2)
def check_causes(case, ctx):
    specs, raw = case
    env = model.Env(specs)
    index = len(specs) - 1
    spec = {'t': 'Instance', 'cls': index}
    value = build(raw, env.builders())
    if any(not isinstance(k, str) or k not in dict(env.props(index)) for k in value):
        return
    if model.accept(spec, value, env) is not model.BAD:
        return
    ctx.nontrivial()
    hooked = []

    class Holder(properties.HasProperties):
        val = model.make(spec, env)

        def _error_hook(self, error_tuples):
            hooked.append([e.prop for e in error_tuples])
    obj = Holder()
    err = ctx.raises(properties.ValidationError,
                     lambda: setattr(obj, 'val', value), 'keywords %r' % (value,))
    tup = err.error_tuples[0]
    ctx.check(len(err.error_tuples) == 1 and tup.prop == 'val' and tup.instance is obj
              and tup.reason == 'invalid', 'error tuples %r', err.error_tuples)
    ctx.check(hooked == [['val']], 'error hook calls %r', hooked)
    names = bad_leaves(env, index, value)
    ctx.label('%d causes' % min(len(names), 3))
    for name in names:
        ctx.check("'%s'" % name in str(err), 'message does not name %s: %s', name, err)
    ctx.check("'val'" in str(err) and specs[index]['name'] in str(err),
              'message does not name the property or class: %s', err)
    ctx.check(obj.val is None, 'a refused value was stored')


# ------------------------------------------------- classes with constructors

def families():
    """Classes with their own constructors"""

    class Named(properties.HasProperties):
        """A positional argument and keywords"""
        title = properties.String('', default='none')
        size = properties.Integer('', min=0, required=False)

        def __init__(self, title=None, **kwargs):
            super(Named, self).__init__(**kwargs)
            if title is not None:
                self.title = title

    class Pair(object):
        """Two arguments, one optional, not a HasProperties"""

        def __init__(self, left, right=0):
            if isinstance(left, str):
                raise ValueError('left must not be text')
            if isinstance(right, bool):
                raise KeyError('right')
            self.left, self.right = left, right

    class Sub(Pair):
        pass

    class Plain(object):
        pass

    return {'Named': Named, 'Pair': Pair, 'Sub': Sub, 'Plain': Plain, 'int': int,
            'str': str, 'dict': dict, 'list': list}


def make_value(classes, raw):
    if isinstance(raw, V) and raw.kind == 'obj':
        return classes[raw.args[0]](*build(list(raw.args[1])))
    if isinstance(raw, V) and raw.kind == 'class':
        return classes[raw.args[0]]
    return build(raw)


@st.composite
def constructor_cases(draw):
    name = draw(st.sampled_from(['Named', 'Named', 'Pair', 'Pair', 'Sub', 'Plain', 'int',
                                 'str', 'dict', 'list']))
    value = draw(st.one_of(
        gens.scalars(),
        st.sampled_from([
            V('obj', 'Named', ()), V('obj', 'Named', ('t',)), V('obj', 'Pair', (1,)),
            V('obj', 'Sub', (1, 2)), V('obj', 'Plain', ()), V('class', 'Pair'),
            {'title': 'x'}, {'title': 'x', 'size': 3}, {'title': 5}, {'size': -1},
            {'left': 1}, {'left': 'a'}, {'left': 1, 'right': True},
            {'left': 1, 'right': 2, 'more': 3}, {}, {'right': 1},
            V('sub', 'MyDict', {'left': 1}), [1, 2], [[1, 2], [3, 4]], (), 'text']),
        st.dictionaries(st.sampled_from(['title', 'size', 'left', 'right', 'x']),
                        gens.scalars(), max_size=3)))
    return name, value


@facet('constructors', strategy=constructor_cases, quick=1200, shards=2)
def check_constructors(case, ctx):
    name, raw = case
    classes = families()
    cls = classes[name]
    value = make_value(classes, raw)

    class Holder(properties.HasProperties):
        val = properties.Instance('', cls)
    obj = Holder()
    if isinstance(value, cls):
        ctx.nontrivial()
        obj.val = value
        ctx.check(obj.val is value, 'an instance of %s was not kept', name)
        return
    try:
        expected = cls(**value) if isinstance(value, dict) else cls(value)
    except (ValueError, KeyError, TypeError, AttributeError, OverflowError):
        ctx.label('refused')
        ctx.nontrivial(isinstance(value, dict))
        err = ctx.raises(properties.ValidationError,
                         lambda: setattr(obj, 'val', value), '%s from %r' % (name, value))
        ctx.check("'val'" in str(err) and name in str(err),
                  'message does not name property and class: %s', err)
        ctx.check(obj.val is None, 'refused value was stored')
        ctx.raises(properties.ValidationError, lambda: Holder(val=value),
                   'constructing with %r' % (value,))
        return
    ctx.label('built')
    ctx.nontrivial()
    obj.val = value
    got = obj.val
    ctx.check(type(got) is cls, 'built a %s instead of %s', type(got).__name__, name)
    if isinstance(expected, properties.HasProperties):
        ctx.check(model.describe(got) == model.describe(expected), 'built %r, expected %r',
                  model.describe(got), model.describe(expected))
    elif hasattr(expected, '__dict__'):
        ctx.check(repr(vars(got)) == repr(vars(expected)), 'built with %r, expected %r',
                  vars(got), vars(expected))
    else:
        ctx.check(repr(got) == repr(expected), 'built %r, expected %r', got, expected)
    # each assignment of keywords builds another object
    first = obj.val
    obj.val = value
    if not isinstance(first, (int, str, tuple)):
        ctx.check(obj.val is not first, 'the same built instance was reused')


# ------------------------------------------------- defaults

@st.composite
def default_cases(draw):
    specs = draw(gens.class_specs(count=2, depth=0, cast=False))
    index = len(specs) - 1
    style = draw(st.sampled_from(['class', 'keywords', 'instance', 'func', 'auto',
                                  'subclass', 'class_defaults']))
    values = draw(gens.instance_case(specs, index, fill=0.6))
    return specs, style, values, draw(st.integers(1, 3))


@facet('defaults', strategy=default_cases, quick=500, shards=2)
def check_defaults(case, ctx):
    specs, style, raw, extra = case
    env = model.Env(specs)
    index = len(specs) - 1
    cls = env.classes[index]
    ctx.label(style)
    ctx.nontrivial()
    kwargs = build(raw, env.builders())
    bare = style in ('class', 'auto', 'subclass')
    if style == 'class':
        body = {'val': properties.Instance('', cls, default=cls)}
    elif style == 'subclass':
        sub = type(cls)(str('SubOf'), (cls,), {})
        body = {'val': properties.Instance('', cls, default=sub)}
    elif style == 'auto':
        body = {'val': properties.Instance('', cls, auto_create=True)}
    elif style == 'keywords':
        body = {'val': properties.Instance('', cls, default=kwargs)}
    elif style == 'func':
        body = {'val': properties.Instance('', cls, default=lambda: cls(**kwargs))}
    elif style == 'class_defaults':
        body = {'val': properties.Instance('', cls), '_defaults': {'val': kwargs}}
    else:
        single = cls(**kwargs)
        body = {'val': properties.Instance('', cls, default=single)}
    holder = type(properties.HasProperties)('Holder', (properties.HasProperties,), body)
    objs = [holder() for _ in range(extra + 1)]
    want = model.describe(cls() if bare else cls(**build(raw, env.builders())))
    for obj in objs:
        got = obj.val
        ctx.check(isinstance(got, cls), 'default is %r', got)
        ctx.check(model.describe(got)[1:] == want[1:], 'default is %r, expected %r',
                  model.describe(got), want)
        if style == 'subclass':
            ctx.check(type(got) is sub, 'default is a %s', type(got))
    vals = [obj.val for obj in objs]
    if style == 'instance':
        ctx.check(all(v is single for v in vals), 'the given instance was copied')
    else:
        ctx.check(len(set(id(v) for v in vals)) == len(vals),
                  'objects share their default instance')


# ------------------------------------------------- constructors giving other classes

@st.composite
def registered_cases(draw):
    """A family of singletons: constructing one may give an object of another class"""
    bases = [draw(st.sampled_from([None] + list(range(i)))) for i in range(3)]
    own = [i for i in range(3) if draw(st.integers(0, 4)) == 0]
    name = st.sampled_from(['x', 'y', 'z'])
    index = st.integers(0, 2)
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('make'), index, name),
        st.tuples(st.just('assign'), index, st.sampled_from(['text', 'dict', 'init']), name)),
        min_size=2, max_size=10))
    return bases, own, ops


@facet('registered', strategy=registered_cases, quick=500, shards=1)
def check_registered(case, ctx):
    bases, own, ops = case
    from properties.extras import Singleton
    meta = type(Singleton)
    root = meta(str('Root'), (Singleton,), {'_SINGLETONS': {}})
    classes, registry = [], []
    for i, base in enumerate(bases):
        body = {'_SINGLETONS': {}} if i in own else {}
        parent = root if base is None else classes[base]
        classes.append(meta(str('Kind%d' % i), (parent,), body))
        registry.append(classes[i]._SINGLETONS)
    body = {'val%d' % i: properties.Instance('', cls) for i, cls in enumerate(classes)}
    holder_class = type(properties.HasProperties)(
        str('Holder'), (properties.HasProperties,), body)
    holder = holder_class()
    made = {}
    held = {}
    for op in ops:
        index, name = op[1], op[-1]
        key = (id(registry[index]), name)
        prop = 'val%d' % index
        if op[0] == 'make':
            obj = classes[index](name)
            made.setdefault(key, obj)
            continue
        known = made.get(key)
        given = {'name': name} if op[2] == 'dict' else name
        refused = known is not None and not isinstance(known, classes[index])
        ctx.label('refused' if refused else 'known' if known is not None else 'new')
        if known is not None:
            ctx.nontrivial()
        try:
            if op[2] == 'init':
                target = holder_class(**{prop: given})
            else:
                target = holder
                setattr(target, prop, given)
        except properties.ValidationError:
            ctx.check(refused, '%r refused for %r', given, prop)
            ctx.check(getattr(holder, prop) is held.get(prop), 'the refused value changed it')
            continue
        ctx.check(not refused, '%r accepted for %r', getattr(target, prop), prop)
        got = getattr(target, prop)
        ctx.check(isinstance(got, classes[index]), '%r stored for %r', got, prop)
        if known is not None:
            ctx.check(got is known, 'not the object the constructor gives')
        made.setdefault(key, got)
        if op[2] != 'init':
            held[prop] = got
