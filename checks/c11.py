"""C11: loading options"""
import copy
import json

import properties
from hypothesis import strategies as st

from vlib import gens, model
from vlib.harness import facet
from vlib.values import build

ID = 'C11'
RULE = ('serialized random object graphs with class names, keys and values changed, '
        'dropped or added at any depth, loaded with every combination of trusted, strict '
        'and assert_valid; non-trivial: the data was changed or an option is on')
FACETS = []
ASSUMPTIONS = ['unions holding text or dictionaries that a container member would take '
               'apart are not claimed']

ERRORS = (ValueError, TypeError, KeyError, AttributeError)
CLASS_NAMES = ['Cls0', 'Cls1', 'Cls2', 'Cls3', 'Nope', '', None, 'Integer', 'cls0']


@st.composite
def changes(draw):
    action = draw(st.sampled_from(['class', 'class', 'class', 'add', 'known', 'drop',
                                   'replace', 'null', 'declass']))
    where = draw(st.integers(0, 20))
    if action == 'class':
        return where, action, draw(st.sampled_from(CLASS_NAMES))
    if action in ('add', 'known'):
        key = draw(st.sampled_from(gens.NAMES if action == 'known' else ['zz', '_a', '', '__zz__', '__root__', '__', 'class', '_zz', 'zz ']))
        return where, 'add', (key, draw(json_junk()))
    return where, action, (draw(st.integers(0, 5)), draw(json_junk()))


def json_junk():
    return st.recursive(
        st.one_of(st.none(), st.booleans(), gens.small_ints(), gens.finite(),
                  gens.json_texts(4), st.sampled_from(['nan', 'red', '1', 'True'])),
        lambda s: st.one_of(st.lists(s, max_size=2),
                            st.dictionaries(st.sampled_from(gens.NAMES), s, max_size=2)),
        max_leaves=3)


@st.composite
def cases(draw):
    specs = draw(gens.class_specs(count=4, depth=draw(st.integers(1, 2)), max_props=3))
    if draw(st.integers(0, 2)) == 0:
        for one in specs:
            for _, spec in one['props']:
                if spec['t'] == 'Union':
                    spec['strict_instances'] = True
    top = draw(st.integers(0, len(specs) - 1)) if draw(st.booleans()) else len(specs) - 1
    init = draw(gens.instance_case(specs, top, fill=0.85, max_size=3))
    ops = draw(st.lists(changes(), max_size=3))
    target = draw(st.sampled_from([top, top, top, 0, len(specs) - 1]))
    opts = [draw(st.booleans()) for _ in range(3)]
    return specs, top, init, ops, target, opts


def nodes(data, out):
    if isinstance(data, dict):
        out.append(data)
        for val in data.values():
            nodes(val, out)
    elif isinstance(data, list):
        for val in data:
            nodes(val, out)


def apply_change(data, op):
    where, action, arg = op
    found = []
    nodes(data, found)
    inst = [n for n in found if '__class__' in n] or found
    node = (inst * 3 + found)[where % (3 * len(inst) + len(found))]
    keys = [k for k in node if k != '__class__']
    if action == 'class':
        node['__class__'] = arg
    elif action == 'declass':
        node.pop('__class__', None)
    elif action == 'add':
        node[arg[0]] = arg[1]
    elif keys:
        key = keys[arg[0] % len(keys)]
        if action == 'drop':
            del node[key]
        else:
            node[key] = None if action == 'null' else arg[1]


def declared(env, index, out):
    """Classes that loading class `index` may create without trust"""
    if index in out:
        return out
    out.add(index)

    def walk(spec):
        if spec['t'] == 'Instance':
            declared(env, spec['cls'], out)
        for key in ('prop', 'key_prop', 'value_prop'):
            if key in spec:
                walk(spec[key])
        for sub in spec.get('props', ()):
            walk(sub)
    for _, spec in env.props(index):
        walk(spec)
    return out


@facet('options', strategy=cases, quick=2000, shards=7)
def check_options(case, ctx):
    specs, top, init, ops, target, (trusted, strict, assert_valid) = case
    created = []

    class Base(properties.HasProperties):
        def __init__(self, **kwargs):
            created.append(type(self))
            super(Base, self).__init__(**kwargs)
    env = model.Env(specs, base=Base)
    if not all(model.has_json_keys(s) for one in specs for _, s in one['props']):
        ctx.label('no JSON keys')
        return
    obj = env.make_inst(top, {k: build(v, env.builders()) for k, v in init.items()})
    data = json.loads(json.dumps(obj.serialize()))
    for op in ops:
        apply_change(data, op)
    before = copy.deepcopy(data)
    opts = model.Opts(trusted, strict, assert_valid)
    res = model.load_inst(target, data, env, opts)
    if assert_valid and res is not model.BAD and res is not model.SKIP and \
            not is_string(data.get('__class__')):
        ctx.label('odd class name')
    registry = dict(properties.HasProperties._REGISTRY)
    del created[:]
    cls = env.classes[target]
    kwargs = {}
    if trusted or ops:
        kwargs['trusted'] = trusted
    if strict or ops:
        kwargs['strict'] = strict
    if assert_valid or ops:
        kwargs['assert_valid'] = assert_valid
    error = back = None
    try:
        back = cls.deserialize(data, **kwargs)
    except ERRORS as err:
        error = err
    ctx.check(repr(data) == repr(before), 'input changed to %r, was %r', data, before)
    ctx.check(dict(properties.HasProperties._REGISTRY) == registry, 'registry changed')
    if not trusted:
        allowed = [env.classes[i] for i in declared(env, target, set())]
        for one in created:
            ctx.check(one in allowed, 'created a %s without trust', one.__name__)
    ctx.nontrivial(bool(ops) or trusted or strict or assert_valid)
    if res is model.SKIP:
        ctx.label('skipped')
        return
    if res is model.BAD:
        ctx.label('refused')
        ctx.check(error is not None, 'loaded %r from %r with %r',
                  model.describe(back), data, kwargs)
        return
    ctx.check(error is None, 'refused %r with %r: %r', data, kwargs, error)
    ctx.label('loaded')
    ctx.check(model.same(res[1], back, env), 'loaded %r from %r, expected %r',
              model.describe(back), data, res[1])
    ctx.check(type(back) is env.classes[res[1].index], 'loaded a %s', type(back).__name__)
    if assert_valid:
        ctx.check(back.validate(), 'invalid object returned')


def is_string(val):
    return val is None or isinstance(val, str)


# ------------------------------------------------- several classes of one name

@st.composite
def named_cases(draw):
    return (draw(st.lists(st.tuples(st.sampled_from(['Ant', 'Bee', 'Cow']),
                                    st.sampled_from(['own', 'own', 'fresh'])),
                          min_size=1, max_size=6)),
            draw(st.integers(0, 5)), draw(st.sampled_from(['Ant', 'Bee', 'Cow', 'Nope'])),
            draw(st.booleans()), draw(st.booleans()),
            draw(st.sampled_from(['top', 'Instance', 'List', 'Dictionary', 'Union',
                                  'Tuple'])))


@facet('registry', strategy=named_cases, quick=900, shards=1)
def check_registry(case, ctx):
    decls, pick, name, trusted, strict, where = case
    registries = {id(properties.HasProperties._REGISTRY): {}}
    classes = []
    for i, (cname, kind) in enumerate(decls):
        body = {'num': properties.Integer('', default=i)}
        base = properties.HasProperties
        if kind == 'fresh':
            body['_REGISTRY'] = {}
        elif i % 2 and classes:
            base = classes[-1]
        cls = type(base)(str(cname), (base,), body)
        if kind == 'fresh':
            registries[id(cls._REGISTRY)] = {}
        registries[id(cls._REGISTRY)][cname] = cls
        classes.append(cls)
    target = classes[pick % len(classes)]
    own = registries[id(target._REGISTRY)]
    for cls in classes:
        for cname, known in registries[id(cls._REGISTRY)].items():
            ctx.check(cls._REGISTRY.get(cname) is known, 'registry lost %s', cname)
    ctx.nontrivial(name != target.__name__)
    data = {'__class__': name, 'num': 77}
    expected = target
    if name != target.__name__:
        if trusted and name in own:
            expected = own[name]
        elif strict:
            expected = None
    props = properties
    wrap = {
        'top': None,
        'Instance': lambda p: p,
        'List': lambda p: props.List('', p),
        'Tuple': lambda p: props.Tuple('', p),
        'Dictionary': lambda p: props.Dictionary('', value_prop=p),
        'Union': lambda p: props.Union('', [props.String(''), p]),
    }[where]
    source = data
    cls = target
    if wrap is not None:
        class Outer(props.HasProperties):
            val = wrap(props.Instance('', target))
        cls = Outer
        source = {'val': {'List': [data], 'Tuple': [data], 'Dictionary': {'k': data}}.get(
            where, data)}
    if expected is not None and not issubclass(expected, target) and where != 'top':
        expected = None     # trusted, but not what the property holds
    if expected is None:
        ctx.label('refused')
        ctx.raises(ERRORS, lambda: cls.deserialize(source, trusted=trusted, strict=strict),
                   'loading %r' % source)
        return
    back = cls.deserialize(source, trusted=trusted, strict=strict)
    if wrap is not None:
        back = {'List': lambda v: v[0], 'Tuple': lambda v: v[0],
                'Dictionary': lambda v: v['k']}.get(where, lambda v: v)(back.val)
    ctx.check(type(back) is expected and back.num == 77, 'loaded %r, expected a %r',
              back, expected)


# ------------------------------------------------- options reach every depth

@st.composite
def path_cases(draw):
    return (draw(st.lists(st.sampled_from(['List', 'Tuple', 'Set', 'Dictionary', 'Key',
                                           'Union', 'Instance', 'Renamed', 'StrictUnion']),
                          max_size=4)),
            draw(st.booleans()), draw(st.booleans()), draw(st.booleans()),
            draw(st.dictionaries(st.sampled_from(['flavor', 'depth']), gens.small_ints())))


@facet('pass_through', strategy=path_cases, quick=900, shards=1)
def check_pass_through(case, ctx):
    path, trusted, strict, include, extra = case
    got, saved = [], []

    def load(value, **kwargs):
        got.append(dict(kwargs))
        return value

    def save(value, **kwargs):
        saved.append(dict(kwargs))
        return value
    prop = properties.String('', deserializer=load, serializer=save)
    data, hashable = 'text', True
    want_strict, want_valid = strict, None
    for step in path:
        if step in ('Set', 'Key') and not hashable:
            continue
        if step in ('List', 'Tuple', 'Set'):
            prop = getattr(properties, step)('', prop)
            data, hashable = [data], False
        elif step == 'Dictionary':
            prop = properties.Dictionary('', value_prop=prop)
            data, hashable = {'k': data}, False
        elif step == 'Key':
            prop = properties.Dictionary('', key_prop=prop)
            data, hashable = {data: 1}, False
        elif step in ('Union', 'StrictUnion'):
            prop = properties.Union('', [properties.Integer(''), prop],
                                    strict_instances=step == 'StrictUnion')
        elif step in ('Instance', 'Renamed'):
            body = {'val': prop}
            if step == 'Renamed':
                body['old'] = properties.Renamed('val')
            cls = type(properties.HasProperties)('Step', (properties.HasProperties,), body)
            prop = properties.Instance('', cls)
            data, hashable = {'old' if step == 'Renamed' else 'val': data}, False
    # what the options are on the way down: a strict union is strict for its own values,
    # and stays strict below
    for step in reversed(path):
        if step == 'StrictUnion':
            want_strict = True

    class Top(properties.HasProperties):
        val = prop
    before = copy.deepcopy(data)
    back = Top.deserialize({'val': data}, trusted=trusted, strict=strict, **extra)
    ctx.nontrivial(bool(path))
    ctx.check(data == before, 'input changed')
    ctx.check(got, 'deserializer not called')
    for kwargs in got:
        ctx.check(kwargs.get('trusted') is trusted, 'trusted is %r', kwargs)
        ctx.check(bool(kwargs.get('strict')) is want_strict, 'strict is %r, path %r',
                  kwargs, path)
        for key, val in extra.items():
            ctx.check(kwargs.get(key) == val, '%s is %r', key, kwargs)
    data2 = back.serialize(include_class=include, **extra)
    ctx.check(saved, 'serializer not called')
    for kwargs in saved:
        ctx.check(kwargs.get('include_class') is include, 'include_class in %r', kwargs)
        for key, val in extra.items():
            ctx.check(kwargs.get(key) == val, '%s is %r', key, kwargs)
    ctx.check(('__class__' in repr(data2)) == include, 'class names in %r', data2)


# ------------------------------------------------- splitting a dictionary

KEYS = ['num', 'text', 'fixed', 'made', 'old', 'older', 'sub', 'zz', '', '_props', 'Num',
        '__class__', 'validate', 1, None, (1, 2)]


@st.composite
def filter_cases(draw):
    have = draw(st.lists(st.sampled_from(KEYS[:7]), unique=True))
    items = draw(st.lists(st.tuples(st.sampled_from(KEYS), gens.scalars()),
                          max_size=10))
    return have, items, draw(st.sampled_from([None, True, False])), draw(st.booleans())


@facet('filter_props', strategy=filter_cases, quick=1500, shards=1)
def check_filter(case, ctx):
    have, items, include, instance = case
    body = {
        'num': properties.Integer(''),
        'text': properties.String('', required=False),
        'fixed': properties.GettableProperty('', default=1),
        'made': properties.Integer('')(named('made')),
        'old': properties.Renamed('num'),
        'older': properties.Renamed('num'),
        'sub': properties.List('', properties.Integer('')),
    }
    if 'old' in have or 'older' in have:
        have = have + ['num']
    body = {k: v for k, v in body.items() if k in have}
    base = type(properties.HasProperties)(
        'Base', (properties.HasProperties,),
        {k: body.pop(k) for k in ('num', 'fixed') if k in body})
    cls = type(base)('Holder', (base,), body)
    given = {k: build(v) for k, v in items}
    before = list(given.items())
    args = [cls() if instance else cls, given]
    if include is not None:
        args.append(include)
    props, others = properties.filter_props(*args)
    include = include is not False
    want = [(k, v) for k, v in before
            if k in have and (include or k not in ('fixed', 'made'))]
    rest = [(k, v) for k, v in before if (k, v) not in [] and k not in dict(want)]
    ctx.nontrivial(bool(want) and bool(rest))
    ctx.check(same_items(props, want), 'properties are %r, expected %r', props, want)
    ctx.check(same_items(others, rest), 'others are %r, expected %r', others, rest)
    ctx.check(same_items(given, before), 'input changed')
    ctx.check(props is not given and others is not given, 'input returned')


def named(name):
    def func(self):
        return 1
    func.__name__ = str(name)
    return func


def same_items(one, items):
    return (type(one) is dict and list(one) == [k for k, _ in items] and
            all(one[k] is v for k, v in items))
