"""C04: stored values are stable"""
import properties
from hypothesis import strategies as st

from vlib import gens, model
from vlib.common import has_union, stable
from vlib.harness import facet
from vlib.values import V, build

ID = 'C04'
RULE = ('random declarations of every property type (nested containers, unions, '
        'instances, arrays, vectors, URLs, casts and coercions) with values that are '
        'mostly acceptable; non-trivial: the value was accepted and stored')
FACETS = []


@gens.cached
def array_spec():
    return st.one_of(
        gens.merge('Array', st.sampled_from([
            {}, {'shape': ('*',)}, {'shape': ('*', 2)}, {'shape': (2,)}, {'shape': None},
            {'shape': [('*',), (2, 2)]}, {'shape': ()}]),
            st.sampled_from([{}, {'dtype': ['float']}, {'dtype': ['int']},
                             {'dtype': ['bool']}, {'dtype': ['bool', 'int']}])),
        gens.merge('Vector3', gens.flag('length', (1.0, 2.5))),
        gens.merge('Vector2', gens.flag('length', (1.0, 2.5))),
        gens.merge('Vector3Array', gens.flag('length', (1.0, 0.5))),
        gens.merge('Vector2Array', gens.flag('length', (1.0, 0.5))))


@st.composite
def array_value(draw, spec):
    num = st.one_of(gens.small_ints(), gens.finite().filter(lambda v: v == 0 or 1e-50 < abs(v) < 1e50),
                    st.sampled_from([float('nan'), float('inf')]
                                    if 'length' not in spec else [1e-3]))
    kind = spec['t']
    if kind == 'Array':
        shape = draw(st.sampled_from([(), (2,), (0,), (3,), (2, 2), (1, 2), (0, 2)]))
        dtype = draw(st.sampled_from(['float64', 'int64', 'bool', 'float32', 'int8']))
        val = V('npshape', dtype, shape, draw(st.sampled_from([1, 0.5, -3])),
                draw(gens.small_ints()))
        return draw(st.sampled_from([val, [1, 2], [1.5, float('nan')], (True, False),
                                     [[1, 2]], []]))
    word = st.sampled_from(['x', 'Y', '-x', 'north', 'WEST', 'zero'])
    size = 3 if '3' in kind else 2
    row = st.lists(num, min_size=size, max_size=size)
    if kind.endswith('Array'):
        return draw(st.lists(st.one_of(row, row, word), min_size=1, max_size=3))
    return draw(st.one_of(row, row.map(tuple), word))


@st.composite
def cases(draw):
    if draw(st.integers(0, 4)) == 0:
        spec = draw(array_spec())
        return [], spec, draw(array_value(spec))
    if draw(st.integers(0, 6)) == 0:
        spec = {'t': 'URL'}
        spec.update(draw(gens.flag('remove_parameters')))
        spec.update(draw(gens.flag('remove_fragment')))
        return [], spec, draw(st.builds(
            lambda a, b: a + b, st.sampled_from(['http://a.b/c', 'ftp://x', 'https://h/;p']),
            st.text('/?#;=a&%', max_size=6)))
    specs = draw(gens.class_specs(count=2, depth=1))
    spec = draw(gens.any_spec(2, len(specs)))
    return specs, spec, draw(gens.candidate(spec, gens.props_of(specs)))


@facet('validate_twice', strategy=cases, quick=1200, shards=5)
def check_twice(case, ctx):
    specs, spec, raw = case
    env = model.Env(specs)
    changes = []

    class Holder(properties.HasProperties):
        val = model.make(spec, env)

        @properties.observer('val', change_only=True)
        def _changed(self, change):
            changes.append(change['value'])
    obj = Holder()
    value = build(raw, env.builders())
    if has_union(spec) and not stable(spec, value, env):
        ctx.label('union without stable value')
        return
    try:
        obj.val = value
    except ValueError:
        ctx.label('refused')
        return
    stored = obj.val
    if stored is None:
        return
    ctx.nontrivial()
    ctx.label(spec['t'])
    prop = Holder._props['val']
    picture = model.describe(stored)
    again = prop.validate(None, stored)
    exact = spec.get('length') is None
    ctx.check(prop.equal(stored, again) is True or prop.equal(stored, again) == True,  # noqa: E712
              'validating %r again gave %r, which is not equal', stored, again)
    ctx.check(type(again).__name__.replace('Observable', '') ==
              type(stored).__name__.replace('Observable', ''),
              'validating %r again changed its type to %s', stored, type(again))
    ctx.check(not exact or model.describe(again) == picture,
              'validating %r again gave %r', stored, again)
    ctx.check(not exact or model.describe(stored) == picture,
              'validating %r modified it', picture)
    third = prop.validate(obj, again)
    ctx.check(prop.equal(third, again), 'third validation gave %r', third)
    del changes[:]
    obj.val = obj.val
    ctx.check(not changes, 'setting the current value %r was reported as a change',
              stored)
    ctx.check(not exact or model.describe(obj.val) == picture,
              'setting the current value %r stored %r', picture, obj.val)
    other = Holder(val=obj.val)
    ctx.check(prop.equal(other.val, obj.val), 'passing on %r stored %r', obj.val, other.val)
    if spec['t'] in model.SIMPLE or spec['t'] not in model.NESTED:
        ctx.check(obj.validate() is True, 'validate() returned something else')


@st.composite
def object_cases(draw):
    specs = draw(gens.class_specs(count=3, depth=1))
    return specs, draw(gens.instance_case(specs, len(specs) - 1, fill=0.95))


@facet('objects', strategy=object_cases, quick=600, shards=3)
def check_objects(case, ctx):
    specs, init = case
    env = model.Env(specs)
    index = len(specs) - 1
    props = dict(env.props(index))
    log = []
    for name, spec in props.items():
        if has_union(spec) and name in init and not stable(
                spec, build(init[name], env.builders()), env):
            return
    obj = env.make_inst(index, {})
    for name, raw in init.items():
        setattr(obj, name, build(raw, env.builders()))
    properties.observer(obj, properties.everything, lambda o, c: log.append(c['name']),
                        change_only=True)
    picture = model.describe(obj)
    ctx.nontrivial(bool(init))
    for name in props:
        if getattr(obj, name) is None:
            continue
        setattr(obj, name, getattr(obj, name))
        ctx.check(not log, 'setting the current value of %s was a change', name)
    ctx.check(model.describe(obj) == picture, 'setting current values changed %r to %r',
              picture, model.describe(obj))
    if model.inst_valid(obj, env):
        ctx.label('valid')
        ctx.check(obj.validate() is True, 'validate() gave no True')
    else:
        ctx.label('invalid')
        ctx.raises(properties.ValidationError, obj.validate, 'validating invalid object')
    ctx.check(model.describe(obj) == picture, 'validate() changed the object')
    ctx.check(properties.equal(obj, obj), 'object not equal to itself')


def known_finding(case):
    """Does the recorded finding still fail?"""
    assert case == 'union-earlier-member-converts'
    union = properties.Union('', [properties.Integer(''), properties.Float('', cast=True)])
    stored = union.validate(None, '5.0')
    return type(union.validate(None, stored)) is not type(stored)
