"""C15: default values"""
import itertools

import numpy as np
import properties
from hypothesis import strategies as st

from vlib import gens, model
from vlib.harness import facet
from vlib.values import build

ID = 'C15'
RULE = ('random class hierarchies (chains, diamonds, plain mixins) with property defaults '
        'and class-level defaults - plain values, callables, undefined - at every level, '
        'overridden properties, invalid and unknown defaults; several objects are made, '
        'changed in place and reset; non-trivial: two places give a default for one '
        'property, a default is callable or a container, or a default is refused')
FACETS = []


KINDS = ['plain', 'plain', 'callable', 'undefined']


@st.composite
def value_for(draw, spec, props=None):
    """(kind, raw value) of a default, or None for no default"""
    kind = draw(st.sampled_from(KINDS))
    if kind == 'undefined':
        return 'undefined', None
    if spec['t'] == 'Any' and draw(st.integers(0, 2)) == 0:
        return kind, None
    raw = draw(gens.valid_value(spec, props, 3))
    if raw is None and spec['t'] != 'Any':
        return 'undefined', None
    return kind, raw


@st.composite
def hierarchies(draw):
    specs = {name: draw(gens.any_spec(1, unions=False)) if draw(st.integers(0, 4))
             else {'t': 'Any'}
             for name in draw(st.lists(st.sampled_from(gens.NAMES), min_size=1, max_size=3,
                                       unique=True))}
    names = sorted(specs)
    classes = []
    for i in range(draw(st.integers(1, 5))):
        bases = []
        if i:
            bases = draw(st.lists(st.integers(0, i - 1), min_size=1, max_size=2,
                                  unique=True))
        own = {}
        if not i:
            own = {n: (specs[n], draw(st.one_of(st.none(), value_for(specs[n]))))
                   for n in names}
        elif draw(st.integers(0, 2)) == 0:
            n = draw(st.sampled_from(names))
            own = {n: (specs[n], draw(st.one_of(st.none(), value_for(specs[n]))))}
        defaults = {}
        for n in draw(st.lists(st.sampled_from(names), unique=True, max_size=2)):
            if draw(st.booleans()):
                defaults[n] = draw(value_for(specs[n]))
        mixin = draw(st.integers(0, 7)) == 0 and i > 0
        classes.append((bases, own, defaults, mixin))
    if draw(st.integers(0, 3)) == 0:
        # a diamond; the class in front leaves some defaults to the one behind
        shape = [[], [0], [0], [1, 2]]
        while len(classes) < 4:
            classes.append(([], {}, {}, False))
        for i, bases in enumerate(shape):
            _, own, defaults, mixin = classes[i]
            if i != 1:
                n = draw(st.sampled_from(names))
                defaults = dict(defaults)
                if i < 3:
                    defaults[n] = draw(value_for(specs[n]))
            classes[i] = (bases, {} if i == 1 else own, {} if i == 1 else defaults, mixin)
    sets = {}
    for n in draw(st.lists(st.sampled_from(names), unique=True, max_size=2)):
        sets[n] = draw(gens.valid_value(specs[n]))
    return classes, sets, draw(st.sampled_from(names)), draw(st.booleans())


class Source(object):
    """A callable default: a fresh value per call"""

    def __init__(self, entry):
        self.entry = entry
        self.calls = 0

    def __call__(self):
        self.calls += 1
        return build(self.entry[1])


def real_default(entry, sources):
    kind, raw = entry
    if kind == 'undefined':
        return properties.undefined
    if kind == 'callable':
        sources.append(Source(entry))
        return sources[-1]
    return build(raw)


def consistent(classes):
    """Build plain Python classes of the same shape; None if there is no MRO"""
    out = []
    for bases, _, _, mixin in classes:
        kind = type('Plain', tuple(out[b] for b in bases) or (object,), {}) \
            if consistent_bases(out, bases) else None
        if kind is None:
            return None
        out.append(kind)
    return out


def consistent_bases(out, bases):
    try:
        type('Plain', tuple(out[b] for b in bases) or (object,), {})
        return True
    except TypeError:
        return False


@facet('precedence', strategy=hierarchies, quick=1500, shards=4)
def check_precedence(case, ctx):
    classes, sets, pick, by_name = case
    plain = consistent(classes)
    if plain is None:
        ctx.label('no resolution order')
        return
    log = []
    made = []
    sources = {}
    for i, (bases, own, defaults, mixin) in enumerate(classes):
        mine = []
        body = {}
        for name, (spec, entry) in own.items():
            kwargs = {}
            if entry is not None:
                real = real_default(entry, mine)
                if real is not properties.undefined:
                    kwargs = {'default': real}
                prop = model.make(dict(spec))
                if entry[0] == 'undefined':
                    prop.default = properties.undefined
                else:
                    prop.default = kwargs['default']
            else:
                prop = model.make(spec)
            body[name] = prop
        if defaults:
            body['_defaults'] = {n: real_default(e, mine) for n, e in defaults.items()}
        if not i:
            body['_on_any'] = properties.observer(properties.everything)(
                lambda self, change: log.append(change['name']))
            body['_check_any'] = properties.validator(properties.everything)(
                lambda self, change: log.append(change['name']))
        real_bases = tuple(made[b] for b in bases) or (properties.HasProperties,)
        made.append(type(properties.HasProperties)('Cls%d' % i, real_bases, body))
        sources[i] = mine
    specs = classes[0][1]
    for i, cls in enumerate(made):
        order = [plain.index(p) for p in plain[i].__mro__[:-1]]
        expected = {}
        for name, (spec, _) in specs.items():
            entry, places = None, 0
            owner = [j for j in order if name in classes[j][1]][0]
            for j in order:
                if name in classes[j][2]:
                    entry = entry or classes[j][2][name]
                    places += 1
            if entry is None:
                entry = classes[owner][1][name][1]
            if entry is not None and (places or entry[0] == 'callable' or isinstance(
                    entry[1], (list, set, dict))):
                ctx.nontrivial()
            expected[name] = entry if entry and entry[0] != 'undefined' else None
        for name in specs:
            if expected[name] is not None:
                res = model.accept(specs[name][0], build(expected[name][1]))
                if res[0] != 'ok':
                    raise model.Unclaimed()
        del log[:]
        before = {id(s): s.calls for j in sources for s in sources[j]}
        objs = [cls(), cls()]
        ctx.check(not log, 'defaults notified %r', log)
        for name in specs:
            for obj in objs:
                check_value(specs[name][0], expected[name], getattr(obj, name), name, ctx)
        for j in sources:
            for source in sources[j]:
                used = any(e is source.entry for e in expected.values())
                if used:
                    ctx.check(source.calls >= before[id(source)] + 2,
                              'default was called %d times for 2 objects',
                              source.calls - before[id(source)])
        # containers and arrays are never shared, and changing one changes no other object
        picture = model.describe(objs[1])
        for name in specs:
            one, two = getattr(objs[0], name), getattr(objs[1], name)
            if isinstance(one, (list, set, dict, np.ndarray)):
                ctx.check(one is not two, '%s is shared', name)
            scribble(one)
        third = cls()
        ctx.check(model.describe(objs[1]) == picture, 'the objects share %r', picture)
        for name in specs:
            check_value(specs[name][0], expected[name], getattr(third, name), name, ctx)
        # keywords and assignments win, reset restores
        given = {n: build(v) for n, v in sets.items() if n in specs}
        obj = cls(**given)
        for name in specs:
            if name in given:
                res = model.accept(specs[name][0], given[name])
                if res[0] == 'ok':
                    ctx.check(model.same(res[1], getattr(obj, name)), 'keyword %s', name)
            else:
                check_value(specs[name][0], expected[name], getattr(obj, name), name, ctx)
        for name in specs:
            scribble(getattr(obj, name))
        if by_name:
            rest = {n: model.describe(getattr(obj, n)) for n in specs if n != pick}
            obj._reset(pick)
            check_value(specs[pick][0], expected[pick], getattr(obj, pick), pick, ctx)
            for name, old in rest.items():
                ctx.check(model.describe(getattr(obj, name)) == old,
                          'resetting %s changed %s', pick, name)
        else:
            obj._reset()
            for name in specs:
                check_value(specs[name][0], expected[name], getattr(obj, name), name, ctx)
        ctx.raises(AttributeError, lambda: obj._reset('zz_unknown'), 'unknown reset')


def scribble(val):
    """Change a container in place"""
    try:
        if isinstance(val, list):
            del val[:]
        elif isinstance(val, (set, dict)):
            val.clear()
        elif isinstance(val, np.ndarray) and val.size:
            val[...] = 0
    except ValueError:
        pass


def check_value(spec, entry, got, name, ctx):
    if entry is None:
        ctx.check(got is None, '%s is %r without a default', name, got)
        return
    res = model.accept(spec, build(entry[1]))
    ctx.check(model.same(res[1], got), '%s is %r, default %r', name, got, entry)


# ------------------------------------------------- refused defaults

@st.composite
def bad_cases(draw):
    spec = draw(gens.any_spec(1, unions=False))
    raw = draw(st.one_of(gens.valid_value(spec), gens.near(spec), gens.junk()))
    return (spec, raw, draw(st.booleans()), draw(st.sampled_from(
        ['property', 'class', 'subclass', 'override', 'mixin', 'gettable'])),
        draw(st.integers(0, 5)) == 0)


@facet('refused', strategy=bad_cases, quick=1500, shards=1)
def check_refused(case, ctx):
    spec, raw, by_call, where, unknown = case
    value = build(raw)
    if value is None or value is properties.undefined or callable(value):
        return
    res = model.accept(spec, value)
    default = (lambda: build(raw)) if by_call else build(raw)
    ctx.nontrivial(res is model.BAD or unknown)
    meta = type(properties.HasProperties)

    def declare():
        if where in ('property', 'gettable'):
            prop = model.make(spec)
            prop.default = default
            if where == 'gettable':
                properties.GettableProperty('', default=default)
            return meta('Holder', (properties.HasProperties,), {'val': prop})
        key = 'zz_unknown' if unknown else 'val'
        if where == 'class':
            return meta('Holder', (properties.HasProperties,), {
                'val': model.make(spec), '_defaults': {key: default}})
        if where == 'mixin':
            mixin = type('Mixin', (object,), {'_defaults': {key: default}})
            return meta('Holder', (mixin, properties.HasProperties), {
                'val': model.make(spec)})
        if where == 'override':
            # the base accepts anything, the overriding property does not
            base = meta('Base', (properties.HasProperties,), {
                'val': properties.Property(''), '_defaults': {'val': default}})
            return meta('Holder', (base,), {'val': model.make(spec)})
        base = meta('Base', (properties.HasProperties,), {'val': model.make(spec)})
        return meta('Holder', (base,), {'_defaults': {key: default}})
    if unknown and where in ('class', 'mixin', 'subclass'):
        ctx.label('unknown')
        ctx.raises(AttributeError, declare, 'unknown default')
        return
    if res is model.SKIP:
        return
    if res is model.BAD:
        ctx.label('invalid')
        ctx.raises((AttributeError, ValueError), declare,
                   'default %r of %r in the %s' % (value, spec, where))
        return
    cls = declare()
    ctx.label('accepted')
    ctx.check(model.same(res[1], cls().val), 'default %r of %r is %r', value, spec,
              cls().val)


# ------------------------------------------------- per object freshness by type

@st.composite
def fresh_cases(draw):
    return (draw(st.sampled_from(['counter', 'uuid', 'instance', 'auto', 'list', 'dict',
                                  'gettable', 'listvalue', 'setvalue', 'dictvalue', 'array',
                                  'class list', 'class instance', 'nested', 'vector',
                                  'union', 'tuple of list', 'union class', 'union list',
                                  'union value', 'union member class', 'union array',
                                  'dict of lists', 'class made', 'instance made', 'any made',
                                  'array made', 'list of dicts', 'set made', 'class array',
                                  'class union', 'builtin made'])),
            draw(st.booleans()), draw(st.integers(2, 4)), draw(st.booleans()))


@facet('fresh', strategy=fresh_cases, quick=500, shards=1)
def check_fresh(case, ctx):
    kind, observe, count, sub = case
    ctx.nontrivial()
    props = properties
    num = itertools.count()

    class Inner(props.HasProperties):
        items = props.List('', props.Integer(''), default=list, observe_mutations=observe)

    number = props.Integer('')
    shared_list = [1, 2]
    table = {
        'counter': ({'val': props.Integer('', default=lambda: next(num))}, None),
        'uuid': ({'val': props.Uuid('')}, None),
        'instance': ({'val': props.Instance('', Inner, default=Inner)}, None),
        'auto': ({'val': props.Instance('', Inner, auto_create=True)}, None),
        'list': ({'val': props.List('', number, default=list,
                                    observe_mutations=observe)}, None),
        'dict': ({'val': props.Dictionary('', default=dict,
                                          observe_mutations=observe)}, None),
        'gettable': ({'val': props.GettableProperty('', default=lambda: next(num))}, None),
        'listvalue': ({'val': props.List('', number, default=shared_list,
                                         observe_mutations=observe)}, None),
        'setvalue': ({'val': props.Set('', number, default={1, 2},
                                       observe_mutations=observe)}, None),
        'dictvalue': ({'val': props.Dictionary('', default={'a': 1},
                                               observe_mutations=observe)}, None),
        'array': ({'val': props.Array('', default=np.array([1., 2.]))}, None),
        'class list': ({'val': props.List('', number, observe_mutations=observe)},
                       shared_list),
        'class instance': ({'val': props.Instance('', Inner)}, Inner),
        'nested': ({'val': props.List('', props.List('', number), default=[[1], [2]],
                                      observe_mutations=observe)}, None),
        'vector': ({'val': props.Vector3('', default='x')}, None),
        'union': ({'val': props.Union('', [props.Set('', number, default={3}),
                                           props.Integer('')])}, None),
        'tuple of list': ({'val': props.Tuple('', props.List('', number),
                                              default=([1], [2]))}, None),
    }
    listed = props.List('', number, observe_mutations=observe)
    table.update({
        'union class': ({'val': props.Union('', [number, Inner], default=Inner)}, None),
        'union list': ({'val': props.Union('', [number, listed], default=list)}, None),
        'union value': ({'val': props.Union('', [number, listed], default=shared_list)}, None),
        'union member class': ({'val': props.Union('', [props.Instance('', Inner, default=Inner),
                                                        number])}, None),
        'union array': ({'val': props.Union('', [number, props.Array('')],
                                            default=lambda: [1., 2.])}, None),
        'dict of lists': ({'val': props.Dictionary(
            '', value_prop=listed, default={'k': [1, 2]}, observe_mutations=observe)}, None),
        'class made': ({'val': props.Instance('', Inner)}, lambda: Inner(items=[4])),
        'instance made': ({'val': props.Instance('', Inner, default=lambda: Inner(items=[4]))},
                          None),
        'any made': ({'val': props.Property('', default=lambda: [1])}, None),
        'array made': ({'val': props.Array('', default=lambda: [1., 2.])}, None),
        'list of dicts': ({'val': props.List('', props.Dictionary(''), default=[{'a': 1}],
                                             observe_mutations=observe)}, None),
        'set made': ({'val': props.Set('', number, default=set, observe_mutations=observe)},
                     None),
        'class array': ({'val': props.Array('')}, [1., 2.]),
        'class union': ({'val': props.Union('', [number, Inner, listed])}, Inner),
        'builtin made': ({'val': props.Instance('', dict, default=dict)}, None),
    })
    body, class_default = table[kind]
    if class_default is not None:
        body['_defaults'] = {'val': class_default}
    cls = type(props.HasProperties)('Holder', (props.HasProperties,), body)
    if sub:
        cls = type(cls)('Sub', (cls,), {})
    objs = [cls() for _ in range(count)]
    vals = [o.val for o in objs]
    if kind in ('counter', 'uuid', 'gettable'):
        ctx.check(len(set(vals)) == count, 'values %r of %d objects', vals, count)
        return
    ctx.check(len({id(v) for v in vals}) == count or isinstance(vals[0], tuple),
              'the same value in two objects')
    start = [model.describe(v) for v in vals]
    first = vals[0]
    if isinstance(first, Inner):
        first.items.append(5)
        first.items = [3]
    elif isinstance(first, list):
        if first and isinstance(first[0], list):
            first[0].append(9)
        elif first and isinstance(first[0], dict):
            first[0]['z'] = 9
        else:
            first.append(9)
    elif isinstance(first, tuple):
        first[0].append(9)
    elif isinstance(first, dict):
        if isinstance(first.get('k'), list):
            first['k'].append(9)
            first['j'] = [9]
        else:
            first['j'] = 9
    elif isinstance(first, set):
        first.add(9)
    else:
        first[0] = 9
    ctx.check([model.describe(v) for v in vals[1:]] == start[1:],
              'changing one object changed another')
    ctx.check(shared_list == [1, 2], 'the declared default changed')
    ctx.check(model.describe(cls().val) == start[0], 'new objects start with %r', cls().val)
    objs[0]._reset('val')
    ctx.check(model.describe(objs[0].val) == start[0], 'reset to %r', objs[0].val)
    ctx.check(objs[0].val is not first or isinstance(first, tuple), 'reset kept the value')
    objs[0]._reset()
    ctx.check(model.describe(objs[0].val) == start[0], 'reset to %r', objs[0].val)

