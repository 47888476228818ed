"""C03: a refused operation leaves everything as it was"""
import properties
from hypothesis import strategies as st

from vlib import gens, isolate, model
from vlib.harness import facet
from vlib.values import build

ID = 'C03'
RULE = ('random classes (up to 3, nested, containers, unions, inheritance) with change '
        'validators that can veto and observers on every property; histories of '
        'assignments, deletions, resets, observed container mutations and keyword '
        'constructions with valid, borderline and bad values; non-trivial: at least '
        'one operation was refused on an object that held at least one value')
FACETS = []

VETO_ERRORS = {'ValidationError': lambda: properties.ValidationError('veto'),
               'ValueError': lambda: ValueError('veto'),
               'KeyError': lambda: KeyError('veto'),
               'RuntimeError': lambda: RuntimeError('veto'),
               'ZeroDivisionError': lambda: ZeroDivisionError('veto')}

MUTATIONS = {
    'List': ['append', 'extend', 'insert', 'setitem', 'setslice', 'iadd', 'remove',
             'delitem', 'pop', 'sort', 'imul'],
    'Set': ['add', 'update', 'ior', 'ixor', 'remove', 'symmetric_difference_update',
            'pop', 'isub'],
    'Dictionary': ['setitem', 'update', 'setdefault', 'pop', 'delitem', 'ior', 'clear'],
}


@st.composite
def one_op(draw, specs, index):
    props = gens.props_of(specs)
    own = props(index)
    name, spec = draw(st.sampled_from(own))
    kind = draw(st.sampled_from(['set'] * 6 + ['del', 'reset', 'mut', 'mut', 'mut',
                                               'init', 'nested']))
    veto = draw(st.sampled_from([None] * 5 + sorted(VETO_ERRORS)))
    where = draw(st.sampled_from(['class', 'instance']))
    if kind == 'mut':
        conts = [(n, s) for n, s in own if s['t'] in MUTATIONS]
        if not conts:
            kind = 'set'
        else:
            name, spec = draw(st.sampled_from(conts))
    if kind in ('set', 'nested'):
        arg = draw(gens.candidate(spec, props))
    elif kind == 'mut':
        sub = spec.get('prop', spec.get('value_prop'))
        key = spec.get('key_prop', {'t': 'Integer'})
        arg = (draw(st.sampled_from(MUTATIONS[spec['t']])),
               draw(st.integers(0, 3)),
               draw(st.one_of(gens.valid_value(key, props), gens.junk())),
               draw(gens.candidate(sub, props)))
    elif kind == 'init':
        arg = {}
        for nam, spc in own:
            if draw(st.integers(0, 2)):
                arg[nam] = draw(gens.candidate(spc, props))
    else:
        arg = None
    return kind, name, arg, veto, where


@st.composite
def cases(draw):
    specs = draw(gens.class_specs(count=3, depth=1))
    index = len(specs) - 1
    init = draw(gens.instance_case(specs, index))
    # plain values that _reset() gives
    props = gens.props_of(specs)
    defaults = {n: draw(gens.valid_value(s, props)) for n, s in props(index)
                if 'Instance' not in repr(s) and draw(st.integers(0, 2)) == 0}
    ops = draw(st.lists(one_op(specs, index), min_size=1, max_size=7))
    return specs, init, ops, defaults


class Fresh(object):
    """A default that makes a new value each time"""

    def __init__(self, raw):
        self.raw = raw

    def __call__(self):
        return build(self.raw)


class World(object):
    """Classes whose listeners log and can veto"""

    def __init__(self, specs, defaults=()):
        self.log = []
        self.veto = None
        self.n_validated = 0
        world = self

        def body(spec):
            mine = {}
            if defaults and spec is specs[-1]:
                mine['_defaults'] = {
                    n: properties.undefined if v is None else Fresh(v)
                    for n, v in defaults.items()}
            if spec.get('base') is not None:
                return mine

            @properties.validator(properties.everything)
            def _check(self, change):
                world.n_validated += 1
                if world.veto:
                    raise VETO_ERRORS[world.veto]()

            @properties.observer(properties.everything)
            def _on_set(self, change):
                world.log.append((id(self), change['name'], change['mode']))

            @properties.observer(properties.everything, change_only=True)
            def _on_change(self, change):
                world.log.append((id(self), change['name'], change['mode']))
            return dict(mine, _check=_check, _on_set=_on_set, _on_change=_on_change)
        self.env = model.Env(specs, body=body)


def hashable(val):
    try:
        hash(val)
        return True
    except TypeError:
        return False


def mutate(obj, name, spec, arg, env):
    """Apply one in-place mutation through the object"""
    method, pos, key, item = arg
    item = build(item, env.builders())
    key = build(key, env.builders())
    if spec['t'] == 'Set':
        if not hashable(item):
            return False
    cont = getattr(obj, name)
    if spec['t'] == 'List':
        if method in ('append', 'remove'):
            getattr(cont, method)(item)
        elif method == 'extend':
            cont.extend(list(cont)[:1] + [item])
        elif method == 'insert':
            cont.insert(pos, item)
        elif method == 'setitem':
            cont[pos] = item
        elif method == 'setslice':
            cont[pos:pos + 1] = [item, item]
        elif method == 'iadd':
            setattr_iop(obj, name, lambda c: c.__iadd__([item]))
        elif method == 'imul':
            setattr_iop(obj, name, lambda c: c.__imul__(pos))
        elif method == 'delitem':
            del cont[pos]
        elif method == 'pop':
            cont.pop(pos)
        else:
            cont.sort()
    elif spec['t'] == 'Set':
        if method in ('add', 'remove'):
            getattr(cont, method)(item)
        elif method == 'pop':
            cont.pop()
        elif method in ('update', 'symmetric_difference_update'):
            getattr(cont, method)([item])
        else:
            setattr_iop(obj, name, lambda c: getattr(c, '__%s__' % method)({item}))
    else:
        if not hashable(key):
            return False
        if method == 'setitem':
            cont[key] = item
        elif method == 'update':
            cont.update({key: item})
        elif method == 'setdefault':
            cont.setdefault(key, item)
        elif method == 'ior':
            setattr_iop(obj, name, lambda c: c.__ior__({key: item}))
        elif method == 'delitem':
            del cont[key]
        elif method == 'clear':
            cont.clear()
        else:
            cont.pop(key)
    return True


def setattr_iop(obj, name, func):
    """obj.name op= value, as Python does it"""
    setattr(obj, name, func(getattr(obj, name)))


def describe_value(val):
    try:
        return model.describe(val)
    except Exception:                                           # pylint: disable=broad-except
        return repr(val)


@facet('history', strategy=cases, quick=500, shards=6)
def check_history(case, ctx):
    specs, init, ops = case[:3]
    defaults = case[3] if len(case) > 3 else {}
    world = World(specs, defaults)
    env = world.env
    index = len(specs) - 1
    props = dict(env.props(index))
    obj = env.classes[index]()
    for name, val in init.items():
        if model.accept(props[name], build(val, env.builders()), env)[0] == 'ok':
            setattr(obj, name, build(val, env.builders()))
    flag = {'veto': None}

    def instance_veto(instance, change):
        if flag['veto']:
            raise VETO_ERRORS[flag['veto']]()
    properties.validator(obj, properties.everything, instance_veto)

    for kind, name, arg, veto, where in ops:
        spec = props[name]
        before = model.describe(obj)
        cont_before = getattr(obj, name)
        target = obj
        value = None
        expected = model.SKIP
        if kind == 'nested':
            subs = [getattr(obj, n) for n in sorted(props)
                    if isinstance(getattr(obj, n), properties.HasProperties)]
            if not subs:
                continue
            target = subs[0]
            if name not in target._props:
                continue
            spec = dict(env.props(model.class_index(target, env)))[name]
            where = 'class'
        if kind in ('set', 'nested'):
            value = build(arg, env.builders())
            expected = model.accept(spec, value, env)
        elif kind == 'init':
            value = {n: build(v, env.builders()) for n, v in arg.items()}
            outcomes = [model.accept(props[n], v, env) for n, v in value.items()
                        if v is not properties.undefined]
            if model.BAD in outcomes:
                expected = model.BAD
            elif model.SKIP not in outcomes:
                expected = model.ok(None)
            where = 'class'
        elif kind == 'mut':
            if cont_before is None or not spec.get('observe_mutations'):
                continue
            if arg[0] == 'sort' and spec['t'] == 'List':
                pass
        elif kind in ('del', 'reset'):
            expected = model.ok(None)
        value_before = describe_value(value)
        if where == 'class':
            world.veto = veto
        else:
            flag['veto'] = veto
        del world.log[:]
        world.n_validated = 0
        error = None
        applied = True
        try:
            if kind in ('set', 'nested'):
                setattr(target, name, value)
            elif kind == 'del':
                delattr(obj, name)
            elif kind == 'reset':
                obj._reset(name)
            elif kind == 'mut':
                applied = mutate(obj, name, spec, arg, env)
            else:
                env.classes[index](**value)
        except Exception as err:                                # pylint: disable=broad-except
            error = err
        finally:
            world.veto = None
            flag['veto'] = None
        if not applied:
            continue
        log = list(world.log)
        if kind == 'init':
            # listeners of the new object and of nested new objects ran
            log = [item for item in log if item[0] == id(obj)]
        if veto and kind in ('set', 'del', 'reset', 'nested') and (
                where == 'instance' or world.n_validated) and error is None:
            ctx.fail('%s of %s was vetoed but no error was raised' % (kind, name))
        if expected is model.BAD and error is None:
            ctx.fail('%s of %s with %r was not refused' % (kind, name, value))
        if expected[0] == 'ok' and not veto and error is not None:
            ctx.fail('%s of %s with %r was refused: %r' % (kind, name, value, error))
        if kind in ('set', 'nested') and not (kind == 'nested' and False):
            ctx.check(describe_value(value) == value_before or
                      isinstance(value, properties.HasProperties),
                      '%s of %s changed the value passed in: %r -> %r', kind, name,
                      value_before, value)
        if kind == 'init':
            ctx.check(set(value) == set(arg), 'keywords changed')
            ctx.check(describe_value(value) == value_before,
                      'keywords changed: %r -> %r', value_before, value)
        if error is not None or kind == 'init':
            ctx.label('refused ' + kind + (' by veto' if veto else ''))
            if error is not None and init:
                ctx.nontrivial()
            after = model.describe(obj)
            ctx.check(after == before, 'refused %s of %s (%r) changed the object: '
                      '%r -> %r', kind, name, error, before, after)
            ctx.check(kind == 'init' or not [x for x in log if 'observe' in x[2] and
                                             x[0] == id(target)],
                      'refused %s of %s notified %r', kind, name, log)
            if not isinstance(cont_before, (int, float, str, complex, tuple)):
                ctx.check(getattr(obj, name) is cont_before,
                          'refused %s replaced the value of %s', kind, name)
        elif expected[0] == 'ok' and kind in ('set', 'nested'):
            ctx.check(model.same(expected[1], getattr(target, name), env),
                      'after refusals, setting %s to %r stored %r', name, value,
                      getattr(target, name))
            ctx.check((id(target), name, 'observe_set') in log,
                      'set of %s notified nothing', name)
        elif kind == 'mut':
            ctx.check((id(obj), name, 'observe_set') in log,
                      'mutation %s of %s notified nothing', arg[0], name)
        elif kind == 'reset' and name in defaults:
            want = model.accept(spec, build(defaults[name]), env)
            ctx.check(want[0] != 'ok' or model.same(want[1], getattr(obj, name), env),
                      'reset of %s gave %r', name, getattr(obj, name))
        elif kind in ('del', 'reset'):
            ctx.check(getattr(obj, name) is None, '%s left a value', kind)
            ctx.check((id(obj), name, 'observe_set') in log,
                      '%s of %s notified nothing', kind, name)
    ctx.check(isolate.listening(),
              'listeners were left disabled')
    obj2 = env.classes[index]()
    del world.log[:]
    for name in props:
        setattr(obj2, name, properties.undefined)
    ctx.check(len([x for x in world.log if x[0] == id(obj2) and x[2] == 'observe_set']) ==
              len(props),
              'a new object does not notify')


@st.composite
def observed_spec(draw, classes):
    inner = gens.any_spec(0, classes, True, True, False, True)
    spec = draw(gens.container_spec(inner, gens.hashable_spec(), gens.hashable_spec()
                                    ).filter(lambda s: s['t'] != 'Tuple'))
    return dict(spec, observe_mutations=True)


@st.composite
def focused_cases(draw):
    inner = [(n, draw(gens.simple_spec())) for n in ('alpha', 'beta')]
    props = [('alpha', draw(observed_spec(1))), ('beta', {'t': 'Instance', 'cls': 0}),
             ('gamma', draw(observed_spec(1)))]
    specs = [{'name': 'Cls0', 'props': inner, 'base': None},
             {'name': 'Cls1', 'props': props, 'base': None}]
    init = draw(gens.instance_case(specs, 1, fill=0.95))
    ops = []
    table = gens.props_of(specs)
    for _ in range(draw(st.integers(2, 8))):
        name, spec = draw(st.sampled_from(props))
        veto = draw(st.sampled_from([None] * 3 + sorted(VETO_ERRORS)))
        where = draw(st.sampled_from(['class', 'instance']))
        if name == 'beta':
            nam, spc = draw(st.sampled_from(inner))
            if draw(st.integers(0, 3)):
                ops.append(('nested', nam, draw(gens.candidate(spc, table)), veto, where))
            else:
                ops.append(('set', 'beta', draw(gens.candidate(spec, table)), veto, where))
            continue
        sub = spec.get('prop', spec.get('value_prop'))
        key = spec.get('key_prop', {'t': 'Integer'})
        arg = (draw(st.sampled_from(MUTATIONS[spec['t']])), draw(st.integers(0, 3)),
               draw(st.one_of(gens.valid_value(key, table), gens.junk())),
               draw(gens.candidate(sub, table)))
        ops.append(('mut', name, arg, veto, where))
    return specs, init, ops


@facet('containers', strategy=focused_cases, quick=400, shards=4)
def check_containers(case, ctx):
    check_history(case, ctx)
