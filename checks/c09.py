"""C09: object validation"""
import properties
from hypothesis import strategies as st

from vlib import gens, model
from vlib.harness import facet
from vlib.values import build

ID = 'C09'
RULE = ('random class families with required and optional properties, lengths, nested '
        'containers, unions and instances; objects with missing values, then in-place '
        'changes (good and bad) anywhere in the graph, and class validators that agree, '
        'refuse or raise; non-trivial: something is missing, changed in place or refused')
FACETS = []


KINDS = {'List': list, 'Tuple': tuple, 'Set': set, 'Dictionary': dict}


def containers_in(spec, val, out):
    """Non-observed mutable containers in a value, in a fixed order"""
    kind = spec['t']
    if val is None:
        return
    if kind in KINDS and not isinstance(val, KINDS[kind]):
        return          # put in place of a container
    if kind == 'Union':
        for sub in spec['props']:
            if sub['t'] in ('List', 'Tuple', 'Set', 'Dictionary'):
                if isinstance(val, KINDS[sub['t']]):
                    containers_in(sub, val, out)
                    return
    if kind in ('List', 'Tuple'):
        if kind == 'List':
            out.append((spec, val))
        for item in val:
            containers_in(spec.get('prop', {'t': 'Any'}), item, out)
    elif kind == 'Set':
        out.append((spec, val))
    elif kind == 'Dictionary':
        out.append((spec, val))
        for item in val.values():
            containers_in(spec.get('value_prop', {'t': 'Any'}), item, out)


def instances_in(val, out):
    """All spec'd objects inside a value, each once"""
    if isinstance(val, properties.HasProperties):
        if any(val is o for o in out):
            return
        out.append(val)
        for name in sorted(val._props):
            instances_in(getattr(val, name), out)
    elif isinstance(val, dict):
        for item in val.values():
            instances_in(item, out)
    elif isinstance(val, (list, tuple)):
        for item in val:
            instances_in(item, out)


def is_observed(val):
    return type(val).__name__.startswith('Observable')


def mutate(obj, env, op, ctx):
    """Apply one in-place change somewhere in the graph"""
    where, action, raw = op
    objs = []
    instances_in(obj, objs)
    places = []
    for one in objs:
        for name, spec in env.props(model.class_index(one, env)):
            found = []
            containers_in(spec, getattr(one, name), found)
            found = [('box', s, v) for s, v in found if not is_observed(v)]
            places += found * 3 or [('prop', one, name)]
    kind, first, second = places[where % len(places)]
    value = build(raw)
    if kind == 'prop':
        try:
            if action == 'drop':
                delattr(first, second)
            else:
                setattr(first, second, value)
        except ValueError:
            pass
        return
    ctx.label('in place')
    box = second
    if isinstance(box, list):
        if action == 'add' or not box:
            box.append(value)
        elif action == 'repeat':
            box.append(box[0])
        elif action == 'swap':
            box[where % len(box)] = value
        else:
            del box[where % len(box)]
    elif isinstance(box, set):
        if action in ('add', 'swap') and isinstance(value, (int, str, float)):
            box.add(value)
        elif box:
            box.pop() if len(box) == 1 else box.clear()
    else:
        keys = list(box)
        if action == 'swap' and keys:
            box[keys[where % len(keys)]] = value
        elif action == 'add' and isinstance(value, (int, str)):
            box[value] = box[keys[0]] if keys else value
        elif keys:
            del box[keys[where % len(keys)]]


def state_valid(spec, val, env):
    """Is a value that may have been changed in place valid?"""
    kind = spec['t']
    if kind == 'Instance':
        return isinstance(val, env.classes[spec['cls']]) and object_valid(val, env)
    if kind == 'Union':
        res = model.accept(spec, val, env)
        if res is model.BAD:
            return False
        unclear = res is model.SKIP
        if not unclear and not model.same(res[1], val, env):
            raise model.Unclaimed()     # an earlier member converts it
        for sub in spec['props']:
            one = model.accept(sub, val, env)
            if one is model.BAD:
                continue
            if one is model.SKIP or not model.same(one[1], val, env):
                unclear = True
            elif state_valid(sub, val, env):
                return True
        if unclear:
            raise model.Unclaimed()
        return False
    res = model.accept(spec, val, env)
    if res is model.BAD:
        return False
    if res is model.SKIP:
        raise model.Unclaimed()
    if kind in KINDS and not isinstance(val, KINDS[kind]):
        return False        # another kind of value in place of a container
    if kind in model.CONTAINER:
        return model.within_length(spec, val) and all_valid(
            [(spec.get('prop', {'t': 'Any'}), v) for v in val], env)
    if kind == 'Dictionary':
        return all_valid(
            [(spec.get('key_prop', {'t': 'Any'}), v) for v in val] +
            [(spec.get('value_prop', {'t': 'Any'}), v) for v in val.values()], env)
    if not model.same(res[1], val, env):
        raise model.Unclaimed()         # valid as long as it counts as equal
    return True


def all_valid(pairs, env):
    """All of (spec, value) valid; one clearly invalid decides"""
    unclear = None
    for spec, val in pairs:
        try:
            if not state_valid(spec, val, env):
                return False
        except model.Unclaimed as err:
            unclear = err
    if unclear:
        raise unclear
    return True


def object_valid(obj, env):
    pairs = []
    for name, spec in env.props(model.class_index(obj, env)):
        val = getattr(obj, name)
        if val is None:
            if spec.get('required', True):
                return False
        else:
            pairs.append((spec, val))
    return all_valid(pairs, env)


@st.composite
def wrapped(draw, spec):
    """Often a container of the spec"""
    pick = draw(st.integers(0, 5))
    required = {k: v for k, v in spec.items() if k == 'required'}
    inner = {k: v for k, v in spec.items() if k != 'required'}
    if pick == 0:
        return dict(required, t='List', prop=inner, **draw(gens.lengths()))
    if pick == 1:
        return dict(required, t='Dictionary', key_prop={'t': 'String'}, value_prop=inner)
    if pick == 2 and spec['t'] == 'Instance':
        return dict(required, t='Tuple', prop=inner)
    return spec


@st.composite
def cases(draw):
    specs = draw(gens.class_specs(count=3, depth=draw(st.integers(1, 2))))
    for one in specs:
        one['props'] = [(n, draw(wrapped(s))) for n, s in one['props']]
    index = len(specs) - 1
    init = draw(gens.instance_case(specs, index, fill=draw(
        st.sampled_from([0.6, 0.95, 1.0])), max_size=3))
    value = st.one_of(gens.small_ints(), gens.json_texts(4),
                      st.sampled_from([0.5, 'red', (1, 2, 3), [1], {}, 1e30, 'x1', '42']))
    ops = draw(st.lists(st.tuples(
        st.integers(0, 60), st.sampled_from(['add', 'repeat', 'swap', 'drop', 'remove']),
        value), max_size=4))
    return specs, init, ops


@facet('objects', strategy=cases, quick=1500, shards=6)
def check_objects(case, ctx):
    specs, init, ops = case
    env = model.Env(specs)
    index = len(specs) - 1
    obj = env.make_inst(index, {})
    for name, raw in init.items():
        setattr(obj, name, build(raw, env.builders()))
    for op in ops:
        mutate(obj, env, op, ctx)
    failing, unclear = [], []
    for name, spec in env.props(index):
        val = getattr(obj, name)
        try:
            if val is None:
                good = not spec.get('required', True)
            else:
                good = state_valid(spec, val, env)
            if not good:
                failing.append(name)
        except model.Unclaimed:
            unclear.append(name)
    if unclear and not failing:
        raise model.Unclaimed()
    ctx.label('%s failing' % min(len(failing), 3))
    ctx.nontrivial(bool(failing) or bool(ops))
    log = []
    everything = []
    instances_in(obj, everything)
    for one in everything:
        properties.observer(one, properties.everything,
                            lambda o, c: log.append(c['name']))
        properties.observer(one, properties.everything,
                            lambda o, c: log.append(c['name']), change_only=True)
    picture = model.describe(obj)
    parts = [(name, getattr(obj, name)) for name, _ in env.props(index)]
    for _ in range(2):
        if not failing:
            ctx.check(obj.validate() is True, 'validate gave no True')
        else:
            err = ctx.raises(properties.ValidationError, obj.validate,
                             'validate with bad %r' % (failing,))
            check_tuples(err, obj, failing, unclear, ctx)
        ctx.check(model.describe(obj) == picture, 'validate changed %r to %r',
                  picture, model.describe(obj))
        for name, val in parts:
            ctx.check(getattr(obj, name) is val, 'validate replaced %s', name)
        ctx.check(not log, 'validate notified observers of %r', log)


def check_tuples(err, obj, failing, unclear, ctx):
    """Each failing property is reported, and nothing else"""
    found = set()
    for tup in err.error_tuples:
        if tup.instance is obj:
            ctx.check(tup.prop in failing or tup.prop in unclear,
                      '%s reported as failing: %s', tup.prop, tup.message)
            found.add(tup.prop)
            missing = getattr(obj, tup.prop) is None
            ctx.check(tup.reason == ('missing' if missing else 'invalid'),
                      'reason %r for %s', tup.reason, tup.prop)
            continue
        owners = []
        for name in failing + unclear:
            inner = []
            instances_in(getattr(obj, name), inner)
            if any(tup.instance is i for i in inner):
                owners.append(name)
        ctx.check(owners, 'error about an unrelated object: %r', tup)
        found.update(owners)
    for name in failing:
        ctx.check(name in found, '%s not reported in %s', name, err)
        if getattr(obj, name) is None:
            ctx.check("'%s'" % name in str(err), '%s not named in %s', name, err)


# ------------------------------------------------- class validators

ACTIONS = ['true', 'none', 'false', 'validation', 'value', 'zero']


@st.composite
def validator_cases(draw):
    base = draw(st.lists(st.sampled_from(ACTIONS), max_size=2))
    own = draw(st.lists(st.sampled_from(ACTIONS), max_size=3))
    override = draw(st.one_of(st.none(), st.sampled_from(ACTIONS)))
    # property listeners: what they do on validate()
    listener = draw(st.sampled_from(['none', 'pass', 'refuse', 'replace', 'same']))
    values = {n: draw(st.sampled_from(['unset', 1, -5, 7])) for n in ('aa', 'bb')}
    return base, own, override, listener, values


def do_action(action, obj, log, name):
    log.append(name)
    if action == 'true':
        return True
    if action == 'false':
        return False
    if action == 'zero':
        return 0
    if action == 'validation':
        raise properties.ValidationError('refused ' + name, 'odd', None, obj)
    if action == 'value':
        raise ValueError('plain ' + name)
    return None


@facet('validators', strategy=validator_cases, quick=1500, shards=2)
def check_validators(case, ctx):
    base, own, override, listener, values = case
    log = []

    def method(action, name):
        @properties.validator
        def func(self):
            return do_action(action, self, log, name)
        return func
    live = {'base%d' % i: a for i, a in enumerate(base)}
    body = {'aa': properties.Integer('', max=5, required=False),
            'bb': properties.List('', properties.Integer(''), required=False)}
    body.update({n: method(a, n) for n, a in live.items()})
    base_cls = type(properties.HasProperties)('BaseCls', (properties.HasProperties,), body)
    body = {}
    if override is not None and base:
        live['base0'] = override
        body['base0'] = method(override, 'base0')
    for i, action in enumerate(own):
        live['own%d' % i] = action
        body['own%d' % i] = method(action, 'own%d' % i)
    state = {'on': False}

    def hears(self, change):
        if not state['on']:
            return
        log.append('prop ' + change['name'])
        if listener == 'refuse':
            raise properties.ValidationError('listener', 'invalid', 'aa', self)
        if listener == 'replace':
            change['value'] = change['value'] + 1
        if listener == 'same':
            change['value'] = change['value'] + 0
    if listener != 'none':
        body['hears'] = properties.validator('aa')(hears)
    cls = type(properties.HasProperties)('Cls', (base_cls,), body)
    obj = cls()
    if values['aa'] != 'unset' and values['aa'] <= 5:
        obj.aa = values['aa']
    if values['bb'] != 'unset':
        obj.bb = [values['bb']]
        if values['bb'] < 0:
            obj.bb.append('junk')
    state['on'] = True
    bad = [n for n, a in live.items() if a in ('false', 'validation')]
    plain = [n for n, a in live.items() if a == 'value']
    props_bad = []
    if obj.aa is not None and listener in ('refuse', 'replace'):
        props_bad.append('aa')
    if values['bb'] == -5:
        props_bad.append('bb')
    picture = model.describe(obj)
    ctx.nontrivial(bool(live) or bool(props_bad))
    ctx.label('bad' if bad or props_bad else ('plain' if plain else 'good'))
    if bad or props_bad:
        err = ctx.raises(properties.ValidationError, obj.validate, 'refused validation')
        ctx.check(len(err.error_tuples) == len(bad) + len(props_bad),
                  '%d errors for %r', len(err.error_tuples), bad + props_bad)
        for name in bad:
            if live[name] == 'validation':
                ctx.check('refused ' + name in str(err), '%s not in %s', name, err)
        for name in props_bad:
            ctx.check(any(t.prop == name and t.instance is obj
                          for t in err.error_tuples), '%s not reported', name)
    elif plain:
        err = ctx.raises(ValueError, obj.validate, 'plain error')
        ctx.check('plain' in str(err), 'another error: %r', err)
    else:
        ctx.check(obj.validate() is True, 'validate gave no True')
    ctx.check(sorted(n for n in log if not n.startswith('prop')) == sorted(live),
              'class validators run: %r, defined: %r', log, live)
    heard = log.count('prop aa')
    ctx.check(heard == (1 if obj.aa is not None and listener != 'none' else 0),
              'property validator ran %d times', heard)
    ctx.check(model.describe(obj) == picture, 'validate changed the object: %r to %r',
              picture, model.describe(obj))
    del log[:]
    try:
        obj.validate()
    except ValueError:
        pass
    ctx.check(sorted(n for n in log if not n.startswith('prop')) == sorted(live),
              'class validators run again: %r, defined: %r', log, live)


# ------------------------------------------------- objects as set members and keys

PLACES = ['set', 'key', 'value', 'pair', 'listed key', 'tupled set', 'either key', 'either set',
          'deep key', 'key in value', 'list', 'tuple', 'lists', 'either list', 'maybe list']


def member_cases():
    one = st.tuples(st.sampled_from(['full', 'full', 'full', 'empty', 'no size', 'bad inside']),
                    st.booleans())
    return st.lists(st.tuples(
        st.sampled_from(PLACES), st.lists(one, max_size=3), st.booleans(),
        st.sampled_from([(0, 0), (0, 0), (0, 0), (1, 0), (9, 0), (30, 2), (0, 12)])),
        min_size=1, max_size=3)


@facet('members', strategy=member_cases, quick=500, shards=2)
def check_members(case, ctx):
    """Objects held as set members and dictionary keys are validated too"""
    class Item(properties.HasProperties):
        size = properties.Integer('')
        more = properties.List('', properties.Integer(''), required=False)
    inst = lambda: properties.Instance('', Item)                # noqa: E731
    either = lambda: properties.Union('', (inst(), properties.String('')))      # noqa: E731
    number = lambda: properties.Integer('')                     # noqa: E731
    make = {
        'set': lambda: properties.Set('', inst()),
        'key': lambda: properties.Dictionary('', key_prop=inst()),
        'value': lambda: properties.Dictionary('', value_prop=inst()),
        'pair': lambda: properties.Dictionary('', key_prop=inst(), value_prop=inst()),
        'listed key': lambda: properties.List('', properties.Dictionary(
            '', key_prop=inst(), value_prop=number())),
        'tupled set': lambda: properties.Tuple('', properties.Set('', inst())),
        'either key': lambda: properties.Dictionary('', key_prop=either(), value_prop=number()),
        'either set': lambda: properties.Set('', either()),
        'deep key': lambda: properties.Dictionary('', value_prop=properties.Dictionary(
            '', key_prop=inst())),
        'key in value': lambda: properties.Dictionary('', key_prop=properties.String(''),
                                                      value_prop=properties.Set('', inst())),
        'list': lambda: properties.List('', inst()),
        'tuple': lambda: properties.Tuple('', inst()),
        'lists': lambda: properties.List('', properties.List('', inst())),
        'either list': lambda: properties.List('', either()),
        'maybe list': lambda: properties.Union('', (number(), properties.List('', inst()))),
    }
    body = {'p%d' % i: make[place]() for i, (place, _, _, _) in enumerate(case)}
    cls = type(properties.HasProperties)('Holder', (properties.HasProperties,), body)
    obj = cls()
    failing, broken = [], []
    late = []
    for i, (place, members, text, (before, behind)) in enumerate(case):
        items = []
        for state, after in members:
            item = Item(size=1, more=[1])
            items.append(item)
            if state == 'full':
                continue
            broken.append(item)
            if 'p%d' % i not in failing:
                failing.append('p%d' % i)
            if after:
                late.append((item, state))
            else:
                spoil(item, state)
        items[:0] = [Item(size=3) for _ in range(before)]
        items += [Item(size=4) for _ in range(behind)]
        extra = ['text'] if text and place.startswith('either') else []
        numbered = {item: k for k, item in enumerate(items + extra)}
        val = {
            'set': lambda: set(items), 'key': lambda: numbered,
            'value': lambda: {k: item for item, k in numbered.items()},
            'pair': lambda: {item: items[0] for item in items},
            'listed key': lambda: [{}, numbered], 'tupled set': lambda: (set(items), set()),
            'either key': lambda: numbered, 'either set': lambda: set(items + extra),
            'deep key': lambda: {1: {}, 2: numbered}, 'key in value': lambda: {'a': set(items)},
            'list': lambda: items, 'tuple': lambda: tuple(items),
            'lists': lambda: [items[:1], [], items[1:]],
            'either list': lambda: extra + items, 'maybe list': lambda: items,
        }[place]()
        setattr(obj, 'p%d' % i, val)
    for item, state in late:
        spoil(item, state)
    ctx.nontrivial(bool(failing))
    ctx.label('%d broken' % min(len(broken), 3))
    for _ in range(2):
        if not failing:
            ctx.check(obj.validate() is True, 'validate gave no True')
            continue
        err = ctx.raises(properties.ValidationError, obj.validate,
                         'validate with incomplete members in %r' % (failing,))
        for tup in err.error_tuples:
            ctx.check(any(tup.instance is b for b in broken) or
                      tup.instance is obj and tup.prop in failing,
                      'error about something whole: %r', tup)
    for item in broken:
        item.size = 2
        item.more = [2]
    ctx.check(obj.validate() is True, 'not valid after its members were repaired')


def spoil(item, state):
    if state == 'empty':
        item.size = item.more = properties.undefined
    elif state == 'no size':
        del item.size
    else:
        item.more.append('x')
