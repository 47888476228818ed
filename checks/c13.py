"""C13: change notifications"""
import numpy as np
import properties
from hypothesis import strategies as st

from vlib import gens, model
from vlib.harness import facet
from vlib.values import build

ID = 'C13'
RULE = ('random classes (with a base class) with change validators and observers of both '
        'kinds on one, several or all properties - logging, vetoing, replacing the value, '
        'assigning other properties, raising, rewriting the change - plus listeners added '
        'to single objects on the way; histories of assignments, deletions, resets, '
        'keywords and validate calls on several objects; the log of calls is compared with '
        'a model of the documented order; non-trivial: at least two listeners ran and one '
        'of them is on several properties, on one object, or acts')
FACETS = []
ASSUMPTIONS = ['what later listeners see after an earlier one rewrote the change, and '
               'whether they run after an observer raised, is not claimed']

SPECS = {
    'alpha': {'t': 'Integer', 'cast': True},
    'beta': {'t': 'Float'},
    'gamma': {'t': 'List', 'prop': {'t': 'Integer'}},
    'delta': {'t': 'String', 'strip': ' '},
    '_eps': {'t': 'Set', 'prop': {'t': 'Boolean'}},
}
NAMES = sorted(SPECS)
VALUES = {
    'alpha': [0, 1, 1.0, '1', 3, 3, 7, 'x', None, [1]],
    'beta': [0.0, 0, -0.0, 1e-10, 1.5, 3.0, 3, float('nan'), float('inf'), 'x', None],
    'gamma': [[], [1], [1.0], [3], [3, 3], [1, 2], (1,), ['x'], None],
    'delta': ['', ' ', 'a', ' a', 'a ', 'hot', 'A', 3, None],
    '_eps': [set(), {True}, {True, False}, {False}, {1.5}, [True], None],
}
HOT = {'alpha': 3, 'beta': 3.0, 'gamma': [3], 'delta': 'hot', '_eps': {False}}
NEW = {'alpha': 5, 'beta': 0.5, 'gamma': [5], 'delta': 'new', '_eps': {True}}
DEFAULT = {'alpha': 7, 'delta': 'dflt', 'gamma': [1]}
ERRORS = {'ValidationError': lambda: properties.ValidationError('veto'),
          'ValueError': lambda: ValueError('veto'), 'KeyError': lambda: KeyError('veto'),
          'RuntimeError': lambda: RuntimeError('veto')}
# what listeners give back counts for nothing
RETURNS = [False, None, True, 0, properties.undefined, 'veto', {'value': 5}]
MODES = {'validate': 'validate', 'set': 'observe_set', 'change': 'observe_change'}


def names_strategy():
    return st.one_of(st.just('everything'), st.sampled_from(NAMES),
                     st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))


@st.composite
def listener(draw):
    mode = draw(st.sampled_from(['validate', 'set', 'change', 'set', 'change']))
    if mode == 'validate':
        act = draw(st.sampled_from(['log', 'log', 'veto', 'replace', 'replace always',
                                    'tamper']))
    else:
        act = draw(st.sampled_from(['log', 'log', 'log', 'assign', 'raise', 'tamper',
                                    'delete']))
    arg = draw(st.sampled_from(sorted(ERRORS))) if act in ('veto', 'raise') else (
        draw(st.sampled_from(NAMES)) if act in ('assign', 'delete') else None)
    return mode, draw(names_strategy()), act, arg, draw(
        st.sampled_from(['list', 'tuple', 'set', 'plain']))


@st.composite
def op(draw):
    kind = draw(st.sampled_from(['set'] * 7 + ['del', 'undefined', 'reset', 'listen',
                                               'validate', 'init', 'resetall']))
    name = draw(st.sampled_from(NAMES))
    if kind == 'set':
        arg = draw(st.sampled_from(VALUES[name]))
    elif kind == 'init':
        arg = {n: draw(st.sampled_from(VALUES[n]))
               for n in draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=3))}
    elif kind == 'listen':
        arg = draw(listener())
    else:
        arg = None
    return kind, draw(st.integers(0, 1)), name, arg


@st.composite
def cases(draw):
    base = draw(st.lists(listener(), max_size=3))
    own = draw(st.lists(listener(), max_size=3))
    return base, own, draw(st.lists(op(), min_size=2, max_size=10))


class Boom(Exception):
    """The modelled listener raised"""

    def __init__(self, name, observer):
        super(Boom, self).__init__(name)
        self.name = name
        self.observer = observer


class World(object):
    """Real classes and the model of what their listeners must do"""

    def __init__(self, base, own):
        self.log = []
        self.depth = 0
        self.count = 0
        self.acting = True
        self.class_listeners = []
        props = {n: model.make(dict(s, **({'default': DEFAULT[n]} if n in DEFAULT else {})))
                 for n, s in SPECS.items()}
        first = dict(list(props.items())[:3])
        rest = dict(list(props.items())[3:])
        for i, one in enumerate(base):
            known = list(first)
            one = self.restrict(one, known)
            if one:
                first['_base%d' % i] = self.declare(one)
        self.base = type(properties.HasProperties)('Base', (properties.HasProperties,),
                                                   first)
        for i, one in enumerate(own):
            rest['_own%d' % i] = self.declare(one)
        self.cls = type(self.base)('Holder', (self.base,), rest)
        self.objs = []
        self.states = []
        self.own_listeners = []

    def restrict(self, one, known):
        """Only names the base class has (everything stands for all, also later ones)"""
        mode, names, act, arg, form = one
        if names == 'everything':
            return one
        names = [n for n in ([names] if isinstance(names, str) else names) if n in known]
        return (mode, names, act, arg, form) if names else None

    def declare(self, one):
        mode, names, act, arg, form = one
        key = ('class', self.count)
        self.count += 1
        self.class_listeners.append((key, one))
        func = self.callback(key, one)
        given = self.names(names, form)
        if mode == 'validate':
            out = properties.validator(given)(func)
        elif mode == 'change':
            out = properties.observer(given, change_only=True)(func)
        else:
            out = properties.observer(given)(func)
        if isinstance(given, (list, set)):
            given.clear()               # the caller may reuse its list
        return out

    def add(self, index, one):
        mode, names, act, arg, form = one
        key = ('instance', self.count)
        self.count += 1
        self.own_listeners[index].append((key, one))
        func = self.callback(key, one)
        args = self.objs[index], self.names(names, form), func
        if mode == 'validate':
            out = properties.validator(*args)
        else:
            out = properties.observer(*args, **({'change_only': True} if mode == 'change'
                                                else {}))
        if isinstance(args[1], (list, set)):
            args[1].clear()
        return out

    @staticmethod
    def names(names, form):
        if names == 'everything':
            return properties.everything
        if isinstance(names, str):
            names = [names]
        if form == 'plain' and len(names) == 1:
            return names[0]
        return {'tuple': tuple, 'set': set}.get(form, list)(names)

    # ------------------------------------------------------------- real side

    def callback(self, key, one):
        mode, names, act, arg, form = one

        def func(obj, change):
            number = [i for i, o in enumerate(self.objs) if o is obj] or ['new']
            name = change['name']
            current = getattr(obj, name) if name in SPECS else 'unknown'
            self.log.append((number[0], key, change['mode'], name, freeze(change['previous']),
                             freeze(change['value']), freeze(current)))
            hot = is_hot(name, change['value'])
            if not self.acting:
                return RETURNS[key[1] % len(RETURNS)]
            if act == 'veto' and hot or act == 'raise' and hot:
                raise ERRORS[arg]()
            if act == 'replace' and hot or act == 'replace always':
                change['value'] = copy_of(NEW.get(name))
            elif act == 'tamper' and hot:
                change['name'] = 'zz'
                change['previous'] = 'bogus'
                change['mode'] = 'nothing'
            elif act in ('assign', 'delete') and self.depth < 2:
                self.depth += 1
                try:
                    if act == 'assign':
                        setattr(obj, arg, copy_of(NEW[arg]))
                    else:
                        delattr(obj, arg)
                finally:
                    self.depth -= 1
            return RETURNS[key[1] % len(RETURNS)]
        return func

    # ------------------------------------------------------------- model side

    def listeners(self, index, name, mode):
        out = self.class_listeners + (self.own_listeners[index] if index != 'new' else [])
        return [(key, one) for key, one in out if one[0] == mode and
                (one[1] == 'everything' or name in one[1] or name == one[1])]

    def model_set(self, index, state, name, value, log, depth=0):
        """Model of storing an accepted value; raises Boom when a listener does"""
        prev = state.get(name, properties.undefined)
        tampered = False
        for key, one in self.listeners(index, name, 'validate'):
            log.append((index, key, 'validate', name, freeze(prev), freeze(value),
                        freeze(state.get(name)), tampered))
            hot = is_hot(name, value)
            if tampered:
                hot = hot and False
                if one[2] in ('veto', 'replace', 'replace always', 'tamper'):
                    raise model.Unclaimed()
            if one[2] == 'veto' and hot:
                raise Boom(one[3], False)
            if one[2] == 'replace' and hot or one[2] == 'replace always':
                value = copy_of(NEW[name])
            elif one[2] == 'tamper' and hot:
                tampered = True
        if value is properties.undefined:
            state.pop(name, None)
        else:
            state[name] = value
        changed = True
        if prev is properties.undefined or value is properties.undefined:
            changed = prev is not value
        else:
            same = model.equal(SPECS[name], prev, value)
            if same is None:
                raise model.Unclaimed()
            changed = not same
        for mode in (['change'] if changed else []) + ['set']:
            tampered = False
            for key, one in self.listeners(index, name, mode):
                log.append((index, key, MODES[mode], name, freeze(prev), freeze(value),
                            freeze(state.get(name)), tampered))
                if tampered and one[2] != 'log':
                    raise model.Unclaimed()
                hot = is_hot(name, value)
                if one[2] == 'raise' and hot:
                    raise Boom(one[3], True)
                if one[2] == 'tamper' and hot:
                    tampered = True
                elif one[2] in ('assign', 'delete') and depth < 2:
                    other = one[3]
                    new = copy_of(NEW[other]) if one[2] == 'assign' else properties.undefined
                    self.model_set(index, state, other, new, log, depth + 1)


def copy_of(val):
    return type(val)(val) if isinstance(val, (list, set)) else val


def is_hot(name, value):
    return (name in HOT and type(value) is type(HOT[name]) and value == HOT[name])


def freeze(val):
    if val is properties.undefined or val is None:
        return 'undefined' if val is not None else 'None'
    if isinstance(val, set):
        return ('set',) + tuple(sorted(val))
    return (type(val).__name__, repr(val))


def matches(got, want):
    """Does the real log entry match the modelled one?"""
    if len(want) == 8 and want[7]:
        return got[:2] == want[:2]
    return got == want[:7]


@facet('history', strategy=cases, quick=2200, shards=7)
def check_history(case, ctx):
    base, own, ops = case
    world = World(base, own)
    for _ in range(2):
        world.objs.append(world.cls())
        world.states.append({n: copy_of(v) for n, v in DEFAULT.items()})
        world.own_listeners.append([])
    ctx.check(not world.log, 'defaults notified %r', world.log)
    for kind, index, name, arg in ops:
        obj, state = world.objs[index], world.states[index]
        other = model.describe(world.objs[1 - index])
        del world.log[:]
        world.depth = 0
        want, boom, error = [], None, None
        new_state = dict(state)
        if kind == 'listen':
            out = world.add(index, arg)
            ctx.check(out.mode == MODES[arg[0]], 'listener of mode %r', out.mode)
            ctx.check(not world.log, 'registering a listener notified')
            continue
        if kind == 'init':
            check_init(world, arg, ctx)
            continue
        if kind == 'validate':
            check_validate(world, index, ctx)
            continue
        names = [name]
        value = properties.undefined
        if kind == 'set':
            res = model.accept(SPECS[name], build(arg))
            if res is model.SKIP:
                continue
            value = res[1] if res[0] == 'ok' else model.BAD
        elif kind == 'resetall':
            names = list(NAMES_IN_ORDER)
        try:
            if value is not model.BAD:
                for one in names:
                    if kind in ('reset', 'resetall'):
                        value = copy_of(DEFAULT.get(one, properties.undefined))
                    world.model_set(index, new_state, one, value, want)
        except Boom as err:
            boom = err
        try:
            if kind == 'set':
                setattr(obj, name, build(arg))
            elif kind == 'del':
                delattr(obj, name)
            elif kind == 'undefined':
                setattr(obj, name, properties.undefined)
            elif kind == 'reset':
                obj._reset(name)
            else:
                obj._reset()
        except Exception as err:                                # pylint: disable=broad-except
            error = err
        acting = {one[2] for key, one in world.class_listeners + world.own_listeners[index]}
        ctx.nontrivial(len(world.log) > 1 and (acting != {'log'} or any(
            entry[1][0] == 'instance' for entry in world.log)))
        if value is model.BAD:
            ctx.label('refused value')
            ctx.check(isinstance(error, properties.ValidationError),
                      'setting %s to %r gave %r', name, arg, error)
            ctx.check(not world.log, 'refused value notified %r', world.log)
        elif boom is not None:
            ctx.label('observer raised' if boom.observer else 'veto')
            ctx.check(type(error).__name__ == boom.name, '%s of %s gave %r, expected a %s',
                      kind, name, error, boom.name)
        else:
            ctx.check(error is None, '%s of %s gave %r', kind, name, error)
        got = world.log
        if boom is not None and boom.observer:
            got = got[:len(want)]
        ctx.check(len(got) == len(want) and all(map(matches, got, want)),
                  '%s of %s to %r called %r, expected %r', kind, name, value, got, want)
        if kind == 'resetall' and boom is not None:
            # how far the reset went is not claimed
            for one in NAMES:
                new_state.pop(one, None)
                if getattr(obj, one) is not None:
                    new_state[one] = copy_of(getattr(obj, one))
        world.states[index] = new_state
        for one in NAMES:
            ctx.check(freeze(getattr(obj, one)) == freeze(new_state.get(one)),
                      'after %s of %s, %s is %r, expected %r', kind, name, one,
                      getattr(obj, one), new_state.get(one))
        ctx.check(model.describe(world.objs[1 - index]) == other,
                  'the other object changed')


NAMES_IN_ORDER = list(SPECS)


def check_init(world, values, ctx):
    """Keywords notify the class listeners like assignments, in order"""
    want, state = [], {n: copy_of(v) for n, v in DEFAULT.items()}
    results = {n: model.accept(SPECS[n], build(v)) for n, v in values.items()}
    if model.SKIP in results.values():
        return
    try:
        for name, res in results.items():
            if res is not model.BAD:
                world.model_set('new', state, name, res[1], want)
    except Boom:
        ctx.label('keyword raised')
        ctx.raises(Exception, lambda: world.cls(**{n: build(v) for n, v in values.items()}),
                   'keywords %r' % values)
        return
    try:
        obj = world.cls(**{n: build(v) for n, v in values.items()})
    except properties.ValidationError as err:
        ctx.check(model.BAD in results.values(), 'keywords %r refused: %r', values, err)
        obj = None
    else:
        ctx.check(model.BAD not in results.values(), 'keywords %r accepted', values)
    ctx.check(len(world.log) == len(want) and all(map(matches, world.log, want)),
              'keywords %r called %r, expected %r', values, world.log, want)
    if obj is not None:
        for one in NAMES:
            ctx.check(freeze(getattr(obj, one)) == freeze(state.get(one)),
                      'keywords %r: %s is %r, expected %r', values, one, getattr(obj, one),
                      state.get(one))


def check_validate(world, index, ctx):
    """validate() runs the change validators of each set value, and no observers"""
    obj, state = world.objs[index], world.states[index]
    world.acting = False
    try:
        error = None
        try:
            obj.validate()
        except properties.ValidationError as err:
            error = err
    finally:
        world.acting = True
    missing = [n for n in NAMES if n not in state]
    ctx.check((error is not None) == bool(missing), 'validate gave %r, missing %r', error,
              missing)
    for name in NAMES:
        want = []
        if name in state:
            val = freeze(state[name])
            want = [(index, key, 'validate', name, val, val, val)
                    for key, _ in world.listeners(index, name, 'validate')]
        got = [entry for entry in world.log if entry[3] == name]
        ctx.check(got == want, 'validate called %r for %s, expected %r', got, name, want)
    ctx.check(all(entry[2] == 'validate' for entry in world.log), 'validate notified %r',
              world.log)


# ------------------------------------------------- order inside a class hierarchy

@st.composite
def order_cases(draw):
    levels = draw(st.lists(st.lists(st.sampled_from(
        ['validate', 'set', 'change']), max_size=4), min_size=1, max_size=4))
    overrides = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3),
                                        st.sampled_from(['function', 'listener'])),
                              max_size=2))
    return levels, overrides, draw(st.integers(0, 3))


@facet('order', strategy=order_cases, quick=700, shards=1)
def check_order(case, ctx):
    """Listeners of base classes run first, of one class in declared order"""
    levels, overrides, extra = case
    log = []
    where = []          # method name -> (level, position, mode), nearest definition
    cls = properties.HasProperties
    live = {}
    for level, modes in enumerate(levels):
        body = {'num': properties.Integer('')} if not level else {}
        for pos, mode in enumerate(modes):
            name = '_on_%d_%d' % (level, pos)
            body[name] = listen(log, name, mode)
            live[name] = (level, pos, mode, level)
        for at, pos, how in overrides:
            if level < 1:
                continue
            name = '_on_%d_%d' % (at, pos)
            if name not in live or live[name][0] >= level or name in body:
                continue
            if (at + pos + level) % 2:
                continue
            mode = live[name][2]
            if how == 'listener':
                body[name] = listen(log, name + '*', mode)
                live[name] = live[name][:3] + (level,)
            else:
                body[name] = plain(log, name)
                live.pop(name)
        cls = type(properties.HasProperties)('Level%d' % level, (cls,), body)
        where.append(cls)
    obj = cls()
    for i in range(extra):
        properties.observer(obj, 'num', listen_plain(log, 'late%d' % i))
    obj.num = 4
    ctx.nontrivial(len(live) > 1)
    for mode in ('validate', 'change', 'set'):
        got = [name for kind, name in log if kind == mode]
        want = [n for n in live if live[n][2] == mode]
        ctx.check(sorted(n.rstrip('*') for n in got if not n.startswith('late')) ==
                  sorted(want), '%s listeners %r, expected %r', mode, got, want)
        fixed = [n for n in want if live[n][3] == live[n][0]]
        fixed.sort(key=lambda n: live[n][:2])
        ctx.check([n for n in got if n in fixed] == fixed, '%s order %r, expected %r',
                  mode, got, fixed)
        late = ['late%d' % i for i in range(extra)] if mode == 'set' else []
        ctx.check(got[len(got) - len(late):] == late, 'late listeners in %r', got)
    kinds = [kind for kind, _ in log]
    order = ['validate', 'change', 'set']
    ctx.check([order.index(k) for k in kinds] == sorted(order.index(k) for k in kinds),
              'kinds of listeners mixed: %r', kinds)


def listen(log, name, mode):
    def func(self, change):
        log.append((mode, name))
    if mode == 'validate':
        return properties.validator('num')(func)
    return properties.observer('num', change_only=mode == 'change')(func)


def plain(log, name):
    def func(self, change):
        log.append(('plain', name))
    return func


def listen_plain(log, name):
    return lambda obj, change: log.append(('set', name))


# ------------------------------------------------- which values count as a change

@st.composite
def change_cases(draw):
    spec = draw(gens.any_spec(1, 0, unions=False))
    return spec, draw(gens.valid_value(spec)), draw(st.one_of(
        gens.valid_value(spec), gens.near(spec)))


@facet('changed', strategy=change_cases, quick=1200, shards=2)
def check_changed(case, ctx):
    """Change observers run exactly if the new value differs"""
    spec, one, two = case
    log = []

    class Holder(properties.HasProperties):
        val = model.make(spec)

        @properties.observer('val', change_only=True)
        def _changed(self, change):
            log.append(('change', change['previous'], change['value']))

        @properties.observer('val')
        def _assigned(self, change):
            log.append(('set', change['previous'], change['value']))
    obj = Holder()
    try:
        obj.val = build(one)
        first = obj.val
        start = list(log)
        obj.val = build(two)
    except (ValueError, TypeError, OverflowError):
        ctx.label('refused')
        return
    ctx.nontrivial()
    ctx.label(spec['t'])
    second = obj.val
    ctx.check([e[0] for e in start] == ['change', 'set'], 'first set notified %r', start)
    ctx.check(all(e[1] is properties.undefined for e in start), 'previous in %r', start)
    same = model.equal(spec, first, second)
    later = log[2:]
    if same is not None:
        ctx.label('same' if same else 'different')
        ctx.check([e[0] for e in later] == (['set'] if same else ['change', 'set']),
                  'from %r to %r notified %r', first, second, later)
    for entry in later:
        ctx.check(entry[1] is first and entry[2] is second or
                  describe(entry[1:]) == describe((first, second)),
                  'from %r to %r notified with %r', first, second, entry)


def describe(val):
    return model.describe(tuple(val))


# ------------------------------------------------- any notion of equality

@st.composite
def equality_cases(draw):
    count = draw(st.integers(1, 3))
    index = st.integers(0, count - 1)
    table = draw(st.dictionaries(st.tuples(index, index),
                                 st.sampled_from([True, False, False, 1, 0, None, '']),
                                 max_size=9))
    steps = draw(st.lists(st.one_of(index, index, index, st.none()), min_size=2, max_size=7))
    return count, table, steps, draw(st.sampled_from(['plain', 'union', 'renamed']))


class Token(object):
    """A value without a meaning"""


@facet('equality', strategy=equality_cases, quick=600, shards=1)
def check_equality(case, ctx):
    """Whether the value changed is for the equal method of the property alone to say"""
    count, table, steps, where = case
    tokens = [Token() for _ in range(count)]
    log = []

    class Odd(properties.Property):
        """A property with its own idea of equality"""

        def equal(self, value_a, value_b):
            return table.get((tokens.index(value_a), tokens.index(value_b)), False)

    class Holder(properties.HasProperties):
        val = Odd('') if where != 'union' else properties.Union('', [Odd('')])
        old = properties.Renamed('val')

        @properties.observer('val', change_only=True)
        def _changed(self, change):
            log.append('change')

        @properties.observer('val')
        def _assigned(self, change):
            log.append('set')
    obj = Holder()
    held = None
    for step in steps:
        del log[:]
        if step is None:
            del obj.val
            want = [] if held is None else ['change']
        else:
            setattr(obj, 'old' if where == 'renamed' else 'val', tokens[step])
            if held is not None:
                ctx.nontrivial()
            want = [] if held is not None and table.get((held, step), False) else ['change']
        ctx.check(log == want + ['set'], 'from %r to %r notified %r', held, step, log)
        held = step


# ------------------------------------------------- one function registered several times

class Alike(object):
    """A callable that equals every other one"""

    def __init__(self, log, index):
        self.log, self.index = log, index

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = object.__hash__

    def __call__(self, obj, change):
        self.log.append((self.index, obj, change['name'], change['mode'], change['value']))

    def method(self, obj, change):
        self(obj, change)


@st.composite
def registration_cases(draw):
    kinds = draw(st.lists(st.sampled_from(['function', 'alike', 'method', 'partial']),
                          min_size=1, max_size=3))
    entry = st.tuples(st.integers(0, len(kinds) - 1), st.integers(0, 1),
                      st.sampled_from(['observe_set', 'observe_change', 'validate']),
                      st.sampled_from([('x',), ('y',), ('x', 'y'), 'everything', 'x']))
    op = st.one_of(st.tuples(st.just('listen'), entry),
                   st.tuples(st.just('set'), st.tuples(st.integers(0, 1), st.sampled_from('xy'),
                                                       st.integers(0, 2))),
                   st.tuples(st.just('del'), st.tuples(st.integers(0, 1),
                                                       st.sampled_from('xy'))))
    return kinds, draw(st.lists(op, min_size=3, max_size=12)), draw(st.booleans())


@facet('registrations', strategy=registration_cases, quick=1200, shards=1)
def check_registrations(case, ctx):
    """Every registration counts, also of the same or an equal function"""
    import functools
    kinds, ops, shared = case
    log = []

    def make(kind, index):
        alike = Alike(log, index)
        if kind == 'function':
            return lambda obj, change: alike(obj, change)
        if kind == 'method':
            return alike.method
        return functools.partial(alike) if kind == 'partial' else alike
    funcs = [make(kind, i) for i, kind in enumerate(kinds)]

    class Holder(properties.HasProperties):
        x = properties.Integer('')
        y = properties.Integer('')
        if shared:
            @properties.observer('x')
            def _own(self, change):
                log.append(('own', self, 'x', change['mode'], change['value']))
    objs = [Holder(), Holder()]
    model_of = [[], []]         # (function, mode, names) in order of registration
    state = [{}, {}]
    again = set()
    for kind, arg in ops:
        del log[:]
        if kind == 'listen':
            index, who, mode, names = arg
            given = properties.everything if names == 'everything' else (
                names if isinstance(names, str) else list(names))
            if mode == 'validate':
                properties.validator(objs[who], given, funcs[index])
            else:
                properties.observer(objs[who], given, funcs[index],
                                    change_only=mode == 'observe_change')
            if any(e[0] == index and e[1] == mode for e in model_of[who]):
                again.add(index)
            model_of[who].append((index, mode, 'xy' if names == 'everything' else names))
            ctx.check(not log, 'registering called %r', log)
            continue
        who, name = arg[:2]
        old = state[who].get(name, properties.undefined)
        new = arg[2] if kind == 'set' else properties.undefined
        if kind == 'set':
            setattr(objs[who], name, new)
        else:
            delattr(objs[who], name)
        state[who][name] = new
        want = []
        modes = ['validate', 'observe_change', 'observe_set']
        if old is new or (old is not properties.undefined and new is not properties.undefined
                          and old == new):
            modes.remove('observe_change')
        for mode in modes:
            if mode == 'observe_set' and shared and name == 'x':
                want.append(('own', objs[who], 'x', mode, new))
            want += [(index, objs[who], name, mode, new)
                     for index, at, names in model_of[who] if at == mode and name in names]
        ctx.check(len(log) == len(want) and all(
            a[0] == b[0] and a[1] is b[1] and a[2:4] == b[2:4] and
            (a[4] is b[4] or a[4] == b[4]) for a, b in zip(log, want)),
            '%s %s called %r, expected %r', kind, name, [e[0] for e in log],
            [e[0] for e in want])
        ctx.nontrivial(bool(again) and bool(want))


# ------------------------------------------------- values that are arrays

ARRAY_PROPS = {
    'Property': lambda: properties.Property(''),
    'Instance': lambda: properties.Instance('', np.ndarray),
    'List': lambda: properties.List('', properties.Property('')),
    'Dictionary': lambda: properties.Dictionary('', value_prop=properties.Property('')),
    'Union': lambda: properties.Union('', [properties.String(''),
                                           properties.Instance('', np.ndarray)]),
    'in list': lambda: properties.Property(''), 'in dict': lambda: properties.Property(''),
}


@st.composite
def array_cases(draw):
    kind = draw(st.sampled_from(sorted(ARRAY_PROPS)))
    shapes = draw(st.sampled_from([[(2, 3)], [(2,), (3,)], [(2, 2), (3, 3)], [(3,)],
                                   [(2, 3), (3, 2)], [(2, 2, 2)], [(1, 4)]]))
    return kind, [(draw(st.sampled_from(shapes)), draw(st.integers(0, 2)),
                   draw(st.sampled_from([None, None, 0, 1])))
                  for _ in range(draw(st.integers(2, 6)))]


@facet('arrays', strategy=array_cases, quick=600)
def check_arrays(case, ctx):
    """Arrays held by properties that are no array properties notify like other values"""
    kind, steps = case
    log = []

    class Holder(properties.HasProperties):
        val = ARRAY_PROPS[kind]()

        @properties.observer('val')
        def _was_set(self, change):
            log.append('set')

        @properties.observer('val', change_only=True)
        def _changed(self, change):
            log.append('change')
    obj = Holder()
    last = None
    ctx.nontrivial(len(steps[0][0]) > 1 or len({s[0] for s in steps}) > 1)
    for shape, fill, spot in steps:
        array = np.full(shape, float(fill))
        if spot is not None:
            array.flat[spot] += 1
        value = {'List': lambda: [array], 'in list': lambda: [array],
                 'Dictionary': lambda: {'a': array}, 'in dict': lambda: {'a': array},
                 }.get(kind, lambda: array)()
        del log[:]
        obj.val = value
        same = last is not None and last.shape == array.shape and bool((last == array).all())
        if same and kind.startswith('in '):
            ctx.check(log in (['set'], ['change', 'set']), 'notified %r', log)
        else:
            ctx.check(log == (['set'] if same else ['change', 'set']),
                      'from %r to %r notified %r', last, array, log)
        held = obj.val
        while isinstance(held, (list, dict)):
            held = held['a'] if isinstance(held, dict) else held[0]
        ctx.check(held is array, 'holds %r', held)
        ctx.check(obj.validate() is True, 'the stored value is not valid')
        ctx.check(properties.equal(obj, Holder(val=value)), 'not equal to one with this value')
        last = array
