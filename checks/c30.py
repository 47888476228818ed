"""C30: loading arbitrary data"""
import base64
import copy
import io
import json

import png
import properties
from hypothesis import strategies as st
from properties import extras

from vlib import gens, model
from vlib.harness import facet
from vlib.values import build

ID = 'C30'
RULE = ('random class schemas (plain, with UIDs, singletons; with arrays, vectors, images, URLs, '
        'UUIDs, pointers, immutable, dynamic and renamed properties) loaded from arbitrary JSON '
        'that names their properties and classes, and from serialized objects with up to six '
        'structural mutations; every option; non-trivial: the document is a dictionary that '
        'names something the class knows')
FACETS = []
ASSUMPTIONS = ['documents are nested at most some ten levels deep and small',
               'whether minimum and maximum lengths hold is decided by validate() alone',
               'a root that names an already existing object gives that object',
               'complete singletons made on the way to a failure may stay registered',
               'numbers above the float range may raise OverflowError']

P = properties
ERRORS = (ValueError, TypeError, KeyError, AttributeError, OverflowError,
          properties.utils.SelfReferenceError)
EXTRA = ['fixed', 'dyn', 'old', 'arr', 'grid', 'vec', 'vecs', 'url', 'png', 'ref', 'ident', 'stamp']
CLASSES = ['Cls0', 'Cls1', 'Cls2', 'Spy', 'SubSpy', 'Nope', '', None, 3, [], {}]
KEYS = gens.NAMES + EXTRA + ['__class__', '__root__', 'uid', '_singleton_id', 'name', 'Cls0',
                             '_backend', '_props', '__init__', 'deserialize', 'u1', 'u2', '']


def png_text():
    out = io.BytesIO()
    png.Writer(2, 1, greyscale=True).write(out, [[0, 255]])
    return 'data:image/png;base64,' + base64.b64encode(out.getvalue()).decode()


PNG = png_text()
TEXTS = ['u1', 'u2', 'Cls0', 'Spy', 'red', '#fff', 'nan', '1', 'True', 'x', '-inf',
         'http://a.b/c?d=e#f', 'http:', PNG, PNG[:40], 'data:image/png;base64,', 'random',
         '2020-01-02', '2020-01-02T03:04:05Z', '00000000-0000-0000-0000-000000000007', 'up',
         'west', 'CLS0', '__root__', '5', '1+2j', '', '\x00', '\ud800', '(1+2j)', '1e999']


def leaves():
    return st.one_of(st.none(), st.booleans(), gens.small_ints(), gens.ints(), gens.floats(),
                     st.sampled_from(TEXTS), st.sampled_from(TEXTS), gens.texts(4),
                     st.sampled_from([10 ** 400, -1, 2 ** 64, 1e308, 0.5]))


def trees(size=12):
    return st.recursive(leaves(), lambda s: st.one_of(
        st.lists(s, max_size=4), st.lists(st.integers(-3, 3), min_size=2, max_size=3),
        st.dictionaries(st.sampled_from(KEYS), s, max_size=4),
        st.tuples(st.sampled_from(CLASSES), st.dictionaries(
            st.sampled_from(gens.NAMES + EXTRA), s, max_size=3)).map(
                lambda t: dict(t[1], __class__=t[0]))), max_leaves=size)


@st.composite
def schemas(draw):
    base = draw(st.sampled_from(['plain', 'plain', 'uid', 'uid', 'singleton']))
    return {'base': base, 'specs': draw(gens.class_specs(
        count=3, depth=draw(st.integers(0, 2)), max_props=3,
        # the name of a singleton is its own attribute
        names=[n for n in gens.NAMES if base != 'singleton' or n != 'name'])),
            'extra': draw(st.lists(st.sampled_from(EXTRA), max_size=4, unique=True)),
            'old': draw(st.integers(0, 5))}


def options():
    return st.fixed_dictionaries({
        'trusted': st.booleans(), 'strict': st.sampled_from([False, False, True]),
        'assert_valid': st.sampled_from([False, False, True])})


@st.composite
def documents(draw):
    schema = draw(schemas())
    specs = schema['specs']
    top = draw(st.one_of(st.just(len(specs) - 1), st.integers(0, len(specs) - 1)))
    names = [n for n, _ in gens.props_of(specs)(top)] + schema['extra']
    keys = st.sampled_from(names * 4 + KEYS)
    body = st.dictionaries(keys, trees(6), max_size=5)
    how = draw(st.integers(0, 5))
    if how == 0:
        doc = draw(trees())
    elif schema['base'] == 'uid':
        doc = draw(st.dictionaries(st.sampled_from(['u1', 'u2', 'u3', 'x', 'kept']),
                                   st.one_of(body, body, body, trees(3)), max_size=3))
        doc['__root__'] = draw(st.one_of(st.sampled_from(sorted(doc) or ['u1']), leaves()))
    else:
        doc = draw(body)
        if schema['base'] == 'singleton':
            doc['_singleton_id'] = draw(st.one_of(st.sampled_from(['u1', 'u2', 'kept']), leaves()))
        if draw(st.booleans()):
            doc['__class__'] = draw(st.sampled_from(CLASSES))
    return {'schema': schema, 'top': top, 'doc': doc, 'opts': draw(options()), 'ops': None,
            'keep': draw(st.booleans())}


ACTIONS = ['replace', 'replace', 'replace', 'delete', 'copy', 'copy', 'swap', 'wrap list',
           'wrap dict', 'unwrap', 'text', 'number', 'add', 'add', 'class', 'rename', 'cut',
           'grow', 'empty', 'null', 'uid']


@st.composite
def mutants(draw):
    schema = draw(schemas())
    specs = schema['specs']
    top = draw(st.one_of(st.just(len(specs) - 1), st.integers(0, len(specs) - 1)))
    init = draw(gens.instance_case(specs, top, fill=0.9, max_size=3))
    ops = draw(st.lists(st.tuples(st.sampled_from(ACTIONS), st.integers(0, 60),
                                  st.integers(0, 60), trees(4)),
                        min_size=draw(st.sampled_from([0, 1, 1, 2])), max_size=6))
    target = draw(st.sampled_from([top, top, top, 0, len(specs) - 1]))
    return {'schema': schema, 'top': top, 'target': target, 'init': init, 'ops': ops,
            'opts': draw(options()), 'keep': draw(st.booleans())}


def places(data, out):
    """(container, key) of every value"""
    items = list(data.items()) if isinstance(data, dict) else list(enumerate(data))
    for key, val in items:
        out.append((data, key))
        if isinstance(val, (dict, list)):
            places(val, out)
    return out


def mutate(data, op):
    action, one, two, tree = op
    box = [data]
    found = places(box, [])
    into, key = found[one % len(found)]
    other_into, other_key = found[two % len(found)]
    tree = copy.deepcopy(tree)
    val = into[key]
    if action == 'replace':
        into[key] = tree
    elif action == 'null':
        into[key] = None
    elif action == 'delete' and isinstance(into, dict):
        del into[key]
    elif action == 'copy':
        into[key] = copy.deepcopy(other_into[other_key])
    elif action == 'swap':
        first, second = copy.deepcopy(val), copy.deepcopy(other_into[other_key])
        into[key] = second
        if other_into is not box:
            other_into[other_key] = first
    elif action == 'wrap list':
        into[key] = [val]
    elif action == 'wrap dict':
        into[key] = {['k', '__class__', 'a', 'uid'][two % 4]: val}
    elif action == 'unwrap':
        inner = list(val.values()) if isinstance(val, dict) else val
        if isinstance(inner, list) and inner:
            into[key] = inner[two % len(inner)]
    elif action == 'text':
        into[key] = val if isinstance(val, str) else json.dumps(val)
    elif action == 'number':
        into[key] = [0, 1, -1, 0.5, 10 ** 400, 2 ** 63, 1e308, float('nan'),
                     float('inf')][two % 9]
    elif action == 'add':
        dicts = [data] + [c[k] for c, k in found if isinstance(c[k], dict)]
        node = dicts[one % len(dicts)]
        if isinstance(node, dict):
            node[KEYS[two % len(KEYS)]] = tree
    elif action == 'class':
        dicts = [c[k] for c, k in found if isinstance(c[k], dict)]
        if dicts:
            dicts[one % len(dicts)]['__class__'] = copy.deepcopy(
                CLASSES[two % len(CLASSES)])
    elif action == 'rename' and isinstance(into, dict):
        into[KEYS[two % len(KEYS)]] = into.pop(key)
    elif action == 'cut' and isinstance(val, (str, list)):
        into[key] = val[:two % (len(val) + 1)]
    elif action == 'grow' and isinstance(val, (str, list)):
        into[key] = val * (1 + two % 3)
    elif action == 'empty':
        into[key] = type(val)() if val is not None else None
    elif action == 'uid':
        into[key] = ['u1', 'kept', 'root'][two % 3]
    return box[0]


class Stamp(P.GettableProperty):
    """An immutable text that is kept in upper case"""

    def validate(self, instance, value):
        if not isinstance(value, (str, int)):
            self.error(instance, value)
        return str(value).upper()


class World(object):

    def __init__(self, schema):
        self.schema = schema
        self.created = []
        world = self
        kind = {'plain': P.HasProperties, 'uid': extras.HasUID,
                'singleton': extras.Singleton}[schema['base']]

        if schema['base'] == 'singleton':
            class Base(kind):
                def __init__(self, name, **kwargs):
                    world.created.append(type(self))
                    super(Base, self).__init__(name, **kwargs)
        else:
            class Base(kind):
                def __init__(self, **kwargs):
                    world.created.append(type(self))
                    super(Base, self).__init__(**kwargs)
        self.base = Base
        self.env = model.Env(schema['specs'], body=self.extra, base=Base)

        class Spy(Base):
            pass

        class SubSpy(self.env.classes[-1]):
            more = P.Integer('more', required=False)
        self.spies = [Spy, SubSpy]

    def extra(self, spec):
        out = {}
        for name in self.schema['extra']:
            if name == 'dyn':
                out[name] = P.Integer('dynamic', required=False)(
                    (lambda f: (setattr(f, '__name__', 'dyn'), f)[1])(lambda self: 5))
            elif name == 'old':
                own = [n for n, _ in spec['props']]
                out[name] = P.Renamed(own[self.schema['old'] % len(own)])
            else:
                out[name] = {
                    'fixed': lambda: P.GettableProperty('fixed', default=5),
                    'arr': lambda: P.Array('', required=False),
                    'grid': lambda: P.Array('', shape=('*', 2), dtype=int, required=False),
                    'vec': lambda: P.Vector3('', required=False),
                    'vecs': lambda: P.Vector2Array('', required=False),
                    'url': lambda: extras.URL('', remove_fragment=True, required=False),
                    'png': lambda: P.ImagePNG('', required=False),
                    'ref': lambda: extras.Pointer('', extras.HasUID, load=True,
                                                  required=False),
                    'stamp': lambda: Stamp('', default='a1'),
                    'ident': lambda: P.Uuid('')}[name]()
        return out

    def declared(self, index, out):
        """Classes that untrusted loading of class `index` may create"""
        from checks.c11 import declared
        return {self.env.classes[i] for i in declared(self.env, index, set())} | (
            {extras.HasUID} if 'ref' in self.schema['extra'] else set())


class Probe(P.HasProperties):
    """Shows whether listeners and validation work"""
    num = P.Integer('a number')

    @P.validator('num')
    def _check(self, change):
        self.heard = getattr(self, 'heard', []) + ['validate']

    @P.observer('num')
    def _seen(self, change):
        self.heard = self.heard + ['set']

    @P.observer('num', change_only=True)
    def _changed(self, change):
        self.heard = self.heard + ['change']


def sound(ctx, world, obj, allowed, seen):
    """Every value must be one its property accepts"""
    if id(obj) in seen:
        return
    seen.add(id(obj))
    cls = type(obj)
    ctx.check(allowed is None or cls in allowed, 'loading made a %s', cls.__name__)
    specs = {}
    if cls in world.env.classes:
        specs = dict(world.env.props(world.env.classes.index(cls)))
    for name, prop in cls._props.items():
        if isinstance(prop, (P.basic.Renamed, P.basic.DynamicProperty)):
            continue
        val = getattr(obj, name)
        if val is None:
            continue
        ctx.check(val is not P.undefined, '%s.%s is undefined', cls.__name__, name)
        try:
            if not (isinstance(prop, P.ImagePNG) and val.closed):
                prop.validate(None, val)
        except ValueError as err:
            ctx.fail('%s.%s holds %r, which it does not accept: %s' % (
                cls.__name__, name, val, err))
        if isinstance(prop, Stamp):
            ctx.check(isinstance(val, str) and val == val.upper(), '%s.%s holds %r',
                      cls.__name__, name, val)
        if name in specs:
            res = model.accept(specs[name], val, world.env)
            ctx.check(res is not model.BAD, '%s.%s holds %r', cls.__name__, name, val)
        walk(ctx, world, val, allowed, seen)


def walk(ctx, world, val, allowed, seen):
    if isinstance(val, P.HasProperties):
        sound(ctx, world, val, allowed, seen)
    elif isinstance(val, dict):
        for part in list(val) + list(val.values()):
            walk(ctx, world, part, allowed, seen)
    elif isinstance(val, (list, tuple, set)):
        for part in val:
            walk(ctx, world, part, allowed, seen)


def state_of():
    import random
    import warnings
    return {'classes': dict(P.HasProperties._REGISTRY),
            'uid classes': dict(extras.HasUID._REGISTRY),
            'uids': dict(extras.HasUID._INSTANCES),
            'singletons': dict(extras.Singleton._SINGLETONS),
            'warnings': list(warnings.filters)}


def load_and_judge(ctx, world, cls, index, data, opts):
    probe = Probe()
    before = copy.deepcopy(data)
    text = repr(data)
    if isinstance(data, dict) and any(
            k in data for k in list(cls._props) + ['__class__', '__root__', '_singleton_id']):
        ctx.nontrivial()
    state = state_of()
    del world.created[:]
    try:
        obj = cls.deserialize(data, **opts)
    except ERRORS as err:
        obj = None
        ctx.label('refused ' + type(err).__name__)
    else:
        ctx.label('loaded')
        if any(op for op in opts.values()):
            ctx.label('loaded with options')
    made = list(world.created)
    ctx.check(repr(data) == text and (data == before or 'nan' in text),
              'the input was changed from %s to %r', text, data)
    now = state_of()
    for part in ('classes', 'uid classes', 'warnings'):
        ctx.check(now[part] == state[part], 'loading changed the %s', part)
    allowed = None if opts['trusted'] else world.declared(index, set())
    if allowed is not None:
        for one in made:
            ctx.check(one in allowed, 'untrusted loading of %s made a %s', cls.__name__,
                      one.__name__)
    if obj is None:
        ctx.check(list(map(id, now['uids'].values())) == list(map(id, state['uids'].values()))
                  and list(now['uids']) == list(state['uids']),
                  'a failed load changed the UIDs: %r', set(map(
                      repr, now['uids'])) ^ set(map(repr, state['uids'])))
        for name, one in state['singletons'].items():
            ctx.check(now['singletons'].get(name) is one, 'a failed load changed a singleton')
        if world.schema['base'] == 'singleton' and isinstance(data, dict):
            name = data.get('_singleton_id')
            ctx.check(not isinstance(name, str) or name in state['singletons'] or
                      name not in now['singletons'] or repr(data).count(repr(name)) > 1,
                      'a failed load left the singleton %r', name)
    else:
        old = [o for o in list(state['uids'].values()) + list(state['singletons'].values())
               if o is obj]
        if not old:
            ctx.check(isinstance(obj, cls) or opts['trusted'],
                      'loading %s gave a %s', cls.__name__, type(obj).__name__)
            ctx.check(isinstance(obj, P.HasProperties), 'loading gave %r', obj)
            seen = {id(o) for o in list(state['uids'].values()) +
                    list(state['singletons'].values())}
            sound(ctx, world, obj, allowed, seen)
            if opts['assert_valid']:
                ctx.check(obj.validate() is True, 'assert_valid gave an invalid object')
    probe.num = 3
    ctx.check(getattr(probe, 'heard', []) == ['validate', 'change', 'set'],
              'after loading, listeners heard %r', getattr(probe, 'heard', []))
    ctx.raises(P.ValidationError, lambda: setattr(probe, 'num', 'x'), 'validation is off')
    return obj


def fresh(world, cls, name):
    return cls(name) if world.schema['base'] == 'singleton' else cls()


def setup(ctx, case):
    schema = case['schema']
    if not all(model.has_json_keys(s) for one in schema['specs'] for _, s in one['props']):
        raise model.Unclaimed()
    world = World(schema)
    keep = None
    if case['keep'] and schema['base'] == 'uid':
        keep = world.env.classes[0](uid='kept')
    elif case['keep'] and schema['base'] == 'singleton':
        keep = world.env.classes[0]('kept')
    return world, keep


def after(ctx, world, keep, index):
    """The class works as before"""
    cls = world.env.classes[index]
    obj = fresh(world, cls, 'fresh one')
    for name, prop in cls._props.items():
        if isinstance(prop, P.Property) and name not in ('uid', 'name'):
            ctx.check(getattr(obj, name) is None or prop.default is not P.undefined,
                      'a new object has %s = %r', name, getattr(obj, name))
    if 'fixed' in world.schema['extra']:
        ctx.check(obj.fixed == 5, 'fixed is %r', obj.fixed)
    if keep is not None and world.schema['base'] == 'uid':
        ctx.check(extras.HasUID.load('kept') is keep, 'an existing object lost its UID')
    elif keep is not None:
        ctx.check(world.env.classes[0]('kept') is keep, 'an existing singleton was replaced')


@facet('documents', strategy=documents, quick=1300, shards=4)
def check_documents(case, ctx):
    world, keep = setup(ctx, case)
    before = None if keep is None else model.describe(keep)
    load_and_judge(ctx, world, world.env.classes[case['top']], case['top'],
                   copy.deepcopy(case['doc']), case['opts'])
    if keep is not None:
        ctx.check(model.describe(keep) == before, 'an existing object was changed')
    after(ctx, world, keep, case['top'])


@facet('mutants', strategy=mutants, quick=1300, shards=5)
def check_mutants(case, ctx):
    world, keep = setup(ctx, case)
    env, schema = world.env, case['schema']
    cls = env.classes[case['top']]
    count = [0]

    def make_inst(index, values):
        count[0] += 1
        if schema['base'] == 'singleton':
            obj = env.classes[index]('u%d' % count[0])
        else:
            obj = env.classes[index](**(
                {'uid': 'u%d' % count[0]} if schema['base'] == 'uid' else {}))
        for name, val in values.items():
            try:
                setattr(obj, name, build(val, {'inst': make_inst}))
            except P.ValidationError:
                pass            # a dictionary for a singleton, which needs a name
        return obj
    obj = make_inst(case['top'], case['init'])
    samples = {'arr': [1, 2.5], 'grid': [[1, 2], [3, 4]], 'vec': 'up', 'vecs': [[1, 0], [0, 2]],
               'url': 'http://a.b/c?d#e', 'png': P.ImagePNG.from_json(PNG), 'ref': 'u1'}
    for name in schema['extra']:
        if name in samples:
            setattr(obj, name, samples[name])
    data = obj.serialize()
    try:
        data = json.loads(json.dumps(data))
    except (TypeError, ValueError):
        raise model.Unclaimed()
    extras.HasUID._INSTANCES.clear()
    extras.Singleton._SINGLETONS.clear()
    if keep is not None and schema['base'] == 'uid':
        extras.HasUID._INSTANCES['kept'] = keep
    elif keep is not None:
        extras.Singleton._SINGLETONS['kept'] = keep
    for op in case['ops']:
        data = mutate(data, op)
    if not case['ops']:
        ctx.label('unchanged')
    load_and_judge(ctx, world, env.classes[case['target']], case['target'], data, case['opts'])
    after(ctx, world, keep, case['target'])
