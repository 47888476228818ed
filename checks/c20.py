"""C20: singletons"""
import copy
import json

import properties
from hypothesis import strategies as st
from properties.extras import Singleton

from vlib import isolate
from vlib.harness import facet

ID = 'C20'
RULE = ('histories of constructions, renames, changes, refused constructions, writing, '
        'loading (of written and of made-up dictionaries, trusted or not), copies and '
        'assignments to instance properties, over classes that share a registry, have their '
        'own, have a checked name, a converted one or none; registries and values are '
        'compared with a model after every step; non-trivial: a taken name was used again, '
        'an object was renamed or loaded, or an operation was refused')
FACETS = []
ASSUMPTIONS = ['a deleted name and singletons that contain themselves are not claimed']

NAMES = ['a', 'b', 'c', 'A', '', 'a b', 'é']


def classes():
    class Named(Singleton):
        name = properties.String('')
        num = properties.Integer('', required=False, max=50)

    class Sub(Named):
        extra = properties.String('', required=False)

    class Own(Named):
        _SINGLETONS = {}

    class OwnSub(Own):
        extra = properties.String('', required=False)

    class Upper(Singleton):
        name = properties.String('', change_case='upper')
        num = properties.Integer('', required=False, max=50)

    class NoName(Singleton):
        num = properties.Integer('', required=False, max=50)

    class Choice(Singleton):
        """Most names are refused"""
        name = properties.StringChoice('', ['a', 'A', 'c'], case_sensitive=True)
        num = properties.Integer('', required=False, max=50)

    class Needs(Singleton):
        name = properties.String('')
        num = properties.Integer('', max=50)

    return [Named, Sub, Own, OwnSub, Upper, NoName, Choice, Needs]


@st.composite
def histories(draw):
    kind = st.integers(0, 7)
    obj = st.integers(0, 9)
    name = st.sampled_from(NAMES)
    num = st.one_of(st.none(), st.integers(-3, 3))
    loads = st.fixed_dictionaries({
        'kind': kind, 'cls': st.one_of(st.none(), kind, st.just('Unknown')),
        'id': st.one_of(st.none(), name), 'name': st.one_of(st.none(), name),
        'num': st.one_of(num, st.just(99)), 'trusted': st.booleans(),
        'strict': st.booleans(), 'valid': st.booleans(), 'extra': st.integers(0, 5)})
    step = st.one_of(
        st.tuples(st.just('new'), kind, st.tuples(name, num)),
        st.tuples(st.just('new'), kind, st.tuples(name, num)),
        st.tuples(st.just('bad'), kind, st.tuples(name, st.sampled_from([99, 'x', 'unknown',
                                                                         5]))),
        st.tuples(st.just('rename'), obj, name),
        st.tuples(st.just('rename'), obj, name),
        st.tuples(st.just('num'), obj, st.sampled_from([7, 99])),
        st.tuples(st.just('again'), obj, kind),
        st.tuples(st.just('load'), loads, st.none()),
        st.tuples(st.just('load'), loads, st.none()),
        st.tuples(st.just('reload'), obj, st.tuples(kind, st.booleans())),
        st.tuples(st.just('fresh'), obj, st.booleans()),
        st.tuples(st.just('copy'), obj, st.none()),
        st.tuples(st.just('hold'), kind, st.tuples(name, st.sampled_from(['text', 'dict',
                                                                          'obj']))))
    return draw(st.lists(step, min_size=2, max_size=14))


class Item(object):
    """One singleton as it should be"""

    def __init__(self, obj, cls, ident, name, num):
        self.obj, self.cls, self.ident, self.name, self.num = obj, cls, ident, name, num

    def data(self):
        out = {'name': self.name, 'num': self.num, '__class__': self.cls.__name__,
               '_singleton_id': self.ident}
        if self.cls.__name__ == 'NoName':
            del out['name']
        return {k: v for k, v in out.items() if v is not None}


def stored_name(cls, name):
    """What the name property makes of it; None: refused"""
    if cls.__name__ == 'Upper':
        return name.upper()
    if cls.__name__ == 'Choice' and name not in ('a', 'A', 'c'):
        return None
    return name


@facet('histories', strategy=histories, quick=2500, shards=4)
def check_histories(case, ctx):
    kinds = classes()
    tables = {id(Singleton._SINGLETONS): {}, id(kinds[2]._SINGLETONS): {}}
    items = []

    def table(cls):
        return tables[id(cls._SINGLETONS)]

    def compare(what):
        for cls in (Singleton, kinds[2]):
            want = {k: i.obj for k, i in table(cls).items()}
            ctx.check(cls._SINGLETONS == want, 'after %s the registry is %r, expected %r',
                      what, cls._SINGLETONS, want)
        for item in items:
            ctx.check(type(item.obj) is item.cls and item.obj.name == item.name and
                      item.obj.num == item.num,
                      'after %s %r has name %r and num %r, expected %r and %r', what,
                      item.ident, item.obj.name, item.obj.num, item.name, item.num)
        ctx.check(isolate.listening(), 'listeners stay disabled')

    def add(obj, cls, ident, name, num, what):
        ctx.check(type(obj) is cls, '%s gave %r', what, obj)
        ctx.check(all(obj is not i.obj for i in items), '%s gave an old object', what)
        item = Item(obj, cls, ident, name, num)
        items.append(item)
        table(cls)[ident] = item

    for op, at, arg in case:
        what = '%s %r %r' % (op, at, arg)
        if op == 'new':
            cls = kinds[at]
            name, num = arg
            kwargs = {} if num is None else {'num': num}
            if name in table(cls):
                got = cls(name, **kwargs) if len(items) % 2 else cls(name=name, **kwargs)
                ctx.check(got is table(cls)[name].obj, '%s gave %r', what, got)
                ctx.nontrivial()
                ctx.label('taken')
            elif stored_name(cls, name) is None:
                ctx.raises(properties.ValidationError, lambda: cls(name, **kwargs), what)
                ctx.nontrivial()
            else:
                add(cls(name, **kwargs), cls, name, stored_name(cls, name), num, what)
        elif op == 'bad':
            cls = kinds[at]
            name, how = arg
            if how == 5:
                # not a text; a class without a checked name takes it
                if cls.__name__ == 'NoName' or 5 in table(cls):
                    continue
                ctx.raises(properties.ValidationError, lambda: cls(5), what)
            elif name not in table(cls):
                kwargs = {'unknown': 1} if how == 'unknown' else {'num': how}
                ctx.raises((properties.ValidationError, AttributeError),
                           lambda: cls(name, **kwargs), what)
            ctx.nontrivial()
        elif op == 'load':
            load(ctx, kinds, table, at, add, what)
        elif op == 'hold':
            hold(ctx, kinds, table, kinds[at], arg, add, what)
        elif not items:
            continue
        else:
            item = items[at % len(items)]
            obj = item.obj
            if op == 'rename':
                name = stored_name(item.cls, arg)
                if name is None:
                    ctx.raises(properties.ValidationError,
                               lambda: setattr(obj, 'name', arg), what)
                else:
                    obj.name = arg
                    item.name = name
                ctx.nontrivial()
            elif op == 'num':
                if arg == 99:
                    ctx.raises(properties.ValidationError,
                               lambda: setattr(obj, 'num', arg), what)
                else:
                    obj.num = item.num = arg
            elif op == 'again':
                cls = kinds[arg]
                if item.ident in table(cls):
                    got = cls(item.ident, num=5)
                    ctx.check(got is table(cls)[item.ident].obj, '%s gave %r', what, got)
                    ctx.nontrivial()
            elif op == 'copy':
                ctx.check(properties.copy(obj) is obj, 'a copy is another object')
            elif op == 'reload':
                data = obj.serialize()
                ctx.check(data == item.data(), '%r wrote %r, expected %r', item.ident, data,
                          item.data())
                kept = copy.deepcopy(data)
                start, trusted = kinds[arg[0]], arg[1]
                out = item.cls if trusted else start
                if item.ident in table(out):
                    got = start.deserialize(data, trusted=trusted)
                    ctx.check(got is table(out)[item.ident].obj, '%s gave %r', what, got)
                    ctx.check(data == kept, 'loading changed its input to %r', data)
                    ctx.nontrivial()
            elif op == 'fresh':
                fresh(ctx, item, arg, what)
        compare(what)


def fresh(ctx, item, plain, what):
    """The object is loaded as if its registry were empty"""
    registry = item.cls._SINGLETONS
    data = json.loads(json.dumps(item.obj.serialize(include_class=not plain)))
    full = item.data()
    if plain:
        del full['__class__']
    ctx.check(data == full, 'wrote %r, expected %r', data, full)
    saved = dict(registry)
    registry.clear()
    kept = copy.deepcopy(data)
    got = item.cls.deserialize(data, strict=True)
    ctx.check(data == kept, 'loading changed its input to %r', data)
    ctx.check(registry == {item.ident: got}, 'after %s the registry is %r', what, registry)
    ctx.check(got is not item.obj and type(got) is item.cls, '%s gave %r', what, got)
    name = item.ident if item.cls.__name__ == 'NoName' else item.name
    ctx.check(got.name == name and got.num == item.num,
              '%s gave name %r num %r, expected %r %r', what, got.name, got.num, name,
              item.num)
    ctx.check(item.cls(item.ident) is got, 'the loaded object is not the singleton')
    ctx.check(got.serialize(include_class=not plain) == full, 'written again: %r',
              got.serialize())
    registry.clear()
    registry.update(saved)
    ctx.nontrivial()


def load(ctx, kinds, table, spec, add, what):
    cls = kinds[spec['kind']]
    data = {}
    named = spec['cls']
    if named is not None:
        data['__class__'] = named if named == 'Unknown' else kinds[named].__name__
    for key, name in (('_singleton_id', 'id'), ('name', 'name'), ('num', 'num')):
        if spec[name] is not None:
            data[key] = spec[name]
    if not spec['extra']:
        data['unused'] = 5
    kwargs = {'trusted': spec['trusted'], 'strict': spec['strict'],
              'assert_valid': spec['valid']}
    kept = copy.deepcopy(data)
    ident = data.get('_singleton_id', data.get('name'))
    out = cls
    if spec['trusted'] and named not in (None, 'Unknown'):
        out = kinds[named]

    def run():
        return cls.deserialize(data, **kwargs)

    ctx.nontrivial()
    if ident is not None and ident in table(out):
        got = run()
        ctx.check(got is table(out)[ident].obj, '%s gave %r', what, got)
        ctx.label('loaded taken')
    else:
        name = ident
        if 'name' in data:
            name = stored_name(out, data['name'])
        elif ident is not None:
            name = stored_name(out, ident)
        noname = out.__name__ == 'NoName'
        refused = ident is None or name is None or data.get('num') == 99 or \
            stored_name(out, ident) is None
        if spec['strict']:
            refused = refused or 'unused' in data or (
                named is not None and out.__name__ != data['__class__'])
        if spec['strict'] and noname and 'name' in data:
            # strict loading of a name into a class without the property
            return
        if spec['valid'] and out.__name__ == 'Needs' and 'num' not in data:
            refused = True
        if refused:
            ctx.raises(ValueError, run, what)
            ctx.label('load refused')
        else:
            got = run()
            add(got, out, ident, name, data.get('num'), what)
            ctx.label('loaded')
    ctx.check(data == kept, '%s changed its input to %r', what, data)


def hold(ctx, kinds, table, cls, arg, add, what):
    """Assignment to an instance property"""
    name, how = arg

    class Holder(properties.HasProperties):
        one = properties.Instance('', cls)

    value = name
    if how == 'dict':
        value = {'name': name, 'num': 4}
    elif how == 'obj':
        if name not in table(Singleton):
            return
        value = table(Singleton)[name].obj
    holder = Holder()
    found = table(Singleton)[name] if how == 'obj' else table(cls).get(name)
    ctx.nontrivial()
    if found is not None:
        if issubclass(found.cls, cls):
            holder.one = value
            ctx.check(holder.one is found.obj, '%s gave %r', what, holder.one)
        elif how != 'obj':
            ctx.raises(properties.ValidationError, lambda: setattr(holder, 'one', value),
                       what)
            ctx.check(holder.one is None, '%s left %r', what, holder.one)
    elif stored_name(cls, name) is None:
        ctx.raises(properties.ValidationError, lambda: setattr(holder, 'one', value), what)
    else:
        holder.one = value
        add(holder.one, cls, name, stored_name(cls, name), 4 if how == 'dict' else None, what)


@st.composite
def nested_cases(draw):
    count = draw(st.integers(1, 6))
    names = draw(st.lists(st.sampled_from(NAMES + ['z', 'y']), unique=True, min_size=count,
                          max_size=count))
    out = []
    for i in range(count):
        low = st.integers(0, i - 1)
        out.append((names[i], draw(st.booleans()),
                    draw(st.one_of(st.none(), st.sampled_from(NAMES))),
                    draw(st.one_of(st.none(), low)) if i else None,
                    draw(st.lists(low, max_size=3)) if i else []))
    return out, draw(st.lists(st.integers(0, 5), max_size=2)), \
        draw(st.sampled_from(['none', 'none', 'bad']))


@facet('nested', strategy=nested_cases, quick=800, shards=2)
def check_nested(case, ctx):
    """Singletons that contain singletons stay shared"""
    nodes, live, spoil = case

    class Part(Singleton):
        name = properties.String('')
        one = properties.Instance('', Singleton, required=False)
        many = properties.List('', properties.Instance('', Singleton), required=False)

    class Loose(Part):
        pass

    class Holder(properties.HasProperties):
        one = properties.Instance('', Singleton)
        two = properties.Instance('', Part)

    objs = []
    for name, loose, rename, one, many in nodes:
        obj = (Loose if loose else Part)(name)
        if one is not None:
            obj.one = objs[one]
        obj.many = [objs[i] for i in many]
        if rename is not None:
            obj.name = rename
        objs.append(obj)

    def reach(obj, found):
        found[obj._singleton_id] = obj
        for low in ([obj.one] if obj.one is not None else []) + list(obj.many):
            reach(low, found)
        return found

    found = reach(objs[-1], {})
    holder = Holder(one=objs[-1], two=objs[-1])
    data = json.loads(json.dumps(holder.serialize()))
    ctx.check(properties.copy(holder).one is objs[-1], 'a copy has other singletons')
    shared = [i for n in nodes for i in n[4] + ([n[3]] if n[3] is not None else [])]
    ctx.nontrivial(len(set(shared)) < len(shared) or bool(live))
    registry = Singleton._SINGLETONS
    registry.clear()
    stay = {}
    for i in live:
        if i < len(objs):
            stay[nodes[i][0]] = objs[i]
    registry.update(stay)
    kept = copy.deepcopy(data)
    if spoil == 'bad':
        data['one']['name'] = 5
        kept = copy.deepcopy(data)
        if nodes[-1][0] not in stay:
            ctx.raises(ValueError, lambda: Holder.deserialize(data, trusted=True),
                       'loading a bad name')
            ctx.check(nodes[-1][0] not in registry, 'a failed load registered %r', registry)
        ctx.check(data == kept, 'loading changed its input')
        return
    got = Holder.deserialize(data, trusted=True)
    ctx.check(data == kept, 'loading changed its input')
    ctx.check(got.one is got.two, 'one name gave two objects')
    expected = {}

    def compare(old, new):
        ident = old._singleton_id
        if ident in expected:
            ctx.check(expected[ident] is new, '%r is there twice', ident)
            return
        expected[ident] = new
        if ident in stay:
            ctx.check(new is old, 'the existing %r was replaced', ident)
            return
        ctx.check(new is not old and type(new) is type(old), '%r became %r', old, new)
        ctx.check(new.name == old.name, 'name %r became %r', old.name, new.name)
        ctx.check((old.one is None) == (new.one is None) and len(old.many) == len(new.many),
                  'the parts of %r changed', ident)
        if old.one is not None:
            compare(old.one, new.one)
        for one, two in zip(old.many, new.many):
            compare(one, two)

    compare(objs[-1], got.one)
    ctx.check(set(expected) - set(stay) <= set(found), 'objects out of nowhere')
    ctx.check(registry == dict(stay, **expected), 'the registry is %r', registry)


# ------------------------------------------------- loading through a singleton class

@st.composite
def foreign_cases(draw):
    return {'of': draw(st.sampled_from(['plain', 'named', 'nameless', 'sub'])),
            'id': draw(st.one_of(st.none(), st.sampled_from(NAMES))),
            'name': draw(st.one_of(st.none(), st.sampled_from(NAMES))),
            'num': draw(st.integers(0, 9)), 'trusted': draw(st.booleans()),
            'twice': draw(st.booleans()),
            'taken': draw(st.one_of(st.none(), st.sampled_from(NAMES)))}


@facet('foreign', strategy=foreign_cases, quick=700, shards=1)
def check_foreign(case, ctx):
    """Trusted loading may name any registered class, and runs no listeners for its values"""
    registry, fired = {}, []
    classes = {}

    def define(base, key, body):
        body = dict(body, _REGISTRY=registry, num=properties.Integer('', required=False),
                    watch=properties.observer(properties.everything)(note))
        classes[key] = type(base)(str(key), (base,), body)

    def note(self, change):
        fired.append(change['name'])

    define(properties.HasProperties, 'plain', {})
    define(properties.HasProperties, 'named', {'name': properties.String('')})
    single = {}
    define(Singleton, 'nameless', {'_SINGLETONS': single})
    define(Singleton, 'Top', {'name': properties.String(''), '_SINGLETONS': single})
    classes['sub'] = type(classes['Top'])(str('sub'), (classes['Top'],),
                                          {'_REGISTRY': registry})
    for key, cls in classes.items():
        registry[key] = cls
    top = classes['Top']
    taken = None
    if case['taken'] is not None:
        taken = top(case['taken'])
    fired[:] = []
    data = {'__class__': case['of'], 'num': case['num'], '_singleton_id': case['id'],
            'name': case['name']}
    data = {k: v for k, v in data.items() if v is not None}
    ident = case['id'] if case['id'] is not None else case['name']
    given = dict(data)
    ctx.label(case['of'])
    ctx.nontrivial(case['of'] != 'sub' or bool(taken))
    if ident is None:
        ctx.raises(ValueError, lambda: top.deserialize(given, trusted=case['trusted']),
                   'loading without a name')
        ctx.check(given == data, 'the input changed')
        return
    want = classes[case['of']] if case['trusted'] else top
    for _ in range(1 + case['twice']):
        got = top.deserialize(given, trusted=case['trusted'])
        ctx.check(given == data, 'the input changed')
        ctx.check(not set(fired) - {'name'}, 'listeners ran for %r', fired)
        if issubclass(want, Singleton):
            if taken is not None and taken._singleton_id == ident:
                ctx.check(got is taken, 'the existing object was not returned')
                continue
            ctx.check(type(got) is want and got._singleton_id == ident, 'built %r', got)
            ctx.check(single.get(ident) is got, 'not registered')
            ctx.check(got.num == case['num'], 'num is %r', got.num)
            shown = case['name'] if case['name'] is not None else ident
            ctx.check(got.name == shown, 'name is %r', got.name)
            taken = got
        else:
            ctx.check(type(got) is want and got.num == case['num'], 'built %r', got)
            if case['of'] == 'named':
                shown = case['name'] if case['name'] is not None else ident
                ctx.check(got.name == shown, 'name is %r', got.name)
            ctx.check(ident not in single or single[ident] is taken, 'registered')
