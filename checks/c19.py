"""C19: objects with UIDs"""
import copy
import json

import properties
from hypothesis import strategies as st
from properties.extras import HasUID

from vlib import isolate, model
from vlib.harness import facet

ID = 'C19'
RULE = ('random graphs of UID objects (several classes; references from instances, lists, '
        'sets, tuples, dictionaries, unions and plain objects; shared nodes, self references, '
        'cycles) are written, compared with the expected flat dictionary, and loaded into '
        'empty, partly filled and clashing registries, also with broken entries; and '
        'histories of constructions, UID changes, refusals and loads are compared with a '
        'model of the registry; non-trivial: a node is shared or in a cycle, an entry is '
        'broken, or a UID was refused or given free')
FACETS = []
ASSUMPTIONS = ['entries stored under a key other than their uid, and '
               'changes of UIDs made with listeners disabled are not claimed; the UID "__root__" '
               'is a known finding and is not generated']

TEXT = st.one_of(st.sampled_from(['a', 'b', '0', '', 'a b', 'None', 'uid', 'é☃', 'A']),
                 st.text(max_size=4)).filter(lambda t: t != '__root__')


def classes():
    """Fresh classes for one case"""
    class Box(properties.HasProperties):
        num = properties.Integer('')
        inner = properties.Instance('', HasUID, required=False)
        inners = properties.List('', properties.Instance('', HasUID), required=False)

        @properties.Instance('', HasUID)
        def again(self):
            return self.inner

    class Node(HasUID):
        num = properties.Integer('', required=False)
        ref = properties.Instance('', HasUID, required=False)
        many = properties.List('', properties.Instance('', HasUID), required=False)
        grp = properties.Set('', properties.Instance('', HasUID), required=False)
        pair = properties.Tuple('', properties.Instance('', HasUID), required=False)
        named = properties.Dictionary('', key_prop=properties.String(''),
                                      value_prop=properties.Instance('', HasUID),
                                      required=False)
        either = properties.Union('', [properties.Instance('', HasUID),
                                       properties.Integer('')], required=False)
        box = properties.Instance('', Box, required=False)
        boxes = properties.List('', properties.Instance('', Box), required=False)

        @properties.Integer('')
        def more(self):
            return None if self.num is None else self.num + 1

        @properties.Instance('', HasUID)
        def head(self):
            return self.ref

    class Sub(Node):
        extra = properties.String('', default='more')

    class Other(HasUID):
        num = properties.Float('', required=False)
        ref = properties.Instance('', Node, required=False)

    return {'Node': Node, 'Sub': Sub, 'Other': Other, 'Box': Box}


@st.composite
def graphs(draw, least=1):
    count = draw(st.integers(least, 6))
    kinds = [draw(st.sampled_from(['Node', 'Node', 'Sub', 'Other'])) for _ in range(count)]
    uids = draw(st.lists(TEXT, min_size=count, max_size=count, unique=True))
    idx = st.integers(0, count - 1)
    nodes = [i for i in range(count) if kinds[i] != 'Other']
    some = st.lists(idx, max_size=3)
    box = st.fixed_dictionaries({}, optional={
        'num': st.integers(-3, 3), 'inner': idx, 'inners': some})
    out = []
    for kind, uid in zip(kinds, uids):
        if kind == 'Other':
            options = {'num': st.sampled_from([0.5, -2.0])}
            if nodes:
                options['ref'] = st.sampled_from(nodes)
        else:
            options = {
                'num': st.integers(-9, 9), 'ref': idx, 'many': some, 'grp': some,
                'pair': some, 'named': st.dictionaries(st.sampled_from('pqr'), idx),
                'either': st.one_of(st.tuples(st.just('num'), st.integers(0, 9)),
                                    st.tuples(st.just('node'), idx)),
                'box': box, 'boxes': st.lists(box, max_size=2)}
            if kind == 'Sub':
                options['extra'] = st.text(max_size=2)
        names = draw(st.lists(st.sampled_from(sorted(options)), unique=True, max_size=4))
        out.append((kind, uid, {n: draw(options[n]) for n in names}))
    return out


def build_graph(case, cls):
    objs = [cls[kind](uid=uid) for kind, uid, _ in case]

    def box(data):
        out = cls['Box']()
        for key, val in data.items():
            setattr(out, key, val if key == 'num' else objs[val] if key == 'inner' else
                    [objs[i] for i in val])
        return out

    for obj, (_, _, values) in zip(objs, case):
        for name, val in values.items():
            if name in ('num', 'extra'):
                setattr(obj, name, val)
            elif name == 'ref':
                obj.ref = objs[val]
            elif name in ('many', 'pair', 'grp'):
                kind = {'many': list, 'pair': tuple, 'grp': set}[name]
                setattr(obj, name, kind(objs[i] for i in val))
            elif name == 'named':
                obj.named = {k: objs[i] for k, i in val.items()}
            elif name == 'either':
                obj.either = val[1] if val[0] == 'num' else objs[val[1]]
            elif name == 'box':
                obj.box = box(val)
            else:
                obj.boxes = [box(v) for v in val]
    return objs


def walk(val):
    """The UID objects a value refers to directly or through plain objects"""
    if isinstance(val, HasUID):
        yield val
    elif isinstance(val, properties.HasProperties):
        for name in sorted(val._props):
            for one in walk(getattr(val, name)):
                yield one
    elif isinstance(val, dict):
        for one in val.values():
            for got in walk(one):
                yield got
    elif isinstance(val, (list, tuple, set)):
        for one in val:
            for got in walk(one):
                yield got


def refs(obj):
    for name in sorted(obj._props):
        for one in walk(getattr(obj, name)):
            yield one


def reachable(root):
    seen = {root.uid: root}
    todo = [root]
    while todo:
        for one in refs(todo.pop()):
            if one.uid not in seen:
                seen[one.uid] = one
                todo.append(one)
    return seen


def flat(val, with_class, dynamic=False):
    """Expected JSON of a value inside of an entry; sets become sorted lists"""
    if isinstance(val, HasUID):
        return val.uid
    if isinstance(val, properties.HasProperties):
        return entry(val, with_class, dynamic)
    if isinstance(val, dict):
        return {k: flat(v, with_class, dynamic) for k, v in val.items()}
    if isinstance(val, set):
        return sorted(flat(v, with_class, dynamic) for v in val)
    if isinstance(val, (list, tuple)):
        return [flat(v, with_class, dynamic) for v in val]
    return val


def entry(obj, with_class, dynamic=False):
    out = {}
    for name in obj._props:
        if isinstance(obj._props[name], properties.basic.DynamicProperty) and not dynamic:
            continue
        val = getattr(obj, name)
        if val is not None:
            out[name] = flat(val, with_class, dynamic)
    if with_class:
        out['__class__'] = type(obj).__name__
    return out


def sort_sets(data):
    out = {}
    for key, val in data.items():
        if isinstance(val, dict):
            val = dict(val)
            if isinstance(val.get('grp'), list):
                val['grp'] = sorted(val['grp'])
        out[key] = val
    return out


def same_graph(ctx, one, two, seen):
    """The graphs at one and two are isomorphic"""
    todo = [(one, two)]
    while todo:
        left, right = todo.pop()
        if id(left) in seen:
            ctx.check(seen[id(left)] is right, 'object %r is there twice', left.uid)
            continue
        seen[id(left)] = right
        ctx.check(type(left) is type(right), '%r became %r', left, right)
        ctx.check(left.uid == right.uid, 'uid %r became %r', left.uid, right.uid)
        for name in sorted(left._props):
            pair(ctx, getattr(left, name), getattr(right, name), todo,
                 '%s of %r' % (name, left.uid))
    kept = [id(v) for v in seen.values()]
    ctx.check(len(set(kept)) == len(kept), 'two objects became one')


def pair(ctx, left, right, todo, where):
    if isinstance(left, HasUID):
        ctx.check(isinstance(right, HasUID), '%s: %r became %r', where, left, right)
        todo.append((left, right))
        return
    ctx.check(type(left) is type(right), '%s: %r became %r', where, left, right)
    if isinstance(left, properties.HasProperties):
        for name in sorted(left._props):
            pair(ctx, getattr(left, name), getattr(right, name), todo, where + '.' + name)
    elif isinstance(left, dict):
        ctx.check(set(left) == set(right), '%s: keys %r became %r', where, left, right)
        for key in left:
            pair(ctx, left[key], right[key], todo, '%s[%r]' % (where, key))
    elif isinstance(left, set):
        ctx.check(len(left) == len(right), '%s: %r became %r', where, left, right)
        for a, b in zip(sorted(left, key=lambda o: o.uid), sorted(right, key=lambda o: o.uid)):
            pair(ctx, a, b, todo, where)
    elif isinstance(left, (list, tuple)):
        ctx.check(len(left) == len(right), '%s: %r became %r', where, left, right)
        for a, b in zip(left, right):
            pair(ctx, a, b, todo, where)
    else:
        ctx.check(left == right, '%s: %r became %r', where, left, right)


def registry():
    return dict(HasUID._INSTANCES)


def picture(objs):
    """What each object holds, by identity"""
    def look(val):
        if isinstance(val, HasUID):
            return id(val)
        if isinstance(val, properties.HasProperties):
            return [(n, look(getattr(val, n))) for n in sorted(val._props)]
        if isinstance(val, dict):
            return sorted((k, look(v)) for k, v in val.items())
        if isinstance(val, set):
            return sorted(look(v) for v in val)
        if isinstance(val, (list, tuple)):
            return [look(v) for v in val]
        return repr(val)
    return [[(n, look(getattr(o, n))) for n in sorted(o._props)] for o in objs]


def interesting(objs):
    """Is a node shared or in a cycle?"""
    count = {}
    for obj in objs:
        for one in refs(obj):
            count[one.uid] = count.get(one.uid, 0) + 1
    return any(v > 1 for v in count.values())


@st.composite
def graph_cases(draw):
    return draw(graphs()), draw(st.integers(0, 5)), draw(st.booleans()), \
        draw(st.sampled_from(['none', 'root', 'empty', 'strict', 'valid'])), \
        draw(st.integers(0, 2)) == 0


@facet('graphs', strategy=graph_cases, quick=1500, shards=3)
def check_graphs(case, ctx):
    graph, other, with_class, how, dynamic = case
    cls = classes()
    objs = build_graph(graph, cls)
    root = objs[0]
    before = picture(objs)
    reach = reachable(root)
    ctx.nontrivial(interesting(list(reach.values())))
    kwargs = {} if with_class else {'include_class': False}
    if dynamic:
        kwargs['save_dynamic'] = True
    if how == 'empty':
        kwargs['registry'] = {}
    data = root.serialize(**kwargs)
    ctx.check('registry' not in kwargs or data is kwargs['registry'],
              'the given registry was not used')
    ctx.check(picture(objs) == before, 'serializing changed the objects')
    ctx.check(registry() == {o.uid: o for o in objs}, 'serializing changed the registry')
    expected = {'__root__': root.uid}
    expected.update({uid: entry(obj, with_class, dynamic) for uid, obj in reach.items()})
    ctx.check(sort_sets(data) == sort_sets(expected), 'wrote %r, expected %r', data, expected)
    text = json.dumps(data)
    ctx.check(json.loads(text) == data, 'not plain JSON: %r', data)
    again = root.serialize(**{k: v for k, v in kwargs.items() if k != 'registry'})
    ctx.check(sort_sets(again) == sort_sets(data), 'serializing again gives %r', again)
    if not with_class:
        return
    ctx.check(HasUID.deserialize(dict(data, **{root.uid: root}), trusted=True) is root,
              'an instance in the dictionary was not used')
    HasUID._INSTANCES.clear()
    given = json.loads(text)
    options = {}
    start = root
    if how == 'root':
        start = sorted(reach.items())[other % len(reach)][1]
        options['root'] = start.uid
        if other % 2:
            given.pop('__root__')
    elif how == 'valid':
        options['assert_valid'] = True
    kept = copy.deepcopy(given)
    valid = all(box_valid(getattr(o, 'box', None)) and
                all(map(box_valid, getattr(o, 'boxes', None) or []))
                for o in reachable(start).values())
    base = [HasUID, type(start)][other % 2]

    def load():
        return base.deserialize(given, trusted=True, **options)

    if how == 'valid' and not valid:
        ctx.label('invalid')
        ctx.raises(properties.ValidationError, load, 'loading invalid objects as valid ones')
        ctx.check(given == kept, 'loading changed its input')
        ctx.check(not registry(), 'a failed load reserved %r', registry())
        return
    got = load()
    ctx.check(given == kept, 'loading changed its input')
    ctx.check(got.uid == start.uid, 'loaded root %r instead of %r', got.uid, start.uid)
    seen = {}
    same_graph(ctx, start, got, seen)
    loaded = {o.uid: o for o in reachable(got).values()}
    ctx.check(registry() == loaded, 'after loading %r the registry is %r', loaded, registry())
    for uid, obj in loaded.items():
        ctx.check(type(obj).load(uid) is obj and HasUID.load(uid) is obj,
                  'lookup of %r gives %r', uid, HasUID.load(uid))
    ctx.check(all(v is not obj for v in loaded.values() for obj in objs),
              'an original came back')
    ctx.check(picture(objs) == before, 'loading changed the originals')
    # loaded objects work: they notify, can be changed and written again
    log = []
    properties.observer(got, 'uid', lambda o, c: log.append(c['value']))
    got.uid = 'changed'
    ctx.check(log == ['changed'] and registry().get('changed') is got and
              (start.uid == 'changed' or start.uid not in registry()),
              'the loaded object does not work: %r %r', log, registry())


def box_valid(box):
    return box is None or box.num is not None


@st.composite
def layer_cases(draw):
    """Every class declares exactly the classes it refers to"""
    count = draw(st.integers(1, 5))
    levels = sorted(draw(st.lists(st.integers(0, 2), min_size=count, max_size=count)),
                    reverse=True)
    uids = draw(st.lists(TEXT, min_size=count, max_size=count, unique=True))
    out = []
    for i, level in enumerate(levels):
        values = {}
        low = {n: [j for j in range(count) if levels[j] == n] for n in range(level)}
        for n, options in low.items():
            if options and draw(st.booleans()):
                values['one%d' % n] = draw(st.sampled_from(options))
            if options and draw(st.booleans()):
                values['all%d' % n] = draw(st.lists(st.sampled_from(options), max_size=3))
        out.append((level, uids[i], values, draw(st.one_of(st.none(), st.integers(-3, 3)))))
    return out, draw(st.booleans()), draw(st.booleans()), draw(st.booleans()), \
        draw(st.sampled_from(['none', 'none', 'extra', 'class', 'badnum']))


@facet('untrusted', strategy=layer_cases, quick=800, shards=2)
def check_untrusted(case, ctx):
    nodes, with_class, strict, valid, spoil = case
    made = []
    for level in range(3):
        body = {'num': properties.Integer('', required=False, min=-50)}
        for n in range(level):
            body['one%d' % n] = properties.Instance('', made[n], required=False)
            body['all%d' % n] = properties.List('', properties.Instance('', made[n]),
                                                required=False)
        made.append(type(HasUID)('Layer%d' % level, (HasUID,), body))
    objs = []
    for level, uid, _, num in nodes:
        objs.append(made[level](uid=uid))
        if num is not None:
            objs[-1].num = num
    for obj, (_, _, values, _) in zip(objs, nodes):
        for name, val in values.items():
            setattr(obj, name, objs[val] if name[:3] == 'one' else [objs[i] for i in val])
    root = objs[0]
    reach = reachable(root)
    ctx.nontrivial(interesting(list(reach.values())))
    data = json.loads(json.dumps(root.serialize(include_class=with_class)))
    last = sorted(reach)[-1]
    if spoil == 'extra':
        data[last]['unknown'] = 5
    elif spoil == 'class':
        data[last]['__class__'] = 'Layer9'
    elif spoil == 'badnum':
        data[last]['num'] = -51
    refuse = spoil == 'badnum' or (strict and spoil != 'none')
    HasUID._INSTANCES.clear()
    kept = copy.deepcopy(data)

    def load():
        return made[nodes[0][0]].deserialize(data, strict=strict, assert_valid=valid)

    if refuse:
        ctx.nontrivial()
        ctx.raises(ValueError, load, 'loading %r' % data)
        ctx.check(not registry(), 'a failed load reserved %r', registry())
        ctx.check(kept == data, 'loading changed its input')
        return
    got = load()
    ctx.check(kept == data, 'loading changed its input')
    same_graph(ctx, root, got, {})
    ctx.check(registry() == {o.uid: o for o in reachable(got).values()},
              'the registry is %r', registry())


def whole_number(text):
    try:
        int(text)
    except ValueError:
        return False
    return True


@st.composite
def partial_cases(draw):
    graph = draw(graphs(least=2))
    count = len(graph)
    live = draw(st.lists(st.integers(0, count - 1), unique=True, max_size=count))
    spoil = draw(st.sampled_from(['none', 'none', 'clash', 'missing', 'broken', 'broken',
                                  'root', 'noroot', 'notdict']))
    return graph, live, spoil, draw(st.integers(0, 5)), draw(st.sampled_from(
        ['num', 'ref', 'list', 'entry', 'either']))


@facet('partial', strategy=partial_cases, quick=1200, shards=3)
def check_partial(case, ctx):
    graph, live, spoil, at, kind = case
    cls = classes()
    objs = build_graph(graph, cls)
    root = objs[0]
    reach = reachable(root)
    data = json.loads(json.dumps(root.serialize()))
    HasUID._INSTANCES.clear()
    # some of the objects stay alive, and their entries are not in the dictionary
    stay = {}
    for i in live:
        if objs[i] is not root:
            stay[objs[i].uid] = objs[i]
            data.pop(objs[i].uid, None)
    HasUID._INSTANCES.update(stay)
    # objects of the dictionary that are still needed
    needed = {root.uid: root}
    todo = [root]
    while todo:
        for one in refs(todo.pop()):
            if one.uid not in needed and one.uid not in stay:
                needed[one.uid] = one
                todo.append(one)
    names = sorted(needed)
    pick = names[at % len(names)]
    error = ValueError
    if spoil == 'clash':
        HasUID._INSTANCES[pick] = needed[pick]
    elif spoil == 'missing':
        del data[pick]
        if pick == root.uid:
            error = ValueError
    elif spoil == 'broken':
        if kind == 'entry':
            data[pick] = [5, 'text', None, []][at % 4]
            error = (ValueError, TypeError, AttributeError)
        else:
            error = (ValueError, TypeError)
            data[pick].update({'num': {'num': 'text'}, 'ref': {'ref': 'not there'},
                               'list': {'num': []}, 'either': {'ref': 5}}[kind])
    elif spoil == 'root':
        data['__root__'] = 'not there'
    elif spoil == 'noroot':
        del data['__root__']
    elif spoil == 'notdict':
        data = [None, 'text', [data], 5][at % 4]
    before = registry()
    kept = copy.deepcopy(data)
    holds = picture(objs)
    ctx.check(isolate.listening(), 'listeners are disabled')

    def load():
        return HasUID.deserialize(data, trusted=True)

    if spoil in ('clash', 'missing', 'broken') and any(
            isinstance(n, cls['Node']) and isinstance(n.either, HasUID) and
            whole_number(n.either.uid) for n in needed.values()):
        raise model.Unclaimed()     # the union loads the UID as an integer instead
    if spoil != 'none':
        ctx.nontrivial()
        ctx.label(spoil)
        ctx.raises(error, load, 'loading %r' % (data,))
        ctx.check(registry() == before, 'a failed load left %r, expected %r', registry(), before)
        ctx.check(data == kept, 'a failed load changed its input')
        ctx.check(picture(objs) == holds, 'a failed load changed other objects')
        ctx.check(isolate.listening(), 'listeners stay disabled')
        return
    got = load()
    ctx.nontrivial(bool(stay))
    ctx.check(data == kept, 'loading changed its input')
    ctx.check(picture(objs) == holds, 'loading changed other objects')
    # the live objects are used as they are
    seen = {}
    todo = [(root, got)]
    while todo:
        left, right = todo.pop()
        if left.uid in stay and left is not root:
            ctx.check(right is left, 'live object %r was replaced', left.uid)
            continue
        if id(left) in seen:
            ctx.check(seen[id(left)] is right, 'object %r is there twice', left.uid)
            continue
        seen[id(left)] = right
        ctx.check(type(left) is type(right) and left is not right and
                  left.uid == right.uid, '%r became %r', left.uid, right)
        for name in sorted(left._props):
            pair(ctx, getattr(left, name), getattr(right, name), todo,
                 '%s of %r' % (name, left.uid))
    made = {v.uid: v for v in seen.values()}
    ctx.check(set(made) == set(needed), 'loaded %r, expected %r', made, needed)
    ctx.check(registry() == dict(stay, **made), 'the registry is %r', registry())


SMALL = st.sampled_from(['a', 'b', 'c', 'veto', 'veto2', ''])


@st.composite
def histories(draw):
    obj = st.integers(0, 7)
    kind = st.integers(0, 4)
    step = st.one_of(
        st.tuples(st.just('new'), kind, SMALL),
        st.tuples(st.just('new'), kind, SMALL),
        st.tuples(st.just('newdefault'), kind, st.none()),
        st.tuples(st.just('newbad'), kind, SMALL),
        st.tuples(st.just('newunknown'), kind, SMALL),
        st.tuples(st.just('newfail'), kind, SMALL),
        st.tuples(st.just('set'), obj, SMALL),
        st.tuples(st.just('set'), obj, SMALL),
        st.tuples(st.just('set'), obj, SMALL),
        st.tuples(st.just('swap'), obj, obj),
        st.tuples(st.just('setbad'), obj, st.sampled_from([5, None, [], b'\xff'])),
        st.tuples(st.just('num'), obj, st.sampled_from([1, 'x'])),
        st.tuples(st.just('delete'), obj, st.none()),
        st.tuples(st.just('load'), SMALL, st.sampled_from(['good', 'bad', 'nested', 'veto'])),
        st.tuples(st.just('copy'), obj, st.none()),
        st.tuples(st.just('forget'), obj, st.none()))
    return draw(st.lists(step, min_size=2, max_size=14))


def history_classes():
    class Plain(HasUID):
        num = properties.Integer('', required=False)

    class Veto(HasUID):
        num = properties.Integer('', required=False)

        @properties.validator('uid')
        def _check_it(self, change):
            if str(change['value']).startswith('veto'):
                raise properties.ValidationError('vetoed')
            return True

    class Early(HasUID):
        """Its validator runs first (names are sorted)"""
        num = properties.Integer('', required=False)

        @properties.validator('uid')
        def _aa_check(self, change):
            if change['value'] == 'veto':
                raise properties.ValidationError('vetoed')
            return True

    class Failing(HasUID):
        num = properties.Integer('', required=False)

        def __init__(self, fail=False, **kwargs):
            if fail:
                # another property fails after the uid is in place
                super(Failing, self).__init__(num='text', **kwargs)
            super(Failing, self).__init__(**kwargs)

    class Own(HasUID):
        """Has a registry of its own"""
        _INSTANCES = {}
        num = properties.Integer('', required=False)

    return [Plain, Veto, Early, Failing, Own]


def vetoed(cls, uid):
    return (cls.__name__ == 'Veto' and uid.startswith('veto')) or \
        (cls.__name__ == 'Early' and uid == 'veto')


@facet('histories', strategy=histories, quick=2000, shards=3)
def check_histories(case, ctx):
    kinds = history_classes()
    objs = []                    # live objects with their uid
    known = {id(HasUID._INSTANCES): {}, id(kinds[4]._INSTANCES): {}}

    def table(cls):
        return known[id(cls._INSTANCES)]

    def compare(what):
        for cls in (HasUID, kinds[4]):
            ctx.check(cls._INSTANCES == table(cls) and
                      all(v is table(cls)[k] for k, v in cls._INSTANCES.items()),
                      'after %s the registry is %r, expected %r', what, cls._INSTANCES,
                      table(cls))
        for obj, uid in objs:
            ctx.check(obj.uid == uid, 'after %s a uid is %r instead of %r', what, obj.uid, uid)
            if uid is not None:
                ctx.check(type(obj).load(uid) is obj, 'after %s %r finds %r', what, uid,
                          type(obj).load(uid))
        ctx.check(HasUID.load('never') is None, 'found an object that never was')

    bad = properties.ValidationError
    for op, at, arg in case:
        what = '%s %s %r' % (op, at, arg)
        if op in ('new', 'newdefault', 'newbad', 'newunknown', 'newfail'):
            cls = kinds[at]
            taken = arg in table(cls)
            kwargs = {} if op == 'newdefault' else {'uid': arg}
            fails = op in ('newbad', 'newunknown', 'newfail')
            error = bad
            if op == 'newbad':
                kwargs['num'] = 'text'
            elif op == 'newunknown':
                kwargs['unknown'] = 5
                error = (AttributeError, bad)
            elif op == 'newfail':
                cls = kinds[3]
                taken = arg in table(cls)
                kwargs['fail'] = True
            if fails or (arg is not None and (taken or vetoed(cls, arg))):
                ctx.raises(error, lambda: cls(**kwargs), what)
                ctx.label('refused')
                ctx.nontrivial()
            else:
                obj = cls(**kwargs)
                ctx.check(arg is None or obj.uid == arg, '%s gave uid %r', what, obj.uid)
                ctx.check(isinstance(obj.uid, str) and obj.uid not in table(cls),
                          '%s gave uid %r', what, obj.uid)
                objs.append((obj, obj.uid))
                table(cls)[obj.uid] = obj
            compare(what)
            continue
        if op == 'load':
            uid = at
            data = {'__root__': uid, uid: {'__class__': 'Plain', 'uid': uid, 'num': 3}}
            if arg == 'bad':
                data[uid]['num'] = 'text'
            elif arg == 'nested':
                # an entry that nothing refers to is not loaded
                data['zz'] = {'__class__': 'Plain', 'uid': 'zz', 'num': 'text'}
            if arg == 'bad' or uid in table(kinds[0]):
                ctx.raises(ValueError, lambda: kinds[0].deserialize(data), what)
                ctx.nontrivial()
            else:
                obj = kinds[0].deserialize(data)
                ctx.check(obj.uid == uid and obj.num == 3, '%s gave %r %r', what, obj.uid,
                          obj.num)
                objs.append((obj, uid))
                table(kinds[0])[uid] = obj
            compare(what)
            continue
        if not objs:
            continue
        at %= len(objs)
        obj, uid = objs[at]
        cls = type(obj)
        if op == 'swap':
            op, arg = 'set', objs[arg % len(objs)][1]
            if arg is None:
                continue
        if op == 'set':
            if (arg != uid and arg in table(cls)) or vetoed(cls, arg):
                ctx.raises(bad, lambda: setattr(obj, 'uid', arg), what)
                ctx.nontrivial()
            else:
                obj.uid = arg
                if uid is not None:
                    del table(cls)[uid]
                    ctx.nontrivial()
                table(cls)[arg] = obj
                objs[at] = (obj, arg)
        elif op == 'setbad':
            ctx.raises(bad, lambda: setattr(obj, 'uid', arg), what)
            ctx.nontrivial()
        elif op == 'num':
            if arg == 'x':
                ctx.raises(bad, lambda: setattr(obj, 'num', arg), what)
            else:
                obj.num = arg
        elif op == 'delete':
            if uid is None:
                continue
            del obj.uid
            del table(cls)[uid]
            objs[at] = (obj, None)
            ctx.nontrivial()
        elif op == 'copy':
            if uid is not None:
                # a copy would have the same uid
                ctx.raises(ValueError, lambda: properties.copy(obj), what)
        elif op == 'forget':
            # a registry that forgot an object may give its uid to another
            if uid is not None:
                cls._INSTANCES.pop(uid)
                del table(cls)[uid]
                del objs[at]
        compare(what)
    auto = [o.uid for o, _ in objs if o.uid is not None]
    for cls in (HasUID, kinds[4]):
        mine = [o.uid for o, _ in objs if o._INSTANCES is cls._INSTANCES and o.uid is not None]
        ctx.check(len(set(mine)) == len(mine), 'uids are not unique: %r', mine)
    ctx.label('objects %d' % min(len(auto), 4))


def known_finding(case):
    """Does a listed finding still fail? ("__root__" is both the key of the root and a UID)"""
    if case != 'root-uid':
        return False
    cls = classes()
    try:
        HasUID._INSTANCES.clear()
        data = cls['Node'](uid='a', ref=cls['Node'](uid='__root__', num=3)).serialize()
        HasUID._INSTANCES.clear()
        return cls['Node'].deserialize(data).ref.num != 3
    except ValueError:
        return True
    finally:
        HasUID._INSTANCES.clear()
