"""C29: Pointer properties"""
import json

import properties
from hypothesis import strategies as st
from properties import extras

from vlib import gens, model
from vlib.harness import facet
from vlib.values import V, build

ID = 'C29'
RULE = ('classes with every combination of a UID property (any text options), validate_uid, own '
        'or inherited load, and a custom uid_prop; histories that make and rename instances and '
        'assign UIDs, instances, keywords and other values to pointers, alone and in containers, '
        'with loading on or off; non-trivial: a UID or instance was assigned')
FACETS = []
ASSUMPTIONS = ['UID properties are texts or text choices']

WORDS = ['a', 'b', 'ab', 'abc', 'A', 'AB', ' a ', '', 'bad', 'bad one', 'x1', 'none', 'wrong',
         'sub', 'longer identifier', 'red', 'Red', 'unknown']


@st.composite
def kinds(draw):
    """How the pointed-to class looks"""
    base = draw(st.sampled_from(['plain', 'plain', 'uid', 'uid', 'uid', 'none']))
    name = draw(st.sampled_from(['uid', 'uid', 'uid', 'ident']))
    spec = draw(st.one_of(
        st.just({'t': 'String'}), gens.stable_string_spec(),
        st.just({'t': 'StringChoice', 'choices': ['a', 'ab', 'red', 'wrong', 'none']}),
        st.just({'t': 'StringChoice', 'choices': {'red': ['a', 'b'], 'ab': []},
                 'case_sensitive': True})))
    return {'base': base, 'name': name, 'spec': spec,
            'rule': draw(st.sampled_from([None, None, 'class', 'static'])),
            'load': draw(st.sampled_from([None, None, 'own'])),
            'on': draw(st.booleans()),
            'holder': draw(st.sampled_from(['alone', 'alone', 'alone', 'list', 'tuple', 'dict',
                                            'union'])),
            'uid_prop': draw(st.sampled_from([None, name, name, 'missing']))}


def some_uid():
    return st.one_of(st.sampled_from(WORDS), st.sampled_from(WORDS), gens.texts(4),
                     st.sampled_from(WORDS).map(lambda w: V('sub', 'MyStr', w)))


@st.composite
def histories(draw):
    kind = draw(kinds())
    op = st.one_of(
        st.tuples(st.just('uid'), some_uid(), st.integers(0, 1)),
        st.tuples(st.just('uid'), some_uid(), st.integers(0, 1)),
        st.tuples(st.just('instance'), st.integers(0, 5), st.integers(0, 1)),
        st.tuples(st.just('uid of'), st.integers(0, 5), st.integers(0, 1)),
        st.tuples(st.just('new'), some_uid(), st.sampled_from(['it', 'it', 'sub', 'other'])),
        st.tuples(st.just('rename'), some_uid(), st.integers(0, 5)),
        st.tuples(st.just('keywords'), st.tuples(some_uid(), st.one_of(
            st.integers(0, 9), st.just('wrong'))), st.integers(0, 1)),
        st.tuples(st.just('value'), gens.junk(), st.integers(0, 1)),
        st.tuples(st.sampled_from(['del', 'validate', 'serialize', 'serialize', 'equal']),
                  st.booleans(), st.integers(0, 1)))
    return kind, draw(st.lists(op, min_size=2, max_size=12))


class Unrelated(properties.HasProperties):
    """A union member that takes neither UIDs nor targets"""
    unrelated = properties.Integer('a number')


def refuses(uid):
    return uid.startswith('bad')


class World(object):
    """The classes of a case and the model of what is loadable"""

    def __init__(self, kind):
        self.kind = kind
        self.asked = []
        self.own = {}
        body = {'num': properties.Integer('a number', required=False)}
        world = self
        if kind['rule'] == 'class':
            def validate_uid(cls, uid):
                if refuses(uid):
                    raise properties.ValidationError('bad uid ' + uid)
            body['validate_uid'] = classmethod(validate_uid)
        elif kind['rule'] == 'static':
            def check_uid(uid):
                if refuses(uid):
                    raise properties.ValidationError('bad uid ' + uid)
                return True
            body['validate_uid'] = staticmethod(check_uid)
        if kind['load'] == 'own':
            def load(cls, uid):
                world.asked.append(uid)
                if uid == 'wrong':
                    return world.other
                return world.own.get(uid)
            body['load'] = classmethod(load)
        if kind['base'] == 'uid':
            base = extras.HasUID
            if kind['name'] == 'uid':
                # the inherited uid has a default and a check; keep its kind
                self.spec = {'t': 'String'}
            else:
                self.spec = kind['spec']
                body['ident'] = model.make(dict(self.spec, required=False))
        else:
            base = properties.HasProperties
            self.spec = kind['spec']
            if kind['base'] == 'plain':
                body[kind['name']] = model.make(dict(self.spec, required=False))
        self.cls = type(base)(str('Target'), (base,), body)
        self.sub = type(base)(str('SubTarget'), (self.cls,), {})
        self.other_cls = type(base)(str('OtherTarget'), (base,), {
            'num': properties.Integer('a number', required=False)})
        self.other = self.other_cls()
        self.prop_name = kind['uid_prop'] or 'uid'
        self.has_prop = self.prop_name in self.cls._props

    def uid_spec(self):
        if self.kind['base'] == 'uid' and self.prop_name == 'uid':
            return {'t': 'String'}
        return self.spec

    def find(self, uid):
        """What load gives"""
        if self.kind['load'] == 'own':
            return self.other if uid == 'wrong' else self.own.get(uid)
        if self.kind['base'] == 'uid':
            return extras.HasUID._INSTANCES.get(uid)
        return None

    def accept(self, value):
        """BAD, SKIP, or ('ok', value to hold) where a NEW marks a built instance"""
        if isinstance(value, str):
            if self.has_prop:
                res = model.accept(self.uid_spec(), value)
                if res in (model.BAD, model.SKIP):
                    return res
                value = res[1]
            if self.kind['rule'] and refuses(value):
                return model.BAD
            found = self.find(value) if self.kind['on'] else None
            if found is None:
                return ('ok', value)
            return ('ok', found) if isinstance(found, self.cls) else model.BAD
        if isinstance(value, self.cls):
            return ('ok', value)
        return None

    def pointer(self):
        kwargs = {}
        if self.kind['uid_prop'] is not None:
            kwargs['uid_prop'] = self.kind['uid_prop']
        return extras.Pointer('a pointer', self.cls, load=self.kind['on'], **kwargs)

    def holder(self):
        how = self.kind['holder']
        prop = self.pointer()
        if how == 'list':
            prop = properties.List('pointers', prop)
        elif how == 'tuple':
            prop = properties.Tuple('pointers', prop)
        elif how == 'dict':
            prop = properties.Dictionary('pointers', value_prop=prop)
        elif how == 'union':
            prop = properties.Union('pointers', [Unrelated, prop])
        prop.required = False

        class Holder(properties.HasProperties):
            val = prop
        return Holder

    def wrap(self, value):
        return {'list': lambda: [value], 'tuple': lambda: (value,),
                'dict': lambda: {'k': value}}.get(self.kind['holder'], lambda: value)()

    def unwrap(self, value):
        if value is None:
            return None
        return {'list': lambda: value[0], 'tuple': lambda: value[0],
                'dict': lambda: value['k']}.get(self.kind['holder'], lambda: value)()


def same_held(one, two):
    return one is two or (isinstance(one, str) and isinstance(two, str) and one == two)


@facet('history', strategy=histories, quick=2500, shards=6)
def check_history(case, ctx):
    kind, ops = case
    world = World(kind)
    holder = world.holder()
    holders = [holder(), holder()]
    held = [None, None]
    made = []
    ctx.label('%s on=%s' % (kind['base'], kind['on']))
    ctx.label(kind['holder'])
    # other instances must not get in the way
    for what, arg, which in ops:
        if what == 'new':
            cls = {'it': world.cls, 'sub': world.sub, 'other': world.other_cls}[which]
            uid = str(build(arg))
            kwargs = {'num': 3}
            if kind['base'] == 'uid':
                if uid in extras.HasUID._INSTANCES:
                    continue
                kwargs['uid'] = uid
            inst = cls(**kwargs)
            made.append(inst)
            if which != 'other' or uid == 'x1':
                world.own[uid] = inst
            continue
        if what == 'rename':
            uid = str(build(arg))
            if kind['base'] == 'uid' and made and uid not in extras.HasUID._INSTANCES:
                made[which % len(made)].uid = uid
            continue
        obj = holders[which % 2]
        which = which % 2
        if what in ('uid', 'uid of', 'instance', 'keywords', 'value'):
            if what == 'uid':
                value = build(arg)
            elif what == 'value':
                value = build(arg)
                if isinstance(value, dict) or value is properties.undefined:
                    continue
            elif what == 'keywords':
                uid, num = arg
                value = {'num': num}
                uid = build(uid)
                if kind['base'] == 'plain':
                    value[kind['name']] = uid
            else:
                pool = made + ([world.other] if arg == 5 else [])
                if not pool:
                    continue
                value = pool[arg % len(pool)]
                if what == 'uid of':
                    if kind['base'] != 'uid':
                        continue
                    value = value.uid
            if value is None and kind['holder'] in ('list', 'tuple', 'dict'):
                continue
            expected = world.accept(value)
            if expected is None and isinstance(value, dict):
                good = value['num'] != 'wrong'
                if kind['base'] == 'plain':
                    res = model.accept(world.spec, value[kind['name']])
                    if res is model.SKIP:
                        continue
                    good = good and res is not model.BAD
                expected = ('ok', Ellipsis) if good else model.BAD
            elif expected is None:
                expected = model.BAD
            if expected is model.SKIP:
                ctx.label('skipped')
                continue
            del world.asked[:]

            def assign(value=value, obj=obj):
                obj.val = world.wrap(value)
            ctx.nontrivial(isinstance(value, (str, properties.HasProperties)))
            if expected is model.BAD:
                ctx.label('refused ' + what)
                err = ctx.raises(properties.ValidationError, assign, '%s %r' % (what, value))
                ctx.check(bool(str(err)), 'no message')
            else:
                ctx.label('accepted ' + what)
                assign()
                got = world.unwrap(obj.val)
                if expected[1] is Ellipsis:
                    ctx.check(type(got) is world.cls and got.num == value['num'],
                              'keywords gave %r', got)
                    made.append(got)
                else:
                    ctx.check(same_held(got, expected[1]), '%r holds %r, expected %r', value,
                              got, expected[1])
                held[which] = got
            ctx.check(kind['on'] or not world.asked, 'asked to load with loading off')
        elif what == 'del':
            del obj.val
            held[which] = None
        elif what == 'validate':
            now = held[which]
            if isinstance(now, str) and kind['on'] and world.accept(now) is model.BAD:
                ctx.raises(properties.ValidationError, obj.validate,
                           'validate with the UID of something else')
                continue
            found = world.find(now) if isinstance(now, str) and kind['on'] else None
            if found is None and isinstance(now, str) and world.accept(now) != ('ok', now):
                continue            # coerced by an unstable text property
            ctx.check(obj.validate() is True, 'validate gave something else')
        elif what == 'equal':
            # the same reference is equal, another is not
            one, two = held
            if one is None or two is None:
                continue
            ctx.check(properties.equal(holders[0], holders[1]) == (
                one is two or (isinstance(one, str) and one == two) or
                (not isinstance(one, str) and not isinstance(two, str) and
                 properties.equal(one, two))),
                      'equal(%r, %r) is wrong', one, two)
        elif what == 'serialize':
            now = held[which]
            data = obj.serialize(include_class=arg)
            json.dumps(data)
            if now is None:
                ctx.check('val' not in data or data['val'] is None, 'unset gave %r', data)
                continue
            got = world.unwrap(data['val'])
            if isinstance(now, str):
                ctx.check(got == now and type(got) in (str, type(now)), 'UID gave %r', got)
            else:
                ctx.check(got == json.loads(json.dumps(now.serialize(include_class=arg))),
                          'instance gave %r', got)
                if kind['base'] == 'uid':
                    continue        # loading it again would reuse its UID
            data = json.loads(json.dumps(data))
            again = world.accept(now) if isinstance(now, str) else ('ok', now)
            if again is model.SKIP:
                continue
            if kind['holder'] == 'union' and not isinstance(now, str):
                continue
            if again is model.BAD:
                ctx.raises(properties.ValidationError, lambda: holder.deserialize(data),
                           'loading %r' % data)
                continue
            new = world.unwrap(holder.deserialize(data, trusted=arg).val)
            if isinstance(now, str):
                ctx.check(same_held(new, again[1]), '%r loaded as %r', now, new)
            else:
                ctx.check(new is not now and isinstance(new, world.cls) and
                          new.num == now.num, 'loaded %r', new)
        for i in (0, 1):
            now = world.unwrap(holders[i].val)
            ctx.check(same_held(now, held[i]), 'after %s: holds %r, not %r', what, now, held[i])
            ctx.check(now is held[i] or isinstance(now, str), 'another instance')


# ------------------------------------------------- pointers of objects with UIDs

@st.composite
def webs(draw):
    count = draw(st.integers(1, 4))
    uids = draw(st.lists(st.sampled_from(['a', 'b', 'c', 'd', '', 'e f']), min_size=count,
                         max_size=count, unique=True))
    aim = st.one_of(st.integers(0, count - 1),
                    st.sampled_from(['elsewhere', '', 'gone', 'a', 'b']))
    nodes = [{'uid': u, 'ptr': draw(st.none() | aim),
              'many': draw(st.none() | st.lists(aim, max_size=3)),
              'named': draw(st.none() | st.dictionaries(st.sampled_from('pq'), aim, max_size=2)),
              'ref': draw(st.none() | st.integers(0, count - 1))} for u in uids]
    return nodes, draw(st.booleans()), draw(st.booleans())


@facet('web', strategy=webs, quick=800, shards=2)
def check_web(case, ctx):
    """Pointers between objects with UIDs keep their UIDs through JSON"""
    nodes, on, trusted = case

    class Node(extras.HasUID):
        ptr = extras.Pointer('', extras.HasUID, load=on, required=False)
        many = properties.List('', extras.Pointer('', extras.HasUID, load=on), required=False)
        named = properties.Dictionary('', value_prop=extras.Pointer(
            '', extras.HasUID, load=on), required=False)
        ref = properties.Instance('', extras.HasUID, required=False)
    objs = [Node(uid=n['uid']) for n in nodes]

    def aim(val):
        return objs[val] if isinstance(val, int) else val

    for obj, node in zip(objs, nodes):
        if node['ptr'] is not None:
            obj.ptr = aim(node['ptr'])
        if node['many'] is not None:
            obj.many = [aim(v) for v in node['many']]
        if node['named'] is not None:
            obj.named = {k: aim(v) for k, v in node['named'].items()}
        if node['ref'] is not None:
            obj.ref = objs[node['ref']]

    def uid(val):
        return val.uid if isinstance(val, extras.HasUID) else val

    def picture(obj):
        return {'ptr': uid(obj.ptr),
                'many': None if obj.many is None else [uid(v) for v in obj.many],
                'named': None if obj.named is None else
                         {k: uid(v) for k, v in obj.named.items()},
                'ref': uid(obj.ref)}

    pictures = {o.uid: picture(o) for o in objs}
    texts = [v for o in objs for v in [o.ptr] + (o.many or []) +
             list((o.named or {}).values()) if isinstance(v, str)]
    ctx.nontrivial(bool(texts))
    data = objs[0].serialize()
    plain = json.loads(json.dumps(data))
    ctx.check(plain == data, 'not plain JSON: %r', data)
    for key, val in data.items():
        if key == '__root__':
            continue
        want = {k: v for k, v in pictures[key].items() if v is not None}
        ctx.check({k: v for k, v in val.items() if k not in ('uid', '__class__')} == want,
                  '%r was written as %r, expected %r', key, val, want)
    kept = dict(plain)
    extras.HasUID._INSTANCES.clear()
    got = (extras.HasUID if trusted else Node).deserialize(plain, trusted=True)
    ctx.check(plain == kept, 'loading changed its input')
    todo, seen = [got], {}
    while todo:
        obj = todo.pop()
        if id(obj) in seen:
            continue
        seen[id(obj)] = obj
        ctx.check(type(obj) is Node and picture(obj) == pictures[obj.uid],
                  '%r was loaded as %r, expected %r', obj.uid, picture(obj), pictures[obj.uid])
        held = [obj.ptr] + (obj.many or []) + list((obj.named or {}).values())
        todo += [v for v in held + [obj.ref] if isinstance(v, extras.HasUID)]
        for val in held:
            ctx.check(on or not isinstance(val, extras.HasUID), 'a pointer was loaded: %r', val)
            ctx.check(not isinstance(val, extras.HasUID) or
                      extras.HasUID._INSTANCES.get(val.uid) is val, 'a stray %r', val)
