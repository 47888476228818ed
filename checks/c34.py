"""C34: use never changes a declaration"""
import json
import random
import warnings

import numpy as np
import properties
from hypothesis import strategies as st
from properties import extras

from vlib import gens, model
from vlib.harness import facet
from vlib.values import build

ID = 'C34'
RULE = ('random class families with defaults, listeners and every kind of property; a complete '
        'picture of every class (properties and all their options, documentation, listeners, '
        'defaults, what a fresh object is like, what is accepted, refused and reported) is taken '
        'before and after each of a history of uses - objects, assignments, refusals, loads, '
        'copies, listeners and links on objects, subclasses that override, other classes of the '
        'same name, tags; non-trivial: at least three uses, one of them a subclass, a tag, a load '
        'or a refusal')
ASSUMPTIONS = ['a Property object used in two classes, or under two names, is not claimed',
               'options and containers read back from a declaration are not changed by the user']
FACETS = []


# ------------------------------------------------- the picture of a declaration

SKIP = ('terms', 'default', 'info')


def plain(val, depth=4):
    """A picture of an option value, stable as long as nothing changes it"""
    if isinstance(val, properties.GettableProperty):
        return options(val, depth - 1) if depth else type(val).__name__
    if isinstance(val, dict):
        return 'dict', [(plain(k, depth), plain(v, depth)) for k, v in val.items()]
    if isinstance(val, (list, tuple)):
        return type(val).__name__, [plain(v, depth) for v in val]
    if isinstance(val, (set, frozenset)):
        return 'set', sorted(repr(v) for v in val)
    if isinstance(val, (int, float, str, complex, bytes, type(None))):
        return type(val).__name__, repr(val)
    if isinstance(val, np.ndarray):
        return 'array', val.tolist()
    if isinstance(val, type):
        return 'class', id(val)
    return type(val).__name__


def options(prop, depth=3):
    """All public options of a property"""
    out = [('class', type(prop).__name__), ('id', id(prop))]
    for name in sorted(dir(type(prop))):
        if name[0] == '_' or name in SKIP or not isinstance(
                getattr(type(prop), name), property):
            continue
        out.append((name, plain(getattr(prop, name), depth)))
    default = prop.default
    out.append(('default', 'callable' if callable(default) else plain(default)))
    if not isinstance(prop, properties.Renamed):
        out.append(('info', prop.info))
    out.append(('sphinx', prop.sphinx()))
    terms = prop.terms
    out.append(('terms', terms.name, terms.cls.__name__, plain(terms.args), plain(terms.kwargs)))
    return out


def class_picture(cls):
    return {
        'doc': cls.__doc__,
        'props': [(n, options(p)) for n, p in cls._props.items()],
        'defaults': [(n, 'callable' if callable(v) else plain(v))
                     for n, v in sorted(getattr(cls, '_defaults', {}).items())],
        'observers': [(n, getattr(o, 'mode', None), plain(o.names) if o.names is not properties.everything
                       else 'everything') for n, o in getattr(cls, '_prop_observers', {}).items()],
        'validators': sorted(getattr(cls, '_class_validators', ())),
        'attributes': sorted(n for n in dir(cls) if n[0] != '_'),
    }


def behaviour(cls, samples, log):
    """What a fresh object of the class is like and does"""
    out = []
    random.seed(1)                  # for the random colour
    obj = cls()
    out.append(model.describe(obj))
    for name, raw, builders in samples:
        if name not in cls._props:
            continue
        del log[:]
        try:
            setattr(obj, name, build(raw, builders))
            got = 'stored', model.describe(getattr(obj, name))
        except Exception as err:                                # pylint: disable=broad-except
            got = type(err).__name__, [t[1:3] for t in getattr(err, 'error_tuples', ())]
        out.append((name, got, sorted(log)))
    try:
        out.append(json.dumps(obj.serialize(save_dynamic=True), sort_keys=True)
                   if not any(isinstance(v, (set, frozenset)) for v in obj._backend.values())
                   else 'sets')
    except Exception as err:                                    # pylint: disable=broad-except
        out.append(type(err).__name__)
    return out


# ------------------------------------------------- histories

USES = ['object', 'set', 'set', 'set', 'delete', 'reset', 'validate', 'save', 'load', 'load',
        'copy', 'equal', 'subclass', 'subclass', 'namesake', 'listen', 'link', 'tag', 'docs',
        'default', 'broken class', 'construct']


@st.composite
def cases(draw):
    specs = draw(gens.class_specs(count=3, depth=draw(st.integers(0, 2))))
    props = gens.props_of(specs)
    defaults = []
    names = [n for spec in specs for n, _ in spec['props']]
    for i in range(len(specs)):
        defaults.append({n: draw(gens.valid_value(s, props)) for n, s in props(i)
                         if 'Instance' not in repr(s) and names.count(n) == 1
                         and draw(st.integers(0, 3)) == 0})
    index = st.integers(0, len(specs) - 1)
    samples = []
    for _ in range(3):
        one = draw(index)
        name, spec = draw(st.sampled_from(props(one)))
        samples.append((one, name, draw(gens.candidate(spec, props))))
    uses = []
    for _ in range(draw(st.integers(2, 7))):
        one = draw(index)
        name, spec = draw(st.sampled_from(props(one)))
        uses.append((draw(st.sampled_from(USES)), one, name, draw(gens.candidate(spec, props)),
                     draw(st.integers(0, 5))))
    return specs, defaults, samples, uses


@facet('uses', strategy=cases, quick=500, shards=7)
def check_uses(case, ctx):
    specs, defaults, samples, uses = case
    log = []

    def note(self, change):
        log.append((change['name'], change['mode']))
    counter = [0]

    def body(spec):
        at = counter[0]
        counter[0] += 1
        mine = {}
        if defaults[at]:
            mine['_defaults'] = {n: (lambda raw=raw: build(raw)) if i % 2 else build(raw)
                                 for i, (n, raw) in enumerate(sorted(defaults[at].items()))
                                 if raw is not None}
        if spec.get('base') is None:
            mine.update(
                watch=properties.observer(properties.everything)(note),
                check=properties.validator(properties.everything)(note),
                fixed=properties.GettableProperty('', default=5),
                whole=properties.validator(lambda self: None),
                shout=properties.String('', change_case='upper', required=False),
                whisper=properties.Renamed('shout', warn=False),
                pick=properties.StringChoice('', {'one': ['uno'], 'two': []}, required=False,
                                             descriptions={'one': 'a', 'two': 'b'}),
                either=properties.Union('', [properties.Color(''), properties.Integer(
                    '', max=3)], required=False))
            mine['loud'] = properties.String('')(loud)
        return mine

    def loud(self):
        return None if self.shout is None else self.shout + '!'
    env = model.Env(specs, body=body)
    base = properties.HasProperties
    classes = [base] + env.classes
    probes = [(n, raw, env.builders()) for _, n, raw in samples] + [
        ('shout', 'a', {}), ('pick', 'UNO', {}), ('either', 'red', {}), ('either', 9, {}),
        ('whisper', 'b', {}), ('fixed', 6, {})]

    def pictures():
        return [class_picture(c) for c in classes] + [
            behaviour(c, probes, log) for c in env.classes] + [
                [c.__name__ for c in (env.classes + [properties.HasProperties])],
                [base._REGISTRY.get(s['name']) is c for s, c in zip(specs, env.classes)
                 if s['name'] not in renamed]]
    renamed = set()
    before = pictures()
    again = pictures()
    compare(before, again, 'taking a picture', ctx)
    objs = []
    for cls in env.classes:
        objs.append(cls())
    kept = []
    for use, at, name, raw, number in uses:
        cls, obj = env.classes[at], objs[at]
        ctx.label(use)
        try:
            run_use(use, cls, obj, objs, name, raw, number, env, kept, specs, renamed, log)
        except Unusual:
            ctx.label('refused ' + use)
        after = pictures()
        if use == 'tag':
            before = tagged(before, after, cls, name, classes, ctx)
        elif use == 'namesake':
            before[-1] = after[-1]
        compare(before, after, '%s of %s' % (use, name), ctx)
    ctx.nontrivial(len(uses) > 2 and any(
        u[0] in ('subclass', 'tag', 'load', 'set', 'construct') for u in uses))


class Unusual(Exception):
    """The use was refused, as some are"""


def run_use(use, cls, obj, objs, name, raw, number, env, kept, specs, renamed, log):
    try:
        if use == 'object':
            kept.append(cls())
        elif use == 'set':
            setattr(obj, name, build(raw, env.builders()))
        elif use == 'construct':
            kept.append(cls(**{name: build(raw, env.builders())}))
        elif use == 'delete':
            delattr(obj, name)
        elif use == 'reset':
            obj._reset(name if number else None)
        elif use == 'validate':
            obj.validate()
        elif use == 'save':
            obj.serialize(include_class=bool(number % 2), save_dynamic=number > 2)
        elif use == 'load':
            data = obj.serialize()
            if number == 0:
                data['extra'] = 1
            kept.append(cls.deserialize(data, strict=number < 2, trusted=number > 3))
        elif use == 'copy':
            kept.append(properties.copy(obj))
        elif use == 'equal':
            properties.equal(obj, objs[number % len(objs)])
        elif use == 'default':
            val = getattr(cls(), name)
            if isinstance(val, list):
                val.append('odd')
            elif isinstance(val, set):
                val.add('odd')
            elif isinstance(val, dict):
                val['odd'] = 'odd'
        elif use == 'docs':
            for prop in cls._props.values():
                prop.sphinx()
            help_text = cls.__doc__
            kept.append(help_text)
        elif use == 'listen':
            kept.append(properties.observer(obj, properties.everything if number % 2 else name,
                                            lambda o, c: log.append('instance'),
                                            change_only=number > 2))
            if number == 5:
                kept.append(properties.validator(obj, name, lambda o, c: None))
        elif use == 'link':
            kept.append(properties.directional_link((obj, 'shout'), (cls(), 'pick')))
            obj.shout = 'one'
        elif use == 'tag':
            cls._props[name].tag({'n%d' % number: len(kept)}, note=name)
        elif use == 'broken class':
            type(cls)('Broken', (cls,), {
                '_defaults': {'unknown': 1}, name: properties.Integer('another')})
        elif use in ('subclass', 'namesake'):
            sub_body = {}
            if number in (0, 1, 5):
                sub_body[name] = properties.Integer('another one', required=False, default=7)
            if number == 1:
                sub_body['_doc_private'] = True
            if number in (2, 5):
                sub_body['more'] = properties.Integer('', default=1)
                sub_body['watch'] = properties.observer('more')(lambda self, change: None)
            if number == 3:
                sub_body['_defaults'] = {'shout': 'from below', 'pick': 'two'}
                sub_body['whole'] = None
            if number == 4:
                sub_body[name] = None
                sub_body['check'] = None
            made = cls.__name__ if use == 'namesake' else 'Sub%d' % number
            if use == 'namesake':
                renamed.add(cls.__name__)
            sub = type(cls)(str(made), (cls,), sub_body)
            one = sub()
            one.shout = 'x'
            kept.append(one)
    except (ValueError, TypeError, AttributeError, KeyError, OverflowError,
            properties.SelfReferenceError) as err:
        raise Unusual(str(err))


def tagged(before, after, cls, name, classes, ctx):
    """The picture as it has to be after the tag: only its meta differs"""
    prop = cls._props[name]
    for i, one in enumerate(classes):
        for j, (key, opts) in enumerate(before[i]['props']):
            new = dict(x for x in after[i]['props'][j][1] if len(x) == 2)
            if one._props.get(key) is prop:
                before[i]['props'][j] = (key, [
                    ('meta', new['meta']) if o[0] == 'meta' else o for o in opts])
    ctx.check(prop.meta.get('note') == name and prop.terms.meta == prop.meta,
              'tagged %s, meta is %r', name, prop.meta)
    return before


def compare(before, after, what, ctx):
    for one, two in zip(before, after):
        if one == two:
            continue
        if isinstance(one, dict):
            for key in one:
                if one[key] != two[key]:
                    pair = one[key], two[key]
                    if isinstance(one[key], list):
                        diff = [p for p in zip(one[key], two[key]) if p[0] != p[1]]
                        pair = diff[0] if diff else pair
                    ctx.check(False, '%s changed the %s of a class: %r to %r', what, key,
                              *[str(p)[:300] for p in pair])
        diff = [p for p in zip(one, two) if p[0] != p[1]]
        ctx.check(False, '%s changed what a class does: %r to %r', what,
                  *[str(p)[:300] for p in (diff[0] if diff else (one, two))])
    ctx.check(len(before) == len(after), 'lost a picture')


# ------------------------------------------------- tags

def without(val):
    """An options picture less tags and identities, to compare two properties"""
    if isinstance(val, (list, tuple)):
        return [without(v) for v in val
                if not (isinstance(v, tuple) and v and v[0] in ('id', 'meta'))]
    return val


KINDS = {
    'Integer': lambda P: P.Integer('doc', min=1),
    'Float': lambda P: P.Float('doc'),
    'String': lambda P: P.String('doc', strip=' '),
    'List': lambda P: P.List('doc', P.Integer('inner')),
    'Union': lambda P: P.Union('doc', [P.Integer(''), P.String('')]),
    'Choice': lambda P: P.StringChoice('doc', ['a', 'b']),
    'Instance': lambda P: P.Instance('doc', P.HasProperties),
    'Renamed': lambda P: P.Renamed('other', warn=True),
    'Gettable': lambda P: P.GettableProperty('doc', default=3),
    'Pointer': lambda P: extras.Pointer('doc', extras.HasUID),
    'Array': lambda P: P.Array('doc'),
    'URL': lambda P: extras.URL('doc'),
    'Dynamic': None,
}
WORDS = ['label', 'units', 'required', 'default', 'doc', 'name', 'warn', 'quiet', 'hidden',
         'min', 'cast', 'coerce', 'serializer', 'dynamic', 'private', 'skip', 'validate']


def tag_cases():
    tags = st.dictionaries(st.sampled_from(WORDS), st.one_of(
        st.integers(0, 3), st.sampled_from([True, False, None, 'x', ''])), max_size=3)
    return st.tuples(
        st.lists(st.sampled_from(sorted(KINDS)), min_size=2, max_size=4),
        st.lists(st.tuples(st.integers(0, 7), st.sampled_from(['dict', 'words', 'both', 'none']),
                           tags, tags, st.booleans()), min_size=1, max_size=6),
        st.sampled_from(['one', 'shared']))


@facet('tags', strategy=tag_cases, quick=600, shards=2)
def check_tags(case, ctx):
    """Tags are kept by their property only, and mean nothing to the library"""
    kinds, tags, deco = case

    def make(count, tagging):
        props, metas = [], []
        carrier = properties.Integer('carrier', required=False)

        def getter(i):
            def func(self):
                return 4
            func.__name__ = 'p%d' % i
            return func
        for i, kind in enumerate(kinds):
            if kind == 'Dynamic':
                one = carrier if deco == 'shared' else properties.Integer('own')
                props.append(one(getter(i)))
            else:
                props.append(KINDS[kind](properties))
            metas.append({})
        cls = None
        for late in (False, True):
            for at, form, one, two, when in tags if tagging else ():
                if when is not late:
                    continue
                at %= len(props)
                given = dict(one)
                if form == 'dict':
                    out = props[at].tag(given)
                    metas[at].update(one)
                elif form == 'words':
                    out = props[at].tag(**two)
                    metas[at].update(two)
                elif form == 'both':
                    out = props[at].tag(given, **two)
                    metas[at].update(one)
                    metas[at].update(two)
                else:
                    out = props[at].tag()
                ctx.check(out is props[at], 'tag gave %r', out)
                ctx.check(given == one, 'tag changed the dictionary given')
                given['later'] = 1
                for i, prop in enumerate(props):
                    ctx.check(prop.meta == metas[i], 'meta of %s is %r, expected %r', kinds[i],
                              prop.meta, metas[i])
            if not late:
                body = {'p%d' % i: p for i, p in enumerate(props)}
                body['other'] = properties.Integer('', required=False)
                cls = type(properties.HasProperties)('Tagged', (properties.HasProperties,), body)
                sub = type(cls)('SubTagged', (cls,), {})
        for i, prop in enumerate(props):
            ctx.check(prop.meta == metas[i] and prop.terms.meta == metas[i],
                      'meta of %s is %r, terms %r, expected %r', kinds[i], prop.meta,
                      prop.terms.meta, metas[i])
            ctx.check(sub._props['p%d' % i].meta == metas[i], 'inherited meta')
        return cls
    ctx.nontrivial(any(t[2] or t[3] for t in tags))
    tagged_cls = make(0, True)
    twin = make(1, False)
    outs = []
    for cls in (twin, tagged_cls):
        out = [cls.__doc__]
        for i, prop in enumerate(cls._props.values()):
            out.append(without(options(prop)))
        obj = cls()
        for i in range(len(kinds)):
            for value in (1, 0, 'a', ' b ', [1], ['x'], 2.5, 'http://x.y/z'):
                with warnings.catch_warnings(record=True) as caught:
                    warnings.simplefilter('always')
                    try:
                        setattr(obj, 'p%d' % i, value)
                        got = 'ok'
                    except Exception as err:                    # pylint: disable=broad-except
                        got = type(err).__name__ + str(err)
                    out.append((i, value, got, len(caught),
                                model.describe(getattr(obj, 'p%d' % i))))
        try:
            out.append(obj.validate())
        except properties.ValidationError as err:
            out.append([t[:3] for t in err.error_tuples])
        out.append(sorted(obj.serialize(save_dynamic=True)))
        outs.append(out)
    for one, two in zip(*outs):
        ctx.check(one == two, 'with tags %r, without %r', two, one)
