"""C31: options of serialization and loading reach everything"""
import copy
import json

import properties
from hypothesis import strategies as st
from properties.extras import HasUID, Singleton

from vlib.harness import facet

ID = 'C31'
RULE = ('random trees of plain objects, singletons or UID objects nested in instances, '
        'containers and unions, with custom serializers and deserializers of several '
        'signatures and dynamic properties, written and loaded with random subsets of the '
        'options and further keywords; non-trivial: an object with a custom function or '
        'dynamic property at least two levels below the top, and at least one option or '
        'keyword; or a custom function that refuses')
ASSUMPTIONS = ['custom functions either take only the value or accept any keywords; those '
               'that raise TypeError may be called again with the value alone',
               'a union loads strictly by its own setting, so only its strict loading and '
               'loading of declared classes is claimed']
FACETS = []

WRAPS = ['instance', 'list', 'tuple', 'dict', 'nested', 'pairs', 'union', 'set']
STYLES = ['value', 'keywords', 'named', 'object', 'partial', 'none']


class Log(object):
    """Custom functions that note how they are called"""

    def __init__(self):
        self.calls = []

    def make(self, style, convert):
        calls = self.calls

        if style == 'value':
            def func(val):
                calls.append((val, None))
                return convert(val)
        elif style == 'keywords':
            def func(val, **kwargs):
                calls.append((val, dict(kwargs)))
                return convert(val)
        elif style == 'named':
            def func(val, mark=None, **kwargs):
                calls.append((val, dict(kwargs, mark=mark)))
                return convert(val)
        elif style == 'object':
            class Callable(object):
                def __call__(self, val, **kwargs):
                    calls.append((val, dict(kwargs)))
                    return convert(val)
            func = Callable()
        else:
            def base(_, val, **kwargs):
                calls.append((val, dict(kwargs)))
                return convert(val)

            def func(val, **kwargs):
                return base(None, val, **kwargs)
        return func


@st.composite
def trees(draw, depth):
    """{'sub': subclass?, 'leaf', 'plain', 'kids': [(wrap, [nodes])]}"""
    kids = []
    if depth:
        for wrap in draw(st.lists(st.sampled_from(WRAPS), unique=True, min_size=1,
                                  max_size=3)):
            count = 1 if wrap in ('instance', 'union') else draw(st.integers(0, 2))
            kids.append((wrap, [draw(trees(depth - 1)) for _ in range(count)]))
    return {'level': depth, 'sub': draw(st.integers(0, 3)) == 0, 'leaf': draw(st.integers(0, 99)),
            'plain': draw(st.one_of(st.none(), st.text('ab', max_size=2))), 'kids': kids}


def option_sets(names):
    return st.fixed_dictionaries({}, optional=dict(
        {n: st.booleans() for n in names},
        mark=st.sampled_from([0, 'm', (1, 2)]), note=st.sampled_from([None, 7])))


@st.composite
def cases(draw):
    return {'base': draw(st.sampled_from(['plain', 'plain', 'singleton', 'uid'])),
            'tree': draw(trees(draw(st.integers(1, 3)))),
            'write': draw(st.sampled_from(STYLES)), 'read': draw(st.sampled_from(STYLES)),
            'dynamic': draw(st.booleans()),
            'options': draw(option_sets(['include_class', 'save_dynamic'])),
            'loading': draw(option_sets(['trusted', 'strict', 'assert_valid'])),
            'entry': draw(st.sampled_from(['object', 'property', 'copy'])),
            'unknown': draw(st.sampled_from([None, None, 0, 1, 2, 3, 4]))}


LEVELS = 4


def build_classes(case, out_log, in_log):
    """[(class, subclass)] by level; objects of a level contain those of the one below"""
    base = {'plain': properties.HasProperties, 'singleton': Singleton,
            'uid': HasUID}[case['base']]
    leaf = {}
    if case['write'] != 'none':
        leaf['serializer'] = out_log.make(case['write'], lambda v: ['w', v])
    if case['read'] != 'none':
        leaf['deserializer'] = in_log.make(
            case['read'], lambda v: v[1] if isinstance(v, list) else v)
    elif case['write'] != 'none':
        leaf['deserializer'] = lambda v: v[1]
    registries = {'_REGISTRY': {}}
    if case['base'] != 'plain':
        registries[{'singleton': '_SINGLETONS', 'uid': '_INSTANCES'}[case['base']]] = {}
    out = []
    meta = type(base)
    for level in range(LEVELS):
        body = dict(registries, leaf=properties.Integer('', **leaf),
                    plain=properties.String('', required=False))
        if case['dynamic']:
            body['twice'] = properties.Integer('')(double)
        if level:
            below = out[-1][0]

            def part(below=below):
                return properties.Instance('', below)
            body.update(
                one=properties.Instance('', below, required=False),
                many=properties.List('', part(), required=False),
                pair=properties.Tuple('', part(), required=False),
                group=properties.Set('', part(), required=False),
                table=properties.Dictionary('', key_prop=properties.String(''),
                                            value_prop=part(), required=False),
                nested=properties.List('', properties.List('', part()), required=False),
                pairs=properties.Dictionary('', key_prop=properties.String(''),
                                            value_prop=properties.Tuple('', part()),
                                            required=False),
                either=properties.Union('', [properties.Boolean(''), part()],
                                        required=False))
        cls = meta(str('Node%d' % level), (base,), body)
        sub = meta(str('Sub%d' % level), (cls,), {'extra': properties.Integer('', default=3)})
        out.append((cls, sub))
    return out


def double(self):
    """twice the leaf"""
    return None if self.leaf is None else self.leaf * 2


FIELDS = {'instance': 'one', 'list': 'many', 'tuple': 'pair', 'dict': 'table',
          'nested': 'nested', 'pairs': 'pairs', 'union': 'either', 'set': 'group'}


def grow(node, classes, case, path='r'):
    """The object for a tree"""
    cls = classes[level_of(node)][bool(node['sub'])]
    kwargs = {'leaf': node['leaf']}
    if node['plain'] is not None:
        kwargs['plain'] = node['plain']
    for wrap, kids in node['kids']:
        objs = [grow(kid, classes, case, '%s.%s%d' % (path, wrap, i))
                for i, kid in enumerate(kids)]
        kwargs[FIELDS[wrap]] = arrange(wrap, objs)
    if case['base'] == 'uid':
        kwargs['uid'] = path
    if case['base'] == 'singleton':
        return cls(path, **kwargs)
    return cls(**kwargs)


def arrange(wrap, items):
    if wrap in ('instance', 'union'):
        return items[0]
    if wrap == 'dict':
        return {'k%d' % i: v for i, v in enumerate(items)}
    if wrap == 'nested':
        return [[v] for v in items] + [[]]
    if wrap == 'pairs':
        return {'k': tuple(items)}
    return {'list': list, 'tuple': tuple, 'set': set}[wrap](items)


def written(node, case, options, entries, path='r'):
    """The expected form; for UID objects fills entries and gives the UID"""
    custom = case['write'] != 'none'
    data = {'leaf': ['w', node['leaf']] if custom else node['leaf']}
    if node['plain'] is not None:
        data['plain'] = node['plain']
    for wrap, kids in node['kids']:
        forms = [written(kid, case, options, entries, '%s.%s%d' % (path, wrap, i))
                 for i, kid in enumerate(kids)]
        data[FIELDS[wrap]] = unordered(wrap, arrange_json(wrap, forms))
    if node['sub']:
        data['extra'] = 3
    if options.get('save_dynamic', False) and case['dynamic']:
        data['twice'] = node['leaf'] * 2
    if options.get('include_class', True):
        data['__class__'] = '%s%d' % ('Sub' if node['sub'] else 'Node', level_of(node))
    if case['base'] == 'singleton':
        data['_singleton_id'] = path
    if case['base'] == 'uid':
        data['uid'] = path
        entries[path] = data
        return path
    return data


def arrange_json(wrap, forms):
    if wrap in ('instance', 'union'):
        return forms[0]
    if wrap == 'dict':
        return {'k%d' % i: v for i, v in enumerate(forms)}
    if wrap == 'nested':
        return [[v] for v in forms] + [[]]
    if wrap == 'pairs':
        return {'k': list(forms)}
    return list(forms)


def unordered(wrap, data):
    return sorted(data, key=repr_key) if wrap == 'set' else data


def repr_key(val):
    return json.dumps(val, sort_keys=True)


def normal(data):
    """Lists of sets have any order"""
    if isinstance(data, dict):
        out = {k: normal(v) for k, v in data.items()}
        if isinstance(out.get('group'), list):
            out['group'] = sorted(out['group'], key=repr_key)
        return out
    if isinstance(data, (list, tuple)):
        return [normal(v) for v in data]
    return data


def nodes_of(node):
    yield node
    for _, kids in node['kids']:
        for kid in kids:
            for low in nodes_of(kid):
                yield low


def level_of(node):
    return node['level']


def check_calls(ctx, calls, style, count, expected, what):
    """The custom function ran for every object, with all the keywords"""
    ctx.check(len(calls) == count, 'the %s ran %d times for %d objects', what, len(calls),
              count)
    for _, kwargs in calls:
        if style == 'value':
            continue
        for name, val in expected.items():
            ctx.check(name in kwargs, 'the %s did not get %r', what, name)
            ctx.check(type(kwargs[name]) is type(val) and kwargs[name] == val,
                      'the %s got %s=%r, expected %r', what, name, kwargs[name], val)
        strange = set(kwargs) - set(expected) - {
            'include_class', 'save_dynamic', 'registry', 'trusted', 'strict',
            'assert_valid', 'mark', 'root'}
        ctx.check(not strange, 'the %s got %r', what, strange)


def places(data, case):
    """Every dictionary that stands for an object"""
    if case['base'] == 'uid':
        return [data[k] for k in sorted(data) if k != '__root__']
    out = []

    def walk(val):
        if isinstance(val, dict):
            if 'leaf' in val:
                out.append(val)
            for key in sorted(val):
                walk(val[key])
        elif isinstance(val, list):
            for low in val:
                walk(low)
    walk(data)
    return out


@facet('options', strategy=cases, quick=1100, shards=3)
def check_options(case, ctx):
    out_log, in_log = Log(), Log()
    classes = build_classes(case, out_log, in_log)
    tree, options, loading = case['tree'], case['options'], case['loading']
    count = len(list(nodes_of(tree)))
    top = grow(tree, classes, case)
    declared = classes[tree['level']][0]
    holder = type(properties.HasProperties)(str('Holder'), (properties.HasProperties,), {
        'val': properties.Instance('', declared)})
    ctx.label(case['base'])
    ctx.label(case['entry'])
    ctx.nontrivial(tree['level'] > 1 and bool(options or loading) and
                   (case['write'] != 'none' or case['read'] != 'none' or case['dynamic']))
    if case['entry'] == 'copy' and case['base'] == 'plain':
        return copied(case, ctx, classes, top, count, out_log, in_log)

    # ---- writing
    given = dict(options)
    if case['entry'] == 'property':
        data = holder._props['val'].serialize(top, **given)
    elif case['entry'] == 'copy':
        # from a holder above it
        data = holder(val=top).serialize(**given)
        if given.get('include_class', True):
            ctx.check(data.pop('__class__', None) == 'Holder', 'no class in %r', data)
        ctx.check(set(data) == {'val'}, 'the holder is %r', data)
        data = data['val']
    else:
        data = top.serialize(**given)
    entries = {}
    want = written(tree, case, options, entries)
    if case['base'] == 'uid':
        want = dict(entries, __root__=want)
    ctx.check(normal(data) == normal(want), 'written with %r: %r, expected %r', given, data,
              want)
    json.dumps(data)
    if case['write'] != 'none':
        check_calls(ctx, out_log.calls, case['write'], count,
                    dict(given, include_class=given.get('include_class', True)),
                    'serializer')

    # ---- loading
    data = copy.deepcopy(data)
    given = dict(loading)
    if case['entry'] != 'object':
        given.pop('assert_valid', None)
    spoiled = None
    if case['unknown'] is not None:
        found = places(data, case)
        spoiled = found[case['unknown'] % len(found)]
        spoiled['zz_unknown'] = 1
    kept = copy.deepcopy(data)
    if case['base'] == 'singleton':
        declared._SINGLETONS.clear()
    if case['base'] == 'uid':
        declared._INSTANCES.clear()
    trusted, strict = given.get('trusted', False), given.get('strict', False)
    named = options.get('include_class', True)
    subs = any(n['sub'] for n in nodes_of(tree))
    unions = any(w == 'union' for n in nodes_of(tree) for w, _ in n['kids'])
    # a class that is not the declared one, or (for a subclass that is not
    # built) its own property, is refused by strict loading
    refused = strict and (spoiled is not None or (subs and not (trusted and named)))

    def load():
        if case['entry'] == 'property':
            return holder._props['val'].deserialize(data, **given)
        if case['entry'] == 'copy':
            return holder.deserialize({'val': data}, **given).val
        return declared.deserialize(data, **given)

    if refused:
        ctx.label('refused')
        ctx.raises((ValueError, properties.ValidationError), load,
                   'strict loading of %r' % (data,))
        ctx.check(data == kept, 'loading changed its input')
        return
    got = load()
    ctx.check(data == kept, 'loading changed its input')
    same(ctx, tree, got, classes, trusted and named, case)
    if case['read'] != 'none' and not unions:
        check_calls(ctx, in_log.calls, case['read'], count,
                    dict({k: v for k, v in given.items() if k != 'assert_valid'},
                         trusted=trusted), 'deserializer')
    if case['entry'] == 'property' and case['base'] == 'plain' and spoiled is None:
        alone(case, ctx, classes, top, want)


def alone(case, ctx, classes, top, want):
    """The same through each property of the top"""
    tree, options = case['tree'], case['options']
    given = {k: v for k, v in case['loading'].items() if k != 'assert_valid'}
    for wrap, kids in tree['kids']:
        field = FIELDS[wrap]
        prop = type(top)._props[field]
        data = prop.serialize(getattr(top, field), **options)
        ctx.check(normal({field: data}) == normal({field: want[field]}),
                  '%s written with %r: %r, expected %r', field, options, data, want[field])
        loaded = prop.deserialize(data, **given)
        part = dict(tree, sub=False, kids=[(wrap, kids)])
        cls = classes[tree['level']][0]
        got = cls(**{'leaf': tree['leaf'], 'plain': tree['plain'] or '', field: loaded})
        part['plain'] = tree['plain'] or ''
        same(ctx, part, got, classes, given.get('trusted', False) and
             options.get('include_class', True), case)


def same(ctx, node, got, classes, subclasses, case):
    want = classes[level_of(node)][bool(node['sub'] and subclasses)]
    ctx.check(type(got) is want, 'built a %s, expected a %s', type(got), want)
    ctx.check(got.leaf == node['leaf'] and got.plain == node['plain'],
              'the values are %r, %r', got.leaf, got.plain)
    if case['dynamic']:
        ctx.check('twice' not in got._backend and got.twice == node['leaf'] * 2,
                  'a dynamic value was stored')
    for wrap, kids in node['kids']:
        val = getattr(got, FIELDS[wrap])
        if wrap in ('instance', 'union'):
            items = [val]
        elif wrap == 'dict':
            items = [val[k] for k in sorted(val)]
        elif wrap == 'nested':
            items = [low[0] for low in val if low]
        elif wrap == 'pairs':
            items = list(val['k'])
        elif wrap == 'set':
            items = sorted(val, key=lambda v: v.leaf)
            kids = sorted(kids, key=lambda v: v['leaf'])
            if len(set(k['leaf'] for k in kids)) < len(kids):
                continue
        else:
            items = list(val)
        ctx.check(len(items) == len(kids), '%s has %d items', wrap, len(items))
        for kid, item in zip(kids, items):
            same(ctx, kid, item, classes, subclasses, case)


def copied(case, ctx, classes, top, count, out_log, in_log):
    """properties.copy gives its keywords to both steps"""
    given = dict(case['options'])
    given.update(case['loading'])
    given.pop('strict', None)
    trusted = given.get('trusted', True)
    named = given.get('include_class', True)
    tree = case['tree']
    unions = any(w == 'union' for n in nodes_of(tree) for w, _ in n['kids'])
    got = properties.copy(top, **given)
    # the copy itself is always of the class of the original
    own = list(classes)
    if tree['sub']:
        own[tree['level']] = (classes[tree['level']][1],) * 2
    same(ctx, tree, got, own, trusted and named, case)
    if case['write'] != 'none':
        check_calls(ctx, out_log.calls, case['write'], count,
                    dict(given, include_class=named), 'serializer')
    if case['read'] != 'none' and not unions:
        check_calls(ctx, in_log.calls, case['read'], count,
                    dict({k: v for k, v in given.items()
                          if k not in ('assert_valid', 'save_dynamic')},
                         trusted=trusted), 'deserializer')


# ------------------------------------------------- functions at every place

LEAVES = {'Integer': st.integers(-9, 9), 'String': st.text('abc', max_size=3),
          'Boolean': st.booleans(), 'Float': st.integers(-9, 9).map(lambda n: n / 2.0),
          'Color': st.tuples(*[st.integers(0, 255)] * 3),
          'Complex': st.integers(-9, 9).map(lambda n: complex(n, 1)),
          'Property': st.integers(0, 9), 'DateTime': st.integers(1, 28)}


@st.composite
def places_of(draw, depth, hashable=False):
    """A property declaration with values, some parts with functions of their own"""
    kinds = ['leaf', 'leaf', 'union', 'tuple', 'object']
    if not hashable:
        kinds += ['list', 'set', 'dict', 'dict', 'array']
    kind = draw(st.sampled_from(kinds)) if depth else 'leaf'
    node = {'kind': kind, 'out': draw(st.sampled_from(['none', 'option', 'method', 'override'])),
            'in': draw(st.booleans()), 'style': draw(st.sampled_from(
                ['value', 'keywords', 'named', 'object'])),
            'observed': draw(st.booleans())}
    if kind == 'leaf':
        node['type'] = draw(st.sampled_from(sorted(LEAVES)))
    elif kind == 'dict':
        node['key'] = draw(places_of(0, True))
        if node['key']['type'] == 'Color':
            node['key']['type'] = 'String'      # lists are no keys
        if draw(st.integers(0, 2)) == 0:
            node['key'] = {'kind': 'union', 'out': draw(st.sampled_from(['none', 'option'])),
                           'in': False, 'style': 'keywords', 'observed': False, 'first': True,
                           'kid': node['key']}
    if kind not in ('leaf', 'array'):
        node['kid'] = draw(places_of(depth - 1, hashable or kind == 'set'))
    if kind == 'union':
        node['first'] = draw(st.booleans())
    return node


@st.composite
def contents_of(draw, node):
    kind = node['kind']
    if kind == 'leaf':
        return draw(LEAVES[node['type']])
    if kind == 'array':
        return draw(st.lists(st.integers(-9, 9), max_size=3))
    if kind in ('union', 'object'):
        return draw(contents_of(node['kid']))
    if kind == 'dict':
        keys = draw(st.lists(contents_of(node['key']), max_size=3, unique_by=repr))
        return [(k, draw(contents_of(node['kid']))) for k in keys]
    return [draw(contents_of(node['kid'])) for _ in range(draw(st.integers(0, 3)))]


class Tokens(object):
    """Functions that write a value as a token and read it back, noting every call"""

    def __init__(self):
        self.values = []
        self.out_calls = []
        self.in_calls = []

    def write(self, val, kwargs):
        self.values.append(val)
        self.out_calls.append(kwargs)
        return 'tok%d' % (len(self.values) - 1)

    def read(self, val, kwargs):
        self.in_calls.append(kwargs)
        if not isinstance(val, str) or not val.startswith('tok'):
            raise ValueError('no token: %r' % (val,))
        return self.values[int(val[3:])]

    def func(self, style, convert):
        if style == 'value':
            return lambda val: convert(val, None)
        if style == 'named':
            return lambda val, mark=None, **kwargs: convert(val, dict(kwargs, mark=mark))
        if style == 'object':
            class Callable(object):
                def __call__(self, val, **kwargs):
                    return convert(val, kwargs)
            return Callable()
        return lambda val, **kwargs: convert(val, kwargs)


def declare(node, tokens, classes):
    """The property of a node; fills in which functions it has"""
    kind, style = node['kind'], node['style']
    options = {}
    args = ('',)
    if kind == 'leaf':
        base = getattr(properties, node['type'])
    elif kind == 'array':
        base = properties.Array
    elif kind == 'dict':
        base = properties.Dictionary
        options = {'key_prop': declare(node['key'], tokens, classes),
                   'value_prop': declare(node['kid'], tokens, classes),
                   'observe_mutations': node['observed']}
    elif kind == 'union':
        base = properties.Union
        members = [declare(node['kid'], tokens, classes), properties.File('')]
        options = {'props': members if node['first'] else members[::-1]}
    elif kind == 'object':
        base = properties.Instance
        inner = type(properties.HasProperties)(
            str('Part%d' % len(classes)), (properties.HasProperties,),
            {'val': declare(node['kid'], tokens, classes)})
        classes.append(inner)
        node['class'] = inner
        options = {'instance_class': inner}
    else:
        base = {'list': properties.List, 'tuple': properties.Tuple,
                'set': properties.Set}[kind]
        args = ('', declare(node['kid'], tokens, classes))
        if kind != 'tuple':
            options['observe_mutations'] = node['observed']
    out = node['out']
    if out == 'method' and kind not in ('leaf', 'array'):
        out = 'option'
    node['writes'] = out != 'none'
    node['reads'] = node['writes']      # whatever is written as a token is read from it
    if not node['writes'] and node['in'] and kind == 'leaf':
        node['reads'] = 'plain'
    node['asked'] = style != 'value' or out in ('method', 'override')
    if out == 'option':
        options['serializer'] = tokens.func(style, tokens.write)
        options['deserializer'] = tokens.func(style, tokens.read)
    elif out == 'method':
        base = type(base)(str('My' + base.__name__), (base,), {
            'to_json': staticmethod(lambda value, **kwargs: tokens.write(value, kwargs)),
            'from_json': staticmethod(lambda value, **kwargs: tokens.read(value, kwargs))})
        if kind == 'array':
            options['deserializer'] = lambda value, **kwargs: tokens.read(value, kwargs)
    elif out == 'override':
        base = type(base)(str('My' + base.__name__), (base,), {
            'serialize': lambda self, value, **kwargs: tokens.write(value, kwargs),
            'deserialize': lambda self, value, **kwargs: tokens.read(value, kwargs)})
    elif node['reads'] == 'plain':
        plain = base('')
        node['asked'] = style != 'value'

        def convert(val, kwargs):
            tokens.in_calls.append(kwargs)
            return plain.deserialize(val)
        options['deserializer'] = tokens.func(style, convert)
    return base(*args, **options)


def raise_to(node, raw):
    """The value to assign"""
    import datetime
    kind = node['kind']
    if kind == 'leaf':
        return datetime.datetime(2001, 1, raw) if node['type'] == 'DateTime' else raw
    if kind == 'union':
        return raise_to(node['kid'], raw)
    if kind == 'object':
        return node['class'](val=raise_to(node['kid'], raw))
    if kind == 'dict':
        return {raise_to(node['key'], k): raise_to(node['kid'], v) for k, v in raw}
    if kind == 'array':
        return [float(v) for v in raw]
    items = [raise_to(node['kid'], v) for v in raw]
    return {'list': list, 'tuple': tuple, 'set': set}[kind](items)


def visit(ctx, node, val, data, tokens, counts, include):
    """Compare the JSON form with the value; counts the calls that have to have been made"""
    kind = node['kind']
    if node['writes']:
        counts['out'] += 1
        counts['in'] += 1
        ctx.check(isinstance(data, str) and data.startswith('tok'),
                  '%s written as %r without its function', kind, data)
        held = tokens.values[int(data[3:])]
        ctx.check(type(held) is type(val) and (held is val or repr(held) == repr(val)),
                  'the function of %s got %r, not %r', kind, held, val)
        return
    if kind == 'leaf':
        counts['in'] += node['reads'] == 'plain'
        want = properties.__dict__[node['type']]('').serialize(val)
        ctx.check(type(data) is type(want) and data == want, '%r written as %r', val, data)
    elif kind == 'array':
        ctx.check(data == list(val), '%r written as %r', val, data)
    elif kind == 'union':
        visit(ctx, node['kid'], val, data, tokens, counts, include)
    elif kind == 'object':
        ctx.check(set(data) == {'val'} | ({'__class__'} if include else set()),
                  'object written as %r', data)
        visit(ctx, node['kid'], val.val, data['val'], tokens, counts, include)
    elif kind == 'dict':
        ctx.check(type(data) is dict and len(data) == len(val), '%r written as %r', val, data)
        for (key, item), (key_data, item_data) in zip(val.items(), data.items()):
            visit(ctx, node['key'], key, key_data, tokens, counts, include)
            visit(ctx, node['kid'], item, item_data, tokens, counts, include)
    else:
        ctx.check(type(data) is list and len(data) == len(val), '%r written as %r', val, data)
        for item, item_data in zip(val, data):
            visit(ctx, node['kid'], item, item_data, tokens, counts, include)


def picture(node, val):
    """A comparable form of a value"""
    kind = node['kind']
    if kind == 'union':
        return picture(node['kid'], val)
    if kind == 'object':
        return (type(val).__name__, picture(node['kid'], val.val))
    if kind == 'dict':
        return sorted((repr(picture(node['key'], k)), repr(picture(node['kid'], v)))
                      for k, v in val.items())
    if kind == 'set':
        return sorted(repr(picture(node['kid'], v)) for v in val)
    if kind in ('list', 'tuple'):
        return [kind] + [picture(node['kid'], v) for v in val]
    return repr(list(val)) if kind == 'array' else repr(val)


@st.composite
def function_cases(draw):
    node = draw(places_of(draw(st.integers(1, 3))))
    return {'node': node, 'raw': draw(contents_of(node)),
            'options': draw(option_sets(['include_class', 'save_dynamic'])),
            'loading': draw(option_sets(['trusted', 'strict'])),
            'entry': draw(st.sampled_from(['object', 'object', 'property', 'copy']))}


def asked(ctx, calls, expected, what):
    for kwargs in calls:
        if kwargs is None:
            continue
        for name, val in expected.items():
            ctx.check(name in kwargs, 'a %s did not get %r', what, name)
            ctx.check(type(kwargs[name]) is type(val) and kwargs[name] == val,
                      'a %s got %s=%r, expected %r', what, name, kwargs[name], val)


@facet('functions', strategy=function_cases, quick=2200, shards=3)
def check_functions(case, ctx):
    """Functions and methods of every part, also keys, members and items"""
    node = copy.deepcopy(case['node'])
    options, loading = dict(case['options']), dict(case['loading'])
    tokens = Tokens()
    classes = []
    holder = type(properties.HasProperties)(str('Top'), (properties.HasProperties,), {
        'val': declare(node, tokens, classes)})
    top = holder(val=raise_to(node, case['raw']))
    val = top.val
    ctx.label(node['kind'])
    ctx.check(not tokens.out_calls and not tokens.in_calls, 'functions ran on assignment')
    counts = {'out': 0, 'in': 0}
    if case['entry'] == 'copy':
        loading.pop('strict', None)
        both = dict(options, **loading)
        got = properties.copy(top, **both)
        expected = dict(both, include_class=options.get('include_class', True))
        asked(ctx, tokens.out_calls, expected, 'serializer')
        asked(ctx, tokens.in_calls, dict(both, trusted=loading.get('trusted', True)),
              'deserializer')
        ctx.check(picture(node, got.val) == picture(node, val), 'copied %r as %r', val,
                  got.val)
        ctx.nontrivial(bool(tokens.out_calls))
        return
    if case['entry'] == 'property':
        data = holder._props['val'].serialize(val, **options)
    else:
        data = top.serialize(**options)
        include = options.get('include_class', True)
        ctx.check(set(data) == {'val'} | ({'__class__'} if include else set()),
                  'written %r', data)
        data = data['val']
    visit(ctx, node, val, data, tokens, counts, options.get('include_class', True))
    ctx.check(len(tokens.out_calls) == counts['out'], 'serializers ran %d times for %d values',
              len(tokens.out_calls), counts['out'])
    expected = dict(options, include_class=options.get('include_class', True))
    if case['entry'] == 'object':
        expected['save_dynamic'] = options.get('save_dynamic', False)
    # a method of its own, called directly, gets what it is called with
    direct = case['entry'] == 'property' and node['out'] == 'override'
    asked(ctx, tokens.out_calls, options if direct else expected, 'serializer')
    ctx.nontrivial(counts['out'] + counts['in'] > 0 and node['kind'] != 'leaf')
    del tokens.in_calls[:]
    if case['entry'] == 'property':
        got = holder._props['val'].deserialize(data, **loading)
        got = holder(val=got).val
    else:
        got = holder.deserialize({'val': data}, **loading).val
        loading.setdefault('strict', False)
    ctx.check(picture(node, got) == picture(node, val), 'loaded %r as %r from %r', val, got,
              data)
    ctx.check(len(tokens.in_calls) == counts['in'], 'deserializers ran %d times for %d values',
              len(tokens.in_calls), counts['in'])
    if not direct:
        loading.setdefault('trusted', False)
    asked(ctx, tokens.in_calls, loading, 'deserializer')


# ------------------------------------------------- functions that refuse

REFUSALS = {'value': ValueError, 'key': KeyError, 'attribute': AttributeError,
            'validation': properties.ValidationError, 'runtime': RuntimeError,
            'odd': ZeroDivisionError}


@st.composite
def refusing_cases(draw):
    options = draw(st.dictionaries(st.sampled_from(['alpha', 'include_class', 'trusted']),
                                   st.booleans()))
    return {'error': draw(st.sampled_from(sorted(REFUSALS))),
            'keywords': draw(st.booleans()),
            'out': draw(st.booleans()),
            'place': draw(st.sampled_from(['own', 'list', 'tuple', 'value', 'key', 'deep',
                                           'nested', 'observed'])),
            'items': draw(st.lists(st.integers(0, 9), min_size=1, max_size=5, unique=True)),
            'at': draw(st.integers(0, 5)), 'options': options}


@facet('refusing', strategy=refusing_cases, quick=800)
def check_refusing(case, ctx):
    """Functions that refuse run once, with the options, and their error is the one raised"""
    items, place, options = case['items'], case['place'], case['options']
    if place in ('own', 'nested', 'observed'):
        items = items[:1]
    bad = case['at'] if case['at'] < len(items) else None
    planned = REFUSALS[case['error']]('planned')
    calls = []

    def work(val, kwargs):
        calls.append((val, kwargs))
        if bad is not None and val == items[bad]:
            raise planned
        return val
    if case['keywords']:
        def func(val, **kwargs):
            return work(val, kwargs)
    else:
        def func(val):
            return work(val, None)
    leaf = properties.Integer('', **{'serializer' if case['out'] else 'deserializer': func})
    prop, value, stored = {
        'own': lambda: (leaf, items[0], items[0]),
        'observed': lambda: (leaf, items[0], items[0]),
        'nested': lambda: (leaf, items[0], items[0]),
        'list': lambda: (properties.List('', leaf), items, items),
        'tuple': lambda: (properties.Tuple('', leaf), tuple(items), items),
        'value': lambda: (properties.Dictionary('', value_prop=leaf),
                          {str(i): i for i in items}, {str(i): i for i in items}),
        'key': lambda: (properties.Dictionary('', key_prop=leaf),
                        {i: str(i) for i in items}, {i: str(i) for i in items}),
        'deep': lambda: (properties.List('', properties.List('', leaf)), [[], items], [[], items]),
    }[place]()
    heard = []
    body = {'val': prop}
    if place == 'observed':
        body['_hears'] = properties.observer('val')(lambda self, change: heard.append(change))
    cls = type(properties.HasProperties)('Holder', (properties.HasProperties,), body)
    top = cls
    if place == 'nested':
        top = type(properties.HasProperties)('Top', (properties.HasProperties,), {
            'kid': properties.Instance('', cls)})
        value, stored = {'kid': cls(val=value)}, {'kid': {'val': stored}}
    else:
        value, stored = {'val': value}, {'val': stored}
    ctx.nontrivial(bad is not None)
    ctx.label(case['error'] if bad is not None else 'accepted')
    if case['out']:
        obj = top(**value)
        run = lambda: obj.serialize(**options)                          # noqa: E731
        want = dict({'include_class': True, 'save_dynamic': False}, **options)
    else:
        run = lambda: top.deserialize(copy.deepcopy(stored), **options)  # noqa: E731
        want = dict({'trusted': False, 'strict': False}, **options)
    del heard[:]
    try:
        got, err = run(), None
    except Exception as caught:                                 # pylint: disable=broad-except
        got, err = None, caught
    expected = items if bad is None else items[:bad + 1]
    ctx.check([c[0] for c in calls] == expected, 'the function ran for %r, expected %r',
              [c[0] for c in calls], expected)
    if case['keywords']:
        for _, kwargs in calls:
            kwargs = {k: v for k, v in kwargs.items() if k in want}
            ctx.check(kwargs == want, 'the function got %r, expected %r', kwargs, want)
    if bad is None:
        ctx.check(err is None and got is not None, 'raised %r', err)
    else:
        ctx.check(err is planned, 'raised %r instead of the planned %r', err, planned)
    ctx.check(not heard, 'observers heard %r', heard)
