"""C17: generated class documentation"""
import re

import properties
from hypothesis import strategies as st

from vlib import gens, model
from vlib.harness import facet
from vlib.values import build

ID = 'C17'
RULE = ('random classes and subclasses with required, optional, immutable, dynamic, renamed '
        'and private properties of every type, docs, defaults, written docstrings, private '
        'documentation switched on and off and orders that fit or do not; the docstring is '
        'parsed back; non-trivial: at least two documented properties or an order')
FACETS = []
ASSUMPTIONS = ['which of several base classes an order comes from is not claimed, unless '
               'each of them has one that fits']

NAMES = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'Zeta', 'a1', '_hid', '_also']
GROUPS = ['Required', 'Optional', 'Other', 'Private']


@st.composite
def prop_case(draw):
    kind = draw(st.sampled_from(['mutable'] * 5 + ['gettable', 'dynamic', 'renamed']))
    doc = draw(st.text('abc XYZ.,:()`\'"é{}%', max_size=12))
    if kind != 'mutable':
        return kind, doc, {'t': 'Integer'}, None, None
    spec = draw(gens.any_spec(1))
    default = None
    if draw(st.booleans()):
        raw = draw(gens.valid_value(spec))
        default = (draw(st.sampled_from(['plain', 'callable'])), raw)
    return kind, doc, spec, draw(st.sampled_from([None, True, False])), default


@st.composite
def cases(draw):
    levels = []
    known = []
    for _ in range(draw(st.integers(1, 3))):
        own = {}
        for name in draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=5)):
            own[name] = draw(prop_case())
        known = sorted(set(known) | set(own))
        order = draw(st.sampled_from(['none'] * 4 + ['fit', 'fit', 'missing', 'extra',
                                                     'twice', 'None', 'text', 'set',
                                                     'public']))
        perm = draw(st.permutations(known))
        levels.append({
            'own': own, 'order': order, 'perm': list(perm),
            'form': draw(st.sampled_from(['list', 'tuple'])),
            'private': draw(st.sampled_from([None, None, None, True, False])),
            'doc': draw(st.one_of(st.none(), st.text('abc XY.\n:', max_size=15)))})
    return levels


def declare(name, case):
    kind, doc, spec, required, default = case
    if kind == 'gettable':
        return properties.GettableProperty(doc)
    if kind == 'renamed':
        return properties.Renamed('target', doc=doc)
    if kind == 'dynamic':
        def func(self):
            return 1
        func.__name__ = str(name)
        return properties.Integer(doc)(func)
    kwargs = {} if required is None else {'required': required}
    prop = model.make(dict(spec, doc=doc, **kwargs))
    if default is not None:
        prop.default = (lambda: build(default[1])) if default[0] == 'callable' else \
            build(default[1])
    return prop


@facet('class_docs', strategy=cases, quick=1500, shards=4)
def check_docs(case, ctx):
    meta = type(properties.HasProperties)
    cls = meta('Root', (properties.HasProperties,), {
        'target': properties.Integer('the target', required=False)})
    props = {'target': ('mutable', 'the target', {'t': 'Integer'}, False, None)}
    shown_private = False
    inherited = None
    for i, level in enumerate(case):
        own = {}
        for name, pcase in level['own'].items():
            if pcase[4] is not None:
                value = build(pcase[4][1])
                res = model.accept(pcase[2], value)
                if res[0] != 'ok' or value is None or '\n' in str(value):
                    pcase = pcase[:4] + (None,)
            own[name] = pcase
        body = {n: declare(n, p) for n, p in own.items()}
        if level['doc'] is not None:
            body['__doc__'] = level['doc']
        if level['private'] is not None:
            body['_doc_private'] = level['private']
        private = shown_private if level['private'] is None else level['private']
        now = dict(props, **own)
        documented = sorted(n for n in now if private or n[0] != '_')
        order, refused = None, False
        perm = level['perm'] + ['target']
        perm = [n for n in perm if n in documented]
        if level['order'] == 'none':
            if inherited is not None and sorted(inherited) == documented:
                order = inherited
        elif level['order'] == 'None':
            body['_doc_order'] = None
        else:
            value = {
                'fit': lambda: perm, 'missing': lambda: perm[:-1],
                'extra': lambda: perm + ['zz'], 'twice': lambda: perm + perm[:1],
                'text': lambda: ''.join(perm), 'set': lambda: set(perm),
                'public': lambda: [n for n in level['perm'] + ['target']
                                   if n[0] != '_']}[level['order']]()
            if isinstance(value, list):
                refused = sorted(value) != documented
                order = value
                value = tuple(value) if level['form'] == 'tuple' else value
            else:
                refused = True
            body['_doc_order'] = value
        ctx.nontrivial(len(documented) > 1)
        if refused:
            ctx.label('refused order')
            ctx.raises(AttributeError, lambda: meta('Cls', (cls,), body),
                       'order %r of %r' % (body['_doc_order'], documented))
            return
        cls = meta('Cls%d' % i, (cls,), body)
        props, shown_private = now, private
        inherited = order
        check_text(cls, level['doc'] or '', props, order or documented, ctx)


def group_of(name, pcase):
    if name[0] == '_':
        return 'Private'
    if pcase[0] != 'mutable':
        return 'Other'
    return 'Optional' if pcase[3] is False else 'Required'


def check_text(cls, written, props, order, ctx):
    text = cls.__doc__
    ctx.check(text.startswith(written), 'docstring %r does not start with %r', text, written)
    rest = text[len(written):]
    found = []
    for part in re.split(r'\n\n(?=\*\*(?:%s) Properties:\*\*\n\n)' % '|'.join(GROUPS), rest):
        if not part:
            continue
        head, _, body = part.partition('\n\n')
        match = re.match(r'^\*\*(\w+) Properties:\*\*$', head)
        ctx.check(match, 'unexpected text %r in %r', head, text)
        found.append((match.group(1), body.split('\n')))
    want = []
    for group in GROUPS:
        names = [n for n in order if group_of(n, props[n]) == group]
        if names:
            want.append((group, names))
    ctx.check([g for g, _ in found] == [g for g, _ in want], 'groups %r, expected %r in %r',
              [g for g, _ in found], [g for g, _ in want], text)
    for (group, lines), (_, names) in zip(found, want):
        got = [re.match(r'^\* \*\*(\w+)\*\*', line) for line in lines]
        ctx.check(all(got), 'unexpected lines %r', lines)
        got = [m.group(1) for m in got]
        ctx.check(got == names, '%s lists %r, expected %r', group, got, names)
        for name, line in zip(names, lines):
            check_line(cls, name, line, props[name], ctx)


def check_line(cls, name, line, pcase, ctx):
    kind, doc, spec, _, default = pcase
    prop = cls._props[name]
    ctx.check(': ' + doc in line, '%s is described as %r, its doc is %r', name, line, doc)
    info = prop.info
    if info:
        ctx.check(line.partition(': ' + doc)[2].find(info) >= 0,
                  '%s is described as %r, without %r', name, line, info)
    if kind == 'dynamic':
        ctx.check('dynamic' in line, 'dynamic %s described as %r', name, line)
    if spec['t'] == 'Instance':
        ctx.check('Instance' not in line, 'instance described as %r', line)
    shown = ''
    if default is not None:
        stored = build(default[1])
        if default[0] == 'callable':
            shown = ', Default: new instance of ' + type(stored).__name__
        else:
            shown = ', Default: {}'.format(stored)
        try:
            if len(stored) == 0:
                shown = ''
        except TypeError:
            pass
    if shown:
        ctx.check(line.endswith(shown), '%s is described as %r, expected %r at the end',
                  name, line, shown)
        ctx.label('default')
    elif spec['t'] != 'Union':
        ctx.check(', Default: ' not in line, '%s without default: %r', name, line)
    ctx.check('* ' + getattr(cls, name).__doc__ == line, 'attribute documented as %r',
              getattr(cls, name).__doc__)


# ------------------------------------------------- other declarations

@st.composite
def switch_cases(draw):
    return (draw(st.sampled_from([1, 'True', None, 0, [], True, False])),
            draw(st.booleans()))


@facet('private', strategy=switch_cases, quick=100, shards=1)
def check_private(case, ctx):
    value, sub = case
    meta = type(properties.HasProperties)
    body = {'_doc_private': value, '_hid': properties.Integer('hidden one'),
            'open': properties.Integer('open one')}
    ctx.nontrivial()
    if not isinstance(value, bool):
        ctx.raises(AttributeError, lambda: meta('Cls', (properties.HasProperties,), body),
                   '_doc_private %r' % (value,))
        return
    cls = meta('Cls', (properties.HasProperties,), body)
    if sub:
        cls = meta('Sub', (cls,), {})
    ctx.check(('hidden one' in cls.__doc__) is value, 'docs %r', cls.__doc__)
    ctx.check('open one' in cls.__doc__, 'docs %r', cls.__doc__)
    ctx.check(set(cls._props) == {'_hid', 'open'}, 'properties %r', cls._props)
    ctx.check(cls(_hid=3).serialize() == {'_hid': 3, '__class__': cls.__name__},
              'private value not serialized')


@st.composite
def base_cases(draw):
    bases = draw(st.lists(st.tuples(
        st.sampled_from([True, False, True, False, None]), st.booleans()),
        min_size=2, max_size=3))
    return {'bases': bases, 'own': draw(st.sampled_from([None, None, None, True, False])),
            'deep': draw(st.booleans())}


@facet('several_bases', strategy=base_cases, quick=300, shards=1)
def check_bases(case, ctx):
    """Of several bases, the first that says so decides on private documentation"""
    meta = type(properties.HasProperties)
    bases = []
    for i, (private, mixin) in enumerate(case['bases']):
        body = {}
        if private is not None:
            body['_doc_private'] = private
        # a plain mixin can say so too
        if mixin and private is None:
            bases.append(type('Mixin%d' % i, (object,), body))
            continue
        if private is None:
            body['_doc_private'] = private = False
        body['_hid%d' % i] = properties.Integer('hidden %d' % i)
        body['open%d' % i] = properties.Integer('open %d' % i)
        bases.append(meta('Base%d' % i, (properties.HasProperties,), body))
    if not any(issubclass(b, properties.HasProperties) for b in bases):
        return
    body = {'_hid': properties.Integer('hidden own'), 'open': properties.Integer('open own')}
    if case['own'] is not None:
        body['_doc_private'] = case['own']
    cls = meta('Cls', tuple(bases), body)
    said = [b.__dict__['_doc_private'] for b in bases if '_doc_private' in b.__dict__]
    shown = case['own'] if case['own'] is not None else said[0]
    if case['deep']:
        cls = meta('Deep', (cls,), {})
    ctx.nontrivial(len(set(said)) > 1)
    for name in cls._props:
        text = '* **%s**' % name
        ctx.check((text in cls.__doc__) is (shown or name[0] != '_'), '%s is%s documented: %r',
                  name, '' if text in cls.__doc__ else ' not', cls.__doc__)


# ------------------------------------------------- orders from several bases

@st.composite
def order_cases(draw):
    count = draw(st.integers(1, 5))
    names = ['p%d' % i for i in range(count)]
    perms = [list(p) for p in draw(st.lists(st.permutations(names), min_size=1, max_size=4))]
    return {'root': draw(st.sampled_from([None, 'perm'])), 'perm': list(draw(
        st.permutations(names))), 'perms': perms, 'tuples': draw(st.booleans()),
            'deep': draw(st.integers(0, 2)), 'added': draw(st.booleans())}


@facet('inherited_order', strategy=order_cases, quick=300, shards=1)
def check_inherited(case, ctx):
    """Bases with orders that fit: the first base counts; orders that do not fit are dropped"""
    meta = type(properties.HasProperties)
    body = {n: properties.Integer('num') for n in case['perm']}
    if case['root'] == 'perm':
        body['_doc_order'] = case['perm']
    root = meta('Root', (properties.HasProperties,), body)
    form = tuple if case['tuples'] else list
    bases = [meta('Base%d' % i, (root,), {'_doc_order': form(perm)})
             for i, perm in enumerate(case['perms'])]
    cls = meta('Cls', tuple(bases), {})
    want = case['perms'][0]
    ctx.nontrivial(len({str(p) for p in case['perms']}) > 1)
    for _ in range(case['deep']):
        cls = meta('Deep', (cls,), {})
    if case['added']:
        cls = meta('More', (cls,), {'extra': properties.Integer('num')})
        want = sorted(want + ['extra'])
    got = re.findall(r'^\* \*\*(\w+)\*\*', cls.__doc__, re.M)
    ctx.check(got == want, 'documented in the order %r, expected %r', got, want)
