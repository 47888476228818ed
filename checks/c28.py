"""C28: declarations"""
import re

import properties
from hypothesis import strategies as st
from properties import extras

from vlib import gens, model
from vlib.harness import facet
from vlib.values import build

ID = 'C28'
RULE = ('every option of every property type with valid and wrong values, combined at random, '
        'in any keyword order, with contradictory limits, unknown, private and read-only '
        'keywords; defaults of random properties with valid and invalid values; random class '
        'bodies with renamed, observed and defaulted names; non-trivial: more than the bare '
        'declaration was given')
FACETS = []
ASSUMPTIONS = ['limits that are no numbers and options explicitly given as None are not claimed',
               'renaming to itself and names that differ from what is observed only by later '
               'attribute changes are not claimed']

P = properties


class Other(P.HasProperties):
    num = P.Integer('a number')


class WithUid(extras.HasUID):
    num = P.Integer('a number')


def plain_func(value, **kwargs):
    return value


def one_arg(value):
    return value


class Caller(object):

    def __call__(self, value, **kwargs):
        return value


CALLER = Caller()
PATTERN = re.compile('a')
INTS = P.Integer('an integer')
TEXTS = P.String('a text')
NOT_TEXT = [lambda: 1, lambda: None, lambda: b'x', lambda: ['a'], lambda: {}, lambda: True,
            lambda: object()]
NOT_BOOL = [lambda: 1, lambda: 0, lambda: None, lambda: 'True', lambda: [], lambda: 1.0]
NOT_CALLABLE = [lambda: 1, lambda: 'x', lambda: [], lambda: {}]
NOT_COUNT = [lambda: -1, lambda: 1.5, lambda: '1', lambda: [], lambda: 2.0]
NOT_PROP = [lambda: 1, lambda: 'x', lambda: int, lambda: Other(num=1), lambda: P.Integer,
            lambda: P.GettableProperty('no property'), lambda: [INTS]]
SAME = Ellipsis


def option(good, bad, check=None):
    """good: values; bad: factories of wrong values; check: what reads back"""
    return {'good': good, 'bad': bad, 'check': check or (lambda got, val: got is val or got == val)}


FLAG = option([True, False], NOT_BOOL, lambda got, val: got is val)
COMMON = {
    'name': option(['x', 'some_name', ''], NOT_TEXT),
    'serializer': option([plain_func, one_arg, str, CALLER], NOT_CALLABLE,
                         lambda got, val: callable(got) and got(3) in (3, '3')),
    'deserializer': option([plain_func, one_arg, str, CALLER], NOT_CALLABLE,
                           lambda got, val: callable(got) and got(3) in (3, '3')),
}
PROP = dict(COMMON, required=FLAG)
NUM = dict(PROP, cast=FLAG, min=option([-5, 0, 2, 0.5], []), max=option([10, 2.5, 3, 2], []))
TEXT = dict(PROP, strip=option([' ', '', 'ab'], NOT_TEXT),
            change_case=option(['upper', 'lower', None],
                               [lambda: 'UPPER', lambda: 'title', lambda: 1, lambda: True,
                                lambda: ['upper'], lambda: '']),
            unicode=FLAG,
            regex=option(['a', '^[a-z]+$', '', PATTERN],
                         [lambda: '[', lambda: '(', lambda: 1, lambda: None, lambda: ['a'],
                          lambda: object()],
                         lambda got, val: got is val or got.pattern == val))
CLASS_PROP = option([INTS, TEXTS, Other], NOT_PROP, lambda got, val: (
    got is val or (isinstance(got, P.Instance) and got.instance_class is val)))
SEQ = dict(PROP, prop=CLASS_PROP, coerce=FLAG,
           min_length=option([0, 1, 3], NOT_COUNT), max_length=option([3, 10, 4], NOT_COUNT))
MUT = dict(SEQ, observe_mutations=FLAG)


def shape_check(got, val):
    if val is None:
        return got is None
    return got == (val if isinstance(val, set) else {val})


SHAPES_BAD = [lambda: 3, lambda: [3], lambda: '*', lambda: ('*', 'x'), lambda: (1.5,),
              lambda: {(3,), 3}, lambda: {('*',), (None,)}, lambda: ('*', ('*',)), lambda: {}]
DTYPE = option([float, int, bool, (float,), (int, bool), [float, int]],
               [lambda: str, lambda: 'float', lambda: (), lambda: [], lambda: (float, str),
                lambda: None, lambda: object, lambda: 1],
               lambda got, val: got == (val if isinstance(val, (list, tuple)) else (val,)))
ARRAY = dict(PROP, coerce=FLAG, dtype=DTYPE,
             shape=option([('*',), (3,), ('*', '*'), {('*',), (2, 3)}, None, (), (0,)],
                          SHAPES_BAD, shape_check))
LENGTH = option([1, 2.5, 1e-3, 10 ** 6],
                [lambda: 0, lambda: -1, lambda: '1', lambda: None, lambda: 0.0, lambda: -2.5,
                 lambda: [1], lambda: 1j], lambda got, val: got == val and type(got) is float)
VECTOR = dict(PROP, coerce=FLAG, length=LENGTH)


def vectors(size):
    other = 5 - size
    return dict(VECTOR, shape=option(
        [('*', size), (4, size), {('*', size)}, {(1, size), (2, size)}],
        SHAPES_BAD + [lambda: ('*',), lambda: ('*', '*'), lambda: (size, '*'),
                      lambda: ('*', other), lambda: {('*', size), ('*', other)},
                      lambda: (2, 2, size), lambda: {('*', size), (size,)}], shape_check))


MODES = ['r', 'r+', 'rb', 'rb+', 'w', 'w+', 'wb', 'wb+', 'a', 'a+', 'ab', 'ab+']
BAD_MODES = [lambda: 'x', lambda: 'rt', lambda: '', lambda: 1, lambda: 'r ', lambda: 'R',
             lambda: 'b', lambda: ['r'], lambda: 'rb,wb']

# type -> (class, positional arguments as name -> option, keyword options, read-only keywords)
FILE = dict(PROP, valid_modes=option(
    [('rb', 'rb+'), ['rb'], {'rb', 'wb'}, 'rb', ('r', 'rb', 'ab+')],
    [lambda: ('wb',), lambda: ('rb', 'x'), lambda: 'wb', lambda: (), lambda: ('rb', 1),
     lambda: 1, lambda: ['r', 'ab']],
    lambda got, val: sorted(got) == sorted([val] if isinstance(val, str) else val)))
PNG = dict(PROP, valid_modes=option(
    [('rb', 'rb+'), ['rb'], {'rb', 'wb+'}, 'rb'],
    [lambda: ('rb+',), lambda: ('rb', 'r'), lambda: ('rb', 'wb'), lambda: ('r',), lambda: ()],
    lambda got, val: sorted(got) == sorted([val] if isinstance(val, str) else val)),
    filename=option(['a.png', ''], NOT_TEXT))
CHOICES_BAD = [
    lambda: 'abc', lambda: 1, lambda: None, lambda: ['a', 'a'], lambda: ['a', 'A'],
    lambda: ['a', 1], lambda: {'a': 1}, lambda: {'a': ['b', 1]}, lambda: {1: 'a'},
    lambda: {'a': 'a'}, lambda: {'a': ['b'], 'b': ['c']}, lambda: {'a': ['c'], 'b': ['C']},
    lambda: {'a': ['c', 'c']}, lambda: ('x', 'y', 'x'), lambda: {'a', 2}, lambda: [b'a'],
    lambda: {'a': None}, lambda: object(), lambda: {'a': ['b'], 'B': 'c'}]


def choices_check(got, val):
    if not isinstance(val, dict):
        return dict(got) == {v: [] for v in val}
    return {k: list(v) for k, v in got.items()} == {
        k: [v] if isinstance(v, str) else list(v) for k, v in val.items()}


CHOICE = dict(PROP, case_sensitive=FLAG, descriptions=option(
    [{'red': 'a colour', 'green': 'another'}],
    [lambda: {'red': 'x'}, lambda: {}, lambda: {'red': 'x', 'blue': 'y'}, lambda: ['red', 'green'],
     lambda: {'red': 'x', 'green': 1}, lambda: {'red': 'x', 'green': 'y', 'blue': 'z'}, lambda: 1,
     lambda: {'red': 'x', 'Green': 'y'}, lambda: {'red': 'x', 'green': None}]))


def type_table():
    doc = {'doc': option(['', 'some text'], NOT_TEXT)}

    def entry(cls, positional=None, options=PROP, fixed=('info', 'meta')):
        return cls, dict(doc, **(positional or {})), options, fixed
    boolean = dict(PROP, cast=FLAG)
    return [
        entry(P.GettableProperty, options=COMMON), entry(P.Property), entry(P.Boolean,
                                                                           options=boolean),
        entry(P.Integer, options=NUM), entry(P.Float, options=NUM),
        entry(P.Complex, options=boolean), entry(P.String, options=TEXT),
        entry(P.StringChoice, {'choices': option(
            [['red', 'green'], ('red', 'green')], CHOICES_BAD, choices_check)}, CHOICE),
        entry(P.StringChoice, {'choices': option(
            [{'a'}, {'a': 'b', 'c': ['d', 'e']}, {'a': [], 'b': ('x',)}, [],
             {'a': {'x'}, 'b': 'y'}], CHOICES_BAD, choices_check)}, dict(PROP,
                                                                        case_sensitive=FLAG)),
        entry(P.Color), entry(P.DateTime), entry(P.Uuid, options=COMMON),
        entry(P.File, {'mode': option(['rb'], BAD_MODES)}, FILE),
        entry(P.File, {'mode': option(MODES + [None], BAD_MODES)}, PROP),
        entry(P.ImagePNG, {'mode': option(['rb'], BAD_MODES + [
            lambda: 'r', lambda: 'wb', lambda: 'w+', lambda: 'ab', lambda: 'a'])}, PNG),
        entry(P.ImagePNG, {'mode': option(['rb', 'rb+', 'wb+', 'ab+'], BAD_MODES + [
            lambda: 'r', lambda: 'wb'])}, dict(PROP, filename=PNG['filename'])),
        entry(P.Array, options=ARRAY),
        entry(P.Vector3, options=VECTOR, fixed=('info', 'meta', 'shape', 'dtype')),
        entry(P.Vector2, options=VECTOR, fixed=('info', 'meta', 'shape', 'dtype')),
        entry(P.Vector3Array, options=vectors(3), fixed=('info', 'meta', 'dtype')),
        entry(P.Vector2Array, options=vectors(2), fixed=('info', 'meta', 'dtype')),
        entry(P.Tuple, options=SEQ), entry(P.List, options=MUT), entry(P.Set, options=MUT),
        entry(P.Dictionary, options=dict(PROP, key_prop=CLASS_PROP, value_prop=CLASS_PROP,
                                         coerce=FLAG, observe_mutations=FLAG)),
        entry(P.Instance, {'instance_class': option(
            [Other, int, dict, WithUid],
            [lambda: 1, lambda: 'Other', lambda: Other(num=1), lambda: None, lambda: INTS,
             lambda: [Other]])}, dict(PROP, auto_create=FLAG)),
        entry(P.Union, {'props': option(
            [[INTS, TEXTS], (TEXTS, Other), [Other], [WithUid, Other, INTS]],
            [lambda: INTS, lambda: Other, lambda: {INTS, TEXTS}, lambda: [INTS, 1], lambda: [int],
             lambda: 'props', lambda: None, lambda: [INTS, P.GettableProperty('x')],
             lambda: [P.Integer], lambda: {'a': INTS}],
            lambda got, val: len(got) == len(val) and all(
                g is v or (isinstance(g, P.Instance) and g.instance_class is v)
                for g, v in zip(got, val)))}, dict(PROP, strict_instances=FLAG)),
        entry(extras.URL, options=dict(TEXT, remove_parameters=option([True, False], []),
                                       remove_fragment=option([True, False], []))),
        entry(extras.Pointer, {'instance_class': option(
            [WithUid, Other], [lambda: 1, lambda: 'x', lambda: None])},
              dict(PROP, load=option([True, False], []),
                   uid_prop=option(['uid', 'num'], []))),
        entry(P.Renamed, {}, dict(COMMON, warn=FLAG)),
    ]


TYPES = type_table()
PAIRS = [('min', 'max'), ('min_length', 'max_length')]
UNKNOWN = ['nothing', 'Min', 'requird', 'shapes', 'x1', 'defualt', 'choice_s']
PRIVATE = ['_name', '_x', '__y', '_default', '_min', '_args']


def argument_order(cls):
    return {P.StringChoice: ['choices', 'case_sensitive'], P.File: ['mode'],
            P.ImagePNG: ['mode'], P.Instance: ['instance_class'], P.Union: ['props'],
            extras.Pointer: ['instance_class'], P.Renamed: []}.get(cls, [])


@st.composite
def options_cases(draw):
    which = draw(st.integers(0, len(TYPES) - 1))
    _, positional, options, fixed = TYPES[which]
    names = draw(st.lists(st.sampled_from(sorted(options)), unique=True, max_size=6))
    chosen = [(n, draw(st.integers(0, len(options[n]['good']) - 1))) for n in names]
    first = {n: draw(st.integers(0, len(opt['good']) - 1)) for n, opt in positional.items()}
    wrong = draw(st.one_of(st.none(), st.sampled_from(
        ['value', 'value', 'value', 'value', 'limits', 'unknown', 'private', 'fixed', 'terms',
         'doc'])))
    pick = draw(st.integers(0, 1000))
    return which, first, chosen, wrong, pick, draw(st.integers(0, 5))


@facet('options', strategy=options_cases, quick=4000, shards=4)
def check_options(case, ctx):
    which, first, chosen, wrong, pick, place = case
    cls, positional, options, fixed = TYPES[which]
    given = {n: positional[n]['good'][i] for n, i in first.items()}
    kwargs = [(n, options[n]['good'][i]) for n, i in chosen]
    limits = dict(kwargs)
    for low, high in PAIRS:
        if low in limits and high in limits and limits[low] > limits[high]:
            kwargs = [(n, v) for n, v in kwargs if n != low]
    expected_error = None
    if wrong == 'value':
        bad = sorted((n, i) for table in (positional, options) for n, opt in table.items()
                     for i in range(len(opt['bad'])) if n in positional or n in options)
        name, i = bad[pick % len(bad)]
        value = (positional if name in positional else options)[name]['bad'][i]()
        if name == 'choices' and dict(kwargs).get('case_sensitive') and i in (4, 11, 18):
            wrong = 'none'          # these differ by case only
            value = given[name]
        expected_error = TypeError if wrong == 'value' else None
        if name in positional:
            given[name] = value
            if name == 'choices':
                kwargs = [(n, v) for n, v in kwargs if n != 'descriptions']
        else:
            kwargs = [(n, v) for n, v in kwargs if n != name]
            kwargs.insert(place % (len(kwargs) + 1), (name, value))
    elif wrong == 'limits':
        pair = [p for p in PAIRS if p[0] in options]
        if pair:
            low, high = pair[0]
            kwargs = [(n, v) for n, v in kwargs if n not in pair[0]]
            top = pick % 7
            both = [(low, top + 1), (high, top)]
            if place % 2:
                both.reverse()
            kwargs[1:1] = both[:1]
            kwargs.append(both[1])
            expected_error = TypeError
    elif wrong == 'unknown':
        kwargs.insert(place % (len(kwargs) + 1), (UNKNOWN[pick % len(UNKNOWN)], 1))
        expected_error = AttributeError
    elif wrong == 'private':
        kwargs.insert(place % (len(kwargs) + 1), (PRIVATE[pick % len(PRIVATE)], 1))
        expected_error = AttributeError
    elif wrong == 'terms':
        kwargs.insert(place % (len(kwargs) + 1), ('terms', {'args': (), 'kwargs': {}}))
        expected_error = AttributeError
    elif wrong == 'fixed':
        kwargs.insert(place % (len(kwargs) + 1), (fixed[pick % len(fixed)], ('*', 3)))
        expected_error = AttributeError
    elif wrong == 'doc':
        given['doc'] = NOT_TEXT[pick % len(NOT_TEXT)]()
        expected_error = TypeError
    if cls is P.Renamed:
        doc = given.pop('doc')
        args = ['other']
        if wrong == 'doc':
            if pick % 2:
                kwargs.append(('doc', doc))
            else:
                args = [doc]
        elif expected_error is TypeError and not isinstance(doc, str):
            kwargs.append(('doc', doc))
    else:
        args = [given['doc']] + [given[n] for n in argument_order(cls) if n in given]
    kwargs = dict(kwargs)
    copies = {n: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v)
              for n, v in kwargs.items()}
    ctx.label('%s %s' % (cls.__name__, wrong))
    ctx.nontrivial(bool(kwargs) or expected_error is not None)
    if expected_error is not None:
        ctx.raises(expected_error, lambda: cls(*args, **kwargs),
                   '%s(%r, %r)' % (cls.__name__, args, kwargs))
        return
    prop = cls(*args, **kwargs)
    for name in sorted(positional):
        if name in given:
            ctx.check(positional[name]['check'](getattr(prop, name), given[name]),
                      '%s.%s reads back %r, declared %r', cls.__name__, name,
                      getattr(prop, name), given[name])
    for name, value in kwargs.items():
        ctx.check(options[name]['check'](getattr(prop, name), value),
                  '%s.%s reads back %r, declared %r', cls.__name__, name,
                  getattr(prop, name), value)
    ctx.check(prop.terms.args == tuple(args) and prop.terms.kwargs == copies
              and prop.terms.cls is cls, 'terms are %r', prop.terms)
    ctx.check(prop.terms.name == prop.name == kwargs.get('name', ''), 'name is %r', prop.name)
    ctx.check(isinstance(prop.info, str) and isinstance(prop.sphinx(), str), 'no description')
    for name in sorted(set(options) - set(kwargs)):
        if name in ('required', 'unicode'):
            ctx.check(getattr(prop, name) is True, '%s is %r', name, getattr(prop, name))
        elif name in ('cast', 'case_sensitive', 'auto_create', 'observe_mutations', 'load',
                      'strict_instances', 'remove_parameters', 'remove_fragment'):
            ctx.check(getattr(prop, name) is False, '%s is %r', name, getattr(prop, name))
        elif name in ('min', 'max', 'min_length', 'max_length', 'regex', 'change_case',
                      'serializer', 'deserializer', 'length', 'descriptions'):
            ctx.check(getattr(prop, name) is None, '%s is %r', name, getattr(prop, name))


# ---------------------------------------------------------------- limits

@st.composite
def limit_cases(draw):
    which = draw(st.sampled_from(sorted(
        i for i, t in enumerate(TYPES) if 'min' in t[2] or 'min_length' in t[2])))
    pair = PAIRS[0] if 'min' in TYPES[which][2] else PAIRS[1]
    if pair[0] == 'min':
        edges = st.one_of(st.integers(-3, 3), st.sampled_from([0.0, -0.5, 0.5, 1e-12, -1e300]),
                          st.integers(-10 ** 20, 10 ** 20))
    else:
        edges = st.one_of(st.integers(0, 3), st.integers(0, 10 ** 20))
    low, high = draw(edges), draw(edges)
    if draw(st.integers(0, 3)) == 0:
        high = low
    options = TYPES[which][2]
    others = draw(st.lists(st.sampled_from(sorted(set(options) - set(pair))), unique=True,
                           max_size=2))
    names = draw(st.permutations(list(pair) + others))
    return (which, low, high, names,
            draw(st.sampled_from(['keywords', 'keywords', 'first later', 'both later'])))


@facet('limits', strategy=limit_cases, quick=1200, shards=2)
def check_limits(case, ctx):
    """A lower limit above the upper one is refused whichever is given first"""
    which, low, high, names, how = case
    cls, positional, options, _ = TYPES[which]
    pair = PAIRS[0] if 'min' in options else PAIRS[1]
    values = {pair[0]: low, pair[1]: high}
    args = ['words'] + [positional[n]['good'][0] for n in argument_order(cls) if n in positional]
    kwargs = [(n, values.get(n, options[n]['good'][0] if n in options else None)) for n in names]
    first = [n for n in names if n in values][0]
    last = pair[1] if first == pair[0] else pair[0]
    ctx.nontrivial()
    ctx.label('%s %s' % (how, 'refused' if low > high else 'accepted'))
    made = []

    def declare():
        late = {'keywords': [], 'first later': [last], 'both later': [first, last]}[how]
        made.append(cls(*args, **dict((n, v) for n, v in kwargs if n not in late)))
        for name in late:
            setattr(made[0], name, values[name])
    if low > high:
        ctx.raises(TypeError, declare, '%s with %r' % (cls.__name__, kwargs))
        if made:
            ctx.check(getattr(made[0], last) is None, 'the refused limit is kept: %r',
                      getattr(made[0], last))
        return
    declare()
    for name in values:
        ctx.check(getattr(made[0], name) == values[name], '%s is %r', name,
                  getattr(made[0], name))


# ---------------------------------------------------------------- defaults

@st.composite
def default_cases(draw):
    spec = draw(gens.any_spec(draw(st.integers(0, 2))))
    value = draw(st.one_of(gens.valid_value(spec), gens.valid_value(spec), gens.candidate(spec),
                           gens.near(spec)))
    return (spec, value, draw(st.booleans()),
            draw(st.sampled_from(['keyword', 'keyword', 'class', 'subclass', 'own subclass',
                                  'gettable'])))


@facet('defaults', strategy=default_cases, quick=1500, shards=4)
def check_defaults(case, ctx):
    spec, value, wrapped, how = case
    value = build(value)
    if value is None or value is properties.undefined or callable(value):
        return
    expected = model.accept(spec, value)
    if expected is model.SKIP:
        ctx.label('skipped')
        return

    def default():
        return build(case[1])
    use = default if wrapped else value
    ctx.nontrivial()
    ctx.label('%s %s' % (how, 'refused' if expected is model.BAD else 'accepted'))
    registry = dict(P.HasProperties._REGISTRY)

    def declare():
        if how == 'keyword':
            class Holder(P.HasProperties):
                val = model.make(dict(spec, default=use))
        elif how == 'class':
            class Holder(P.HasProperties):
                _defaults = {'val': use}
                val = model.make(spec)
        elif how in ('subclass', 'own subclass'):
            class Base(P.HasProperties):
                val = model.make(spec)
            registry['Base'] = Base

            class Holder(Base):
                _defaults = {'val': use}
                if how == 'own subclass':
                    num = P.Integer('a number', default=3)
        else:
            class Holder(P.HasProperties):
                val = P.GettableProperty('fixed', default=use)
        return Holder
    if expected is model.BAD and how != 'gettable':
        ctx.raises((ValueError, TypeError) if how == 'keyword' else AttributeError, declare,
                   'default %r of %r' % (value, spec))
        ctx.check(dict(P.HasProperties._REGISTRY) == registry,
                  'a refused class is registered: %r',
                  set(P.HasProperties._REGISTRY) - set(registry))
        return
    cls = declare()
    ctx.check(P.HasProperties._REGISTRY.get('Holder') is cls, 'class not registered')
    obj = cls()
    if how == 'gettable':
        ctx.check(type(obj.val) is type(value), 'fixed value is %r', obj.val)
        return
    if "V('sub'" in repr(case[1]):
        return          # which container class a default has is not claimed
    ctx.check(model.same(expected[1], obj.val), 'default %r gave %r, not %r', value, obj.val,
              expected[1])


# ---------------------------------------------------------------- choices

SPELLINGS = st.sampled_from(['a', 'A', 'b', 'B', 'c', 'ab', 'Ab', 'd', 'e', 'f', ''])


@st.composite
def spelled_choices(draw):
    kind = draw(st.sampled_from(['list', 'tuple', 'set', 'dict', 'dict', 'dict']))
    if kind != 'dict':
        return kind, draw(st.lists(SPELLINGS, max_size=4)), draw(st.booleans()), None
    table = draw(st.dictionaries(SPELLINGS, st.one_of(
        SPELLINGS, st.lists(SPELLINGS, max_size=2), st.lists(SPELLINGS, max_size=2).map(tuple)),
        max_size=3))
    if draw(st.integers(0, 2)) == 0 and table:
        key = draw(st.sampled_from(sorted(table)))
        again = draw(st.sampled_from([key, key.upper(), key.swapcase()]))
        old = table[key]
        table[key] = again if isinstance(old, str) else list(old) + [again]
    described = None
    if draw(st.integers(0, 2)) == 0:
        described = draw(st.one_of(st.just(sorted(table)),
                                   st.lists(SPELLINGS, unique=True, max_size=3)))
    return kind, table, draw(st.booleans()), described


@facet('choices', strategy=spelled_choices, quick=2000, shards=1)
def check_choices(case, ctx):
    """Spellings that mean two choices are refused, others read back"""
    kind, given, sensitive, described = case
    value = {'list': list, 'tuple': tuple, 'set': set, 'dict': dict}[kind](given)
    if kind == 'dict':
        spelled = []
        for key, others in value.items():
            spelled += [key] + ([others] if isinstance(others, str) else list(others))
    else:
        spelled = list(value)
    if not sensitive:
        spelled = [text.upper() for text in spelled]
    good = len(spelled) == len(set(spelled))
    if described is not None and set(described) != set(value):
        good = False
    kwargs = {'case_sensitive': sensitive}
    if described is not None:
        kwargs['descriptions'] = {text: 'about ' + text for text in described}
    want = dict(value) if kind == 'dict' else value
    ctx.nontrivial(len(spelled) > 1)
    ctx.label('%s %s' % (kind, 'accepted' if good else 'refused'))
    if not good:
        ctx.raises(TypeError, lambda: P.StringChoice('', value, **kwargs),
                   'choices %r %r' % (value, kwargs))
        return
    prop = P.StringChoice('', value, **kwargs)
    ctx.check(choices_check(prop.choices, want), 'choices %r read back %r', want, prop.choices)
    for text in want:
        ctx.check(prop.validate(None, text) == text, '%r became %r', text,
                  prop.validate(None, text))


# ---------------------------------------------------------------- class bodies

NAMES = ['alpha', 'beta', 'gamma', 'delta', '_hidden']


@st.composite
def body_cases(draw):
    kinds = {}
    for name in draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=1, max_size=4)):
        kinds[name] = draw(st.sampled_from(['prop', 'prop', 'prop', 'fixed', 'dynamic']))
    inherited = draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=2))
    base = {n: draw(st.sampled_from(['prop', 'prop', 'fixed', 'fixed', 'dynamic', 'plain']))
            for n in inherited}
    some_name = st.sampled_from(draw(st.sampled_from([NAMES, sorted(set(kinds) | set(base))])))
    order = draw(st.sampled_from(['none', 'none', 'right', 'reversed', 'tuple', 'short', 'extra',
                                  'twice', 'text', 'mapping']))
    return {
        'kinds': kinds, 'base': base,
        'renamed': draw(st.lists(st.one_of(some_name, st.sampled_from(['missing', ''])),
                                 max_size=2)),
        'observed': draw(st.lists(st.lists(some_name, min_size=1, max_size=3), max_size=2)),
        'listener': draw(st.sampled_from(['observer', 'validator', 'change'])),
        'defaults': draw(st.dictionaries(st.one_of(some_name, st.just('missing')),
                                         st.sampled_from([1, 2, 'wrong']), max_size=2)),
        'private': draw(st.sampled_from([None, None, True, False, 1, 'yes'])),
        'order': order}


@facet('classes', strategy=body_cases, quick=1500, shards=3)
def check_classes(case, ctx):
    def prop_of(kind, name):
        if kind == 'prop':
            return P.Integer('number ' + name)
        if kind == 'fixed':
            return P.GettableProperty('fixed ' + name, default=7)
        if kind == 'plain':
            return 5

        def func(self):
            return 4
        func.__name__ = name
        return P.Integer('dynamic ' + name)(func)
    base_body = {n: prop_of(k, n) for n, k in case['base'].items()}
    base = type(P.HasProperties)(str('Base'), (P.HasProperties,), base_body)
    all_kinds = dict(case['base'], **case['kinds'])
    for i in range(len(case['renamed'])):
        all_kinds['old%d' % i] = 'renamed'
    props = {n for n, k in all_kinds.items() if k != 'plain'}
    problems = []
    body = {n: prop_of(k, n) for n, k in case['kinds'].items()}
    for i, target in enumerate(case['renamed']):
        body['old%d' % i] = P.Renamed(target)
        if target not in props:
            problems.append(TypeError)
    fired = []
    for i, names in enumerate(case['observed']):
        def listen(self, arg, i=i):
            fired.append((i, arg['name']))
        deco = {'observer': P.observer, 'validator': P.validator,
                'change': lambda names: P.observer(names, change_only=True)}[case['listener']]
        body['listen%d' % i] = deco(tuple(names))(listen)
        if any(all_kinds.get(n) != 'prop' for n in names):
            problems.append(TypeError)
    if case['defaults']:
        if any(all_kinds.get(n) in ('dynamic', 'fixed') for n in case['defaults']):
            raise model.Unclaimed()
        body['_defaults'] = dict(case['defaults'])
        for name, value in case['defaults'].items():
            if name not in props or value == 'wrong':
                problems.append(AttributeError)
    if case['private'] is not None:
        body['_doc_private'] = case['private']
        if not isinstance(case['private'], bool):
            problems.append(AttributeError)
    documented = sorted(n for n in props if case['private'] is True or n[0] != '_')
    order = case['order']
    if order != 'none':
        body['_doc_order'] = {
            'right': documented, 'reversed': documented[::-1], 'tuple': tuple(documented),
            'short': documented[1:], 'extra': documented + ['missing'],
            'twice': documented + documented[:1], 'text': 'alpha',
            'mapping': {n: 1 for n in documented}}[order]
        if order in ('extra', 'text', 'mapping') or (
                order in ('short', 'twice') and documented):
            problems.append(AttributeError)
    registry = dict(P.HasProperties._REGISTRY)
    ctx.nontrivial()
    if problems:
        ctx.label('refused')
        err = ctx.raises((TypeError, AttributeError), lambda: type(base)(
            str('Holder'), (base,), body), 'class %r' % case)
        ctx.check(type(err) in problems, 'raised %r, expected %r', err, problems)
        ctx.check(dict(P.HasProperties._REGISTRY) == registry, 'a refused class is registered')
        return
    ctx.label('accepted')
    cls = type(base)(str('Holder'), (base,), body)
    ctx.check(set(cls._props) == props, 'properties are %r, declared %r', set(cls._props), props)
    ctx.check(P.HasProperties._REGISTRY['Holder'] is cls, 'not registered')
    for name, prop in cls._props.items():
        if not isinstance(prop, P.Renamed):
            ctx.check(prop.name == name, '%s is named %r', name, prop.name)
    obj = cls()
    for name, kind in all_kinds.items():
        want = {'prop': case['defaults'].get(name), 'fixed': 7, 'plain': 5, 'dynamic': 4}
        if kind == 'renamed':
            continue
        ctx.check(getattr(obj, name) == want[kind], '%s is %r, not %r', name,
                  getattr(obj, name), want[kind])
    del fired[:]
    for name, kind in sorted(all_kinds.items()):
        if kind == 'prop':
            before = len(fired)
            setattr(obj, name, 9)
            ctx.check(fired[before:] == [
                (i, name) for i, names in enumerate(case['observed'])
                for n in names if n == name] or any(
                    len(set(n)) != len(n) for n in case['observed']),
                      'setting %s fired %r', name, fired[before:])


# ---------------------------------------------------------------- other declarations

def no_args():
    return 1


def two_args(self, value):
    return value


def named(count, name):
    func = {0: lambda: 1, 1: lambda self: 1, 2: lambda self, val: None,
            3: lambda self, val, more: None}[count]
    func.__name__ = name
    return func


def dynamic():
    return P.Integer('a number')(named(1, 'val'))


def holder(**kwargs):
    class Holder(P.HasProperties):
        num = P.Integer('a number')
        text = P.String('a text')
        fixed = P.GettableProperty('fixed', default=1)
        other = 5

        def method(self):
            pass
    return Holder(**kwargs)


TABLE = [
    # what, expected error or None, call
    ('dynamic ok', None, lambda: dynamic()),
    ('dynamic no args', TypeError, lambda: P.Integer('')(named(0, 'val'))),
    ('dynamic two args', TypeError, lambda: P.Integer('')(named(2, 'val'))),
    ('dynamic not callable', TypeError, lambda: P.Integer('')(5)),
    ('dynamic default', TypeError, lambda: P.Integer('', default=3)(named(1, 'val'))),
    ('dynamic union default', TypeError, lambda: P.Union('', [
        P.Integer('', default=1), P.String('')])(named(1, 'val'))),
    ('dynamic auto_create', TypeError, lambda: P.Instance(
        '', Other, auto_create=True)(named(1, 'val'))),
    ('dynamic list default', TypeError, lambda: P.List('', INTS, default=list)(named(1, 'val'))),
    ('setter ok', None, lambda: dynamic().setter(named(2, 'val'))),
    ('setter one arg', TypeError, lambda: dynamic().setter(named(1, 'val'))),
    ('setter three args', TypeError, lambda: dynamic().setter(named(3, 'val'))),
    ('setter other name', TypeError, lambda: dynamic().setter(named(2, 'other'))),
    ('setter not callable', TypeError, lambda: dynamic().setter('val')),
    ('deleter ok', None, lambda: dynamic().deleter(named(1, 'val'))),
    ('deleter two args', TypeError, lambda: dynamic().deleter(named(2, 'val'))),
    ('deleter other name', TypeError, lambda: dynamic().deleter(named(1, 'value'))),
    ('deleter not callable', TypeError, lambda: dynamic().deleter(None)),
    ('dynamic property of no property', TypeError,
     lambda: P.basic.DynamicProperty('', named(1, 'val'), int)),
    ('observer number', TypeError, lambda: P.observer(5)(two_args)),
    ('observer list with number', TypeError, lambda: P.observer(['num', 5])(two_args)),
    ('observer none in tuple', TypeError, lambda: P.observer(('num', None))(two_args)),
    ('validator set of bytes', TypeError, lambda: P.validator({b'num'})(two_args)),
    ('observer everything', None, lambda: P.observer(P.everything)(two_args)),
    ('observer set', None, lambda: P.observer({'num', 'text'})(two_args)),
    ('observer mode', TypeError, lambda: P.handlers.Observer('num', 'set')),
    ('observer mode none', TypeError, lambda: P.handlers.Observer('num', None)),
    ('instance observer number', TypeError, lambda: P.observer(holder(), 5, two_args)),
    ('disabled other', TypeError, lambda: P.listeners_disabled('set')),
    ('disabled list with other', TypeError, lambda: P.listeners_disabled(['validate', 'x'])),
    ('disabled number', TypeError, lambda: P.listeners_disabled(1)),
    ('disabled true', TypeError, lambda: P.listeners_disabled(True)),
    ('disabled mapping', TypeError, lambda: P.listeners_disabled({'validate': 1})),
    ('disabled ok', None, lambda: P.listeners_disabled('validate')),
    ('disabled tuple', None, lambda: P.listeners_disabled(('validate', 'observe_set'))),
    ('disabled set', None, lambda: P.listeners_disabled({'observe_change'})),
    ('disabled all', None, lambda: P.listeners_disabled()),
    ('link list', ValueError, lambda: P.directional_link(
        [holder(), 'num'], (holder(), 'num'))),
    ('link one', ValueError, lambda: P.directional_link((holder(),), (holder(), 'num'))),
    ('link three', ValueError, lambda: P.directional_link(
        (holder(), 'num', 1), (holder(), 'num'))),
    ('link class', ValueError, lambda: P.directional_link(
        (type(holder()), 'num'), (holder(), 'num'))),
    ('link plain', ValueError, lambda: P.directional_link((object(), 'num'), (holder(), 'num'))),
    ('link target plain', ValueError, lambda: P.directional_link(
        (holder(), 'num'), (object(), 'num'))),
    ('link number name', ValueError, lambda: P.directional_link(
        (holder(), 5), (holder(), 'num'))),
    ('link unknown', ValueError, lambda: P.directional_link(
        (holder(), 'nothing'), (holder(), 'num'))),
    ('link target unknown', ValueError, lambda: P.directional_link(
        (holder(), 'num'), (holder(), 'nothing'))),
    ('link self', ValueError, lambda: (lambda h: P.directional_link(
        (h, 'num'), (h, 'num')))(holder())),
    ('link transform', ValueError, lambda: P.directional_link(
        (holder(), 'num'), (holder(), 'num'), transform=5)),
    ('link transform args', ValueError, lambda: P.directional_link(
        (holder(), 'num'), (holder(), 'num'), transform=two_args)),
    ('link transform no args', ValueError, lambda: P.directional_link(
        (holder(), 'num'), (holder(), 'num'), transform=no_args)),
    ('link ok', None, lambda: P.directional_link(
        (holder(), 'num'), (holder(), 'num'), transform=one_arg)),
    ('mutual one', ValueError, lambda: P.link((holder(), 'num'))),
    ('mutual none', ValueError, lambda: P.link()),
    ('mutual transform', ValueError, lambda: P.link(
        (holder(), 'num'), (holder(), 'num'), transform=one_arg)),
    ('mutual unknown', ValueError, lambda: P.link((holder(), 'num'), (holder(), 'nothing'))),
    ('mutual ok', None, lambda: P.link((holder(), 'num'), (holder(), 'num'))),
    ('tag list', TypeError, lambda: P.Integer('').tag(['a'])),
    ('tag two', TypeError, lambda: P.Integer('').tag({'a': 1}, {'b': 2})),
    ('tag text', TypeError, lambda: P.Integer('').tag('a')),
    ('tag ok', None, lambda: P.Integer('').tag({'a': 1}, b=2)),
    ('keyword unknown', AttributeError, lambda: holder(nothing=1)),
    ('keyword fixed', AttributeError, lambda: holder(fixed=1)),
    ('keyword ok', None, lambda: holder(num=1, text='x')),
    ('reset unknown', AttributeError, lambda: holder()._reset('nothing')),
    ('reset fixed', AttributeError, lambda: holder()._reset('fixed')),
    ('reset ok', None, lambda: holder()._reset('num')),
    ('equal not objects', None, lambda: P.equal(1, 2)),
    ('equal one object', None, lambda: P.equal(holder(), 2)),
    ('copy not object', ValueError, lambda: P.copy(5)),
    ('copy class', ValueError, lambda: P.copy(Other)),
    ('copy ok', None, lambda: P.copy(holder(num=2))),
    ('load list', ValueError, lambda: Other.deserialize([1])),
    ('load text', ValueError, lambda: Other.deserialize('{}')),
    ('load other class', ValueError, lambda: Other.deserialize(
        {'__class__': 'Another'}, strict=True)),
    ('load unknown strictly', ValueError, lambda: Other.deserialize({'nothing': 1}, strict=True)),
    ('load ok', None, lambda: Other.deserialize({'num': 1}, strict=True)),
]


@facet('others', cases=lambda tier: [t[0] for t in TABLE], quick=80, shards=1)
def check_others(case, ctx):
    _, expected, call = [t for t in TABLE if t[0] == case][0]
    ctx.nontrivial()
    registry = dict(P.HasProperties._REGISTRY)
    if expected is None:
        call()
        return
    ctx.raises(expected, call, case)
    now = dict(P.HasProperties._REGISTRY)
    now.pop('Holder', None)
    registry.pop('Holder', None)
    ctx.check(now == registry, 'registry changed')
