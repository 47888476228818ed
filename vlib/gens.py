"""Hypothesis strategies for property specs, class specs and values.

All strategies yield plain data (see values.py), so any case can be written to
a replay file."""
import functools
import math
import string

from hypothesis import strategies as st

from .csscolors import CSS, LETTERS
from .values import V

cached = functools.lru_cache(maxsize=None)

SPECIALS = [0, 1, -1, 2, 5, 10, 127, 128, 255, 256, 2 ** 31 - 1, 2 ** 31,
            2 ** 53, 2 ** 53 + 1, 2 ** 63, 10 ** 30, -2 ** 63]
FSPECIALS = [0.0, -0.0, 0.5, 1.0, 1.5, -1.5, 0.1, 1e-8, 1e-10, 1e300, -1e300,
             1e16, 5e-324, math.inf, -math.inf, math.nan, 1 / 3.0]


@cached
def small_ints():
    return st.integers(-20, 20)


@cached
def ints():
    return st.one_of(small_ints(), st.sampled_from(SPECIALS),
                     st.integers(-10 ** 6, 10 ** 6), st.integers())


@cached
def floats():
    return st.one_of(
        st.sampled_from(FSPECIALS), st.floats(),
        st.floats(-100, 100),
        st.builds(lambda i, d: i + d, st.integers(-50, 50),
                  st.sampled_from([1e-10, -1e-10, 1e-8, -1e-8, 3e-10, 1e-6, 0.0])))


@cached
def finite():
    return st.one_of(st.floats(-1e6, 1e6), st.integers(-50, 50).map(float),
                     st.sampled_from([0.0, -0.0, 0.1, 1e300, 5e-324, 1e-8]))


@cached
def nptypes():
    return st.one_of(
        st.builds(lambda t, v: V('np', t, v),
                  st.sampled_from(['int8', 'int16', 'int32', 'int64', 'uint8', 'uint64']),
                  st.integers(0, 127)),
        st.builds(lambda t, v: V('np', t, v),
                  st.sampled_from(['float64', 'float32', 'float16']),
                  st.one_of(st.integers(-100, 100).map(float),
                            st.sampled_from([0.5, 0.1, -2.25, math.inf, math.nan]))),
        st.builds(lambda v: V('np', 'bool', v), st.booleans()),
        st.builds(lambda v: V('np', 'complex128', v),
                  st.builds(complex, st.integers(-5, 5), st.integers(-5, 5))),
    )


@cached
def fractions_():
    return st.one_of(
        st.builds(lambda a, b: V('fraction', a, b), st.integers(-20, 20),
                  st.integers(1, 9)),
        st.builds(lambda a: V('decimal', a),
                  st.sampled_from(['1', '2.0', '2.5', '-3', 'NaN', '0', '1e400',
                                   'Infinity'])),
        st.builds(lambda v: V('sub', 'MyInt', v), st.integers(-5, 300)),
        st.builds(lambda v: V('sub', 'MyFloat', v), st.sampled_from([0.5, 2.0])),
    )


@cached
def complexes():
    return st.builds(complex, floats(), floats())


NUMTEXT = ['5', '-3', '1.5', ' 7 ', '1e3', 'nan', 'inf', '-inf', '', 'abc',
           '1_000', '0x10', '1+2j', '(1+2j)', 'True', '12345678901234567890',
           'infinity', '1.0', '--1', '1 2']


@cached
def numtext():
    return st.one_of(st.sampled_from(NUMTEXT), st.integers(-999, 999).map(str),
                     st.floats(allow_nan=False).map(repr))


@cached
def texts(max_size=20):
    return st.one_of(
        st.text(string.ascii_letters + ' .,-_', max_size=max_size),
        st.text(max_size=max_size),
        st.sampled_from(['', 'a', 'A', 'nan', 'None', 'true', 'x' * 120,
                         'ß', 'İ', 'ΑΣ', 'é', '\U0001f600', 'a\nb', ' a ',
                         '\x00', 'ﬁ', '123', '"quoted"', "it's"]))


def surrogate_free(text):
    return not any(0xD800 <= ord(c) <= 0xDFFF for c in text)


@cached
def json_texts(max_size=20):
    return texts(max_size).filter(surrogate_free)


@cached
def scalars():
    """Values of many kinds, as candidates for any property"""
    return st.one_of(
        st.none(), st.booleans(), ints(), floats(), texts(8), numtext(),
        complexes(), nptypes(), fractions_(),
        st.sampled_from([V('opaque'), V('truthless'), b'bytes', b'',
                         V('date', 2020, 1, 2), V('datetime', 2020, 1, 2, 3, 4, 5),
                         V('uuid', 7), 'red', '#ffF', 'random', [0, 0, 0],
                         '2020-01-02', '2020/01/02', '2020-01-02T03:04:05Z']),
    )


@cached
def junk():
    """Values of any kind, containers included"""
    return st.one_of(
        scalars(),
        st.lists(scalars(), max_size=3),
        st.lists(scalars(), max_size=3).map(tuple),
        st.dictionaries(st.one_of(json_texts(4), small_ints()), scalars(), max_size=2),
        st.sets(st.one_of(small_ints(), json_texts(3)), max_size=3),
        st.sampled_from([V('range', 3), V('frozenset', [1, 2]),
                         V('nparray', 'int64', [1, 2, 3]),
                         V('nparray', 'float64', [1.5, 2.0])]),
    )


# ---------------------------------------------------------------- specs

def bounds(values):
    return st.one_of(
        st.just({}), st.just({}),
        values.map(lambda v: {'min': v}), values.map(lambda v: {'max': v}),
        st.tuples(values, values).map(lambda t: {'min': min(t), 'max': max(t)}))


def merge(kind, *parts):
    def build(dicts):
        out = {'t': kind}
        for d in dicts:
            out.update(d)
        return out
    return st.tuples(*parts).map(build)


def flag(name, values=(True, False)):
    """Option present (with a value) or absent"""
    return st.sampled_from([{}] + [{name: v} for v in values])


BOUND_NUMBERS = st.one_of(small_ints(), st.sampled_from(
    [-1.5, 0.5, 2.25, 0.0, 100, -100, 2 ** 53]))


@cached
def integer_spec(cast=True):
    return merge('Integer', bounds(BOUND_NUMBERS),
                 flag('cast') if cast else st.just({})).map(_nonempty)


def _nonempty(spec):
    """Integer bounds with at least one integer between them"""
    if ('min' in spec and 'max' in spec and
            math.ceil(spec['min']) > math.floor(spec['max'])):
        spec = {k: v for k, v in spec.items() if k != 'max'}
    return spec


@cached
def float_spec(cast=True):
    return merge('Float', bounds(BOUND_NUMBERS),
                 flag('cast') if cast else st.just({}))


REGEXES = [None, None, None, '^[a-z]+$', 'a', '^$', '[0-9]{2}', '^A', 'b$',
           '^.{0,5}$', '(?i)abc']


@cached
def string_spec():
    return merge(
        'String',
        st.sampled_from([{}, {}, {'strip': ' '}, {'strip': 'a'}, {'strip': 'aB'},
                         {'strip': 'ab '}, {'strip': ''}]),
        st.sampled_from([{}, {}, {'change_case': 'upper'}, {'change_case': 'lower'},
                         {'change_case': None}]),
        st.sampled_from([{}, {}, {'unicode': False}, {'unicode': True}]),
        st.sampled_from(REGEXES).map(lambda r: {} if r is None else {'regex': r}))


@cached
def stable_string_spec():
    """String specs whose coerced values still match their own regex"""
    return string_spec().map(_stabilize)


def _stabilize(spec):
    if 'regex' in spec and ('strip' in spec or 'change_case' in spec):
        spec = {k: v for k, v in spec.items() if k != 'regex'}
    return spec


WORDS = ['red', 'green', 'blue', 'Alpha', 'BETA', 'x1', 'y', 'long choice name',
         'k9', 'Q', 'zz']


@cached
def choice_spec():
    def from_list(words):
        return {'t': 'StringChoice', 'choices': words}

    def from_dict(pair):
        words, cuts = pair
        out = {}
        rest = list(words)
        while rest:
            key = rest.pop(0)
            take = cuts.pop() if cuts else 0
            vals, rest = rest[:take], rest[take:]
            out[key] = vals[0] if take == 1 and len(vals) == 1 and cuts else vals
        return {'t': 'StringChoice', 'choices': out}
    words = st.lists(st.sampled_from(WORDS), min_size=1, max_size=7,
                     unique_by=lambda w: w.upper())
    return st.tuples(
        st.one_of(words.map(from_list),
                  st.tuples(words, st.lists(st.integers(0, 3), max_size=5)).map(from_dict)),
        flag('case_sensitive')).map(lambda t: dict(t[0], **t[1]))


@cached
def simple_spec(cast=True, stable=True):
    return st.one_of(
        integer_spec(cast), float_spec(cast),
        merge('Complex', flag('cast') if cast else st.just({})),
        merge('Boolean', flag('cast') if cast else st.just({})),
        stable_string_spec() if stable else string_spec(),
        choice_spec(), st.just({'t': 'Color'}), st.just({'t': 'DateTime'}))


@cached
def hashable_spec(cast=True):
    """Specs of values that can be in a set or be a dictionary key"""
    return st.one_of(
        integer_spec(cast), stable_string_spec(), choice_spec(),
        st.just({'t': 'Color'}), st.just({'t': 'DateTime'}),
        st.just({'t': 'Boolean'}))


@cached
def json_key_spec():
    """Specs of dictionary keys that survive JSON"""
    return st.one_of(
        integer_spec(False), stable_string_spec(), choice_spec(),
        st.just({'t': 'DateTime'}), st.just({'t': 'String'}))


@cached
def lengths():
    return st.one_of(
        st.just({}), st.just({}),
        st.integers(0, 4).map(lambda v: {'min_length': v}),
        st.integers(0, 4).map(lambda v: {'max_length': v}),
        st.tuples(st.integers(0, 3), st.integers(0, 3)).map(
            lambda t: {'min_length': min(t), 'max_length': max(t)}))


def container_spec(inner, hashable, keys, coerce=True, lengths_=None, observe=True):
    lens = lengths() if lengths_ is None else lengths_
    coe = flag('coerce') if coerce else st.just({})
    obs = flag('observe_mutations') if observe else st.just({})
    return st.one_of(
        merge('Tuple', coe, lens, inner.map(lambda s: {'prop': s})),
        merge('List', coe, lens, obs, inner.map(lambda s: {'prop': s})),
        merge('Set', coe, lens, obs, hashable.map(lambda s: {'prop': s})),
        merge('Dictionary', flag('coerce') if coerce else st.just({}), obs,
              keys.map(lambda s: {'key_prop': s}),
              inner.map(lambda s: {'value_prop': s})))


@cached
def any_spec(depth=2, classes=0, cast=True, coerce=True, unions=True,
             observe=True):
    """A spec nested up to depth; classes: how many classes may be referred to"""
    base = simple_spec(cast)
    if classes:
        base = st.one_of(base, st.integers(0, classes - 1).map(
            lambda i: {'t': 'Instance', 'cls': i}))
    if depth == 0:
        return base
    inner = any_spec(depth - 1, classes, cast, coerce, unions, observe)
    options = [base, container_spec(inner, hashable_spec(cast), hashable_spec(cast),
                                    coerce, observe=observe)]
    if unions:
        options.append(st.lists(inner, min_size=1, max_size=3).map(
            lambda ps: {'t': 'Union', 'props': ps}))
    return st.one_of(*options)


# ---------------------------------------------------------------- values

def flip(draw, text):
    return ''.join(c.swapcase() if draw(st.booleans()) else c for c in text)


@st.composite
def color_values(draw):
    pick = draw(st.integers(0, 6))
    if pick == 0:
        return draw(st.sampled_from(sorted(CSS) + sorted(LETTERS)))
    if pick in (1, 2):
        digits = draw(st.text('0123456789abcdefABCDEF', min_size=3, max_size=3)
                      if pick == 1 else
                      st.text('0123456789abcdefABCDEF', min_size=6, max_size=6))
        return draw(st.sampled_from(['', '#'])) + digits
    vals = draw(st.lists(st.integers(0, 255), min_size=3, max_size=3))
    return tuple(vals) if draw(st.booleans()) else vals


@st.composite
def datetimes(draw, naive=True):
    import datetime
    val = draw(st.datetimes(min_value=datetime.datetime(1, 1, 1),
                            max_value=datetime.datetime(9999, 12, 31)))
    args = list(val.timetuple()[:6])
    style = draw(st.integers(0, 3))
    if style == 0:
        return '%04d/%02d/%02d' % tuple(args[:3])
    if style == 1:
        return '%04d-%02d-%02d' % tuple(args[:3])
    if style == 2:
        return '%04d-%02d-%02dT%02d:%02d:%02dZ' % tuple(args)
    return V('datetime', *args)


def clamp_strategy(spec, integer):
    low, high = spec.get('min'), spec.get('max')
    if integer:
        low = None if low is None else math.ceil(low)
        high = None if high is None else math.floor(high)
        if low is not None and high is not None and low > high:
            return st.just(low)
        base = st.integers(low, high)
        near = [v for v in (low, high) if v is not None]
    else:
        base = st.floats(low, high, allow_nan=low is None and high is None)
        near = [float(v) for v in (low, high) if v is not None]
    return st.one_of(base, st.sampled_from(near)) if near else base


@st.composite
def string_values(draw, spec):
    regex = spec.get('regex')
    by_regex = {'^[a-z]+$': 'abc', 'a': 'xay', '^$': '', '[0-9]{2}': '42',
                '^A': 'Abc', 'b$': 'ab', '^.{0,5}$': 'hi', '(?i)abc': 'xABCx'}
    if regex:
        text = by_regex[regex]
    else:
        text = draw(json_texts(10))
    strip = spec.get('strip')
    if strip and not regex:
        text = draw(st.text(strip, max_size=3)) + text + draw(st.text(strip, max_size=3))
    if not regex and draw(st.integers(0, 5)) == 0:
        return V('sub', 'MyStr', text)
    return text


@st.composite
def valid_value(draw, spec, env_props=None, max_size=5):
    """A value that assigning to a property of this spec should accept

    env_props: callable(index) -> [(name, spec)] for Instance specs"""
    kind = spec['t']
    if kind == 'Integer':
        num = draw(clamp_strategy(spec, True))
        style = draw(st.integers(0, 6))
        if style == 0 and abs(num) < 2 ** 53:
            return float(num)
        if style == 1 and -128 <= num <= 127:
            return V('np', 'int8', num)
        if style == 2 and abs(num) < 2 ** 20 and num != 0:
            return num + 1e-10 * (1 if num > 0 else -1)     # away from zero
        if style == 3 and spec.get('cast'):
            return str(num)
        return num
    if kind == 'Float':
        num = draw(clamp_strategy(spec, False))
        style = draw(st.integers(0, 6))
        if style == 0 and num == num and abs(num) < 1e15 and num == int(num):
            return int(num)
        if style == 1:
            return V('np', 'float64', num)
        if style == 2 and spec.get('cast'):
            return repr(num)
        return num
    if kind == 'Complex':
        return draw(st.one_of(complexes(), finite(), small_ints()))
    if kind == 'Boolean':
        if spec.get('cast'):
            return draw(st.one_of(st.booleans(), small_ints(), texts(3)))
        return draw(st.one_of(st.booleans(), st.booleans().map(
            lambda v: V('np', 'bool', v))))
    if kind == 'String':
        return draw(string_values(spec))
    if kind == 'StringChoice':
        choices = spec['choices']
        words = []
        if isinstance(choices, dict):
            for key, alts in choices.items():
                words += [key] + (alts if isinstance(alts, list) else [alts])
        else:
            words = list(choices)
        word = draw(st.sampled_from(words))
        if not spec.get('case_sensitive'):
            word = flip(draw, word)
        return word
    if kind == 'Color':
        return draw(color_values())
    if kind == 'DateTime':
        return draw(datetimes())
    if kind == 'Any':
        return draw(st.one_of(ints(), json_texts(5), st.booleans()))
    if kind in ('Tuple', 'List', 'Set'):
        sub = spec.get('prop', {'t': 'Any'})
        low = spec.get('min_length', 0)
        high = spec.get('max_length', max(max_size, low))
        items = draw(st.lists(valid_value(sub, env_props, max_size),
                              min_size=low, max_size=high))
        style = draw(st.integers(0, 5))
        if kind == 'Set':
            if any(isinstance(i, list) for i in items):
                items = [tuple(i) if isinstance(i, list) else i for i in items]
            own = 'MySet'
            out = set(items)
        else:
            own = 'MyTuple' if kind == 'Tuple' else 'MyList'
            out = tuple(items) if kind == 'Tuple' else items
        if style == 0:
            return V('sub', own, out)
        if spec.get('coerce') and style == 1:
            return tuple(items)
        if spec.get('coerce') and style == 2:
            return list(items)
        return out
    if kind == 'Dictionary':
        keys = draw(st.lists(valid_value(spec.get('key_prop', {'t': 'Any'}),
                                         env_props, max_size), max_size=max_size))
        out = {}
        for key in keys:
            if isinstance(key, list):
                key = tuple(key)
            out[key] = draw(valid_value(spec.get('value_prop', {'t': 'Any'}),
                                        env_props, max_size))
        style = draw(st.integers(0, 5))
        if style == 0:
            return V('sub', 'MyDict', out)
        if style == 1 and spec.get('coerce'):
            return [(k, v) for k, v in out.items()]
        return out
    if kind == 'Union':
        return draw(valid_value(draw(st.sampled_from(spec['props'])), env_props,
                                max_size))
    if kind == 'Instance':
        values = {}
        for name, sub in env_props(spec['cls']):
            if draw(st.integers(0, 4)) > 0:
                values[name] = draw(valid_value(sub, env_props, max_size))
        if draw(st.booleans()):
            return V('inst', spec['cls'], values)
        return values
    raise KeyError(kind)


def candidate(spec, env_props=None, max_size=4):
    """A value to assign: valid, near-valid or junk"""
    return st.one_of(valid_value(spec, env_props, max_size),
                     valid_value(spec, env_props, max_size),
                     near(spec, env_props), junk())


@st.composite
def near(draw, spec, env_props=None):
    """Values close to the border of what a spec accepts"""
    kind = spec['t']
    if kind in ('Integer', 'Float'):
        edges = [spec[k] for k in ('min', 'max') if k in spec] or [0]
        edge = draw(st.sampled_from(edges))
        delta = draw(st.sampled_from([0, 1, -1, 1e-8, -1e-8, 1e-10, -1e-10, 0.5,
                                      -0.5, 1e-3, 2e-9, -2e-9]))
        val = edge + delta
        return draw(st.sampled_from([val, str(val), V('np', 'float64', float(val))]))
    if kind == 'Complex':
        return draw(st.one_of(numtext(), fractions_()))
    if kind == 'Color':
        digits = draw(st.text('0123456789abcdefgG+- _#xX', min_size=2, max_size=8))
        nums = draw(st.lists(st.one_of(st.integers(-2, 258), st.sampled_from(
            [0.0, '0', None, 255.0])), min_size=2, max_size=4))
        return draw(st.sampled_from([digits, '#' + digits, nums, tuple(nums),
                                     digits.replace('g', 'f')]))
    if kind == 'DateTime':
        return draw(st.sampled_from([
            '2020-13-01', '2020-02-30', '2020/02/29', '2021/02/29',
            '2020-01-02T24:00:00Z', '2020-01-02T03:04:05', '20-01-02', 'today',
            '2020-01-02T03:04:60Z', '2020-01-02 03:04:05Z', '', '0000-01-01',
            V('date', 2020, 1, 2), 20200102, 1.5]))
    if kind == 'StringChoice':
        word = draw(st.sampled_from(WORDS))
        return draw(st.sampled_from([word, word.upper(), word + ' ', word[:-1],
                                     word.swapcase()]))
    if kind == 'String':
        return draw(texts(8))
    if kind in ('Tuple', 'List', 'Set', 'Dictionary'):
        sub = spec.get('prop', spec.get('value_prop', {'t': 'Any'}))
        good = draw(st.lists(valid_value(sub, env_props, 2), max_size=4))
        bad = draw(junk())
        pos = draw(st.integers(0, len(good)))
        items = good[:pos] + [bad] + good[pos:]
        if kind == 'Dictionary':
            keys = draw(st.lists(valid_value(spec.get('key_prop', {'t': 'Any'}),
                                             env_props, 2),
                                 min_size=len(items), max_size=len(items)))
            keys = [tuple(k) if isinstance(k, list) else k for k in keys]
            return dict(zip(keys, items))
        return tuple(items) if draw(st.booleans()) else items
    if kind == 'Instance':
        values = {}
        for name, sub in env_props(spec['cls']):
            if draw(st.integers(0, 3)) > 0:
                values[name] = draw(st.one_of(valid_value(sub, env_props, 2), junk()))
        if draw(st.integers(0, 3)) == 0:
            values['zz_unknown'] = 1
        return values
    if kind == 'Union':
        return draw(near(draw(st.sampled_from(spec['props'])), env_props))
    return draw(junk())


# ---------------------------------------------------------------- classes

NAMES = ['alpha', 'beta', 'gamma', 'name', '_eps']


@st.composite
def class_specs(draw, count=3, depth=1, max_props=4, cast=True, coerce=True,
                unions=True, required=True, observe=True, inherit=True,
                spec_filter=None, names=NAMES):
    """A list of class specs; class i refers only to classes before it"""
    out = []
    for i in range(draw(st.integers(1, count))):
        chosen = draw(st.lists(st.sampled_from(names), min_size=1,
                               max_size=max_props, unique=True))
        props = []
        for name in chosen:
            spec = draw(any_spec(depth, i, cast, coerce, unions, observe))
            if spec_filter is not None:
                spec = spec_filter(spec)
            if required:
                req = draw(st.sampled_from([None, None, True, False]))
                if req is not None:
                    spec = dict(spec, required=req)
            props.append((name, spec))
        base = None
        if inherit and i and draw(st.integers(0, 3)) == 0:
            base = draw(st.integers(0, i - 1))
        out.append({'name': 'Cls%d' % i, 'props': props, 'base': base})
    return out


def props_of(specs):
    """callable(index) -> [(name, spec)] over plain class specs"""
    def props(index):
        spec = specs[index]
        own = dict(spec['props'])
        out = []
        if spec.get('base') is not None:
            out = [(n, s) for n, s in props(spec['base']) if n not in own]
        return out + list(spec['props'])
    return props


@st.composite
def instance_case(draw, specs, index, fill=0.8, max_size=4):
    """{name: value} for an instance of class index"""
    props = props_of(specs)
    values = {}
    for name, sub in props(index):
        if draw(st.floats(0, 1)) < fill:
            values[name] = draw(valid_value(sub, props, max_size))
    return values
