"""C22: array properties"""
import json
import math

import numpy as np
import properties
import vectormath
from hypothesis import strategies as st

from vlib import gens
from vlib.harness import facet
from vlib.values import build

ID = 'C22'
RULE = ('random declarations (fixed sizes, wildcards, several shapes, any shape, types, '
        'coercion) against random arrays of up to four dimensions and thirteen types '
        '(strided, read-only, transposed, subclasses), nested lists and tuples (also ragged '
        'and mixed) and other values, near to an allowed shape; non-trivial: the value is an '
        'array or sequence with at least one dimension matching or the property refuses it')
FACETS = []
ASSUMPTIONS = ['an empty array loses the sizes after the first zero and its type in JSON, and '
               'integers above 2**63 become floats in numpy: not claimed',
               'complex arrays have no JSON']

DTYPES = ['float64', 'float32', 'float16', 'int64', 'int8', 'uint8', 'uint16', 'bool',
          'complex128', 'object', 'U', 'S', 'M8[s]']
KINDS = {'float': 'f', 'int': 'iu', 'bool': 'b', 'complex': 'c'}
TYPES = {'float': float, 'int': int, 'bool': bool, 'complex': complex}


@st.composite
def specs(draw):
    dim = st.sampled_from(['*', '*', 0, 1, 2, 3])
    one = st.lists(dim, max_size=4).map(tuple)
    shape = draw(st.one_of(
        st.just('default'), st.just('default'), st.none(), one, one,
        st.lists(one, min_size=1, max_size=3, unique=True)))
    dtype = draw(st.one_of(
        st.just('default'), st.just('default'),
        st.sampled_from(['float', 'int', 'bool', 'complex']),
        st.lists(st.sampled_from(sorted(KINDS)), min_size=1, max_size=3, unique=True)))
    return {'shape': shape, 'dtype': dtype,
            'coerce': draw(st.sampled_from(['default', True, True, False]))}


def make(spec, **kwargs):
    if spec['shape'] != 'default':
        kwargs['shape'] = set(spec['shape']) if isinstance(spec['shape'], list) \
            else spec['shape']
    if spec['dtype'] != 'default':
        kwargs['dtype'] = [TYPES[t] for t in spec['dtype']] \
            if isinstance(spec['dtype'], list) else TYPES[spec['dtype']]
    if spec['coerce'] != 'default':
        kwargs['coerce'] = spec['coerce']
    return properties.Array('', **kwargs)


def shapes_of(spec):
    """The allowed shapes; None: any"""
    if spec['shape'] == 'default':
        return [('*',)]
    if spec['shape'] is None:
        return None
    return spec['shape'] if isinstance(spec['shape'], list) else [spec['shape']]


def kinds_of(spec):
    names = ['float', 'int'] if spec['dtype'] == 'default' else \
        spec['dtype'] if isinstance(spec['dtype'], list) else [spec['dtype']]
    return ''.join(KINDS[n] for n in names)


@st.composite
def shape_near(draw, spec):
    shapes = shapes_of(spec)
    if shapes is None or draw(st.integers(0, 5)) == 0:
        return tuple(draw(st.lists(st.integers(0, 3), max_size=4)))
    base = [draw(st.integers(0, 3)) if d == '*' else d
            for d in draw(st.sampled_from(shapes))]
    twist = draw(st.integers(0, 7))
    if twist == 0:
        base.append(draw(st.integers(0, 2)))
    elif twist == 1 and base:
        base.pop(draw(st.integers(0, len(base) - 1)))
    elif twist == 2 and base:
        base[draw(st.integers(0, len(base) - 1))] += 1
    elif twist == 3:
        base.reverse()
    return tuple(base)


def number(kind):
    return {'f': st.one_of(gens.small_ints().map(float), st.sampled_from(
                [0.5, math.nan, math.inf, -math.inf, -0.0, 0.1, 1e10])),
            'i': gens.small_ints(), 'b': st.booleans(),
            'c': st.builds(complex, gens.small_ints(), gens.small_ints())}[kind]


@st.composite
def array_case(draw, spec, dtypes=DTYPES):
    shape = draw(shape_near(spec))
    dtype = draw(st.sampled_from(dtypes))
    size = int(np.prod(shape)) if shape else 1
    seed = draw(st.lists(number('f'), min_size=min(size, 4), max_size=min(size, 4)))
    form = draw(st.sampled_from(['plain', 'plain', 'fortran', 'strided', 'readonly',
                                 'reversed', 'sub', 'swapped']))
    return {'v': 'array', 'shape': shape, 'dtype': dtype, 'data': seed, 'form': form}


class SubArray(np.ndarray):
    pass


def build_array(case):
    shape, dtype = tuple(case['shape']), case['dtype']
    size = int(np.prod(shape)) if shape else 1
    seed = case['data'] or [0.0]
    flat = [seed[i % len(seed)] + (i // len(seed)) for i in range(size)]
    if dtype not in ('float64', 'float32', 'float16', 'complex128'):
        flat = [v if math.isfinite(v) and abs(v) < 120 else 7 for v in flat]
    if dtype in ('uint8', 'uint16'):
        flat = [abs(v) for v in flat]
    if dtype in ('U', 'S'):
        arr = np.array([str(v) for v in flat], dtype=dtype)
    elif dtype == 'M8[s]':
        arr = np.array([int(v) for v in flat], dtype='int64').astype(dtype)
    else:
        with np.errstate(all='ignore'):
            arr = np.array(flat, dtype='float64').astype(dtype)
    arr = arr.reshape(shape)
    form = case['form']
    if form == 'fortran' and arr.ndim:
        arr = np.asfortranarray(arr)
    elif form == 'strided' and arr.ndim:
        big = np.zeros((arr.shape[0] * 2,) + arr.shape[1:], dtype=arr.dtype)
        big[::2] = arr
        arr = big[::2]
    elif form == 'readonly':
        arr = arr.copy()
        arr.flags.writeable = False
    elif form == 'reversed' and arr.ndim:
        arr = arr[::-1]
    elif form == 'sub':
        arr = arr.view(SubArray)
    elif form == 'swapped' and arr.dtype.kind in 'fiu' and arr.dtype.itemsize > 1:
        arr = arr.astype(arr.dtype.newbyteorder('>'))
    return arr


@st.composite
def nested(draw, spec):
    """A nested list or tuple of some shape, sometimes ragged or mixed"""
    shape = draw(shape_near(spec)) or (draw(st.integers(0, 3)),)
    kinds = draw(st.sampled_from(['f', 'i', 'b', 'c', 'fi', 'ib', 'fb', 'bi', 'if']))
    odd = draw(st.sampled_from(['no'] * 6 + ['text', 'none', 'ragged', 'deep', 'nump',
                                             'arrays']))
    as_tuple = draw(st.integers(0, 3))
    state = {'n': 0}

    def leaf():
        state['n'] += 1
        return draw(number(kinds[state['n'] % len(kinds)]))

    def level(dims, depth):
        out = [level(dims[1:], depth + 1) if len(dims) > 1 else leaf()
               for _ in range(dims[0])]
        return tuple(out) if (as_tuple >> (depth % 2)) & 1 else out

    return {'v': 'nested', 'data': level(shape, 0), 'odd': odd,
            'at': draw(st.integers(0, 5))}


def spoil(data, odd, at):
    """Put something odd into a nested list"""
    if odd == 'no' or not isinstance(data, (list, tuple)) or not data:
        return data
    out = list(data)
    at %= len(out)
    if isinstance(out[at], (list, tuple)) and out[at] and odd != 'ragged':
        if odd == 'arrays':
            try:
                arr = np.array(out[at])
            except ValueError:
                return data
            if arr.dtype.kind in 'fiubc':
                out[at] = arr
            return type(data)(out)
        out[at] = spoil(out[at], odd, at)
    elif odd == 'text':
        out[at] = 'x'
    elif odd == 'none':
        out[at] = None
    elif odd == 'ragged' and isinstance(out[at], (list, tuple)):
        out[at] = list(out[at]) + list(out[at])[:1]
    elif odd == 'deep' and not isinstance(out[at], (list, tuple)):
        out[at] = [out[at]]
    elif odd == 'nump' and not isinstance(out[at], (list, tuple)):
        out[at] = np.float32(out[at].real)
    return type(data)(out)


OTHER = ['text', 'set', 'dict', 'int', 'float', 'none', 'range', 'gen', 'bytes', 'scalar',
         'memory', 'list of vectors', 'vector']


def build_other(name):
    return {'text': 'abc', 'set': {1, 2}, 'dict': {0: 1}, 'int': 5, 'float': 1.5,
            'none': None, 'range': range(3), 'gen': iter([1, 2]), 'bytes': b'ab',
            'scalar': np.float64(2), 'memory': memoryview(b'ab'),
            'list of vectors': [vectormath.Vector3(1, 2, 3)] * 2,
            'vector': vectormath.Vector3(1, 2, 3)}[name]


@st.composite
def cases(draw):
    spec = draw(specs())
    value = draw(st.one_of(array_case(spec), array_case(spec), nested(spec), nested(spec),
                           st.sampled_from(OTHER).map(lambda n: {'v': 'other', 'n': n})))
    return spec, value


def build_value(case):
    if case['v'] == 'array':
        return build_array(case)
    if case['v'] == 'nested':
        return spoil(build(case['data']), case['odd'], case['at'])
    return build_other(case['n'])


def shape_of(val):
    """(shape, element kinds) of nested sequences; None if ragged"""
    if isinstance(val, np.ndarray):
        kind = val.dtype.kind
        return val.shape, {kind if kind in 'fiubc' else 'O'}
    if isinstance(val, (list, tuple)):
        if not val:
            return (0,), set()
        inner = [shape_of(v) for v in val]
        if any(i is None for i in inner) or len({i[0] for i in inner}) > 1:
            return None
        return (len(val),) + inner[0][0], set().union(*[i[1] for i in inner])
    if isinstance(val, np.generic):
        return (), {val.dtype.kind}
    for kind, types in (('b', bool), ('i', int), ('f', float), ('c', complex)):
        if isinstance(val, types):
            return (), {kind}
    return (), {'O'}


def kind_of(kinds):
    if 'O' in kinds:
        return 'O'
    for kind in 'cf':
        if kind in kinds:
            return kind
    if not kinds:
        return 'f'
    return 'i' if kinds & set('iu') and kinds != {'u'} else 'u' if 'u' in kinds else 'b'


def accepts(spec, val):
    """(does the property accept it, shape, kind)"""
    if not isinstance(val, (list, tuple, np.ndarray)):
        return False, None, None
    if spec['coerce'] is False and not isinstance(val, np.ndarray):
        return False, None, None
    found = shape_of(val)
    if found is None:
        return False, None, None
    shape, kinds = found
    kind = kind_of(kinds)
    allowed = shapes_of(spec)
    fits = allowed is None or any(
        len(a) == len(shape) and all(x in ('*', y) for x, y in zip(a, shape))
        for a in allowed)
    return fits and kind in kinds_of(spec), shape, kind


def flat(val):
    if isinstance(val, np.ndarray):
        return val.reshape(-1).tolist() if val.ndim else [val.item()]
    if isinstance(val, (list, tuple)):
        return [x for v in val for x in flat(v)]
    return [val.item() if isinstance(val, np.generic) else val]


def same_number(one, two):
    if isinstance(one, complex) or isinstance(two, complex):
        one, two = complex(one), complex(two)
        return same_number(one.real, two.real) and same_number(one.imag, two.imag)
    if isinstance(one, float) and math.isnan(one):
        return isinstance(two, float) and math.isnan(two)
    return one == two and math.copysign(1, one) == math.copysign(1, two)


def picture(val):
    if isinstance(val, np.ndarray):
        return type(val).__name__, val.shape, str(val.dtype), val.tobytes(), \
            val.strides, val.flags.writeable
    if isinstance(val, (list, tuple)):
        return type(val).__name__, id(val), [picture(v) for v in val]
    return repr(val)


@facet('accept', strategy=cases, quick=4000, shards=4)
def check_accept(case, ctx):
    spec, raw = case

    class Holder(properties.HasProperties):
        val = make(spec)
    good, shape, kind = accepts(spec, build_value(raw))
    ctx.label('accept' if good else 'refuse')
    ctx.label(raw['v'])
    ctx.nontrivial(shape is not None)

    def by_set(value):
        obj = Holder()
        obj.val = value
        return obj.val

    for how in (make(spec).validate, by_set, lambda v: Holder(val=v).val):
        value = build_value(raw)
        before = picture(value)
        args = (None, value) if how.__name__ == 'validate' else (value,)
        if not good:
            ctx.raises(properties.ValidationError, lambda: how(*args),
                       'assigning %r to %r' % (value, spec))
            ctx.check(picture(value) == before, 'a refused input was modified: %r', value)
            continue
        got = how(*args)
        ctx.check(picture(value) == before, 'the input was modified: %r', value)
        if spec['coerce'] is False:
            ctx.check(isinstance(got, np.ndarray) and picture(got) == before,
                      'without coercion %r became %r', value, got)
            continue
        ctx.check(type(got) is np.ndarray, '%r became %r', value, type(got))
        ctx.check(got.shape == tuple(shape), '%r became an array of shape %r', value, got.shape)
        if isinstance(value, np.ndarray):
            ctx.check(got.dtype == value.dtype, 'type %s became %s', value.dtype, got.dtype)
        else:
            ctx.check(got.dtype.kind == kind, 'elements of kind %s became %s', kind, got.dtype)
        one, two = flat(value), flat(got)
        ctx.check(len(one) == len(two) and all(map(same_number, one, two)),
                  '%r became %r', value, got)
        arrays = [value] if isinstance(value, np.ndarray) else \
            [v for v in value if isinstance(v, np.ndarray)]
        ctx.check(not any(np.shares_memory(a, got) for a in arrays if a.size),
                  'the property shares memory with its input')
        ctx.check(got.size == 0 or got.flags.writeable, 'the array cannot be changed')
        if got.size:
            kept = got.tobytes()
            for arr in arrays:
                if arr.flags.writeable:
                    arr[...] = np.ones(1, dtype=arr.dtype)
            if isinstance(value, list):
                value.append(5)
            ctx.check(got.tobytes() == kept, 'a change of the input reached the property')


@st.composite
def json_cases(draw):
    spec = draw(specs())
    spec['coerce'] = draw(st.sampled_from(['default', True, False]))
    kinds = kinds_of(spec)
    dtypes = [d for d in DTYPES[:8] if np.dtype(d).kind in kinds]
    if not dtypes:
        spec['dtype'] = 'default'
        dtypes = ['float64', 'int64']
    value = draw(array_case(spec, dtypes))
    shapes = shapes_of(spec)
    if shapes is not None:
        value['shape'] = tuple(draw(st.integers(0, 3)) if d == '*' else d
                               for d in draw(st.sampled_from(shapes)))
    return spec, value, draw(st.booleans())


@facet('json', strategy=json_cases, quick=2500, shards=3)
def check_json(case, ctx):
    spec, raw, nest = case

    class Holder(properties.HasProperties):
        val = make(spec)
        vals = properties.List('', make(spec), required=False)
    value = build_array(raw)
    obj = Holder(val=value)
    if nest:
        obj.vals = [value, value]
    before = picture(obj.val)
    data = obj.serialize()
    ctx.check(picture(obj.val) == before, 'writing changed the array')
    text = json.dumps(data, allow_nan=False)
    back = json.loads(text)

    def expected(val):
        if isinstance(val, list):
            return [expected(v) for v in val]
        if isinstance(val, float) and not math.isfinite(val):
            return 'nan' if math.isnan(val) else 'inf' if val > 0 else '-inf'
        return val
    want = expected(value.tolist())
    ctx.check(data['val'] == want and repr(back['val']) == repr(data['val']),
              'wrote %r, expected %r', data['val'], want)
    empty = 0 in value.shape
    if empty:
        # sizes after the first zero are lost
        cut = value.shape[:value.shape.index(0) + 1]
        ctx.label('empty')
        if cut != value.shape:
            return
    ctx.nontrivial()
    again = Holder.deserialize(back, assert_valid=True)
    for got in [again.val] + (list(again.vals) if nest else []):
        ctx.check(type(got) is np.ndarray and got.shape == value.shape,
                  'loaded %r for %r', got, value)
        ctx.check(empty or got.dtype.kind == value.dtype.kind or
                  {got.dtype.kind, value.dtype.kind} <= set('iu'),
                  'type %s became %s', value.dtype, got.dtype)
        ctx.check(all(map(same_number, flat(value), flat(got))), '%r loaded as %r', value, got)
    if value.dtype.kind in 'iub' and not empty or value.dtype == 'float64':
        twin = Holder(val=np.array(value))
        if nest:
            twin.vals = [np.array(value), np.array(value)]
        ctx.check(properties.equal(twin, again), 'the loaded object is not equal')
    # plain numbers in JSON load like the list itself
    if isinstance(back['val'], list) and all(
            isinstance(v, (int, float)) for v in flat(back['val'])):
        loaded = make(spec).deserialize(back['val'])
        ctx.check(loaded.shape == value.shape or empty, 'loaded shape %r', loaded.shape)
    second = json.loads(json.dumps(again.serialize(), allow_nan=False))
    ctx.check(second == back or empty, 'written again: %r', second)


@st.composite
def equal_cases(draw):
    shape = tuple(draw(st.lists(st.integers(0, 3), max_size=3)))
    dtype = draw(st.sampled_from(['float64', 'float64', 'int64', 'bool', 'float32']))
    size = int(np.prod(shape)) if shape else 1
    vals = draw(st.lists(st.one_of(
        st.sampled_from([0.0, 1.0, -3.5, math.nan, math.inf, -math.inf, 1e6, 1e-12]),
        st.floats(-100, 100)), min_size=min(size, 5), max_size=min(size, 5)))
    change = draw(st.sampled_from(['none', 'tiny', 'tiny', 'big', 'big', 'nan', 'unnan', 'inf',
                                   'sign', 'shape', 'class', 'swap', 'shift', 'dtype', 'list']))
    return shape, dtype, vals, change, draw(st.integers(0, 40)), \
        draw(st.sampled_from([1e-10, 1e-9, -1e-10])), \
        draw(st.sampled_from([1e-6, 1e-3, 1.0, -5.0]))


@facet('equality', strategy=equal_cases, quick=2500, shards=2)
def check_equality(case, ctx):
    shape, dtype, vals, change, at, tiny, big = case
    one = build_array({'shape': shape, 'dtype': dtype, 'data': vals, 'form': 'plain'})
    two = one.copy()
    prop = properties.Array('', shape=None, dtype=(float, int, bool))
    expected = True
    flat_two = two.reshape(-1)
    at = at % two.size if two.size else 0
    ctx.label(change)
    if change in ('tiny', 'big', 'nan', 'unnan', 'inf', 'sign') and not two.size:
        return
    old = flat_two[at] if two.size else 0
    if change == 'tiny':
        if dtype != 'float64' or not math.isfinite(old):
            return
        flat_two[at] = old + tiny
        expected = True
    elif change == 'big':
        if dtype == 'bool':
            flat_two[at] = not old
        elif dtype == 'int64':
            flat_two[at] = old + 1 + abs(old) // 10
        else:
            if not math.isfinite(old):
                return
            flat_two[at] = old + big * max(1, abs(old))
            if dtype == 'float32' and abs(big) < 1e-3:
                return
            if abs(big) * max(1, abs(old)) <= 1e-9 + 2e-5 * max(1, abs(old) * (1 + abs(big))):
                return
        expected = False
    elif change == 'nan':
        if one.dtype.kind != 'f':
            return
        expected = bool(math.isnan(old))
        flat_two[at] = math.nan
    elif change == 'unnan':
        if one.dtype.kind != 'f' or not math.isnan(old):
            return
        flat_two[at] = 0
        expected = False
    elif change == 'inf':
        if one.dtype.kind != 'f':
            return
        expected = old == math.inf
        flat_two[at] = math.inf
    elif change == 'sign':
        if one.dtype.kind != 'f' or not math.isinf(old):
            return
        flat_two[at] = -old
        expected = False
    elif change == 'shape':
        two = two[None]
        expected = False
    elif change == 'class':
        two = two.view(SubArray)
        expected = False
    elif change == 'list':
        two = two.tolist()
        expected = False
    elif change == 'swap':
        two = two[::-1] if two.ndim else two
        expected = all(map(same_number, flat(one), flat(two)))
        if not expected and any(abs(a - b) < 1e-3 * max(1, abs(a), abs(b)) and a != b
                                for a, b in zip(flat(one), flat(two))
                                if math.isfinite(a) and math.isfinite(b)):
            return
        if not expected and {repr(v) for v in flat(one)} >= {'0.0', '-0.0'}:
            return
    elif change == 'shift':
        # nan moves by one place, the numbers keep their order
        if one.dtype.kind != 'f':
            return
        gaps = np.isnan(flat_two)
        places = [i for i in range(1, len(gaps)) if gaps[i] != gaps[i - 1]]
        if not places:
            return
        i = places[at % len(places)]
        flat_two[[i - 1, i]] = flat_two[[i, i - 1]]
        expected = False
    elif change == 'dtype':
        if dtype != 'int64':
            return
        two = two.astype('float64')
    if one.shape != () and 0 in one.shape and change in ('shape',) and not two.size:
        # empty arrays of other shapes
        pass
    kept = picture(one), picture(two)
    ctx.nontrivial()
    with np.errstate(all='ignore'):
        for a, b in ((one, two), (two, one)):
            got = prop.equal(a, b)
            ctx.check(bool(got) == expected, 'equal(%r, %r) is %r, expected %r', a, b, got,
                      expected)
    ctx.check((picture(one), picture(two)) == kept, 'comparing changed an array')
    if isinstance(two, np.ndarray) and type(two) is np.ndarray:
        class Holder(properties.HasProperties):
            val = properties.Array('', shape=None, dtype=(float, int, bool))
        changes = []
        obj = Holder(val=one)
        properties.observer(obj, 'val', lambda o, c: changes.append(1), change_only=True)
        obj.val = two
        ctx.check(bool(changes) != expected, 'a change from %r to %r notified %r', one, two,
                  changes)
        ctx.check(properties.equal(Holder(val=one), obj) == expected,
                  'objects with %r and %r compare wrong', one, two)
