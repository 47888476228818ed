"""C23: vector properties"""
import json
import math

import numpy as np
import properties
import vectormath
from hypothesis import strategies as st
from properties.math import ZeroDivValidationError

from checks.c22 import picture, same_number
from vlib import gens
from vlib.harness import facet

ID = 'C23'
RULE = ('the four vector types, with and without length, coercion and declared shapes; every '
        'direction name in random letter case and near misses of names; lists, tuples, arrays '
        '(strided, read-only, other types), vectors and mixtures of them near to the right '
        'shape; non-trivial: the value has vector shape or is a name, or the length matters')
FACETS = []
ASSUMPTIONS = ['a vector with nan has no direction: scaling it gives nan in every component',
               'numbers written as text, complex numbers and arrays that become vectors only by '
               'dropping sizes of one ((1, 3, 1), or (3,) for a list of vectors) are not claimed',
               'lists of no vectors at all ([]) are not claimed; arrays of shape (0, 3) are']

NAMES = {'ZERO': (0, 0, 0), 'X': (1, 0, 0), 'Y': (0, 1, 0), 'Z': (0, 0, 1), '-X': (-1, 0, 0),
         '-Y': (0, -1, 0), '-Z': (0, 0, -1), 'EAST': (1, 0, 0), 'WEST': (-1, 0, 0),
         'NORTH': (0, 1, 0), 'SOUTH': (0, -1, 0), 'UP': (0, 0, 1), 'DOWN': (0, 0, -1)}
FLAT = [n for n in sorted(NAMES) if n not in ('Z', '-Z', 'UP', 'DOWN')]
WRONG = ['', ' x', 'x ', '+x', 'xx', '--x', '- x', 'n', 'e', 'left', 'zeros', '0', 'NORTHEAST',
         'xy', '-up', '-zero', '-north', 'w', 'None', 'nan', 'x\n', 'XYZ', '-', 'origin']
KINDS = ['Vector3', 'Vector2', 'Vector3Array', 'Vector2Array']


def dim_of(spec):
    return 3 if '3' in spec['kind'] else 2


def many(spec):
    return spec['kind'].endswith('Array')


def names_of(spec):
    return sorted(NAMES) if dim_of(spec) == 3 else FLAT


@st.composite
def specs(draw):
    kind = draw(st.sampled_from(KINDS))
    shape = None
    if kind.endswith('Array') and draw(st.integers(0, 3)) == 0:
        shape = draw(st.lists(st.sampled_from(['*', 0, 1, 2, 3]), min_size=1, max_size=2,
                              unique=True))
    return {'kind': kind, 'shape': shape,
            'length': draw(st.sampled_from([None, None, 1, 1.0, 2, 0.5, 1e-3, 1234.5, True])),
            'coerce': draw(st.sampled_from(['default', 'default', True, False]))}


def make(spec, **kwargs):
    if spec['shape'] is not None:
        shapes = {(n, dim_of(spec)) for n in spec['shape']}
        kwargs['shape'] = shapes if len(shapes) > 1 else shapes.pop()
    if spec['length'] is not None:
        kwargs['length'] = spec['length']
    if spec['coerce'] != 'default':
        kwargs['coerce'] = spec['coerce']
    return getattr(properties, spec['kind'])('', **kwargs)


def wrapper(spec):
    return getattr(vectormath, spec['kind'])


@st.composite
def recase(draw, name):
    how = draw(st.integers(0, 3))
    if how < 3:
        return [name, name.lower(), name.title()][how]
    mask = draw(st.integers(0, 31))
    return ''.join(c.lower() if mask >> i & 1 else c for i, c in enumerate(name))


def component(spec, odd_too):
    exact = st.sampled_from([0.0, 0.0, 1.0, -1.0, 3.0, 4.0, -0.0, 0.1, 1e-30, 1e-50, 1e40,
                             -1e50, 12.5])
    odd = st.sampled_from([math.nan, math.inf, -math.inf, 1e-300, 1e300])
    huge = st.sampled_from([1e99, 1e101, 1e154, 1.4e154, -1e155, 1e200, 1.7e308, -1.7e308, 1e-99,
                            1e-101, 1e-154, 1e-160, 2.3e-162, -1e-162, 1e-200, 5e-324, 2e-308])
    parts = [exact, st.integers(-5, 5), st.floats(-1e6, 1e6), st.booleans(), exact,
             st.integers(-5, 5), huge]
    if spec['length'] is None:
        parts.append(odd)
    elif odd_too:
        parts.append(st.sampled_from([math.nan, math.nan, math.inf, -math.inf]))
    return st.one_of(*parts)


@st.composite
def numbers(draw, spec, size=None):
    """Components of one vector, sometimes of the wrong size"""
    if size is None:
        size = draw(st.sampled_from([dim_of(spec)] * 8 + [0, 1, 2, 3, 4]))
    if draw(st.integers(0, 9)) == 0:
        return [0] * size
    odd_too = draw(st.integers(0, 7)) == 0
    return [draw(component(spec, odd_too)) for _ in range(size)]


FORMS = ['list', 'list', 'tuple', 'array', 'array', 'vector', 'strided', 'readonly', 'float32',
         'scalars', 'int', 'view']


@st.composite
def singles(draw, spec):
    """One vector in some form"""
    kind = draw(st.sampled_from(['name', 'nums', 'nums', 'nums', 'wrong']))
    if kind == 'name':
        return {'v': 'name', 'n': draw(recase(draw(st.sampled_from(sorted(NAMES)))))}
    if kind == 'wrong':
        return {'v': 'name', 'n': draw(st.one_of(st.sampled_from(WRONG), st.text(max_size=4)))}
    return {'v': 'nums', 'd': draw(numbers(spec)), 'f': draw(st.sampled_from(FORMS))}


@st.composite
def values(draw, spec):
    odd = st.sampled_from(['none', 'int', 'dict', 'set', 'gen', 'bytes', 'nested', 'deep',
                           'none in', 'word in', 'object', 'tall', 'wide', 'cube']) \
        .map(lambda n: {'v': 'odd', 'n': n})
    if draw(st.integers(0, 9)) == 0:
        return draw(odd)
    if not many(spec):
        return draw(singles(spec))
    which = draw(st.integers(0, 5))
    if which == 0:
        return draw(singles(spec))
    count = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 0]))
    if which < 4:
        # an array or list with regular rows
        size = draw(st.sampled_from([dim_of(spec)] * 6 + [1, 2, 3, 4]))
        return {'v': 'rows', 'd': [draw(numbers(spec, size)) for _ in range(count)],
                'size': size, 'f': draw(st.sampled_from(FORMS))}
    good = names_of(spec) if draw(st.integers(0, 3)) else sorted(NAMES)
    items = []
    for _ in range(count):
        item = draw(singles(spec))
        if item['v'] == 'name' and draw(st.integers(0, 9)):
            item['n'] = draw(recase(draw(st.sampled_from(good))))
        if item['v'] == 'nums' and draw(st.integers(0, 9)):
            item['d'] = draw(numbers(spec, dim_of(spec)))
        items.append(item)
    return {'v': 'mixed', 'd': items, 'tuple': draw(st.booleans())}


def shaped(data, form, cls):
    """The numbers in the given form"""
    if form == 'list':
        return data
    if form == 'tuple':
        return tuple(tuple(d) if isinstance(d, list) else d for d in data)
    arr = np.array(data, dtype=float)
    if form == 'scalars' and arr.ndim == 1:
        return [np.float64(d) for d in data]
    if form == 'scalars':
        return [np.array(d, dtype=float) for d in data]
    if form == 'strided' and arr.ndim:
        big = np.zeros((arr.shape[0] * 2,) + arr.shape[1:])
        big[::2] = arr
        return big[::2]
    if form == 'readonly':
        arr.flags.writeable = False
        return arr
    if form == 'float32' and not np.any(np.abs(arr[np.isfinite(arr)]) > 1e5) and \
            not np.any((np.abs(arr) < 1e-5) & (arr != 0)):
        return arr.astype('float32')
    if form == 'int' and np.all(np.isfinite(arr)) and np.all(np.abs(arr) < 1e9):
        return arr.astype(int)
    if form in ('vector', 'view'):
        try:
            return arr.view(cls) if form == 'view' else cls(arr)
        except ValueError:
            return arr
    return arr


def build_single(case, spec):
    if case['v'] == 'name':
        return case['n']
    cls = vectormath.Vector3 if dim_of(spec) == 3 else vectormath.Vector2
    return shaped(list(case['d']), case['f'], cls)


def build_value(case, spec):
    if case['v'] in ('name', 'nums'):
        return build_single(case, spec)
    if case['v'] == 'rows':
        if not case['d']:
            return np.zeros((0, case['size']))
        return shaped([list(d) for d in case['d']], case['f'], wrapper(spec))
    if case['v'] == 'mixed':
        items = [build_single(c, spec) for c in case['d']]
        return tuple(items) if case['tuple'] else items
    dim = dim_of(spec)
    return {'none': None, 'int': 5, 'dict': {0: 1, 1: 2, 2: 3}, 'set': {1, 2, 3},
            'gen': iter([1, 2, 3]), 'bytes': b'xyz', 'nested': [[1] * dim, [1] * (dim - 1)],
            'deep': [[[1] * dim] * 2] * 2, 'none in': [1] * (dim - 1) + [None],
            'word in': [1] * (dim - 1) + ['left'], 'object': [object()] * dim,
            'tall': np.ones((dim, 2 if dim == 3 else 3)), 'wide': np.ones((2, dim + 1)),
            'cube': np.ones((2, 2, dim))}[case['n']]


def reference(value, spec):
    """The numbers expected in the property, None if refused, 'unclaimed'"""
    dim = dim_of(spec)
    plain = spec['coerce'] is False
    if plain and not isinstance(value, wrapper(spec)):
        return None

    def one(val, top):
        if isinstance(val, str):
            # letters that only become the letters of a name by changing case are not names
            if not val.isascii():
                return 'unclaimed' if val.upper() in NAMES else None
            return [float(n) for n in NAMES[val.upper()][:dim]] \
                if val.upper() in names_of(spec) else None
        if not isinstance(val, (list, tuple, np.ndarray)) or len(np.shape(val)) != 1 or \
                len(val) != dim:
            return None
        if any(isinstance(v, str) for v in val):
            return None
        if not all(isinstance(v, (int, float, np.number, np.bool_)) for v in val):
            return None
        return [float(v) for v in val]
    if not many(spec):
        if isinstance(value, np.ndarray) and value.ndim != 1:
            return None
        if isinstance(value, (list, tuple)) and any(isinstance(v, (list, tuple, np.ndarray))
                                                    for v in value):
            return None
        return one(value, True)
    if not isinstance(value, (list, tuple, np.ndarray)):
        return None
    if len(value) == 0 and not (isinstance(value, np.ndarray) and value.ndim == 2):
        return 'unclaimed'
    if isinstance(value, np.ndarray):
        if value.ndim != 2 or value.shape[1] != dim:
            # squeezed into a list of vectors by vectormath
            small = [n for n in value.shape if n != 1]
            if small == [dim] or (len(small) == 2 and small[1] == dim):
                return 'unclaimed'
            return None
        rows = [[float(v) for v in row] for row in value.tolist()]
    else:
        if all(isinstance(v, (int, float, np.number)) for v in value):
            return 'unclaimed' if len(value) == dim else None
        sizes = [np.shape(v) for v in value if not isinstance(v, str)]
        if len(sizes) == len(value) and len(set(sizes)) == 1:
            small = [n for n in (len(value),) + sizes[0] if n != 1]
            if len(sizes[0]) != 1 or sizes[0][0] != dim:
                if small == [dim] or (len(small) == 2 and small[1] == dim):
                    return 'unclaimed'
        rows = [one(v, False) for v in value]
        if any(r == 'unclaimed' for r in rows):
            return 'unclaimed'
        if any(r is None for r in rows):
            return None
    allowed = spec['shape'] or ['*']
    if '*' not in allowed and len(rows) not in allowed:
        return None
    return rows


def scaled(rows, spec):
    """The rows scaled to the length; 'zero' if there is a zero vector, None if
    there is one without a finite length"""
    if spec['length'] is None:
        return rows
    if not many(spec):
        rows = [rows]
    out = []
    if any(math.isinf(v) for row in rows for v in row if not any(map(math.isnan, row))):
        return None
    for row in rows:
        if any(map(math.isnan, row)):
            out.append([math.nan] * len(row))
            continue
        most = max((abs(v) for v in row), default=0)
        if most == 0:
            return 'zero'
        row = [v / most for v in row]
        size = math.sqrt(sum(v * v for v in row))
        out.append([v * (float(spec['length']) / size) for v in row])
    return out if many(spec) else out[0]


def close(one, two, spec):
    one, two = np.array(one, dtype=float).reshape(-1), np.array(two, dtype=float).reshape(-1)
    if one.shape != two.shape:
        return False
    if spec['length'] is None:
        return all(same_number(a, b) for a, b in zip(one.tolist(), two.tolist()))
    return bool(np.all((np.abs(one - two) <= 1e-11 * spec['length']) |
                       (np.isnan(one) & np.isnan(two))))


@st.composite
def cases(draw):
    spec = draw(specs())
    return spec, draw(values(spec)), draw(st.sampled_from(['validate', 'set', 'init', 'list',
                                                           'default', 'union']))


@facet('accept', strategy=cases, quick=4000, shards=4)
def check_accept(case, ctx):
    spec, raw, how = case
    probe = build_value(raw, spec)
    expected = reference(probe, spec)
    if expected == 'unclaimed':
        return
    wanted = scaled(expected, spec) if expected is not None else None
    ctx.label('refuse' if wanted is None else 'zero' if wanted == 'zero' else 'accept')
    ctx.label(how)
    ctx.nontrivial(wanted is not None or raw['v'] in ('name', 'rows', 'nums'))

    class Holder(properties.HasProperties):
        val = make(spec)
        vals = properties.List('', make(spec))
        uni = properties.Union('', [properties.Integer(''), make(spec)])

    def default_of(value):
        class Sub(properties.HasProperties):
            val = make(spec, default=value)
        return Sub().val

    def put(value):
        obj = Holder()
        if how == 'set':
            obj.val = value
            return obj.val
        if how == 'list':
            obj.vals = [value]
            return obj.vals[0]
        if how == 'union':
            obj.uni = value
            return obj.uni
        if how == 'default':
            return default_of(value)
        if how == 'init':
            return Holder(val=value).val
        return make(spec).validate(None, value)

    value = build_value(raw, spec)
    if value is None and how in ('set', 'init', 'default'):
        return
    if how == 'union' and (isinstance(value, int) and not isinstance(value, bool)):
        return
    before = picture(value)
    if wanted is None or wanted == 'zero':
        if how == 'default':
            if callable(value):
                return
            # refused when the class is made or when the object is
            ctx.raises((properties.ValidationError, TypeError), lambda: put(value),
                       'the default %r for %r' % (value, spec))
        else:
            error = ctx.raises(properties.ValidationError, lambda: put(value),
                               'assigning %r to %r' % (value, spec))
            if wanted == 'zero' and how in ('set', 'validate'):
                ctx.check(isinstance(error, ZeroDivValidationError) and
                          isinstance(error, ZeroDivisionError),
                          'scaling zero raised %r', error)
            elif how in ('set', 'validate'):
                ctx.check(not isinstance(error, ZeroDivisionError), 'refusing %r raised %r',
                          value, error)
        ctx.check(picture(value) == before, 'a refused input was modified: %r', value)
        return
    got = put(value)
    ctx.check(picture(value) == before, 'the input was modified: %r', value)
    ctx.check(isinstance(got, wrapper(spec)) and got.dtype.kind == 'f',
              '%r became %r', value, type(got))
    shape = (len(wanted), dim_of(spec)) if many(spec) else (dim_of(spec),)
    ctx.check(got.shape == shape, '%r became shape %r, expected %r', value, got.shape, shape)
    ctx.check(close(wanted, got.view(np.ndarray), spec), '%r became %r, expected %r', value, got,
              wanted)
    if spec['length'] is not None:
        norms = np.sqrt(np.sum(np.array(got, dtype=float) ** 2, axis=-1)).reshape(-1)
        norms = norms[~np.isnan(norms)]
        ctx.check(np.all(np.abs(norms - float(spec['length'])) <= 1e-11 * spec['length']),
                  'length %r instead of %r', norms, spec['length'])
    if spec['coerce'] is False and spec['length'] is None and how in ('set', 'init', 'validate'):
        ctx.check(got is value, 'without coercion the vector is kept as it is')
        return
    arrays = [value] if isinstance(value, np.ndarray) else \
        [v for v in value if isinstance(v, np.ndarray)]
    if spec['coerce'] is not False or spec['length'] is not None:
        ctx.check(not any(np.shares_memory(a, got) for a in arrays if a.size),
                  'the property shares memory with its input')
    # what is stored can be changed without effect on names or other objects
    if got.size and got.flags.writeable:
        got[...] = 77.0
        again = put(build_value(raw, spec))
        ctx.check(close(wanted, again.view(np.ndarray), spec),
                  'changing one vector changed the meaning of %r to %r', value, again)


@st.composite
def name_cases(draw):
    spec = draw(specs())
    spec['coerce'] = draw(st.sampled_from(['default', True]))
    spec['shape'] = None
    return spec, [draw(st.integers(0, 31)) for _ in range(13)]


@facet('names', strategy=name_cases, quick=250)
def check_names(case, ctx):
    """Every name, in a random letter case"""
    spec, masks = case

    class Holder(properties.HasProperties):
        val = make(spec)
    ctx.nontrivial()
    for (name, numbers_), mask in zip(sorted(NAMES.items()), masks):
        text = ''.join(c.lower() if mask >> i & 1 else c for i, c in enumerate(name))
        value = [text] if many(spec) else text
        good = name in names_of(spec)
        if not good or (name == 'ZERO' and spec['length'] is not None):
            error = ctx.raises(properties.ValidationError, lambda: setattr(Holder(), 'val', value),
                               'the name %r' % text)
            ctx.check(isinstance(error, ZeroDivisionError) == good,
                      'name %r raised %r', text, error)
            continue
        factor = 1.0 if spec['length'] is None else float(spec['length'])
        want = [n * factor for n in numbers_[:dim_of(spec)]]
        got = Holder(val=value).val
        got = np.array(got).reshape(-1).tolist()
        ctx.check(got == want, 'the name %r means %r, expected %r', text, got, want)


@st.composite
def json_cases(draw):
    spec = draw(specs())
    if many(spec):
        count = draw(st.integers(0, 4))
        if spec['shape'] and '*' not in spec['shape']:
            count = draw(st.sampled_from(spec['shape']))
        count = max(count, 1) if not (spec['shape'] and '*' not in spec['shape']) else count
        data = [draw(numbers(spec, dim_of(spec))) for _ in range(count)]
    else:
        data = draw(numbers(spec, dim_of(spec)))
    return spec, data, draw(st.booleans())


@facet('json', strategy=json_cases, quick=2500, shards=2)
def check_json(case, ctx):
    spec, data, nest = case
    if scaled([[float(v) for v in d] for d in data] if many(spec) else
              [float(v) for v in data], spec) in (None, 'zero'):
        return
    if many(spec) and not data:
        return

    class Holder(properties.HasProperties):
        val = make(spec)
        vals = properties.List('', make(spec), required=False)
        by_key = properties.Dictionary('', value_prop=make(spec), required=False)
    value = wrapper(spec)(np.array(data, dtype=float))
    obj = Holder(val=value)
    if nest:
        obj.vals = [value]
        obj.by_key = {'a': value}
    ctx.nontrivial()
    before = picture(obj.val)
    wrote = obj.serialize()
    ctx.check(picture(obj.val) == before, 'writing changed the vector')
    text = json.dumps(wrote, allow_nan=False)

    def written(val):
        if isinstance(val, list):
            return [written(v) for v in val]
        return val if math.isfinite(val) else \
            'nan' if math.isnan(val) else 'inf' if val > 0 else '-inf'
    ctx.check(wrote['val'] == written(obj.val.view(np.ndarray).tolist()), 'wrote %r for %r',
              wrote['val'], obj.val)
    if spec['coerce'] is False and many(spec) and obj.val.shape[0] == 0:
        return
    again = Holder.deserialize(json.loads(text), assert_valid=True)
    every = [again.val] + ([again.vals[0], again.by_key['a']] if nest else [])
    for got in every:
        ctx.check(isinstance(got, wrapper(spec)) and got.shape == obj.val.shape and
                  close(obj.val.view(np.ndarray), got.view(np.ndarray), spec),
                  '%r loaded as %r', obj.val, got)
    ctx.check(obj.validate() is True, 'the stored vector is not valid')
    if not np.any(np.isinf(np.array(obj.val))):
        ctx.check(properties.equal(obj, again), 'the loaded object is not equal')
    # the static form used by Property.from_json
    plain = [v for v in np.array(obj.val).reshape(-1).tolist()]
    if all(math.isfinite(v) for v in plain):
        static = type(make(spec)).from_json(json.loads(text)['val'])
        ctx.check(isinstance(static, wrapper(spec)) and
                  close(obj.val.view(np.ndarray), static.view(np.ndarray), spec),
                  'from_json made %r', static)


@st.composite
def declared(draw):
    return draw(st.sampled_from(KINDS)), draw(st.sampled_from(
        [0, 0.0, -1, -0.5, 'x', [1], 1, 2.5, True, False, 1e-300, 5j]))


@facet('declare', strategy=declared, quick=200)
def check_declare(case, ctx):
    """Lengths must be positive numbers"""
    kind, length = case
    make_it = lambda: getattr(properties, kind)('', length=length)  # noqa: E731
    ctx.nontrivial()
    good = isinstance(length, (int, float)) and length > 0
    if not good:
        ctx.raises(TypeError, make_it, 'declaring the length %r' % (length,))
    else:
        ctx.check(make_it().length == float(length), 'length reads %r', make_it().length)
    prop = make_it() if good else getattr(properties, kind)('')
    ctx.check(prop.dtype == (float,), 'dtype is %r', prop.dtype)
    dim = 3 if '3' in kind else 2
    if kind.endswith('Array'):
        ctx.check(prop.shape == {('*', dim)}, 'shape is %r', prop.shape)
        for bad in ((dim,), ('*', dim + 1), ('*', '*'), (2, dim, 1), {('*', dim), (dim, 1)}):
            ctx.raises(TypeError, lambda: getattr(properties, kind)('', shape=bad),
                       'declaring the shape %r' % (bad,))
    else:
        ctx.check(prop.shape == {(dim,)}, 'shape is %r', prop.shape)
