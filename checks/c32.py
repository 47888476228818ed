"""C32: property types defined by users"""
import copy
import json

import properties
from hypothesis import strategies as st

from vlib.harness import facet

ID = 'C32'
RULE = ('random custom property types (own validation and coercion, own equality, own JSON, '
        'fixed or computed description, own options, own default, derived from each other) '
        'used directly, in every container, in unions, nested instances, as dynamic, '
        'renamed and immutable properties; histories of assignments, refusals, deletions, '
        'in-place damage, copies and loads are compared with a model of the custom type; '
        'non-trivial: a value was coerced or refused inside a container, union or '
        'instance, or two different values counted as equal')
ASSUMPTIONS = ['custom types follow the documentation: they refuse through self.error, accept '
               'their own values unchanged and keep equality reflexive']
FACETS = []


class Value(object):
    """The values of custom types: never to be compared with =="""

    def __init__(self, num):
        self.num = num

    def __eq__(self, other):
        if self is other:
            return True
        raise AssertionError('compared with == instead of the equal method')

    def __ne__(self, other):
        raise AssertionError('compared with != instead of the equal method')

    __hash__ = object.__hash__

    def __repr__(self):
        return '<Value %s>' % self.num


JSON = {'dict': (lambda n: {'n': n}, lambda j: j['n']),
        'list': (lambda n: [n, None], lambda j: j[0]),
        'text': (lambda n: 'v%d' % n, lambda j: int(j[1:])),
        'number': (lambda n: n + 0.5, lambda j: int(j // 1))}


# every method is overridden, so it does not matter which of these is extended
BASES = ['Property', 'Property', 'Integer', 'Float', 'String', 'Boolean', 'Complex',
         'DateTime', 'Color']


def make_type(spec, base=None):
    """The custom property class for a spec"""
    if base is None:
        base = getattr(properties, spec['base'])
    body = {}
    write, read = JSON[spec['json']]
    if spec['info'] == 'class' and spec['base'] == 'String':
        body['info'] = property(lambda self: 'a multiple value')
    elif spec['info'] == 'class':
        body['class_info'] = 'a multiple value'
    else:
        body['info'] = property(lambda self: 'a multiple of %d' % self.step)

    def get_step(self):
        return getattr(self, '_step', spec['step'])

    def set_step(self, value):
        if not isinstance(value, int):
            raise TypeError('step must be a number')
        self._step = value

    body['step'] = property(get_step, set_step)

    def validate(self, instance, value):
        if isinstance(value, Value):
            if type(value.num) is int and value.num % self.step == 0:
                return value
        elif type(value) is int and value % self.step == 0:
            return Value(value)
        elif spec['text'] and isinstance(value, str) and value.isdigit():
            if int(value) % self.step == 0:
                return Value(int(value))
        self.error(instance, value)

    body['validate'] = validate

    def equal(self, value_a, value_b):
        if not isinstance(value_a, Value) or not isinstance(value_b, Value):
            return False
        return same(spec, value_a.num, value_b.num)

    body['equal'] = equal
    if spec['default'] == 'value':
        body['_class_default'] = 6
    elif spec['default'] == 'callable':
        body['_class_default'] = staticmethod(lambda: Value(6))
    elif spec['default'] == 'method':
        body['_class_default'] = lambda self: Value(6)
    if spec['derived'] != 'json':
        body['to_json'] = staticmethod(lambda value, **kwargs: write(value.num))
        body['from_json'] = staticmethod(lambda value, **kwargs: Value(read(value)))
    if spec['derived'] == 'none':
        return type(base)(str('Custom'), (base,), body)
    # the rest comes from a class derived from it
    first = type(base)(str('CustomBase'), (base,), body)
    more = {}
    if spec['derived'] == 'json':
        more['to_json'] = staticmethod(lambda value, **kwargs: write(value.num))
        more['from_json'] = staticmethod(lambda value, **kwargs: Value(read(value)))
    else:
        def stricter(self, instance, value):
            value = super(second, self).validate(instance, value)
            if value.num > 60:
                self.error(instance, value, extra='too big')
            return value
        more['validate'] = stricter
    second = type(base)(str('Custom'), (first,), more)
    return second


def same(spec, one, two):
    if spec['modulus']:
        return one % spec['modulus'] == two % spec['modulus']
    return one == two


def converts(spec, raw):
    """The number a raw value stands for, or None"""
    kind, num = raw
    if kind == 'junk' or num is None:
        return None
    if kind == 'text' and (not spec['text'] or num < 0):
        return None
    if num % (spec['given'] or spec['step']):
        return None
    if spec['derived'] == 'stricter' and num > 60:
        return None
    return num


def build(raw):
    kind, num = raw
    if kind == 'junk':
        return [None, 1.5, 'x', object, [1], {}, True][num % 7]
    if kind == 'text':
        return str(num)
    return Value(num) if kind == 'value' else num


# 6 is a multiple of every step, 66 too big for the stricter ones
NUMS = st.sampled_from([0, 0, 6, 12, 18, 6, 3, 2, 4, 1, -6, 66, 72])
FIELDS = ['val', 'many', 'pair', 'table', 'keys', 'nested', 'either', 'inner', 'old']


@st.composite
def specs(draw):
    return {'json': draw(st.sampled_from(sorted(JSON))), 'step': draw(st.sampled_from([1, 2, 3])),
            'given': draw(st.sampled_from([None, None, 2, 6])),
            'info': draw(st.sampled_from(['class', 'computed'])), 'text': draw(st.booleans()),
            'modulus': draw(st.sampled_from([0, 0, 5, 7])),
            'base': draw(st.sampled_from(BASES)),
            'default': draw(st.sampled_from(['none', 'none', 'none', 'value', 'callable', 'method'])),
            'derived': draw(st.sampled_from(['none', 'none', 'json', 'stricter'])),
            'observed': draw(st.booleans())}


def raws():
    # a union asks its boolean member first, so True is no custom value there
    return st.one_of(st.tuples(st.sampled_from(['int', 'int', 'value', 'value', 'text']), NUMS),
                     st.tuples(st.sampled_from(['int', 'value', 'text']),
                               st.sampled_from([0, 6, 12, 18])),
                     st.tuples(st.just('junk'), st.integers(0, 5)))


def lists(low=3):
    good = st.tuples(st.sampled_from(['int', 'value', 'text']), st.sampled_from([0, 6, 12]))
    return st.one_of(st.lists(good, max_size=low), st.lists(raws(), max_size=low))


@st.composite
def cases(draw):
    spec = draw(specs())
    ops = []
    for _ in range(draw(st.integers(2, 9))):
        what = draw(st.sampled_from(['set'] * 6 + ['delete', 'init', 'again', 'append', 'damage',
                                                   'load', 'copy', 'compare']))
        field = draw(st.sampled_from(FIELDS))
        if what == 'append':
            ops.append((what, 'many', draw(raws())))
        elif what in ('set', 'init'):
            ops.append((what, field, draw(contents(field))))
        elif what == 'compare':
            ops.append((what, field, draw(NUMS)))
        else:
            ops.append((what, field, None))
    return spec, ops


def contents(field):
    if field in ('many', 'pair'):
        return lists()
    if field == 'table':
        return st.dictionaries(st.sampled_from('ab'), raws(), max_size=2)
    if field == 'keys':
        return st.lists(raws(), max_size=2)
    if field == 'nested':
        return st.lists(lists(2), max_size=2)
    return raws()


def expected(spec, field, raw):
    """What a field holds (numbers in the shape of the field), or None if refused"""
    if field in ('many', 'pair'):
        out = [converts(spec, r) for r in raw]
        return None if None in out else out
    if field == 'table':
        out = {k: converts(spec, r) for k, r in raw.items()}
        return None if None in out.values() else out
    if field == 'keys':
        out = [converts(spec, r if r[0] == 'junk' else ('value', r[1])) for r in raw]
        return None if None in out else out
    if field == 'nested':
        out = [expected(spec, 'many', r) for r in raw]
        return None if None in out else out
    return converts(spec, raw)


def given(field, raw):
    if field == 'many':
        return [build(r) for r in raw]
    if field == 'pair':
        return tuple(build(r) for r in raw)
    if field == 'table':
        return {k: build(r) for k, r in raw.items()}
    if field == 'keys':
        # values that make equal keys are drawn as separate objects
        return {(build(r) if r[0] == 'value' else Value(r[1]) if r[0] != 'junk' else 1.5): i
                for i, r in enumerate(raw)}
    if field == 'nested':
        return [[build(r) for r in low] for low in raw]
    if field == 'inner':
        return {'val': build(raw)}
    return build(raw)


def content(field, val):
    """The numbers a field holds"""
    if val is None:
        return None
    if field in ('many', 'pair'):
        assert type(val) is (list if field == 'many' else tuple) or field == 'many', val
        return [number(v) for v in val]
    if field == 'table':
        return {k: number(v) for k, v in val.items()}
    if field == 'keys':
        return [number(k) for k, i in sorted(val.items(), key=lambda p: p[1])]
    if field == 'nested':
        return [[number(v) for v in low] for low in val]
    if field == 'inner':
        return number(val.val)
    return number(val)


def number(val):
    assert type(val) is Value, '%r is no custom value' % (val,)
    return val.num


def written(spec, field, held):
    write = JSON[spec['json']][0]
    if field in ('many', 'pair'):
        return [write(n) for n in held]
    if field == 'table':
        return {k: write(n) for k, n in held.items()}
    if field == 'nested':
        return [[write(n) for n in low] for low in held]
    if field == 'inner':
        return {'val': write(held)}
    return write(held)


def holds_same(spec, field, one, two):
    if field in ('many', 'pair'):
        return len(one) == len(two) and all(same(spec, a, b) for a, b in zip(one, two))
    if field == 'table':
        return set(one) == set(two) and all(same(spec, one[k], two[k]) for k in one)
    if field == 'nested':
        return len(one) == len(two) and all(holds_same(spec, 'many', a, b)
                                            for a, b in zip(one, two))
    return same(spec, one, two)


def make_classes(spec, log):
    custom = make_type(spec)
    plain = make_type(dict(spec, default='none'))
    frozen = make_type(dict(spec, default='none'), properties.GettableProperty)
    options = {} if spec['given'] is None else {'step': spec['given']}

    def prop(**kwargs):
        return custom('', **dict(options, **kwargs))

    class Inner(properties.HasProperties):
        val = prop()

    class Holder(properties.HasProperties):
        """A holder"""
        val = custom('the doc of val', **options)
        many = properties.List('', prop(), required=False,
                               observe_mutations=spec['observed'])
        pair = properties.Tuple('', prop(), required=False)
        table = properties.Dictionary('', key_prop=properties.String(''), value_prop=prop(),
                                      required=False)
        keys = properties.Dictionary('', key_prop=prop(), value_prop=properties.Integer(''),
                                     required=False)
        nested = properties.List('', properties.List('', prop()), required=False)
        either = properties.Union('', [properties.Boolean(''), prop()], required=False)
        inner = properties.Instance('', Inner, required=False)
        old = properties.Renamed('val')
        fixed = frozen('', default=6)

        @plain('', **options)
        def double(self):
            """twice val"""
            return None if self.val is None else self.val.num * 2

        @properties.observer(['val', 'many', 'pair', 'table', 'nested', 'either'],
                             change_only=True)
        def _note(self, change):
            log.append((change['name'], self))

    return custom, Holder, Inner


@facet('histories', strategy=cases, quick=1600, shards=4)
def check_histories(case, ctx):
    spec, ops = case
    log = []
    custom, Holder, Inner = make_classes(spec, log)
    ctx.label(spec['derived'])
    step = spec['given'] or spec['step']
    info = 'a multiple value' if spec['info'] == 'class' else 'a multiple of %d' % step
    ctx.check(info in Holder.__doc__ and 'Custom' in Holder.__doc__, 'the docs are %r',
              Holder.__doc__)
    for name in ('val', 'many', 'pair', 'table', 'keys', 'nested', 'either'):
        ctx.check(info in Holder._props[name].info, 'the info of %s is %r', name,
                  Holder._props[name].info)
    held = {}
    # the default of the type, for the property itself and as the union's
    if spec['default'] != 'none':
        held['val'] = 6
    obj = Holder()
    other = Holder()

    def known(target, state, what):
        for field in FIELDS:
            name = 'val' if field == 'old' else field
            want = state.get(name)
            if field == 'either' and want is None and spec['default'] != 'none':
                continue                            # see C07 for defaults of unions
            got = content(field, getattr(target, field))
            ctx.check(got == want and type(got) is type(want), '%s: %s is %r, expected %r',
                      what, field, got, want)
        ctx.check(number(target.fixed) == 6, '%s: fixed is %r', what, target.fixed)

    known(obj, held, 'new')
    if spec['default'] in ('callable', 'method'):
        ctx.check(obj.val is not other.val, 'the default is shared')
    for what, field, raw in ops:
        name = 'val' if field == 'old' else field
        if what in ('set', 'init'):
            want = expected(spec, field, raw)
            val = given(field, raw)
            if want is not None and field == 'either' and isinstance(val, bool):
                continue
            changed = name not in held or want is None or (
                name != 'keys' and not holds_same(spec, name, held[name], want))
            if want is None or any(r[0] != 'value' for r in flat(raw)):
                ctx.nontrivial(field not in ('val', 'old'))
            if want is not None and not changed and held.get(name) != want:
                ctx.nontrivial()
            del log[:]
            try:
                if what == 'init':
                    target, before = Holder(**{field: val}), {}
                    if spec['default'] != 'none':
                        before = {'val': 6}
                else:
                    target, before = obj, held
                    setattr(obj, field, val)
            except properties.ValidationError as err:
                ctx.check(want is None, '%s refused %r: %s', field, val, err)
                ctx.check(not log, 'listeners ran for a refusal')
                known(obj, held, 'refusal')
                ctx.check(err.error_tuples and err.error_tuples[0].reason == 'invalid',
                          'the error is %r', err.error_tuples)
                if field == 'val' and what == 'set':
                    ctx.check(info in str(err) and 'Custom' in str(err), 'the message is %s', err)
                    ctx.check(err.error_tuples[0].prop == 'val' and
                              err.error_tuples[0].instance is obj, 'the error names %r',
                              err.error_tuples)
                continue
            ctx.check(want is not None, '%s accepted %r', field, val)
            state = dict(before)
            state[name] = want
            known(target, state, what)
            if what == 'set':
                fired = [n for n, o in log if n == name]
                if name in ('val', 'many', 'pair', 'table', 'nested') or (
                        name == 'either' and 'either' in held):
                    ctx.check(len(fired) == int(changed),
                              '%s: %d change notifications from %r to %r', field, len(fired),
                              held.get(name), want)
                held = state
        elif what == 'again' and name in held:
            kept = getattr(obj, field)
            del log[:]
            setattr(obj, field, kept)
            ctx.check(not log, 'setting the same %s changed it', field)
            known(obj, held, 'again')
        elif what == 'delete':
            delattr(obj, field)
            held.pop(name, None)
            if not (name == 'either' and spec['default'] != 'none'):
                known(obj, held, 'delete')
            ctx.check(getattr(obj, field) is None, 'deleted %s is there', field)
            if name == 'either' and spec['default'] != 'none':
                obj.either = held['either'] = 6
        elif what == 'append' and 'many' in held:
            want = converts(spec, raw)
            if not spec['observed']:
                continue
            try:
                obj.many.append(build(raw))
            except properties.ValidationError:
                ctx.check(want is None, 'append refused %r', raw)
            else:
                ctx.check(want is not None, 'append accepted %r', raw)
                held['many'] = held['many'] + [want]
                ctx.nontrivial(raw[0] != 'value')
            known(obj, held, 'append')
        elif what == 'damage' and name in ('val', 'many', 'pair', 'nested', 'inner', 'table') \
                and 'val' in held:
            damage(ctx, obj, name)
            known(obj, held, 'repair')
        elif what in ('load', 'copy'):
            if 'val' not in held or 'keys' in held or (
                    'either' in held and spec['json'] in ('text', 'number', 'list')):
                continue                            # a boolean member might load it
            data = obj.serialize()
            ctx.check(json.loads(json.dumps(data)) == data, 'no JSON: %r', data)
            for field2, val in held.items():
                form = data[field2]
                if field2 == 'inner':
                    form = {k: v for k, v in form.items() if k != '__class__'}
                ctx.check(form == written(spec, field2, val), '%s was written as %r, expected %r',
                          field2, form, written(spec, field2, val))
            ctx.check(not set(data) - set(held) - {'__class__', 'fixed', 'either'},
                      'unexpected in %r', data)
            saved = obj.serialize(save_dynamic=True)
            twice = held['val'] * 2
            if spec['derived'] != 'stricter' or twice <= 60:
                ctx.check(saved['double'] == JSON[spec['json']][0](twice), 'dynamic: %r', saved)
                ctx.check(number(obj.double) == twice, 'dynamic value %r', obj.double)
            before = copy.deepcopy(data)
            new = Holder.deserialize(data, trusted=True) if what == 'load' \
                else properties.copy(obj)
            ctx.check(data == before, 'loading changed its input')
            known(new, held, what)
            ctx.check(properties.equal(obj, new), 'not equal to its %s', what)
            if 'many' in held and held['many']:
                ctx.check(new.many[0] is not obj.many[0], 'the %s shares its values', what)
        elif what == 'compare' and 'val' in held and 'keys' not in held:
            twin = Holder(**{k: given_from(k, v) for k, v in held.items()})
            ctx.check(properties.equal(obj, twin), 'equal values are not equal: %r', held)
            num = raw
            if converts(spec, ('int', num)) is None:
                continue
            twin.val = num
            ctx.nontrivial(same(spec, num, held['val']) and num != held['val'])
            ctx.check(properties.equal(obj, twin) is same(spec, num, held['val']),
                      'equality of %r and %r', held['val'], num)
    if 'val' in held and not (spec['derived'] == 'stricter' and held['val'] > 30):
        ctx.check(obj.validate() is True, 'valid object refused')
    elif 'val' not in held:
        err = ctx.raises(properties.ValidationError, obj.validate, 'validating without val')
        ctx.check([(t.prop, t.reason) for t in err.error_tuples] == [('val', 'missing')],
                  'the errors are %r', err.error_tuples)


def given_from(field, held):
    if field == 'keys':
        return {Value(n): i for i, n in enumerate(held)}
    if field == 'inner':
        return {'val': held}
    if field == 'pair':
        return tuple(held)
    return held


def flat(raw):
    if isinstance(raw, tuple):
        return [raw]
    out = []
    for low in (raw.values() if isinstance(raw, dict) else raw):
        out += flat(low)
    return out


def damage(ctx, obj, name):
    """A custom value changed in place to an invalid one is found by validation"""
    val = getattr(obj, name)
    while val is not None and not isinstance(val, Value):
        if isinstance(val, dict):
            val = list(val.values())
        elif isinstance(val, (list, tuple)):
            val = [v for v in val if isinstance(v, Value) or len(v)][-1:]
            val = val[0] if val else None
        else:
            val = val.val
    if val is None:
        return
    kept, val.num = val.num, 0.5
    ctx.nontrivial()
    try:
        err = ctx.raises(properties.ValidationError, obj.validate, 'a bad value in ' + name)
        ctx.check(any(t.reason == 'invalid' for t in err.error_tuples), 'errors %r',
                  err.error_tuples)
    finally:
        val.num = kept
