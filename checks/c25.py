"""C25: validation errors and the error hook"""
import datetime
import io

import numpy as np
import properties
from hypothesis import strategies as st

from vlib import gens, model
from vlib.harness import facet
from vlib.values import build

ID = 'C25'
RULE = ('assignments, constructions and validations with any number of simultaneous failures '
        'over random property types; values that are valid, almost valid or junk; trees of '
        'objects with missing and invalid members and class validators that fail in every way; '
        'hooks that record, raise or repair; non-trivial: something fails, or a union or '
        'container tried several alternatives')
FACETS = []
ASSUMPTIONS = ['the hooks of temporary objects made while a value is being converted are not '
               'claimed', 'values whose repr raises are not claimed',
               'constructions with an unknown keyword besides invalid ones are not claimed']


def check_tuple(ctx, tup, name, obj, reason='invalid'):
    ctx.check(tup.prop == name, 'the error names %r, not %r', tup.prop, name)
    ctx.check(tup.instance is obj, 'the error is about %r', tup.instance)
    ctx.check(tup.reason == reason, 'the reason is %r, not %r', tup.reason, reason)


def check_message(ctx, message, name, cls_name, info, value, nested):
    ctx.check("'%s'" % name in message, 'the message does not name %r: %s', name, message)
    ctx.check(cls_name in message, 'the message does not name %s: %s', cls_name, message)
    ctx.check(info in message, 'the message does not say %r: %s', info, message)
    if not nested:
        ctx.check(len(message) < 420 + len(info), 'a message of %d characters for %.300r',
                  len(message), value)


class Recorder(object):
    """A class body with a hook that records its calls"""

    def __init__(self, then=None):
        self.calls = []
        self.then = then

    def body(self):
        def _error_hook(hooked, error_tuples):
            self.calls.append((hooked, list(error_tuples)))
            if self.then is not None:
                self.then(hooked, error_tuples)
        return {'_error_hook': _error_hook}


def check_causes(ctx, prop, message, value):
    """A refused value of a union comes with what each member says about it"""
    holder = type(properties.HasProperties)('Holder', (properties.HasProperties,), {})()
    for member in prop.props:
        alone = ctx.raises(ValueError, lambda: member.validate(holder, value),
                           'the member %r alone' % member)
        for cause in getattr(alone, 'error_tuples', ()):
            ctx.check(cause.message in message, '%r is not explained in %s', cause.message,
                      message)


@st.composite
def assign_cases(draw):
    specs = draw(gens.class_specs(count=2, depth=1, max_props=2))
    props = gens.props_of(specs)
    spec = draw(gens.any_spec(draw(st.integers(0, 2)), len(specs)))
    return specs, spec, draw(gens.candidate(spec, props)), draw(st.sampled_from(
        ['no', 'no', 'no', 'no', 'long', 'deep'])), draw(st.booleans())


@facet('assign', strategy=assign_cases, quick=2500, shards=5)
def check_assign(case, ctx):
    """One assignment: one error, one call of the hook; none if it succeeds"""
    specs, spec, raw, stretch, before = case
    env = model.Env(specs)
    rec = Recorder()
    body = rec.body()
    body['val'] = model.make(spec, env)
    body['_num'] = properties.Integer('', default=3)
    cls = type(properties.HasProperties)('Holder', (properties.HasProperties,), body)
    obj = cls()
    value = build(raw, env.builders())
    if stretch == 'long':
        value = [value, 'x' * 5000]
    elif stretch == 'deep':
        value = {'k%d' % i: 'long value' for i in range(100)}
    if value is None or value is properties.undefined:
        return
    expected = model.accept(spec, value, env)
    if expected is model.SKIP:
        return
    if before:
        ctx.label('validated before')
        try:
            obj.validate()
        except properties.ValidationError:
            pass
    del rec.calls[:]
    kept = dict(obj._backend)
    if expected is model.BAD:
        ctx.nontrivial()
        ctx.label('refused ' + spec['t'])
        err = ctx.raises(properties.ValidationError, lambda: setattr(obj, 'val', value),
                         'assigning %r' % (value,))
        ctx.check(len(err.error_tuples) == 1, '%d reports for one failure',
                  len(err.error_tuples))
        tup = err.error_tuples[0]
        check_tuple(ctx, tup, 'val', obj)
        ctx.check(tup.message == str(err), 'the report says %r, the error %r', tup.message,
                  str(err))
        nested = spec['t'] in ('Instance', 'Union') or 'Instance' in repr(spec) or \
            'Union' in repr(spec)
        info = cls._props['val'].info
        check_message(ctx, tup.message, 'val', 'Holder', info, value, nested)
        if spec['t'] == 'Union':
            check_causes(ctx, cls._props['val'], tup.message, value)
        ctx.check(len(rec.calls) == 1, 'the hook was called %d times', len(rec.calls))
        ctx.check(rec.calls[0][0] is obj and
                  [id(t) for t in rec.calls[0][1]] == [id(t) for t in err.error_tuples],
                  'the hook got %r', rec.calls[0])
        ctx.check(obj._backend == kept or dict(obj._backend).keys() == kept.keys(),
                  'a refused value was stored')
        # again, to see that nothing was left behind
        ctx.raises(properties.ValidationError, lambda: setattr(obj, 'val', value),
                   'assigning again')
        ctx.check(len(rec.calls) == 2, 'the hook was called %d times for two failures',
                  len(rec.calls))
    else:
        ctx.label('accepted ' + spec['t'])
        ctx.nontrivial(spec['t'] in ('Union', 'List', 'Tuple', 'Set', 'Dictionary', 'Instance'))
        obj.val = value
        ctx.check(not rec.calls, 'the hook was called for a valid value: %r', rec.calls)
        cls(val=value)
        ctx.check(not rec.calls, 'the hook was called for a valid construction: %r', rec.calls)
    obj._num = 4
    ctx.raises(properties.ValidationError, lambda: setattr(obj, '_num', 'x'), 'the next failure')
    ctx.check(rec.calls[-1][1][0].prop == '_num', 'the next failure was not reported')


# ------------------------------------------------------------------ many failures

@st.composite
def many_cases(draw):
    specs = draw(gens.class_specs(count=2, depth=1, max_props=2))
    props = gens.props_of(specs)
    names = draw(st.lists(st.sampled_from(gens.NAMES + ['zeta', 'eta', '_theta']), min_size=1,
                          max_size=8, unique=True))
    own = [(n, draw(gens.any_spec(draw(st.integers(0, 1)), len(specs)))) for n in names]
    values = {}
    for name, spec in own:
        if draw(st.integers(0, 5)):
            values[name] = draw(gens.candidate(spec, props))
    order = draw(st.permutations(sorted(values)))
    return specs, own, [(n, values[n]) for n in order], draw(st.booleans()), \
        draw(st.sampled_from(['record', 'record', 'raise'])), \
        draw(st.sampled_from([None, None, 'observer', 'validator'])), \
        draw(st.integers(0, len(values)))


class Raised(Exception):
    pass


@facet('construct', strategy=many_cases, quick=1500, shards=5)
def check_construct(case, ctx):
    """A construction reports every refused keyword, once, to the hook of the new object"""
    specs, own, given, sub, mode, broken, place = case
    env = model.Env(specs)

    def act(hooked, error_tuples):
        if mode == 'raise':
            raise Raised(len(error_tuples))
    rec = Recorder(act)
    body = rec.body()
    body.update({n: model.make(s, env) for n, s in own})

    def breaks(self, change):
        raise KeyError('broken')
    if broken:
        body['fails'] = properties.Integer('a number', required=False)
        body['breaks'] = getattr(properties, broken)('fails')(breaks)
        given = given[:place] + [('fails', None)] + given[place:]
    cls = type(properties.HasProperties)('Many', (properties.HasProperties,), body)
    if sub:
        cls = type(cls)('Less', (cls,), {})
    by_name = dict(own)
    kwargs, bad = {}, []
    for name, raw in given:
        if name == 'fails':
            kwargs[name] = 3
            continue
        value = build(raw, env.builders())
        if value is None or value is properties.undefined:
            continue
        try:
            expected = model.accept(by_name[name], value, env)
        except model.Unclaimed:
            continue
        if expected is model.SKIP:
            continue
        kwargs[name] = value
        if expected is model.BAD:
            bad.append(name)
    ctx.nontrivial(bool(bad))
    ctx.label('%d failures' % min(len(bad), 4))
    if broken and not bad:
        ctx.raises(KeyError, lambda: cls(**kwargs), 'construction with a broken ' + broken)
        ctx.check(not rec.calls, 'the hook was called: %r', rec.calls)
        return
    if not bad:
        obj = cls(**kwargs)
        ctx.check(not rec.calls, 'the hook was called: %r', rec.calls)
        return
    if mode == 'raise':
        err = ctx.raises(Raised, lambda: cls(**kwargs), 'construction with a raising hook')
        ctx.check(err.args == (len(bad),), 'the hook got %r reports', err.args)
        tuples = rec.calls[0][1]
    else:
        err = ctx.raises(properties.ValidationError, lambda: cls(**kwargs), 'construction')
        tuples = err.error_tuples
    ctx.check(len(rec.calls) == 1, 'the hook was called %d times', len(rec.calls))
    obj = rec.calls[0][0]
    ctx.check(type(obj) is cls, 'the hook of a %s was called', type(obj).__name__)
    ctx.check([id(t) for t in rec.calls[0][1]] == [id(t) for t in tuples],
              'the hook got %r, the error has %r', rec.calls[0][1], tuples)
    ctx.check(sorted(t.prop for t in tuples) == sorted(bad), 'reported %r, refused %r',
              [t.prop for t in tuples], bad)
    for tup in tuples:
        check_tuple(ctx, tup, tup.prop, obj)
        check_message(ctx, tup.message, tup.prop, cls.__name__, cls._props[tup.prop].info,
                      kwargs[tup.prop], True)
        if mode != 'raise':
            ctx.check(tup.message in str(err), 'the error does not say %r', tup.message)
    # the object is in order afterwards
    count = len(rec.calls)
    good = {n: v for n, v in kwargs.items() if n not in bad and n != 'fails'}
    for name, value in good.items():
        setattr(obj, name, value)
    ctx.check(len(rec.calls) == count, 'the hook was called for valid values')
    ctx.raises((properties.ValidationError, Raised),
               lambda: setattr(obj, bad[0], kwargs[bad[0]]), 'assigning after a failure')
    ctx.check(len(rec.calls) == count + 1 and len(rec.calls[-1][1]) == 1,
              'after a failed construction the hook got %r', rec.calls[count:])


# ------------------------------------------------------------------ validation of trees

FAILS = ['none', 'none', 'none', 'false', 'error', 'full error', 'value', 'type', 'true', 'two']


@st.composite
def trees(draw, depth=2):
    node = {'cls': draw(st.integers(0, 2)),
            'num': draw(st.sampled_from(['ok', 'ok', 'ok', 'missing', 'bad'])),
            'opt': draw(st.sampled_from(['ok', 'unset', 'bad'] if draw(st.integers(0, 3)) == 0
                                        else ['ok', 'unset'])),
            'nums': draw(st.sampled_from(['ok', 'ok', 'ok', 'short', 'bad', 'missing'])),
            'uni': draw(st.sampled_from(['unset', 'text', 'num', 'node', 'bad'])),
            'fail': draw(st.sampled_from(FAILS)),
            'one': None, 'many': [], 'keyed': {}}
    if depth:
        if draw(st.booleans()):
            node['one'] = draw(trees(depth - 1))
        if draw(st.booleans()):
            node['many'] = draw(st.lists(trees(depth - 1), min_size=1, max_size=2))
        if draw(st.booleans()):
            node['keyed'] = {k: draw(trees(0)) for k in
                             draw(st.lists(st.sampled_from('ab'), max_size=2, unique=True))}
    if node['uni'] == 'node':
        node['uni'] = draw(trees(0))
    return node


def build_classes(rec):
    def fail(self):
        how = self._fail
        if how == 'false':
            return False
        if how in ('error', 'two'):
            raise properties.ValidationError('plain error')
        if how == 'full error':
            raise properties.ValidationError('full error', 'odd', 'opt', self)
        if how == 'value':
            raise ValueError('a value error')
        if how == 'type':
            raise TypeError('a type error')
        if how == 'true':
            return True
        return None

    def second(self):
        return self._fail != 'two'
    body = rec.body()
    body.update({
        'num': properties.Integer('', min=0),
        'opt': properties.Float('', required=False, max=10),
        'nums': properties.List('', properties.Integer(''), min_length=2,
                                observe_mutations=False, default=[1, 2]),
        'rule': properties.validator(fail), 'second': properties.validator(second),
        '_fail': 'none'})
    meta = type(properties.HasProperties)
    node = meta('Node', (properties.HasProperties,), body)
    tree = meta('Tree', (node,), {
        'one': properties.Instance('', node, required=False),
        'many': properties.List('', node, required=False),
        'keyed': properties.Dictionary('', value_prop=properties.Instance('', node),
                                       required=False),
        'uni': properties.Union('', [properties.String(''), properties.Integer('', min=0),
                                     properties.Instance('', node)], required=False)})
    other = meta('Other', (tree,), {'num': properties.Integer('', min=0)})
    return [tree, other, tree]


def build_tree(node, classes, expected, path=()):
    """The object, and its expected reports {id: [(obj, prop, reason, message)]}"""
    obj = classes[node['cls']]()
    out = []
    generic = node['fail'] in ('value', 'type')
    if node['num'] != 'missing':
        obj.num = 5
    else:
        out.append((obj, 'num', 'missing'))
    if node['num'] == 'bad':
        obj._backend['num'] = -5
        out.append((obj, 'num', 'invalid'))
    if node['opt'] != 'unset':
        obj.opt = 1.5
    if node['opt'] == 'bad':
        obj._backend['opt'] = 'text'
        out.append((obj, 'opt', 'invalid'))
    if node['nums'] == 'missing':
        del obj.nums
        out.append((obj, 'nums', 'missing'))
    elif node['nums'] == 'short':
        obj.nums = [1]
        out.append((obj, 'nums', 'invalid'))
    elif node['nums'] == 'bad':
        obj.nums.append('x')
        out.append((obj, 'nums', 'invalid'))
    uni = node['uni']
    if uni == 'text':
        obj.uni = 'abc'
    elif uni == 'num':
        obj.uni = 7
    elif uni == 'bad':
        obj._backend['uni'] = -3
        out.append((obj, 'uni', 'invalid'))
    elif isinstance(uni, dict):
        child, bad = build_tree(uni, classes, expected)
        obj.uni = child
        if bad:
            out.append((obj, 'uni', 'invalid'))
    if node['one']:
        child, bad = build_tree(node['one'], classes, expected)
        obj.one = child
        out.extend(bad)
    if node['many']:
        children = []
        first = None
        for sub in node['many']:
            child, bad = build_tree(sub, classes, expected)
            children.append(child)
            first = first or bad
        obj.many = children
        out.extend(first or ())
    if node['keyed']:
        children = {}
        first = None
        for key, sub in node['keyed'].items():
            child, bad = build_tree(sub, classes, expected)
            children[key] = child
            first = first or bad
        obj.keyed = children
        out.extend(first or ())
    obj._fail = node['fail']
    if node['fail'] == 'false' or node['fail'] == 'two':
        out.append((obj, None, None))
    if node['fail'] in ('error', 'two'):
        out.append((None, None, None))
    if node['fail'] == 'full error':
        out.append((obj, 'opt', 'odd'))
    expected.append((obj, out, generic))
    return obj, out


def has_generic(node):
    subs = [node['one'], node['uni']] + node['many'] + list(node['keyed'].values())
    return node['fail'] in ('value', 'type') or any(
        has_generic(s) for s in subs if isinstance(s, dict))


def remove_generic(node):
    if node['fail'] in ('value', 'type'):
        node = dict(node, fail='none')
    out = dict(node, many=[remove_generic(s) for s in node['many']],
               keyed={k: remove_generic(s) for k, s in node['keyed'].items()})
    for key in ('one', 'uni'):
        if isinstance(out[key], dict):
            out[key] = remove_generic(out[key])
    return out


def key(tup):
    return (id(tup[0]), tup[1], tup[2])


def of(tup):
    return (id(tup.instance), tup.prop, tup.reason)


@facet('validate', strategy=lambda: st.tuples(trees(), st.booleans()), quick=1500, shards=4)
def check_validate(case, ctx):
    """Validation reports everything that is wrong, in one error"""
    node, generic = case
    top = node['fail']
    node = remove_generic(node)
    if generic and top in ('value', 'type'):
        node = dict(node, fail=top)
    rec = Recorder()
    expected = []
    root, _ = build_tree(node, build_classes(rec), expected)
    _, want, odd = expected[-1]
    del rec.calls[:]
    ctx.nontrivial(bool(want) or odd)
    ctx.label('%d reports' % min(len(want), 5))
    for _ in range(2):
        del rec.calls[:]
        if not want and not odd:
            ctx.check(root.validate() is True, 'validate did not return True')
            bad_kids = [o for o, w, _ in expected if w]
            ctx.check(not rec.calls and not bad_kids, 'the hook was called: %r', rec.calls)
            continue
        if not want:
            err = ctx.raises((ValueError, TypeError), root.validate, 'validation')
            ctx.check(str(err) == 'a %s error' % top, 'raised %r', err)
            ctx.check(not any(o is root for o, _ in rec.calls), 'nothing to report')
            continue
        err = ctx.raises(properties.ValidationError, root.validate, 'validation')
        got = sorted(map(of, err.error_tuples), key=repr)
        ctx.check(got == sorted(map(key, want), key=repr), 'reported %r, expected %r',
                  err.error_tuples, want)
        for tup in err.error_tuples:
            ctx.check(tup.message in str(err), 'the error does not say %r', tup.message)
            if tup.prop is not None and tup.reason != 'odd':
                ctx.check(tup.prop in tup.message, '%r does not name %s', tup.message, tup.prop)
            if tup.reason == 'missing':
                ctx.check(type(tup.instance).__name__ in tup.message and 'required' in
                          tup.message, '%r does not say what is missing', tup.message)
        mine = [t for o, t in rec.calls if o is root]
        ctx.check(len(mine) == 1, 'the hook was called %d times', len(mine))
        ctx.check([id(t) for t in mine[0]] == [id(t) for t in err.error_tuples],
                  'the hook got %r', mine[0])
        # the hooks of members report their own failures, and only if there are any
        for obj, tuples in rec.calls:
            own = [w for o, w, _ in expected if o is obj][0]
            ctx.check(sorted(map(of, tuples), key=repr) == sorted(map(key, own), key=repr),
                      'a member reported %r, expected %r', tuples, own)


# ------------------------------------------------------------------ other property types

class Plain(properties.Property):
    """A type of the user that refuses with plain errors"""
    class_info = 'no three'

    def validate(self, instance, value):
        if value == 3:
            raise ValueError('three')
        if value == 4:
            raise properties.ValidationError('four')
        return value


def other_props():
    return {
        'ListPlain': (lambda: properties.List('', Plain('')),
                      [[], [1, 2]], [[3], [4], [1, 2, 3], [4, 3]]),
        'TuplePlain': (lambda: properties.Tuple('', Plain('')),
                       [(), (1, 2)], [(3,), (4,), (1, 2, 3), [1]]),
        'SetPlain': (lambda: properties.Set('', Plain('')), [{1, 2}], [{3}, {4}, [1]]),
        'DictPlain': (lambda: properties.Dictionary('', key_prop=Plain(''),
                                                    value_prop=Plain('')),
                      [{1: 2}], [{3: 1}, {1: 3}, {4: 1}, {1: 4}, {1: 1, 3: 3}]),
        'UnionPlain': (lambda: properties.Union('', [Plain(''), properties.List('', Plain(''))]),
                       [1], [3, 4]),
        'Array': (lambda: properties.Array('', shape=('*', 3), dtype=float),
                  [np.ones((2, 3)), [[1., 2., 3.]]],
                  ['x', 5, [1., 2.], np.ones((2, 2)), np.ones((2, 3), dtype=int),
                   [[1.0] * 3] * 2000 + [[1.0]], np.zeros(100000)]),
        'Vector3': (lambda: properties.Vector3('', length=1),
                    ['x', [1, 2, 3]], ['w', [0, 0, 0], [1, 2], 'zero', 5, None and 0 or [[1]]]),
        'Vector2Array': (lambda: properties.Vector2Array(''),
                         [['x', 'y'], np.ones((4, 2))], [['up'], 'x', [[1, 2, 3]], 5.0]),
        'DateTime': (lambda: properties.DateTime(''),
                     [datetime.datetime(2020, 1, 2), '2020-01-02'],
                     ['yesterday', 5, datetime.date(2020, 1, 2), 'x' * 4000]),
        'File': (lambda: properties.File('', 'r'), [io.StringIO('abc')],
                 ['/nonexistent/file', 5, object]),
        'ImagePNG': (lambda: properties.ImagePNG(''), [],
                     [io.BytesIO(b'no image'), 'no.txt', 5]),
        'Color': (lambda: properties.Color(''), ['red', (1, 2, 3)],
                  ['reddish', (1, 2), (1, 2, 300), '#12345', 'x' * 400]),
        'StringChoice': (lambda: properties.StringChoice('', ['aa', 'bb']), ['aa', 'BB'],
                         ['cc', 5, 'x' * 500]),
        'Instance': (lambda: properties.Instance('', dict), [{'a': 1}], [5]),
        'Pointer': (lambda: properties.extras.Pointer('', properties.extras.HasUID),
                    [], [5, 1.5, object()]),
        'UnionFile': (lambda: properties.Union('', [properties.File('', 'r'),
                                                    properties.Vector3('')]),
                      ['x', [1, 2, 3], io.StringIO('')], [5, [1], '/nonexistent/f']),
        'ListVector': (lambda: properties.List('', properties.Vector3('')),
                       [['x', 'y']], [['x', 'w'], ['x', [1]], 5]),
        'UnionNest': (lambda: properties.Union('', [
            properties.Union('', [properties.Integer(''), properties.Boolean('')]),
            properties.List('', properties.Union('', [properties.Color(''),
                                                      properties.Float('')]))]),
                      [5, True, [1.5, 'red'], []], ['red', [1.5, 'nocolor'], {}]),
        'Regex': (lambda: properties.String('', regex='^a+$'), ['aaa'], ['b', '', 'a' * 300 + 'b']),
        'Bounds': (lambda: properties.Integer('', min=3, max=5), [3, 4.0],
                   [2, 6, 3.5, 'x', 10 ** 400, float('nan'), float('inf')]),
    }


@st.composite
def other_cases(draw):
    kind = draw(st.sampled_from(sorted(other_props())))
    return kind, draw(st.integers(0, 20)), draw(st.booleans()), \
        draw(st.sampled_from(['set', 'init', 'dynamic', 'mutate', 'in list']))


@facet('types', strategy=other_cases, quick=1500, shards=2)
def check_types(case, ctx):
    """The reports of every property type"""
    kind, pick, good, how = case
    make, goods, bads = other_props()[kind]
    if good and not goods:
        good = False
    values = goods if good else bads
    value = values[pick % len(values)]
    rec = Recorder()
    body = rec.body()
    body['val'] = make() if how != 'in list' else properties.List('', make(), coerce=False)
    if how == 'dynamic':
        def dyn(self):
            return self._val

        def set_dyn(self, val):
            self._val = val
        dyn = make()(dyn)
        set_dyn.__name__ = 'dyn'
        dyn.setter(set_dyn)
        body['dyn'] = dyn
        body['_val'] = None
    body['items'] = properties.List('', make(), default=list, observe_mutations=True)
    cls = type(properties.HasProperties)('Holder', (properties.HasProperties,), body)
    obj = cls()
    name = 'val'
    ctx.nontrivial()
    ctx.label(how)

    def go():
        if how == 'init':
            cls(val=value)
        elif how == 'set':
            obj.val = value
        elif how == 'in list':
            obj.val = [value]
        elif how == 'dynamic':
            obj.dyn = value
        else:
            obj.items.append(value)
    if how == 'dynamic':
        name = 'dyn'
    elif how == 'mutate':
        name = 'items'
    if good:
        go()
        ctx.check(not rec.calls, '%s: the hook was called for %.200r: %r', kind, value, rec.calls)
        return
    err = ctx.raises(properties.ValidationError, go, '%s of %.200r' % (kind, value))
    ctx.check(len(err.error_tuples) == 1, '%r', err.error_tuples)
    tup = err.error_tuples[0]
    target = obj if how != 'init' else rec.calls[0][0] if rec.calls else None
    check_tuple(ctx, tup, name, target)
    nested = 'Union' in kind or 'Plain' in kind or 'Instance' in kind or kind == 'Pointer' or 'Array' in kind
    check_message(ctx, tup.message, name, 'Holder',
                  (make() if how == 'dynamic' else cls._props[name]).info, value, nested)
    ctx.check(len(tup.message) < 3000, 'a message of %d characters', len(tup.message))
    ctx.check(len(rec.calls) == 1 and rec.calls[0][0] is target,
              '%s: the hook was called %d times for %.200r', kind, len(rec.calls), value)
    ctx.check([id(t) for t in rec.calls[0][1]] == [id(t) for t in err.error_tuples],
              'the hook got %r', rec.calls[0][1])


# ------------------------------------------------------------------ hooks that act

@st.composite
def act_cases(draw):
    return [(draw(st.sampled_from(['good', 'bad', 'union', 'list', 'validate', 'unset', 'init',
                                   'bad union', 'bad list'])),
             draw(st.sampled_from(['record', 'raise', 'repair', 'validate'])))
            for _ in range(draw(st.integers(1, 6)))]


@facet('hooks', strategy=act_cases, quick=900)
def check_hooks(case, ctx):
    """Hooks may raise their own errors, repair the object or validate it"""
    state = {}

    def act(hooked, error_tuples):
        if state['mode'] == 'raise':
            raise Raised('planned')
        if state['mode'] == 'repair':
            hooked.num = 1
            hooked.uni = 'fixed'
        if state['mode'] == 'validate':
            state['mode'] = 'record'
            hooked.validate()
    rec = Recorder(act)
    body = rec.body()
    body.update({'num': properties.Integer('', required=False),
                 'must': properties.Integer('', default=1),
                 'uni': properties.Union('', [properties.Integer(''), properties.String('')],
                                         required=False),
                 'lst': properties.List('', properties.Integer(''), default=list)})
    cls = type(properties.HasProperties)('Holder', (properties.HasProperties,), body)
    obj = cls()
    missing = False
    ctx.nontrivial()
    for action, mode in case:
        state['mode'] = mode
        del rec.calls[:]
        calls = 0
        if action == 'good':
            obj.num = 5
            ctx.check(obj.num == 5, 'not stored')
        elif action == 'union':
            obj.uni = 'text'
            ctx.check(obj.uni == 'text', 'not stored')
        elif action == 'list':
            obj.lst = [1, 2]
        elif action == 'unset':
            del obj.must
            missing = True
        elif action == 'validate':
            if missing:
                calls = 1
                ctx.raises(Raised if mode == 'raise' else properties.ValidationError,
                           obj.validate, 'validation')
                obj.must = 1
                missing = False
            else:
                ctx.check(obj.validate() is True, 'not valid')
        elif action == 'init':
            calls = 1
            ctx.raises(Raised if mode == 'raise' else properties.ValidationError,
                       lambda: cls(num='x', must='y', uni=1.5), 'construction')
            ctx.check(len(rec.calls[0][1]) == 3, 'the hook got %r', rec.calls[0][1])
        else:
            calls = 1
            name, value = {'bad': ('num', 'x'), 'bad union': ('uni', 1.5),
                           'bad list': ('lst', [1, 'x'])}[action]
            if mode == 'validate' and missing:
                calls = 2
            ctx.raises(Raised if mode == 'raise' else properties.ValidationError,
                       lambda: setattr(obj, name, value), 'assigning %r' % (value,))
            if mode == 'repair':
                ctx.check(obj.num == 1 and obj.uni == 'fixed', 'the repair was lost')
        ctx.check(len(rec.calls) == calls, '%s: the hook was called %d times, not %d', action,
                  len(rec.calls), calls)
