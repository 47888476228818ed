"""C21: immutable, dynamic and renamed properties"""
import copy
import json
import random
import uuid
import warnings

import properties
from hypothesis import strategies as st

from vlib import gens, model
from vlib.harness import facet
from vlib.values import build

from .c03 import MUTATIONS, mutate

ID = 'C21'
RULE = ('immutable properties of every kind under random attempts to change them; dynamic '
        'properties of random types whose getter returns accepted and refused values, '
        'nothing, or fails, with and without setter and deleter, in subclasses; and pairs of '
        'objects driven by the same random operations, one through a renamed property (or a '
        'chain of them) and one through the property it stands for; non-trivial: a change '
        'was refused, a value was converted or refused, or a value was set')
FACETS = []
ASSUMPTIONS = ['setting a dynamic property to undefined and giving both the old and the new '
               'name at once are not claimed']


# ------------------------------------------------------------- immutable

class Fixed(properties.GettableProperty):
    """An immutable number, stored as text"""

    class_info = 'a number'

    def validate(self, instance, value):
        if not isinstance(value, (int, str)):
            self.error(instance, value)
        return str(value)


@st.composite
def immutable_cases(draw):
    kinds = draw(st.lists(st.tuples(
        st.sampled_from(['plain', 'callable', 'class', 'none', 'uuid', 'fixed', 'fixedcall',
                         'object']), gens.small_ints()), min_size=1, max_size=4))
    num = len(kinds)
    ops = draw(st.lists(st.tuples(
        st.sampled_from(['set', 'set', 'same', 'del', 'init', 'reset', 'resetall', 'other',
                         'validate', 'serialize', 'renamed', 'delrenamed', 'undefined',
                         'copy', 'load', 'load other', 'inplace', 'quiet']),
        st.integers(0, num - 1), st.one_of(gens.scalars(), gens.small_ints())),
        min_size=1, max_size=8))
    return kinds, ops, draw(st.booleans())


@facet('immutable', strategy=immutable_cases, quick=1200, shards=2)
def check_immutable(case, ctx):
    kinds, ops, sub = case
    body = {'other': properties.Integer('', required=False)}
    calls = {}
    marks = {}
    defaults = {}

    def source(name, make):
        calls[name] = 0

        def default():
            calls[name] += 1
            return make()
        return default

    for i, (kind, num) in enumerate(kinds):
        name = 'fix%d' % i
        if kind == 'uuid':
            body[name] = properties.Uuid('')
        elif kind == 'none':
            body[name] = properties.GettableProperty('')
        elif kind in ('fixed', 'fixedcall'):
            val = num if kind == 'fixed' else source(name, lambda num=num: num)
            body[name] = Fixed('', default=val)
        elif kind == 'class':
            body[name] = properties.GettableProperty('', default=-1000)
            defaults[name] = num
        elif kind == 'object':
            marks[name] = object()
            body[name] = properties.GettableProperty('', default=marks[name])
        else:
            val = num if kind == 'plain' else source(name, lambda num=num: [num])
            body[name] = properties.GettableProperty('', default=val)
        body['old%d' % i] = properties.Renamed(name, warn=False)
    if defaults:
        body['_defaults'] = defaults
    log = []
    body['_saw'] = properties.observer(properties.everything)(
        lambda self, change: log.append(change['name']))
    cls = type(properties.HasProperties)('Holder', (properties.HasProperties,), body)
    if sub:
        cls = type(properties.HasProperties)('Sub', (cls,), {})
    for name in calls:
        calls[name] = 0
    obj, twin = cls(), cls()
    for name, n in calls.items():
        ctx.check(n == 2, 'two objects called the default of %s %d times', name, n)
    names = ['fix%d' % i for i in range(len(kinds))]
    start = {n: getattr(obj, n) for n in names}
    for name, (kind, num) in zip(names, kinds):
        val = start[name]
        expected = {'plain': num, 'callable': [num], 'class': num, 'none': None,
                    'fixed': str(num), 'fixedcall': str(num),
                    'object': marks.get(name)}.get(kind)
        if kind == 'uuid':
            ctx.check(isinstance(val, uuid.UUID) and val.version == 4 and
                      val != getattr(twin, name), 'uuid %r, %r', val, getattr(twin, name))
        else:
            ctx.check(val == expected and type(val) is type(expected),
                      '%s is %r, expected %r', name, val, expected)
    jsonable = not marks
    errors = (AttributeError,)
    for op, at, arg in ops:
        name = names[at]
        value = build(arg)
        what = '%s %s %r' % (op, name, value)
        del log[:]
        if op in ('set', 'same', 'undefined', 'renamed', 'quiet'):
            if op == 'same':
                value = start[name]
            elif op == 'undefined':
                value = properties.undefined
            attr = name.replace('fix', 'old') if op == 'renamed' else name
            if op == 'quiet':
                with properties.listeners_disabled():
                    ctx.raises(errors, lambda: setattr(obj, attr, value), what)
            else:
                ctx.raises(errors, lambda: setattr(obj, attr, value), what)
            ctx.nontrivial()
        elif op in ('del', 'delrenamed'):
            attr = name.replace('fix', 'old') if op == 'delrenamed' else name
            ctx.raises(errors, lambda: delattr(obj, attr), what)
            ctx.nontrivial()
        elif op == 'init':
            ctx.raises(errors, lambda: cls(**{name: value}), what)
            ctx.nontrivial()
        elif op == 'reset':
            ctx.raises(errors, lambda: obj._reset(name), what)
            ctx.nontrivial()
        elif op == 'resetall':
            obj._reset()
            log[:] = [n for n in log if n != 'other']
        elif op == 'other':
            obj.other = 5
            log.remove('other')
        elif op == 'validate':
            ctx.check(obj.validate() is True, 'invalid: %r', start)
            log[:] = []
        elif op == 'inplace':
            # the object itself is not the property's value to guard
            pass
        elif op == 'load other' and isinstance(arg, (int, str, float, list)):
            # another value that was saved is validated like the first
            kind = kinds[at][0]
            if kind in ('fixed', 'fixedcall'):
                want = str(value) if isinstance(value, (int, str)) else model.BAD
            elif kind == 'uuid':
                value = '00000000-0000-0000-0000-%012d' % abs(hash(repr(value)) % 10 ** 9)
                want = uuid.UUID(value)
            else:
                want = value
            if want is model.BAD:
                ctx.raises(properties.ValidationError, lambda: cls.deserialize({name: value}),
                           what)
            else:
                other = getattr(cls.deserialize({name: value}), name)
                ctx.check(model.same(want, other), '%s gave %r, expected %r', what, other, want)
            ctx.nontrivial()
        elif op in ('serialize', 'copy', 'load') and jsonable:
            data = json.loads(json.dumps(obj.serialize()))
            for n in names:
                want = start[n]
                want = str(want) if isinstance(want, uuid.UUID) else want
                ctx.check(data.get(n) == want, 'wrote %s as %r, expected %r', n,
                          data.get(n), want)
            if op == 'copy':
                other = properties.copy(obj)
                ctx.check({n: getattr(other, n) for n in names} == start,
                          'the copy has other values')
            elif op == 'load':
                other = cls.deserialize(data)
                ctx.check({n: getattr(other, n) for n in names} == start,
                          'the loaded object has other values')
                ctx.raises(errors, lambda: setattr(other, name, value), 'after loading ' + what)
                ctx.check(getattr(other, name) == start[name], 'a loaded value changed')
        ctx.check(not log, '%s notified %r', what, log)
        now = {n: getattr(obj, n) for n in names}
        ctx.check(all(now[n] is start[n] for n in names), '%s changed %r to %r', what, start,
                  now)
        ctx.check(all(getattr(obj, n.replace('fix', 'old')) is start[n] for n in names),
                  'the renamed property reads something else')


# --------------------------------------------------------------- dynamic

@st.composite
def dynamic_cases(draw):
    spec = draw(gens.any_spec(1))
    value = st.one_of(gens.candidate(spec), gens.candidate(spec), gens.junk(),
                      st.sampled_from([None]))
    op = st.one_of(
        st.tuples(st.just('get'), value), st.tuples(st.just('get'), value),
        st.tuples(st.just('set'), value), st.tuples(st.just('set'), value),
        st.tuples(st.sampled_from(['del', 'undefined', 'fail', 'init', 'reset', 'resetall',
                                   'serialize', 'load', 'setfail', 'delfail', 'equal',
                                   'other']), value),
        st.tuples(st.just('save'), gens.valid_value(spec)))
    return spec, draw(st.booleans()), draw(st.booleans()), draw(st.sampled_from(
        ['plain', 'sub', 'override', 'renamed'])), draw(st.lists(op, min_size=1, max_size=8))


class Trouble(Exception):
    pass


@facet('dynamic', strategy=dynamic_cases, quick=2500, shards=4)
def check_dynamic(case, ctx):
    spec, has_set, has_del, form, ops = case
    calls = []
    feed = [None]
    given = []
    deleted = []
    prop = model.make(spec)
    if prop.default is not properties.undefined:
        def declare():
            @prop
            def val(self):
                return None
        ctx.raises(TypeError, declare, 'a dynamic property with a default')
        return

    def produce(obj):
        calls.append(obj)
        if isinstance(feed[0], Trouble):
            raise feed[0]
        return feed[0]

    @prop
    def val(self):
        return produce(self)

    def setter(self, value):
        if isinstance(feed[0], Trouble):
            raise feed[0]
        given.append((self, value))
    setter.__name__ = 'val'

    def deleter(self):
        if isinstance(feed[0], Trouble):
            raise feed[0]
        deleted.append(self)
    deleter.__name__ = 'val'
    if has_set:
        val = val.setter(setter)
    if has_del:
        val = val.deleter(deleter)
    log = []
    body = {'val': val, 'other': properties.Integer('', required=False),
            '_saw': properties.observer(properties.everything)(
                lambda self, change: log.append(change['name'])),
            '_check': properties.validator(properties.everything)(
                lambda self, change: log.append(change['name']))}
    if form == 'renamed':
        body['old'] = properties.Renamed('val', warn=False)
    if form != 'override':
        cls = type(properties.HasProperties)('Holder', (properties.HasProperties,), body)
    if form == 'sub':
        cls = type(properties.HasProperties)('Sub', (cls,), {})
    elif form == 'override':
        @properties.Integer('')
        def val(self):
            raise AssertionError('the getter of the base class was called')
        base = type(properties.HasProperties)('Base', (properties.HasProperties,),
                                              {'val': val})
        cls = type(properties.HasProperties)('Over', (base,), body)
    name = 'old' if form == 'renamed' else 'val'
    ctx.check(not calls, 'declaring or creating objects called the getter')
    obj = cls()
    ctx.check(not calls, 'creating an object called the getter')

    def read(what):
        """One access: computed once, validated, not stored"""
        del calls[:]
        raw = feed[0]
        try:
            return True, getattr(obj, name)
        except Exception as err:  # pylint: disable=broad-except
            return False, err
        finally:
            ctx.check(len(calls) == 1 and calls[0] is obj, '%s called the getter %d times',
                      what, len(calls))
            ctx.check(feed[0] is raw, 'reading changed the source')

    for op, raw in ops:
        what = '%s with %r' % (op, raw)
        del log[:], given[:], deleted[:]
        value = build(raw)
        if op == 'get':
            feed[0] = value
            expected = ('ok', None) if value is None or value is properties.undefined else \
                model.accept(spec, value)
            if expected is model.SKIP:
                continue
            good, got = read(what)
            if expected is model.BAD:
                ctx.check(not good and isinstance(got, properties.ValidationError),
                          '%s gave %r', what, got)
                ctx.label('refused')
                ctx.nontrivial()
            else:
                ctx.check(good and model.same(expected[1], got),
                          '%s gave %r, expected %r', what, got, expected[1])
                ctx.nontrivial(got is not None)
                again = getattr(obj, name)
                ctx.check(model.same(expected[1], again), 'read again: %r', again)
        elif op == 'undefined':
            feed[0] = properties.undefined
            good, got = read(what)
            ctx.check(good and got is None, 'undefined read as %r', got)
        elif op == 'fail':
            feed[0] = Trouble()
            good, got = read(what)
            ctx.check(got is feed[0], 'the error of the getter became %r', got)
            ctx.nontrivial()
        elif op == 'set':
            feed[0] = None
            if value is properties.undefined:
                continue
            expected = model.accept(spec, value)
            if expected is model.SKIP:
                continue
            if not has_set:
                ctx.raises(AttributeError, lambda: setattr(obj, name, value), what)
            elif expected is model.BAD:
                ctx.raises(properties.ValidationError, lambda: setattr(obj, name, value),
                           what)
                ctx.check(not given, 'the setter got %r', given)
                ctx.nontrivial()
            else:
                setattr(obj, name, value)
                ctx.check(len(given) == 1 and given[0][0] is obj and
                          model.same(expected[1], given[0][1]),
                          'the setter got %r for %r', given, value)
                ctx.nontrivial()
        elif op == 'setfail':
            feed[0] = Trouble()
            expected = model.accept(spec, value)
            if has_set and expected[0] == 'ok' and value is not properties.undefined:
                err = ctx.raises(Trouble, lambda: setattr(obj, name, value), what)
                ctx.check(err is feed[0], 'another error: %r', err)
        elif op in ('del', 'delfail'):
            feed[0] = Trouble() if op == 'delfail' else None
            if not has_del:
                ctx.raises(AttributeError, lambda: delattr(obj, name), what)
            elif op == 'delfail':
                ctx.raises(Trouble, lambda: delattr(obj, name), what)
            else:
                delattr(obj, name)
                ctx.check(len(deleted) == 1 and deleted[0] is obj, 'the deleter ran %d times',
                          len(deleted))
                ctx.nontrivial()
        elif op == 'init':
            if form != 'renamed':
                ctx.raises(AttributeError, lambda: cls(val=value), what)
                ctx.check(not given, 'init called the setter')
        elif op == 'reset':
            if form != 'renamed':
                ctx.raises(AttributeError, lambda: obj._reset('val'), what)
                ctx.check(not given and not deleted, 'reset called the setter')
        elif op == 'resetall':
            obj._reset()
            log[:] = [n for n in log if n != 'other']
            ctx.check(not given and not deleted, 'reset called the setter')
        elif op == 'serialize':
            feed[0] = Trouble()
            del calls[:]
            data = obj.serialize()
            ctx.check('val' not in data and 'old' not in data and not calls,
                      'a dynamic value was written: %r', data)
        elif op == 'save':
            feed[0] = value
            expected = model.accept(spec, value)
            if expected[0] != 'ok' or value is None or not model.has_json_keys(spec):
                continue
            want = model.json_of(spec, expected[1])
            try:
                data = obj.serialize(save_dynamic=True)
            except properties.ValidationError:
                raise model.Unclaimed()
            if "'Set'" in repr(spec):
                # the order of a set is arbitrary
                continue
            ctx.check(data.get('val') == want, 'wrote %r, expected %r', data, want)
            ctx.nontrivial()
            # it is not loaded back
            feed[0] = Trouble()
            if form != 'renamed':
                other = cls.deserialize(data)
                ctx.check(not given and 'val' not in other.serialize(),
                          'a dynamic value was loaded')
        elif op == 'load':
            feed[0] = Trouble()
            if form != 'renamed':
                data = {'val': [1], 'other': 4}
                kept = copy.deepcopy(data)
                try:
                    other = cls.deserialize(data)
                except (ValueError, TypeError):
                    # the value is no JSON of the type
                    continue
                ctx.check(other.other == 4 and data == kept and not given,
                          'loading a dynamic value failed')
        elif op == 'equal':
            feed[0] = value
            expected = model.accept(spec, value)
            if expected[0] != 'ok' or value is None or value is properties.undefined:
                continue
            ctx.check(properties.equal(cls(), cls()) ==
                      bool(model.equal(spec, expected[1], expected[1])),
                      'equality ignores the dynamic value')
        elif op == 'other':
            obj.other = 5
            log[:] = [n for n in log if n != 'other']
        ctx.check(not log, '%s notified %r', what, log)
        ctx.check('val' not in obj._backend, '%s stored the value', what)


# --------------------------------------------------------------- renamed

@st.composite
def renamed_cases(draw):
    spec = draw(gens.any_spec(1))
    sub = spec.get('prop', spec.get('value_prop'))
    key = spec.get('key_prop', {'t': 'Integer'})
    ops = [st.tuples(st.just('set'), gens.candidate(spec)),
           st.tuples(st.just('set'), gens.candidate(spec)),
           st.tuples(st.just('init'), gens.candidate(spec)),
           st.tuples(st.just('load'), gens.candidate(spec)),
           st.tuples(st.just('loadown'), st.sampled_from([False, True])),
           st.tuples(st.sampled_from(['get', 'del', 'undefined', 'reset', 'copy', 'veto',
                                      'quiet']), gens.valid_value(spec))]
    if spec['t'] in MUTATIONS:
        mut = st.tuples(st.sampled_from(MUTATIONS[spec['t']]), st.integers(0, 3),
                        st.one_of(gens.valid_value(key), gens.junk()),
                        gens.candidate(sub))
        ops += [st.tuples(st.just('mut'), mut)] * 2
    chain = draw(st.integers(1, 3))
    warns = [draw(st.sampled_from([None, None, True, False])) for _ in range(chain)]
    default = draw(st.one_of(st.none(), gens.valid_value(spec)))
    return spec, warns, default, draw(st.booleans()), \
        draw(st.lists(st.one_of(ops), min_size=1, max_size=7))


class Outcome(object):
    """What an operation did"""

    def __init__(self, func):
        random.seed(5)
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            try:
                self.value, self.error = func(), None
            except Exception as err:  # pylint: disable=broad-except
                self.value, self.error = None, err
        self.future = [w for w in caught if w.category is FutureWarning and
                       'is deprecated' in str(w.message)]


def key_of(err):
    if isinstance(err, properties.ValidationError):
        return (type(err).__name__, str(err),
                [(t.prop, t.reason, t.message) for t in err.error_tuples])
    return type(err).__name__, str(err)


@facet('renamed', strategy=renamed_cases, quick=2500, shards=4)
def check_renamed(case, ctx):
    spec, warns, default, sub, ops = case
    veto = []
    log = []
    body = {'val': model.make(spec), 'other': properties.Integer('', required=False)}
    target = 'val'
    for i, warn in enumerate(warns):
        kwargs = {} if warn is None else {'warn': warn}
        body['old%d' % i] = properties.Renamed(target, **kwargs)
        target = 'old%d' % i
    name = target
    if default is not None:
        value = build(default)
        if model.accept(spec, value)[0] == 'ok':
            body['_defaults'] = {'val': value}

    @properties.validator(properties.everything)
    def _check(self, change):
        if veto:
            raise properties.ValidationError('vetoed')

    @properties.observer(properties.everything)
    def _on_set(self, change):
        log.append((self.tag, change['name'], change['mode']))

    @properties.observer('val', change_only=True)
    def _on_change(self, change):
        log.append((self.tag, change['name'], change['mode']))
    body.update(_check=_check, _on_set=_on_set, _on_change=_on_change, tag=None)
    cls = type(properties.HasProperties)('Holder', (properties.HasProperties,), body)
    if sub:
        # renamed properties of a base class
        base = cls
        cls = type(properties.HasProperties)('Sub', (base,), {})
    expected_warnings = [('old%d' % i, 'val' if i == 0 else 'old%d' % (i - 1))
                         for i, w in reversed(list(enumerate(warns))) if w is not False]
    objs = {'old': cls(), 'new': cls()}
    attrs = {'old': name, 'new': 'val'}
    for key, obj in objs.items():
        obj.tag = key

    def both(func, what, warned=True, here=True):
        """func(obj, attr) on both objects must do the same"""
        del log[:]
        new = Outcome(lambda: func(objs['new'], 'val'))
        new_log = [e[1:] for e in log]
        ctx.check(not new.future, '%s warned about the new name', what)
        del log[:]
        old = Outcome(lambda: func(objs['old'], name))
        old_log = [e[1:] for e in log]
        ctx.check((new.error is None) == (old.error is None) and
                  (new.error is None or key_of(new.error) == key_of(old.error)),
                  '%s: %r through the new name and %r through the old one', what, new.error,
                  old.error)
        ctx.check(new_log == old_log, '%s notified %r through the new name and %r through '
                  'the old one', what, new_log, old_log)
        if warned:
            got = [str(w.message) for w in old.future]
            ctx.check(len(got) == len(expected_warnings) and all(
                repr(a).lstrip('u') in t and repr(b).lstrip('u') in t
                for t, (a, b) in zip(got, expected_warnings)),
                '%s warned %r, expected %r', what, got, expected_warnings)
            if here and got and old.future[0].filename != __file__ and warns[-1] is not False:
                ctx.fail('%s: the warning points to %s' % (what, old.future[0].filename))
        ctx.check(model.describe(objs['new'])[1:] == model.describe(objs['old'])[1:],
                  'after %s: %r and %r', what, objs['new'].val, objs['old'].val)
        return new, old

    for op, raw in ops:
        what = '%s %r' % (op, raw)
        if op in ('set', 'undefined', 'quiet', 'veto'):
            if op == 'veto':
                veto.append(1)

            def run(obj, attr):
                value = properties.undefined if op == 'undefined' else build(raw)
                if op == 'quiet':
                    with properties.listeners_disabled():
                        setattr(obj, attr, value)
                else:
                    setattr(obj, attr, value)
            new, _ = both(run, what)
            del veto[:]
            ctx.nontrivial(op == 'set')
            ctx.label('error' if new.error else 'set')
        elif op == 'get':
            new, old = both(lambda obj, attr: getattr(obj, attr), what)
            ctx.check(old.value is objs['old'].val, 'the old name reads another object')
        elif op == 'del':
            both(lambda obj, attr: delattr(obj, attr), what)
            ctx.nontrivial()
        elif op == 'reset':
            both(lambda obj, attr: obj._reset('val'), what, warned=False)
        elif op == 'mut':
            if objs['new'].val is None:
                continue
            value = getattr(objs['new'], 'val')
            del value
            both(lambda obj, attr: mutate_once(obj, attr, spec, raw), what, here=False,
                 warned=False)
            ctx.nontrivial()
        elif op == 'init':
            def create(obj, attr):
                made = cls(**{attr: build(raw)})
                objs['new' if obj is objs['new'] else 'old'] = made
                made.tag = 'made'
            both(create, what, here=False)
            ctx.nontrivial()
        elif op in ('load', 'loadown'):
            if op == 'load':
                data = build(raw)
                try:
                    json.dumps(data)
                except (TypeError, ValueError, RecursionError):
                    continue
                if isinstance(data, dict) and '__class__' in data:
                    continue
            else:
                try:
                    data = objs['new'].serialize(include_class=False).get('val')
                except Exception:  # pylint: disable=broad-except
                    continue
                if data is None:
                    continue

            def load(obj, attr):
                given = {attr: copy.deepcopy(data), 'other': 3}
                made = cls.deserialize(given, strict=raw is True)
                ctx.check(made.other == 3, 'loading lost another property')
                objs['new' if obj is objs['new'] else 'old'] = made
                made.tag = 'made'
            new, old = both(load, what, warned=False)
            if old.error is None:
                ctx.check(len(old.future) == len(expected_warnings),
                          '%s warned %d times', what, len(old.future))
            ctx.nontrivial()
        elif op == 'copy':
            def dup(obj, attr):
                properties.copy(obj)
            both(dup, what, warned=False)
    one = objs['old']
    saved = Outcome(lambda: one.serialize(save_dynamic=False))
    if saved.error is None:
        ctx.check(not [k for k in saved.value if k.startswith('old')],
                  'the old name was written: %r', saved.value)
    valid = Outcome(one.validate)
    ctx.check(not valid.future and not saved.future, 'validation or writing warned')


def mutate_once(obj, attr, spec, arg):
    """One in-place change through the given name"""
    mutate(obj, attr, spec, arg, model.EMPTY)


# --------------------------------------------------- equality with renamed

@st.composite
def renamed_pairs(draw):
    kind = draw(st.sampled_from(['Float', 'Complex', 'Array', 'Vector3', 'Vector2Array',
                                 'Instance', 'List', 'Dictionary', 'String', 'Boolean']))
    return kind, draw(st.lists(st.integers(-3, 3), min_size=3, max_size=3)), \
        draw(st.sampled_from(['same', 'same', 'near', 'far', 'unset', 'both unset'])), \
        draw(st.integers(1, 2)), draw(st.booleans())


class Inner(properties.HasProperties):
    """Something to refer to"""
    num = properties.Float('a number', required=False)


PAIR_PROPS = {
    'Float': lambda: properties.Float(''), 'Complex': lambda: properties.Complex(''),
    'Array': lambda: properties.Array('', shape=('*',), dtype=float),
    'Vector3': lambda: properties.Vector3(''),
    'Vector2Array': lambda: properties.Vector2Array(''),
    'Instance': lambda: properties.Instance('', Inner),
    'List': lambda: properties.List('', Inner),
    'Dictionary': lambda: properties.Dictionary('', value_prop=properties.Float('')),
    'String': lambda: properties.String(''), 'Boolean': lambda: properties.Boolean(''),
}


def pair_value(kind, nums, shift):
    first = nums[0] + shift
    return {
        'Float': lambda: first, 'Complex': lambda: complex(first, nums[1]),
        'Array': lambda: [float(first)] + nums[1:], 'Vector3': lambda: [first] + nums[1:],
        'Vector2Array': lambda: [[first, nums[1]], [nums[1], nums[2]]],
        'Instance': lambda: Inner(num=first),
        'List': lambda: [Inner(num=first), Inner(num=nums[1])],
        'Dictionary': lambda: {'a': first, 'b': nums[1]},
        'String': lambda: 'text %r' % round(first), 'Boolean': lambda: round(first) > 4}[kind]()


@facet('renamed_equal', strategy=renamed_pairs, quick=600, shards=1)
def check_renamed_equal(case, ctx):
    """Renamed properties do not take part in comparisons of their own"""
    kind, nums, how, chain, warn = case

    class Plain(properties.HasProperties):
        val = PAIR_PROPS[kind]()

    class Named(properties.HasProperties):
        val = PAIR_PROPS[kind]()
        old = properties.Renamed('val', warn=warn)
        older = properties.Renamed('old' if chain == 2 else 'val')
    shift = {'near': 1e-12, 'far': 9}.get(how, 0)
    ctx.nontrivial()
    ctx.label('%s %s' % (kind, how))
    want = how != 'unset' and how != 'far'
    for cls in (Plain, Named):
        one, two = cls(), cls()
        if how != 'both unset':
            one.val = pair_value(kind, nums, 0)
        if 'unset' not in how:
            two.val = pair_value(kind, nums, shift)
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            for left, right in ((one, two), (two, one)):
                ctx.check(properties.equal(left, right) is want, '%s: equal(%r, %r) is not %r',
                          cls.__name__, left.val, right.val, want)
            ctx.check(properties.equal(one, properties.copy(one)), 'a copy is not equal')
        ctx.check(not [w for w in caught if 'is deprecated and may' in str(w.message)],
                  'comparing warned')
