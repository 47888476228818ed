"""C16: inheritance of properties, observers and validators"""
import properties
from hypothesis import strategies as st

from vlib.harness import facet

ID = 'C16'
RULE = ('random class graphs (chains, diamonds, several bases, plain mixins) in which each '
        'name is bound at some classes to a property, an observer, a change validator, a '
        'class validator, a plain function, a constant or None; compared with plain Python '
        'classes of the same shape; non-trivial: some name is bound differently in two '
        'classes of one resolution order')
FACETS = []
ASSUMPTIONS = ['attributes put on a class after it was defined are not claimed']

NAMES = ['alpha', 'beta', 'gamma', '_hidden']
KINDS = ['property', 'property', 'observer', 'change observer', 'validator',
         'class validator', 'function', 'constant', 'None', 'super observer', 'gettable',
         'renamed', 'dynamic']
MIXIN_KINDS = ['function', 'constant', 'None', 'pyproperty']


@st.composite
def graphs(draw):
    count = draw(st.integers(2, 6))
    classes = []
    for i in range(count):
        mixin = draw(st.integers(0, 4)) == 0
        pool = [j for j in range(i) if classes[j]['mixin']] if mixin else list(range(i))
        bases = draw(st.lists(st.sampled_from(pool), unique=True, max_size=3)) if pool else []
        body = {}
        for name in draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=3)):
            body[name] = draw(st.sampled_from(MIXIN_KINDS if mixin else KINDS))
        classes.append({'mixin': mixin, 'bases': bases, 'body': body})
    return classes


class Mark(object):
    """What a plain class has where the real one has a property or a listener"""

    def __init__(self, index, kind):
        self.index = index
        self.kind = kind


@facet('resolution', strategy=graphs, quick=3500, shards=6)
def check_resolution(case, ctx):
    log = []
    meta = type(properties.HasProperties)

    class Root(properties.HasProperties):
        watched = properties.Integer('always there')
        target = properties.Integer('always there', default=3)

    class PlainRoot(object):
        pass
    real, plain = [], []
    for i, one in enumerate(case):
        bases = [real[b] for b in one['bases']]
        plain_bases = [plain[b] for b in one['bases']]
        if one['mixin']:
            bases, plain_bases = bases or [object], plain_bases or [object]
        elif not any(isinstance(b, meta) for b in bases):
            bases, plain_bases = bases + [Root], plain_bases + [PlainRoot]
        body = {}
        for name, kind in one['body'].items():
            body[name] = bind(log, i, name, kind)
        try:
            twin = type('P%d' % i, tuple(plain_bases),
                        {n: Mark(i, k) for n, k in one['body'].items()})
        except TypeError:
            ctx.label('no resolution order')
            ctx.raises(TypeError, lambda: (meta if not one['mixin'] else type)(
                'C%d' % i, tuple(bases), body), 'a class without resolution order')
            return
        cls = (type if one['mixin'] else meta)('C%d' % i, tuple(bases), body)
        for name, kind in one['body'].items():
            if kind == 'super observer':
                pass
        real.append(cls)
        plain.append(twin)
        if not one['mixin']:
            check_class(cls, twin, log, ctx)


def bind(log, index, name, kind):
    def listener(self, change):
        log.append((kind, name, index))

    def validator(self):
        log.append((kind, name, index))

    def function(self, *args):
        log.append(('function', name, index))
        return index
    # a name given to the property makes way for the name it has in the class
    more = [{}, {'name': NAMES[index % len(NAMES)]}, {'name': 'given'}][index % 3]
    if kind == 'property':
        return properties.Integer('doc of %d' % index, min=index, default=100 + index, **more)
    if kind == 'gettable':
        return properties.GettableProperty('doc of %d' % index, default=200 + index, **more)
    if kind == 'renamed':
        return properties.Renamed('target', warn=False)
    if kind == 'dynamic':
        def func(self):
            return 300 + index
        func.__name__ = str(name)
        return properties.Integer('doc of %d' % index)(func)
    if kind == 'observer':
        return properties.observer('watched')(listener)
    if kind == 'super observer':
        return properties.observer(['watched'])(listener)
    if kind == 'change observer':
        return properties.observer('watched', change_only=True)(listener)
    if kind == 'validator':
        return properties.validator('watched')(listener)
    if kind == 'class validator':
        return properties.validator(validator)
    if kind == 'function':
        return function
    if kind == 'pyproperty':
        return property(lambda self: 400 + index)
    return None if kind == 'None' else 500 + index


IS_PROP = ('property', 'gettable', 'renamed', 'dynamic')


def check_class(cls, twin, log, ctx):
    nearest = {n: getattr(twin, n) for n in NAMES if hasattr(twin, n)}
    where = [[vars(c)[n] for c in twin.__mro__ if n in vars(c)] for n in NAMES]
    ctx.nontrivial(any(len(w) > 1 for w in where))
    for marks in where:
        if len(marks) > 1:
            ctx.label('%s over %s' % (marks[0].kind, marks[1].kind))
    names = {n for n, m in nearest.items() if m.kind in IS_PROP} | {'watched', 'target'}
    ctx.check(set(cls._props) == names, 'properties are %r, expected %r',
              sorted(cls._props), sorted(names))
    for name, prop in cls._props.items():
        ctx.check(prop.name == name, 'the property %s is called %r', name, prop.name)
    obj = cls()
    for name, mark in nearest.items():
        kind, index = mark.kind, mark.index
        value = getattr(obj, name)
        if kind == 'property':
            ctx.check(value == 100 + index, '%s of class %d is %r', name, index, value)
            ctx.check(cls._props[name].min == index, '%s has minimum %r', name,
                      cls._props[name].min)
            setattr(obj, name, index)
            ctx.check(getattr(obj, name) == index, '%s not set', name)
            err = ctx.raises(ValueError, lambda: setattr(obj, name, index - 1),
                             'too small %s' % name)
            ctx.check(isinstance(err, properties.ValidationError), 'raised %r', err)
        elif kind == 'gettable':
            ctx.check(value == 200 + index, '%s of class %d is %r', name, index, value)
            ctx.raises(AttributeError, lambda: setattr(obj, name, 3), 'setting %s' % name)
        elif kind == 'renamed':
            ctx.check(value == obj.target, '%s is %r', name, value)
            setattr(obj, name, 17)
            ctx.check(obj.target == 17, 'target is %r', obj.target)
        elif kind == 'dynamic':
            ctx.check(value == 300 + index, '%s of class %d is %r', name, index, value)
        elif kind == 'pyproperty':
            ctx.check(value == 400 + index, '%s of class %d is %r', name, index, value)
        elif kind == 'constant':
            ctx.check(value == 500 + index, '%s of class %d is %r', name, index, value)
            setattr(obj, name, 'anything')
            ctx.check(getattr(obj, name) == 'anything', 'plain attribute not set')
        elif kind == 'None':
            ctx.check(value is None, '%s of class %d is %r', name, index, value)
        elif kind == 'function':
            ctx.check(value() == index, '%s of class %d is another', name, index)
        else:
            ctx.check(callable(value), '%s is %r', name, value)
    # notifications
    del log[:]
    obj.watched = 1
    want = sorted((m.kind, n, m.index) for n, m in nearest.items()
                  if m.kind in ('observer', 'super observer', 'change observer',
                                'validator'))
    ctx.check(sorted(log) == want, 'setting called %r, expected %r', log, want)
    del log[:]
    obj.watched = 1
    want = [w for w in want if w[0] != 'change observer']
    ctx.check(sorted(log) == want, 'setting again called %r, expected %r', log, want)
    del log[:]
    obj.validate()
    want = sorted((m.kind, n, m.index) for n, m in nearest.items()
                  if m.kind in ('class validator', 'validator'))
    ctx.check(sorted(log) == want, 'validate called %r, expected %r', log, want)
    # serialization follows the properties
    data = obj.serialize()
    want = names - {n for n in names if n in nearest and nearest[n].kind == 'dynamic'}
    ctx.check(set(data) - {'__class__'} <= want, 'serialized %r', data)
    for name in want:
        if name in nearest and nearest[name].kind == 'renamed':
            continue
        ctx.check(name in data, '%s is missing in %r', name, data)
    back = cls.deserialize(data)
    ctx.check(properties.equal(obj, back), 'loaded another object from %r', data)
    props, others = properties.filter_props(cls, {n: 1 for n in NAMES + ['watched']})
    ctx.check(set(props) == (names & set(NAMES + ['watched'])), 'filtered %r', props)
    ctx.check(set(others) == set(NAMES) - names, 'others are %r', others)


# ------------------------------------------------- listeners that call the inherited one

@st.composite
def super_cases(draw):
    return draw(st.lists(st.tuples(
        st.sampled_from(['observer', 'validator', 'class validator', 'absent', 'function']),
        st.booleans()), min_size=1, max_size=5)), draw(st.booleans())


@facet('super', strategy=super_cases, quick=600, shards=1)
def check_super(case, ctx):
    """A method of a class is replaced by its subclass, which may call it"""
    levels, same_kind = case
    log = []
    meta = type(properties.HasProperties)
    classes = [properties.HasProperties]
    kinds = []
    first = [k for k, _ in levels if k not in ('absent', 'function')]
    for i, (kind, calls) in enumerate(levels):
        if same_kind and first and kind not in ('absent', 'function'):
            kind = first[0]
        body = {'num': properties.Integer('')} if not i else {}
        holder = []

        def method(self, *args, _i=i, _holder=holder, _calls=calls):
            log.append(_i)
            if _calls:
                above = getattr(super(_holder[0], self), 'hook', None)
                if above is not None:
                    try:
                        above(*args)
                    except TypeError:
                        log.append('signature')
        if kind == 'observer':
            body['hook'] = properties.observer('num')(method)
        elif kind == 'validator':
            body['hook'] = properties.validator('num')(method)
        elif kind == 'class validator':
            body['hook'] = properties.validator(method)
        elif kind == 'function':
            body['hook'] = method
        cls = meta('Level%d' % i, (classes[-1],), body)
        holder.append(cls)
        classes.append(cls)
        kinds.append((kind, calls))
        defined = [(j, k, c) for j, (k, c) in enumerate(kinds) if k != 'absent']
        ctx.nontrivial(len(defined) > 1)
        want = []
        for j, _, calls_up in reversed(defined):
            want.append(j)
            if not calls_up:
                break
        nearest = defined[-1][1] if defined else None
        obj = cls()
        del log[:]
        obj.num = 1
        ctx.check(log == (want if nearest in ('observer', 'validator') else []),
                  'setting called %r, expected %r of %r', log, want, kinds)
        del log[:]
        obj.validate()
        ctx.check(log == (want if nearest in ('class validator', 'validator') else []),
                  'validate called %r, expected %r of %r', log, want, kinds)
