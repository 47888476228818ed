"""C14: disabling listeners"""
import properties
from hypothesis import strategies as st
from properties import extras

from vlib.harness import facet

ID = 'C14'
RULE = ('random programs of nested, reused and re-entered disabling blocks that end '
        'normally or by any kind of error, with assignments on objects, and library '
        'operations that succeed or fail in the middle; after each step all three kinds of '
        'listeners are probed; non-trivial: at least two blocks were entered or an '
        'operation failed')
FACETS = []
ASSUMPTIONS = ['blocks are left in the reverse order of entering (the with statement)']

KINDS = ['validate', 'observe_set', 'observe_change']
CHOICES = ['all', 'validators', 'observers', 'validate', 'observe_set', 'observe_change',
           'both observers', 'list', 'empty', 'tuple']
OFF = {
    'all': KINDS, 'validators': ['validate'], 'observers': KINDS[1:],
    'validate': ['validate'], 'observe_set': ['observe_set'],
    'observe_change': ['observe_change'], 'both observers': KINDS[1:],
    'list': ['validate', 'observe_change'], 'empty': [], 'tuple': ['observe_set'],
}
MAKE = {
    'all': lambda: properties.listeners_disabled(),
    'validators': properties.validators_disabled,
    'observers': properties.observers_disabled,
    'validate': lambda: properties.listeners_disabled('validate'),
    'observe_set': lambda: properties.listeners_disabled(disable_type='observe_set'),
    'observe_change': lambda: properties.listeners_disabled('observe_change'),
    'both observers': lambda: properties.listeners_disabled({'observe_set',
                                                             'observe_change'}),
    'list': lambda: properties.listeners_disabled(['validate', 'observe_change']),
    'empty': lambda: properties.listeners_disabled([]),
    'tuple': lambda: properties.listeners_disabled(('observe_set',)),
}


class Stopped(BaseException):
    """An error that is no Exception"""


ERRORS = {'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt,
          'Stopped': Stopped, 'StopIteration': StopIteration, 'AttributeError': AttributeError,
          'KeyError': KeyError, 'TypeError': TypeError, 'GeneratorExit': GeneratorExit,
          'AssertionError': AssertionError, 'RuntimeError': RuntimeError, 'OSError': OSError,
          'ValidationError': lambda: properties.ValidationError('no')}


class Probe(object):
    """Objects whose listeners log, and the kinds that fire now"""

    def __init__(self, vetoing=False):
        self.log = log = []

        class Watched(properties.HasProperties):
            num = properties.Integer('')
            items = properties.List('', properties.Integer(''), observe_mutations=True)

            @properties.validator('num')
            def _check(self, change):
                log.append(('class', change['mode']))

            @properties.observer('num')
            def _on_set(self, change):
                log.append(('class', change['mode']))

            @properties.observer('num', change_only=True)
            def _on_change(self, change):
                log.append(('class', change['mode']))
        self.cls = Watched
        self.objs = [Watched(num=0), Watched(num=0)]
        for obj in self.objs:
            properties.validator(obj, ['num', 'items'], self.listen)
            properties.observer(obj, ['num', 'items'], self.listen)
            properties.observer(obj, properties.everything, self.listen, change_only=True)
            obj.items = []
        self.value = 0
        del log[:]

    def listen(self, obj, change):
        self.log.append(('instance', change['mode']))

    def fired(self, index, name='num'):
        """Which listeners an assignment fires now"""
        del self.log[:]
        obj = self.objs[index]
        self.value += 1
        if name == 'num':
            obj.num = self.value
        else:
            obj.items.append(self.value)
        out = sorted(self.log)
        del self.log[:]
        return out

    def expected(self, off, name='num'):
        out = []
        for kind in KINDS:
            if kind not in off:
                out += [('instance', kind)]
                if name == 'num':
                    out += [('class', kind)]
        return sorted(out)

    def check(self, off, ctx, where):
        for index in (0, 1):
            for name in ('num', 'items'):
                got, want = self.fired(index, name), self.expected(off, name)
                ctx.check(got == want, '%s: setting %s fired %r, expected %r', where, name,
                          got, want)
        err = None
        try:
            self.objs[0].num = 'text'
        except properties.ValidationError as exc:
            err = exc
        ctx.check(err is not None and not self.log, '%s: text was accepted', where)


@st.composite
def programs(draw, depth=3):
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(['block', 'block', 'probe', 'block', 'set', 'again']))
        if kind == 'block' and depth:
            steps.append(('block', draw(st.sampled_from(CHOICES)),
                          draw(programs(depth=depth - 1)),
                          draw(st.sampled_from([None, None] + sorted(ERRORS)))))
        elif kind == 'again' and depth:     # a block object made before is used again
            steps.append(('again', draw(st.integers(0, 3)),
                          draw(programs(depth=depth - 1)),
                          draw(st.sampled_from([None, None] + sorted(ERRORS)))))
        elif kind == 'set':
            steps.append(('retype', draw(st.integers(0, 3)),
                          draw(st.sampled_from(['all', 'validate', 'observe_set',
                                                'both observers', 'list']))))
        else:
            steps.append(('probe',))
    return steps


class Runner(object):
    def __init__(self, ctx):
        self.probe = Probe()
        self.made = []          # [manager, choice]
        self.entered = 0
        self.ctx = ctx

    def run(self, steps, off):
        for step in steps:
            if step[0] == 'probe':
                pass
            elif step[0] == 'retype':
                if self.made:
                    entry = self.made[step[1] % len(self.made)]
                    kinds = OFF[step[2]]
                    entry[0].disable_type = None if step[2] == 'all' else list(kinds)
                    entry[1] = kinds
            else:
                if step[0] == 'block':
                    entry = [MAKE[step[1]](), OFF[step[1]]]
                    self.made.append(entry)
                elif not self.made:
                    continue
                else:
                    entry = self.made[step[1] % len(self.made)]
                self.entered += 1
                inside = set(off) | set(entry[1])
                error = step[3]
                try:
                    with entry[0]:
                        self.probe.check(inside, self.ctx, 'inside %r' % (step[:2],))
                        self.run(step[2], inside)
                        if error:
                            raise ERRORS[error]()
                except tuple({type(make()) for make in ERRORS.values()}) as err:
                    self.ctx.check(error is not None, 'block raised %r', err)
                    self.ctx.check(type(err).__name__ == error, 'raised %r', err)
                else:
                    self.ctx.check(error is None, 'a %s was swallowed', error)
            self.probe.check(off, self.ctx, 'after %r' % (step[:2],))


@facet('nesting', strategy=programs, quick=1500, shards=5)
def check_nesting(case, ctx):
    runner = Runner(ctx)
    runner.probe.check(set(), ctx, 'at the start')
    runner.run(case, set())
    ctx.nontrivial(runner.entered > 1)
    runner.probe.check(set(), ctx, 'at the end')


# ------------------------------------------------- library operations

def failing(kind):
    def func(*args, **kwargs):
        raise ERRORS[kind]()
    return func


def op_default(mode, kind):
    """A callable default that fails, sets an object, or opens blocks"""
    state = {'fail': False}

    def default():
        if state['fail']:
            raise ERRORS[kind]()
        if mode == 'blocks':
            with properties.validators_disabled():
                with properties.listeners_disabled():
                    pass
        return 3

    class Holder(properties.HasProperties):
        first = properties.Integer('', default=1)
        num = properties.Integer('', default=default)
        last = properties.List('', properties.Integer(''), default=list)
    state['fail'] = mode == 'fails'
    Holder()


def op_invalid_default(mode, kind):
    state = {'bad': False}

    class Holder(properties.HasProperties):
        num = properties.Integer('', default=lambda: 'x' if state['bad'] else 1)
        fixed = properties.GettableProperty('', default=lambda: 1)
    state['bad'] = mode == 'fails'
    Holder()._reset()


def op_init(mode, kind):
    class Holder(properties.HasProperties):
        num = properties.Integer('')

        def __init__(self, **kwargs):
            super(Holder, self).__init__(**kwargs)
            if mode == 'fails':
                raise ERRORS[kind]()
    Holder(num=3)


def op_keywords(mode, kind):
    class Holder(properties.HasProperties):
        num = properties.Integer('')

        @properties.observer('num')
        def _changed(self, change):
            if mode == 'raises':
                raise ERRORS[kind]()
    Holder(num='x' if mode == 'fails' else 3)


def op_deserialize(mode, kind):
    class Inner(properties.HasProperties):
        num = properties.Integer('', deserializer=failing(kind) if mode == 'raises' else None)

    class Holder(properties.HasProperties):
        inner = properties.Instance('', Inner)
        many = properties.List('', properties.Instance('', Inner))
    data = {'inner': {'num': 3}, 'many': [{'num': 'x' if mode == 'fails' else '3'}]}
    Holder.deserialize(data)


def op_deserialize_init(mode, kind):
    class Holder(properties.HasProperties):
        num = properties.Integer('')

        def __init__(self, **kwargs):
            super(Holder, self).__init__(**kwargs)
            if mode == 'raises':
                raise ERRORS[kind]()
    Holder.deserialize({'num': 3} if mode != 'fails' else {'num': [1]}, strict=True)


def op_assert_valid(mode, kind):
    class Holder(properties.HasProperties):
        num = properties.Integer('')

        @properties.validator
        def _valid(self):
            if mode == 'raises':
                raise ERRORS[kind]()
            return True
    Holder.deserialize({'num': 3} if mode != 'fails' else {}, assert_valid=True)


def op_copy(mode, kind):
    class Holder(properties.HasProperties):
        num = properties.Integer('', serializer=failing(kind) if mode == 'raises' else None)
    obj = Holder(num=3)
    if mode == 'fails':
        properties.copy(object())
    properties.copy(obj)


def op_uid(mode, kind):
    class Node(extras.HasUID):
        num = properties.Integer('')
        other = properties.Instance('', extras.HasUID)

        def __init__(self, **kwargs):
            super(Node, self).__init__(**kwargs)
            if mode == 'raises' and len(extras.HasUID._INSTANCES) > 1:
                raise ERRORS[kind]()
    one = Node(uid='a', num=1)
    data = one.serialize()
    extras.HasUID._INSTANCES.clear()
    if mode == 'fails':
        data['a']['num'] = 'x'
    elif mode == 'raises':
        Node(uid='b')
        Node(uid='c')
    Node.deserialize(data)


def op_singleton(mode, kind):
    class One(extras.Singleton):
        name = properties.String('')
        num = properties.Integer('')

        def __init__(self, name, **kwargs):
            super(One, self).__init__(name, **kwargs)
            if mode == 'raises':
                raise ERRORS[kind]()
    One('solo', num='x' if mode == 'fails' else 3)


def op_validate(mode, kind):
    class Holder(properties.HasProperties):
        num = properties.Integer('')

        @properties.validator
        def _one(self):
            with properties.observers_disabled():
                if mode == 'raises':
                    raise ERRORS[kind]()
    obj = Holder() if mode == 'fails' else Holder(num=3)
    obj.validate()


def op_listener(mode, kind):
    class Holder(properties.HasProperties):
        num = properties.Integer('')

        @properties.validator('num')
        def _check(self, change):
            with properties.listeners_disabled():
                self.items = [1]
                if mode == 'raises':
                    raise ERRORS[kind]()
                if mode == 'fails':
                    self.items = ['x']
        items = properties.List('', properties.Integer(''), observe_mutations=True)
    with properties.observers_disabled():
        Holder(num=3)
        obj = Holder()
        obj.items = []
        obj.items.append(3 if mode == 'works' else 'x')


def op_class(mode, kind):
    class Holder(properties.HasProperties):
        num = properties.Integer('')
        _defaults = {'num': (lambda: 3) if mode == 'works' else (
            failing(kind) if mode == 'raises' else 'x')}


def op_task(mode, kind):
    class Report(extras.BaseTask):
        class Output(extras.BaseOutput):
            num = properties.Integer('')

        def run(self, input_obj):
            if mode == 'raises':
                raise ERRORS[kind]()
            return self.Output(success=True) if mode == 'fails' else self.Output(
                success=True, num=3)
    Report()()


def op_equal(mode, kind):
    class Loud(object):
        def __eq__(self, other):
            if mode == 'raises':
                raise ERRORS[kind]()
            return False
        __hash__ = None

    class Holder(properties.HasProperties):
        val = properties.Property('')
    one = Holder(val=Loud())
    two = Holder(val=Loud())
    if mode != 'works':
        one.val = Loud()
    properties.equal(one, two)


def op_link(mode, kind):
    class Holder(properties.HasProperties):
        num = properties.Integer('', max=3)

        @properties.observer('num')
        def _seen(self, change):
            if mode == 'raises' and self.num == 2:
                raise ERRORS[kind]()
    one, two = Holder(num=1), Holder(num=1)
    properties.directional_link((one, 'num'), (two, 'num'),
                                transform=lambda v: v + (9 if mode == 'fails' else 0))
    one.num = 2


OPS = {k[3:]: v for k, v in sorted(globals().items()) if k.startswith('op_')}


def op_cases():
    return st.tuples(
        st.lists(st.tuples(st.sampled_from(sorted(OPS)),
                           st.sampled_from(['works', 'fails', 'raises']),
                           st.sampled_from(sorted(ERRORS))), min_size=1, max_size=4),
        st.lists(st.sampled_from(CHOICES), max_size=2))


@facet('operations', strategy=op_cases, quick=1200, shards=3)
def check_operations(case, ctx):
    ops, blocks = case
    probe = Probe()
    off = set()
    managers = []
    for choice in blocks:
        manager = MAKE[choice]()
        manager.__enter__()
        managers.append(manager)
        off |= set(OFF[choice])
    for name, mode, kind in ops:
        extras.HasUID._INSTANCES.clear()
        extras.Singleton._SINGLETONS.clear()
        error = None
        try:
            OPS[name](mode, kind)
        except (Exception, Stopped, KeyboardInterrupt, GeneratorExit) as err:  # pylint: disable=broad-except
            if type(err).__name__ == 'CaseTimeout':
                raise
            error = err
        ctx.label('%s %s' % (name, 'failed' if error is not None else 'done'))
        ctx.nontrivial(error is not None)
        probe.check(off, ctx, 'after %s (%s, %s): %r' % (name, mode, kind, error))
    for manager in reversed(managers):
        manager.__exit__(None, None, None)
    probe.check(set(), ctx, 'at the end')


# ------------------------------------------------- construction is always quiet

@st.composite
def type_cases(draw):
    return draw(st.one_of(
        st.sampled_from(CHOICES), st.sampled_from(['other', '', 'observe', 'Validate', 3,
                                                   1.5, True]),
        st.lists(st.sampled_from(KINDS), max_size=3),
        st.lists(st.sampled_from(KINDS + ['other', '']), max_size=3))), \
        draw(st.sampled_from(['list', 'set', 'tuple']))


@facet('types', strategy=type_cases, quick=200, shards=1)
def check_types(case, ctx):
    """Only the three documented kinds can be disabled"""
    case, form = case
    ctx.nontrivial()
    if isinstance(case, str) and case in CHOICES and case not in KINDS:
        manager = MAKE[case]()
        off = OFF[case]
    else:
        good = (isinstance(case, str) and case in KINDS or isinstance(case, list) and
                all(v in KINDS for v in case))
        if not good:
            ctx.raises(TypeError, lambda: properties.listeners_disabled(case),
                       'disabling %r' % (case,))
            Probe().check(set(), ctx, 'after a refused type')
            return
        given = {'set': set, 'tuple': tuple}.get(form, list)(case) \
            if isinstance(case, list) else case
        manager = properties.listeners_disabled(given)
        off = [case] if isinstance(case, str) else list(case)
        # the block is independent of the container that was given
        if isinstance(given, list):
            given[:] = KINDS
        elif isinstance(given, set):
            given.update(KINDS)
    probe = Probe()
    with manager:
        probe.check(set(off), ctx, 'inside %r' % (case,))
    probe.check(set(), ctx, 'after %r' % (case,))
