"""C26: objects that refer to themselves"""
import json
import warnings

import properties
from hypothesis import strategies as st

from vlib.harness import facet

ID = 'C26'
RULE = ('random directed graphs of up to nine objects that refer to each other through instance, '
        'list, tuple, set, dictionary and union properties, with missing members and with '
        'errors planted in validators, serializers and comparisons of some objects; sequences '
        'of operations on them with edges added and removed in between; non-trivial: the '
        'operation reaches a cycle, a shared object or a planted error')
FACETS = []
ASSUMPTIONS = ['the result of comparing two different objects that reach cycles is only claimed '
               'to be False where the documentation says so (objects of the same structure)',
               'validation and serialization follow every path, so graphs of up to nine objects '
               'have at most 14 references: time is not claimed for dense graphs']

KINDS = ['one', 'two', 'many', 'pair', 'grp', 'keyed', 'either']


class Boom(Exception):
    pass


class Halt(BaseException):
    """Like an interrupt"""


BOOMS = (Boom, Halt)


def boom(count, what):
    """Every other planned failure is an interrupt"""
    count[0] += 1
    raise BOOMS[count[0] % 2](what)


def make_class():
    booms = [0]

    class Node(properties.HasProperties):
        num = properties.Integer('')
        _plan = ''

        def _raise(self, when):
            if self._plan == when:
                boom(booms, when)

        @properties.validator
        def planned(self):
            self._raise('validate')

    def serializer(value, **kwargs):
        if value == 'serialize':
            boom(booms, 'serialize')
        return value

    class Fuse(properties.String):
        def equal(self, value_a, value_b):
            if made.armed and 'equal' in (value_a, value_b):
                boom(booms, 'equal')
            return value_a == value_b
    Node.__name__ = str('Plain')
    made = type(Node)(str('Node'), (Node,), {
        'fuse': Fuse('', default='', serializer=serializer),
        'one': properties.Instance('', Node, required=False),
        'two': properties.Instance('', Node, required=False),
        'many': properties.List('', Node, default=list),
        'pair': properties.Tuple('', Node, default=()),
        'grp': properties.Set('', Node, default=set),
        'keyed': properties.Dictionary('', key_prop=properties.String(''),
                                       value_prop=properties.Instance('', Node), default=dict),
        'either': properties.Union('', [properties.Integer(''), properties.Instance('', Node)],
                                   default=0)})
    made.armed = False
    return made


@st.composite
def graphs(draw):
    count = draw(st.integers(1, 9))
    idx = st.integers(0, count - 1)
    acyclic = draw(st.integers(0, 2)) == 0
    edges = []
    for _ in range(draw(st.integers(0, min(14, 2 * count + 2)))):
        one, two = draw(idx), draw(idx)
        if acyclic:
            if one == two:
                continue
            one, two = min(one, two), max(one, two)
        edges.append((one, draw(st.sampled_from(KINDS)), two))
    nums = draw(st.lists(st.sampled_from([0, 0, 1] + [None] * (draw(st.integers(0, 3)) == 0)),
                         min_size=count, max_size=count))
    plans = [''] * count
    if draw(st.integers(0, 2)) == 0:
        plans[draw(idx)] = draw(st.sampled_from(['validate', 'serialize', 'equal']))
    return count, edges, nums, plans


class World(object):
    """The objects of a graph and what they are expected to do"""

    def __init__(self, case, cls):
        count, edges, self.nums, self.plans = case
        self.nums, self.plans = list(self.nums), list(self.plans)
        self.count = count
        self.cls = cls
        self.objs = [cls() for _ in range(count)]
        self.refs = [{k: [] for k in KINDS} for _ in range(count)]
        for i in range(count):
            if self.nums[i] is not None:
                self.objs[i].num = self.nums[i]
            self.plan(i, self.plans[i])
        for one, kind, two in edges:
            self.add(one, kind, two)

    def plan(self, i, plan):
        self.plans[i] = plan
        self.objs[i]._plan = plan
        self.objs[i].fuse = plan if plan in ('serialize', 'equal') else ''

    def add(self, one, kind, two):
        obj, other, refs = self.objs[one], self.objs[two], self.refs[one][kind]
        if kind in ('one', 'two', 'either'):
            refs[:] = [two]
        elif kind == 'grp':
            if two not in refs:
                refs.append(two)
        elif len(refs) < 3:
            refs.append(two)
        self.store(one, kind)
        del obj, other

    def drop(self, one, kind):
        del self.refs[one][kind][:]
        self.store(one, kind)

    def store(self, one, kind):
        obj = self.objs[one]
        vals = [self.objs[i] for i in self.refs[one][kind]]
        if kind in ('one', 'two'):
            if vals:
                setattr(obj, kind, vals[0])
            else:
                delattr(obj, kind)
        elif kind == 'either':
            obj.either = vals[0] if vals else 0
        elif kind == 'many':
            obj.many = vals
        elif kind == 'pair':
            obj.pair = tuple(vals)
        elif kind == 'grp':
            obj.grp = set(vals)
        else:
            obj.keyed = {'k%d' % n: v for n, v in enumerate(vals)}

    def next(self, i):
        return [j for k in KINDS for j in self.refs[i][k]]

    def reach(self, i):
        seen, todo = {i}, [i]
        while todo:
            for j in self.next(todo.pop()):
                if j not in seen:
                    seen.add(j)
                    todo.append(j)
        return seen

    def cyclic(self, i):
        """Can a cycle be reached?"""
        return any(j in self.reach(k) for j in self.reach(i) for k in self.next(j))

    def tree(self, i):
        """The JSON expected"""
        out = {'__class__': 'Node', 'fuse': self.plans[i] if self.plans[i] in (
            'serialize', 'equal') else ''}
        if self.nums[i] is not None:
            out['num'] = self.nums[i]
        for kind in KINDS:
            vals = [self.tree(j) for j in self.refs[i][kind]]
            if kind in ('one', 'two'):
                if vals:
                    out[kind] = vals[0]
            elif kind == 'either':
                out[kind] = vals[0] if vals else 0
            elif kind == 'keyed':
                out[kind] = {'k%d' % n: v for n, v in enumerate(vals)}
            else:
                out[kind] = vals
        return out

    def shape(self, i):
        return canonical(self.tree(i))


def canonical(data):
    """JSON with sets in a fixed order"""
    if isinstance(data, dict):
        out = {k: canonical(v) for k, v in data.items()}
        if isinstance(out.get('grp'), list):
            out['grp'] = sorted(out['grp'], key=repr)
        return dict(sorted(out.items()))
    if isinstance(data, list):
        return [canonical(v) for v in data]
    return data


def outcome(func):
    try:
        return func(), None
    except (Exception, Halt) as err:    # pylint: disable=broad-except
        return None, err


@st.composite
def cases(draw):
    case = draw(graphs())
    idx = st.integers(0, case[0] - 1)
    op = st.one_of(
        st.tuples(st.sampled_from(['validate', 'serialize', 'copy', 'equal', 'equal', 'twin',
                                   'self']), idx, idx),
        st.tuples(st.sampled_from(['validate', 'serialize', 'copy', 'twin']), idx, idx),
        st.tuples(st.just('add'), idx, st.tuples(st.sampled_from(KINDS), idx)),
        st.tuples(st.just('drop'), idx, st.sampled_from(KINDS)),
        st.tuples(st.just('plan'), idx, st.sampled_from(['', '', 'validate', 'serialize',
                                                         'equal'])),
        st.tuples(st.just('num'), idx, st.sampled_from([None, 0, 1])))
    return case, draw(st.lists(op, min_size=1, max_size=8))


@facet('history', strategy=cases, quick=2500, shards=7)
def check_history(case, ctx):
    graph, ops = case
    cls = make_class()
    world, twin = World(graph, cls), World(graph, cls)
    total = len(graph[1])
    for op in ops:
        name, i, arg = op
        if name == 'add':
            total += 1
            if total > 18:
                continue
            for side in (world, twin):
                side.add(i, arg[0], arg[1])
        elif name == 'drop':
            for side in (world, twin):
                side.drop(i, arg)
        elif name == 'plan':
            for side in (world, twin):
                side.plan(i, arg)
        elif name == 'num':
            for side in (world, twin):
                side.nums[i] = arg
                if arg is None:
                    del side.objs[i].num
                else:
                    side.objs[i].num = arg
        else:
            step(ctx, world, twin, name, i, arg)


def step(ctx, world, twin, name, i, j):
    obj = world.objs[i]
    near = world.reach(i)
    cyclic = world.cyclic(i)
    boom = {world.plans[k] for k in near}
    shared = sum(len(world.next(k)) for k in near) >= len(near)
    ctx.nontrivial(cyclic or shared or bool(boom - {''}))
    ctx.label(name + (' cyclic' if cyclic else ' shared' if shared else ''))
    what = '%s of object %d' % (name, i)
    if name == 'validate':
        got, err = outcome(obj.validate)
        invalid = [k for k in near if world.nums[k] is None]
        if isinstance(err, properties.ValidationError):
            ctx.check(invalid, '%s: %r, though all are valid', what, err)
            # a union reports members as its own invalid value
            allowed = {(id(world.objs[k]), 'num', 'missing') for k in invalid} | {
                (id(world.objs[k]), 'either', 'invalid') for k in near
                if any(world.reach(n) & set(invalid) for n in world.refs[k]['either'])}
            ctx.check(err.error_tuples and allowed >= {
                (id(t.instance), t.prop, t.reason) for t in err.error_tuples},
                '%s reported %r', what, err.error_tuples)
        elif isinstance(err, BOOMS):
            ctx.check('validate' in boom, '%s: %r', what, err)
        else:
            ctx.check(err is None and got is True, '%s: %r %r', what, got, err)
            ctx.check(not invalid, '%s did not find the invalid objects %r', what, invalid)
            ctx.check('validate' not in boom, '%s did not reach all objects', what)
    elif name == 'serialize':
        got, err = outcome(obj.serialize)
        if err is None:
            ctx.check(not cyclic, '%s: %r despite a cycle', what, got)
            ctx.check('serialize' not in boom, '%s hid an error', what)
            ctx.check(canonical(got) == world.shape(i), '%s gave %r', what, got)
        elif isinstance(err, BOOMS):
            ctx.check('serialize' in boom, '%s: %r', what, err)
        else:
            ctx.check(isinstance(err, properties.SelfReferenceError) and cyclic, '%s: %r', what,
                      err)
    elif name == 'copy':
        got, err = outcome(lambda: properties.copy(obj))
        if err is None:
            ctx.check(not cyclic and 'serialize' not in boom, '%s: %r', what, got)
            ctx.check(canonical(got.serialize()) == world.shape(i), '%s gave %r', what,
                      got.serialize())
        elif isinstance(err, BOOMS):
            ctx.check('serialize' in boom, '%s: %r', what, err)
        else:
            ctx.check(isinstance(err, properties.SelfReferenceError) and cyclic, '%s: %r', what,
                      err)
    else:
        other = {'self': obj, 'twin': twin.objs[i], 'equal': world.objs[j]}[name]
        world.cls.armed = True
        got, err = outcome(lambda: properties.equal(obj, other))
        world.cls.armed = False
        both = near | (world.reach(j) if name == 'equal' else near)
        if isinstance(err, BOOMS):
            ctx.check(any(world.plans[k] == 'equal' for k in both) and other is not obj,
                      '%s: %r', what, err)
            return
        ctx.check(err is None and (got is True or got is False), '%s: %r %r', what, got, err)
        if other is obj:
            ctx.check(got is True, '%s: an object does not equal itself', what)
        elif name == 'twin':
            if 'equal' in boom:
                ctx.check(got is False, '%s hid an error', what)
            else:
                ctx.check(got is (not cyclic), '%s: two of the same structure gave %r', what, got)
        elif not cyclic and not world.cyclic(j):
            same = world.shape(i) == world.shape(j)
            if not any(world.plans[k] == 'equal' for k in both):
                ctx.check(got is same, '%s and %d gave %r, expected %r', what, j, got, same)


# ------------------------------------------------- the recursion guard itself

@st.composite
def guard_cases(draw):
    count = draw(st.integers(1, 6))
    idx = st.integers(0, count - 1)
    edges = draw(st.lists(st.tuples(idx, idx), max_size=10))
    return count, edges, draw(st.sampled_from(['value', 'callable', 'error'])), \
        draw(st.lists(st.tuples(idx, st.sampled_from(['', '', 'raise', 'halt'])), min_size=1,
                      max_size=5)), draw(st.one_of(st.none(), idx))


@facet('guard', strategy=guard_cases, quick=1200)
def check_guard(case, ctx):
    """stop_recursion_with runs a method once per object on the way, whatever happens"""
    count, edges, backup, calls, bad = case
    count_calls = [0]

    class Stop(Exception):
        pass
    stop = Stop('recursive')

    def fallback(self, extra):
        return -1 - extra
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        guard = properties.stop_recursion_with(
            {'value': -1, 'callable': fallback, 'error': stop}[backup])

    class Node(properties.HasProperties):
        links = properties.List('', properties.Instance('', properties.HasProperties),
                                default=list)

        @guard
        def total(self, extra):
            """sum over all paths"""
            count_calls[0] += 1
            if count_calls[0] > 3000:
                raise RuntimeError('too many')
            if state['raise'] and bad is not None and self is objs[bad]:
                raise state['boom']('planned')
            return 1 + extra + sum(k.total(extra) for k in self.links)
    state = {}
    objs = [Node() for _ in range(count)]
    links = [[b for a, b in edges if a == i] for i in range(count)]
    for i, obj in enumerate(objs):
        obj.links = [objs[j] for j in links[i]]

    def expect(i, extra, path):
        if i in path:
            if backup == 'error':
                raise Stop('recursive')
            return -1 if backup == 'value' else -1 - extra
        if state['raise'] and i == bad:
            raise state['boom']('planned')
        return 1 + extra + sum(expect(j, extra, path + (i,)) for j in links[i])
    for i, mode in calls:
        state['raise'] = mode in ('raise', 'halt')
        state['boom'] = Halt if mode == 'halt' else Boom
        count_calls[0] = 0
        want, want_err = outcome(lambda: expect(i, i, ()))
        got, err = outcome(lambda: objs[i].total(i))
        ctx.nontrivial(bool(links[i]))
        ctx.check(got == want and type(err) is type(want_err) or
                  type(err).__name__ == type(want_err).__name__ == 'Stop',
                  'total of %d: %r %r, expected %r %r', i, got, err, want, want_err)
        ctx.check(not isinstance(err, Stop) or err is stop, 'raised %r', err)
    ctx.check(Node.total.__name__ == 'total' and Node.total.__doc__ == 'sum over all paths',
              'the method lost its name')


# ------------------------------------------------------------ long chains

@st.composite
def chain_cases(draw):
    return draw(st.integers(2, 60)), draw(st.sampled_from(['one', 'many', 'keyed', 'either',
                                                           'pair'])), \
        draw(st.integers(0, 60)), draw(st.sampled_from(['chain', 'ring', 'tail']))


@facet('chains', strategy=chain_cases, quick=150)
def check_chains(case, ctx):
    """Long chains work, long rings are recognized"""
    count, kind, invalid, shape = case
    cls = make_class()
    edges = [(i, kind, i + 1) for i in range(count - 1)]
    if shape == 'ring':
        edges.append((count - 1, kind, 0))
    elif shape == 'tail':
        edges.append((count - 1, kind, count // 2))
    nums = [1] * count
    if invalid < count:
        nums[invalid] = None
    graph = count, edges, nums, [''] * count
    world, twin = World(graph, cls), World(graph, cls)
    for name in ('validate', 'serialize', 'copy', 'twin', 'self', 'validate', 'twin'):
        step(ctx, world, twin, name, 0, 0)
    for i in range(count):
        if nums[i] is None:
            for side in (world, twin):
                side.nums[i] = 0
                side.objs[i].num = 0
    if shape != 'chain':
        for side in (world, twin):
            side.drop(count - 1, kind)
    for i in (0, count // 2, count - 1):
        for name in ('validate', 'serialize', 'copy', 'twin'):
            step(ctx, world, twin, name, i, i)
