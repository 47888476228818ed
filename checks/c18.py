"""C18: links between properties"""
import properties
import traitlets
from hypothesis import strategies as st

from vlib import model
from vlib.harness import facet

ID = 'C18'
RULE = ('up to six properties and traits on up to four objects, joined by directional links '
        '(with transforms, update_now, change_only) and mutual links of two to four items, '
        'then driven by histories of assignments, refused assignments, in-place changes, '
        'unlink and relink of whole links and of their parts; every value is compared with '
        'a model after every step; non-trivial: a value travelled over at least two links, '
        'or a link was cut, or an update was refused')
FACETS = []
ASSUMPTIONS = ['every property is reached over one path only (no diamonds of links), where '
               'the order of updates cannot matter',
               'four mutually linked items that pass on every set (change_only=False) take '
               'exponential time and are not generated',
               'observers of a target that write to its source are not claimed']

KINDS = {
    'float': {'t': 'Float'},
    'int': {'t': 'Integer'},
    'bound': {'t': 'Float', 'min': -5, 'max': 5},
    'cast': {'t': 'Integer', 'cast': True},
    'string': {'t': 'String'},
    'list': {'t': 'List', 'observe_mutations': True, 'prop': {'t': 'Integer', 'min': -9}},
}


class Boom(Exception):
    pass


def boom(val):
    if val > 3:
        raise Boom()
    return val


def first(val):
    return val[:1]


class Doubler(object):
    def __call__(self, val):
        return val * 2


TRANSFORMS = {
    None: lambda v: v, 'inc': lambda v: v + 1, 'neg': lambda v: -v,
    'double': Doubler(), 'const': lambda v: 4, 'boom': boom, 'str': str,
    'unset': lambda v: int(v is None),
}
LIST_TRANSFORMS = {
    None: lambda v: v, 'rev': lambda v: list(v)[::-1], 'first': first,
    'const': lambda v: [7], 'double': Doubler(), 'unset': lambda v: [] if v else [1],
}


@st.composite
def cases(draw):
    lists = draw(st.integers(0, 3)) == 0
    count = draw(st.integers(2, 6))
    if lists:
        kinds = ['list'] * count
        value = st.lists(st.integers(-3, 3), max_size=3)
    else:
        kinds = [draw(st.sampled_from(['float', 'float', 'int', 'bound', 'cast', 'string',
                                       'tfloat', 'tint'])) for _ in range(count)]
        value = st.one_of(st.integers(-7, 7), st.integers(-14, 14).map(lambda i: i / 2.))
    homes = [draw(st.integers(0, 3)) for _ in range(count)]
    start = [draw(value) for _ in range(count)]
    kin = list(range(count))
    links = []
    for _ in range(draw(st.integers(1, 4))):
        size = draw(st.sampled_from([1, 1, 1, 2, 3, 4]))
        pick = draw(st.permutations(range(count)))
        chosen = []
        for node in pick:
            if kin[node] not in [kin[c] for c in chosen]:
                chosen.append(node)
            if len(chosen) == max(size, 2):
                break
        if len(chosen) < 2:
            continue
        for node in chosen[1:]:
            old, new = kin[node], kin[chosen[0]]
            kin = [new if k == old else k for k in kin]
        trans = None
        if size > 1:
            # a casting property would change what the others sent
            kinds = ['int' if k == 'cast' and i in chosen else k
                     for i, k in enumerate(kinds)]
        if size == 1:
            trans = draw(st.sampled_from(
                ([None] * 2 + ['rev', 'first', 'const', 'double', 'unset']) if lists else
                ([None] * 2 + ['inc', 'neg', 'double', 'const', 'boom', 'str', 'unset'])))
        links.append({'items': chosen[:2] if size == 1 else chosen, 'mutual': size > 1,
                      'trans': trans, 'now': draw(st.integers(0, 2)) == 0,
                      # four items that pass on every set take exponential time
                      'only': draw(st.sampled_from([None, None, True, False]
                                                   if len(chosen) < 4 or size == 1
                                                   else [None, True]))})
    node = st.integers(0, count - 1)
    which = st.tuples(st.integers(0, 3), st.one_of(st.none(), st.none(), st.integers(0, 11)))
    step = st.one_of(
        st.tuples(st.just('set'), node, value),
        st.tuples(st.just('set'), node, value),
        st.tuples(st.just('set'), node, st.sampled_from([['x'], 99, 'text'])),
        st.tuples(st.just('again'), node, st.none()),
        st.tuples(st.just('delete'), node, st.none()),
        st.tuples(st.just('quiet'), node, value),
        st.tuples(st.just('unlink'), which, st.none()),
        st.tuples(st.just('relink'), which, st.none()),
        *([st.tuples(st.just('append'), node, st.integers(-12, 5))] if lists else []))
    return {'kinds': kinds, 'homes': homes, 'start': start, 'links': links,
            'steps': draw(st.lists(step, min_size=1, max_size=12))}


class Refused(Exception):
    pass


class Edge(object):
    def __init__(self, source, target, trans, only):
        self.source = source
        self.target = target
        self.trans = trans
        self.only = only
        self.on = True
        self.busy = False


class Model(object):
    """What the linked values should be"""

    def __init__(self, kinds):
        self.kinds = kinds
        self.values = [None] * len(kinds)
        self.edges = []
        self.quiet = False
        self.hops = 0
        self.depth = 0

    def accept(self, node, val):
        kind = self.kinds[node]
        if kind in ('tfloat', 'tint'):
            if isinstance(val, int) or (isinstance(val, float) and
                                        (kind == 'tfloat' or val == int(val))):
                return float(val) if kind == 'tfloat' else int(val)
            raise Refused()
        got = model.accept(KINDS[kind], val)
        if got is model.SKIP:
            raise model.Unclaimed()
        if got is model.BAD:
            raise Refused()
        return got[1]

    def send(self, edge):
        if not edge.on or edge.busy:
            return
        edge.busy = True
        self.depth += 1
        self.hops = max(self.hops, self.depth)
        try:
            try:
                val = edge.trans(self.values[edge.source])
            except (Boom, TypeError):
                raise Refused()
            self.set(edge.target, val)
        finally:
            edge.busy = False
            self.depth -= 1

    def set(self, node, val, inplace=False, delete=False):
        val = None if delete else self.accept(node, val)
        old = self.values[node]
        self.values[node] = val
        trait = self.kinds[node] in ('tfloat', 'tint')
        if self.quiet and not trait:
            return
        for edge in list(self.edges):
            if edge.source == node and (old != val or not (edge.only or trait)):
                self.send(edge)


ERRORS = (ValueError, TypeError, Boom, traitlets.TraitError)


@facet('histories', strategy=cases, quick=1600, shards=4)
def check_histories(case, ctx):
    kinds = case['kinds']
    table = LIST_TRANSFORMS if kinds[0] == 'list' else TRANSFORMS
    cls = {}
    body = {}
    tbody = {}
    for i, kind in enumerate(kinds):
        if kind == 'tfloat':
            tbody['n%d' % i] = traitlets.Float()
        elif kind == 'tint':
            tbody['n%d' % i] = traitlets.Int()
        else:
            body['n%d' % i] = model.make(KINDS[kind])
    plain = type(properties.HasProperties)('Plain', (properties.HasProperties,), body)
    traits = type(traitlets.HasTraits)('Traits', (traitlets.HasTraits,), tbody)
    homes = [(plain(), traits()) for _ in range(4)]
    spare = plain()
    spare_values = [repr(getattr(spare, n)) for n in body]

    def owner(i):
        return homes[case['homes'][i]][kinds[i] in ('tfloat', 'tint')]

    def read(i):
        return getattr(owner(i), 'n%d' % i)

    def snapshot():
        return [list(v) if isinstance(v, list) else v
                for v in map(read, range(len(kinds)))]

    ref = Model(kinds)
    for i, val in enumerate(case['start']):
        good = {'string': 'start', 'list': [1]}.get(kinds[i], 1)
        try:
            good = ref.accept(i, val)
        except Refused:
            pass
        setattr(owner(i), 'n%d' % i, good)
        ref.set(i, good)

    def compare(what):
        got = snapshot()
        ctx.check(got == ref.values and
                  [type(v) for v in got] == [type(v) for v in ref.values],
                  'after %s the values are %r, expected %r', what, got, ref.values)

    def attempt(real, modelled, what, affected):
        """Both refuse or both agree; affected: nodes that may change"""
        ref.hops = ref.depth = 0
        before = list(ref.values)
        try:
            modelled()
        except Refused:
            modelled = None
        if modelled is None:
            ctx.raises(ERRORS, real, what)
            ctx.label('refused')
            ctx.nontrivial()
            got = snapshot()
            for i, val in enumerate(got):
                ctx.check(i in affected or val == before[i],
                          '%s changed property %d, which is not linked to it', what, i)
            ref.values = got
            return False
        real()
        if ref.hops > 1:
            ctx.label('hops %d' % ref.hops)
            ctx.nontrivial()
        compare(what)
        return True

    def downstream(node):
        """Nodes a change of node may reach"""
        seen = {node}
        todo = [node]
        while todo:
            at = todo.pop()
            for edge in ref.edges:
                if edge.on and edge.source == at and edge.target not in seen:
                    seen.add(edge.target)
                    todo.append(edge.target)
        return seen

    made = []
    compare('the start')
    for n, spec in enumerate(case['links']):
        items = [(owner(i), 'n%d' % i) for i in spec['items']]
        kwargs = {}
        if spec['now']:
            kwargs['update_now'] = True
        if spec['only'] is not None and not any(kinds[i][0] == 't' for i in spec['items']):
            kwargs['change_only'] = spec['only']
        if spec['trans'] is not None:
            kwargs['transform'] = table[spec['trans']]
        only = kwargs.get('change_only', True)
        pairs = [(a, b) for a in spec['items'] for b in spec['items'] if a != b] \
            if spec['mutual'] else [tuple(spec['items'])]
        out = []
        mine = []

        def real():
            out.append(properties.link(*items, **kwargs) if spec['mutual'] else
                       properties.directional_link(*items, **kwargs))

        def modelled():
            for a, b in pairs:
                edge = Edge(a, b, table[spec['trans']], only)
                if spec['now']:
                    ref.send(edge)
                mine.append(edge)
                ref.edges.append(edge)

        reach = set()
        for a, b in pairs:
            reach |= downstream(b)
        if not attempt(real, modelled, 'making link %d' % n, reach):
            # half a mutual link may stay behind: nothing more is claimed
            if spec['mutual'] and mine:
                return
            continue
        made.append((spec, out[0], mine))
        if spec['mutual'] and spec['now']:
            vals = [ref.values[i] for i in spec['items']]
            ctx.check(all(v == vals[0] for v in vals), 'link %d is not in sync: %r', n, vals)
        dlinks = out[0].dlinks if spec['mutual'] else [out[0]]
        ctx.check(len(dlinks) == len(pairs), 'link %d has %d parts', n, len(dlinks))
        for dlink, (a, b) in zip(dlinks, pairs):
            ctx.check(dlink.source == (owner(a), 'n%d' % a) and
                      dlink.target == (owner(b), 'n%d' % b), 'link %d joins other items', n)
    for op, at, val in case['steps']:
        if op in ('unlink', 'relink'):
            if not made:
                continue
            spec, real, edges = made[at[0] % len(made)]
            on = op == 'relink'
            if at[1] is None or not spec['mutual']:
                getattr(real, op)()
                for edge in edges:
                    edge.on = on
            else:
                k = at[1] % len(edges)
                getattr(real.dlinks[k], op)()
                edges[k].on = on
            ctx.nontrivial()
            compare(op)
            continue
        name = 'n%d' % at
        what = '%s of %s to %r' % (op, name, val)
        if op == 'again':
            val = ref.values[at]
            val = list(val) if isinstance(val, list) else val
        if op == 'delete':
            if kinds[at] in ('tfloat', 'tint'):
                continue
            ok = attempt(lambda: delattr(owner(at), name),
                         lambda: ref.set(at, None, delete=True), what, downstream(at))
        elif op == 'append' and ref.values[at] is None:
            continue
        elif op == 'append':
            changed = list(ref.values[at]) + [val]
            ok = attempt(lambda: getattr(owner(at), name).append(val),
                         lambda: ref.set(at, changed, inplace=True), what, downstream(at))
        elif op == 'quiet':
            def real():
                with properties.listeners_disabled():
                    setattr(owner(at), name, val)
            ref.quiet = True
            ok = attempt(real, lambda: ref.set(at, val), what, downstream(at))
            ref.quiet = False
        else:
            given = list(val) if isinstance(val, list) else val
            old = ref.values[at]
            ok = attempt(lambda: setattr(owner(at), name, val),
                         lambda: ref.set(at, val), what, downstream(at))
            ctx.check(val == given, '%s changed its value to %r', what, val)
        if ok and op == 'set':
            for spec, real, edges in made:
                if spec['mutual'] and at in spec['items'] and all(e.on for e in edges):
                    vals = [read(i) for i in spec['items']]
                    if ref.values[at] != old:
                        ctx.check(all(v == vals[0] for v in vals),
                                  'linked values differ: %r', vals)
    ctx.check([repr(getattr(spare, n)) for n in body] == spare_values,
              'an unlinked object changed')
    if kinds[0] == 'list':
        lists = [v for v in map(read, range(len(kinds))) if v is not None]
        ctx.check(len({id(v) for v in lists}) == len(lists), 'linked lists are one list')


BAD_ITEMS = ['list', 'one', 'three', 'number', 'noobj', 'cls', 'noname', 'intname', 'same',
             'none', 'string']


@st.composite
def bad_cases(draw):
    return {'mutual': draw(st.booleans()), 'bad': draw(st.sampled_from(
                BAD_ITEMS + ['few', 'transform', 'args0', 'args2', 'badtrans'])),
            'at': draw(st.integers(0, 1)), 'trait': draw(st.booleans()),
            'now': draw(st.booleans()), 'vals': draw(st.tuples(st.integers(0, 4),
                                                               st.integers(5, 9)))}


@facet('declarations', strategy=bad_cases, quick=400, shards=1)
def check_declarations(case, ctx):
    class Some(properties.HasProperties):
        num = properties.Integer('')

    class Trait(traitlets.HasTraits):
        num = traitlets.Int()

    one, two = Some(num=case['vals'][0]), (Trait if case['trait'] else Some)()
    two.num = case['vals'][1]
    good = [(one, 'num'), (two, 'num')]
    at = case['at']
    obj = good[at][0]
    bad = case['bad']
    kwargs = {'update_now': True} if case['now'] else {}
    items = list(good)
    if bad in BAD_ITEMS:
        items[at] = {
            'list': [obj, 'num'], 'one': (obj,), 'three': (obj, 'num', 'num'), 'number': 5,
            'noobj': (object(), 'num'), 'cls': (type(obj), 'num'), 'noname': (obj, 'nope'),
            'intname': (obj, 3), 'same': good[1 - at], 'none': None, 'string': 'num'}[bad]
    elif bad == 'few':
        if not case['mutual']:
            return
        items = items[:at]
    elif bad == 'transform':
        kwargs['transform'] = 5 if not case['mutual'] else (lambda v: v)
    elif bad == 'badtrans':
        kwargs['transform'] = 'upper'
    elif bad == 'args0':
        kwargs['transform'] = lambda: 4
    elif bad == 'args2':
        kwargs['transform'] = lambda a, b: 4
    how = properties.link if case['mutual'] else properties.directional_link
    ctx.nontrivial()
    ctx.label(bad)
    ctx.raises(ValueError, lambda: how(*items, **kwargs), 'link with %s item' % bad)
    ctx.check((one.num, two.num) == case['vals'] or case['now'], 'a refused link changed values')
    ctx.check(one.num == case['vals'][0] or case['mutual'] or at,
              'a refused link wrote its source')
    left = one.num, two.num
    if not case['mutual']:
        ctx.check(left == case['vals'], 'a refused link changed values')
        one.num = 9 - case['vals'][0]
        ctx.check(two.num == left[1], 'a refused link works')
        two.num = 0
        ctx.check(one.num == 9 - case['vals'][0], 'a refused link works')


# ------------------------------------------- properties that correct themselves

RULES = {
    'cap': lambda v: min(v, 5), 'floor': lambda v: max(v, -2), 'abs': abs,
    'even': lambda v: v - v % 2, 'reset': lambda v: 0 if v > 3 else v,
}


@st.composite
def correcting(draw):
    """A chain of properties, some of which correct what they are given"""
    count = draw(st.integers(2, 4))
    nodes = []
    for i in range(count):
        nodes.append({'rule': draw(st.sampled_from([None] + sorted(RULES))),
                      'how': draw(st.sampled_from(['class', 'early', 'late', 'validator'])),
                      'only': draw(st.sampled_from([None, True, False])),
                      'trans': draw(st.sampled_from([None, None, 'inc', 'neg', 'double']))})
    return {'nodes': nodes, 'only': draw(st.sampled_from([None, True, False])),
            'now': draw(st.booleans()),
            'values': draw(st.lists(st.integers(-9, 12), min_size=1, max_size=6))}


def correcting_class(node):
    rule = RULES.get(node['rule'])
    kwargs = {} if node['only'] is None else {'change_only': node['only']}
    body = {'num': properties.Integer('a number')}

    def correct(self, change):
        if rule(change['value']) != change['value']:
            self.num = rule(change['value'])

    def replace(self, change):
        change['value'] = rule(change['value'])

    if rule and node['how'] == 'class':
        body['correct'] = properties.observer('num', **kwargs)(correct)
    if rule and node['how'] == 'validator':
        body['replace'] = properties.validator('num')(replace)
    return type(properties.HasProperties)('Corrects', (properties.HasProperties,), body), \
        correct, kwargs


@facet('correcting', strategy=correcting, quick=800, shards=1)
def check_correcting(case, ctx):
    """A target ends with what its source ends with, whoever set the source last"""
    objs, late = [], []
    for node in case['nodes']:
        cls, correct, kwargs = correcting_class(node)
        obj = cls(num=0)
        if node['rule'] and node['how'] == 'early':
            properties.observer(obj, 'num', correct, **kwargs)
        if node['rule'] and node['how'] == 'late':
            late.append((obj, correct, kwargs))
        objs.append(obj)
    options = {} if case['only'] is None else {'change_only': case['only']}
    for one, two, node in zip(objs, objs[1:], case['nodes'][1:]):
        extra = dict(options)
        if node['trans']:
            extra['transform'] = TRANSFORMS[node['trans']]
        properties.directional_link((one, 'num'), (two, 'num'), update_now=case['now'],
                                    **extra)
    for obj, correct, kwargs in late:
        properties.observer(obj, 'num', correct, **kwargs)
    ctx.nontrivial(any(n['rule'] for n in case['nodes']))
    ctx.label('%d correct' % sum(bool(n['rule']) for n in case['nodes']))

    def through(at, val):
        rule = case['nodes'][at]['rule']
        return RULES[rule](val) if rule else val

    for val in case['values']:
        before = [o.num for o in objs]
        objs[0].num = val
        got = [o.num for o in objs]
        ctx.check(got[0] == through(0, val), 'given %r the first holds %r', val, got[0])
        for at in range(1, len(objs)):
            if got[at - 1] == before[at - 1]:
                continue
            trans = TRANSFORMS[case['nodes'][at]['trans']]
            want = through(at, trans(got[at - 1]))
            ctx.check(got[at] == want, 'given %r the values became %r, number %d should be %r',
                      val, got, at, want)


# ------------------------------------------------- values that are equal and not the same

EXACT = [0, False, 0.0, 1, True, 1.0, '1', 'a', (1,), (1.0,), 2]


@st.composite
def exact_cases(draw):
    item = st.integers(0, len(EXACT) - 1)
    return (draw(st.booleans()), draw(st.integers(2, 3)),
            draw(st.lists(st.tuples(st.integers(0, 2), item), min_size=1, max_size=6)),
            draw(st.lists(st.booleans(), min_size=6, max_size=6)))


@facet('exact', strategy=exact_cases, quick=500, shards=1)
def check_exact(case, ctx):
    """Links that pass every assignment pass the value itself, whatever it equals"""
    mutual, count, steps, fresh = case

    class Node(properties.HasProperties):
        val = properties.Property('')
    nodes = [Node() for _ in range(count)]
    items = [(node, 'val') for node in nodes]
    if mutual:
        properties.link(*items, change_only=False)
    else:
        for one, two in zip(items, items[1:]):
            properties.directional_link(one, two, change_only=False)
    for (index, pick), again in zip(steps, fresh):
        index = index % count
        value = EXACT[pick]
        if again and isinstance(value, tuple):
            value = tuple(list(value))
        before = [node.val for node in nodes]
        nodes[index].val = value
        for i, node in enumerate(nodes):
            want = value if mutual or i >= index else before[i]
            ctx.nontrivial(i != index and before[i] is not None and before[i] == value and
                           before[i] is not value)
            ctx.check(node.val is want, 'node %d is %r, expected %r', i, node.val, want)
