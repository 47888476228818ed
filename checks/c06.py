"""C06: observed containers behave like builtins and notify every change"""
import operator

import properties
from hypothesis import strategies as st

from vlib import gens, model
from vlib.harness import facet
from vlib.values import SUBCLASSES, build

ID = 'C06'
RULE = ('histories of up to 12 container operations (every mutator, operator, in-place '
        'operator and reader of list, set and dict) run in lock-step on an observed '
        'container property and on a builtin, including operations on references to '
        'earlier containers; non-trivial: at least one operation changed the property')
FACETS = []

ELEMENTS = [{'t': 'Integer'}, {'t': 'Integer', 'min': 0}, {'t': 'Float'}, {'t': 'Any'}]
KINDS = {'List': list, 'Set': set, 'Dictionary': dict}


def element():
    return st.one_of(st.integers(-2, 6), st.integers(-2, 6), st.integers(0, 6),
                     st.sampled_from([1.0, 3.0, 1.5, 2.0 + 1e-10, 'a', None, True]))


def number():
    return st.integers(-3, 6)


def slices():
    part = st.one_of(st.none(), st.integers(-4, 5))
    return st.tuples(part, part, st.sampled_from([None, None, 1, 2, -1, -2, 0]))


def list_ops():
    elems = st.lists(element(), max_size=3)
    return st.one_of(
        st.tuples(st.sampled_from(['append', 'remove', 'index', 'count', 'contains']),
                  element()),
        st.tuples(st.sampled_from(['extend', 'add', 'iadd', 'extend_gen', 'eq', 'lt']),
                  elems),
        st.tuples(st.just('insert'), number(), element()),
        st.tuples(st.just('pop'), number()),
        st.tuples(st.sampled_from(['popend', 'clear', 'reverse', 'copy', 'len', 'iter',
                                   'reversed', 'extend_self', 'list', 'sort', 'repr',
                                   'bool'])),
        st.tuples(st.just('sortby'), st.booleans()),
        st.tuples(st.just('setitem'), number(), element()),
        st.tuples(st.just('setslice'), slices(), elems),
        st.tuples(st.sampled_from(['delitem', 'getitem']), number()),
        st.tuples(st.sampled_from(['delslice', 'getslice']), slices()),
        st.tuples(st.sampled_from(['mul', 'imul', 'rmul']), st.integers(-1, 3)))


def set_ops():
    elems = st.lists(element(), max_size=4)
    return st.one_of(
        st.tuples(st.sampled_from(['add', 'remove', 'discard', 'contains']), element()),
        st.tuples(st.sampled_from([
            'update', 'difference_update', 'intersection_update',
            'symmetric_difference_update', 'union', 'difference', 'intersection',
            'symmetric_difference', 'isdisjoint', 'issubset', 'issuperset']), elems),
        st.tuples(st.sampled_from(['ior', 'iand', 'isub', 'ixor', 'or', 'and', 'sub',
                                   'xor', 'ror', 'rsub', 'le', 'eq', 'rand', 'rxor']),
                  elems),
        st.tuples(st.just('update2'), elems, elems),
        st.tuples(st.sampled_from(['pop', 'clear', 'copy', 'len', 'sorted', 'bool'])))


def dict_ops():
    pairs = st.lists(st.tuples(element(), element()), max_size=3)
    return st.one_of(
        st.tuples(st.just('setitem'), element(), element()),
        st.tuples(st.sampled_from(['delitem', 'pop', 'get', 'contains', 'getitem',
                                   'setdefault1']), element()),
        st.tuples(st.sampled_from(['pop2', 'setdefault', 'get2']), element(), element()),
        st.tuples(st.sampled_from(['update', 'update_dict', 'ior', 'or', 'eq']), pairs),
        st.tuples(st.sampled_from(['popitem', 'clear', 'copy', 'len', 'items', 'keys',
                                   'values', 'iter', 'bool'])))


READERS = {'index', 'count', 'contains', 'add', 'eq', 'lt', 'copy', 'len', 'iter',
           'reversed', 'list', 'repr', 'getitem', 'getslice', 'mul', 'rmul', 'union',
           'difference', 'intersection', 'symmetric_difference', 'isdisjoint',
           'issubset', 'issuperset', 'or', 'and', 'sub', 'xor', 'ror', 'rsub', 'le',
           'rand', 'rxor', 'sorted', 'get', 'get2', 'items', 'keys', 'values', 'bool'}
# operators whose result is a container of the same class
KEEP_CLASS = {'copy', 'add', 'mul', 'rmul', 'or', 'and', 'sub', 'xor', 'ror', 'rsub', 'rand',
              'rxor', 'union', 'difference', 'intersection', 'symmetric_difference'}
INPLACE = {'iadd', 'imul', 'ior', 'iand', 'isub', 'ixor'}


def is_reader(kind, oper):
    return oper in READERS and not (kind == 'Set' and oper == 'add')


def apply(kind, cont, oper, args):
    """One operation on a container; returns its result"""
    if oper in INPLACE:
        arg = args[0]
        if kind == 'Set':
            arg = set(arg)
        elif kind == 'Dictionary':
            arg = dict(arg)
        return getattr(operator, oper)(cont, arg)
    if oper == 'contains':
        return args[0] in cont
    if oper == 'len':
        return len(cont)
    if oper == 'bool':
        return bool(cont)
    if oper == 'repr':
        return repr(list(cont))
    if oper == 'copy':
        return cont.copy()
    if kind == 'List':
        if oper == 'add':
            return cont + args[0]
        if oper == 'mul':
            return cont * args[0]
        if oper == 'rmul':
            return args[0] * cont
        if oper in ('eq', 'lt'):
            return getattr(operator, oper)(cont, args[0])
        if oper == 'extend_gen':
            return cont.extend(x for x in args[0])
        if oper == 'extend_self':
            return cont.extend(cont)
        if oper == 'popend':
            return cont.pop()
        if oper in ('iter', 'list'):
            return list(cont)
        if oper == 'reversed':
            return list(reversed(cont))
        if oper == 'sortby':
            return cont.sort(key=lambda v: (v % 3, v), reverse=args[0])
        if oper == 'setitem':
            cont[args[0]] = args[1]
            return None
        if oper == 'setslice':
            cont[slice(*args[0])] = args[1]
            return None
        if oper == 'delitem':
            del cont[args[0]]
            return None
        if oper == 'delslice':
            del cont[slice(*args[0])]
            return None
        if oper == 'getitem':
            return cont[args[0]]
        if oper == 'getslice':
            return cont[slice(*args[0])]
        return getattr(cont, oper)(*args)
    if kind == 'Set':
        if oper in ('or', 'and', 'sub', 'xor', 'le', 'eq'):
            name = oper + '_' if oper in ('or', 'and') else oper
            return getattr(operator, name)(cont, set(args[0]))
        if oper in ('ror', 'rsub', 'rand', 'rxor'):
            name = oper[1:] + '_' if oper in ('ror', 'rand') else oper[1:]
            return getattr(operator, name)(set(args[0]), cont)
        if oper == 'sorted':
            return sorted(cont, key=repr)
        if oper == 'update2':
            return cont.update(*args)
        return getattr(cont, oper)(*args)
    if oper == 'setitem':
        cont[args[0]] = args[1]
        return None
    if oper == 'delitem':
        del cont[args[0]]
        return None
    if oper == 'getitem':
        return cont[args[0]]
    if oper == 'or':
        return cont | dict(args[0])
    if oper == 'eq':
        return cont == dict(args[0])
    if oper in ('items', 'keys', 'values'):
        return list(getattr(cont, oper)())
    if oper == 'iter':
        return list(cont)
    if oper == 'update_dict':
        return cont.update(dict(args[0]))
    name = oper.rstrip('12')
    return getattr(cont, name)(*args)


def contents(cont):
    """Exact contents; dictionaries and lists in order"""
    if isinstance(cont, dict):
        return [(k, v) for k, v in cont.items()]
    if isinstance(cont, set):
        return sorted(cont, key=repr)
    return list(cont)


def exact(one, two):
    return model.describe(one)[1:] == model.describe(two)[1:]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    elem = draw(st.sampled_from(ELEMENTS))
    sub = draw(st.integers(0, 4)) == 0
    init = draw(st.lists(st.integers(0, 5), max_size=5))
    ops = draw(st.lists(st.tuples(
        st.one_of(st.just(-1), st.just(-1), st.just(-1), st.integers(0, 3)),
        {'List': list_ops, 'Set': set_ops, 'Dictionary': dict_ops}[kind]()),
        min_size=1, max_size=12))
    return kind, elem, sub, init, ops


@facet('lockstep', strategy=cases, quick=900, shards=8)
def check_lockstep(case, ctx):
    kind, elem, sub, init, ops = case
    spec = {'t': kind, 'observe_mutations': True}
    if kind == 'Dictionary':
        spec.update(key_prop=elem if elem['t'] != 'Float' else {'t': 'Integer'},
                    value_prop=elem)
    else:
        spec['prop'] = elem
    log = []

    class Holder(properties.HasProperties):
        val = model.make(spec)

        @properties.observer('val')
        def _was_set(self, change):
            log.append(('set', change['name'], contents(change['previous'])
                        if change['previous'] is not properties.undefined else None,
                        contents(change['value'])))
            change_self.append(self)

        @properties.observer('val', change_only=True)
        def _changed(self, change):
            log.append(('change', change['name'], contents(change['previous'])
                        if change['previous'] is not properties.undefined else None,
                        contents(change['value'])))
    change_self = []
    cls = KINDS[kind]
    plain = cls((i, i) for i in init) if kind == 'Dictionary' else cls(init)
    own = {'List': 'MyList', 'Set': 'MySet', 'Dictionary': 'MyDict'}[kind]
    value = SUBCLASSES[own](plain) if sub else plain
    obj = Holder(val=value)
    other = Holder(val=value)
    current = model.accept(spec, value)[1]
    ctx.check(exact(obj.val, current), 'stored %r for %r', obj.val, value)
    aliases = []        # (reference, builtin in lock-step) of replaced containers
    for target, (oper, *args) in ops:
        del log[:], change_self[:]
        if target >= 0 and aliases:
            ref, pal = aliases[target % len(aliases)]
            run_detached(kind, ref, pal, oper, args, aliases, target % len(aliases), ctx)
            ctx.check(not log, '%s on a replaced container notified %r', oper, log)
            ctx.check(exact(obj.val, current),
                      '%s on a replaced container changed the property', oper)
            continue
        before = contents(current)
        ref = obj.val
        ctx.check(obj.val is ref, 'reading the property twice gives two containers')
        work = cls(current)
        expect, result = None, None
        try:
            if kind == 'Set' and oper == 'pop':
                work.copy().pop()
            else:
                out = apply(kind, work, oper, args)
                result = out
                if oper in INPLACE:
                    work = out
        except Exception as err:                                # pylint: disable=broad-except
            expect = err
        reader = is_reader(kind, oper)
        got, error = None, None
        try:
            if oper in INPLACE:
                temp = apply(kind, obj.val, oper, args)
                obj.val = temp
            else:
                got = apply(kind, obj.val, oper, args)
        except Exception as err:                                # pylint: disable=broad-except
            error = err
        if expect is not None:
            ctx.label('builtin error')
            ctx.check(type(error) is type(expect), '%s%r raised %r, the builtin %r',
                      oper, tuple(args), error, expect)
        elif reader:
            ctx.check(error is None, 'reader %s%r raised %r', oper, tuple(args), error)
            ctx.check(same_result(got, result), '%s%r gave %r, the builtin %r',
                      oper, tuple(args), got, result)
        if expect is not None or reader:
            ctx.check(not log, '%s%r notified %r', oper, tuple(args), log)
            ctx.check(obj.val is ref and contents(obj.val) == before,
                      '%s%r changed the property', oper, tuple(args))
            if reader and oper in KEEP_CLASS and isinstance(result, cls):
                ctx.check(isinstance(got, type(value)), '%s gave a %s, not a %s', oper,
                          type(got).__name__, type(value).__name__)
                fits = model.accept(spec, result)
                if fits[0] == 'ok':
                    again = Holder(val=got)
                    del log[:], change_self[:]
                    ctx.check(exact(again.val, fits[1]),
                              'the result of %s assigned gives %r', oper, again.val)
            if reader and isinstance(got, cls):
                ctx.check(got is not obj.val, '%s returned the container itself', oper)
                if isinstance(got, dict):
                    got['extra'] = 'not valid'
                else:
                    (got.add if kind == 'Set' else got.append)('not valid')
                ctx.check(not log and contents(obj.val) == before,
                          'changing the result of %s changed the property', oper)
            continue
        if kind == 'Set' and oper == 'pop':
            ctx.check(error is None and got in current, 'pop gave %r %r', got, error)
            work.discard(got)
            result = got
        accepted = model.accept(spec, work)
        ctx.check(accepted is not model.SKIP, 'model undecided')
        if accepted is model.BAD:
            ctx.label('refused')
            ctx.check(isinstance(error, properties.ValidationError),
                      '%s%r must be refused, got %r %r', oper, tuple(args), got, error)
            ctx.check(not log, 'refused %s%r notified %r', oper, tuple(args), log)
            ctx.check(obj.val is ref and contents(obj.val) == before,
                      'refused %s%r changed the property to %r', oper, tuple(args), obj.val)
            continue
        ctx.check(error is None, '%s%r was refused: %r', oper, tuple(args), error)
        ctx.nontrivial()
        ctx.label('mutated')
        ctx.check(oper in INPLACE or same_result(got, result),
                  '%s%r returned %r, the builtin %r', oper, tuple(args), got, result)
        new = accepted[1]
        ctx.check(exact(obj.val, new), '%s%r made %r, the builtin %r from %r',
                  oper, tuple(args), obj.val, new, before)
        ctx.check(contents(obj.val) == contents(new), 'order differs: %r', obj.val)
        ctx.check(isinstance(obj.val, type(value)), 'class of container changed')
        differs = not model.equal(spec, current, new)
        want = [('set', 'val', before, contents(new))]
        if differs:
            want.insert(0, ('change', 'val', before, contents(new)))
        ctx.check([x for x in log] == want, '%s%r notified %r, expected %r',
                  oper, tuple(args), log, want)
        ctx.check(all(x is obj for x in change_self), 'wrong object notified')
        ctx.check(ref is not obj.val and contents(ref) == before,
                  'the replaced container was changed by %s to %r', oper, ref)
        aliases.append((ref, cls(current)))
        current = new
    ctx.check(exact(other.val, model.accept(spec, value)[1]),
              'another object with the same initial value changed')
    # whatever happened, the property is still observed
    del log[:]
    if kind == 'Dictionary':
        obj.val[9] = 9
    else:
        (obj.val.add if kind == 'Set' else obj.val.append)(9)
    ctx.check(len([x for x in log if x[0] == 'set']) == 1,
              'the container is no longer observed')


def same_result(got, want):
    if isinstance(want, (list, set, dict)):
        return isinstance(got, type(want)) and contents(got) == contents(want)
    return type(got) is type(want) and got == want


def run_detached(kind, ref, pal, oper, args, aliases, pos, ctx):
    """A replaced container is just a container"""
    if kind == 'Set' and oper == 'pop':
        oper, args = 'discard', [2]
    expect, want = None, None
    try:
        want = apply(kind, pal, oper, args)
    except Exception as err:                                    # pylint: disable=broad-except
        expect = err
    error, got = None, None
    try:
        got = apply(kind, ref, oper, args)
    except Exception as err:                                    # pylint: disable=broad-except
        error = err
    ctx.label('detached')
    ctx.check(type(error) is type(expect),
              'replaced container: %s%r raised %r, the builtin %r', oper, tuple(args),
              error, expect)
    ctx.check(contents(ref) == contents(pal), 'replaced container: %s%r made %r, not %r',
              oper, tuple(args), ref, pal)
    if expect is None:
        ctx.check(same_result(got, want), 'replaced container: %s%r gave %r, not %r',
                  oper, tuple(args), got, want)
        if oper in INPLACE:
            aliases[pos] = (got, want)


def source_cases(tier):
    out = []
    for kind in sorted(KINDS):
        for source in ('init', 'set', 'default', 'class_default', 'factory', 'load',
                       'copy', 'reset', 'other_object', 'update_load', 'coerce',
                       'union', 'inherited', 'renamed', 'alias_iop', 'raw_result'):
            out.append((kind, source))
    return out


@facet('sources', cases=source_cases, shards=1)
def check_sources(case, ctx):
    """However the container got there, the property observes it, and only it"""
    kind, source = case
    cls = KINDS[kind]
    start = cls([(1, 1), (2, 2)]) if kind == 'Dictionary' else cls([1, 2])
    log = []
    spec = {'t': kind, 'observe_mutations': True}
    if kind == 'Dictionary':
        spec.update(key_prop={'t': 'Integer'}, value_prop={'t': 'Integer'})
    else:
        spec['prop'] = {'t': 'Integer'}
    if source == 'coerce':
        spec['coerce'] = True
    if source == 'default' or source == 'reset':
        spec['default'] = start
    ctx.nontrivial()

    def watch(self, change):
        log.append((self, change['name']))
    body = {'val': model.make(spec), 'watch': properties.observer(
        properties.everything)(watch)}
    if source == 'factory':
        body['val'].default = lambda: cls(start)
    if source == 'union':
        body['val'] = properties.Union('', [properties.String(''), model.make(spec)])
    if source == 'class_default':
        body['_defaults'] = {'val': start}
    if source == 'renamed':
        body['old'] = properties.Renamed('val')
    Holder = type(properties.HasProperties)(str('Holder'), (properties.HasProperties,), body)
    if source == 'inherited':
        Holder = type(Holder)(str('Sub'), (Holder,), {})
    first = Holder(val=start)
    obj = first
    if source in ('default', 'class_default', 'factory'):
        obj = Holder()
    elif source == 'set':
        obj = Holder()
        obj.val = start
    elif source == 'reset':
        obj = Holder(val=cls())
        obj._reset('val')
    elif source == 'load':
        obj = Holder.deserialize({'val': {1: 1, 2: 2} if cls is dict else [1, 2]})
    elif source == 'update_load':
        obj = Holder()
        Holder.deserialize({'val': {1: 1, 2: 2} if cls is dict else [1, 2]}, _instance=obj)
    elif source == 'copy':
        obj = properties.copy(first)
    elif source == 'other_object':
        obj = Holder(val=first.val)
    elif source == 'coerce':
        obj = Holder(val=[(1, 1), (2, 2)] if cls is dict else (1, 2))
    elif source == 'renamed':
        obj = Holder(old=start)
    elif source == 'alias_iop' and cls is not dict:
        ref = obj.val
        ref = (operator.iadd(ref, [7]) if cls is list else operator.ior(ref, {7}))
        ctx.check(contents(obj.val) == [1, 2], 'property changed by an alias')
    elif source == 'raw_result' and cls is list:
        obj.val = obj.val + [7]
        obj.val = obj.val[:2]
    del log[:]
    read = 'old' if source == 'renamed' else 'val'

    def add(item):
        cont = getattr(obj, read)
        if cls is dict:
            cont[item] = item
        elif cls is set:
            cont.add(item)
        else:
            cont.append(item)
    add(3)
    ctx.check([x for x in log if x[0] is obj and x[1] == 'val'] == log and len(log) == 1,
              'mutation of a container from %s notified %r', source, log)
    ctx.check(contents(obj.val) == ([(1, 1), (2, 2), (3, 3)] if cls is dict
                                    else [1, 2, 3]), 'contents %r', obj.val)
    ctx.raises(properties.ValidationError, lambda: add('no'), 'adding an invalid item')
    ctx.check(len(log) == 1, 'a refused item notified')
    add(4)
    ctx.check(len(log) == 2, 'the second mutation notified %r', log)
    ctx.check(len(start) == 2, 'the value passed in changed')
    if first is not obj:
        ctx.check(len(first.val) == 2, 'another object changed')


@st.composite
def plain_cases(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    ops = draw(st.lists({'List': list_ops, 'Set': set_ops, 'Dictionary': dict_ops}[kind](),
                        min_size=1, max_size=6))
    return kind, draw(st.lists(st.integers(0, 5), max_size=4)), ops


@facet('unobserved', strategy=plain_cases, quick=400, shards=1)
def check_unobserved(case, ctx):
    """Without observe_mutations the stored container is a plain builtin"""
    kind, init, ops = case
    cls = KINDS[kind]
    log = []

    class Holder(properties.HasProperties):
        val = getattr(properties, kind)('')

        @properties.observer('val')
        def _was_set(self, change):
            log.append(change)
    pal = cls((i, i) for i in init) if kind == 'Dictionary' else cls(init)
    obj = Holder(val=pal)
    ctx.check(type(obj.val) is cls, 'stored class %s', type(obj.val))
    del log[:]
    ctx.nontrivial()
    ref = obj.val
    for oper, *args in ops:
        if kind == 'Set' and oper == 'pop' or oper in INPLACE:
            continue
        outs = []
        for cont in (pal, ref):
            try:
                outs.append(('ok', apply(kind, cont, oper, args)))
            except Exception as err:                            # pylint: disable=broad-except
                outs.append(('error', type(err)))
        ctx.check(outs[0] == outs[1] and contents(pal) == contents(obj.val),
                  '%s%r: %r', oper, args, outs)
    ctx.check(not log and obj.val is ref, 'mutating a plain container notified')


# ------------------------------------------------- subclasses of containers

@st.composite
def subclass_cases(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    count = draw(st.integers(1, 3))
    return kind, [(draw(st.sampled_from(['Items', 'Items', 'Things', kind.lower()])),
                   draw(st.booleans()), draw(st.integers(0, 2)) == 0)
                  for _ in range(count)], draw(st.booleans()), \
        draw(st.lists(st.tuples(st.integers(0, count - 1),
                                st.sampled_from(['add', 'bad', 'clear', 'own', 'swap'])),
                      min_size=1, max_size=8))


def container_class(kind, name, number, overrides, parent=None):
    base = KINDS[kind]
    adder = {'List': 'append', 'Set': 'add', 'Dictionary': 'setdefault'}[kind]
    seen = []

    def tag(self):
        return number, len(self)

    def add(self, *args):
        seen.append(number)
        return getattr(base, adder)(self, *args)

    def twice(self, one, two):
        """A mutator that the library does not know, made of ones it knows"""
        if base is dict:
            self.update({one: one, two: two})
        elif base is set:
            self.update({one, two})
        else:
            self.extend([one, two])
    body = {'tag': tag, 'twice': twice}
    if overrides:
        body[adder] = add
    return type(str(name), (parent or base,), body), seen


@facet('subclasses', strategy=subclass_cases, quick=600, shards=1)
def check_subclasses(case, ctx):
    """Observed containers keep the class they were given, whatever its name"""
    kind, kinds, backwards, ops = case
    base = KINDS[kind]
    kwargs = {'key_prop': properties.Integer(''), 'value_prop': properties.Integer('')} \
        if base is dict else {'prop': properties.Integer('')}
    log = []

    class Holder(properties.HasProperties):
        val = getattr(properties, kind)('', observe_mutations=True, **kwargs)

        @properties.observer('val')
        def _was_set(self, change):
            log.append((self, change['value']))
    made = []
    classes = []
    for number, (name, overrides, derived) in enumerate(kinds):
        parent, above = classes[-1] if derived and classes else (None, None)
        cls, seen = container_class(kind, name, number, overrides, parent)
        classes.append((cls, (seen, True) if overrides else above or (seen, False)))
    # a class may be observed before or after the one that it derives from
    for number in sorted(range(len(kinds)), reverse=backwards):
        cls, (seen, counts) = classes[number]
        obj = Holder(val=cls({1: 1} if base is dict else [1]))
        made.append([obj, cls, (seen, counts), {1} if base is not list else [1], number])
    ctx.nontrivial(len({n for n, _, _ in kinds}) < len(kinds) or any(k[2] for k in kinds[1:]))
    del log[:]
    for at, op in ops:
        entry = made[at]
        obj, cls, (seen, counts), want, number = entry
        item = len(want) + 5
        before = len(seen)
        if op in ('add', 'bad'):
            item = item if op == 'add' else 'no'

            def act(obj=obj, item=item):
                if base is list:
                    obj.val.append(item)
                elif base is set:
                    obj.val.add(item)
                else:
                    obj.val.setdefault(item, item)
            if op == 'bad':
                ctx.raises(properties.ValidationError, act, 'adding %r' % (item,))
                ctx.check(not log, 'a refused item notified')
            else:
                act()
                want.append(item) if base is list else want.add(item)
                ctx.check(len(log) == 1 and log[0][0] is obj, 'adding notified %r', log)
                ctx.check(len(seen) - before == (1 if counts else 0),
                          'the method of the class ran %d times', len(seen) - before)
        elif op == 'clear':
            obj.val.clear()
            want.clear()
            ctx.check(len(log) == 1, 'clear notified %r', log)
        elif op == 'own':
            obj.val.twice(item, item + 1)
            want.extend([item, item + 1]) if base is list else want.update({item, item + 1})
            ctx.check(len(log) == 1, 'an own mutator notified %r', log)
        else:
            other = made[(at + 1) % len(made)]
            obj.val = other[0].val
            entry[1], entry[2], entry[4] = other[1], other[2], other[4]
            entry[3] = type(other[3])(other[3])
            ctx.check(len(log) == 1, 'assigning notified %r', log)
        del log[:]
        for obj, cls, seen, want, number in made:
            ctx.check(isinstance(obj.val, cls), 'holds a %r, not a %r', type(obj.val).__mro__,
                      cls)
            ctx.check(not any(isinstance(obj.val, c) for c, _ in classes
                              if not issubclass(cls, c)),
                      'holds a %r, expected a %r', type(obj.val).__mro__, cls)
            ctx.check(obj.val.tag() == (number, len(want)), 'its method gives %r',
                      obj.val.tag())
            got = list(obj.val) if base is list else set(obj.val)
            ctx.check(got == want, 'contents are %r, expected %r', got, want)
