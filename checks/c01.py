"""C01: numeric and boolean properties accept, convert and reject as documented"""
import properties
from hypothesis import strategies as st

from vlib import gens, model
from vlib.common import decide
from vlib.harness import facet
from vlib.values import V, build

ID = 'C01'
RULE = ('random numeric/boolean declarations (bounds, cast) and values (ints, floats, '
        'nan/inf, tolerance borders, big numbers, numpy and subclass scalars, '
        'fractions, decimals, numeric text, other objects); non-trivial: the value '
        'is decided by the model (not skipped) and is not an already-stored plain '
        'value of the exact type without bounds')
FACETS = []


def numeric_spec():
    return st.one_of(
        gens.integer_spec(), gens.float_spec(),
        gens.merge('Complex', gens.flag('cast')),
        gens.merge('Boolean', gens.flag('cast')),
        gens.merge('Bool', gens.flag('cast')))


@st.composite
def cases(draw):
    spec = draw(numeric_spec())
    return spec, draw(st.one_of(
        gens.candidate(spec) if spec['t'] != 'Bool' else gens.junk(),
        gens.near(spec), gens.scalars(), gens.nptypes(), gens.fractions_(),
        gens.numtext()))


@facet('assign', strategy=cases, quick=1500, shards=4)
def check_assign(case, ctx):
    spec, raw = case
    value = build(raw)
    ctx.nontrivial(not (type(value) in (int, float, complex, bool) and len(spec) == 1
                        and type(value).__name__ == spec['t'].lower()))
    decide(spec, value, ctx)


@st.composite
def bound_cases(draw):
    kind = draw(st.sampled_from(['Integer', 'Float']))
    low = draw(gens.BOUND_NUMBERS)
    high = draw(gens.BOUND_NUMBERS)
    spec = {'t': kind, 'min': min(low, high), 'max': max(low, high)}
    if draw(st.booleans()):
        spec.pop(draw(st.sampled_from(['min', 'max'])))
    if draw(st.booleans()):
        spec['cast'] = True
    return spec, draw(gens.near(spec))


@facet('bounds', strategy=bound_cases, quick=900, shards=2)
def check_bounds(case, ctx):
    spec, raw = case
    ctx.nontrivial()
    decide(spec, build(raw), ctx)


@st.composite
def tolerance_cases(draw):
    kind = draw(st.sampled_from(['Integer', 'Float', 'Complex']))
    base = draw(st.integers(-1000, 1000))
    delta = draw(st.sampled_from([1e-12, 1e-10, 5e-10, 2e-9, 5e-9, 1e-8, 1e-7,
                                  1e-6, 1e-4, 0.5])) * draw(st.sampled_from([1, -1]))
    cast = draw(st.booleans())
    return dict({'t': kind}, **({'cast': True} if cast else {})), base + delta


@facet('tolerance', strategy=tolerance_cases, quick=500, shards=1)
def check_tolerance(case, ctx):
    spec, value = case
    ctx.nontrivial()
    decide(spec, value, ctx)


@st.composite
def json_cases(draw):
    spec = draw(numeric_spec())
    spec.pop('cast', None)
    return spec, draw(gens.valid_value(dict(spec, t=spec['t'].replace(
        'Bool', 'Boolean') if spec['t'] == 'Bool' else spec['t'])))


@facet('json', strategy=json_cases, quick=700, shards=1)
def check_json(case, ctx):
    """Serialized numbers are JSON numbers/text that load back to the value"""
    import json
    spec, raw = case
    value = build(raw)
    expected = model.accept(spec, value)
    if expected[0] != 'ok':
        return
    ctx.nontrivial()

    class Holder(properties.HasProperties):
        val = model.make(spec)
    obj = Holder(val=value)
    data = json.loads(json.dumps(obj.serialize(), allow_nan=False))
    back = Holder.deserialize(data)
    ctx.check(model.same(obj.val, back.val), '%r -> %r -> %r', obj.val, data, back.val)


BOOL_TEXT = {True: ['true', 'y', 'yes', 'on'], False: ['false', 'n', 'no', 'off']}


def bool_text_cases(tier):
    out = []
    for want, words in BOOL_TEXT.items():
        for word in words:
            for variant in {word, word.upper(), word.title(), word.capitalize()}:
                out.append((variant, want))
    for other in ['', 't', 'f', '2', 'yess', 'nope', 'none', ' true', 'o', '0']:
        out.append((other, None))
    for other in [1.5, 0.0, [], {}, [True]]:
        out.append((other, None))
    out += [(True, True), (False, False)]
    return out


@facet('bool_text', cases=bool_text_cases, shards=1)
def check_bool_text(case, ctx):
    """Booleans load from the documented JSON words and nothing else"""
    text, want = case
    ctx.nontrivial()

    class Holder(properties.HasProperties):
        val = properties.Boolean('')
    if want is None:
        ctx.raises(ValueError, lambda: Holder.deserialize({'val': text}),
                   'loading %r as boolean' % (text,))
    else:
        ctx.check(Holder.deserialize({'val': text}).val is want,
                  'boolean %r loaded wrong', text)
