"""C02: text, choice, color, date, UUID and URL properties"""
import json
import random
import uuid

import properties
from hypothesis import strategies as st
from properties.extras import URL

from vlib import gens, model
from vlib.common import decide
from vlib.csscolors import CSS, LETTERS
from vlib.harness import facet
from vlib.values import V, build

ID = 'C02'
RULE = ('random string/choice/color/datetime/UUID/URL declarations with values built '
        'to be valid, borderline and of other kinds, plus all 148 web color names and '
        'all one-letter colors; non-trivial: the value is text (or a sequence for '
        'colors) or an otherwise valid value, i.e. not junk of another kind')
FACETS = []


def text_spec():
    return st.one_of(gens.string_spec(), gens.string_spec(), gens.choice_spec(),
                     st.just({'t': 'Color'}), st.just({'t': 'DateTime'}))


@st.composite
def cases(draw):
    spec = draw(text_spec())
    return spec, draw(st.one_of(gens.valid_value(spec), gens.near(spec),
                                gens.near(spec), gens.candidate(spec),
                                gens.texts(12)))


@facet('assign', strategy=cases, quick=1500, shards=4)
def check_assign(case, ctx):
    spec, raw = case
    value = build(raw)
    ctx.nontrivial(isinstance(value, (str, list, tuple)) or isinstance(raw, V))
    decide(spec, value, ctx)


@st.composite
def strip_cases(draw):
    spec = {'t': 'String', 'strip': draw(st.text('aB ß\u0130\u00ef', min_size=1, max_size=3))}
    spec.update(draw(st.sampled_from([{}, {'change_case': 'upper'},
                                      {'change_case': 'lower'}])))
    spec.update(draw(st.sampled_from([{}, {'unicode': False}, {'regex': 'x'}])))
    value = draw(st.text('aAbBxX \u00dfi', max_size=10))
    return spec, draw(st.sampled_from([value, V('sub', 'MyStr', value)]))


@facet('strip', strategy=strip_cases, quick=600, shards=1)
def check_strip(case, ctx):
    spec, raw = case
    ctx.nontrivial()
    decide(spec, build(raw), ctx)


@st.composite
def choice_cases(draw):
    spec = draw(gens.choice_spec())
    return spec, draw(st.one_of(gens.valid_value(spec), gens.near(spec)))


@facet('choice', strategy=choice_cases, quick=700, shards=1)
def check_choice(case, ctx):
    spec, value = case
    ctx.nontrivial()
    decide(spec, value, ctx)
    # every documented spelling leads to its key
    prop = model.make(spec)
    choices = spec['choices']
    if not isinstance(choices, dict):
        choices = {c: [] for c in choices}
    for key, alts in choices.items():
        for text in [key] + (alts if isinstance(alts, list) else [alts]):
            ctx.check(prop.validate(None, text) == key, '%r is not %r', text, key)
            other = text.swapcase()
            if not spec.get('case_sensitive'):
                ctx.check(prop.validate(None, other) == key, '%r is not %r', other, key)


def name_cases(tier):
    out = [(name, rgb) for name, rgb in sorted(CSS.items())]
    out += sorted(LETTERS.items())
    out += [(name + extra, None) for name in ('red', 'blue', 'tan')
            for extra in ('x', ' ', '1')]
    out += [(a, tuple(int(c * 2, 16) for c in a[-3:])) for a in
            ('#abc', 'ABC', '#FFF', '09f', '#fAc')]
    out += [(a, tuple(int(a[-6:][i:i + 2], 16) for i in (0, 2, 4))) for a in
            ('#abcdef', 'ABCDEF', '#010203', '09fF09', '#FFFFFF')]
    out += [(a, None) for a in (
        '', '#', '#a', 'ab', '#abcd', 'abcde', '#abcdefa', 'abcdefgh', '#+1+2+3',
        '+1+2+3', '0x0x0x', '1_01_0', ' 1 2 3', 'ggg', '#ggggg0', '0.0', '-1-1-1',
        'abc#', 'a#bc', 'purpel', 'firebrikc')]
    return out


@facet('color_names', cases=name_cases, shards=1)
def check_names(case, ctx):
    text, rgb = case
    ctx.nontrivial()
    prop = properties.Color('')
    if rgb is None:
        ctx.raises(ValueError, lambda: prop.validate(None, text), 'color %r' % text)
        return
    got = prop.validate(None, text)
    ctx.check(got == rgb and type(got) is tuple, 'color %r is %r, not %r', text, got, rgb)


@facet('color_random', strategy=lambda: st.tuples(
    st.integers(0, 10 ** 6), st.sampled_from(['random', 'RANDOM', 'Random', 'rAndom'])),
    quick=150, shards=1)
def check_random(case, ctx):
    seed, text = case
    ctx.nontrivial()
    random.seed(seed)
    for _ in range(4):
        got = properties.Color('').validate(None, text)
        ctx.check(model.same(model.AnyColor(), got), 'random color %r', got)


@st.composite
def hex_cases(draw):
    digits = draw(st.sampled_from([3, 6, 6, 6, 2, 4, 5, 7]))
    body = draw(st.text('0123456789abcdefABCDEF', min_size=digits, max_size=digits))
    if draw(st.integers(0, 3)) == 0:
        pos = draw(st.integers(0, digits - 1))
        body = body[:pos] + draw(st.sampled_from(
            list('gGzZ+- _.xX#\u0661\u00b2é'))) + body[pos + 1:]
    return draw(st.sampled_from(['', '#'])) + body


@facet('color_hex', strategy=hex_cases, quick=700, shards=1)
def check_hex(case, ctx):
    ctx.nontrivial()
    decide({'t': 'Color'}, case, ctx)


@facet('color_triples', strategy=lambda: st.one_of(
    st.lists(st.integers(-3, 259), min_size=2, max_size=4),
    st.lists(st.integers(0, 255), min_size=3, max_size=3).map(tuple),
    st.tuples(*[st.sampled_from([0, 255, 256, -1, 1.0, '1', None, 1e3])] * 3)),
    quick=500, shards=1)
def check_triples(case, ctx):
    ctx.nontrivial()
    decide({'t': 'Color'}, case, ctx)


def two(num):
    return '%02d' % num


@st.composite
def date_cases(draw):
    year = draw(st.one_of(st.integers(1, 9999), st.sampled_from([1, 999, 1000, 2000,
                                                                 1900, 2024, 9999])))
    nums = [year, draw(st.integers(0, 13)), draw(st.integers(0, 32)),
            draw(st.integers(0, 24)), draw(st.integers(0, 60)), draw(st.integers(0, 60))]
    kind = draw(st.sampled_from(['slash', 'dash', 'stamp', 'stamp', 'object']))
    return kind, nums


@facet('dates', strategy=date_cases, quick=800, shards=1)
def check_dates(case, ctx):
    """Dates given as numbers: both text forms give exactly that date"""
    import datetime
    kind, nums = case
    if nums[5] > 59:
        return      # leap seconds are not claimed
    short = kind in ('slash', 'dash')
    use = nums[:3] if short else nums
    try:
        want = datetime.datetime(*use)
    except ValueError:
        want = None
    ctx.nontrivial()
    ctx.label(kind + (' ok' if want else ' bad'))

    class Holder(properties.HasProperties):
        val = properties.DateTime('')
    if kind == 'object':
        if want is None:
            return
        value = want.replace(microsecond=nums[1] * 1000 + 1)
        ctx.check(Holder(val=value).val == value, 'datetime not kept')
        data = Holder(val=value).serialize()['val']
        ctx.check(data == '%04d-%02d-%02dT%02d:%02d:%02dZ' % tuple(nums),
                  'serialized %r', data)
        # with a time zone: the same instant, in UTC
        minutes = (nums[1] * 97 + nums[5]) * (1 if nums[3] % 2 else -1)
        zoned = value.replace(tzinfo=datetime.timezone(datetime.timedelta(minutes=minutes)))
        ctx.check(Holder(val=zoned).val is zoned, 'datetime not kept')
        if 1 < want.year < 9999:
            data = Holder(val=zoned).serialize()['val']
            loaded = Holder.deserialize({'val': data}).val.replace(
                tzinfo=datetime.timezone.utc)
            ctx.check(data.endswith('Z') and loaded == zoned.replace(microsecond=0),
                      'serialized %s as %r', zoned, data)
        return
    if short:
        text = ('%04d/%02d/%02d' if kind == 'slash' else '%04d-%02d-%02d') % tuple(use)
    else:
        text = '%04d-%02d-%02dT%02d:%02d:%02dZ' % tuple(use)
    if want is None:
        ctx.raises(properties.ValidationError, lambda: Holder(val=text),
                   'date %r' % text)
        ctx.raises(ValueError, lambda: Holder.deserialize({'val': text}),
                   'loading date %r' % text)
        return
    ctx.check(Holder(val=text).val == want, 'date %r', text)
    ctx.check(Holder.deserialize({'val': text}).val == want, 'loaded date %r', text)
    ctx.check(Holder(val=text).serialize()['val'] == want.strftime('%m').join(
        ['%04d-' % want.year, '-%02dT%02d:%02d:%02dZ' % (
            want.day, want.hour, want.minute, want.second)]), 'json of %r', text)


@st.composite
def almost_dates(draw):
    kind, nums = draw(date_cases())
    text = {'slash': '%04d/%02d/%02d', 'dash': '%04d-%02d-%02d'}.get(
        kind, '%04d-%02d-%02dT%02d:%02d:%02dZ')
    text %= tuple(nums[:3] if kind in ('slash', 'dash') else nums)
    for _ in range(draw(st.integers(1, 2))):
        place = draw(st.one_of(st.integers(0, len(text)), st.just(len(text)), st.just(10)))
        new = draw(st.one_of(st.sampled_from([' ', '0', '1', 'Z', 'T', ' 18:00:00', 'T18:00:00',
                                              '+01:00', '.5', '.000000Z', '\n', '-', '/', 'x']),
                             st.text('0123456789TZ-/: ', max_size=4)))
        how = draw(st.sampled_from(['insert', 'insert', 'replace', 'cut']))
        if how == 'cut':
            text = text[:place]
        else:
            text = text[:place] + new + text[place + (len(new) if how == 'replace' else 0):]
    return text


@facet('almost_dates', strategy=almost_dates, quick=1500, shards=1)
def check_almost(text, ctx):
    """Text that is not quite a date is refused"""
    import re
    if re.match(r'[0-9]{1,4}([-/][ 0-9]{1,2}){2}(T([ 0-9]{1,2}:){2}[ 0-9]{1,2}Z)?\Z', text, re.I):
        ctx.label('a date')
        return
    ctx.nontrivial()
    prop = properties.DateTime('')

    class Holder(properties.HasProperties):
        val = properties.DateTime('')
    ctx.raises(properties.ValidationError, lambda: prop.validate(None, text), 'date %r' % text)
    ctx.raises(ValueError, lambda: Holder.deserialize({'val': text}), 'loading date %r' % text)


@st.composite
def url_cases(draw):
    word = st.text('abcXYZ019-~', min_size=1, max_size=5)
    seg = st.text('abcXYZ019-~', min_size=0, max_size=4)
    parts = {
        'scheme': draw(st.sampled_from(['http', 'https', 'ftp', 'file', ''])),
        'netloc': draw(st.sampled_from(['example.com', 'localhost:8000', 'a',
                                        'user:pw@host.org', '[::1]:80', '', ':80', 'u:@',
                                        'EXAMPLE.com', 'a:', 'x_y', '*'])),
        'path': ''.join('/' + s for s in draw(st.lists(seg, max_size=3))),
        'params': draw(st.one_of(st.just(''), word)),
        'query': draw(st.one_of(st.just(''), st.builds(
            lambda a, b: a + '=' + b, word, seg))),
        'fragment': draw(st.one_of(st.just(''), word)),
    }
    if not parts['path'].strip('/') and draw(st.booleans()):
        parts['path'] = ''
    if not parts['path'] or parts['scheme'] in ('', 'file'):
        parts['params'] = ''    # these schemes have no parameters
    spec = {'t': 'URL'}
    spec.update(draw(gens.flag('remove_parameters')))
    spec.update(draw(gens.flag('remove_fragment')))
    spec.update(draw(st.sampled_from([{}, {}, {'strip': ' '}, {'regex': 'e'}])))
    return spec, parts, draw(st.sampled_from(['', '', ' ']))


@facet('url', strategy=url_cases, quick=900, shards=2)
def check_url(case, ctx):
    spec, parts, pad = case

    def glue(keep):
        text = parts['scheme'] + '://' if parts['scheme'] else (
            '//' if parts['netloc'] else '')
        text += parts['netloc'] + parts['path']
        for mark, key in ((';', 'params'), ('?', 'query'), ('#', 'fragment')):
            if parts[key] and key in keep:
                text += mark + parts[key]
        return text
    if not parts['netloc'] and parts['path'].startswith('//'):
        return      # the first path segment would be the host
    url = glue(('params', 'query', 'fragment'))
    if pad and 'strip' not in spec:
        pad = ''
    keep = () if spec.get('remove_parameters') else ('params', 'query')
    keep += () if spec.get('remove_fragment') else ('fragment',)
    prop = model.make(spec)
    ctx.nontrivial()
    good = parts['scheme'] and parts['netloc'] and (
        'regex' not in spec or 'e' in url)
    ctx.label('ok' if good else 'bad')

    class Holder(properties.HasProperties):
        val = prop
    if not good:
        ctx.raises(properties.ValidationError, lambda: Holder(val=pad + url + pad),
                   'url %r' % url)
        return
    got = Holder(val=pad + url + pad).val
    want = glue(keep)
    if want != got and want.rstrip('/') == got.rstrip('/') and not parts['path']:
        return
    ctx.check(got == want and type(got) is str, 'url %r gave %r, expected %r',
              url, got, want)
    if 'regex' in spec and 'e' not in got:
        return
    ctx.check(prop.validate(None, got) == got, 'url %r not stable', got)


@facet('url_junk', strategy=lambda: st.one_of(gens.junk(), gens.texts(10),
                                             st.sampled_from([
    'http:example.com', 'example.com', '//example.com/x', 'http://', 'mailto:a@b',
    '://x', 'http:///path'])), quick=300, shards=1)
def check_url_junk(case, ctx):
    value = build(case)
    if isinstance(value, str) and '://' in value and value[-3:] != '://' and (
            value not in ('http:///path', '://x')):
        return
    ctx.nontrivial(isinstance(value, str))
    ctx.raises(ValueError, lambda: URL('').validate(None, value), 'url %r' % (value,))


@facet('uuid', strategy=lambda: st.tuples(st.integers(0, 2 ** 128 - 1), gens.junk()),
       quick=300, shards=1)
def check_uuid(case, ctx):
    number, other = case
    ctx.nontrivial()

    class Holder(properties.HasProperties):
        val = properties.Uuid('')
    value = uuid.UUID(int=number)
    prop = properties.Uuid('')
    ctx.check(prop.validate(None, value) == value, 'uuid not kept')
    other = build(other)
    if not isinstance(other, uuid.UUID):
        ctx.raises(ValueError, lambda: prop.validate(None, other), 'uuid %r' % (other,))
    one, two_ = Holder(), Holder()
    ctx.check(type(one.val) is uuid.UUID and one.val.version == 4, 'not a uuid4')
    ctx.check(one.val != two_.val, 'two objects with one uuid')
    for bad in (value, str(value), other):
        before = one.val
        ctx.raises(AttributeError, lambda: setattr(one, 'val', bad), 'setting uuid')
        ctx.check(one.val == before, 'uuid changed')
    data = json.loads(json.dumps(one.serialize()))
    ctx.check(data['val'] == str(one.val), 'json %r', data)
    ctx.check(prop.deserialize(str(value)) == value, 'uuid from json')
    ctx.check(prop.deserialize(prop.serialize(value)) == value, 'uuid round trip')
    ctx.raises((ValueError, TypeError), lambda: prop.deserialize('xyz'), 'bad uuid json')


@st.composite
def json_cases(draw):
    spec = draw(st.one_of(gens.stable_string_spec(), gens.choice_spec(),
                          st.just({'t': 'Color'}), st.just({'t': 'DateTime'})))
    return spec, draw(gens.valid_value(spec))


@facet('json', strategy=json_cases, quick=500, shards=1)
def check_json(case, ctx):
    spec, raw = case
    value = build(raw)
    expected = model.accept(spec, value)
    if expected[0] != 'ok':
        return
    ctx.nontrivial()

    class Holder(properties.HasProperties):
        val = model.make(spec)
    obj = Holder(val=value)
    data = json.loads(json.dumps(obj.serialize(), allow_nan=False))
    ctx.check(data == {'val': model.json_of(spec, obj.val), '__class__': 'Holder'},
              'json %r', data)
    back = Holder.deserialize(data)
    ctx.check(obj.val == back.val, '%r -> %r -> %r', obj.val, data, back.val)
