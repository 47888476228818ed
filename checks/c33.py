"""C33: the same behaviour in every environment"""
import atexit
import json
import os
import signal
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from vlib import gens, harness
from vlib.harness import facet
from vlib.values import V, encode

ID = 'C33'
RULE = ('random classes and histories (assignments, refusals, loads, copies, comparisons, '
        'UIDs, singletons, tasks, links) run in processes with different environments: each '
        'optional package missing, optimized bytecode, without docstrings, other hash seeds, '
        'locale, time zone and order of imports; the complete traces (documentation, values, '
        'JSON, errors and their messages, notifications) must be the same; non-trivial: '
        'something was refused, loaded or copied')
ASSUMPTIONS = ['the order inside sets and what depends on it (messages about their members, '
               'the order of JSON lists made from sets) differs with the hash seed and is not '
               'compared', 'numpy values and the properties of missing packages are left out']
FACETS = []

EVERYTHING = ['numpy', 'vectormath', 'png', 'traitlets']
MATH = ['Array', 'Vector2', 'Vector2Array', 'Vector3', 'Vector3Array', 'math']
IMAGE = ['ImagePNG', 'images']
# name: (flags, variables, hidden packages, first imports)
PLACES = {
    'plain': ([], {}, [], []),
    'no numpy': ([], {}, ['numpy'], []),
    'no vectormath': ([], {'PYTHONHASHSEED': '3'}, ['vectormath'], ['properties.basic']),
    'no png': ([], {}, ['png'], ['properties.base']),
    'no traitlets': ([], {'PYTHONHASHSEED': '7'}, ['traitlets'], ['properties.link']),
    'bare': (['-O'], {'PYTHONHASHSEED': '11'}, EVERYTHING, ['properties.extras.task']),
    'optimized': (['-O'], {'PYTHONHASHSEED': '1'}, [], ['properties.extras.uid']),
    'no docstrings': (['-OO'], {'PYTHONHASHSEED': '2'}, [], ['properties.handlers']),
    'elsewhere': ([], {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0',
                       'TZ': 'Asia/Kolkata', 'PYTHONHASHSEED': '5'}, [],
                  ['properties.utils', 'properties.extras']),
}
CHILDREN = {}
START_SECONDS = 300


class Child(object):
    """A process in one environment"""

    def __init__(self, name):
        flags, variables, hide, first = PLACES[name]
        env = dict(os.environ, PYTHONPATH=os.pathsep.join([harness.REPO] + [
            p for p in sys.path if p]))
        env.update(PYTHONHASHSEED='0')
        env.update(variables)
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        # the time for a case starts when the process is ready
        signal.setitimer(signal.ITIMER_REAL, START_SECONDS)
        self.errors = tempfile.TemporaryFile('w+', errors='replace')
        self.proc = subprocess.Popen(
            [sys.executable] + flags + [os.path.join(here, 'vlib', 'envchild.py'),
                                        json.dumps({'hide': hide, 'first': first})],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errors, env=env,
            cwd='/' if name == 'elsewhere' else None, universal_newlines=True)
        atexit.register(self.close)
        self.names = self.read()

    def read(self):
        line = self.proc.stdout.readline()
        if not line:
            self.errors.seek(0)
            message = self.errors.read()[-600:]
            self.close()
            return {'died': message}
        return json.loads(line)

    def send(self, kind, case):
        try:
            self.proc.stdin.write(json.dumps([kind, case]) + '\n')
            self.proc.stdin.flush()
        except OSError:
            pass

    def close(self):
        for pipe in (self.proc.stdin, self.proc.stdout, self.errors):
            try:
                pipe.close()
            except OSError:
                pass
        self.proc.kill()
        self.proc.wait()


def compare(kind, case, ctx):
    """The trace of the case, the same everywhere"""
    data = encode(case)
    for name in PLACES:
        child = CHILDREN.get(name)
        if child is None or child.proc.poll() is not None:
            CHILDREN[name] = child = Child(name)
            if isinstance(child.names, dict):
                ctx.check(False, 'with %s the library does not start: %s', name,
                          child.names['died'])
    signal.setitimer(signal.ITIMER_REAL, 3 * harness.CASE_SECONDS)
    try:
        for name in PLACES:
            CHILDREN[name].send(kind, data)
        traces = {name: CHILDREN[name].read() for name in PLACES}
    except BaseException:
        # out of step
        for child in CHILDREN.values():
            child.close()
        CHILDREN.clear()
        raise
    first = traces['plain']
    if isinstance(first, list) and first and first[-1][:1] == ['broken off']:
        raise RuntimeError(first[-1][1])
    ctx.check(isinstance(first, list), 'the plain process died: %r', first)
    for name in PLACES:
        hide = PLACES[name][2]
        missing = set(MATH if 'numpy' in hide or 'vectormath' in hide else []) | \
            set(IMAGE if 'png' in hide else [])
        want = [n for n in CHILDREN['plain'].names if n not in missing]
        ctx.check(CHILDREN[name].names == want, 'with %s the library has %r', name,
                  sorted(set(CHILDREN[name].names) ^ set(want)))
        other = traces[name]
        ctx.check(isinstance(other, list), 'the process with %s died: %r', name, other)
        if other != first:
            pairs = [(a, b) for a, b in zip(first, other) if a != b] + [(len(first), len(other))]
            ctx.check(False, 'with %s: %r, otherwise %r', name, pairs[0][1], pairs[0][0])
    return first


@st.composite
def history_cases(draw):
    specs = draw(gens.class_specs(count=3, depth=2))
    props = gens.props_of(specs)
    index = len(specs) - 1
    own = props(index)
    inits = [draw(gens.instance_case(specs, index)) for _ in range(2)]
    ops = []
    for _ in range(draw(st.integers(2, 9))):
        what = draw(st.sampled_from(['set'] * 5 + ['delete', 'reset', 'validate', 'serialize',
                                                   'json', 'load', 'load', 'copy', 'equal',
                                                   'construct']))
        name, spec = draw(st.sampled_from(own))
        arg = None
        if what == 'set':
            arg = name, draw(gens.candidate(spec, props))
        elif what in ('delete', 'reset'):
            arg = name
        elif what == 'serialize':
            arg = {'include_class': draw(st.booleans()), 'save_dynamic': draw(st.booleans())}
        elif what == 'load':
            arg = {'trusted': draw(st.booleans()), 'strict': draw(st.booleans()),
                   'assert_valid': draw(st.booleans())}
        elif what == 'construct':
            arg = {n: draw(gens.candidate(s, props)) for n, s in own if draw(st.booleans())}
        ops.append((what, draw(st.integers(0, 1)), arg))
    return specs, inits, ops


def order_matters(val):
    """Is there a set given of which several items could become equal without
    being the same (then the order of its items decides which of them is kept)?"""
    if isinstance(val, V):
        if val.kind == 'frozenset' or val.args[:1] == ('MySet',):
            return order_matters(set_of(val.args[-1])) or order_matters(list(val.args))
        return order_matters(list(val.args))
    if isinstance(val, dict):
        return order_matters(list(val)) or order_matters(list(val.values()))
    if isinstance(val, (list, tuple)):
        return any(order_matters(v) for v in val)
    if not isinstance(val, (set, frozenset)):
        return False
    if len(val) > 1 and not all(isinstance(v, (int, float)) for v in val):
        if not all(isinstance(v, str) and not any(map(str.isdigit, v)) for v in val):
            return True
    return order_matters(list(val))


def set_of(items):
    return frozenset(i if isinstance(i, (int, float, str)) else repr(i) + '0' for i in items)


@facet('histories', strategy=history_cases, quick=350, shards=4)
def check_histories(case, ctx):
    text = json.dumps(encode(case))
    if any(word in text for word in ('"np"', '"nparray"', '"npshape"', '"opaque"')):
        ctx.label('numpy')
        return
    if order_matters(list(case)):
        ctx.label('sets')
        return
    trace = compare('history', case, ctx)
    refused = any(isinstance(e[1], list) and e[1][:1] == ['error'] for e in trace
                  if isinstance(e, list) and len(e) > 1 and isinstance(e[0], str))
    ctx.nontrivial(refused or any(what in ('load', 'copy') for what, _, _ in case[2]))


TEXTS = st.one_of(st.sampled_from([
    'one', 'EINS', '2', ' x ', 'red', '#12f', 'http://a.b/c#d', '2020-01-02', '2020/1/2',
    '2020-01-02T03:04:05Z', 'random', 'Straße', 'é', '', '3', 'none.txt', '/nonexistent/x']),
    st.text('aB1 é', max_size=4))


# also of one time zone, around midnight and changes of the clock
MOMENTS = st.builds(
    lambda zone, day, *rest: V(*((('datetime',) if zone is None else ('zoned', zone)) + day + rest)),
    st.sampled_from([None, 0, 0, 60, -300, 330, 765]),
    st.sampled_from([(2020, 1, 2), (1999, 12, 31), (2021, 3, 28), (2021, 10, 31), (1970, 1, 1),
                     (1901, 1, 1)]),
    st.sampled_from([0, 1, 2, 12, 23]), st.integers(0, 59), st.integers(0, 59),
    st.sampled_from([0, 0, 999999]))
JUNK = st.recursive(st.one_of(
    st.integers(-3, 130), st.sampled_from([None, True, 1.5, 2.0, 1j, b'x', 'one', '1', '2020-1-2',
                                           '#fff', V('date', 2020, 1, 2),
                                           V('datetime', 2020, 1, 2, 3, 4)]), TEXTS, MOMENTS),
                    lambda sub: st.one_of(
                        st.lists(sub, max_size=3), st.lists(sub, max_size=3).map(tuple),
                        st.dictionaries(st.sampled_from('ab'), sub, max_size=2),
                        st.sets(st.sampled_from([1, 2, 'x', 2.5]), min_size=1, max_size=1)),
                    max_leaves=4)


@st.composite
def extra_cases(draw):
    num = st.one_of(st.integers(-60, 120), st.sampled_from([1.0, 2.5, 'x', None, '3', True]))
    return (draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4)), max_size=6)),
            draw(st.lists(st.sampled_from(['a', 'b', 'A', '', 'é']), max_size=3)),
            draw(st.lists(num, min_size=1, max_size=4)),
            draw(st.lists(TEXTS, min_size=1, max_size=5)),
            draw(st.lists(JUNK, min_size=1, max_size=4)),
            draw(st.lists(MOMENTS, max_size=3)))


@facet('extras', strategy=extra_cases, quick=250, shards=2)
def check_extras(case, ctx):
    compare('extras', case, ctx)
    ctx.nontrivial(bool(case[0]) and len(case[3]) > 1)
