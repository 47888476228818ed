"""Runs cases of C33 in one environment: reads cases, one per line, writes traces.

Started by checks/c33.py with flags, environment variables and hidden packages;
argument: JSON {'hide': [packages], 'first': [modules to import first]}."""
import io
import json
import random
import sys
import traceback
import warnings

SETUP = json.loads(sys.argv[1])
OUT = sys.stdout
sys.stdout = io.StringIO()
for name in SETUP['hide']:
    sys.modules[name] = None
warnings.simplefilter('ignore')
sys.pycache_prefix = '/nonexistent'

import importlib                                                # noqa: E402
for name in SETUP['first']:
    importlib.import_module(name)
import properties                                               # noqa: E402
from properties import extras                                   # noqa: E402
sys.pycache_prefix = None
from vlib import isolate, model, values                         # noqa: E402


class Trace(object):
    """What one case did, as JSON"""

    def __init__(self, case):
        self.case = case
        text = json.dumps(values.encode(case))
        self.sets = any(word in text for word in ('"set"', 'frozenset', 'MySet', '"Set"'))
        self.out = []
        self.log = []

    def error(self, err):
        tuples = [(t.prop, t.reason, type(t.instance).__name__)
                  for t in getattr(err, 'error_tuples', ())]
        out = [type(err).__name__, tuples]
        message = str(err)
        if not self.sets and 'some' not in [t[0] for t in tuples] and \
                '0x' not in message and isinstance(err, properties.ValidationError):
            out.append(message)
        return out

    def canon(self, data):
        """Serialized data without the order of sets"""
        if isinstance(data, dict):
            return {str(k): self.canon(v) for k, v in data.items()}
        if isinstance(data, list):
            out = [self.canon(v) for v in data]
            return sorted(out, key=lambda v: json.dumps(v, sort_keys=True)) if self.sets else out
        return repr(data)

    def run(self, what, func):
        del self.log[:]
        try:
            got = func()
        except Exception as err:                                # pylint: disable=broad-except
            got = ['error'] + self.error(err)
        self.out.append([what, got] + ([] if self.sets else [list(self.log)]))

    def listeners(self, spec):
        """Listeners on everything, that log"""
        if spec.get('base') is not None:
            return {}
        log = self.log

        def note(self, change):
            log.append((change['name'], change['mode']))
        return {'watch_check': properties.validator(properties.everything)(note),
                'watch_set': properties.observer(properties.everything)(note),
                'watch_change': properties.observer(properties.everything, change_only=True)(note)}


def picture(val):
    return repr(model.describe(val))


def run_history(trace):
    """Assignments, loads and copies of objects of random classes"""
    specs, inits, ops = trace.case
    env = model.Env(specs, body=trace.listeners)
    cls = env.classes[-1]
    trace.out.append(['docs', [c.__doc__ for c in env.classes]])
    trace.out.append(['attrs', [[k, getattr(c, k).__doc__] for c in env.classes
                                for k in c._props]])
    objs = []
    for init in inits:
        obj = cls()
        objs.append(obj)
        for name, raw in init.items():
            trace.run('init', lambda: setattr(obj, name, values.build(raw, env.builders())))
    for what, index, arg in ops:
        obj, other = objs[index], objs[1 - index]
        if what == 'set':
            name, raw = arg
            trace.run(what, lambda: setattr(obj, name, values.build(raw, env.builders())))
        elif what == 'delete':
            trace.run(what, lambda: delattr(obj, arg))
        elif what == 'reset':
            trace.run(what, lambda: obj._reset(arg))
        elif what == 'validate':
            trace.run(what, obj.validate)
        elif what == 'serialize':
            trace.run(what, lambda: trace.canon(obj.serialize(**arg)))
        elif what == 'json':
            trace.run(what, lambda: trace.canon(json.loads(json.dumps(obj.serialize()))))
        elif what == 'load':
            trace.run(what, lambda: picture(cls.deserialize(other.serialize(), **arg)))
        elif what == 'copy':
            trace.run(what, lambda: picture(properties.copy(obj)))
        elif what == 'equal' and not trace.sets:
            trace.run(what, lambda: properties.equal(obj, other))
        elif what == 'construct':
            trace.run(what, lambda: picture(cls(**{
                n: values.build(v, env.builders()) for n, v in arg.items()})))
        trace.out.append([picture(o) for o in objs])


def run_extras(trace):
    """UIDs, singletons, tasks, links and files"""
    edges, names, nums, texts, junk = trace.case[:5]
    junk = [values.build(one, {}) for one in junk]

    class Node(extras.HasUID):
        num = properties.Integer('', min=-50, required=False)
        kids = properties.List('', properties.Instance('', extras.HasUID), default=list)
        boss = extras.Pointer('', extras.HasUID, required=False, load=True)
    nodes = []
    for i, num in enumerate(nums):
        trace.run('node', lambda: nodes.append(Node(uid='n%d' % i)))
        trace.run('num', lambda: setattr(nodes[i], 'num', num))
    for one, two in edges:
        trace.run('edge', lambda: setattr(nodes[one % len(nodes)], 'kids',
                                          nodes[one % len(nodes)].kids +
                                          [nodes[two % len(nodes)]]))
        trace.run('boss', lambda: setattr(nodes[two % len(nodes)], 'boss', 'n%d' % one))
    saved = []
    trace.run('save', lambda: saved.append(nodes[0].serialize()))
    trace.run('saved', lambda: trace.canon(saved[0]))
    extras.HasUID._INSTANCES.clear()
    trace.run('loaded', lambda: sorted(Node.deserialize(saved[0], trusted=True).serialize()))

    class Only(extras.Singleton):
        num = properties.Integer('', default=1)

    for name, num in zip(names, nums):
        trace.run('only', lambda: setattr(Only(name), 'num', num))
        trace.run('again', lambda: picture(Only.deserialize(Only(name).serialize())))
    trace.out.append([(n, Only(n) is Only(n), Only(n).num) for n in names])

    class Job(extras.BaseTask):
        class Input(extras.BaseInput):
            num = properties.Integer('')
            text = properties.String('', required=False)

        class Output(extras.BaseOutput):
            doubled = properties.Integer('', max=60)

        def run(self, input_obj):
            self.report_status({'progress': 0.5, 'message': input_obj.text})
            if input_obj.num % 5 == 0:
                return self.Output()
            if input_obj.num % 5 == 1:
                return junk[0]
            if input_obj.num % 5 == 2:
                out = self.Output(doubled=1)
                out._backend['doubled'] = junk[0]
                return out
            return self.Output(doubled=2 * input_obj.num)
    for num, text in zip(nums, texts):
        sys.stdout = io.StringIO()
        trace.run('task', lambda: trace.canon(Job()(num=num, text=text)))
        trace.out.append(sys.stdout.getvalue())

    class Item(properties.HasProperties):
        num = properties.Integer('', max=100, required=False)
        text = properties.String('', strip=' ', change_case='lower', required=False)
        url = extras.URL('', remove_fragment=True, required=False)
        when = properties.DateTime('', required=False)
        color = properties.Color('', required=False)
        pick = properties.StringChoice('', {'one': ['1', 'eins'], 'two': []}, required=False)
        src = properties.File('', 'r', required=False)
        same = properties.Renamed('num')
        many = properties.List('', properties.Integer('', max=100), coerce=True, required=False)
        some = properties.Set('', properties.Integer(''), coerce=True,
                              required=False)
        pair = properties.Tuple('', properties.Float(''), min_length=2,
                                coerce=True, required=False)
        table = properties.Dictionary('', key_prop=properties.String(''), value_prop=properties.Integer(''),
                                      required=False)
        flag = properties.Boolean('', cast=True, required=False)
        real = properties.Complex('', required=False)
        either = properties.Union('', (properties.Integer('', max=5), properties.Color(''),
                                       properties.StringChoice('', ['v%d' % i for i in range(9)])),
                                  required=False)
        kid = properties.Instance('', Job.Input, required=False)
        letter = properties.StringChoice('', list('gacebdfh'), case_sensitive=True,
                                         required=False)

        @properties.Integer('plus one')
        def more(self):
            """documented"""
            return None if self.num is None else self.num + 1
    items = [Item(), Item(), Item()]
    trace.out.append(Item.__doc__)
    links = []
    trace.run('link', lambda: links.append(properties.link(
        (items[0], 'num'), (items[1], 'num'))) or len(links))
    trace.run('direct', lambda: links.append(properties.directional_link(
        (items[1], 'text'), (items[2], 'text'), transform=lambda t: t * 2)) or len(links))
    trace.run('no link', lambda: properties.link((items[0], 'num'), (3, 'num')))
    for i, text in enumerate(texts):
        for name in ('num', 'text', 'url', 'when', 'color', 'pick', 'src', 'same', 'more'):
            trace.run(name, lambda: setattr(items[i % 3], name, text))
        trace.run('num', lambda: setattr(items[i % 3], 'num', nums[i % len(nums)]))
        for name in items[0]._props:
            trace.run(name, lambda: setattr(items[i % 3], name, junk[i % len(junk)]))
        if i == 2:
            trace.run('unlink', lambda: [one.unlink() for one in links] and None)
        trace.out.append([trace.canon(item.serialize(save_dynamic=True)) for item in items])
    trace.run('copy', lambda: properties.equal(items[0], properties.copy(items[0])))
    for raw in trace.case[5] if len(trace.case) > 5 else ():
        trace.run('when', lambda: setattr(items[0], 'when', values.build(raw, {})))
        trace.run('saved', lambda: trace.canon(items[0].serialize()))
        trace.run('loaded', lambda: picture(Item.deserialize(items[0].serialize())))
        trace.run('copied', lambda: properties.equal(items[0], properties.copy(items[0])))


KINDS = {'history': run_history, 'extras': run_extras}


def main():
    print(json.dumps(sorted(n for n in dir(properties) if n[0] != '_')), file=OUT)
    OUT.flush()
    for line in sys.stdin:
        kind, case = json.loads(line)
        isolate.reset()
        random.seed(1)
        trace = Trace(values.decode(case))
        sys.stdout = io.StringIO()
        try:
            KINDS[kind](trace)
        except Exception as err:                                # pylint: disable=broad-except
            trace.out.append(['broken off', traceback.format_exc()[-1500:]])
        print(json.dumps(trace.out), file=OUT)
        OUT.flush()


main()
