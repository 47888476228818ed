"""C24: tasks"""
import contextlib
import copy
import io
import json
import math

import properties
from hypothesis import strategies as st
from properties import extras

from checks.c11 import ERRORS, apply_change, changes
from vlib import gens, model
from vlib.harness import facet
from vlib.values import build

ID = 'C24'
RULE = ('random input and output classes, several calls of one task: keywords that are a '
        'serialized input with values changed, dropped or added, task bodies that return a '
        'valid, incomplete or invalid output, something that is no output, or raise; status '
        'reports of every kind; non-trivial: the call was refused or produced an output')
FACETS = []
ASSUMPTIONS = ['returning an output object of another output class than the declared one is '
               'not claimed to be refused', 'a nan progress is not claimed']

PLANS = ['good', 'good', 'good', 'good', 'fresh', 'kept', 'broken success', 'broken log',
         'log', 'none', 'dict', 'number', 'input', 'class', 'plain', 'list', 'tuple', 'status',
         'raise', 'raise', 'raise', 'base']
PLAIN = ['none', 'dict', 'number', 'input', 'class', 'plain', 'list', 'tuple', 'status']


class Oops(Exception):
    pass


class Stop(BaseException):
    pass


RAISED = [Oops, ValueError, properties.ValidationError, KeyError, extras.TaskException,
          extras.TemporaryTaskFailure, extras.PermanentTaskFailure, NotImplementedError, Stop,
          AttributeError, TypeError, StopIteration]


@st.composite
def cases(draw):
    ins = draw(gens.class_specs(count=3, depth=draw(st.integers(1, 2)), max_props=3))
    outs = draw(gens.class_specs(count=2, depth=1, max_props=3))
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        calls.append({
            'in': draw(gens.instance_case(ins, len(ins) - 1,
                                          fill=draw(st.sampled_from([1, 1, 0.8])),
                                          max_size=3)),
            'ops': draw(st.lists(changes(), max_size=2)) if draw(st.booleans()) else [],
            'out': draw(gens.instance_case(outs, len(outs) - 1,
                                           fill=draw(st.sampled_from([1, 1, 0.8])),
                                           max_size=3)),
            'plan': draw(st.sampled_from(PLANS)),
            'error': draw(st.integers(0, len(RAISED) - 1)),
            'log': draw(gens.json_texts(5)),
            'process': draw(st.sampled_from([None, None, 'mark', 'raise']))})
    return ins, outs, calls, draw(st.sampled_from(['keywords', 'keywords', 'class']))


def counted_(self):
    return len(self._props)


@facet('call', strategy=cases, quick=1500, shards=7)
def check_call(case, ctx):
    ins, outs, calls, mode = case
    if not all(model.has_json_keys(s) for one in ins + outs for _, s in one['props']):
        ctx.label('no JSON keys')
        return
    env_in, env_out = model.Env(ins), model.Env(outs)
    for env, base in ((env_in, extras.BaseInput), (env_out, extras.BaseOutput)):
        last = env.classes[-1]
        # a dynamic value is no part of what is saved
        env.classes[-1] = type(last)(last.__name__, (last, base), {
            'counted_': properties.Integer('calculated')(counted_)})
    in_cls, out_cls = env_in.classes[-1], env_out.classes[-1]
    ran, processed = [], []
    state = {}

    class Task(extras.BaseTask):
        Input = in_cls
        Output = out_cls

        def run(self, input_obj):
            ran.append((input_obj, model.describe(input_obj)))
            return state['body'](input_obj)

        def process_output(self, output_obj):
            processed.append(output_obj)
            if state['process'] == 'raise':
                raise state['error']
            if state['process'] == 'mark':
                return ('mark', output_obj)
            return super(Task, self).process_output(output_obj)
    task = Task()
    for call in calls:
        one_call(ctx, case, call, task, env_in, env_out, ran, processed, state, mode)


def one_call(ctx, case, call, task, env_in, env_out, ran, processed, state, mode):
    in_cls, out_cls = env_in.classes[-1], env_out.classes[-1]
    index = len(env_in.classes) - 1
    del ran[:], processed[:]
    error = RAISED[call['error']]('planned')
    state['error'] = error
    state['process'] = call['process']
    try:
        source = env_in.make_inst(index, {k: build(v, env_in.builders())
                                          for k, v in call['in'].items()})
    except properties.ValidationError:
        raise model.Unclaimed()
    data = json.loads(json.dumps(source.serialize()))
    for op in call['ops']:
        apply_change(data, op)
    if mode == 'keywords':
        data.pop('__class__', None)
    expected = model.load_inst(index, data, env_in, model.Opts())
    if expected is model.SKIP:
        ctx.label('skipped')
        return
    kwargs = copy.deepcopy(data)

    # what the body will return
    def body(input_obj):
        plan = call['plan']
        if plan == 'raise':
            raise error
        if plan in PLAIN:
            return {'none': None, 'dict': {'success': True, 'log': ''}, 'number': 0,
                    'input': input_obj, 'class': out_cls, 'plain': properties.HasProperties(),
                    'list': [out_cls()], 'tuple': (), 'status': extras.TaskStatus()}[plan]
        if plan == 'base':
            return extras.BaseOutput(log=call['log'])
        out = env_out.make_inst(len(env_out.classes) - 1, {
            k: build(v, env_out.builders()) for k, v in call['out'].items()})
        if plan == 'broken success':
            del out.success
        elif plan == 'broken log':
            del out.log
        elif plan == 'log':
            out.log = call['log']
            out.success = False
        return out
    made = []

    def keep(input_obj):
        made.append(body(input_obj))
        return made[-1]
    state['body'] = keep
    got = raised = None
    try:
        got = task(**kwargs)
    except BaseException as err:
        raised = err
    ctx.check(repr(kwargs) == repr(data), 'the keywords were changed to %r', kwargs)
    ctx.check(len(ran) <= 1, 'the task ran %d times', len(ran))
    # the input
    valid = expected is not model.BAD
    if valid:
        loaded = in_cls.deserialize(copy.deepcopy(data))
        valid = model.inst_valid(loaded, env_in)
        if not valid:
            ctx.check(isinstance(raised, properties.ValidationError),
                      'invalid input %r raised %r, returned %r', data, raised, got)
    if not valid:
        ctx.label('input refused')
        ctx.nontrivial()
        ctx.check(not ran, 'the task ran on invalid input %r', data)
        ctx.check(isinstance(raised, ERRORS), 'input %r raised %r, returned %r', data, raised,
                  got)
        return
    ctx.check(len(ran) == 1, 'the task did not run on %r: %r', data, raised)
    used, pictured = ran[0]
    ctx.check(type(used) is in_cls, 'run got a %s', type(used).__name__)
    ctx.check(pictured == model.describe(loaded), 'run got %r, expected %r',
              pictured, model.describe(loaded))
    ctx.check(used.validate(), 'run got an invalid input')
    # the output
    plan = call['plan']
    ctx.label(plan)
    ctx.nontrivial()
    if plan == 'raise':
        ctx.check(raised is error, 'the error %r came out as %r', error, raised)
        ctx.check(not processed, 'no output to process')
        return
    out = made[0]
    if plan in PLAIN:
        ctx.check(isinstance(raised, properties.ValidationError) and not processed,
                  'the output %r raised %r, returned %r', out, raised, got)
        told = raised.error_tuples
        ctx.check(len(told) == 1 and told[0].reason == 'invalid_class' and
                  told[0].instance is (out if isinstance(out, properties.HasProperties)
                                       else None), 'reported %r', told)
        return
    if plan == 'base':
        good = True
        want = {'success': True, 'log': call['log']}
    else:
        good = model.inst_valid(out, env_out) and not plan.startswith('broken')
        if good:
            want = model.json_of({'t': 'Instance', 'cls': len(env_out.classes) - 1}, out,
                                 env_out, False)
            want.update({'success': out.success, 'log': out.log})
    if not good:
        ctx.label('output refused')
        ctx.check(isinstance(raised, properties.ValidationError) and not processed,
                  'the invalid output %r raised %r, returned %r', model.describe(out), raised,
                  got)
        return
    ctx.check(len(processed) == 1 and processed[0] is out, 'processed %r', processed)
    if call['process'] == 'raise':
        ctx.check(raised is error, 'the error %r came out as %r', error, raised)
        return
    ctx.check(raised is None, 'raised %r for the output %r', raised, model.describe(out))
    if call['process'] == 'mark':
        ctx.check(got[0] == 'mark' and got[1] is out, 'returned %r', got)
        return
    ctx.check(type(got) is dict and
              json.dumps(got, sort_keys=True) == json.dumps(want, sort_keys=True),
              'returned %r, expected %r', got, want)


# ------------------------------------------------------------------ inheritance

@st.composite
def tree_cases(draw):
    """A chain of task classes, each maybe with an Input, an Output and a run"""
    return [(draw(st.booleans()), draw(st.booleans()), draw(st.booleans()))
            for _ in range(draw(st.integers(1, 4)))], draw(st.integers(0, 4)), \
        draw(st.integers(0, 5))


@facet('inherit', strategy=tree_cases, quick=400)
def check_inherit(case, ctx):
    """Subclasses of tasks use the nearest Input, Output and run"""
    levels, missing, value = case
    cls, in_cls, out_cls, runner = extras.BaseTask, extras.BaseInput, extras.BaseOutput, None
    seen = []

    def make_run(level):
        def run(self, input_obj):
            seen.append((level, type(input_obj)))
            out = self.Output()
            for name in type(out)._props:
                if name.startswith('out'):
                    setattr(out, name, level)
            return out
        return run
    for level, (has_in, has_out, has_run) in enumerate(levels):
        body = {}
        if has_in:
            in_cls = type(in_cls)(str('In%d' % level), (in_cls,), {
                'in%d' % level: properties.Integer('')})
            body['Input'] = in_cls
        if has_out:
            out_cls = type(out_cls)(str('Out%d' % level), (out_cls,), {
                'out%d' % level: properties.Integer('')})
            body['Output'] = out_cls
        if has_run:
            runner = level
            body['run'] = make_run(level)
        cls = type(str('Task%d' % level), (cls,), body)
    task = cls()
    names = [n for n in in_cls._props]
    kwargs = {n: value for n in names}
    ctx.nontrivial()
    if names:
        gone = names[missing % len(names)]
        part = {n: v for n, v in kwargs.items() if n != gone}
        ctx.raises(properties.ValidationError, lambda: task(**part), 'running without %s' % gone)
        ctx.check(not seen, 'the task ran without %s', gone)
        bad = dict(kwargs)
        bad[gone] = 'no number'
        ctx.raises(ERRORS, lambda: task(**bad), 'running with a bad %s' % gone)
        ctx.check(not seen, 'the task ran with a bad %s', gone)
    if runner is None:
        ctx.raises(NotImplementedError, lambda: task(**kwargs), 'running a task without run')
        return
    got = task(**kwargs)
    ctx.check(seen == [(runner, in_cls)], 'ran %r', seen)
    want = {n: runner for n in out_cls._props if n.startswith('out')}
    want.update(success=True, log='')
    ctx.check(got == want, 'returned %r, expected %r', got, want)


# -------------------------------------------------------------- status reports

def progress_values():
    return st.one_of(st.sampled_from([0, 1, 0.0, 1.0, 0.5, -0.0, 1.0000001, -1e-9, 2, -1, 100,
                                      None, True, False, '0.5', math.inf, [0.5], 0.005, 0.995,
                                      0.125, 0.12]),
                     st.floats(0, 1), st.floats(-2, 2), st.floats(0, 1).map(lambda x: x / 100))


def message_values():
    return st.one_of(st.none(), gens.json_texts(), st.sampled_from(
        ['', '{}', '{taskname}', 'a\nb', '%s', 5, b'x', [''], '100%', '|']))


@st.composite
def status_cases(draw):
    form = draw(st.sampled_from(['dict', 'dict', 'dict', 'status', 'status', 'sub', 'odd']))
    if form == 'odd':
        return form, draw(st.sampled_from(['none', 'float', 'text', 'list', 'class', 'plain',
                                           'tuple', 'task', 'int', 'true', 'pairs', 'output']))
    data = {}
    if draw(st.integers(0, 3)):
        data['progress'] = draw(progress_values())
    if draw(st.integers(0, 3)):
        data['message'] = draw(message_values())
    if draw(st.integers(0, 7)) == 0:
        data[draw(st.sampled_from(['extra', 'Progress', 'percent', 'status']))] = 1
    return form, data


@facet('status', strategy=status_cases, quick=1500)
def check_status(case, ctx):
    form, data = case

    class MyTask(extras.BaseTask):
        pass

    class MyStatus(extras.TaskStatus):
        extra = properties.Integer('', required=False)

    def report(status):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            MyTask().report_status(status)
        return out.getvalue()
    ctx.nontrivial()
    if form == 'odd':
        status = {'none': None, 'float': .5, 'text': 'ok', 'list': [], 'class': extras.TaskStatus,
                  'plain': properties.HasProperties(), 'tuple': (0.5, 'a'), 'task': MyTask(),
                  'int': 1, 'true': True, 'pairs': [('progress', 1)],
                  'output': extras.BaseOutput()}[data]
        ctx.raises(properties.ValidationError, lambda: report(status),
                   'reporting %r' % (status,))
        return
    known = ('progress', 'message') + (('extra',) if form == 'sub' else ())
    progress, message = data.get('progress'), data.get('message')
    good = all(k in known for k in data)
    if progress is not None:
        good = good and isinstance(progress, (int, float)) and \
            not isinstance(progress, bool) and 0 <= progress <= 1
    if isinstance(progress, bool) or None in data.values():
        # decided by the properties of the status, see C01
        return
    if message is not None:
        good = good and isinstance(message, str)
    ctx.label('good' if good else 'bad')

    def go():
        if form == 'dict':
            status = dict(data)
            before = repr(status)
            try:
                return report(status)
            finally:
                ctx.check(repr(status) == before, 'the status was changed to %r', status)
        status = (MyStatus if form == 'sub' else extras.TaskStatus)(**data)
        before = model.describe(status)
        out = report(status)
        ctx.check(model.describe(status) == before, 'the status was changed')
        return out
    if not good:
        ctx.raises((properties.ValidationError, AttributeError), go,
                   'reporting %s %r' % (form, data))
        return
    want = 'MyTask | %3d%% | %s\n' % (int(round(100 * (progress or 0))), message or '')
    out = go()
    ctx.check(out == want, 'printed %r, expected %r', out, want)
