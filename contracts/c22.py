"""C22: tasks run only on valid input and return only valid output."""
import contextlib
import io
import properties
import properties.extras
from properties import undefined
from properties.extras import BaseTask, BaseInput, BaseOutput, TaskStatus
from contracts.stubs import *    # noqa
from pyvc.api import *           # noqa

TASK = ['properties.extras.task:BaseTask.__call__', 'properties.extras.task:BaseTask.process_output']
STATUS = ['properties.extras.task:BaseTask.report_status', 'properties.extras.task:TaskStatus']


class Odd(Exception):
    """An error of the user's code."""


class StubInput(BaseInput):
    """deserialize and validate by contract."""

    _REGISTRY = dict()

    @classmethod
    def deserialize(cls, value, trusted=False, strict=False, assert_valid=False, **kwargs):
        log('deserialize', value.get('x', 'absent'), value.get('y', 'absent'), len(value), trusted, strict, len(kwargs))
        if uf_rare('deserialize raises', value.get('x', 'absent')):
            raise uf_exc('deserialize error', 0)
        return INPUT

    def validate(self):
        log('validate input', self)
        if uf_rare('input invalid', 0):
            raise uf_exc('input error', 0)
        return True


class StubOutput(BaseOutput):
    """validate and serialize by contract."""

    _REGISTRY = dict()

    def validate(self):
        log('validate output', self)
        if uf_rare('output invalid', 0):
            raise uf_exc('output error', 0)
        return True

    def serialize(self, include_class=True, save_dynamic=False, **kwargs):
        log('serialize', self, include_class, save_dynamic, len(kwargs))
        return uf_value('serialized', 0)


class OtherOutput(BaseOutput):
    """Another class of output, not the one the task declares."""

    _REGISTRY = dict()

    def validate(self):
        log('validate output', self)
        if uf_rare('output invalid', 0):
            raise uf_exc('output error', 0)
        return True

    def serialize(self, include_class=True, save_dynamic=False, **kwargs):
        log('serialize', self, include_class, save_dynamic, len(kwargs))
        return uf_value('serialized', 0)


class NoOutput(properties.HasProperties):
    """Not an output."""

    _REGISTRY = dict()


INPUT = StubInput()
OUTPUT = StubOutput()
OUTPUTS = [OUTPUT, OtherOutput()]
STRANGERS = [NoOutput(), INPUT, None, 5, 'text', {'success': True}, True, [OUTPUT], StubOutput]
RESULT = [None]


class Job(BaseTask):
    Input = StubInput
    Output = StubOutput

    def run(self, input_obj):
        log('run', self, input_obj)
        if uf_rare('run raises', 0):
            raise uf_exc('run error', 0)
        return RESULT[0]


class Processed(Job):
    """With its own process_output."""

    def process_output(self, output_obj):
        log('process', self, output_obj)
        if uf_rare('process raises', 0):
            raise uf_exc('process error', 0)
        return uf_value('processed', 0)


class Loose(Job):
    """Declares an Output that is no BaseOutput."""

    Output = NoOutput


class LooseProcessed(Processed):
    Output = NoOutput


@contract('C22', TASK, trials=1500)
def any_task():
    """Every step may fail; each runs once, in order, and only if the steps before it succeeded."""
    own = any_bool('own process_output')
    task = choose('task', [Processed(), LooseProcessed()] if own else [Job(), Loose()])
    good = any_bool('an output')
    output = choose('output', OUTPUTS)
    RESULT[0] = output if good else choose('result', STRANGERS)
    x = uf_value('x', 0)
    kw = {}
    if any_bool('with x'):
        kw['x'] = x
    if any_bool('with y'):
        kw['y'] = uf_value('y', 0)
    xin = kw.get('x', 'absent')
    steps = [('deserialize', xin, kw.get('y', 'absent'), len(kw), False, False, 0)]
    error, stranger = None, False
    if uf_rare('deserialize raises', xin):
        error = uf_exc('deserialize error', 0)
    else:
        steps.append(('validate input', INPUT))
        if uf_rare('input invalid', 0):
            error = uf_exc('input error', 0)
        else:
            steps.append(('run', task, INPUT))
            if uf_rare('run raises', 0):
                error = uf_exc('run error', 0)
            elif not good:
                stranger = True
            else:
                steps.append(('validate output', output))
                if uf_rare('output invalid', 0):
                    error = uf_exc('output error', 0)
                elif own:
                    steps.append(('process', task, output))
                    if uf_rare('process raises', 0):
                        error = uf_exc('process error', 0)
                else:
                    steps.append(('serialize', output, False, False, 0))
    clear_trace()
    try:
        got = task(**kw)
    except BaseException as e:
        if stranger:
            cover('no output')
            check(isinstance(e, ValueError), 'a result that is no output is rejected with ValueError')
        else:
            check(error is not None and e is error, 'errors of every step propagate')
            cover('failed')
        check(same_seq(trace(), steps), 'each step runs once, in order, only after the steps before it')
        return
    check(error is None, 'errors are not lost')
    check(not stranger, 'a result that is no output is rejected')
    check(same_seq(trace(), steps), 'each step runs once, in order')
    check(same(got, uf_value('processed', 0) if own else uf_value('serialized', 0)), 'what process_output returns is returned')
    cover('done')


@contract('C22', TASK, trials=100)
def run_must_be_overridden():
    """A task without run raises NotImplementedError."""
    try:
        BaseTask()()
    except NotImplementedError:
        return
    fail('run must be overridden')


@bounded('C22', TASK, trials=900)
def real_tasks():
    """Random input and output classes with required, defaulted and constrained properties; random keywords and results."""
    r = rng()
    events = []

    class In(BaseInput):
        """The input."""

        _REGISTRY = dict()
        n = properties.Integer('n', min=0, max=9)
        s = properties.String('s', default='default')
        many = properties.List('many', properties.Float('f'), required=False, max_length=2)

        @properties.validator
        def together(self):
            events.append('in')
            if self.n == 7:
                raise properties.ValidationError('seven')

    class Out(BaseOutput):
        """The output."""

        _REGISTRY = dict()
        total = properties.Float('total')

        @properties.validator
        def fine(self):
            events.append('out')
            if self.total == 13:
                raise ValueError('thirteen')
    result = r.choice(['good', 'good', 'good', 'unset', 'thirteen', 'base', 'dict', 'none', 'input', 'class', 'raise', 'broken'])

    class Work(BaseTask):
        """The task."""

        Input = In
        Output = Out

        def run(self, input_obj):
            events.append(('run', input_obj))
            if result == 'raise':
                raise KeyError('mine')
            if result == 'unset':
                return Out(log='none')
            if result == 'thirteen':
                return Out(total=13)
            if result == 'base':
                return BaseOutput(success=False, log='base')
            if result == 'dict':
                return {'success': True, 'log': '', 'total': 1}
            if result == 'none':
                return None
            if result == 'input':
                return input_obj
            if result == 'class':
                return Out
            out = Out(total=float(input_obj.n or 0), log=input_obj.s)
            if result == 'broken':
                out._backend['success'] = 'maybe'
            return out

        if r.random() < 0.3:
            def process_output(self, output_obj):
                events.append(('process', output_obj))
                return ('mine', output_obj.log)
    kw = {}
    if r.random() < 0.85:
        kw['n'] = r.choice([0, 3, 7, 9, 10, -1, 'x', None])
    if r.random() < 0.5:
        kw['s'] = r.choice(['a', '', 5])
    if r.random() < 0.4:
        kw['many'] = r.choice([[], [1.5], [1, 2], [1, 2, 3], 'x', ['a']])
    if r.random() < 0.1:
        kw['unknown'] = 1
    note('input', (kw, result))
    valid = kw.get('n') in (0, 3, 9) and kw.get('s', '') != 5 and kw.get('many', []) in ([], [1.5], [1, 2])
    own = 'process_output' in vars(Work)
    try:
        got = Work()(**kw)
    except (ValueError, KeyError) as e:
        runs = [x for x in events if isinstance(x, tuple) and x[0] == 'run']
        check(len(runs) == (1 if valid else 0), 'run is called exactly for valid input', lambda: (kw, events))
        check(not [x for x in events if isinstance(x, tuple) and x[0] == 'process'], 'invalid output is not processed')
        if valid:
            check(result not in ('good', 'base'), 'valid output is returned', lambda: (kw, result, repr(e)))
            check((result == 'raise') == (type(e) is KeyError), 'the errors of run are raised')
        cover('rejected')
        return
    check(valid, 'invalid input is rejected', lambda: kw)
    check(result in ('good', 'base'), 'invalid output is rejected', lambda: result)
    seen = [x for x in events if isinstance(x, tuple)]
    check([x[0] for x in seen] == (['run', 'process'] if own else ['run']), 'run is called once, then process_output')
    i = seen[0][1]
    check(type(i) is In and i.n == kw['n'] and i.s == kw.get('s', 'default'), 'run gets the input built from the keywords')
    check(list(i.many or []) == [float(x) for x in kw.get('many', [])], 'all of them')
    if own:
        check(got == ('mine', 'base' if result == 'base' else i.s), 'what process_output returns is returned')
    elif result == 'base':
        check(got == {'success': False, 'log': 'base'}, 'the output is serialized without class')
    else:
        check(got == {'success': True, 'log': i.s, 'total': float(i.n)}, 'the output is serialized without class')
    cover('done')


@bounded('C22', STATUS, trials=600)
def status_reports():
    """report_status accepts every valid status or keyword dictionary and prints it; everything else is a ValueError."""
    r = rng()

    class Named(BaseTask):
        """A task."""
    p = r.choice([None, 0, 1, 0.5, 0.25, r.uniform(0, 1), -0.01, 1.01, 50, float('inf'), 'x', [0.5], 0.999])
    m = r.choice([None, '', 'working', 'ünï', 5])
    form = r.choice(['dict', 'dict', 'instance', 'other'])
    note('input', (form, p, m))
    kw = {}
    if p is not None:
        kw['progress'] = p
    if m is not None:
        kw['message'] = m
    ok = (p is None or (isinstance(p, (int, float)) and 0 <= p <= 1)) and m != 5
    out = io.StringIO()
    if form == 'instance':
        try:
            arg = TaskStatus(**kw)
        except properties.ValidationError:
            check(not ok, 'a valid status can be made', lambda: kw)
            return
        check(ok, 'an invalid status cannot be made', lambda: kw)
    elif form == 'other':
        arg, ok = r.choice([None, 5, 'text', [0.5], BaseOutput(), {'nonsense': 1}]), False
    else:
        arg = dict(kw)
    try:
        with contextlib.redirect_stdout(out):
            got = Named().report_status(arg)
    except properties.ValidationError:
        check(not ok, 'every valid status is accepted', lambda: (form, kw))
        check(out.getvalue() == '', 'nothing is reported for an invalid one')
        cover('rejected')
        return
    check(ok, 'invalid statuses are rejected', lambda: (form, kw))
    want = 'Named | %3d%% | %s\n' % (int(round(100 * (p or 0))), m or '')
    check(out.getvalue() == want, 'the status is reported', lambda: (out.getvalue(), want))
    cover('reported')


class PlainTask(BaseTask):
    """A task."""


def quiet(*args, **kwargs):
    """print, to nowhere."""


@contract('C22', STATUS, trials=500)
def status_range():
    """report_status accepts a keyword dictionary or a TaskStatus exactly if the progress, when given, lies within 0..1 and the
    message, when given, is text; whatever it rejects it rejects with a ValidationError; the status given is not changed."""
    stand_in(print, quiet)
    has_p, has_m = choose('progress given', [True, False]), choose('message given', [True, False])
    kw = {}
    ok = True
    p = m = None
    if has_p:
        p = choose('progress', [any_float('p'), any_int('n'), 'text'])
        assume(p == p)
        kw['progress'] = p
        ok = not isinstance(p, str) and 0 <= p and p <= 1
    if has_m:
        m = choose('message', [any_str('m'), 5])
        kw['message'] = m
        ok = ok and isinstance(m, str)
    as_dict = choose('as', ['dict', 'instance']) == 'dict'
    if as_dict:
        status = kw
    else:
        try:
            status = TaskStatus(**kw)
        except properties.ValidationError:
            check(not ok, 'a valid status can be made')
            return
        check(ok, 'an invalid status cannot be made')
    try:
        PlainTask().report_status(status)
    except properties.ValidationError:
        check(not ok, 'every valid status is accepted')
        cover('rejected')
    else:
        check(ok, 'progress outside 0..1 and other invalid statuses are rejected')
        cover('reported')
    if as_dict:
        check(len(kw) == (1 if has_p else 0) + (1 if has_m else 0), 'the dictionary given is not changed')
    else:
        check(same(status.message, m), 'the status given is not changed')
        check(status.progress is None if not has_p else status.progress == p, 'the status given is not changed')
