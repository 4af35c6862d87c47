"""C11: contracts of the command line and of the text report."""
import collections
import io
import re

import z3

from contracts import ghost
from contracts.ghost import GhostCounter
from contracts.relcheck import calls, engine, rel
from pyvc.engine import NTuple, PyRaise, as_z3
from pyvc.relational import Splat
from pyvc.terms import SBool, SInt, SV, SObj, const, fn, V, I, B

import httpolice
from httpolice import cli, exchange, inputs, known, notice, reports, request, response
from httpolice.blackboard import Blackboard, Complaint
from httpolice.exchange import Exchange
from httpolice.notice import Severity
from httpolice.reports import common, text
from httpolice.util import text as util_text
import codecs

P = 'C11'
T = 'httpolice.reports.text.'


# ---- specifications

def spec_run_cli(args, stdout, stderr):
    """Check every exchange after silencing the given ids; report them in order; 1 on an input error or when a visible
    notice is severe enough, 0 otherwise."""
    count = GhostCounter(zero())
    checked = []
    for exch in the_input(args.path):
        if args.silence:
            exch.silence(args.silence)
        exchange.check_exchange(exch)
        of_this = []
        for c in exch.complaints:
            of_this.append(c.severity)
        for child in exch.children:
            for c in child.complaints:
                of_this.append(c.severity)
        count.update(of_this)
        checked.append(exch)
    try:
        the_report(checked, stdout.buffer)
    except inputs.InputError as e:
        if args.full_traceback:
            cli.traceback.print_exc(file=stderr)
        stderr.write(u'httpolice: %s\n' % e)
        return 1
    except EnvironmentError as e:
        if args.full_traceback:
            cli.traceback.print_exc(file=stderr)
        stderr.write(u'httpolice: %s\n' % e)
        return 1
    if args.fail_on == 'error':
        return 1 if count[Severity.error] > 0 else 0
    if args.fail_on == 'comment':
        return 1 if count[Severity.comment] > 0 or count[Severity.error] > 0 else 0
    if args.fail_on == 'debug':
        return 1 if count[Severity.debug] > 0 or count[Severity.comment] > 0 or count[Severity.error] > 0 else 0
    return 0


def zero():
    return collections.Counter()


def the_input(path):
    raise NotImplementedError


def the_report(exchanges, buf):
    raise NotImplementedError


def complaint_line(complaint):
    """What is written for one complaint (contract of _write_complaint_line)."""
    raise NotImplementedError


def exchange_heading(exch):
    return text._exchange_marker(exch)


def response_heading(resp):
    return text._response_marker(resp)


def spec_text_report(exchanges, buf):
    """Request's complaints, then every response's under its heading, then the exchange's; headings only over something."""
    out = GhostWriter(u'', buf)
    for exch in exchanges:
        under = GhostWriter(exchange_heading(exch), out)
        if exch.request:
            for c in exch.request.complaints:
                under.write(complaint_line(c))
        for resp in exch.responses:
            under_resp = GhostWriter(response_heading(resp), under)
            for c in resp.complaints:
                under_resp.write(complaint_line(c))
            under_resp.finish()
        for c in exch.complaints:
            under.write(complaint_line(c))
        under.finish()


def nothing_written():
    return u''


def followed_by(a, b):
    return a + b


def is_blank(a):
    return a == u''


class GhostWriter:
    """Contract of WriteIfAny: collects text; at the end gives heading and text to the parent if there is any text."""

    def __init__(self, beginning, parent):
        self.beginning = beginning
        self.parent = parent
        self.t = nothing_written()

    def write(self, s):
        self.t = followed_by(self.t, s)

    def finish(self):
        if not is_blank(self.t):
            self.parent.write(followed_by(self.beginning, self.t))

    def __enter__(self):
        return self

    def __exit__(self, exc_type, _1, _2):
        if exc_type is None:
            self.finish()
        return False


class GhostStream:
    """The UTF-8 writer over the output: what is written to it is an effect."""

    def __init__(self, buf):
        self.buf = buf

    def write(self, s):
        raise NotImplementedError


def spec_exit(w, failed):
    """The heading and the collected text go to the parent exactly if there is text and no exception."""
    if not failed:
        t = w.getvalue()
        if not is_blank(t):
            w.parent_file.write(w.beginning + t)
    return False


def spec_exchange_marker(exch):
    if exch.request:
        s = u'------------ request: %s %s' % (util_text.printable(exch.request.method), util_text.printable(exch.request.target))
    elif exch.responses:
        s = u'------------ unknown request'
    else:
        s = u'------------'
    return util_text.ellipsize(s, 79) + u'\n'


def spec_response_marker(resp):
    phrase = resp.reason
    if not phrase:
        phrase = known.title(resp.status)
    if not phrase:
        phrase = u'(unknown)'
    return util_text.ellipsize(u'------------ response: %d %s' % (resp.status, util_text.printable(phrase)), 60) + u'\n'


def spec_complaint_line(complaint, f):
    title = text._piece_to_text(complaint.notice.title, complaint.context).strip()
    f.write(u'%s %d %s\n' % (complaint.notice.severity_short, complaint.notice.id, util_text.detypographize(title)))


def spec_ellipsize(s, n):
    if len(s) > n:
        return s[:n - 3] + u'...'
    return s


def spec_reason(resp):
    if resp.reason:
        return resp.reason
    if known.title(resp.status):
        return known.title(resp.status)
    return u'(unknown)'


def spec_resolve(ctx, path):
    node = ctx[path[0]]
    for name in path[1:]:
        node = getattr(node, name)
    return node


# ---- symbolic inputs and contracts of callees

def existing(cls, eng, t, lists=(), bools=(), **attrs):
    """An object that exists already: its listed attributes are unknown (lists of unknown length for `lists`)."""
    o = SObj(cls, {}, ident='%s_%s' % (cls.__name__, t), meta={'external': True, 'v': t})
    for name, elem in attrs.items():
        v = eng.app('attr_' + name, [SV(t)])
        o.attrs[name] = [Splat(v.t, elem)] if name in lists else elem(eng, v.t) if callable(elem) else v
    return o


TEXT = {'text': 'str'}
NOTICE = {'attrs': {'id': lambda eng, x: eng.app('attr_id', [x], rng=I), 'severity_short': TEXT}}


def complaint_elem(eng, t):
    """A complaint: (notice, context); the notice has an id, a severity and a title."""
    return NTuple(Complaint, (SV(fn('c_notice', [V], V)(t), hint=NOTICE), SV(fn('c_context', [V], V)(t))))


COMPLAINT = {'make': complaint_elem}


def req_obj(eng, t):
    return existing(request.Request, eng, t, lists=['complaints_'], complaints_=COMPLAINT)


def resp_elem(eng, t):
    return existing(response.Response, eng, t, lists=['complaints_'], complaints_=COMPLAINT)


def board_elem(eng, t):
    return existing(Blackboard, eng, t, lists=['complaints_'], complaints_=COMPLAINT)


def exch_elem(eng, t):
    o = existing(Exchange, eng, t, lists=['complaints_', 'children_', 'responses'], request=None, complaints_=COMPLAINT,
                 children_={'make': board_elem}, responses={'make': resp_elem})
    eng.attr_contracts[(Exchange, 'children')] = lambda e, v: e.born(list(v.attrs['children_']))
    eng.attr_contracts[(Blackboard, 'complaints')] = lambda e, v: v.attrs['complaints_']
    return o


EXCH = {'make': exch_elem}


def prepare():
    eng = engine()
    ghost.install(eng)
    C = eng.contracts
    C[zero] = lambda e, a, k: SV(const('zero_counts'))
    C[collections.Counter] = lambda e, a, k: e.born(SObj(GhostCounter, {'t': SV(const('zero_counts'))}, meta={'constructed': True}))
    C[exchange.check_exchange] = lambda e, a, k: e.effect('check', a[0])
    C[Blackboard.silence] = lambda e, a, k: e.effect('silence', a[0], a[1])
    C[the_input] = lambda e, a, k: e.app('exchanges_in', a, hint={'elem': EXCH})

    def report(e, a, k):
        e.effect('report', ghost.as_value(e, a[0]), a[1])
        if e.decide(const('input_error', B)):
            raise PyRaise(inputs.InputError('x') if e.decide(const('is_input_error', B)) else EnvironmentError('x'))
        return None
    C[the_report] = report
    return eng


class Args:
    """The parsed command line."""


def cli_setup(fmt, out, fail_on, silenced):
    def setup(eng):
        args = SObj(Args, {'input': fmt, 'output': out, 'fail_on': fail_on, 'path': SV(const('paths')),
                           'silence': [SInt(const('first_id', I)), Splat(const('more_ids'))] if silenced else None,
                           'full_traceback': SBool(const('full_traceback', B))}, ident='args', meta={'external': True})
        files = [SObj(Args, {'buffer': SV(const('buffer_of_' + n))}, ident=n, meta={'external': True}) for n in ('stdout', 'stderr')]
        for f in files:
            f.attrs['write'] = Writer(f.ident)
        eng.contracts[inputs.formats[fmt]] = eng.contracts[the_input]
        eng.contracts[reports.formats[out]] = eng.contracts[the_report]
        eng.contracts[cli.traceback.print_exc] = lambda e, a, k: e.effect('traceback', k['file'].ident)
        return [args] + files
    return setup


class Writer:
    def __init__(self, who):
        self.who = who

    def __call__(self, s):
        raise NotImplementedError


for _fmt, _out, _fail, _sil in ([(f, 'text', 'comment', True) for f in inputs.formats] +
                                [('combined', o, fl, s) for o in reports.formats
                                 for fl in (None, 'debug', 'comment', 'error') for s in (False, True)]):
    rel(P, 'run_cli -i %s -o %s --fail-on %s%s' % (_fmt, _out, _fail, ' -s ids' if _sil else ''),
        ['httpolice.cli.run_cli'], prepare, cli_setup(_fmt, _out, _fail, _sil), calls(cli.run_cli), calls(spec_run_cli))


# ---- the text report

def blank_writer(e, args, kw):
    w = e.born(SObj(GhostWriter, {}, meta={'constructed': True}))
    e.call_function(GhostWriter.__init__, [w] + list(args), dict(kw))
    return w


def line_contract(e, args, kw):
    c, f = args
    e.call(e.getattr(f, 'write'), [e.app('complaint_line', [c])], {})
    return None


def elem(cls, **attrs):
    def make(eng, t):
        return SObj(cls, {}, ident='%s_%s' % (cls.__name__.lower(), t), meta={'external': True, 'v': t})
    return {'make': make}


def report_prepare():
    eng = prepare()
    C = eng.contracts
    C[nothing_written] = lambda e, a, k: SV(const('nothing_written'))
    C[followed_by] = lambda e, a, k: e.app('followed_by', a)
    C[is_blank] = lambda e, a, k: e.app('is_blank', a, rng=B)
    C[complaint_line] = lambda e, a, k: e.app('complaint_line', a)
    C[text._exchange_marker] = lambda e, a, k: e.app('exchange_heading', a)
    C[text._response_marker] = lambda e, a, k: e.app('response_heading', a)
    C[text._write_complaint_line] = line_contract
    C[util_text.WriteIfAny] = blank_writer
    C[GhostStream.write] = lambda e, a, k: e.effect('output', a[1])
    C[codecs.getwriter] = lambda e, a, k: MakeStream if a[0] in ('utf-8', 'utf8') else e.app('getwriter', a)
    C[MakeStream] = lambda e, a, k: SObj(GhostStream, {'buf': a[0]}, ident='stream', meta={'external': True})
    return eng


def MakeStream(buf):
    raise NotImplementedError


def report_case(spec):
    def run(eng, xs, buf):
        out = eng.call(MakeStream, [buf], {}) if spec else buf
        return eng.call_function(spec_text_report if spec else text.text_report, [xs, out], {})
    return run


def spec_report_on(exchanges, buf):
    out = MakeStream(buf)
    for exch in exchanges:
        under = GhostWriter(exchange_heading(exch), out)
        if exch.request:
            for c in exch.request.complaints:
                under.write(complaint_line(c))
        for resp in exch.responses:
            under_resp = GhostWriter(response_heading(resp), under)
            for c in resp.complaints:
                under_resp.write(complaint_line(c))
            under_resp.finish()
        for c in exch.complaints:
            under.write(complaint_line(c))
        under.finish()


rel(P, 'text_report', [T + 'text_report'], report_prepare,
    lambda e: ([Splat(const('exchanges'), EXCH)], SV(const('buf'))), calls(text.text_report), calls(spec_report_on))


# ---- the parts of the text report

class Parent:
    def write(self, s):
        raise NotImplementedError


def writer(eng):
    parent = SObj(Parent, {}, ident='parent', meta={'external': True})
    eng.contracts[Parent.write] = lambda e, a, k: e.effect('write', a[0], a[1])
    eng.contracts[WriteText] = lambda e, a, k: SV(const('text_of_writer'))
    eng.contracts[is_blank] = lambda e, a, k: SBool(z3.Not(e.truth(a[0])))
    w = SObj(util_text.WriteIfAny, {'beginning': SV(const('beginning')), 'parent_file': parent}, ident='writer')
    w.attrs['getvalue'] = WriteText
    return w


def WriteText():
    raise NotImplementedError


def exit_setup(failed):
    def setup(eng):
        return (writer(eng),)
    return setup


for _failed in (False, True):
    rel(P, 'WriteIfAny.__exit__ %s' % ('after an exception' if _failed else 'normally'), ['httpolice.util.text.WriteIfAny.__exit__'],
        prepare, lambda e: (writer(e),),
        lambda e, w, f=_failed: e.call_function(util_text.WriteIfAny.__exit__,
                                                [w, ValueError if f else None, SV(const('exc')) if f else None, None], {}),
        lambda e, w, f=_failed: e.call_function(spec_exit, [w, f], {}))


def marker_prepare():
    eng = prepare()
    C = eng.contracts
    C[util_text.printable] = lambda e, a, k: e.app('printable', a, hint=TEXT)
    C[known.title] = lambda e, a, k: e.app('title', a)
    C[util_text.ellipsize] = lambda e, a, k: e.app('ellipsize', [a[0], a[1] if len(a) > 1 else k.get('max_length', 60)], hint=TEXT)
    C[util_text.detypographize] = lambda e, a, k: e.app('detypographize', a, hint=TEXT)
    C[text._piece_to_text] = lambda e, a, k: e.app('piece_to_text', a, hint=TEXT)
    return eng


def one_exch(eng):
    return (exch_elem(eng, const('exch')),)


def with_request(eng):
    (x,) = one_exch(eng)
    x.attrs['request'] = SObj(request.Request, {'method': SV(const('method')), 'target': SV(const('target'))}, ident='req',
                              meta={'external': True})
    return (x,)


def without_request(eng):
    (x,) = one_exch(eng)
    x.attrs['request'] = None
    return (x,)


def one_resp(eng):
    return (SObj(response.Response, {'reason': SV(const('reason')), 'status': SV(const('status'))}, ident='resp',
                 meta={'external': True}),)


for _n, _s in (('with a request', with_request), ('without a request', without_request)):
    rel(P, '_exchange_marker ' + _n, [T + '_exchange_marker'], marker_prepare, _s, calls(text._exchange_marker),
        calls(spec_exchange_marker))
rel(P, '_response_marker', [T + '_response_marker', 'httpolice.reports.common.find_reason_phrase'], marker_prepare, one_resp,
    calls(text._response_marker), calls(spec_response_marker))
rel(P, 'find_reason_phrase', ['httpolice.reports.common.find_reason_phrase'], marker_prepare, one_resp,
    calls(common.find_reason_phrase), calls(spec_reason))


def line_inputs(eng):
    f = SObj(Parent, {}, ident='file', meta={'external': True})
    eng.contracts[Parent.write] = lambda e, a, k: e.effect('write', a[0], a[1])
    return (complaint_elem(eng, const('complaint')), f)


rel(P, '_write_complaint_line', [T + '_write_complaint_line'], marker_prepare, line_inputs, calls(text._write_complaint_line),
    calls(spec_complaint_line))


def str_prepare():
    eng = prepare()
    return eng


rel(P, 'ellipsize', ['httpolice.util.text.ellipsize'], prepare, lambda e: (SV(const('s')), SInt(const('n', I))),
    calls(util_text.ellipsize), calls(spec_ellipsize))
for _k in (1, 2, 3, 4):
    rel(P, 'resolve_reference of %d names' % _k, ['httpolice.reports.common.resolve_reference'], prepare,
        lambda e, k=_k: (SV(const('ctx')), ['a', 'b', 'c', 'd'][:k]), calls(common.resolve_reference), calls(spec_resolve))
