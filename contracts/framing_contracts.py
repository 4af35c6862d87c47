"""C01 to C04: contracts of the stream and of the HTTP/1.x framing functions.

Two layers.  The methods of Stream are proved against a file that is known only through its contract (a position, the
bytes from there, whether anything is left).  The framing functions are proved against the contract of Stream: every
operation is a function of the state of the stream, moves it to the next state, and either succeeds or fails with a
ParseError; a failure makes the stream insane and success does not."""
import re
import zlib

import z3

from contracts.relcheck import calls, engine, rel
from pyvc.engine import NTuple, PyRaise, as_z3
from pyvc.relational import Splat
from pyvc.terms import SBool, SInt, SV, SObj, const, fn, LEN, V, I, B

from httpolice import codings, framing1
from httpolice.exchange import Exchange, complaint_box
from httpolice.known import m, st, tc
from httpolice.message import Message
from httpolice.parse import ParseError
from httpolice.request import Request
from httpolice.response import Response
from httpolice.stream import Stream
from httpolice.structure import FieldName, HeaderEntry, HTTPVersion, Method, StatusCode, Unavailable, okay
from httpolice.util.data import natural

F = 'httpolice.framing1.'
S = 'httpolice.stream.Stream.'


def born(e, cls, **attrs):
    return e.born(SObj(cls, attrs, meta={'constructed': True}))


def parse_error(e, a, k):
    names = ('name', 'position', 'expected', 'found')
    attrs = {'found': None}
    attrs.update(zip(names, a))
    attrs.update(k)
    return born(e, ParseError, **attrs)


# =================================================================== the stream

class File:
    """A buffered binary file."""

    def tell(self):
        raise NotImplementedError

    def peek(self, n):
        raise NotImplementedError

    def read(self, n=-1):
        raise NotImplementedError

    def readline(self, n=-1):
        raise NotImplementedError


class Line:
    """What readline() of the file gave: nothing, or bytes that contain a newline at most at their end."""

    def __len__(self):
        return line_len(self)

    def __getitem__(self, k):
        return line_slice(self, k)

    def endswith(self, x):
        return line_ends(self, x)

    def decode(self, *a, **k):
        raise NotImplementedError


def line_len(x):
    raise NotImplementedError


def line_slice(x, k):
    raise NotImplementedError


def line_ends(x, p):
    raise NotImplementedError


def at_end(f):
    raise NotImplementedError


def line_parts(x):
    t = x.attrs['t']
    lf, crlf = fn('ends_lf', [V], B)(t), fn('ends_crlf', [V], B)(t)
    return t, lf, crlf


def ends(e, a, k):
    t, lf, crlf = line_parts(a[0])
    p = a[1]
    if p == b'\n':
        return SBool(lf)
    if p == b'\r\n':
        return SBool(crlf)
    return e.app('ends_with', [SV(t), p], rng=B)


def part_of(e, a, k):
    t, lf, crlf = line_parts(a[0])
    s = a[1]
    if isinstance(s, slice) and s.step is None:
        at = (s.start, s.stop)
        if at in ((-2, None), (-2, -1), (-1, None)):
            full = {(-2, None): b'\r\n', (-2, -1): b'\r', (-1, None): b'\n'}[at]
            if at == (-1, None):
                if e.decide(lf):
                    return full
            elif at == (-2, -1):
                # the last but one byte, also when the last is no newline
                if e.decide(crlf):
                    return full
                r = e.app('last_but_one', [SV(t)])
                e.fact(z3.Implies(lf, r.t != e.to_v(full)))
                return r
            elif e.decide(crlf):
                return full
            r = e.app('end%r' % (at,), [SV(t)])
            e.fact(r.t != e.to_v(full))
            return r
        if at == (None, -1):
            return e.app('without_last', [SV(t)])
        if at == (None, -2):
            return e.app('without_last_two', [SV(t)])
    return e.app('part', [SV(t), str(s)])


def file_engine():
    eng = engine()
    C = eng.contracts
    C[ParseError] = parse_error

    def move(e, f, by):
        e.setattr(f, 'pos', SInt(e.to_int(f.attrs['pos']) + by))

    def read(e, a, k):
        n = k.get('n', a[1] if len(a) > 1 else -1)
        r = e.app('bytes_at', [a[0].attrs['pos'], n], hint={'text': 'bytes'})
        i = e.to_int(n)
        e.fact(LEN(r.t) >= 0)
        e.fact(z3.Implies(i >= 0, LEN(r.t) <= i))
        move(e, a[0], LEN(r.t))
        return r

    def readline(e, a, k):
        n = k.get('n', a[1] if len(a) > 1 else -1)
        r = e.app('line_at', [a[0].attrs['pos'], n])
        i = e.to_int(n)
        t, lf, crlf = r.t, fn('ends_lf', [V], B)(r.t), fn('ends_crlf', [V], B)(r.t)
        e.fact(z3.And(LEN(t) >= 0, z3.Implies(i >= 0, LEN(t) <= i), z3.Implies(crlf, lf), z3.Implies(lf, LEN(t) >= 1), z3.Implies(crlf, LEN(t) >= 2)))
        move(e, a[0], LEN(t))
        return SObj(Line, {'t': t}, ident='line %s' % t, meta={'external': True})

    def peek(e, a, k):
        """At least one byte, unless nothing is left."""
        n = k.get('n', a[1] if len(a) > 1 else 0)
        r = e.app('ahead', [a[0].attrs['pos'], n], hint={'text': 'bytes'})
        e.app('slice', [r, None, 1, None])
        e.fact((LEN(r.t) == 0) == fn('at_end', [I], B)(e.to_int(a[0].attrs['pos'])))
        first = fn('slice', [V, V, V, V], V)(r.t, e.to_v(None), e.to_v(1), e.to_v(None))
        e.fact((first == e.to_v(b'')) == (LEN(r.t) == 0))
        return r
    C[File.tell] = lambda e, a, k: SInt(e.to_int(a[0].attrs['pos']))
    C[File.read], C[File.readline], C[File.peek] = read, readline, peek
    C[at_end] = lambda e, a, k: SBool(fn('at_end', [I], B)(e.to_int(a[0].attrs['pos'])))
    C[line_len] = lambda e, a, k: SInt(LEN(a[0].attrs['t']))
    C[line_slice], C[line_ends] = part_of, ends
    C[Line.decode] = lambda e, a, k: e.app('decoded_line', [SV(a[0].attrs['t'])] + list(a[1:]))
    return eng


def stream(e):
    f = e.born(SObj(File, {'pos': SInt(const('pos', I))}, meta={'constructed': True}))
    top = SV(const('symbol'))
    return e.born(SObj(Stream, {
        'file': f, 'name': SV(const('name')), 'eof': SBool(const('eof', B)), 'sane': SBool(const('sane', B)), 'complaints': e.born([Splat(const('complaints'))]),
        '_currently_parsing': e.born([Splat(const('outer')), top]), '_next_symbol': SV(const('next_symbol'))}, meta={'constructed': True}))


def whole(s, *rest):
    a = s.attrs
    return [a['file'].attrs['pos'], a['eof'], a['sane'], list(a['complaints']), list(a['_currently_parsing'])]


def fail(s, position, expected):
    """The stream is not to be parsed further; the error names the innermost construct being parsed."""
    s.sane = False
    return ParseError(s.name, position, expected=[(expected, [s._currently_parsing[-1]])])


def spec_read(s, n=-1):
    start = s.file.tell()
    r = s.file.read(n)
    if at_end(s.file):
        s.eof = True
    if n > 0 and len(r) < n:
        raise fail(s, start, u'at least %d bytes' % n)
    return r


def spec_raw_line(s):
    start = s.file.tell()
    line = s.file.readline(16384)
    if at_end(s.file):
        s.eof = True
    if not line.endswith(b'\n'):
        if len(line) < 16384:
            raise fail(s, start, u'data terminated by end of line')
        raise fail(s, start, u'no more than %d bytes before end of line' % 16384)
    if line.endswith(b'\r\n'):
        return line[:-2]
    s.complaints.append((1224, {}))
    return line[:-1]


def spec_line(s, decode=True):
    r = spec_raw_line(s)
    if decode:
        return r.decode('iso-8859-1')
    return r


def spec_line_end(s):
    start = s.file.tell()
    if spec_raw_line(s) != b'':
        raise fail(s, start, u'end of line')


def spec_good(s):
    return s.sane and not s.eof


def spec_error(s, position, expected=None):
    return fail(s, position, expected)


def spec_tell(s):
    return s.file.tell()


def spec_peek(s, n=1):
    return s.file.peek(n)[:n]


def spec_complain(s, notice_id, **context):
    s.complaints.append((notice_id, context))


def spec_nested(s, symbol):
    """Within the block the innermost construct is `symbol`, afterwards what it was before."""
    s._currently_parsing.append(symbol)
    inside(s)
    s._currently_parsing.pop()


def real_nested(s, symbol):
    with s.parsing(symbol):
        inside(s)


def inside(s):
    raise NotImplementedError


def spec_nested_error(s, symbol):
    s._currently_parsing.append(symbol)
    e = fail(s, 0, None)
    s._currently_parsing.pop()
    raise e


def real_nested_error(s, symbol):
    with s.parsing(symbol):
        raise s.error(0)


def nested_engine():
    eng = file_engine()
    eng.contracts[inside] = lambda e, a, k: e.effect('inside', list(a[0].attrs['_currently_parsing']))
    return eng


def one(prop, name, real, spec, args=lambda e: ()):
    rel(prop, 'Stream.' + name, [S + name.split()[0]], file_engine, lambda e: (stream(e),) + tuple(args(e)), calls(real), calls(spec), observe=whole)


one('C01', 'read n', Stream.read, spec_read, lambda e: (SInt(const('n', I), int),))
one('C01', 'read to the end', Stream.read, spec_read)
one('C04', 'readline text', Stream.readline, spec_line)
one('C04', 'readline bytes', Stream.readline, spec_line, lambda e: (False,))
one('C04', 'readlineend', Stream.readlineend, spec_line_end)
one('C02', 'good', Stream.good.fget, spec_good)
one('C02', 'tell', Stream.tell, spec_tell)
one('C04', 'peek', Stream.peek, spec_peek)
one('C04', 'peek n', Stream.peek, spec_peek, lambda e: (SInt(const('n', I), int),))
one('C04', 'error', Stream.error, spec_error, lambda e: (SInt(const('at', I), int), SV(const('expected'))))
one('C04', 'error plain', Stream.error, spec_error, lambda e: (SInt(const('at', I), int),))
rel('C04', 'Stream.parsing', [S + 'parsing', S + '__enter__', S + '__exit__'], nested_engine, lambda e: (stream(e), SV(const('inner'))),
    calls(real_nested), calls(spec_nested), observe=whole)
rel('C04', 'Stream.parsing with error', [S + '__exit__'], nested_engine, lambda e: (stream(e), SV(const('inner'))),
    calls(real_nested_error), calls(spec_nested_error), observe=whole)


class Sink:
    def __call__(self, notice_id, **context):
        raise NotImplementedError


def spec_dump(s, complain_func, **extra):
    """Everything noted so far is reported, once and in order, with the extra context."""
    for (notice_id, context) in s.complaints:
        complain_func(notice_id, **extra)
    s.complaints[:] = []


def dump_engine():
    eng = file_engine()
    eng.contracts[Sink.__call__] = lambda e, a, k: e.effect('notice', a[1], dict(sorted(k.items())))
    return eng


def dump_setup(e):
    s = stream(e)
    s.attrs['complaints'] = e.born([Splat(const('complaints'), {'make': lambda e, t: (e.app('notice_id', [SV(t)]), {})})])
    return s, SObj(Sink, {}, ident='sink', meta={'external': True})


for kw in ({}, {'place': SV(const('place'))}, {'place': SV(const('place')), 'other': SV(const('other'))}):
    rel('C04', 'Stream.dump_complaints %s' % ' '.join(kw), [S + 'dump_complaints'], dump_engine, dump_setup,
        lambda e, s, f, kw=kw: e.call_function(Stream.dump_complaints, [s, f], dict(kw)),
        lambda e, s, f, kw=kw: e.call_function(spec_dump, [s, f], dict(kw)), observe=whole)
rel('C04', 'Stream.complain', [S + 'complain'], file_engine, lambda e: (stream(e),), lambda e, s: e.call_function(Stream.complain, [s, 1016], {}),
    lambda e, s: e.call_function(spec_complain, [s, 1016], {}), observe=whole)


# =================================================================== the framing functions

class Flow:
    """A stream as its contract describes it."""

    @property
    def good(self):
        return self.sane and not self.eof

    def parsing(self, symbol):
        self._next = symbol
        return self

    def __enter__(self):
        self.stack.append(self._next)
        return self

    def __exit__(self, *exc):
        self.stack.pop()
        return False

    def error(self, position, expected=None):
        self.sane = False
        return flow_error(self, position, expected)

    def tell(self):
        raise NotImplementedError

    def peek(self, n=1):
        raise NotImplementedError

    def read(self, n=-1):
        raise NotImplementedError

    def readline(self, decode=True):
        raise NotImplementedError

    def readlineend(self):
        raise NotImplementedError

    def complain(self, notice_id, **context):
        raise NotImplementedError

    def dump_complaints(self, complain_func, **extra):
        raise NotImplementedError


def flow_error(s, position, expected):
    raise NotImplementedError


def flow(e, name):
    return e.born(SObj(Flow, {'state': SV(const(name + '_state')), 'sane': SBool(const(name + '_sane', B)), 'eof': SBool(const(name + '_eof', B)),
                              'stack': e.born([SV(const(name + '_outer'))]), '_next': None, 'name': SV(const(name + '_name'))}, meta={'constructed': True}))


def flow_state(s):
    if s is None:
        return None
    return [s.attrs['state'], s.attrs['sane'], s.attrs['eof'], list(s.attrs['stack'])]


def operation(name, may_fail=True, outcome=None):
    """One operation on a stream: depends on its state only, and moves it on."""
    def handler(e, s, args):
        t = [s.attrs['state']] + list(args)
        vs = [e.to_v(x) for x in t]
        failed = bool(may_fail and e.decide(fn(name + '_fails', [V] * len(vs), B)(*vs)))
        e.setattr(s, 'state', e.app(name + ('_failed' if failed else '_done'), t))
        eof = fn(name + '_reaches_end', [V] * len(vs), B)(*vs)
        e.setattr(s, 'eof', SBool(z3.Or(as_z3(e.truth(s.attrs['eof'])), eof)))
        if failed:
            e.setattr(s, 'sane', False)
            raise PyRaise(born(e, ParseError, what=e.app(name + '_error', t), within=s.attrs['stack'][-1]))
        return outcome(e, t) if outcome else e.app(name + '_result', t)
    return handler


class Made:
    def complain(self, notice_id, **context):
        raise NotImplementedError

    def rebuild_headers(self):
        raise NotImplementedError


class MadeRequest(Made):
    pass


class MadeResponse(Made):
    pass


class MadeExchange(Made):
    pass


class Headers:
    pass


class View:
    def __bool__(self):
        return bool(self.value)

    @property
    def is_absent(self):
        return not self.is_present

    @property
    def is_okay(self):
        return okay(self.value)


class Box:
    pass


LINES = [a + b + c for a in ('HTTP/', 'http/', 'HTTP', '') for b in ('1.1', '2.0', '1', '11.1', '1.11', '1.', '.1', 'a.1', '1,1', '\u0661.1', '') for c in ('', ' ', '\r')] + \
    ['200', '20', '2000', '99', '000', '999', '2 0', '20a', 'abc', ' 200', '200 ', '+20', '-20', '', '\u0661\u0661\u0661', '0', '5', 'f', 'F', 'fF09', '0x1F', 'g', 'fg', 'G1', '1_0',
     '+5', '-1', ' 5', '5 ', '5;', '\u0665', '00000000000000000', 'ffffffffffffffffffff']


def shape(p):
    return repr([bool(p.match(x)) for x in LINES])


SHAPES = {shape(re.compile(p)): n for n, p in (
    ('is_version', r'HTTP/[0-9]\.[0-9]\Z'), ('is_status', r'[0-9]{3}\Z'), ('is_hex', r'[0-9A-Fa-f]+\Z'))}


class GhostPattern:
    """A regular expression, told apart by what it accepts on a battery of strings."""

    def match(self, x):
        return accepts(self, x)

    fullmatch = match


def accepts(p, x):
    raise NotImplementedError


def is_version(x):
    raise NotImplementedError


def is_status(x):
    raise NotImplementedError


def is_hex(x):
    raise NotImplementedError


def view(e, name, value, present):
    return SObj(View, {'name_': name, 'value': value, 'is_present': present}, ident='view %s' % name, meta={'external': True})


NUMBER = fn('content_length_number', [V], I)


def headers(e, t):
    """What the framing code looks at in the header views of a message, as C07 specifies them."""
    key = str(t)
    te, cl = SV(fn('transfer_codings', [V], V)(t)), SV(fn('content_length', [V], V)(t))
    has_te, has_cl = fn('has_transfer_encoding', [V], B)(t), fn('has_content_length', [V], B)(t)
    un = e.pred(Unavailable)
    e.fact(z3.And((LEN(te.t) > 0) == has_te, (e.to_v(None) == cl.t) == z3.Not(has_cl), LEN(te.t) >= 0, (LEN(te.t) > 0) == e.truth(te)))
    n = e.to_int(cl)
    e.fact(z3.Implies(has_cl, z3.If(un(cl.t), e.truth(cl), z3.And(n >= 0, e.truth(cl) == (n != 0)))))
    return SObj(Headers, {'transfer_encoding': view(e, 'transfer_encoding of ' + key, e.born([Splat(te.t)]), SBool(has_te)),
                          'content_length': view(e, 'content_length of ' + key, cl, SBool(has_cl))}, ident='headers ' + key, meta={'external': True})


def status(t):
    return SInt(fn('status_number', [V], I)(t), StatusCode)


def message(e, cls, name, **attrs):
    t = const(name)
    x = dict(attrs, headers=headers(e, t), body=None)
    return e.born(SObj(cls, x, meta={'constructed': True, 'key': name}))


def message_state(x):
    return {k: v for k, v in x.attrs.items() if k not in ('headers', 'request')}


def make(cls, names, defaults):
    def handler(e, a, k):
        attrs = dict(defaults)
        attrs.update(zip(names, a))
        attrs.update(k)
        return born(e, cls, **attrs)
    return handler


def key_of(x):
    return (x.meta or {}).get('key') or x.cls.__name__


def pick(names, a, k, defaults=()):
    """Positional and keyword arguments as one list."""
    r = list(a) + [dict(defaults).get(n) for n in names[len(a):]]
    for n, v in k.items():
        r[names.index(n)] = v
    return r


def framing_engine():
    eng = engine()
    C = eng.contracts

    def read(e, a, k):
        s, n = pick(['s', 'n'], a, k, {'n': -1})
        if isinstance(n, SInt) or isinstance(n, SV):
            if e.decide(e.to_int(n) == 0):
                n = 0
        if isinstance(n, int) and n == 0:
            return b''          # nothing is read; the end was noted when it was reached (contract of Stream.read and readline)
        if not isinstance(n, int):
            n = SInt(e.to_int(n))
            return operation('read')(e, s, [n])
        return operation('read_all' if n < 0 else 'read', may_fail=n > 0)(e, s, [n])

    def line(e, a, k):
        s, decode = pick(['s', 'decode'], a, k, {'decode': True})
        raw = operation('line', outcome=lambda e, t: e.app('line_bytes', t, hint={'text': 'bytes'}))(e, s, [])
        return e.app('text_of', [raw], hint={'text': 'str'}) if decode else raw
    C[Flow.read], C[Flow.readline] = read, line
    C[Flow.readlineend] = lambda e, a, k: operation('line_end', outcome=lambda e, t: None)(e, a[0], [])
    C[Flow.tell] = lambda e, a, k: SInt(fn('position', [V], I)(e.to_v(a[0].attrs['state'])), int)
    C[Flow.peek] = lambda e, a, k: e.app('ahead', [a[0].attrs['state'], a[1] if len(a) > 1 else k.get('n', 1)], hint={'text': 'bytes'})
    C[Flow.complain] = lambda e, a, k: e.setattr(a[0], 'state', e.app('noted', [a[0].attrs['state'], a[1], dict(sorted(k.items())) or None]))

    def dump(e, a, k):
        s = a[0]
        f = a[1]
        e.effect('reported', s.attrs['state'], key_of(f.self_) if hasattr(f, 'self_') else f, getattr(getattr(f, 'func', None), '__name__', '?'),
                 dict(sorted(k.items())))
        e.setattr(s, 'state', e.app('reported', [s.attrs['state']]))
    C[Flow.dump_complaints] = dump
    C[flow_error] = lambda e, a, k: born(e, ParseError, name=a[0].attrs['name'], position=a[1], expected=a[2], within=a[0].attrs['stack'][-1])
    for cls in (Made, Message):
        C[cls.complain] = lambda e, a, k: e.effect('complain', key_of(a[0]), a[1], dict(sorted(k.items())))
        C[cls.rebuild_headers] = lambda e, a, k: e.effect('rebuild', key_of(a[0]))
    C[Unavailable] = lambda e, a, k: unavailable(e, a)
    C[Request] = make(MadeRequest, ('scheme', 'method', 'target', 'version', 'header_entries', 'body', 'trailer_entries', 'remark'),
                      {'trailer_entries': None, 'remark': None})
    C[Response] = make(MadeResponse, ('version', 'status', 'reason', 'header_entries', 'body', 'trailer_entries', 'remark'),
                       {'trailer_entries': None, 'remark': None})
    C[Exchange] = make(MadeExchange, ('request', 'responses'), {})
    C[complaint_box] = lambda e, a, k: born(e, Box, notice=a[0], **k)
    C[HeaderEntry] = lambda e, a, k: NTuple(HeaderEntry, tuple(a))
    C[Method] = C[HTTPVersion] = C[FieldName] = lambda e, a, k: a[0]
    C[StatusCode] = lambda e, a, k: e.app('status_code', a)
    C[natural] = lambda e, a, k: SInt(fn('number_base%s' % k.get('base', a[1] if len(a) > 1 else 10), [V], I)(e.to_v(a[0])), int)
    for n, f in (('is_version', is_version), ('is_status', is_status), ('is_hex', is_hex)):
        C[f] = lambda e, a, k, n=n: e.app(n, a, rng=B)
    eng.pattern_name = lambda p: SHAPES.get(shape(p), 'otherwise_%s' % p.pattern)
    return eng


def unavailable(e, a):
    r = e.app('unavailable', a)
    e.fact(e.pred(Unavailable)(r.t))
    return r


# ---- specifications: bodies (RFC 7230 section 3.3.3)

def spec_content_length(msg, s):
    """As many octets as the header says, if it says so and they are not too many."""
    n = msg.headers.content_length.value
    if not okay(n):
        msg.body = Unavailable()
        s.sane = False
        return
    if n > 1024 * 1024 * 1024:
        msg.complain(1298, place=msg.headers.content_length, size=n, max_size=1024 * 1024 * 1024)
        msg.body = Unavailable()
        s.sane = False
        return
    try:
        msg.body = s.read(n)
    except ParseError as e:
        msg.complain(1004, error=e)
        msg.body = Unavailable()


def spec_undo(msg, codings):
    """Undoes the codings from last to first, as long as the body is available."""
    while codings and okay(msg.body):
        undo_coding(msg, codings.pop())


def undo_coding(msg, coding):
    raise NotImplementedError


def chunked_body(msg, s):
    raise NotImplementedError


def length_body(msg, s):
    raise NotImplementedError


def spec_request_body(req, s):
    if req.headers.transfer_encoding.is_present:
        codings = req.headers.transfer_encoding.value[:]
        last = codings.pop()
        if last == tc.chunked:
            chunked_body(req, s)
        else:
            req.complain(1001)
            req.body = Unavailable()
            s.sane = False
        spec_undo(req, codings)
    elif req.headers.content_length.is_present:
        length_body(req, s)
    else:
        req.body = b''


def spec_response_body(resp, s):
    status, req = resp.status, resp.request
    if status == 101:
        resp.complain(1011)
        resp.body = b''
        s.sane = False
    elif req and req.method == m.CONNECT and 200 <= status < 300:
        resp.complain(1012)
        resp.body = b''
        s.sane = False
    elif 100 <= status < 200 or status == 204 or status == 304 or (req and req.method == m.HEAD):
        resp.body = b''
    elif resp.headers.transfer_encoding.is_present:
        codings = resp.headers.transfer_encoding.value[:]
        last = codings.pop()
        if last == tc.chunked:
            chunked_body(resp, s)
            spec_undo(resp, codings)
        else:
            codings.append(last)
            resp.body = s.read()
            spec_undo(resp, codings)
    elif resp.headers.content_length.is_present:
        length_body(resp, s)
    else:
        resp.body = s.read()


def body_engine():
    """The callees by their contracts."""
    eng = framing_engine()
    C = eng.contracts

    def chunked(e, a, k):
        x, s = a
        t = [s.attrs['state']]
        e.effect('chunked', key_of(x), s.attrs['state'])
        body = e.app('chunked_body_of', t)
        e.setattr(x, 'body', body)
        e.setattr(x, 'trailer_entries', e.app('chunked_trailer_of', t))
        e.setattr(s, 'state', e.app('after_chunked', t))
        vs = [e.to_v(x) for x in t]
        e.setattr(s, 'sane', SBool(z3.And(as_z3(e.truth(s.attrs['sane'])), fn('chunked_fine', [V], B)(*vs))))
        e.setattr(s, 'eof', SBool(z3.Or(as_z3(e.truth(s.attrs['eof'])), fn('chunked_reaches_end', [V], B)(*vs))))

    def undo(e, a, k):
        x, c = a
        e.effect('undo', key_of(x), c, x.attrs['body'])
        e.setattr(x, 'body', e.app('undone', [c, x.attrs['body']]))
    for f in (framing1._parse_chunked, chunked_body):
        C[f] = chunked
    for f in (framing1._decode_transfer_coding, undo_coding):
        C[f] = undo
    for f in (framing1._process_content_length, length_body):
        C[f] = lambda e, a, k: e.call_function(spec_content_length, a, {})
    return eng


def body_setup(cls, req=None):
    def setup(e):
        x = message(e, cls, 'msg', trailer_entries=None)
        if cls is MadeResponse:
            x.attrs['status'] = status(const('msg'))
            x.attrs['request'] = None
            if req:
                x.attrs['request'] = SObj(MadeRequest, {'method': SV(const('method'))}, ident='req', meta={'external': True})
        return x, flow(e, 'in')
    return setup


def body_state(x, s):
    return [message_state(x), flow_state(s)]


rel('C01', '_process_content_length', [F + '_process_content_length'], framing_engine, body_setup(MadeRequest), calls(framing1._process_content_length),
    calls(spec_content_length), observe=body_state)
rel('C01', '_parse_request_body', [F + '_parse_request_body'], body_engine, body_setup(MadeRequest), calls(framing1._parse_request_body),
    calls(spec_request_body), observe=body_state)
for _r in (True, False):
    rel('C01', '_parse_response_body request=%s' % _r, [F + '_parse_response_body'], body_engine, body_setup(MadeResponse, _r),
        calls(framing1._parse_response_body), calls(spec_response_body), observe=body_state)


# ---- chunked bodies and transfer codings

def spec_undo_coding(msg, coding):
    if coding == tc.gzip or coding == tc.x_gzip:
        how = codings.decode_gzip
    elif coding == tc.deflate:
        how = codings.decode_deflate
    else:
        if coding == tc.chunked:
            msg.complain(1002)
        elif okay(coding):
            msg.complain(1003, coding=coding)
        msg.body = Unavailable(msg.body)
        return
    try:
        msg.body = how(msg.body)
    except Exception as e:
        msg.complain(1027, coding=coding, error=e)
        msg.body = Unavailable(msg.body)


DECODE_ERROR = ValueError('cannot be decoded')


def coding_engine():
    eng = framing_engine()
    C = eng.contracts

    def decoder(name):
        def handler(e, a, k):
            if e.decide(fn(name + '_fails', [V], B)(e.to_v(a[0]))):
                raise PyRaise(DECODE_ERROR)
            return e.app(name, a)
        return handler
    for f in (codings.decode_gzip, codings.decode_deflate):
        C[f] = decoder(f.__name__)
    return eng


rel('C03', '_decode_transfer_coding', [F + '_decode_transfer_coding'], coding_engine,
    lambda e: (message(e, MadeRequest, 'msg', body=None), SV(const('coding'))), calls(framing1._decode_transfer_coding), calls(spec_undo_coding),
    observe=lambda x, c: message_state(x))


def with_body(setup):
    return setup


def spec_chunk(s, data):
    """-> whether it was a chunk (which is then added to data) or the last, empty one."""
    before = sum(len(c) for c in data)
    with s.parsing(framing1.chunk):
        start = s.tell()
        line = s.readline()
        size_text = line.partition(u';')[0].rstrip(u' \t')
        with s.parsing(framing1.chunk_size):
            if not is_hex(size_text):
                raise s.error(start)
        size = natural(size_text, base=16)
        if size == 0:
            return False
        if before + size > 1024 * 1024 * 1024:
            s.sane = False
            raise framing1.BodyTooLongError(before + size, 1024 * 1024 * 1024)
        data.append(s.read(size))
        s.readlineend()
        return True


def chunk_engine():
    eng = framing_engine()

    def too_long(e, a, k):
        return born(e, framing1.BodyTooLongError, size=a[0], max_size=a[1])
    eng.contracts[framing1.BodyTooLongError] = too_long
    return eng


rel('C03', '_parse_chunk', [F + '_parse_chunk'], chunk_engine, lambda e: (flow(e, 'in'), e.born([Splat(const('pieces'))])),
    calls(framing1._parse_chunk), calls(spec_chunk), observe=lambda s, d: [flow_state(s), list(d)])


def spec_chunked(msg, s):
    data = []
    try:
        while next_chunk(s, data):
            pass
        trailer = field_lines(s)
        with s.parsing(framing1.chunked_body):
            s.readlineend()
    except ParseError as e:
        msg.complain(1005, error=e)
        msg.body = Unavailable()
        return
    except framing1.BodyTooLongError as e:
        msg.complain(1298, place=u'chunked framing', size=e.size, max_size=e.max_size)
        msg.body = Unavailable()
        return
    s.dump_complaints(msg.complain, place=u'chunked framing')
    msg.body = b''.join(data)
    msg.trailer_entries = trailer
    if trailer:
        msg.rebuild_headers()


def next_chunk(s, data):
    raise NotImplementedError


def field_lines(s):
    raise NotImplementedError


def chunked_engine():
    eng = chunk_engine()
    C = eng.contracts

    def one_chunk(e, a, k):
        s, data = a
        st = s.attrs['state']
        t = e.to_v(st)
        if e.decide(fn('too_long', [V, V], B)(t, e.to_v(list(data)))):
            e.setattr(s, 'sane', False)
            raise PyRaise(born(e, framing1.BodyTooLongError, size=e.app('size', [st]), max_size=e.app('max_size', [st])))
        operation('chunk')(e, s, [])
        if e.decide(fn('last_chunk', [V], B)(t)):
            return False
        e.container_method(data.append, [e.app('chunk_data', [st])], {})
        return True
    for f in (framing1._parse_chunk, next_chunk):
        C[f] = one_chunk
    for f in (framing1.parse_header_fields, field_lines):
        C[f] = lambda e, a, k: operation('fields')(e, a[0], [])
    return eng


rel('C03', '_parse_chunked', [F + '_parse_chunked'], chunked_engine, lambda e: (message(e, MadeRequest, 'msg', trailer_entries=None), flow(e, 'in')),
    calls(framing1._parse_chunked), calls(spec_chunked), observe=body_state)


# gzip: a series of complete members

class Inflater:
    def decompress(self, data):
        raise NotImplementedError


def spec_gunzip(data):
    """At least one member; every member must be complete; nothing else may remain."""
    out = []
    while data or not out:
        one = zlib.decompressobj(31)
        out.append(one.decompress(data))
        if not one.eof:
            raise zlib.error('incomplete')
        data = one.unused_data
    return b''.join(out)


def zlib_engine():
    eng = engine()
    C = eng.contracts

    def inflater(e, a, k):
        return e.born(SObj(Inflater, {'bits': a[0] if a else 15, 'eof': False, 'unused_data': b''}, meta={'constructed': True}))

    def inflate(e, a, k):
        t = [a[0].attrs['bits'], a[1]]
        vs = [e.to_v(x) for x in t]
        if e.decide(fn('inflate_fails', [V, V], B)(*vs)):
            raise PyRaise(zlib.error('bad'))
        e.setattr(a[0], 'eof', SBool(fn('inflate_complete', [V, V], B)(*vs)))
        e.setattr(a[0], 'unused_data', e.app('inflate_unused', t))
        return e.app('inflated', t)
    C[zlib.decompressobj] = inflater
    C[Inflater.decompress] = inflate
    C[zlib.decompress] = lambda e, a, k: e.app('zlib_decompress', a)
    return eng


def spec_inflate(data):
    return zlib.decompress(data)


rel('C03', 'decode_gzip', ['httpolice.codings.decode_gzip'], zlib_engine, lambda e: (SV(const('data')),), calls(codings.decode_gzip), calls(spec_gunzip))
rel('C03', 'decode_deflate', ['httpolice.codings.decode_deflate'], zlib_engine, lambda e: (SV(const('data')),), calls(codings.decode_deflate), calls(spec_inflate))


# ---- start lines and header sections

def spec_request_heading(s, scheme=None):
    start = s.tell()
    with s.parsing(framing1.request_line):
        parts = s.readline().split(u' ')
        if len(parts) != 3 or not is_version(parts[2]):
            raise s.error(start)
    fields = field_lines(s)
    with s.parsing(framing1.HTTP_message):
        s.readlineend()
    req = Request(scheme, Method(parts[0]), parts[1], HTTPVersion(parts[2]), fields, body=None, remark=u'from %s, offset %d' % (s.name, start))
    s.dump_complaints(req.complain, place=u'request heading')
    return req


def spec_response_heading(req, s):
    start = s.tell()
    with s.parsing(framing1.status_line):
        parts = s.readline().split(u' ', 2)
        if len(parts) != 3 or not is_version(parts[0]) or not is_status(parts[1]):
            raise s.error(start)
    fields = field_lines(s)
    with s.parsing(framing1.HTTP_message):
        s.readlineend()
    resp = Response(HTTPVersion(parts[0]), StatusCode(parts[1]), parts[2], fields, body=None, remark=u'from %s, offset %d' % (s.name, start))
    resp.request = req
    s.dump_complaints(resp.complain, place=u'response heading')
    return resp


def heading_engine():
    eng = framing_engine()
    for f in (framing1.parse_header_fields, field_lines):
        eng.contracts[f] = lambda e, a, k: operation('fields')(e, a[0], [])
    return eng


rel('C04', '_parse_request_heading', [F + '_parse_request_heading'], heading_engine, lambda e: (flow(e, 'in'), SV(const('scheme'))),
    calls(framing1._parse_request_heading), calls(spec_request_heading), observe=lambda s, x: flow_state(s))
rel('C04', '_parse_response_heading', [F + '_parse_response_heading'], heading_engine, lambda e: (SV(const('req')), flow(e, 'in')),
    calls(framing1._parse_response_heading), calls(spec_response_heading), observe=lambda x, s: flow_state(s))


def spec_fields(s):
    """Lines with a colon up to an empty line; a line that begins with a blank continues the one before."""
    out = []
    while s.peek() not in [b'\r', b'\n', b'']:
        with s.parsing(framing1.header_field):
            start = s.tell()
            first = s.readline(decode=False)
            (name, colon, value) = first.partition(b':')
            if not colon:
                raise s.error(start)
            pieces = [value]
            while s.peek() in [b' ', b'\t']:
                s.complain(1016)
                pieces.append(b' ' + s.readline(decode=False).lstrip(b' \t'))
        out.append(HeaderEntry(FieldName(name.decode('iso-8859-1')), b''.join(pieces).strip(b' \t')))
    return out


rel('C04', 'parse_header_fields', [F + 'parse_header_fields'], framing_engine, lambda e: (flow(e, 'in'),),
    calls(framing1.parse_header_fields), calls(spec_fields), observe=lambda s: flow_state(s))


# ---- messages and exchanges

def spec_one_request(s, scheme=None):
    try:
        req = request_heading(s, scheme)
    except ParseError as e:
        return None, complaint_box(1006, error=e)
    request_body(req, s)
    return req, None


def spec_answers(s, req):
    """Interim responses up to and including the final one (101 is final)."""
    out = []
    while s.good:
        try:
            resp = response_heading(req, s)
        except ParseError as e:
            return out, complaint_box(1009, error=e)
        out.append(resp)
        response_body(resp, s)
        if not (100 <= resp.status < 200) or resp.status == 101:
            break
    return out, None


def request_heading(s, scheme):
    raise NotImplementedError


def request_body(req, s):
    raise NotImplementedError


def response_heading(req, s):
    raise NotImplementedError


def response_body(resp, s):
    raise NotImplementedError


def advance(e, s, name, args=()):
    """A step that may leave the stream insane without an error."""
    t = [s.attrs['state']] + list(args)
    vs = [e.to_v(x) for x in t]
    e.setattr(s, 'state', e.app('after_' + name, t))
    e.setattr(s, 'sane', SBool(z3.And(as_z3(e.truth(s.attrs['sane'])), fn(name + '_leaves_sane', [V] * len(vs), B)(*vs))))
    e.setattr(s, 'eof', SBool(z3.Or(as_z3(e.truth(s.attrs['eof'])), fn(name + '_reaches_end', [V] * len(vs), B)(*vs))))


def response_object(e, t):
    return SObj(MadeResponse, {'status': status(t), 't': SV(t)}, ident='response %s' % t, meta={'external': True, 'v': t})


def message_engine():
    eng = framing_engine()
    C = eng.contracts
    for f in (framing1._parse_request_heading, request_heading):
        C[f] = lambda e, a, k: operation('request_heading')(e, a[0], pick(['s', 'scheme'], a, k)[1:])
    for f in (framing1._parse_response_heading, response_heading):
        C[f] = lambda e, a, k: operation('response_heading', outcome=lambda e, t: response_object(e, e.to_v(e.app('response', t))))(e, a[1], [a[0]])
    for f in (framing1._parse_request_body, request_body):
        C[f] = lambda e, a, k: (e.effect('request_body', a[0], a[1].attrs['state']), advance(e, a[1], 'request_body', [a[0]]))[0]
    for f in (framing1._parse_response_body, response_body):
        C[f] = lambda e, a, k: (e.effect('response_body', a[0].attrs['t'], a[1].attrs['state']), advance(e, a[1], 'response_body', [a[0].attrs['t']]))[0]
    return eng


rel('C02', '_parse_request', [F + '_parse_request'], message_engine, lambda e: (flow(e, 'in'), SV(const('scheme'))), calls(framing1._parse_request),
    calls(spec_one_request), observe=lambda s, x: flow_state(s))
rel('C02', '_parse_responses', [F + '_parse_responses'], message_engine, lambda e: (flow(e, 'out'), SV(const('req'))), calls(framing1._parse_responses),
    calls(spec_answers), observe=lambda s, x: flow_state(s))


def spec_streams(inbound, outbound, scheme=None):
    if inbound is not None:
        while inbound.good:
            req, bad_request = one_request(inbound, scheme)
            answers, bad_response = [], None
            if req is not None:
                if outbound is not None and outbound.good:
                    answers, bad_response = answers_to(outbound, req)
                    if answers:
                        last = answers[-1]
                        if last.status == 101 or (req.method == m.CONNECT and 200 <= last.status < 300):
                            # from here on another protocol is spoken
                            inbound.sane = False
                yield Exchange(req, answers)
            if bad_request is not None:
                yield bad_request
            if bad_response is not None:
                yield bad_response
        if not inbound.eof:
            yield complaint_box(1007, stream=inbound, offset=inbound.tell())
    if outbound is not None:
        if outbound.good:
            if inbound is not None:
                yield complaint_box(1008, stream=outbound)
            while outbound.good:
                answers, bad_response = answers_to(outbound, None)
                if answers:
                    yield Exchange(None, answers)
                if bad_response is not None:
                    yield bad_response
        if not outbound.eof:
            yield complaint_box(1010, stream=outbound, offset=outbound.tell())


def one_request(s, scheme):
    raise NotImplementedError


def answers_to(s, req):
    raise NotImplementedError


def streams_engine():
    eng = framing_engine()
    C = eng.contracts

    def a_request(e, a, k):
        s, scheme = pick(['s', 'scheme'], a, k)
        st = s.attrs['state']
        ok = e.decide(fn('has_request', [V, V], B)(e.to_v(st), e.to_v(scheme)))
        advance(e, s, 'request', [scheme])
        t = e.to_v(e.app('request', [st, scheme]))
        if ok:
            return (SObj(MadeRequest, {'method': SV(fn('method', [V], V)(t)), 't': SV(t)}, ident='request %s' % t, meta={'external': True, 'v': t}), None)
        e.setattr(s, 'sane', False)
        return (None, born(e, Box, notice=1006, error=SV(t)))

    def some_responses(e, a, k):
        s, req = pick(['s', 'req'], a, k)
        st = s.attrs['state']
        q = None if req is None else req.attrs['t']
        bad = e.decide(fn('has_bad_response', [V, V], B)(e.to_v(st), e.to_v(q)))
        advance(e, s, 'responses', [q])
        t = e.to_v(e.app('responses', [st, q]))
        if bad:
            e.setattr(s, 'sane', False)
        return (e.born([Splat(t, {'make': response_object})]), born(e, Box, notice=1009, error=SV(t)) if bad else None)
    for f in (framing1._parse_request, one_request):
        C[f] = a_request
    for f in (framing1._parse_responses, answers_to):
        C[f] = some_responses
    C[complaint_box] = lambda e, a, k: born(e, Box, notice=a[0], **{n: (v.attrs['name'] if isinstance(v, SObj) else v) for n, v in k.items()})
    return eng


for _a in (True, False):
    for _b in (True, False):
        rel('C02', 'parse_streams inbound=%s outbound=%s' % (_a, _b), [F + 'parse_streams'], streams_engine,
            lambda e, a=_a, b=_b: (flow(e, 'in') if a else None, flow(e, 'out') if b else None, SV(const('scheme'))),
            calls(framing1.parse_streams), calls(spec_streams), observe=lambda a, b, s: [flow_state(a), flow_state(b)])
