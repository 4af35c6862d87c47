"""C16: contracts of the input from captured TCP streams."""
import io
import itertools
import os
import re
from collections import OrderedDict
from datetime import datetime

import z3

from contracts.relcheck import calls, engine, rel
from pyvc.engine import NTuple, PyRaise
from pyvc.relational import Splat
from pyvc.terms import SBool, SInt, SV, SObj, const, fn, V, I, B

from httpolice.exchange import complaint_box
from httpolice.framing1 import parse_streams
from httpolice.inputs import streams
from httpolice.inputs.common import InputError
from httpolice.stream import Stream
from httpolice.util.data import later
from httpolice.util.text import decode_path

P = 'C16'
S = 'httpolice.inputs.streams.'


# ---- order by time

def spec_time(exch, hint):
    """When the exchange happened: the request's Date, else a response's Date (plus its Age), else what was known before."""
    if exch.request:
        if exch.request.headers.date.is_okay:
            return exch.request.headers.date.value
    for r in exch.responses:
        date = r.headers.date
        if not date.is_okay:
            continue
        if not r.headers.age.is_okay:
            return date.value
        moved = later(date.value, r.headers.age.value)
        if moved is None:
            return datetime.max
        return moved
    return hint


def spec_order(sequences):
    """Every connection has a position: a time and the exchange waiting there (None before the first is read)."""
    at = [(hint, None) for (_, hint) in sequences]
    while True:
        which = earliest_time = None
        for i, here in enumerate(at):
            if here is None:
                continue
            if here[0] is None:
                which = i
                break
            if earliest_time is None or here[0] < earliest_time:
                earliest_time = here[0]
                which = i
        if which is None:
            break
        time, waiting = at[which]
        if waiting is None:
            waiting = next(sequences[which][0], None)
            begins = time_of(waiting, time)
            if time is None or time < begins:
                at[which] = (begins, waiting)
                continue
        yield waiting
        following = next(sequences[which][0], None)
        at[which] = None if following is None else (time_of(following, time), following)


def time_of(exch, hint):
    raise NotImplementedError


class World:
    """What the iterators yield depends on the history: a counter of the calls made so far."""


def order_engine():
    eng = engine()
    C = eng.contracts

    def advance(e, a, k):
        w = e.world
        r = e.app('next_exchange', [a[0], w.attrs['turn']])
        e.setattr(w, 'turn', e.binop_plus_one(w.attrs['turn']))
        return r
    C[next] = advance
    C[streams._exchange_time] = lambda e, a, k: e.app('time_of', a)
    C[time_of] = lambda e, a, k: e.app('time_of', a)
    eng.binop_plus_one = lambda t: SInt((t.t if isinstance(t, SInt) else z3.IntVal(t)) + 1)
    return eng


def order_setup(eng):
    eng.world = SObj(World, {'turn': SInt(const('turn', I), int)}, ident='world', meta={'internal': True})
    return ([Splat(const('sequences'))],)


rel(P, '_rearrange_by_time', [S + '_rearrange_by_time'], order_engine, order_setup, calls(streams._rearrange_by_time), calls(spec_order))


def time_engine():
    eng = engine()
    eng.contracts[later] = lambda e, a, k: e.app('later', a)
    return eng


def message_at(name):
    from contracts.c12_contracts import Entry
    return name


rel(P, '_exchange_time', [S + '_exchange_time'], time_engine, lambda e: (SV(const('exchange')), SV(const('hint'))),
    calls(streams._exchange_time), calls(spec_time))


# ---- pairing

def spec_pairs(infos):
    """In order of the sort hints, every stream with the opposite stream of the same connection, if there is one."""
    waiting = GhostMap([((x.connection_hint, x.source, x.destination), x) for x in in_order(infos)])
    pairs = []
    while waiting.nonempty():
        one = waiting.take_first()
        other = waiting.take((one.connection_hint, one.destination, one.source))
        if other is None:
            pairs.append((one.path, None, one.time_hint))
        elif one.time_hint is None:
            pairs.append((one.path, other.path, other.time_hint))
        elif other.time_hint is None:
            pairs.append((one.path, other.path, one.time_hint))
        else:
            pairs.append((one.path, other.path, min([one.time_hint, other.time_hint])))
    return pairs


def in_order(infos):
    raise NotImplementedError


class GhostMap:
    """An ordered dictionary whose contents are a logical value."""

    def __init__(self, items=()):
        self.t = map_of(items)

    def nonempty(self):
        return map_nonempty(self.t)

    __bool__ = nonempty

    def popitem(self, last=True):
        if last:
            raise NotImplementedError
        one = map_first(self.t)
        key = map_first_key(self.t)
        self.t = map_without_first(self.t)
        return key, one

    def take_first(self):
        return self.popitem(last=False)[1]

    def pop(self, key, *default):
        if not map_has(self.t, key):
            if default:
                return default[0]
            raise KeyError(key)
        r = map_get(self.t, key)
        self.t = map_without(self.t, key)
        return r

    def take(self, key):
        if not map_has(self.t, key):
            return None
        return self.pop(key)


def map_of(items):
    raise NotImplementedError


def map_nonempty(t):
    raise NotImplementedError


def map_first(t):
    raise NotImplementedError


def map_first_key(t):
    raise NotImplementedError


def map_without_first(t):
    raise NotImplementedError


def map_has(t, key):
    raise NotImplementedError


def map_get(t, key):
    raise NotImplementedError


def map_without(t, key):
    raise NotImplementedError


def stream_info(e, t):
    """A _StreamInfo with opaque parts."""
    return NTuple(streams._StreamInfo, tuple(e.app('info_' + f, [SV(t)]) for f in streams._StreamInfo._fields))


def sorted_contract(e, a, k):
    if k.get('reverse'):
        return e.app('otherwise_sorted', a)
    t = e.to_v(a[0])
    some = e.fresh('some')
    key = e.call(k['key'], [stream_info(e, some)], {}) if 'key' in k else SV(some)
    by_hint = e.valid(e.to_v(key) == e.to_v(e.app('info_sort_hint', [SV(some)])))
    return SV(fn('in_order' if by_hint else 'otherwise_ordered', [V], V)(t), {'elem': {'make': stream_info}})


def pairs_engine():
    eng = engine()
    C = eng.contracts
    C[OrderedDict] = lambda e, a, k: e.call(GhostMap, a, k)
    C[sorted] = sorted_contract
    C[in_order] = lambda e, a, k: SV(fn('in_order', [V], V)(e.to_v(a[0])), {'elem': {'make': stream_info}})
    C[map_of] = lambda e, a, k: e.app('map_of', [e.force_comp(a[0]) if hasattr(a[0], 'fr') else a[0]])
    for f in (map_nonempty, map_has):
        C[f] = lambda e, a, k, f=f: e.app(f.__name__, a, rng=B)
    for f in (map_first_key, map_without_first, map_without):
        C[f] = lambda e, a, k, f=f: e.app(f.__name__, a)
    for f in (map_first, map_get):
        C[f] = lambda e, a, k, f=f: stream_info(e, e.app(f.__name__, a).t)
    C[min] = least
    return eng


def least(e, a, k):
    xs = a[0] if len(a) == 1 else list(a)
    if isinstance(xs, list) and not any(isinstance(x, Splat) for x in xs) and set(k) <= {'default'}:
        if not xs:
            if k:
                return k['default']
            raise PyRaise(ValueError('empty'))
        return xs[0] if len(xs) == 1 else e.app('min', [SV(e.to_v(xs))])
    return e.app('min_of' + ''.join('_' + n for n in sorted(k)), [SV(e.to_v(xs))] + [k[n] for n in sorted(k)])


rel(P, '_recombine_streams', [S + '_recombine_streams'], pairs_engine, lambda e: ([Splat(const('infos'), {'make': stream_info})],),
    calls(streams._recombine_streams), calls(spec_pairs))


# ---- from pairs of paths to exchanges

def spec_sequences(path_pairs, sniff_direction=False, complain_on_one_sided=False):
    out = []
    for (path1, path2, hint) in path_pairs:
        path1 = decode_path(path1) if path1 else path1
        path2 = decode_path(path2) if path2 else path2
        first = []
        if complain_on_one_sided:
            if path1 is None or path2 is None:
                first.append(complaint_box(1278, path=path1 or path2))
        inbound, outbound = path1, path2
        if sniff_direction:
            found = streams._sniff_direction(path1, path2)
            if found is None:
                first.append(complaint_box(1279, path1=path1 or u'(none)', path2=path2 or u'(none)'))
                out.append((first, hint))
                continue
            inbound, outbound = found
        if inbound or outbound:
            out.append((followed_by(first, streams._parse_paths(inbound, outbound)), hint))
        else:
            out.append((first, hint))
    return by_time(out)


def followed_by(a, b):
    return itertools.chain(a, b)


def by_time(x):
    raise NotImplementedError


def sequence_of(e, x):
    """The members of an iterator, whatever it is made of."""
    if isinstance(x, list):
        return list(x)
    if isinstance(x, SV):
        return [Splat(x.t)]
    return list(e.iter_sym(x))


def paths_engine():
    eng = engine()
    C = eng.contracts
    C[decode_path] = lambda e, a, k: e.app('decode_path', a)
    C[complaint_box] = lambda e, a, k: e.app('box%d_%s' % (a[0], '_'.join(sorted(k))), [k[n] for n in sorted(k)])
    C[streams._sniff_direction] = lambda e, a, k: e.app('direction', a)
    C[streams._parse_paths] = lambda e, a, k: e.app('exchanges_of' + ''.join('_' + n for n in sorted(k)), list(a) + [k[n] for n in sorted(k)])
    C[itertools.chain] = lambda e, a, k: e.born([y for x in a for y in sequence_of(e, x)])
    for f in (streams._rearrange_by_time, by_time):
        C[f] = lambda e, a, k: e.app('by_time', a)
    C[iter] = lambda e, a, k: e.born(sequence_of(e, a[0]))
    return eng


def pair_of_paths(e, t):
    return (e.app('path1', [SV(t)]), e.app('path2', [SV(t)]), e.app('hint', [SV(t)]))


for _sniff in (True, False):
    for _one in (True, False):
        rel(P, '_path_pairs_input sniff=%s one-sided=%s' % (_sniff, _one), [S + '_path_pairs_input'], paths_engine,
            lambda e, s=_sniff, o=_one: ([Splat(const('pairs'), {'make': pair_of_paths})], s, o),
            calls(streams._path_pairs_input), calls(spec_sequences))


# one-sided inputs

def spec_req(paths):
    return exchanges_of_pairs([(p, None, None) for p in paths])


def spec_resp(paths):
    return exchanges_of_pairs([(None, p, None) for p in paths])


def exchanges_of_pairs(pairs, sniff_direction=False, complain_on_one_sided=False):
    raise NotImplementedError


def sides_engine():
    eng = engine()
    for f in (streams._path_pairs_input, exchanges_of_pairs):
        def handler(e, a, k):
            opts = dict(zip(('sniff_direction', 'complain_on_one_sided'), a[1:]), **k)
            flags = '_'.join(sorted(n for n, v in opts.items() if v))
            x = a[0]
            if hasattr(x, 'fr'):
                x = e.force_comp(x)
            return e.app('exchanges_of_pairs_' + flags, [x])
        eng.contracts[f] = handler
    return eng


rel(P, 'req_stream_input', [S + 'req_stream_input'], sides_engine, lambda e: ([Splat(const('paths'))],), calls(streams.req_stream_input), calls(spec_req))
rel(P, 'resp_stream_input', [S + 'resp_stream_input'], sides_engine, lambda e: ([Splat(const('paths'))],), calls(streams.resp_stream_input), calls(spec_resp))


def spec_two(paths):
    n = len(paths)
    if n % 2 == 1:
        raise InputError(u'even number of input streams required')
    return exchanges_of_pairs([(paths[i], paths[i + 1], None) for i in range(0, n, 2)])


rel(P, 'streams_input', [S + 'streams_input'], sides_engine, lambda e: ([Splat(const('paths'))],),
    calls(streams.streams_input), calls(spec_two))


# ---- reading the files

class GhostFile:
    """An open file."""

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()
        return False

    def close(self):
        raise NotImplementedError

    def read(self):
        raise NotImplementedError

    def readline(self):
        raise NotImplementedError


def open_file(e, a, k):
    if [str(x) for x in a[1:]] != ['rb'] or k:
        return e.app('otherwise_opened', a)
    e.effect('open', a[0])
    return SObj(GhostFile, {'path': a[0]}, ident='file of %s' % e.to_v(a[0]), meta={'external': True})


def files_engine():
    eng = engine()
    C = eng.contracts
    C[io.open] = C[open] = open_file
    C[GhostFile.close] = lambda e, a, k: e.effect('close', a[0].attrs['path'])
    C[GhostFile.read] = lambda e, a, k: e.app('contents', [a[0].attrs['path']])
    C[GhostFile.readline] = lambda e, a, k: e.app('first_line', [a[0].attrs['path']])
    C[decode_path] = lambda e, a, k: e.app('decode_path', a)
    C[io.BytesIO] = lambda e, a, k: e.app('bytes_io', a)
    C[io.BufferedReader] = lambda e, a, k: e.app('buffered', a)
    C[Stream] = lambda e, a, k: e.app('stream', [a[0] if isinstance(a[0], SV) else a[0].attrs['path'], k.get('name', a[1] if len(a) > 1 else None)])

    def parsed(e, a, k):
        a = list(a) + [k[n] for n in ('scheme',) if n in k]
        return e.app('parsed_streams', a + [None] * (3 - len(a)))
    C[streams.parse_streams] = parsed
    C[re.match] = lambda e, a, k: e.app('matches_' + signature(a[0]), a[1:])
    return eng


def spec_parse(inbound_path, outbound_path, scheme=u'http'):
    a = b = None
    if inbound_path:
        fa = io.open(inbound_path, 'rb')
        a = Stream(fa, name=decode_path(inbound_path))
    if outbound_path:
        fb = io.open(outbound_path, 'rb')
        b = Stream(fb, name=decode_path(outbound_path))
    for x in parse_streams(a, b, scheme):
        yield x
    if inbound_path:
        fa.close()
    if outbound_path:
        fb.close()


def path(name, given):
    def make(e):
        if not given:
            return None
        e.fact(e.truth(SV(const(name))))
        return SV(const(name))
    return make


for _i, _o in ((1, 1), (1, 0), (0, 1), (0, 0)):
    rel(P, '_parse_paths inbound=%d outbound=%d' % (_i, _o), [S + '_parse_paths'], files_engine,
        lambda e, i=_i, o=_o: (path('inbound_path', i)(e), path('outbound_path', o)(e), SV(const('scheme'))),
        calls(streams._parse_paths), calls(spec_parse))

# the shape of a first line, by its behaviour on a battery of lines (bounded stand-in for the regular expression itself)
LINES = [v + s for v in (b'HTTP/1.1 200 OK', b'HTTP/1.0 404 ', b'HTTP/1.1 200', b'HTTP/2 200 OK', b'HTTP/1.1 20 OK', b'HTTP/1.12 200 OK', b' HTTP/1.1 200 OK',
                         b'http/1.1 200 OK', b'XHTTP/1.1 200 OK', b'HTTP/1.1  200 OK', b'HTTP/1.1 2000 OK', b'HTTP/1.x 200 OK', b'HTTP/1.1 abc OK',
                         b'GET / HTTP/1.1', b'GET / HTTP/1.0', b'GET / HTTP/2', b'GET  HTTP/1.1', b'GET /a b HTTP/1.1', b'GET / HTTP/1.1 x', b' GET / HTTP/1.1',
                         b'GET / http/1.1', b'GET / HTTP/1.11', b'GET / HTTP/1.', b'x y HTTP/1.9', b'HTTP/1.1 200 HTTP/1.1', b'GET\t/ HTTP/1.1', b'', b'\xff\xfe', b'abc',
                         b'GET /\r HTTP/1.1', b'HTTP/0.9 200 OK', b'GET / HTTP/0.9', b'HTTP/1.1 200\t')
         for s in (b'', b'\r\n', b'\n', b' ', b'x', b' HTTP/1.1')]
NAMES = [p + s for p in ('tcpick_000001_127.0.0.1_127.0.0.1_80', 'tcpick_1_a_b_http', 'tcpick_12_a_b', 'tcpick_x_a_b_80', 'tcpick_1_a_b_c_d', 'xtcpick_1_a_b_80',
                         'tcpick__a_b_80', 'tcpick_1__b_80', 'tcpick_1_a_b_', 'tcpick_1_a.b_c.d_80', 'tcpick_1_a_b_8.0', 'Tcpick_1_a_b_80', '1-a-80-b-443-0', '1-a-80-b-443-1-2',
                         '1-a-80-b-443', '-a-80-b-443-0', 'x1-a-80-b-443-0', '1-a-x-b-443-0', '1469847441-054.175.219.008-00080-172.016.000.100-39656', '1-a-80-b-443-x', '1-a_80-b-443-0',
                         '1-a-80-b--0', '1--80-b-443-0', 'report.xml', 'a', '')
         for s in ('', '.clnt.dat', '.serv.dat', '.other.dat', 'xclnt.dat', '.clnt.dat.', '.clntxdat', '-0', '-12', '.serv.dat\n', '.clnt.data', '..serv.dat')]
KNOWN = {}


def shape(pattern):
    out = []
    for x in (LINES if isinstance(pattern, bytes) else NAMES):
        m = re.match(pattern, x)
        out.append(None if m is None else m.groups())
    return out


def signature(pattern):
    return KNOWN.setdefault(repr(shape(pattern)), 'shape%d' % len(KNOWN))


STATUS_LINE = signature(br'HTTP/1\.[0-9] [0-9]{3} ')
REQUEST_LINE = signature(br'[^ ]+ [^ ]+ HTTP/1\.[0-9]$')
assert STATUS_LINE != REQUEST_LINE


def first_line_of(p):
    with io.open(p, 'rb') as f:
        return f.readline()


def is_status_line(line):
    raise NotImplementedError


def is_request_line(line):
    raise NotImplementedError


def spec_outbound(p):
    return is_status_line(first_line_of(p))


def spec_inbound(p):
    return is_request_line(first_line_of(p).rstrip())


def sniff_engine():
    eng = files_engine()
    C = eng.contracts
    matched = lambda e, sig, x: SBool(e.to_v(e.app('matches_' + sig, [x])) != e.lit(None))
    C[is_status_line] = lambda e, a, k: matched(e, STATUS_LINE, a[0])
    C[is_request_line] = lambda e, a, k: matched(e, REQUEST_LINE, a[0])
    return eng


rel(P, '_sniff_outbound', [S + '_sniff_outbound'], sniff_engine, lambda e: (SV(const('path')),), calls(streams._sniff_outbound), calls(spec_outbound))
rel(P, '_sniff_inbound', [S + '_sniff_inbound'], sniff_engine, lambda e: (SV(const('path')),), calls(streams._sniff_inbound), calls(spec_inbound))


def spec_direction(path1, path2):
    """-> (requests, responses): a side that begins with a status line has the responses; failing that, a side that
    begins with a request line has the requests."""
    if path1 and has_responses(path1):
        return (path2, path1)
    if path2 and has_responses(path2):
        return (path1, path2)
    if path1 and has_requests(path1):
        return (path1, path2)
    if path2 and has_requests(path2):
        return (path2, path1)
    return None


def has_responses(p):
    raise NotImplementedError


def has_requests(p):
    raise NotImplementedError


def direction_engine():
    eng = engine()
    for f in (streams._sniff_outbound, has_responses):
        eng.contracts[f] = lambda e, a, k: e.app('has_responses', a, rng=B)
    for f in (streams._sniff_inbound, has_requests):
        eng.contracts[f] = lambda e, a, k: e.app('has_requests', a, rng=B)
    return eng


rel(P, '_sniff_direction', [S + '_sniff_direction'], direction_engine, lambda e: (SV(const('path1')), SV(const('path2'))),
    calls(streams._sniff_direction), calls(spec_direction))


# ---- combined files

def spec_combined(path):
    """-> (inbound, outbound, scheme, preamble): what stands before, between and after the two markers."""
    path = decode_path(path)
    with io.open(path, 'rb') as f:
        data = f.read()
    first = split_once(data, b'======== BEGIN INBOUND STREAM ========\r\n')
    if first is None:
        raise InputError(u'no inbound marker')
    preamble, rest = first
    preamble = text_or_error(preamble)
    second = split_once(rest, b'======== BEGIN OUTBOUND STREAM ========\r\n')
    if second is None:
        raise InputError(u'no outbound marker')
    inbound, outbound = second
    if path.endswith(u'.https'):
        scheme = u'https'
    else:
        scheme = None if path.endswith(u'.noscheme') else u'http'
    return (Stream(io.BufferedReader(io.BytesIO(inbound)), name=path + u' (inbound)'),
            Stream(io.BufferedReader(io.BytesIO(outbound)), name=path + u' (outbound)'), scheme, preamble)


def split_once(data, marker):
    raise NotImplementedError


def text_or_error(data):
    raise NotImplementedError


def split_method(e, obj, args, kw):
    """data.split(marker, n): the text before the first marker, before the second ..., and the rest."""
    n = kw.get('maxsplit', args[1] if len(args) > 1 else -1)
    if not args or not isinstance(n, int) or set(kw) - {'maxsplit'}:
        raise_unsupported('another kind of split')
    out = []
    while n:
        if not e.decide(e.app('has_marker', [obj, args[0]], rng=B).t):
            break
        if len(out) == 3:
            raise_unsupported('a split into many parts')
        out.append(e.app('before', [obj, args[0]]))
        obj = e.app('after', [obj, args[0]])
        n -= 1
    return out + [obj]


def partition_method(e, obj, args, kw):
    if not e.decide(e.app('has_marker', [obj, args[0]], rng=B).t):
        return (obj, b'', b'')
    return (e.app('before', [obj, args[0]]), args[0], e.app('after', [obj, args[0]]))


def raise_unsupported(why):
    from pyvc.engine import Unsupported
    raise Unsupported(why)


def combined_engine():
    eng = files_engine()

    def split_c(e, a, k):
        r = split_method(e, a[0], [a[1], 1], {})
        return None if len(r) == 1 else tuple(r)
    eng.contracts[split_once] = split_c

    def text_c(e, a, k):
        if e.decide(e.app('is_utf8', a[:1], rng=B).t):
            return e.app('text', a[:1])
        raise PyRaise(InputError('x'))
    eng.contracts[text_or_error] = text_c
    eng.method_contracts['split'] = split_method
    eng.method_contracts['partition'] = partition_method

    def decode(e, obj, args, kw):
        if args != ['utf-8'] and list(args) != ['utf-8']:
            return e.app('otherwise_decoded', [obj])
        if e.decide(e.app('is_utf8', [obj], rng=B).t):
            return e.app('text', [obj])
        raise PyRaise(UnicodeDecodeError('utf-8', b'', 0, 1, 'x'))
    eng.method_contracts['decode'] = decode
    return eng


rel(P, 'parse_combined', [S + 'parse_combined'], combined_engine, lambda e: (SV(const('path')),), calls(streams.parse_combined), calls(spec_combined))


def spec_all_combined(paths):
    for p in paths:
        inbound, outbound, scheme, _ = streams.parse_combined(p)
        for x in parse_streams(inbound, outbound, scheme):
            yield x


def all_combined_engine():
    eng = files_engine()
    eng.contracts[streams.parse_combined] = lambda e, a, k: tuple(e.app('combined_%d' % i, a) for i in range(4))
    return eng


rel(P, 'combined_input', [S + 'combined_input'], all_combined_engine, lambda e: ([Splat(const('paths'))],),
    calls(streams.combined_input), calls(spec_all_combined))


# ---- directories of tcpick and tcpflow

def spec_tcpick(dir_paths):
    pairs = []
    for d in dir_paths:
        d = decode_path(d)
        found = []
        for name in os.listdir(d):
            parts = tcpick_name(name)
            if parts is None:
                raise InputError(u'wrong name')
            number, client, server, side = parts
            a, b = u'client ' + client, u'server ' + server
            if side == 'serv':
                a, b = b, a
            found.append(streams._StreamInfo(os.path.join(d, name), a, b, number, None, int(number)))
        pairs.extend(streams._recombine_streams(found))
    return exchanges_of_pairs(pairs, sniff_direction=True, complain_on_one_sided=True)


def spec_tcpflow(dir_paths):
    pairs = []
    for d in dir_paths:
        d = decode_path(d)
        found = []
        seen = {}
        for name in os.listdir(d):
            if name == 'report.xml' or name == 'alerts.txt':
                continue
            parts = tcpflow_name(name)
            if parts is None:
                raise InputError(u'wrong name')
            number, a, b = parts
            number = int(number)
            try:
                start = datetime.utcfromtimestamp(number)
            except Exception:
                raise InputError(u'wrong timestamp')
            if (a, b) in seen:
                raise InputError(u'duplicate')
            path = os.path.join(d, name)
            seen[(a, b)] = path
            found.append(streams._StreamInfo(path, a, b, None, start, number))
        pairs.extend(streams._recombine_streams(found))
    return exchanges_of_pairs(pairs, sniff_direction=True, complain_on_one_sided=True)


def tcpick_name(name):
    raise NotImplementedError


def tcpflow_name(name):
    raise NotImplementedError


TCPICK = signature(r'^tcpick_(\d+)_([^_]+)_([^_]+_[^.]+)\.(serv|clnt)\.dat\Z')
TCPFLOW = signature(r'^(\d+)-([^-]+-\d+)-([^-]+-\d+)-\d+$')
assert len({TCPICK, TCPFLOW, STATUS_LINE, REQUEST_LINE}) == 4


class GhostMatch:
    def groups(self):
        raise NotImplementedError


def dirs_engine():
    eng = sides_engine()
    C = eng.contracts
    C[decode_path] = lambda e, a, k: e.app('decode_path', a)
    C[os.listdir] = lambda e, a, k: e.app('listdir', a)
    C[os.path.join] = lambda e, a, k: e.app('join', a)
    C[streams._recombine_streams] = lambda e, a, k: e.app('recombined', a)
    C[int] = lambda e, a, k: e.app('int', a)
    C[len] = lambda e, a, k: e.app('len', a)

    def parts(e, sig, n, name):
        if not e.decide(e.app('matches_' + sig, [name], rng=B).t):
            return None
        return tuple(e.app('group%d_%s' % (i, sig), [name]) for i in range(n))

    def match(e, a, k):
        n = re.compile(a[0]).groups
        r = parts(e, signature(a[0]), n, a[1])
        return None if r is None else SObj(GhostMatch, {'parts': r}, ident='match', meta={'external': True})
    C[re.match] = match
    C[GhostMatch.groups] = lambda e, a, k: a[0].attrs['parts']
    C[GhostMatch.group] = lambda e, a, k: a[0].attrs['parts'][a[1] - 1]
    C[tcpick_name] = lambda e, a, k: parts(e, TCPICK, 4, a[0])
    C[tcpflow_name] = lambda e, a, k: parts(e, TCPFLOW, 3, a[0])

    def since(e, a, k):
        for exc in (ValueError, OverflowError, OSError):
            if e.decide(e.app('no_such_time_' + exc.__name__, a, rng=B).t):
                raise PyRaise(exc('x'))
        return e.app('utcfromtimestamp', a)
    C[datetime.utcfromtimestamp] = since
    return eng


GhostMatch.group = lambda self, n: None
rel(P, 'tcpick_input', [S + 'tcpick_input'], dirs_engine, lambda e: ([Splat(const('dirs'))],), calls(streams.tcpick_input), calls(spec_tcpick))
rel(P, 'tcpflow_input', [S + 'tcpflow_input'], dirs_engine, lambda e: ([Splat(const('dirs'))],), calls(streams.tcpflow_input), calls(spec_tcpflow))
