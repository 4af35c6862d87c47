"""C16: captured TCP streams.  Contracts of inputs/streams.py discharged by the relational verifier; bounded: directories of
capture files written in a scratch directory, with the expected sequence of exchanges computed by an independent oracle."""
import datetime
import io
import os
import random
import shutil
import tempfile

from contracts import core, relcheck
from contracts import c16_contracts     # noqa: registers the contracts

BASE = datetime.datetime(2014, 11, 13, 10, 0, 0)
EPOCH = 1415872800          # BASE


def http_date(minutes):
    return (BASE + datetime.timedelta(minutes=minutes)).strftime('%a, %d %b %Y %H:%M:%S GMT').encode()


def connection(rng, tag, kind):
    """-> (inbound bytes, outbound bytes)"""
    if kind == 'junk':
        return rng.choice([(b'\x16\x03\x01\x00\n', b'\x16\x03\x03\x00\n'), (b'hello\n', b'hi\n'), (b'', b''), (b'EHLO x\r\n', b'250 ok\r\n')])
    reqs, resps = [], []
    minute = rng.randrange(60)
    for i in range(rng.choice([1, 1, 2, 3])):
        minute += rng.choice([-3, 0, 1, 5, 20])
        rq = [b'GET /%s/%d HTTP/1.%d' % (tag, i, rng.choice([1, 1, 0])), b'Host: x']
        if rng.random() < 0.15:
            rq.append(b'Date: ' + rng.choice([http_date(minute), http_date(minute + 1), b'nonsense']))
        rs = [b'HTTP/1.1 200 OK', b'Content-Length: 0', b'Server: %s-%d' % (tag, i)]
        if rng.random() < 0.7:
            rs.append(b'Date: ' + (http_date(minute) if rng.random() < 0.95 else b'nonsense'))
        if rng.random() < 0.25:
            rs.append(b'Age: ' + rng.choice([b'0', b'60', b'600', b'3600', b'x', b'9' * 12, b'9' * 30]))
        if rng.random() < 0.1:
            resps.append(b'HTTP/1.1 100 Continue\r\n\r\n' if rng.random() < 0.5 else
                         b'HTTP/1.1 103 Early Hints\r\nDate: ' + http_date(minute - 1) + b'\r\n\r\n')
        reqs.append(b'\r\n'.join(rq) + b'\r\n\r\n')
        resps.append(b'\r\n'.join(rs) + b'\r\n\r\n')
    a, b = b''.join(reqs), b''.join(resps)
    if rng.random() < 0.1:
        b += b'junk'
    if rng.random() < 0.1:
        a += b'GET /last HTTP/1.1\r\n\r\n'
    if kind == 'h2':
        b = b'HTTP/2 200 OK\r\n\r\n'
    return a, b


def talks(data):
    """Which side this data is from, by its first line."""
    line = data.split(b'\n')[0] + (b'\n' if b'\n' in data else b'')
    first = line.split(b' ', 2)
    if len(first) == 3 and first[0] in (b'HTTP/1.%d' % i for i in range(10)) and len(first[1]) == 3 and all(c in b'0123456789' for c in first[1]):
        return 'responses'
    words = line.rstrip().split(b' ')
    if len(words) == 3 and words[0] and words[1] and words[2] in (b'HTTP/1.%d' % i for i in range(10)):
        return 'requests'
    return None


def when(exch, before):
    """Date of the request, else Date (plus Age) of a response, else what was known."""
    from httpolice.structure import okay
    d = exch.request.headers.date.value if exch.request is not None else None
    if d is not None and okay(d):
        return d
    for r in exch.responses:
        d = r.headers.date.value
        if d is None or not okay(d):
            continue
        age = r.headers.age.value
        if age is None or not okay(age):
            return d
        try:
            return d + datetime.timedelta(seconds=age)
        except OverflowError:
            return datetime.datetime.max
    return before


def tag_of(exch):
    from httpolice.stream import Stream

    def plain(v):
        return v.name if isinstance(v, Stream) else str(v)
    if exch.request is None and not exch.responses:
        return ['box'] + [(c.id, sorted((k, plain(v)) for k, v in c.context.items() if k not in ('exch', 'error'))) for c in exch.complaints]
    return [exch.request.remark if exch.request else None] + [r.remark for r in exch.responses]


def expected(connections):
    """connections: [(list of exchanges, time hint)] -> exchanges in order."""
    state = [{'todo': list(x), 'time': hint, 'read': False} for x, hint in connections]
    out = []
    while True:
        live = [s for s in state if s['todo'] or not s['read']]
        live = [s for s in live if s['todo']]
        if not live:
            return out
        unknown = [s for s in live if s['time'] is None]
        s = unknown[0] if unknown else min(live, key=lambda s: s['time'])
        if not s['read']:
            s['read'] = True
            t = when(s['todo'][0], s['time'])
            if s['time'] is None or t > s['time']:
                s['time'] = t
                continue
        before = s['time']
        out.append(s['todo'].pop(0))
        if s['todo']:
            s['time'] = when(s['todo'][0], before)


def exchanges(a, b, names):
    from httpolice.framing1 import parse_streams
    from httpolice.stream import Stream
    ins = Stream(io.BufferedReader(io.BytesIO(a)), name=names[0]) if a is not None else None
    outs = Stream(io.BufferedReader(io.BytesIO(b)), name=names[1]) if b is not None else None
    return list(parse_streams(ins, outs, 'http'))


def box(nid, **kw):
    return ['box', (nid, sorted(kw.items()))]


class Tagged:
    """An expected complaint box."""
    request, responses = None, ()

    def __init__(self, tag):
        self.tag = tag


def tagged(x):
    return x.tag if isinstance(x, Tagged) else tag_of(x)


def directory(rng, scratch, flavour):
    """Writes a capture; -> (directory, [(path1, data1, path2, data2, hint)] in order, or None when a name is wrong)"""
    d = tempfile.mkdtemp(dir=scratch)
    files, infos = {}, []
    n = rng.choice([1, 2, 2, 3, 4])
    used = set()
    wrong = False
    for k in range(n):
        kind = rng.choice(['http'] * 6 + ['junk', 'h2'])
        a, b = connection(rng, b'c%d' % k, kind)
        sides = rng.choice(['both'] * 5 + ['in', 'out'])
        if flavour == 'tcpick':
            client, server = rng.choice(['127.0.0.1', '10.0.0.1', 'host']), rng.choice(['127.0.0.1', '10.0.0.2', 'host'])
            port = rng.choice(['80', 'http', '8080', 'x_y', 'http-alt'])
            number = rng.choice(['%06d', '%06d', '%d', '%02d']) % rng.choice([k + 1, k + 1, 1, 2, 9, 10, 11, 100, 999999, 1000000])
            key = (number, client, server, port)
            if key in used:
                continue
            used.add(key)
            pa, pb = ['tcpick_%s_%s_%s_%s.%s.dat' % (number, client, server, port, s) for s in ('clnt', 'serv')]
            if rng.random() < 0.15:
                a, b = b, a
            sort = (int(number), int(number))
            hints = (None, None)
            conn = key
            ends = (('c', client), ('s', (server, port)))
        else:
            x, y = [rng.choice(['%03d.000.000.001' % rng.choice([10, 127]), 'fe80::1']) for _ in range(2)]
            px, py = '%05d' % rng.choice([80, 40000, 40001, k + 1000]), '%05d' % rng.choice([80, 8080])
            t1 = EPOCH + rng.choice([0, 0, 60, 600, 1800]) + rng.randrange(5)
            t2 = t1 + rng.choice([0, 0, 1, -1, 30])
            if (x, px, y, py) in used or (y, py, x, px) in used or (x, px) == (y, py):
                continue
            used.add((x, px, y, py))
            pa, pb = '%d-%s-%s-%s-%s-0' % (t1, x, px, y, py), '%d-%s-%s-%s-%s-%d' % (t2, y, py, x, px, rng.choice([0, 0, 3]))
            sort = (t1, t2)
            hints = tuple(datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t) for t in (t1, t2))
            conn = None
            ends = ((x, px), (y, py))
        if sides in ('both', 'in'):
            files[pa] = a
            infos.append((sort[0], pa, a, hints[0], conn, ends))
        if sides in ('both', 'out'):
            files[pb] = b
            infos.append((sort[1], pb, b, hints[1], conn, ends[::-1]))
    if rng.random() < 0.04:
        bad = rng.choice(['readme.txt', 'tcpick_1_a_b_80.dat', 'tcpick_x_a_b_80.clnt.dat', '1-2-3-4', 'tcpick_1_a_b_80.clnt.data', '12-a-80-b-443', 'x1-a-80-b-443-0',
                          '99999999999999999-a-80-b-443-0', 'tcpick_1_a.clnt.dat'])
        files[bad] = b'x'
        wrong = True
    if flavour == 'tcpflow':
        if rng.random() < 0.3:
            files[rng.choice(['report.xml', 'alerts.txt'])] = b'<x/>'
        if infos and rng.random() < 0.05:
            s, p, data, hint, conn, ends = rng.choice(infos)
            files['%d-%s' % (s + 7, p.split('-', 1)[1].rsplit('-', 1)[0] + '-9')] = b'x'       # the same endpoints once more
            wrong = True
    for name, data in files.items():
        with open(os.path.join(d, name), 'wb') as f:
            f.write(data)
    return d, infos, wrong


def pair_up(d, infos):
    """[(path1, data1, path2, data2, hint)] in order of the first file of each connection (as listed when equal)."""
    position = {name: i for i, name in enumerate(os.listdir(d))}
    infos = sorted(infos, key=lambda x: (x[0], position[x[1]]))
    out, taken = [], set()
    for i, (s, p, data, hint, conn, ends) in enumerate(infos):
        if p in taken:
            continue
        taken.add(p)
        other = [x for x in infos if x[1] not in taken and x[4] == conn and x[5] == ends[::-1]]
        if len(other) > 1:
            raise AssertionError('ambiguous capture')
        if other:
            taken.add(other[0][1])
            hints = [h for h in (hint, other[0][3]) if h is not None]
            out.append((os.path.join(d, p), data, os.path.join(d, other[0][1]), other[0][2], min(hints) if hints else None))
        else:
            out.append((os.path.join(d, p), data, None, None, hint))
    return out


def connection_exchanges(p1, d1, p2, d2, one_sided):
    out = []
    if one_sided and p2 is None:
        out.append(Tagged(box(1278, path=p1)))
    t1, t2 = talks(d1), talks(d2) if d2 is not None else None
    if t1 == 'responses':
        flip = True
    elif t2 == 'responses':
        flip = False
    elif t1 == 'requests':
        flip = False
    elif t2 == 'requests':
        flip = True
    else:
        out.append(Tagged(box(1279, path1=p1, path2=p2 or '(none)')))
        return out
    if flip:
        p1, d1, p2, d2 = p2, d2, p1, d1
    return out + exchanges(d1, d2, (p1, p2))


def captures(job):
    seed, n = job
    from httpolice.inputs import streams
    from httpolice.inputs.common import InputError
    rng = random.Random(seed)
    scratch = tempfile.mkdtemp(prefix='c16')
    count = 0
    try:
        for _ in range(n):
            flavour = rng.choice(['tcpick', 'tcpflow', 'streams', 'req', 'resp', 'combined'])
            want, wrong = None, False
            if flavour in ('tcpick', 'tcpflow'):
                dirs = [directory(rng, scratch, flavour) for _ in range(rng.choice([1, 1, 2]))]
                paths = [d for d, _, _ in dirs]
                wrong = any(w for _, _, w in dirs)
                pairs = [x for d, infos, _ in dirs for x in pair_up(d, infos)]
                if not wrong:
                    want = expected([(connection_exchanges(p1, d1, p2, d2, True), hint) for p1, d1, p2, d2, hint in pairs])
            else:
                paths, conns = [], []
                for k in range(rng.choice([0, 1, 2, 3])):
                    a, b = connection(rng, b's%d' % k, rng.choice(['http'] * 5 + ['junk']))
                    fd, p1 = tempfile.mkstemp(dir=scratch, suffix=rng.choice(['', '', '.https', '.noscheme']))
                    os.close(fd)
                    p2 = p1 + '.resp'
                    if flavour == 'combined':
                        from httpolice.framing1 import parse_streams
                        from httpolice.stream import Stream
                        scheme = 'https' if p1.endswith('.https') else None if p1.endswith('.noscheme') else 'http'
                        text = (rng.choice([b'', b'preamble\r\n', b'caf\xc3\xa9\n']) + b'======== BEGIN INBOUND STREAM ========\r\n' + a +
                                b'======== BEGIN OUTBOUND STREAM ========\r\n' + b)
                        if rng.random() < 0.05:
                            text, wrong = text.replace(b'INBOUND', b'inbound', 1), True
                        write(p1, text)
                        paths.append(p1)
                        conns.append(list(parse_streams(Stream(io.BufferedReader(io.BytesIO(a)), name=p1 + ' (inbound)'),
                                                        Stream(io.BufferedReader(io.BytesIO(b)), name=p1 + ' (outbound)'), scheme)))
                        schemes = [x.request.scheme for x in conns[-1] if x.request]
                        if any(s != scheme for s in schemes):
                            return count, {'observed': 'wrong scheme'}
                    else:
                        write(p1, a if flavour != 'resp' else b)
                        write(p2, b)
                        paths += [p1, p2] if flavour == 'streams' else [p1]
                        conns.append(exchanges(a if flavour != 'resp' else None, b if flavour != 'req' else None, (p1, p1 if flavour == 'resp' else p2)))
                if flavour == 'streams' and paths and rng.random() < 0.05:
                    paths, wrong = paths[:-1], True
                if flavour == 'combined':
                    want = [x for c in conns for x in c]
                else:
                    want = expected([(c, None) for c in conns])
            count += 1
            core.tick()
            f = {'tcpick': streams.tcpick_input, 'tcpflow': streams.tcpflow_input, 'streams': streams.streams_input,
                 'req': streams.req_stream_input, 'resp': streams.resp_stream_input, 'combined': streams.combined_input}[flavour]
            bad = None
            try:
                got = list(f(list(paths)))
            except InputError as e:
                got = e
                if not wrong:
                    bad = 'input error %s' % e
            except Exception as e:
                return count, replay(flavour, paths, None, 'exception %r' % e)
            if not isinstance(got, Exception):
                if wrong:
                    bad = 'a wrong name or file is accepted'
                elif [tagged(x) for x in want] != [tag_of(x) for x in got]:
                    bad = [tag_of(x) for x in got]
            if bad:
                return count, replay(flavour, paths, None if wrong else [tagged(x) for x in want], bad)
            for p in os.listdir(scratch):
                p = os.path.join(scratch, p)
                if os.path.isdir(p):
                    shutil.rmtree(p)
                else:
                    os.unlink(p)
    finally:
        shutil.rmtree(scratch)
    return count, None


def replay(flavour, paths, want, got):
    files = {}
    for p in paths:
        for q in ([os.path.join(p, x) for x in os.listdir(p)] if os.path.isdir(p) else [p]):
            with open(q, 'rb') as f:
                files[q] = f.read().decode('latin-1')
    return {'input': flavour, 'paths': paths, 'files': files, 'expected': str(want)[:2000], 'observed': str(got)[:2000]}


def write(p, data):
    with open(p, 'wb') as f:
        f.write(data)


# ---- the order alone, on exchanges with known times

class FakeDate:
    def __init__(self, v):
        self.value, self.is_okay = v, v is not None


def orders(job):
    """All interleavings of a few short connections with every combination of known and unknown times."""
    import itertools
    part, parts = job
    from httpolice.exchange import Exchange
    from httpolice.inputs import streams
    from httpolice.response import Response
    T = [None, 0, 1, 2]
    n = 0

    def exch(t):
        headers = [] if t is None else [('Date', http_date(t).decode())]
        return Exchange(None, [Response('HTTP/1.1', 200, 'OK', headers, b'')])
    conns = [(hint, ts) for hint in (None, 1) for k in (1, 2) for ts in itertools.product(T, repeat=k)]
    combos = list(itertools.product(conns, repeat=2)) + list(itertools.product([c for c in conns if len(c[1]) == 1], repeat=3))
    for combo in combos[part::parts]:
        n += 1
        core.tick()
        seqs = [([exch(t) for t in ts], None if h is None else BASE + datetime.timedelta(minutes=h)) for h, ts in combo]
        want = expected(seqs)
        try:
            got = list(streams._rearrange_by_time([(iter(list(x)), h) for x, h in seqs]))
        except Exception as e:
            return n, {'connections (hint, dates)': str(combo), 'observed': 'exception %r' % e}
        if [id(x) for x in want] != [id(x) for x in got]:
            index = {id(x): (i, j) for i, (xs, _) in enumerate(seqs) for j, x in enumerate(xs)}
            return n, {'connections (hint, dates)': str(combo), 'expected': str([index[id(x)] for x in want]), 'observed': str([index.get(id(x)) for x in got])}
    return n, None


def run(chk):
    chk.trusted = ['pyvc (engine and relational verifier, own code)', 'z3', 'contracts/c16_contracts.py (executable specifications)',
                   'io, os.listdir, OrderedDict, sorted, datetime (uninterpreted in the proofs, exercised by the bounded part)']
    chk.assumptions += ['what parse_streams yields for two streams is C01 to C04', 'the shapes of file names and first lines are told apart by their '
                        'behaviour on a battery of %d names and lines' % (len(c16_contracts.NAMES) + len(c16_contracts.LINES))]
    chk.part('contracts', lambda: relcheck.run(chk, relcheck.names_of('C16')))
    chk.part('captures', bounded, chk)


def bounded(chk):
    n = 16000 if chk.thorough else 2400
    for cnt, bad in core.parallel(captures, [(chk.seed * 149 + i, n // 8) for i in range(8)], timeout=800):
        chk.bound('captures written to a scratch directory against an independent recombination', cnt, 'up to 8 connections, random names, dates and damage')
        if bad:
            chk.violation('capture', 'a capture is not recombined as it should be', bad)
    for cnt, bad in core.parallel(orders, [(i, 8) for i in range(8)], timeout=800):
        chk.bound('orders of two or three short connections', cnt, 'every combination of hints and dates from a pool of 3 times, at most 2 exchanges each')
        if bad:
            chk.violation('order', 'exchanges are not in the order of time', bad)
