"""Run the real framing code on concrete streams and compare the whole outcome with contracts/framing_spec.py."""
import gzip
import io
import itertools
import random
import signal
import zlib

from contracts import framing_spec as spec

IDS = {1001, 1002, 1003, 1004, 1005, 1011, 1012, 1016, 1027, 1224, 1298}
OWNER = {1001: ['C01'], 1004: ['C01'], 1011: ['C01', 'C02'], 1012: ['C01', 'C02'], 1298: ['C01', 'C03'], 1005: ['C01', 'C03'],
         1002: ['C03'], 1003: ['C03'], 1027: ['C03'], 1016: ['C04'], 1224: ['C04'], 1006: ['C02', 'C04'], 1009: ['C02', 'C04'],
         1007: ['C02'], 1008: ['C02'], 1010: ['C02']}
ALL = ['C01', 'C02', 'C03', 'C04']


class ShortRaw(io.RawIOBase):
    """A raw file that returns data in small pieces."""
    def __init__(self, data, step):
        self.data, self.at, self.step = data, 0, step

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, n, whence=0):
        self.at = n if whence == 0 else self.at + n if whence == 1 else len(self.data) + n
        return self.at

    def tell(self):
        return self.at

    def readinto(self, b):
        piece = self.data[self.at:self.at + min(len(b), self.step)]
        b[:len(piece)] = piece
        self.at += len(piece)
        return len(piece)


def opened(data, step):
    if data is None:
        return None
    from httpolice.stream import Stream
    raw = ShortRaw(data, step) if step else io.BytesIO(data)
    return Stream(io.BufferedReader(raw, buffer_size=(step or 8191) + 1), name='x')


def notices(msg):
    out = []
    for c in msg.notices:
        n = c.notice.id
        if n not in IDS:
            continue
        ctx = c.context
        place = ctx.get('place')
        if n in (1016, 1224):
            out.append((n, place))
        elif n == 1298:
            out.append((n, place if isinstance(place, str) else str(place.name).lower()))
        elif n == 1003:
            coding = ctx['coding']
            out.append((n, str(getattr(coding, 'item', coding)).lower()))
        else:
            out.append((n,))
    return out


def entries(es):
    return [(e.name.encode('iso-8859-1'), e.value) for e in es]


def describe(msg, kind):
    from httpolice.structure import Unavailable
    body = msg.body
    if isinstance(body, Unavailable):
        body = None
    elif body is None:
        body = 'None'
    d = {'kind': kind, 'headers': entries(msg.header_entries), 'trailers': entries(msg.trailer_entries), 'body': body,
         'notices': notices(msg), 'version': msg.version.encode('iso-8859-1'),
         'viewed': entries(e for _, _, e in msg.headers.enumerate()),
         'offset': int(msg.remark.rsplit(' ', 1)[1])}
    if kind == 'request':
        d.update(method=msg.method.encode('iso-8859-1'), target=msg.target.encode('iso-8859-1'), scheme=msg.scheme)
    else:
        d.update(status=int(msg.status), reason=msg.reason.encode('iso-8859-1'))
    return d


class Slow(Exception):
    pass


def observe(inbound, outbound, step=0, scheme='http'):
    from httpolice.framing1 import parse_streams
    i, o = opened(inbound, step), opened(outbound, step)
    out = []

    def alarm(*_):
        raise Slow('no result within 20 s')
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(20)
    try:
        for exch in parse_streams(i, o, scheme):
            if exch.request is None and not exch.responses:
                for c in exch.notices:
                    out.append(('box', c.notice.id, c.context.get('offset')))
                if len(exch.notices) != 1:
                    out.append(('box', 'with %d notices' % len(exch.notices), None))
            else:
                if exch.request is not None and exch.request.scheme != scheme:
                    out.append(('scheme', exch.request.scheme))
                for r in exch.responses:
                    if r.request is not exch.request:
                        out.append(('response not linked to its request',))
                out.append(('exchange', describe(exch.request, 'request') if exch.request is not None else None,
                            [describe(r, 'response') for r in exch.responses]))
    except Exception as e:
        return out, '%s: %s' % (type(e).__name__, e)
    finally:
        signal.alarm(0)
    return out, None


def message_diffs(e, o, out):
    if (e is None) != (o is None):
        out.append((['C02'], 'message present: expected %s, observed %s' % (e is not None, o is not None)))
        return
    if e is None:
        return
    for k in ('method', 'target', 'version', 'status', 'reason', 'headers', 'offset'):
        if e.get(k) != o.get(k):
            out.append((['C04'] + (['C02'] if k == 'offset' else []), '%s %s: expected %r, observed %r' % (e['kind'], k, e.get(k), o.get(k))))
    te = any(n.lower() == b'transfer-encoding' for n, _ in e['headers'])
    if e['body'] != o['body']:
        out.append((['C01'] + (['C03'] if te else []), '%s body: expected %s, observed %s' % (e['kind'], short(e['body']), short(o['body']))))
    if e['trailers'] != o['trailers']:
        out.append((['C03'], 'trailers: expected %r, observed %r' % (e['trailers'], o['trailers'])))
    if o['viewed'] != o['headers'] + o['trailers']:
        out.append((['C03', 'C04'], 'header views cover %r' % (o['viewed'],)))
    for n in {x for x in e['notices'] + o['notices']}:
        a, b = e['notices'].count(n), o['notices'].count(n)
        if a != b:
            own = list(OWNER[n[0]])
            if n[0] in (1016, 1224) and n[1:] == ('chunked framing',):
                own.append('C03')
            out.append((own, '%s notice %s: expected %d times, observed %d' % (e['kind'], n, a, b)))


def short(b):
    return 'unavailable' if b is None else repr(b if len(b) < 80 else b[:60] + b'... (%d bytes)' % len(b))


def compare(inbound, outbound, step=0):
    """-> list of (properties, description)"""
    obs, crash = observe(inbound, outbound, step)
    exp = spec.streams(inbound, outbound)
    out = []
    if crash:
        return [(ALL, 'the analysis ends with %s after %d results' % (crash, len(obs)))]
    shape = lambda xs: [(x[0], x[1] if x[0] == 'box' else (x[1] is not None, len(x[2])) if x[0] == 'exchange' else x[1:]) for x in xs]
    if shape(exp) != shape(obs):
        own = set(ALL)
        bx, by = [x for x in shape(exp) if x[0] == 'box'], [x for x in shape(obs) if x[0] == 'box']
        if [x for x in shape(exp) if x[0] != 'box'] == [x for x in shape(obs) if x[0] != 'box']:
            own = set()
            for b in bx + by:
                if bx.count(b) != by.count(b):
                    own |= set(OWNER.get(b[1], ALL))
            own = own or {'C02'}
        out.append((sorted(own), 'exchanges: expected %s, observed %s' % (shape(exp), shape(obs))))
    for e, o in zip(exp, obs):
        if e[0] != o[0]:
            break
        if e[0] == 'box':
            if e[1] != o[1]:
                break
            if e[2] != o[2]:
                out.append((['C02'], 'notice %s offset: expected %r, observed %r' % (e[1], e[2], o[2])))
        else:
            message_diffs(e[1], o[1], out)
            for a, b in zip(e[2], o[2]):
                message_diffs(a, b, out)
    return out


# ---------------------------------------------------------------------------------------------------
# generation of streams

def gz(b):
    return gzip.compress(b, mtime=0)


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def p(self, x):
        return self.r.random() < x

    def eol(self):
        return b'\n' if self.p(.06) else b'\r\n'

    def body_bytes(self):
        return self.r.choice([b'', b'x', b'hello', b'HTTP/1.1 200 OK\r\n\r\n', b'GET / HTTP/1.1\r\n\r\n', b'0\r\n\r\n', b'\r\n', b'ab\r\ncd', b'0',
                              bytes(range(256)), b'a' * 300, b'5\r\nhello\r\n'])

    def chunked(self, data):
        r, out, pos = self.r, b'', 0
        while pos < len(data):
            n = r.choice([1, 2, 5, 10, 16, 100, 255, len(data)])
            piece = data[pos:pos + n]
            pos += n
            size = r.choice(['%x', '%X', '0%x', '000%x']) % len(piece)
            out += size.encode()
            if self.p(.2):
                out += r.choice([b';ext', b' ;ext=1', b'; a="b;c"', b'\t', b' ', b';', b';\x80', b'  ; x'])
            if self.p(.03):
                out = out[:-1] + r.choice([b'g', b'', b'-', b' 1', b'0x5'])
            out += self.eol() + piece + self.eol()
            if self.p(.02):
                out += r.choice([b'\r\n', b'x', b' '])
        out += r.choice([b'0', b'0', b'0', b'00', b'000', b'0;ext', b'0 ']) + self.eol()
        if self.p(.4):
            for _ in range(r.choice([1, 1, 2])):
                out += r.choice([b'X-Trailer: a', b'ETag: "x"', b'X-A:', b'Content-Length: 5', b'X-B: 1\r\n 2', b'Transfer-Encoding: gzip', b'bad',
                                 b'X-Trailer: b']) + self.eol()
        out += self.eol()
        if self.p(.06):
            out = out[:r.randrange(len(out) + 1)]
        return out

    def encoded(self, data):
        """-> (list of TE values, transfer-coded data)"""
        r = self.r
        names = []
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
            c = r.choice(['gzip', 'x-gzip', 'deflate', 'gzip', 'deflate', 'foo', 'chunked', 'compress', 'GZIP', 'Deflate', 'identity', 'br'])
            names.append(c)
            if c.lower() in ('gzip', 'x-gzip'):
                data = gz(data)
                if self.p(.15):
                    data = data + gz(b'more')
            elif c.lower() == 'deflate':
                data = zlib.compress(data)
            if self.p(.1):
                data = r.choice([data[:-1], data[:-9], data + b'x', b'x' + data, data[::-1], b'', data[:1]])
        if self.p(.85):
            names.append(r.choice(['chunked', 'chunked', 'chunked', 'Chunked', 'CHUNKED']))
            data = self.chunked(data)
        if self.p(.04):
            r.shuffle(names)
        if self.p(.05):
            names.append(r.choice(['', '???', 'chunked;a=b', 'foo;a=b', 'x y', 'gzip;q=1', 'foo; bar="baz"', 'chunked']))
        sep = r.choice([', ', ',', ' , ', ', , '])
        if not names:
            names = ['']
        if self.p(.2) and len(names) > 1:
            k = r.randrange(1, len(names))
            vals = [sep.join(names[:k]), sep.join(names[k:])]
        else:
            vals = [sep.join(names)]
        return [v.encode() for v in vals], data

    def headers(self, framing):
        r = self.r
        hs = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
            hs.append(r.choice([b'Host: example.com', b'X-A: b', b'X-A:b ', b'X-Fold: a\r\n b', b'X-Fold: a \n\t c \r\n d', b'X-Empty:', b':', b'Name : v',
                                b'X-\x80: \xff', b'X-A: a:b', b'X:  \t v \t ', b'X-F:\r\n v', b'X-F: v\r\n ', b'X-F: v\r\n \r\n\tw', b'Connection: close',
                                b'Upgrade: h2c', b'Cookie: a=b', b'X-Y: \x0b\x0c v', b'X-A: b\r', b'X: \x00', b'Expect: 100-continue',
                                b'Content-Type: text/plain']))
        for f in framing:
            hs.insert(r.randrange(len(hs) + 1), f)
        if self.p(.015):
            hs.append(r.choice([b'nocolon', b'', b' folded: x', b'\r', b'X: ' + b'y' * 16381, b'X: ' + b'y' * 16379, b'X:' + b'z' * 17000, b'\x00']))
        return b''.join(h + self.eol() for h in hs) + self.eol()

    def framed(self):
        """-> (framing header lines, body bytes on the wire)"""
        r = self.r
        data = self.body_bytes()
        x = r.random()
        fr = []
        if x < .3:
            wire = b'' if self.p(.85) else data
        elif x < .6:
            n = len(data)
            if self.p(.15):
                n += r.choice([-1, 1, 2, 1000])
            v = b'%d' % max(n, 0)
            if self.p(.12):
                v = r.choice([b'-1', b'x', b'', b'+5', b'5, 5', b'0', b'00', b'5 5', b'0x5', b'1073741824', b'1073741825', b'9' * 30, b'9' * 5000,
                              b' 5', b'\xb2', b'1_0', b'00000005'])
            fr = [b'Content-Length: ' + v]
            if self.p(.08):
                fr.append(b'content-length: ' + r.choice([b'3', v, b'0', b'x']))
            wire = data
        else:
            vals, wire = self.encoded(data)
            fr = [r.choice([b'Transfer-Encoding: ', b'transfer-encoding:', b'TRANSFER-ENCODING: ']) + v for v in vals]
            if self.p(.1):
                fr.append(b'Content-Length: ' + r.choice([b'3', b'0', b'x', b'%d' % len(wire)]))
        return fr, wire

    def request(self):
        r = self.r
        m = r.choice([b'GET', b'POST', b'HEAD', b'CONNECT', b'PUT', b'OPTIONS', b'get', b'head', b'\xe9'])
        t = r.choice([b'/', b'*', b'example.com:80', b'http://example.com/x?y', b'/\x80', b''])
        v = r.choice([b'HTTP/1.1', b'HTTP/1.1', b'HTTP/1.1', b'HTTP/1.0', b'HTTP/2.0', b'HTTP/9.9'])
        start = m + b' ' + t + b' ' + v
        if self.p(.03):
            start = r.choice([b'GET  / HTTP/1.1', b'GET / HTTP/1.1 ', b'GET /', b'', b'GET / HTTP/1.10', b'GET / http/1.1', b'GET / HTTP/1.1\r', b' GET / HTTP/1.1',
                              b'GET\t/ HTTP/1.1', b'GET / HTTP/11', b'GET / HTTP/1.\xb2', b'\r\n' + start, b'GET / / HTTP/1.1', b' / HTTP/1.1',
                              b'GET /' + b'a' * 16368 + b' HTTP/1.1', b'GET /' + b'a' * 16400 + b' HTTP/1.1', b'GET /' + b'a' * 16367 + b' HTTP/1.1', b'GET / HTTP/1.1x'])
        fr, wire = self.framed()
        return start + self.eol() + self.headers(fr) + wire

    def response(self):
        r = self.r
        s = r.choice([b'200'] * 6 + [b'204', b'304', b'404', b'500', b'206', b'205', b'199', b'201', b'299', b'300', b'600', b'099', b'000', b'999', b'207'])
        if self.p(.2):
            s = r.choice([b'100', b'100', b'102', b'103', b'101'])
        reason = r.choice([b'OK', b'', b'Not Found', b'  x ', b'\x80\xff', b'a\tb'])
        start = r.choice([b'HTTP/1.1', b'HTTP/1.1', b'HTTP/1.0', b'HTTP/2.0']) + b' ' + s + b' ' + reason
        if self.p(.03):
            start = r.choice([b'HTTP/1.1 200', b'HTTP/1.1  200 OK', b'HTTP/1.1 20 OK', b'HTTP/1.1 2000 OK', b'ICY 200 OK', b'HTTP/1.1 200\tOK', b'', b'HTTP/1.1 2x0 OK',
                              b'HTTP/1.1 \xb2\xb2\xb2 OK', b' HTTP/1.1 200 OK', b'http/1.1 200 OK', b'HTTP/1.1 -10 OK', b'HTTP/1.12 200 OK',
                              b'HTTP/1.1 200 ' + b'a' * 16369, b'HTTP/1.1 200 ' + b'a' * 16370, b'HTTP/1.1 200 ' + b'a' * 16371])
        fr, wire = self.framed()
        return start + self.eol() + self.headers(fr) + wire

    def pair(self):
        r = self.r
        n = r.choice([0, 1, 1, 1, 2, 2, 3, 4])
        i = b''.join(self.request() for _ in range(n))
        k = max(0, n + r.choice([0, 0, 0, 0, 1, 2, -1]))
        o = b''
        for _ in range(k):
            while self.p(.15):
                o += b'HTTP/1.1 ' + r.choice([b'100 C', b'102 P', b'103 E', b'199 X', b'101 S']) + b'\r\n\r\n'
            o += self.response()
        if self.p(.08):
            i += r.choice([b'\r\n', b'x', b'\n', b'garbage\r\n', b'GET', b'\x00' * 20, b'a' * 17000])
        if self.p(.08):
            o += r.choice([b'\r\n', b'x', b'\n', b'garbage\r\n', b'HTTP', b'\x00' * 20, b'a' * 17000])
        if self.p(.08) and i:
            i = i[:r.randrange(len(i))]
        if self.p(.08) and o:
            o = o[:r.randrange(len(o))]
        if self.p(.04):
            i = self.flip(i)
        if self.p(.04):
            o = self.flip(o)
        x = r.random()
        if x < .12:
            return i, None
        if x < .24:
            return None, o
        return i, o

    def flip(self, b):
        if not b:
            return b
        k = self.r.randrange(len(b))
        y = self.r.choice([b'', b' ', b'\r', b'\n', b':', b'0', b'\x00', b'\x80', b'\r\n'])
        return b[:k] + y + b[k + self.r.choice([0, 1]):]


def systematic():
    """Small exhaustive families."""
    methods = [b'GET', b'HEAD', b'CONNECT', b'POST']
    framings = [b'', b'Content-Length: 0\r\n', b'Content-Length: 3\r\n', b'Content-Length: x\r\n', b'Transfer-Encoding: chunked\r\n',
                b'Transfer-Encoding: gzip\r\n', b'Transfer-Encoding: foo, chunked\r\n', b'Transfer-Encoding: chunked, chunked\r\n',
                b'Transfer-Encoding: chunked\r\nContent-Length: 3\r\n', b'Content-Length: 3\r\nContent-Length: 4\r\n', b'Transfer-Encoding: ???\r\n',
                b'Content-Length: 1073741824\r\n', b'Content-Length: 1073741825\r\n', b'Transfer-Encoding: chunked, gzip\r\n']
    tails = [b'', b'3\r\nabc\r\n0\r\n\r\nHTTP/1.1 200 OK\r\n\r\n', b'abc', b'abcHTTP/1.1 404 x\r\nContent-Length: 0\r\n\r\n', b'HTTP/1.1 204 x\r\n\r\n']
    statuses = [100, 101, 103, 199, 200, 204, 205, 206, 299, 300, 304, 404, 500]
    for m in methods:
        rq = m + b' / HTTP/1.1\r\nHost: x\r\n\r\n'
        for s in statuses:
            for f in framings:
                for t in tails:
                    yield rq * 2, b'HTTP/1.1 %d X\r\n' % s + f + b'\r\n' + t
    for f in framings:
        for t in tails:
            yield b'POST / HTTP/1.1\r\n' + f + b'\r\n' + t.replace(b'HTTP/1.1 200 OK', b'GET / HTTP/1.1').replace(b'HTTP/1.1 404 x', b'GET / HTTP/1.1'), None
            yield None, b'HTTP/1.1 200 X\r\n' + f + b'\r\n' + t
    # every short chunked body over a small alphabet of tokens
    toks = [b'0', b'1', b'a', b'\r\n', b'\n', b';', b' ', b'X:y']
    pre = b'POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n'
    for n in range(0, 5):
        for c in itertools.product(toks, repeat=n):
            yield pre + b''.join(c), None
    for n in range(0, 4):
        for c in itertools.product(toks, repeat=n):
            yield pre + b'1\r\na\r\n0\r\n' + b''.join(c) + b'\r\n\r\n', None
    # every short header section and start line
    toks = [b'a', b':', b' ', b'\t', b'\r\n', b'\n', b'\r', b'\x80']
    for n in range(0, 5):
        for c in itertools.product(toks, repeat=n):
            yield b'GET / HTTP/1.1\r\n' + b''.join(c) + b'\r\n\r\n', None
    toks = [b'GET', b' ', b'/', b'HTTP/1.1', b'\t', b'\r', b'HTTP/1.', b'\n']
    for n in range(0, 6):
        for c in itertools.product(toks, repeat=n):
            if n < 5 or (c.count(b' ') >= 2 and c[0] == b'GET'):
                yield b''.join(c) + b'\r\n\r\n', None
    toks = [b'HTTP/1.1', b' ', b'200', b'20', b'x', b'\t', b'\xb2']
    for n in range(0, 6):
        for c in itertools.product(toks, repeat=n):
            if n < 4 or c[0] == b'HTTP/1.1':
                yield None, b''.join(c) + b'\r\n\r\n'
    # line length limit
    for k in range(16380, 16390):
        for e in (b'\r\n', b'\n'):
            yield b'GET / HTTP/1.1\r\nX:' + b'y' * (k - 2 - len(e)) + e + b'\r\n', None
            yield b'GET / HTTP/1.1\r\nX: a\r\n' + b' ' * (k - len(e)) + e + b'\r\n', None
    # chunk totals around the size limit
    for a in (b'3fffffff', b'40000000', b'40000001', b'7fffffff', b'f' * 20, b'0' * 30 + b'5', b'f' * 5000):
        yield pre + a + b'\r\nhello', None
        yield pre + b'5\r\nhello\r\n' + a + b'\r\nhello', None
    for a in (b'3ffffffb', b'3ffffffc'):
        yield pre + b'5\r\nhello\r\n' + a + b'\r\nhello', None
