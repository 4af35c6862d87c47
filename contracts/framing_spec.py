"""Executable contract of HTTP/1.x framing (C01-C04), written from RFC 7230 and the property statements.

It works on whole byte strings and positions, shares no code with httpolice (not even the header parser), and gives
the complete observable outcome of analysing one pair of streams."""
import re
import struct
import zlib

LIMIT = 1024 ** 3
LINE = 16 * 1024

TOKEN = rb"[!#$%&'*+\-.^_`|~0-9A-Za-z]+"
QS = rb'"(?:[\t \x21\x23-\x5b\x5d-\x7e\x80-\xff]|\\[\t \x21-\x7e\x80-\xff])*"'
ELEM = TOKEN + rb'(?:[ \t]*;[ \t]*' + TOKEN + rb'[ \t]*=[ \t]*(?:' + TOKEN + rb'|' + QS + rb'))*'
TE_LIST = re.compile(rb'(?:,[ \t]*)*' + ELEM + rb'(?:[ \t]*,(?:[ \t]*' + ELEM + rb')?)*')
TE_ELEM = re.compile(ELEM)
BUILTIN = ('chunked', 'compress', 'deflate', 'gzip')


class Bad(Exception):
    """The stream does not continue as its grammar demands."""


class TooLong(Exception):
    pass


class Reader:
    def __init__(self, data):
        self.data, self.pos, self.sane, self.eof, self.seen = data, 0, True, False, []

    @property
    def good(self):
        return self.sane and not self.eof

    def fail(self):
        self.sane = False
        raise Bad()

    def next(self):
        return self.data[self.pos:self.pos + 1]

    def advance(self, to):
        self.pos = to
        self.eof = self.eof or to >= len(self.data)

    def line(self):
        end = self.data.find(b'\n', self.pos, self.pos + LINE)
        if end < 0:
            self.advance(min(len(self.data), self.pos + LINE))
            self.fail()
        raw = self.data[self.pos:end]
        self.advance(end + 1)
        if raw.endswith(b'\r'):
            return raw[:-1]
        self.seen.append(1224)
        return raw

    def empty_line(self):
        if self.line() != b'':
            self.fail()

    def take(self, n):
        r = self.data[self.pos:self.pos + n]
        self.advance(self.pos + len(r))
        if len(r) < n:
            self.fail()
        return r

    def rest(self):
        r = self.data[self.pos:]
        self.advance(len(self.data))
        return r


def fields(r):
    out = []
    while r.next() not in (b'\r', b'\n', b''):
        line = r.line()
        if b':' not in line:
            r.fail()
        name, value = line.split(b':', 1)
        while r.next() in (b' ', b'\t'):
            r.seen.append(1016)
            value += b' ' + r.line().lstrip(b' \t')
        out.append((name, value.strip(b' \t')))
    return out


def lookup(headers, name):
    return [v for n, v in headers if n.lower() == name]


def transfer_codings(headers):
    """List of lower-case names, None for an unparsable field."""
    out = []
    for v in lookup(headers, b'transfer-encoding'):
        if not TE_LIST.fullmatch(v):
            out.append(None)
            continue
        names, ok = [], True
        for e in TE_ELEM.finditer(v):
            item = e.group(0)
            name = re.match(TOKEN, item).group(0).decode('ascii')
            if name.lower() in BUILTIN and name.encode() != item:
                ok = False
            names.append(name.lower())
        out += names if ok else [None]
    return out


def content_length(headers):
    """None: absent; -1: unusable; else the number (of the last field, C07)."""
    vs = lookup(headers, b'content-length')
    if not vs:
        return None
    if not re.fullmatch(rb'[0-9]+', vs[-1]):
        return -1
    d = vs[-1].lstrip(b'0')
    return int(d or b'0') if len(d) < 100 else 10 ** 99


def gunzip(data):
    """RFC 1952, all members, everything complete."""
    out = b''
    while True:
        if len(data) < 10 or data[:3] != b'\x1f\x8b\x08' or data[3] & 0xe0:
            raise ValueError('gzip header')
        flags, p = data[3], 10
        if flags & 4:
            if len(data) < p + 2:
                raise ValueError
            p += 2 + struct.unpack('<H', data[p:p + 2])[0]
        for f in (8, 16):
            if flags & f:
                p = data.index(b'\0', p) + 1
        if flags & 2:
            if data[p:p + 2] != struct.pack('<H', zlib.crc32(data[:p]) & 0xffff):
                raise ValueError('header crc')
            p += 2
        if p > len(data):
            raise ValueError
        d = zlib.decompressobj(-15)
        piece = d.decompress(data[p:])
        if not d.eof or len(d.unused_data) < 8:
            raise ValueError('truncated')
        crc, size = struct.unpack('<II', d.unused_data[:8])
        if crc != zlib.crc32(piece) or size != len(piece) & 0xffffffff:
            raise ValueError('check')
        out += piece
        data = d.unused_data[8:]
        if not data:
            return out


def inflate(data):
    d = zlib.decompressobj()
    r = d.decompress(data)
    if not d.eof:
        raise ValueError('truncated')
    return r


def chunked(r, msg):
    pieces, total = [], 0
    try:
        while True:
            size = r.line().split(b';')[0].rstrip(b' \t')
            if not re.fullmatch(rb'[0-9A-Fa-f]+', size):
                r.fail()
            n = int(size, 16)
            if n == 0:
                break
            if total + n > LIMIT:
                r.sane = False
                raise TooLong()
            pieces.append(r.take(n))
            total += n
            r.empty_line()
        trailers = fields(r)
        r.empty_line()
    except Bad:
        msg['notices'].append((1005,))
        msg['body'] = None
        return
    except TooLong:
        msg['notices'].append((1298, 'chunked framing'))
        msg['body'] = None
        return
    dump(r, msg, 'chunked framing')
    msg['body'] = b''.join(pieces)
    msg['trailers'] = trailers


def dump(r, msg, place):
    for n in r.seen:
        if (n, place) not in msg['notices']:
            msg['notices'].append((n, place))
    r.seen = []


def undo(msg, codings):
    while codings and msg['body'] is not None:
        c = codings.pop()
        if c is None:
            msg['body'] = None
        elif c == 'chunked':
            msg['notices'].append((1002,))
            msg['body'] = None
        elif c in ('gzip', 'x-gzip', 'deflate'):
            try:
                msg['body'] = inflate(msg['body']) if c == 'deflate' else gunzip(msg['body'])
            except (ValueError, zlib.error, struct.error):
                msg['notices'].append((1027,))
                msg['body'] = None
        else:
            msg['notices'].append((1003, c))
            msg['body'] = None


def sized(r, msg, n):
    if n < 0:
        msg['body'], r.sane = None, False
    elif n > LIMIT:
        msg['body'], r.sane = None, False
        msg['notices'].append((1298, 'content-length'))
    else:
        try:
            msg['body'] = r.take(n)
        except Bad:
            msg['body'] = None
            msg['notices'].append((1004,))


def message(r, kind, start, begin):
    headers = fields(r)
    r.empty_line()
    msg = dict(start, kind=kind, headers=headers, trailers=[], notices=[], offset=begin)
    dump(r, msg, kind + ' heading')
    return msg


def read_request(r):
    begin = r.pos
    parts = r.line().split(b' ')
    if len(parts) != 3 or not re.fullmatch(rb'HTTP/[0-9]\.[0-9]', parts[2]):
        r.fail()
    msg = message(r, 'request', {'method': parts[0], 'target': parts[1], 'version': parts[2]}, begin)
    te, cl = transfer_codings(msg['headers']), content_length(msg['headers'])
    if te:
        if te[-1] == 'chunked':
            te.pop()
            chunked(r, msg)
            undo(msg, te)
        else:
            msg['body'], r.sane = None, False
            msg['notices'].append((1001,))
    elif cl is not None and cl != 0:
        sized(r, msg, cl)
    else:
        msg['body'] = b''
    return msg


def read_response(r, req):
    begin = r.pos
    parts = r.line().split(b' ', 2)
    if len(parts) != 3 or not re.fullmatch(rb'HTTP/[0-9]\.[0-9]', parts[0]) or not re.fullmatch(rb'[0-9]{3}', parts[1]):
        r.fail()
    msg = message(r, 'response', {'version': parts[0], 'status': int(parts[1]), 'reason': parts[2]}, begin)
    status, method = msg['status'], req['method'] if req else None
    te, cl = transfer_codings(msg['headers']), content_length(msg['headers'])
    if status == 101:
        msg['body'], r.sane = b'', False
        msg['notices'].append((1011,))
    elif method == b'CONNECT' and 200 <= status <= 299:
        msg['body'], r.sane = b'', False
        msg['notices'].append((1012,))
    elif 100 <= status <= 199 or status in (204, 304) or method == b'HEAD':
        msg['body'] = b''
    elif te:
        if te[-1] == 'chunked':
            te.pop()
            chunked(r, msg)
        else:
            msg['body'] = r.rest()
        undo(msg, te)
    elif cl is not None:
        sized(r, msg, cl)
    else:
        msg['body'] = r.rest()
    return msg


def read_responses(r, req):
    out = []
    while r.good:
        try:
            resp = read_response(r, req)
        except Bad:
            return out, True
        out.append(resp)
        if resp['status'] == 101 or not 100 <= resp['status'] <= 199:
            break
    return out, False


def streams(inbound, outbound):
    """-> list of ('exchange', request or None, [responses]) and ('box', notice id, offset or None)"""
    out = []
    i = Reader(inbound) if inbound is not None else None
    o = Reader(outbound) if outbound is not None else None
    while i and i.good:
        try:
            req = read_request(i)
        except Bad:
            out.append(('box', 1006, None))
            continue
        resps, bad = [], False
        if o and o.good:
            resps, bad = read_responses(o, req)
            if resps and (resps[-1]['status'] == 101 or
                          req['method'] == b'CONNECT' and 200 <= resps[-1]['status'] <= 299):
                i.sane = False
        out.append(('exchange', req, resps))
        if bad:
            out.append(('box', 1009, None))
    if i and i.pos < len(i.data):
        out.append(('box', 1007, i.pos))
    if o and o.good:
        if i:
            out.append(('box', 1008, None))
        while o.good:
            resps, bad = read_responses(o, None)
            if resps:
                out.append(('exchange', None, resps))
            if bad:
                out.append(('box', 1009, None))
    if o and o.pos < len(o.data):
        out.append(('box', 1010, o.pos))
    return out
