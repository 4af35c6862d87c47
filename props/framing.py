"""C01-C04: HTTP/1.x framing."""
import random
import time

from contracts import core, framing_check as fc, framing_contracts, relcheck

FUNCS = {
    'C01': ['framing1._parse_request_body', 'framing1._parse_response_body', 'framing1._process_content_length', 'stream.Stream.read'],
    'C02': ['framing1.parse_streams', 'framing1._parse_request', 'framing1._parse_responses', 'stream.Stream.good'],
    'C03': ['framing1._parse_chunk', 'framing1._parse_chunked', 'framing1._decode_transfer_coding', 'codings.decode_gzip', 'codings.decode_deflate'],
    'C04': ['framing1._parse_request_heading', 'framing1._parse_response_heading', 'framing1.parse_header_fields',
            'stream.Stream.readline', 'stream.Stream.readlineend', 'stream.Stream.dump_complaints'],
}


def job(j):
    pid, seed, kind, k, n, deadline, step = j
    out, count = [], 0
    if kind == 'systematic':
        src = (x for i, x in enumerate(fc.systematic()) if i % step == k)
    else:
        g = fc.Gen(seed)
        src = (g.pair() for _ in range(n))
    rng = random.Random(seed)
    for i, o in src:
        if time.time() > deadline:
            break
        count += 1
        st = rng.choice([0, 0, 0, 1, 3, 64])
        for own, what in fc.compare(i, o, st):
            if pid in own:
                out.append((i, o, st, what))
        if len(out) > 5:
            break
    return kind, count, out


def limited(rng):
    """Messages whose bodies are about the size of the limit (put at 12 octets)."""
    def chunk():
        n = rng.choice([1, 2, 3, 4, 5, 11, 12, 13, 14, 300])
        return b'%x\r\n%s\r\n' % (n, b'x' * n)
    kind = rng.choice(['chunked', 'chunked', 'chunked', 'length'])
    head = b'Transfer-Encoding: chunked\r\n' if kind == 'chunked' else None
    body = b''.join(chunk() for _ in range(rng.choice([1, 2, 3, 4, 5, 6]))) + b'0\r\n\r\n'
    if kind == 'length':
        n = rng.choice([0, 1, 11, 12, 13, 14, 200])
        head, body = b'Content-Length: %d\r\n' % n, b'x' * n
    rest = b'GET / HTTP/1.1\r\nHost: a\r\n\r\n'
    if rng.random() < 0.5:
        return b'POST / HTTP/1.1\r\nHost: a\r\n' + head + b'\r\n' + body + rest, None
    return b'GET / HTTP/1.1\r\nHost: a\r\n\r\n' + rest, b'HTTP/1.1 200 OK\r\n' + head + b'\r\n' + body + b'HTTP/1.1 204 No Content\r\n\r\n'


def limit_job(j):
    from contracts import framing_spec
    from httpolice import framing1
    pid, seed, n = j
    names = [k for k, v in vars(framing1).items() if type(v) is int and v == 1024 ** 3]
    if not names:
        return 0, []
    old = framing_spec.LIMIT
    try:
        framing_spec.LIMIT = 12
        for k in names:
            setattr(framing1, k, 12)
        rng = random.Random(seed)
        out = []
        for _ in range(n):
            i, o = limited(rng)
            for own, what in fc.compare(i, o, 0):
                if pid in own:
                    out.append((i, o, what))
            if out:
                break
        return n, out
    finally:
        framing_spec.LIMIT = old
        for k in names:
            setattr(framing1, k, 1024 ** 3)


def limit(chk):
    for n, out in core.parallel(limit_job, [(chk.pid, chk.seed * 31 + k, 6000 if chk.thorough else 500) for k in range(4)], timeout=300):
        chk.bound('bodies around the size limit (put at 12 octets)', n, 'up to 6 chunks, or a length')
        for i, o, what in out:
            chk.violation('framing:limit', what, {'inbound': repr(i), 'outbound': repr(o), 'limit': 'put at 12 octets in framing1 and in the specification'})


class Plain:
    """What a stream is: octets, a place in them, and notes of bare newlines."""

    def __init__(self, data):
        self.data, self.at, self.sane, self.eof, self.notes = data, 0, True, False, []

    def fail(self, at):
        self.sane = False
        return ('error', at)

    def took(self, n):
        self.at += n
        if self.at >= len(self.data):
            self.eof = True

    def line(self, limit=16384):
        at = self.at
        r = self.data[at:at + limit]
        k = r.find(b'\n')
        if k >= 0:
            r = r[:k + 1]
        self.took(len(r))
        if k < 0:
            return None, self.fail(at)
        if r.endswith(b'\r\n'):
            return r[:-2], None
        self.notes.append(1224)
        return r[:-1], None

    def do(self, op, arg):
        at = self.at
        if op == 'readline':
            r, bad = self.line()
            return bad or (r.decode('iso-8859-1') if arg else r)
        if op == 'readlineend':
            r, bad = self.line()
            return bad or (None if r == b'' else self.fail(at))
        if op == 'read':
            r = self.data[at:] if arg < 0 else self.data[at:at + arg]
            self.took(len(r))
            return self.fail(at) if len(r) < arg else r
        if op == 'peek':
            return self.data[at:at + arg]
        if op == 'tell':
            return at
        if op == 'good':
            return self.sane and not self.eof
        if op == 'complain':
            self.notes.append(arg)
            return None
        if op == 'dump':
            r, self.notes = [(n, dict(arg)) for n in self.notes], []
            return r


def stream_job(j):
    """Random histories of one stream; -> (number of operations, None or a description)"""
    import io
    from httpolice.parse import ParseError
    seed, n = j
    rng = random.Random('stream/%d' % seed)
    done = 0
    for _ in range(n):
        data = b''.join(rng.choice([b'abc', b'x', b' ', b'\t', b'\r\n', b'\r\n', b'\n', b'\r', b'\xe9', b'y' * 40]) for _ in range(rng.randrange(12)))
        if rng.random() < 0.03:
            data = b'z' * rng.choice([16382, 16383, 16384, 16385, 40000]) + rng.choice([b'\n', b'\r\n', b'']) + data
        step = rng.choice([0, 0, 1, 2, 7])
        s, p = fc.opened(data, step), Plain(data)
        trace = []
        for _ in range(rng.randrange(1, 14)):
            op = rng.choice(['readline', 'readline', 'readlineend', 'read', 'read', 'peek', 'tell', 'good', 'complain', 'dump', 'dump'])
            arg = {'readline': rng.random() < 0.5, 'read': rng.choice([-1, 0, 1, 2, 3, 5, 50]), 'peek': 1,
                   'complain': rng.choice([1016, 1224]), 'dump': rng.choice([{}, {}, {'place': 'here'}])}.get(op)
            trace.append((op, arg))
            done += 1
            want = p.do(op, arg)
            try:
                if op == 'readline':
                    got = s.readline(decode=arg)
                elif op in ('read', 'peek'):
                    got = getattr(s, op)(arg)
                elif op == 'good':
                    got = bool(s.good)
                elif op == 'complain':
                    got = s.complain(arg)
                elif op == 'dump':
                    got = []
                    s.dump_complaints(lambda n, **k: got.append((n, k)), **arg)
                else:
                    got = getattr(s, op)()
            except ParseError as e:
                got = ('error', e.position)
            what = None
            if got != want:
                what = '%s gives %r, expected %r' % (op, short(got), short(want))
            elif (bool(s.sane), s.tell()) != (p.sane, p.at):
                what = 'after %s: sane %r at %d, expected %r at %d' % (op, s.sane, s.tell(), p.sane, p.at)
            if what:
                return done, {'octets': repr(short(data)), 'operations': repr(trace), 'raw_read_size': step, 'what': what}
    return done, None


def short(x):
    return x if not isinstance(x, (bytes, str)) or len(x) < 200 else '%r... (%d)' % (x[:60], len(x))


def streams(chk):
    for n, bad in core.parallel(stream_job, [(chk.seed * 17 + k, 60000 if chk.thorough else 2500) for k in range(8)], timeout=300):
        chk.bound('operations on streams in random order against a plain string', n, 'up to 13 operations on at most 40 kB')
        if bad:
            chk.violation('stream', 'a stream does not behave as its octets: %s' % bad['what'], bad)


def shrink(pid, i, o, st, what):
    def bad(i, o):
        return any(pid in own for own, _ in fc.compare(i, o, st))
    t = time.time() + 8
    for which in (0, 1):
        size = 64
        while size and time.time() < t:
            cur = (i, o)[which]
            if not cur:
                break
            k, changed = 0, False
            while k < len(cur) and time.time() < t:
                cand = cur[:k] + cur[k + size:]
                a = (cand, o) if which == 0 else (i, cand)
                if bad(*a):
                    cur, changed = cand, True
                    i, o = a
                else:
                    k += size
            if not changed or size > 1:
                size //= 2
    return i, o


def crosscheck(chk):
    secs = 150 if chk.thorough else 25
    deadline = time.time() + secs
    n = 10 ** 6 if chk.thorough else 4000
    jobs = [(chk.pid, chk.seed * 100 + k, 'systematic', k, 0, deadline, 8) for k in range(8)]
    jobs += [(chk.pid, chk.seed * 100 + 50 + k, 'random', k, n, deadline, 0) for k in range(8)]
    found, totals = [], {}
    for kind, count, out in core.parallel(job, jobs, timeout=secs + 200):
        totals[kind] = totals.get(kind, 0) + count
        found += out
    chk.bound('small families of streams, enumerated', totals.get('systematic', 0),
              'start lines, header sections, chunked bodies over small token alphabets; methods x statuses x framing headers x tails')
    chk.bound('random streams', totals.get('random', 0), 'pipelined exchanges with mutations and truncations; raw reads of 1..8 KiB')
    seen = set()
    for i, o, st, what in found:
        key = 'framing:' + what.split(':')[0][:60]
        if key in seen:
            continue
        seen.add(key)
        if len(seen) == 1:
            i, o = shrink(chk.pid, i, o, st, what)
            now = [w for own, w in fc.compare(i, o, st) if chk.pid in own]
            what = now[0] if now else what
        chk.violation(key, what, {'inbound': repr(i), 'outbound': repr(o), 'raw_read_size': st,
                                  'how': 'contracts.framing_check.compare(inbound, outbound, raw_read_size)'})


TRUSTED = {
    'C01': [], 'C02': [],
    'C03': ['zlib (uninterpreted: the decompressor is a function of what it was fed, with the laws of eof, unused_data and unconsumed_tail)'],
    'C04': ['io.BufferedReader (a position, the bytes from there, at least one byte from peek() unless nothing is left)'],
}


def run(chk):
    chk.trusted += ['pyvc (engine and relational verifier, own code)', 'z3', 'contracts/framing_contracts.py (executable specifications)',
                    'contracts/framing_spec.py (independent reading of RFC 7230 for the bounded part)'] + TRUSTED[chk.pid]
    chk.functions += FUNCS[chk.pid]
    chk.assumptions += [
        'the header views used for framing answer as C07 specifies; a value is absent, usable or Unavailable',
        'what a stream notes while it is read carries no context (Stream.complain is only called with a notice)',
        'regular expressions are told apart by what they accept on a battery of %d strings' % len(framing_contracts.LINES),
        'loops are proved to agree iteration by iteration; that they come to an end is shown by the bounded part only']
    chk.part('contracts', lambda: relcheck.run(chk, relcheck.names_of(chk.pid)))
    chk.part('crosscheck', crosscheck, chk)
    if chk.pid in ('C01', 'C02', 'C04'):
        chk.part('streams', streams, chk)
    if chk.pid in ('C01', 'C03'):
        chk.part('limit', limit, chk)
