"""C18: no input makes the analysis crash."""
import copy
import importlib
import io
import itertools
import json
import os
import random
import shutil
import signal
import tempfile
import time
import traceback

from contracts import core, framing_check, msggen, relcheck

MODULES = ['framing', 'c06', 'c07', 'c09', 'c10', 'c11', 'c12', 'c16', 'c17', 'actions']

# what may leave a function; all the others may raise nothing.  Who calls them has to deal with these
# (and does: the callers' obligations have the callees' exceptions among their assumptions).
ALLOWED = [
    ('C01 Stream.read', ['ParseError']), ('C04 Stream.parsing with error', ['ParseError']),
    ('C04 Stream.readline', ['ParseError']), ('C04 Stream.readlineend', ['ParseError']),
    ('C04 _parse_request_heading', ['ParseError']), ('C04 _parse_response_heading', ['ParseError']),
    ('C04 parse_header_fields', ['ParseError']), ('C03 _parse_chunk', ['ParseError', 'BodyTooLongError']),
    ('C12 decode_', None),              # any error is what tells that the data are damaged
    ('C06 parse ', ['ParseError', 'UnicodeError']),
    ('C11 run_cli', ['NotImplementedError']),   # stands for an error that comes out of the input while it is read
    ('C16 streams_input', ['InputError']), ('C16 tcpick_input', ['InputError']), ('C16 parse_combined', ['InputError']),
    ('C16 tcpflow_input', ['InputError']), ('C17 har_input', ['InputError']),
    ('C17 _process_', ['TypeError']),   # turned into an input error by har_input
]


def allowed(full):
    for prefix, classes in ALLOWED:
        if full.startswith(prefix):
            return classes
    return []


def escapes_job(name):
    return relcheck.run_escapes(name)


def escapes(chk):
    for m in MODULES:
        importlib.import_module('contracts.%s_contracts' % m)
    names = list(relcheck.CASES)
    for name, got, why, n, sec in core.parallel(escapes_job, names, timeout=600):
        prop, _, functions = relcheck.CASES[name]
        chk.functions += functions
        full = prop + ' ' + name
        ok = allowed(full)
        bad = [] if ok is None else sorted(set(got) - set(ok))
        label = '%s: %s' % (name.strip(), 'no exception escapes' if not ok else 'only %s can escape' % ', '.join(ok))
        if bad:
            chk.obligation(label, 'refuted', 'z3', sec, '; '.join('%s when %s' % (b, got[b]) for b in bad))
        elif why:
            chk.obligation(label, 'undecided', 'z3', sec, why)
        else:
            chk.obligation(label, 'discharged', 'z3', sec, '%d paths' % n)


def rules(chk):
    """The check_* functions: no path ends in an exception (their scenarios are those of C13-C15)."""
    from contracts import rules_proof
    for r in core.parallel(crash_job, ['request', 'response', 'response-req', 'context', 'sequence', 'sequence-req'], timeout=600):
        which, obls, error = r
        if error:
            chk.obligation('checks, scenario %s: no exception escapes' % which, 'undecided', 'z3', 0, error)
        for name, status, sec, detail in obls:
            chk.obligation('checks, scenario ' + name, status, 'z3', sec, detail)
    chk.functions += ['httpolice.request.check_request', 'httpolice.response.check_response', 'httpolice.response.check_response_itself',
                      'httpolice.response.check_response_in_context', 'httpolice.response.check_responses', 'httpolice.message.check_message']


def crash_job(which):
    from contracts import rules_proof
    return rules_proof.crashes(which)


# ---------------------------------------------------------------------------------------------------
# bounded: the whole analysis on generated inputs

class Slow(BaseException):
    pass


def alarm(*_):
    raise Slow()


LIMIT_S = 60


def guarded(f, *args):
    """None, or what it raised and where."""
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(LIMIT_S)
    try:
        f(*args)
    except Slow:
        return None                 # how long it takes is not this property
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return '%s: %s at %s' % (type(e).__name__, str(e)[:200], ' < '.join('%s:%d' % (os.path.basename(x[0]), x[1]) for x in tb[-1:-5:-1]))
    finally:
        signal.alarm(0)


def analyse(exchanges, full=True):
    from httpolice import text_report
    from httpolice.exchange import check_exchange
    seen = []
    for e in exchanges:
        check_exchange(e)
        seen.append(e)
    if full:
        text_report(seen, io.BytesIO())
    return seen


def analyse_streams(i, o, step, scheme):
    from httpolice.framing1 import parse_streams
    a, b = framing_check.opened(i, step), framing_check.opened(o, step)
    analyse(list(parse_streams(a, b, scheme)))


def damaged(rng, b):
    """`b` with a few octets changed."""
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 2, 4])):
        k = rng.randrange(len(b) + 1)
        x = rng.random()
        if x < .3:
            b[k:k + 1] = bytes([rng.randrange(256)])
        elif x < .5:
            b[k:k] = rng.choice([b'\x00', b'\xff', b'"', b'\\', b'\r\n', b'\n', b';', b',', b'=', b'%', b'*', b"'", b'(', b')', b'<', b'>', b'/', b':',
                                 b'9' * 30, b'-', b'0', b' ', b'\xc3', b'q=', b'W/', b'charset='])
        elif x < .7:
            del b[k:k + rng.choice([1, 1, 3, 10])]
        elif x < .85:
            j = rng.randrange(len(b) + 1)
            b[k:k] = b[j:j + rng.choice([1, 4, 20])]
        else:
            b = b[:k]
    return bytes(b)



def stream_of(d):
    """The octets of a generated exchange."""
    out = []
    for m, req in ((d['request'], True), (d['responses'][0] if d['responses'] else None, False)):
        if m is None:
            out.append(None)
            continue
        body = msggen.unb64(m['body']) or b''
        if req:
            head = '%s %s %s' % (m['method'], m['target'], m['version'] or 'HTTP/1.1')
        else:
            head = '%s %03d %s' % (m['version'] or 'HTTP/1.1', m['status'], m['reason'] or '')
        hs = [h for h in m['headers'] if h[0].lower() not in ('content-length', 'transfer-encoding')] + [['Content-Length', str(len(body))]]
        out.append(head.encode('iso-8859-1', 'replace') + b'\r\n' + b''.join(('%s: %s\r\n' % (n, v)).encode('iso-8859-1') for n, v in hs) + b'\r\n' + body)
    return out


def streams_job(j):
    seed, deadline = j
    rng = random.Random(seed)
    g, mg = framing_check.Gen(seed), msggen.Gen(seed)
    n = 0
    while time.time() < deadline:
        n += 1
        x = rng.random()
        if x < .5:
            i, o = g.pair()
        elif x < .9:
            i, o = stream_of(mg.exchange())
        else:
            i, o = [None if rng.random() < .2 else bytes(rng.choice(b'GET /HTP1.0\r\n :;,="()<>\x00\xff\x80abc') for _ in range(rng.choice([0, 5, 40, 200]))) for _ in range(2)]
        if i is not None and rng.random() < .4:
            i = damaged(rng, i)
        if o is not None and rng.random() < .4:
            o = damaged(rng, o)
        if i is None and o is None:
            continue
        step, scheme = rng.choice([0, 0, 1, 3]), rng.choice(['http', 'https', None])
        bad = guarded(analyse_streams, i, o, step, scheme)
        if bad:
            return 'byte streams', n, ('streams', {'inbound': i, 'outbound': o, 'read_size': step, 'scheme': scheme}, bad)
    return 'byte streams', n, None


# ---- words of the live grammar: every semantic action with values it may meet

class Words:
    def __init__(self, rng):
        self.rng = rng
        self.depth = {}

    def min_depth(self, s):
        """Depth of the shallowest derivation (None while unknown)."""
        return self.depth.get(id(s))

    def learn(self, root):
        from httpolice.parse import Terminal
        todo, seen, order = [root], {}, []
        while todo:
            s = todo.pop()
            if id(s) in seen:
                continue
            seen[id(s)] = s
            order.append(s)
            if not isinstance(s, Terminal):
                for r in s.rules:
                    todo.extend(r.symbols)
        changed = True
        for s in order:
            if isinstance(s, Terminal):
                self.depth[id(s)] = 0
        while changed:
            changed = False
            for s in order:
                if isinstance(s, Terminal):
                    continue
                for r in s.rules:
                    ds = [self.depth.get(id(x)) for x in r.symbols]
                    if None not in ds:
                        d = 1 + max(ds or [0])
                        if self.depth.get(id(s), 10 ** 9) > d:
                            self.depth[id(s)] = d
                            changed = True

    def word(self, root, fuel):
        """A random word of the language of `root`."""
        from httpolice.parse import Terminal
        if id(root) not in self.depth:
            self.learn(root)
        if id(root) not in self.depth:
            return None
        out, todo = bytearray(), [(root, fuel)]
        while todo:
            s, f = todo.pop()
            if isinstance(s, Terminal):
                cs = [as_octet(c) for c in s.chars()]
                out += bytes([self.char(cs)])
                continue
            rules = [r for r in s.rules if all(id(x) in self.depth for x in r.symbols)]
            if f <= 0 or len(out) > 400:
                best = min(1 + max([self.depth[id(x)] for x in r.symbols] or [0]) for r in rules)
                rules = [r for r in rules if 1 + max([self.depth[id(x)] for x in r.symbols] or [0]) == best]
            r = self.rng.choice(rules)
            todo.extend((x, f - 1) for x in reversed(r.symbols))
        return bytes(out)

    def char(self, cs):
        edge = self.rng.random()
        if edge < .3:
            return self.rng.choice([cs[0], cs[-1]])
        return self.rng.choice(cs)


def as_octet(x):
    return x if isinstance(x, int) else ord(x)


def symbols():
    """[(what it is the syntax of, symbol)]: everything the analysis parses with."""
    from contracts import grammar_spec
    out = []
    for u in grammar_spec.units():
        if u[1] is not None:
            s = u[1]()
            if s is not None:
                out.append((u[0], s))
    return out


WRAP = {'cache_directive': ('Cache-Control', '%s=%s'), 'hsts_directive': ('Strict-Transport-Security', '%s=%s'),
        'alt_svc_param': ('Alt-Svc', 'h2=":443"; %s=%s'), 'preference': ('Prefer', '%s=%s'), 'forwarded_param': ('Forwarded', '%s=%s')}


def words_job(j):
    from httpolice import parse as parse_module
    seed, k, step, deadline = j
    rng = random.Random(seed)
    w = Words(rng)
    todo = [x for i, x in enumerate(symbols()) if i % step == k]
    n = 0
    while todo and time.time() < deadline:
        for label, s in todo:
            if time.time() > deadline:
                break
            data = w.word(s, rng.choice([2, 4, 8, 15, 25, 40]))
            if data is None:
                continue
            if rng.random() < .25:
                data = damaged(rng, data)
            n += 1
            d = message_with(rng, label, data)
            bad = guarded(analyse_message, d)
            if not bad:
                bad = guarded(just_parse, label, data, s, parse_module)
                if bad:
                    return 'words of the grammar', n, ('word', {'symbol': label, 'data': data}, bad)
            if bad:
                return 'words of the grammar', n, ('message', d, bad)
    return 'words of the grammar', n, None


def just_parse(label, data, s, parse_module):
    try:
        parse_module.parse(data, s, lambda *a, **k: None, 1000)
    except parse_module.ParseError:
        pass


def message_with(rng, label, data):
    """An exchange in which `data` stand where the syntax called `label` is used."""
    text = data.decode('iso-8859-1')
    kind, _, name = label.partition(' ')
    q = {'scheme': rng.choice(['http', 'https', None]), 'method': rng.choice(['GET', 'POST', 'PUT', 'OPTIONS', 'CONNECT', 'HEAD']), 'target': '/', 'version': 'HTTP/1.1',
         'headers': [['Host', 'a']], 'body': msggen.b64(rng.choice(msggen.BODIES)), 'trailers': None}
    p = {'version': 'HTTP/1.1', 'status': rng.choice([200, 200, 206, 301, 304, 401, 416, 101, 201, 405]), 'reason': 'OK', 'headers': [],
         'body': msggen.b64(rng.choice(msggen.BODIES)), 'trailers': None}
    if kind == 'header':
        h = [name, text]
    elif kind == 'argument':
        t, _, arg = name.partition(' ')
        if t not in WRAP:
            h = ['X-Foo', text]
        else:
            if rng.random() < .7:
                quoted = '"%s"' % text.replace('\\', '\\\\').replace('"', '\\"')
            else:
                quoted = text
            h = [WRAP[t][0], WRAP[t][1] % (arg, quoted)]
    elif 'target' in label:
        q['target'] = text
        h = None
    elif 'method' in label:
        q['method'] = text
        h = None
    elif 'Link' in label or 'rfc8288' in label:
        h = ['Link', '<%s>; rel="%s"' % (text, text)]
    else:
        h = [rng.choice(['Content-Type', 'Link', 'Authorization', 'WWW-Authenticate', 'Forwarded', 'Location', 'Referer']), text]
    if h:
        q['headers'].append(h)
        p['headers'].append(list(h))
    return {'request': q, 'responses': [p]}


# ---- messages built from well-typed parts

TEXTS = ['', 'x', 'GET', 'HTTP/1.1', 'HTTP/2', '\u0416', '\x00', '\n', '\r\n', '\x7f', '\ud83d\ude00', ' ', 'a' * 3000, '%', '%zz', '%E9', '/\u2028', '\ufffe', '\xa0', '\x85',
         'http://[', 'http://[::1', '//', '///', 'http://a:b', 'a:99999', ':', '?', '#', '[', 'http://\u0130/', 'CONNECT', 'http://a\x00/', '\ufeff', '{', '<', '&', 'None']
STATUSES = [-1, 0, 1, 99, 100, 199, 299, 600, 999, 1000, 10 ** 30, -10 ** 30]
DEEP = [(b'(', b')'), (b'[', b']'), (b'{"a":', b'}'), (b'<a>', b'</a>'), (b'"', b'"'), (b'\\', b''), (b',', b''), (b';', b''), (b' ', b''), (b'a=b; ', b''), (b'<', b'>'),
        (b'%', b''), (b'%41', b''), (b'.', b''), (b'-a', b''), (b'a/b,', b''), (b'9', b''), (b'0', b''), (b':', b''), (b'q=1;', b''), (b'\xff', b''), (b'\t', b'')]
PREFIX = [b'', b'a', b'x ', b'a; ', b'a=', b'1', b'1.1 a ', b'a/b; ', b'<', b'"', b'W/', b'bytes ', b'bytes=', b'Basic ', b'for=', b'h2="', b'en']


def random_octets(rng):
    return bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 10, 60])))


def any_value(rng, mg, name):
    x = rng.random()
    if x < .25:
        return mg.value(name).encode('iso-8859-1', 'replace')
    if x < .6:
        return damaged(rng, mg.value(name).encode('iso-8859-1', 'replace'))
    if x < .7:
        return random_octets(rng)
    if x < .85:
        a, b = rng.choice(DEEP)
        n = rng.choice([1, 2, 5, 30, 30, 400])
        return rng.choice(PREFIX) + a * n + rng.choice([b'', b'x']) + b * n
    return b', '.join(damaged(rng, mg.value(rng.choice(mg.names)).encode('iso-8859-1', 'replace')) for _ in range(2))


def any_body(rng):
    x = rng.random()
    if x < .2:
        return rng.choice([None, b''])
    if x < .4:
        return random_octets(rng)
    if x < .6:
        return damaged(rng, rng.choice([b for b in msggen.BODIES if b]))
    if x < .75:
        a, b = rng.choice(DEEP)
        n = rng.choice([1, 30, 2000, 2000])
        return rng.choice([b'', b'[', b'<?xml version="1.0" encoding="utf-16"?>', b'<?xml version="1.0" encoding="x"?>', b'\xff\xfe']) + a * n + b * n
    if x < .85:
        bs = [b'--foo' + rng.choice([b'', b'--']) + rng.choice([b'\r\n', b'\n', b'']) + b''.join(
            rng.choice([b'Content-Type: ', b'Content-Range: ', b'Content-Disposition: ', b'Content-Transfer-Encoding: ', b'X: ', b'']) + rng.choice(
                [b'text/plain; charset=x', b'multipart/mixed; boundary=foo', b'message/rfc822', b'bytes 0-1/2', b'base64', b'x\xff', b'=?utf-8?q?=ff?=', b'a;b*=x', b"a; b*0*=x'y'z"]) + b'\r\n'
            for _ in range(rng.choice([0, 1, 2]))) + b'\r\n' + random_octets(rng) for _ in range(rng.choice([1, 2, 4, 300]))]
        return b'\r\n'.join(bs)
    return rng.choice([b'{"a": 1e999}', b'{"a": ' + b'9' * 5000 + b'}', b'[NaN]', b'"\\ud800"', b'{"type": "\\ud800"}', b'<!DOCTYPE a [<!ENTITY x "y">]><a>&x;</a>', b'<a xmlns:b="c"><b:a/></a>',
                       b'<!DOCTYPE a SYSTEM "file:///nonexistent"><a/>', b'\xef\xbb\xbf{}', '{"a": 1}'.encode('utf-16'), '<a/>'.encode('utf-32'), b'a=%ff&b=%zz', b'a=b;c=d', b'&&&===', b'\x1f\x8b\x08' + b'\x00' * 30])


def any_text(rng):
    return rng.choice(TEXTS) if rng.random() < .8 else ''.join(chr(rng.choice([rng.randrange(128), rng.randrange(256), rng.randrange(0xd800), rng.randrange(0xe000, 0x110000)]))
                                                              for _ in range(rng.choice([1, 3, 20])))


def any_message(rng, mg, req):
    names = list(mg.names)
    m = mg.request() if req else mg.response()
    hs = []
    for n, v in m['headers'][:4]:
        base = next((x for x in names if x.lower() == n.lower()), n)
        hs.append([n, any_value(rng, mg, base) if rng.random() < .3 else v.encode('iso-8859-1', 'replace')])
    for _ in range(rng.choice([0, 1, 1, 2])):
        n = rng.choice(names if rng.random() < .8 else mg.known())
        hs.append([mg.case(n), any_value(rng, mg, n)])
    if rng.random() < .1:
        hs.append([any_text(rng), random_octets(rng)])
    if rng.random() < .25:
        hs.append(['Content-Type', rng.choice([b'application/json', b'text/xml', b'application/xml; charset=utf-16', b'multipart/form-data; boundary=foo', b'multipart/byteranges; boundary="foo"',
                                               b'multipart/mixed; boundary="\xff"', b'application/x-www-form-urlencoded', b'text/plain; charset=idna', b'text/plain; charset=punycode',
                                               b'text/plain; charset=undefined', b'text/plain; charset=rot13', b'text/plain; charset="a\x00b"', b'text/html; charset=unicode_escape',
                                               b'text/plain; charset=raw_unicode_escape', b'text/plain; charset=utf-7', b'text/plain; charset=mbcs', b'application/problem+json'])])
    if rng.random() < .15:
        hs.append(['Content-Encoding', rng.choice([b'gzip', b'deflate', b'br', b'gzip, br', b'x', b'identity', b'gzip,' * 50])])
    trailers = None
    if rng.random() < .15:
        trailers = [[rng.choice(names), any_value(rng, mg, rng.choice(names))] for _ in range(rng.choice([0, 1, 2]))]
    d = {'headers': hs, 'trailers': trailers, 'body': any_body(rng), 'version': rng.choice(msggen.VERSIONS) if rng.random() < .9 else any_text(rng)}
    if req:
        d.update(scheme=m['scheme'] if rng.random() < .9 else any_text(rng), method=m['method'] if rng.random() < .9 else any_text(rng), target=m['target'] if rng.random() < .7 else any_text(rng))
    else:
        d.update(status=m['status'] if rng.random() < .9 else rng.choice(STATUSES), reason=m['reason'] if rng.random() < .8 else any_text(rng))
    return d


def raw(v):
    return v if isinstance(v, bytes) else v.encode('iso-8859-1', 'replace')


def body_of(m):
    return m['body'] if m['body'] is None or isinstance(m['body'], bytes) else msggen.unb64(m['body'])


def make(d):
    """The exchange of a description."""
    from httpolice import exchange, request, response

    def pairs(x):
        return None if x is None else [(n, raw(v)) for n, v in x]
    q = d['request']
    if q is not None:
        q = request.Request(q['scheme'], q['method'], q['target'], q['version'], pairs(q['headers']), body_of(q), pairs(q.get('trailers')))
    return exchange.Exchange(q, [response.Response(p['version'], p['status'], p['reason'], pairs(p['headers']), body_of(p), pairs(p.get('trailers')))
                                 for p in d['responses']])


def analyse_message(d, full=True):
    analyse([make(d)], full)


def reduce_message(d, what):
    """A smaller description that fails in the same way."""
    kind = what.split(':')[0]
    best = copy.deepcopy(d)
    deadline = time.time() + 30

    def still(x):
        r = guarded(analyse_message, x)
        return r is not None and r.split(':')[0] == kind
    changed = True
    while changed and time.time() < deadline:
        changed = False
        cands = []
        if best['request'] is not None and best['responses']:
            cands.append(dict(best, request=None))
            cands.append(dict(best, responses=[]))
        if len(best['responses']) > 1:
            cands += [dict(best, responses=[x for j, x in enumerate(best['responses']) if j != i]) for i in range(len(best['responses']))]
        for i, m in enumerate(([best['request']] if best['request'] else []) + best['responses']):
            for f in ('headers', 'trailers'):
                for k in range(len(m[f] or [])):
                    c = copy.deepcopy(best)
                    cm = (([c['request']] if c['request'] else []) + c['responses'])[i]
                    del cm[f][k]
                    cands.append(c)
            if body_of(m):
                c = copy.deepcopy(best)
                cm = (([c['request']] if c['request'] else []) + c['responses'])[i]
                cm['body'] = b''
                cands.append(c)
        for c in cands:
            if still(c):
                best, changed = c, True
                break
    return best


def messages_job(j):
    seed, deadline = j
    rng = random.Random(seed)
    mg = msggen.Gen(seed)
    n = 0
    while time.time() < deadline:
        n += 1
        d = {'request': any_message(rng, mg, True) if rng.random() < .75 else None, 'responses': []}
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            d['responses'].append(any_message(rng, mg, False))
        bad = guarded(analyse_message, d)
        if bad:
            return 'messages from well-typed parts', n, ('message', reduce_message(d, bad), bad)
    return 'messages from well-typed parts', n, None


# ---- recorded traffic

JUNK = [None, 0, 1, -1, 200, 304, 1.5, float('inf'), float('nan'), True, False, '', 'x', '\u041f\u0440\u0438\u0432\u0435\u0442', '\n', [], ['a'], {}, {'a': 1}, 'http://[::1',
        'http://[V1.a]/', 'HTTP/1.1', 'HTTP/2.0', 10 ** 30, 'base64', '!!!', '//x', 'a b', '=', 'text/plain; charset=utf-16', 99, 1000, -200, '200', '\x00', 'CONNECT', 'POST', '\ud800']


def spots(d):
    for k, v in (d.items() if isinstance(d, dict) else enumerate(d)):
        yield d, k
        if isinstance(v, (dict, list)):
            yield from spots(v)


def analyse_file(reader, paths):
    from httpolice.inputs.common import InputError
    try:
        ex = list(reader(paths))
    except InputError:
        return
    analyse(ex)


def files_job(j):
    from httpolice import inputs
    from httpolice.inputs import har
    from props import c17
    seed, deadline = j
    rng = random.Random(seed)
    tmp = tempfile.mkdtemp(prefix='c18')
    g = framing_check.Gen(seed)
    n = 0
    try:
        while time.time() < deadline:
            n += 1
            if rng.random() < .6:
                doc = c17.document(rng)
                for _ in range(rng.choice([0, 1, 1, 2, 3])):
                    all_spots = list(spots(doc))
                    if all_spots:
                        o, k = rng.choice(all_spots)
                        if isinstance(o, dict) and rng.random() < .15:
                            del o[k]
                        else:
                            o[k] = copy.deepcopy(rng.choice(JUNK))
                data = json.dumps(doc).encode('ascii')
                if rng.random() < .1:
                    data = damaged(rng, data)
                name, reader = 'a.har', har.har_input
            else:
                i, o = g.pair()
                data = b''.join([b'#preamble\r\n' * rng.choice([0, 1, 2]), b'\x16', rng.choice([b'INBOUND STREAM\r\n', b'']), b'\x17' if rng.random() < .3 else b'\x16', i or b'', b'\x15',
                                 rng.choice([b'\x16', b'']), o or b'', b'\x15', b'\x14'])
                if rng.random() < .5:
                    data = combined(rng, i or b'', o or b'')
                if rng.random() < .4:
                    data = damaged(rng, data)
                name, reader = 'a.combined', inputs.formats['combined']
            path = os.path.join(tmp, name)
            with open(path, 'wb') as f:
                f.write(data)
            bad = guarded(analyse_file, reader, [path])
            if bad:
                return 'recorded traffic', n, ('file', {'format': name, 'data': data}, bad)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 'recorded traffic', n, None


def combined(rng, i, o):
    return b'some text\r\n' + b'======== BEGIN INBOUND STREAM ========\r\n' + i + b'======== BEGIN OUTBOUND STREAM ========\r\n' + o


# ---- fixed inputs: everything deep or long that one generator of the above seldom makes

def fixed():
    out = []
    for name, value in [('User-Agent', 'x %s'), ('Server', 'x %s'), ('Via', '1.1 a %s')]:
        for n in (250, 2000):
            out.append((name, value % ('(' * n + ')' * n)))
            out.append((name, value % ('(' * n + ')' * (n - 1))))
    for n in (2000,):
        for name, value in [('Cache-Control', ',' * n + 'a'), ('Accept', 'a/b,' * n), ('Link', '<a>; ' + 'a=b;' * n), ('Cookie', 'a=b; ' * n), ('Forwarded', 'for=a;' * n),
                            ('Accept-Language', 'a' + '-bcd' * n), ('Host', 'a.' * n), ('Max-Forwards', '9' * n), ('Age', '9' * n), ('Content-Range', 'bytes 0-1/' + '9' * n),
                            ('Retry-After', '9' * n), ('Cache-Control', 'max-age=' + '9' * n), ('Range', 'bytes=' + '9' * n + '-'), ('Alt-Svc', 'h2=":%s"' % ('9' * n)),
                            ('Forwarded', 'for="a:%s"' % ('9' * 5)), ('Upgrade', 'h2c' * n), ('Strict-Transport-Security', 'max-age=' + '9' * n), ('Warning', '199 - "%s"' % ('x' * n)),
                            ('If-None-Match', '"a",' * n), ('Content-Length', '9' * n), ('Host', 'a:' + '9' * n), ('Location', 'http://a:%s/' % ('9' * n)), ('Keep-Alive', '9' * n),
                            ('Prefer', 'wait=' + '9' * n), ('Timeout', 'Second-' + '9' * n), ('Depth', '9' * n)]:
            out.append((name, value))
    # every date with an unusual day, month or year
    for day in ('00', '01', '29', '30', '31', '32', '99'):
        for month in ('Jan', 'Feb', 'Apr', 'Dec', 'jan'):
            for year in ('0000', '0001', '1900', '2000', '2015', '9999'):
                for t in ('00:00:00', '23:59:59', '23:59:60', '24:00:00', '25:61:61'):
                    out.append(('Date', 'Mon, %s %s %s %s GMT' % (day, month, year, t)))
    for t in ('00:00:00', '23:59:60', '99:99:99'):
        for day in ('00', '31', '99'):
            out += [('Date', 'Sunday, %s-Feb-%s %s GMT' % (day, y, t)) for y in ('00', '99', '49')]
            out += [('Date', 'Sun Feb %s %s %s' % (day, t, y)) for y in ('0000', '9999', '1994')]
        out += [('Date', 'Sun Feb  %d %s 0000' % (d, t)) for d in (0, 9)]
    for name in ('Expires', 'Last-Modified', 'If-Modified-Since', 'If-Unmodified-Since', 'Sunset', 'Retry-After', 'Warning'):
        out += [(name, ('199 a "b" "%s"' if name == 'Warning' else '%s') % v) for v in ('Mon, 31 Feb 2015 00:00:00 GMT', 'Mon, 01 Jan 0000 00:00:00 GMT', 'Fri, 31 Dec 9999 23:59:60 GMT')]
    return [(n, v.encode('iso-8859-1')) for n, v in out]


def fixed_job(j):
    k, step = j
    n = 0
    for i, (name, value) in enumerate(fixed()):
        if i % step != k:
            continue
        for d in ({'request': {'scheme': 'http', 'method': 'GET', 'target': '/', 'version': 'HTTP/1.1', 'headers': [['Host', 'a'], [name, value]], 'body': b'', 'trailers': None}, 'responses': []},
                  {'request': None, 'responses': [{'version': 'HTTP/1.1', 'status': 200, 'reason': 'OK', 'headers': [['Date', 'Thu, 13 Nov 2014 10:00:00 GMT'], [name, value]],
                                                   'body': b'', 'trailers': None}]}):
            n += 1
            bad = guarded(analyse_message, d)
            if bad:
                return 'extreme values', n, ('message', d, bad)
    return 'extreme values', n, None


BOUNDS = {
    'byte streams': 'random and damaged HTTP/1.x streams, both directions, through parse_streams, the checks and the text report, for a fixed time',
    'words of the grammar': 'random words (and damaged words) of every syntax the analysis parses with, derived from the live grammar, in messages, for a fixed time',
    'messages from well-typed parts': 'random exchanges with up to 3 responses, any text and octets in every part, bodies of every understood kind, for a fixed time',
    'recorded traffic': 'random and damaged HAR and combined files, for a fixed time',
    'extreme values': 'fixed list: deep nesting, long lists, long numbers, every unusual date',
}


def run_job(j):
    return {'streams': streams_job, 'words': words_job, 'messages': messages_job, 'files': files_job, 'fixed': fixed_job}[j[0]](j[1])


def bounded(chk):
    seconds = 400 if chk.thorough else 55
    end = time.time() + seconds
    jobs = [('fixed', (i, 4)) for i in range(4)]
    jobs += [('messages', (chk.seed * 1000 + i, end)) for i in range(3)] + [('words', (chk.seed * 1000 + i, i, 3, end)) for i in range(3)]
    jobs += [('streams', (chk.seed * 1000 + 7, end)), ('files', (chk.seed * 1000 + 8, end))]
    for kind, n, bad in core.parallel(run_job, jobs, timeout=seconds + 300, procs=12):
        chk.bound(kind, n, BOUNDS[kind])
        if bad:
            what, case, how = bad
            chk.violation('crash:' + how.split(' at ')[-1].split(' < ')[0], '%s raises %s' % (what, how), {'kind': what, 'input': repr(case)[:20000], 'exception': how})


def run(chk):
    chk.trusted += ['pyvc (generator of obligations)', 'z3']
    chk.assumptions += ['operations on opaque values raise no TypeError of their own: well-typedness of values is not part of the obligations',
                        'semantic actions of the grammars are covered by the bounded part only, except those under contract (actions_contracts, C12)',
                        'memory suffices, and the call stack suffices for what is not recursive in the input']
    chk.part('escapes', escapes, chk)
    chk.part('rules', rules, chk)
    chk.part('bounded', bounded, chk)
