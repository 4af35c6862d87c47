"""C12: payloads.  Contracts of the payload properties discharged by the relational verifier; exhaustive lemmas over bytes and
characters; bounded: bodies encoded and damaged here, with the outcome computed by an independent oracle."""
import codecs
import gzip
import io
import json
import os
import random
import re
import sys
import zlib

from contracts import core, relcheck
from contracts import c12_contracts     # noqa: registers the contracts
from props import rules

PAYLOAD_NOTICES = {1036, 1037, 1038, 1039, 1040, 1139, 1140, 1275, 1281}


# ---- independent codings

def undo(coding, data):
    """-> the decoded bytes, or None when the data is not what the coding produces."""
    try:
        if coding in ('gzip', 'x-gzip'):
            return ungzip(data)
        if coding == 'deflate':
            d = zlib.decompressobj()
            r = d.decompress(data)
            return r if d.eof and not d.unused_data else None if not d.eof else ('either', r)
        import brotli
        return brotli.decompress(data)
    except Exception:
        return None


def ungzip(data):
    """RFC 1952 by hand (members, flags, CRC and length), on top of raw deflate."""
    out = b''
    first = True
    while data or first:
        first = False
        if len(data) < 10 or data[:3] != b'\x1f\x8b\x08':
            return None
        flags = data[3]
        if flags & 0xe0:
            return None
        pos = 10
        if flags & 4:
            n = int.from_bytes(data[pos:pos + 2], 'little')
            if len(data) < pos + 2 + n:
                return None
            pos += 2 + n
        for bit in (8, 16):
            if flags & bit:
                end = data.find(b'\0', pos)
                if end < 0:
                    return None
                pos = end + 1
        if flags & 2:
            if int.from_bytes(data[pos:pos + 2], 'little') != zlib.crc32(data[:pos]) & 0xffff:
                return None
            pos += 2
        d = zlib.decompressobj(-15)
        try:
            text = d.decompress(data[pos:])
        except zlib.error:
            return None
        if not d.eof or len(d.unused_data) < 8:
            return None
        tail = d.unused_data
        if int.from_bytes(tail[:4], 'little') != zlib.crc32(text) or int.from_bytes(tail[4:8], 'little') != len(text) % (1 << 32):
            return None
        out += text
        data = tail[8:]
    return out


def encode(rng, coding, data):
    if coding in ('gzip', 'x-gzip'):
        if data and rng.random() < 0.3:
            k = rng.randrange(len(data) + 1)
            return gzip.compress(data[:k]) + gzip.compress(data[k:])
        if rng.random() < 0.2:
            buf = io.BytesIO()
            with gzip.GzipFile(filename='name', mode='wb', fileobj=buf) as f:
                f.write(data)
            return buf.getvalue()
        return gzip.compress(data)
    if coding == 'deflate':
        return zlib.compress(data)
    import brotli
    return brotli.compress(data)


# ---- bodies with known contents

def json_value(rng, depth=0):
    k = rng.randrange(9 if depth < 3 else 6)
    if k == 0:
        return rng.choice([None, True, False])
    if k <= 2:
        return rng.choice([0, 1, -1, 12345678901234567890, 1.5, 1e100])
    if k <= 5:
        return rng.choice(['', 'x', 'caf\xe9', '\u4e2d\u6587', '\x07', '\U0001f600', 'a"b\\'])
    if k <= 7:
        return [json_value(rng, depth + 1) for _ in range(rng.randrange(4))]
    return {rng.choice('abcdef') * rng.randrange(1, 3): json_value(rng, depth + 1) for _ in range(rng.randrange(4))}


BAD_JSON = ['', '{', '[1,]', '{"a": 1,}', 'nul', "{'a': 1}", 'NaN', '[Infinity]', '-Infinity', '01', '1 2', '"\x07"', '[', '"a', '\ufeff{}', '+1', '.5',
            '{1: 2}', '{"a" 1}', 'tru', '[1 2]', '"\\x"', '// x\n1']
XML_GOOD = ['<a/>', '<a>x</a>', '<a b="c">\u4e2d</a>', '<?xml version="1.0"?><a/>', '<a><b/>t<c d="e"/></a>', '<!-- x --><a>&amp;</a>',
            '<!DOCTYPE a><a/>', '<a>' + 'x' * 3000 + '</a>', '<a xmlns="u:x"/>', '<a><![CDATA[<]]></a>']
XML_BAD = ['', '<a>', '<a></b>', 'x', '<a/><b/>', '<a b=c/>', '<a>&nope;</a>', '<a>\x00</a>', '<a', '<a b="1" b="2"/>']
XML_ENTITY = ['<!DOCTYPE a [<!ENTITY x "y">]><a>&x;</a>', '<!DOCTYPE a [<!ENTITY x SYSTEM "file:///etc/passwd">]><a>&x;</a>',
              '<!DOCTYPE a [<!ENTITY lol "lol"><!ENTITY lol1 "&lol;&lol;">]><a>&lol1;</a>']
FORM_SAFE = set(b'*-._0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz')
TEXTS = ['', 'hello', 'caf\xe9', '\u0436\u0438\u0437\u043d\u044c', 'x' * 999, 'y' * 1000, 'z' * 1001, 'a\x00b', '\x85 x', 'tab\tnl\r\n', '\u4e2d' * 400,
         'k' * 998 + '\x01\x02\x03', '\ufffe', 'w' * 1500, 'a\x0bb', '\x7f', '\ufffd', 'x' * 1000 + '\x01', '\ufdd0', '\xa0', '\x0c']
CHARSETS = ['utf-8', 'UTF-8', 'utf8', 'iso-8859-1', 'koi8-r', 'us-ascii', 'windows-1251', 'utf-16', 'utf-16-le', 'nope', '', 'shift_jis', 'hex', 'rot13',
            'ascii', 'utf-7', 'x' * 300, 'UTF_8', 'latin1', 'idna', 'unicode_escape', 'base64']


# how a part of a multipart payload begins; what is wrong inside a part is not a defect of the payload
PARTS = [b'Content-Type: text/plain\r\n\r\n'] * 4 + [
    b'\r\n', b'Content-Type: multipart/mixed\r\n\r\n', b'Content-Type: multipart/mixed; boundary=inner\r\n\r\n',
    b'Content-Type: multipart/mixed; boundary=inner\r\n\r\n--inner\r\nContent-Type: multipart/related\r\n\r\n',
    b'Content-Type: multipart/mixed; boundary=inner\r\n\r\n--inner\r\n\r\nx\r\n--inner--\r\n', b'Content-Type: message/rfc822\r\n\r\n',
    b'Content-Type: ???\r\n\r\n']


def types(rng):
    return rng.choice(['text/plain', 'text/html', 'application/json', 'application/json', 'application/problem+json', 'Application/JSON',
                       'application/json-seq', 'text/json', 'application/xml', 'text/xml', 'image/svg+xml', 'application/soap+xml',
                       'application/x-www-form-urlencoded', 'application/x-www-form-urlencoded', 'multipart/form-data', 'multipart/mixed',
                       'multipart/byteranges', 'Multipart/Related', 'application/octet-stream', 'multipart/x', 'application/jsonx', 'application/xmlx',
                       'application/foo+json', 'text/foo+xml', 'APPLICATION/XML', 'application/X-WWW-form-urlencoded', 'image/png'])


def kind_of(mt):
    mt = mt.lower()
    sub = mt.split('/')[1]
    if mt == 'application/x-www-form-urlencoded':
        return 'form'
    if mt.startswith('multipart/'):
        return 'multipart'
    if sub.endswith('+json') or mt == 'application/json':
        return 'json'
    if sub.endswith('+xml') or mt in ('application/xml', 'text/xml'):
        return 'xml'
    return None


def make(rng):
    """-> (message dictionary, facts about it)"""
    mt = types(rng)
    kind = kind_of(mt)
    charset = rng.choice(CHARSETS) if rng.random() < 0.5 else None
    facts = {}
    boundary = None
    effective = charset if charset is not None else 'utf-8'
    try:
        name = codecs.lookup(effective).name
    except Exception:
        name = None
    k = rng.random()
    if k < 0.08:
        body = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 5, 40])))
        facts['kind'] = 'noise'
    elif kind == 'json':
        v = json_value(rng)
        good = rng.random() < 0.65
        text = json.dumps(v, ensure_ascii=rng.random() < 0.5) if good else rng.choice(BAD_JSON)
        if good and rng.random() < 0.05:
            text = '[' + '9' * 5000 + ']'
            v = 'big'
        if good and rng.random() < 0.03:
            text = '[' * 100000 + ']' * 100000
            v = 'deep'
        facts['json'] = ('value', v) if good else ('bad',)
        body = encode_text(text, name)
        if body is None:
            body, _ = text.encode('utf-8', 'surrogatepass'), facts.update(skip=facts.pop('json'))
    elif kind == 'xml':
        which = rng.choice(['good', 'good', 'bad', 'entity'])
        text = rng.choice({'good': XML_GOOD, 'bad': XML_BAD, 'entity': XML_ENTITY}[which])
        body = text.encode('utf-8')
        facts['xml'] = which
    elif kind == 'form':
        pairs = [(rng.choice(['a', 'b', 'caf\xe9', 'x y', '']), rng.choice(['1', '', 'a&b=c', '\u4e2d', 'a b', '100%'])) for _ in range(rng.randrange(4))]
        if rng.random() < 0.05:
            pairs.insert(0, ('long', 'v' * rng.choice([8192, 65536, 100000])))
        s = '&'.join('%s=%s' % (form_quote(a), form_quote(b)) for a, b in pairs)
        body = s.encode('ascii')
        want = {}
        for a, b in pairs:
            if b:
                want.setdefault(a, []).append(b)
        bad = None
        if rng.random() < 0.4:
            bad = rng.choice([b'\xff', b'"', b' ', b'\n', b'/', b':', b'<', b'\x80', b'~', b'!', b',', b'{', b'\0', b';', b'?', b'@', b'[', b'`', b'$', b"'", b'(', b'#'])
            at = rng.randrange(len(body) + 1)
            body = body[:at] + bad + body[at:]
        facts['form'] = ('bad', bad) if bad else ('value', want)
    elif kind == 'multipart':
        boundary = rng.choice(['foo', 'a' * 70, 'x=y', '----=_Part', None])
        has = rng.random() < 0.7
        b = (boundary or 'foo').encode()
        if has:
            body = b''.join(b'--%s%s\r\n%sbody %d\r\n' % (b, rng.choice([b'', b'', b' ', b'\t ']), rng.choice(PARTS), i)
                            for i in range(rng.randrange(1, 4)))
            if rng.random() < 0.3:
                body = rng.choice([b'preamble\r\n', b'\r\n', b'--%sx\r\n' % b]) + body
            if rng.random() < 0.8:
                body += b'--%s--\r\n' % b
        else:
            body = rng.choice([b'', b'abc', b'--\r\n', b'-%s\r\n' % b, b'--%sx\r\nabc' % b, b'x--%s\r\n\r\nabc' % b])
        facts['multipart'] = 1139 if boundary is None else None if has else 1140
    else:
        text = rng.choice(TEXTS)
        if rng.random() < 0.1:
            text = 'q' * rng.choice([4090, 8192, 65530, 65536, 70000, 200000]) + text
        body = encode_text(text, name)
        if body is None:
            body = text.encode('utf-8', 'surrogatepass')
        if rng.random() < 0.1:
            body += rng.choice([b'\xff', b'\xc3', b'\x80'])      # damage at the far end
    codings = [rng.choice(['gzip', 'gzip', 'deflate', 'br', 'x-gzip', 'GZIP', 'Br', 'DEFLATE', 'X-Gzip']) for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3]))]
    plain = body
    stages = []
    for c in codings:
        body = encode(rng, c.lower(), body)
    damage = rng.random()
    if codings and damage < 0.25 and body:
        k = rng.randrange(5)
        if k == 0:
            body = body[:rng.randrange(len(body))]
        elif k == 1:
            i = rng.randrange(len(body))
            body = body[:i] + bytes([body[i] ^ (1 << rng.randrange(8))]) + body[i + 1:]
        elif k == 2:
            body = body + b'garbage'
        elif k == 3:
            body = plain
        else:
            body = body[:-1]
    if rng.random() < 0.06:
        codings.insert(rng.randrange(len(codings) + 1), rng.choice(['identity', 'foo', 'compress', 'x-compress', 'exi', '???', 'zstd']))
    # independent outcome of the codings
    notices = []
    r = body
    ok = True
    together = len(codings) < 2 or rng.random() < 0.6
    # one malformed member spoils its whole line
    listing = ['???'] if together and '???' in codings else list(codings)
    if listing:
        for c in reversed(listing):
            if not r:
                break
            if c == '???':
                ok = False
                break
            lc = c.lower()
            if lc not in ('gzip', 'x-gzip', 'deflate', 'br'):
                notices.append((1036, lc))
                ok = False
                break
            got = undo(lc, r)
            if isinstance(got, tuple):
                return None     # a deflate stream with data after it
            if got is None:
                notices.append((1037, lc))
                ok = False
                break
            r = got
    facts['decoded'] = r if ok else None
    if facts['decoded'] is not None and facts['decoded'] != plain:
        for k in ('json', 'xml', 'form', 'multipart'):
            facts.pop(k, None)
        facts['skip'] = True
    ct = mt
    if boundary is not None:
        ct += '; boundary="%s"' % boundary
    if charset is not None:
        ct += '; charset="%s"' % charset if not re.match(r'^[-\w]+$', charset) or rng.random() < 0.3 else '; charset=%s' % charset
    if rng.random() < 0.05:
        ct = rng.choice(['???', '', 'text'])
    headers = [['Content-Type', ct]] if rng.random() < 0.94 else []
    te = rng.random() < 0.15
    if te:
        headers.append(['Transfer-Encoding', 'chunked'])
    if codings:
        if not together:
            headers += [['Content-Encoding', c] for c in codings]
        else:
            headers.append(['Content-Encoding', rng.choice([', ', ',', ' , ']).join(codings)])
    facts.update(mt=mt if headers and headers[0] == ['Content-Type', ct] and ct not in ('???', '', 'text') else None, te=te, ce=bool(codings),
                 notices=notices, charset=effective, text_plain=plain)
    if facts['mt'] is None:
        facts['charset'] = 'utf-8'
    import base64
    resp = rng.random() < 0.5
    d = {'headers': headers, 'trailers': None, 'version': 'HTTP/1.1', 'body': None if rng.random() < 0.02 else base64.b64encode(body).decode()}
    if d['body'] is None:
        facts['decoded'] = None
        facts['notices'] = []
        facts['no body'] = True
    if resp:
        d.update(status=rng.choice([200, 200, 200, 404, 206, 304, 103, 201, 500, 204]), reason='X')
        d['method'] = rng.choice(['GET', 'GET', 'HEAD', 'POST', None])
    else:
        d.update(method=rng.choice(['POST', 'PUT', 'GET']), target='/', scheme='http')
    facts['full'] = True
    if resp:
        if d['status'] in (304, 103) or d['status'] == 206 and (facts['mt'] or '').lower() != 'multipart/byteranges':
            facts['full'] = False
        elif d['method'] is not None:
            facts['full'] = d['method'] != 'HEAD'
        else:
            facts['full'] = bool(body) and not facts.get('no body')
    return d, resp, facts


def form_quote(s):
    return ''.join(chr(b) if b in FORM_SAFE else '+' if b == 32 else '%%%02X' % b for b in s.encode('utf-8'))


def encode_text(text, name):
    if name is None:
        return None
    try:
        b = text.encode(name)
        return b if b.decode(name) == text else None
    except Exception:
        return None


def problem(d, resp, facts):
    """What is wrong with the real message, or None."""
    from contracts import msggen
    from httpolice.structure import okay
    if resp:
        method = d['method']
        req = {'scheme': 'http', 'method': method, 'target': '/', 'version': 'HTTP/1.1', 'headers': [], 'body': '', 'trailers': None}
        x = msggen.build({'request': req if method is not None else None, 'responses': [d]})
        msg = x.responses[0]
        msg.request = x.request
    else:
        msg = msggen.build({'request': d, 'responses': []}).request

    got = {}
    for n in ('decoded_body', 'unicode_body', 'json_data', 'xml_data', 'multipart_data', 'url_encoded_data', 'displayable_body', 'guessed_charset'):
        got[n] = getattr(msg, n)
    for n in got:
        if getattr(msg, n) is not got[n]:
            return '%s computed twice' % n
    notices = sorted((c.id, c.context.get('coding')) for c in msg._complaints if c.id in PAYLOAD_NOTICES)
    ids = [i for i, _ in notices]

    dec = facts['decoded']
    if dec is None:
        if okay(got['decoded_body']):
            return 'a payload is handed out: %r' % got['decoded_body'][:60]
    elif got['decoded_body'] != dec:
        return 'decoded payload %r, expected %r' % (got['decoded_body'] if not okay(got['decoded_body']) else got['decoded_body'][:60], dec[:60])
    want = list(facts['notices'])

    # text
    text = None
    name = None
    try:
        name = codecs.lookup(facts['charset']).name
    except Exception:
        pass
    if dec is not None and name is not None:
        try:
            text = dec.decode(name)
        except Exception:
            pass
    if text is None:
        if okay(got['unicode_body']):
            return 'text is handed out: %r' % got['unicode_body'][:60]
    elif got['unicode_body'] != text:
        return 'text %r, expected %r' % (got['unicode_body'], text[:60])

    kind = kind_of(facts['mt']) if facts['mt'] else None
    ready = facts['full'] and dec is not None and not facts.get('skip') and facts.get('kind') != 'noise'
    data = {'json': got['json_data'], 'xml': got['xml_data'], 'form': got['url_encoded_data'], 'multipart': got['multipart_data']}
    for k, v in data.items():
        if k != kind and v is not None:
            return '%s data for media type %s' % (k, facts['mt'])
        if not (facts['full'] and dec is not None) and v is not None:
            return '%s data from an incomplete payload' % k
    if kind == 'json' and ready and 'json' in facts and text is not None:
        v = data['json']
        if facts['json'][0] == 'bad':
            want.append((1038, None))
            if okay(v):
                return 'JSON data %r from bad JSON' % (v,)
        elif facts['json'][1] == 'deep':
            if okay(v) and not isinstance(v, list):
                return 'JSON data from an overly nested payload'
            ids = [i for i in ids if i != 1281]
            notices = [n for n in notices if n[0] != 1281]
        else:
            if name not in ('ascii', 'utf-8'):
                want.append((1281, None))
            if facts['json'][1] != 'big' and (v != facts['json'][1] or not okay(v)) and facts['json'][1] is not None:
                return 'JSON data %r' % (v,)
    if kind == 'xml' and ready and 'xml' in facts:
        v = data['xml']
        if facts['xml'] == 'good':
            if not okay(v):
                return 'XML refused'
        else:
            want.append((1039 if facts['xml'] == 'bad' else 1275, None))
            if okay(v):
                return 'XML accepted'
    if kind == 'form' and ready and 'form' in facts:
        v = data['form']
        if facts['form'][0] == 'bad':
            want.append((1040, None))
            if okay(v):
                return 'form data accepted in spite of %r' % facts['form'][1]
        elif v != facts['form'][1]:
            return 'form data %r, expected %r' % (v, facts['form'][1])
    if kind == 'multipart' and ready and 'multipart' in facts:
        v = data['multipart']
        if facts['multipart']:
            want.append((facts['multipart'], None))
            if okay(v):
                return 'multipart data accepted'
        elif not okay(v):
            return 'multipart data refused'
    uncertain = facts['full'] and dec is not None and not ready
    if not uncertain and [i for i, _ in notices] != sorted(i for i, _ in want):
        return 'payload notices %r, expected %r' % (notices, sorted(want, key=str))
    for i, c in facts['notices']:
        if (i, c) not in [(a, str(b).lower()) for a, b in notices]:
            return 'notice %d does not name the coding %s: %r' % (i, c, notices)

    # what is shown
    shown, how = got['displayable_body']
    want_how = []
    if facts['te']:
        want_how.append('removing Transfer-Encoding')
    if facts.get('no body'):
        return None if not okay(shown) and how == [] else 'something is shown'
    is_json = okay(data['json'])
    decoding = ['decoding from %s' % name] if name and name != 'utf-8' else []
    if is_json and text is not None:
        try:
            base = json.dumps(data['json'], indent=2, ensure_ascii=False)
            want_how += ['removing Content-Encoding'] * facts['ce'] + decoding + ['pretty-printing']
        except RecursionError:
            base = text
            want_how += ['removing Content-Encoding'] * facts['ce'] + decoding
    elif text is not None:
        base = text
        want_how += ['removing Content-Encoding'] * facts['ce'] + decoding
    elif dec is not None:
        base = dec.decode('utf-8', 'replace')
        want_how += ['removing Content-Encoding'] * facts['ce']
    else:
        import base64
        base = base64.b64decode(d['body']).decode('utf-8', 'replace')
    if len(base) > 1000:
        base = base[:1000]
        want_how.append('taking the first 1000 characters')
    visible = ''.join('\ufffd' if forbidden(ord(c)) else c for c in base)
    if visible != base:
        want_how.append('replacing non-printable characters with the \ufffd sign')
    if shown != visible:
        return 'shown %r, expected %r' % (shown[:80], visible[:80])
    if how != want_how:
        return 'transformations %r, expected %r' % (how, want_how)
    return None


def forbidden(o):
    return o < 9 or o in (11, 12) or 14 <= o < 32 or 127 <= o < 160 or 0xd800 <= o < 0xe000 or 0xfdd0 <= o < 0xfdf0 or o in (0xfffe, 0xffff)


def bodies(job):
    seed, n = job
    rng = random.Random(seed)
    count = 0
    for _ in range(n):
        made = make(rng)
        if made is None:
            continue
        count += 1
        core.tick()
        try:
            bad = problem(*made)
        except Exception as e:
            bad = 'exception %r' % e
        if bad:
            return count, {'message': str(made[0])[:3000], 'facts': str({k: v for k, v in made[2].items() if k != 'text_plain'})[:1500], 'observed': bad}
    return count, None


# ---- exhaustive lemmas

HTML_GOOD = set(b'%&*+-._=') | set(b'0123456789') | set(range(65, 91)) | set(range(97, 123))


def lemmas(chk):
    from httpolice import message
    from httpolice.util import data, text
    bad = [b for b in range(256) if bool(message.URL_ENCODED_GOOD_CHARS[b]) != (b in HTML_GOOD)]
    lemma(chk, 'URL_ENCODED_GOOD_CHARS: the bytes a form encoder outputs (256 bytes)', bad[:1])
    bad = [b for b in range(256) if message.URL_ENCODED_GOOD_CHARS[b] and b >= 128]
    lemma(chk, 'every byte let through in a form is ASCII (256 bytes)', bad[:1])
    bad = [o for o in range(sys.maxunicode + 1) if text.printable(chr(o)) != ('\ufffd' if forbidden(o) else chr(o))]
    lemma(chk, 'printable: every character by itself (%d)' % (sys.maxunicode + 1), bad[:1])
    every = ''.join(chr(o) for o in range(0x11000))
    lemma(chk, 'printable works character by character',
          [] if text.printable(every) == ''.join('\ufffd' if forbidden(ord(c)) else c for c in every) else ['all characters in one string'])
    lemma(chk, 'iterbytes yields the bytes in order', [] if list(data.iterbytes(bytes(range(256)) * 2)) == [bytes([i]) for i in list(range(256)) * 2] else ['all bytes'])


def lemma(chk, name, bad):
    if bad:
        chk.obligation(name, 'refuted', 'exhaustive', 0, repr(bad))
        chk.violation(name, name + ': fails for %r' % (bad[0],), {'lemma': name, 'input': repr(bad[0])}, True)
    else:
        chk.obligation(name, 'discharged', 'exhaustive')


def run(chk):
    chk.trusted = ['pyvc (engine and relational verifier, own code)', 'z3', 'contracts/c12_contracts.py (executable specifications)',
                   'zlib, brotli, codecs, json, defusedxml, email, urllib.parse.parse_qs (their results are uninterpreted in the proofs '
                   'and compared with independent readings in the bounded part)']
    chk.assumptions += ['header views are those of C07', 'media type predicates equal the tables compared exhaustively',
                        'the libraries are deterministic and raise only the documented exceptions']
    chk.part('contracts', lambda: relcheck.run(chk, relcheck.names_of('C12')))
    chk.part('lemmas', lemmas, chk)
    chk.part('tables', rules.tables, chk)
    chk.part('bodies', bounded, chk)


def bounded(chk):
    n = 160000 if chk.thorough else 16000
    for cnt, bad in core.parallel(bodies, [(chk.seed * 139 + i, n // 8) for i in range(8)], timeout=800):
        chk.bound('payloads encoded and damaged here against an independent reading', cnt, 'random media types, charsets, codings and damage')
        if bad:
            chk.violation('payload', 'payload handling differs: ' + str(bad['observed'])[:300], bad)
