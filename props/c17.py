"""C17: HAR entries and CGI or HTTP/2 header lists convert without loss or invention."""
import base64
import copy
import itertools
import json
import os
import random
import re
import shutil
import tempfile
from urllib.parse import urlparse

from contracts import core, relcheck
from contracts import c17_contracts      # noqa: registers the contracts

CREATORS = ['Fiddler', 'WebInspector', 'Firefox', 'F12 Developer Tools', 'firefox', 'Chrome', 'Some proxy', '']
MISREPORT = {'WebInspector', 'Firefox', 'F12 Developer Tools'}
METHODS = ['GET', 'POST', 'CONNECT', 'connect', 'OPTIONS', 'M-SEARCH']
URLS = ['http://a.example/', 'https://a.example/p?q=1', 'http://a.example', 'http://a.example/?', 'http://a.example/x#frag', 'https://a.example:444/a;b?c;d',
        'http://[::1]:80/z?y', 'about:blank', '', '/only/path', 'a.example:443', 'http://u@a.example/%7E?%20', 'HTTP://A.example/Q', 'http://a/p?q?r=http://b', 'http://a.example/list;page=2', 'http://a.example/a;b/c;d?e;f#g', 'http://a.example/?#', 'http://a.example/#?']
VERSIONS = ['HTTP/1.1', 'HTTP/1.0', 'HTTP/2.0', 'h2', 'unknown', '', 'http/1.1', 'HTTP/', 'HTTP']
NAMES = ['Host', 'host', 'HOST', 'Accept', 'X-Foo', ':authority', ':status', ':', ':Host', 'Host:', 'Content-Type', 'EndTime', 'ClientToServerBytes',
         'ServerToClientBytes', 'endtime', 'EndTime2', '', ' :x']
VALUES = ['', 'x', 'a.example', 'text/plain; charset=utf-16', 'text/html', 'v\xe9', '123']
TEXTS = ['', 'hello', 'Fiddler says', 'fiddler', '\u043f\u0440', '{"a": 1}']
STATUSES = [0, 100, 199, 200, 204, 206, 299, 300, 301, 304, 404, 500, 999]
SIZES = [-1, 0, 1, 5, 1000000, -2]


def document(rng):
    def headers():
        return [{'name': rng.choice(NAMES), 'value': rng.choice(VALUES)} for _ in range(rng.choice([0, 1, 2, 3, 6]))]

    def entry():
        req = {'method': rng.choice(METHODS), 'url': rng.choice(URLS), 'httpVersion': rng.choice(VERSIONS), 'headers': headers(),
               'bodySize': rng.choice(SIZES), 'queryString': [], 'cookies': []}
        k = rng.random()
        if k < .5:
            req['postData'] = {'mimeType': 'text/plain', 'text': rng.choice(TEXTS)}
        elif k < .6:
            req['postData'] = rng.choice([None, {}, {'params': []}, {'text': None}])
        content = {'size': rng.choice(SIZES), 'mimeType': 'text/plain'}
        k = rng.random()
        if k < .4:
            content['text'] = rng.choice(TEXTS)
        elif k < .8:
            content['encoding'] = rng.choice(['base64', 'Base64', 'BASE64', 'base-64', ''])
            content['text'] = rng.choice([base64.b64encode(rng.choice(TEXTS).encode('utf-8')).decode(), 'abc', '', '!'])
        resp = {'status': rng.choice(STATUSES), 'statusText': rng.choice(['OK', '', 'Not  Found']), 'httpVersion': rng.choice(VERSIONS),
                'headers': headers(), 'bodySize': rng.choice(SIZES), 'content': content}
        if req['method'] == 'CONNECT' and rng.random() < .5:
            resp['status'] = 200
            content['text'] = base64.b64encode(b'Fiddler: tunnel').decode() if rng.random() < .7 else 'Fiddler'
            if rng.random() < .7:
                content['encoding'] = 'base64'
        return {'request': req, 'response': resp, 'startedDateTime': 'x'}
    return {'log': {'version': '1.2', 'creator': {'name': rng.choice(CREATORS), 'version': '1'}, 'entries': [entry() for _ in range(rng.choice([0, 1, 1, 2, 4]))]}}


# ---- an independent reading

GONE = 'unavailable'


def read_message(part, creator):
    version = part['httpVersion'] if part['httpVersion'][:5] == 'HTTP/' and creator not in MISREPORT else None
    return version, [(x['name'], x['value'].encode('iso-8859-1')) for x in part['headers'] if x['name'][:1] != ':']


def read(entry, creator):
    q, p = entry['request'], entry['response']
    version, headers = read_message(q, creator)
    url = urlparse(q['url'])
    if q['method'] == 'CONNECT':
        target = url.netloc
    elif 'host' in [n.lower() for n, _ in headers]:
        target = re.fullmatch(r'(?:[A-Za-z][A-Za-z0-9+.-]*:)?(?://[^/?#]*)?([^#]*)(?:#.*)?', q['url']).group(1)
    else:
        target = q['url']
    body = b'' if q['bodySize'] == 0 else GONE if q['bodySize'] > 0 else None
    text = (q.get('postData') or {}).get('text') or None
    if text and creator == 'Fiddler' and q['method'] == 'CONNECT' and 'Fiddler' in text:
        text, body = None, b''
    req = {'scheme': url.scheme, 'method': q['method'], 'target': target, 'version': version, 'headers': headers, 'body': body, 'text': text,
           'is_to_proxy': None}
    if p['status'] == 0:
        return req, None
    version, headers = read_message(p, creator)
    tunnel = creator == 'Fiddler' and q['method'] == 'CONNECT' and p['status'] // 100 == 2
    if tunnel:
        headers = [x for x in headers if x[0].lower() not in ('endtime', 'clienttoserverbytes', 'servertoclientbytes')]
    content = p['content']
    if 0 in (p['bodySize'], content['size']) or p['status'] == 304:
        body = b''
    elif creator == 'Firefox' or (p['bodySize'] < 0 and content['size'] < 0):
        body = None
    else:
        body = GONE
    decoded = text = None
    if content.get('text') and p['status'] != 304:
        if 'encoding' not in content:
            text = content['text']
        elif content['encoding'].lower() == 'base64':
            try:
                decoded = base64.b64decode(content['text'])
            except ValueError:
                pass
            if decoded is not None and tunnel and b'Fiddler' in decoded:
                decoded, body = None, b''
    return req, {'status': p['status'], 'reason': p['statusText'], 'version': version, 'headers': headers, 'body': body, 'text': text, 'decoded': decoded}


def observed(msg, want):
    from httpolice.request import Request
    from httpolice.structure import Unavailable
    r = {'version': None if msg.version is None else str(msg.version), 'headers': [(str(x.name), x.value) for x in msg.header_entries],
         'body': GONE if isinstance(msg.body, Unavailable) else msg.body}
    if isinstance(msg, Request):
        r.update(scheme=msg.scheme, method=str(msg.method), target=msg.target, is_to_proxy=msg.is_to_proxy, text=None)
    else:
        r.update(status=int(msg.status), reason=msg.reason, text=None, decoded=None)
    if want.get('text') is not None:
        r['text'] = msg.unicode_body
    if want.get('decoded') is not None:
        r['decoded'] = msg.decoded_body
    if want.get('text') is None and want.get('decoded') is None:
        # nothing more is known than the body itself
        d = msg.decoded_body
        if msg.body is None and d is not None:
            r['text'] = 'a decoded body out of nothing: %r' % d
    return r


# ---- damage that makes a document malformed

def damage(rng, doc):
    """-> damaged copy, index of the entry affected (-1: the whole document)"""
    doc = copy.deepcopy(doc)
    entries = doc['log']['entries']
    other = [5, None, [], ['a'], {}, {'a': 1}, 1.5, True]
    if not entries or rng.random() < .15:
        k = rng.randrange(6)
        if k == 0:
            del doc['log']
        elif k == 1:
            del doc['log']['creator']
        elif k == 2:
            del doc['log']['entries']
        elif k == 3:
            doc['log']['creator'] = rng.choice([None, 5, 'x', {}])
        elif k == 4:
            doc['log']['entries'] = rng.choice([None, 5, True])
        else:
            doc = rng.choice([None, [], 5, 'x', [doc]])
        return doc, -1
    i = rng.randrange(len(entries))
    e = entries[i]
    q, p = e['request'], e['response']
    if p['status'] == 0:
        p['status'] = 200
    spots = []
    for part in (q, p):
        for key in ('httpVersion',):
            spots += [(part, key, [5, None, [], ['a'], {}, 1.5, True]), (part, key, ['delete'])]
        if part is q or (doc['log']['creator']['name'] != 'Firefox' and p['content']['size'] != 0 and p['status'] != 304):
            spots += [(part, 'bodySize', [None, 'x', [], {}])]
        spots += [(part, 'bodySize', ['delete'])]
        spots += [(part, 'headers', [None, 5, 'x', [5], [None], ['a'], [[]], {'a': 1}]), (part, 'headers', ['delete'])]
        for hd in part['headers']:
            spots += [(hd, 'name', other + ['delete'])]
            if hd['name'][:1] != ':' and hd['name'].lower() not in ('endtime', 'clienttoserverbytes', 'servertoclientbytes'):
                spots += [(hd, 'value', [5, None, [], ['a'], {}, 1.5, True, 'delete'])]
    spots += [(q, 'method', other + ['delete'])] * 2 + [(q, 'url', other + ['delete'])] * 2
    spots += [(p, 'status', [None, 'x', '200', [], {}, 200.5, float('inf'), float('nan'), True, 'delete'])] * 2
    spots += [(p, 'statusText', other + ['delete']), (p, 'content', [None, 5, [], 'x', 'delete'])]
    spots += [(p['content'], 'text', [5, ['a'], {'a': 1}, 1.5, True])]
    if isinstance(q.get('postData'), dict):
        spots += [(q['postData'], 'text', [5, ['a'], {'a': 1}, 1.5, True]), (q, 'postData', [5, 'x', ['a'], True])]
    spots += [(e, 'request', [None, 5, 'x', [], {}, 'delete']), (e, 'response', [None, 5, 'x', [], {}, 'delete'])]
    where, key, values = rng.choice(spots)
    v = rng.choice(values)
    if v == 'delete':
        del where[key]
    else:
        where[key] = v
    return doc, i


def documents(job):
    seed, n = job
    from httpolice.inputs.common import InputError
    from httpolice.inputs.har import har_input
    rng = random.Random(seed)
    scratch = tempfile.mkdtemp(prefix='c17-')
    path = os.path.join(scratch, 'a.har')
    count = 0
    try:
        for _ in range(n):
            count += 1
            core.tick()
            doc = document(rng)
            upto, broken = None, rng.random() < .35
            good = doc
            if broken:
                doc, upto = damage(rng, doc)
            data = json.dumps(doc).encode()
            raw = rng.random()
            if raw < .2:
                data = b'\xef\xbb\xbf' + data
            if raw > .93:
                data = rng.choice([data[:-1], b'', b'[' * 100000, data + b'x', b'\xff' + data, data.replace(b'"log"', b'"log\xff"')])
                broken, upto = True, -1
            with open(path, 'wb') as f:
                f.write(data)
            got, error = [], None
            try:
                for x in har_input([path]):
                    got.append(x)
            except InputError as e:
                error = e
            except Exception as e:
                return count, {'document': data[:4000].decode('latin-1'), 'observed': 'exception %r' % e}
            base = {'document': data[:4000].decode('latin-1')}
            creator = good['log']['creator']['name']
            want = [read(e, creator) for e in (good['log']['entries'][:max(upto, 0)] if broken else good['log']['entries'])]
            if broken and error is None:
                return count, dict(base, expected='input error', observed='%d exchanges' % len(got))
            if not broken and error is not None:
                return count, dict(base, expected='%d exchanges' % len(want), observed='input error %s' % error)
            if len(got) != len(want):
                return count, dict(base, expected='%d exchanges' % len(want), observed='%d exchanges' % len(got))
            for i, (x, (req, resp)) in enumerate(zip(got, want)):
                msgs = [(x.request, req)] + list(zip(x.responses, [resp] if resp else []))
                if len(x.responses) != (resp is not None):
                    return count, dict(base, entry=i, expected='response: %s' % (resp is not None), observed='%d responses' % len(x.responses))
                for msg, w in msgs:
                    try:
                        o = observed(msg, w)
                    except Exception as e:
                        return count, dict(base, entry=i, observed='exception %r' % e)
                    if o != w:
                        diff = [k for k in w if o.get(k) != w[k]]
                        return count, dict(base, entry=i, message=type(msg).__name__, field=diff, expected=str([w[k] for k in diff]),
                                           observed=str([o.get(k) for k in diff]))
    finally:
        shutil.rmtree(scratch)
    return count, None


def header_lists(job):
    """Every list of up to six entries over a few names, in several string types."""
    part, parts = job
    from httpolice.helpers import pop_pseudo_headers
    from httpolice.structure import FieldName
    pool = [(':a', 'b1'), (':b', 'b2'), ('a', 'b3'), ('x:', 'b4')]
    n = 0
    for size in range(7):
        for combo in list(itertools.product(pool, repeat=size))[part::parts]:
            n += 1
            core.tick()
            entries = [(FieldName(k) if (n + i) % 2 else k, '%s-%d' % (v, i)) for i, (k, v) in enumerate(combo)]
            before = list(entries)
            try:
                r = pop_pseudo_headers(entries)
            except Exception as e:
                return n, {'entries': str(before), 'observed': 'exception %r' % e}
            want = [x for x in before if x[0][:1] != ':']
            removed = {x[0]: x[1] for x in before if x[0][:1] == ':'}
            if entries != want or r != removed:
                return n, {'entries': str(before), 'expected': str((want, removed)), 'observed': str((entries, r))}
    return n, None


WORDS = ['HOST', 'X', 'ACCEPT_ENCODING', 'X_FOO_BAR', 'DNT', 'X__Y', 'x_lower', 'TE', 'X_3D', 'CONTENT_TYPE', 'CONTENT_LENGTH']


def environs(job):
    seed, n = job
    from httpolice.helpers import headers_from_cgi
    rng = random.Random(seed)
    count = 0
    for _ in range(n):
        count += 1
        core.tick()
        keys = rng.sample(['HTTP_' + w for w in WORDS] + ['CONTENT_TYPE', 'CONTENT_LENGTH', 'REQUEST_METHOD', 'SERVER_NAME', 'HTTPS', 'HTTP', 'http_x', 'wsgi.input', 'HTTP_'],
                          rng.randrange(9))
        env = {k: rng.choice(['', 'v', 'text/plain', b'raw', 5, 0, 'v\xe9']) for k in keys}
        first = [k for k in ('HTTP_HOST', 'CONTENT_LENGTH', 'CONTENT_TYPE') if env.get(k)]
        rest = [k for k in env if k[:5] == 'HTTP_' and k not in first]
        want = []
        for k in first + rest:
            name = k[5:] if k[:5] == 'HTTP_' else k
            v = env[k]
            want.append(('-'.join(w[:1].upper() + w[1:].lower() if w.isalpha() else w.title() for w in name.split('_')),
                         v if isinstance(v, bytes) else str(v).encode('iso-8859-1')))
        try:
            got = headers_from_cgi(dict(env))
            shape = [(str(k), v) for k, v in got]
        except Exception as e:
            return count, {'environ': str(env), 'observed': 'exception %r' % e}
        if shape != want:
            return count, {'environ': str(env), 'expected': str(want), 'observed': str(got)}
    return count, None


def run(chk):
    chk.trusted = ['pyvc (engine and relational verifier, own code)', 'z3', 'contracts/c17_contracts.py (executable specifications)',
                   'json.load, urlparse, base64, io.open (uninterpreted in the proofs, exercised by the bounded part)']
    chk.assumptions += ['numbers of a HAR document are mathematical integers in the proofs',
                        'the contracts of _process_request, _process_response and _process_message take documents with the keys present; absent keys and '
                        'wrong types of the remaining values are in the bounded part']
    chk.part('contracts', lambda: relcheck.run(chk, relcheck.names_of('C17')))
    chk.part('documents', bounded, chk)


def bounded(chk):
    n = 48000 if chk.thorough else 8000
    for what, f, jobs, text in (
            ('HAR documents, whole and damaged, against an independent reading', documents, [(chk.seed * 151 + i, n // 8) for i in range(8)], 'up to 4 entries, 6 headers'),
            ('header lists', header_lists, [(i, 8) for i in range(8)], 'every list of up to 6 entries over 4 names'),
            ('CGI environments', environs, [(chk.seed * 157 + i, n // 8) for i in range(8)], 'up to 8 variables')):
        for cnt, bad in core.parallel(f, jobs, timeout=800):
            chk.bound(what, cnt, text)
            if bad:
                chk.violation(what.split()[0], '%s: not converted as documented' % what, bad)
