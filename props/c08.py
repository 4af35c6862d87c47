"""C08: arguments of directives and parameters.  Contracts of header.py discharged by the relational verifier; bounded: headers
rendered from their abstract structure, with the outcome computed from that structure by an independent oracle."""
import random

from contracts import core, relcheck
from contracts import c07_contracts     # noqa: registers the contracts

U = ('unavailable',)
ANY = ('any',)
DELTA = [('0', 0), ('10', 10), ('86400', 86400), ('x', U), ('1.5', U), ('-1', U), ('10', 10), ('0010', 10), ('', U), ('1 0', U)]
FIELDS = [('foo', ['foo']), ('foo, bar', ['foo', 'bar']), ('Set-Cookie', ['Set-Cookie']), ('a b', U), ('@', U), ('a;b', U)]
FREE = [('bar', 'bar'), ('a, b', 'a, b'), ('a;b', 'a;b'), ('', ''), ('x y', 'x y'), ('"', '"'), ('1', '1'), ('a,b;c', 'a,b;c')]
NODE = [('192.0.2.43', ANY), ('unknown', ANY), ('_gazonk', ANY), ('[2001:db8::1]:80', ANY), ('a,b', U), ('foo bar', U), ('', U), ('1.2.3.4:x', U)]

# header -> {name: (rule, argument pool, preferred form)}
TABLE = {
    'Cache-Control': {
        'max-age': ('required', DELTA, 'token'), 'max-stale': ('optional', DELTA, 'token'), 'min-fresh': ('required', DELTA, 'token'),
        's-maxage': ('required', DELTA, 'token'), 'stale-if-error': ('required', DELTA, None),
        'stale-while-revalidate': ('required', DELTA, None), 'no-cache': ('optional', FIELDS, 'quoted'),
        'private': ('optional', FIELDS, 'quoted'), 'no-store': ('no', FREE, None), 'no-transform': ('no', FREE, None),
        'immutable': ('no', FREE, None), 'must-revalidate': ('no', FREE, None), 'only-if-cached': ('no', FREE, None),
        'proxy-revalidate': ('no', FREE, None), 'public': ('no', FREE, None), 'community': (None, FREE, None), 'x-foo': (None, FREE, None)},
    'Strict-Transport-Security': {
        'max-age': ('required', [x for x in DELTA if x[0] != '-1'], None), 'includeSubDomains': ('no', FREE, None), 'preload': (None, FREE, None)},
    'Alt-Svc': {'ma': ('required', DELTA, None), 'persist': ('required', [('1', True), ('0', U), ('2', U), ('', U)], None),
                'v': (None, FREE, None)},
    'Prefer': {
        'return': ('required', [('minimal', 'minimal'), ('representation', 'representation'), ('MINIMAL', 'MINIMAL'), ('none', U), ('a,b', U)], None),
        'handling': ('required', [('strict', 'strict'), ('lenient', 'lenient'), ('loose', U)], None),
        'wait': ('required', [x for x in DELTA if x[0]], None), 'respond-async': ('no', [x for x in FREE if x[0]], None),
        'depth-noroot': (None, FREE, None), 'foo': (None, FREE, None)},
    'Forwarded': {'for': ('required', NODE, None), 'by': ('required', NODE, None),
                  'proto': ('required', [('http', 'http'), ('HTTPS', 'HTTPS'), ('1x', U), ('a b', U)], None),
                  'host': ('required', [('example.com', ANY), ('example.com:80', ANY), ('a b', U)], None), 'secret': (None, FREE, None)},
}
TABLE['Preference-Applied'] = TABLE['Prefer']
BAD_DELIMS = {'Forwarded': (1, 1), 'Prefer': (1, 1), 'Preference-Applied': (1, 0), 'Strict-Transport-Security': (0, 1)}
TOKEN = set("!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
MALFORMED = {'Cache-Control': 'max-age=10, foo=', 'Strict-Transport-Security': 'max-age=10; =', 'Alt-Svc': 'h2', 'Prefer': '@',
             'Preference-Applied': 'a b', 'Forwarded': 'for=a b'}


def is_token(s):
    return s != '' and set(s) <= TOKEN


def quote(s):
    return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"')


def pick_pair(rng, header, names=None):
    """-> (name as written, rendered, form, text, outcome)"""
    name = rng.choice(names or sorted(TABLE[header]))
    rule, pool, _ = TABLE[header][name]
    written = rng.choice([name, name, name, name.upper(), name.capitalize()])
    if header == 'Alt-Svc':
        written = name          # case-sensitive parameters
    want_arg = rng.random() < {'required': 0.85, 'no': 0.3, 'optional': 0.6, None: 0.6}[rule]
    if header in ('Alt-Svc', 'Forwarded'):
        want_arg = True
    if not want_arg:
        return (name, written, written, None, None, None)
    text, outcome = rng.choice(pool)
    form = 'token' if is_token(text) and rng.random() < 0.5 else 'quoted'
    eq = '='
    if header == 'Strict-Transport-Security':
        eq = rng.choice(['=', ' = ', '= '])
    return (name, written, written + eq + (text if form == 'token' else quote(text)), form, text, outcome)


def judge(header, pair, notices, entry):
    """-> expected argument; appends the notices due."""
    name, written, _, form, text, outcome = pair
    rule, _, preferred = TABLE[header][name]
    if text == '' and header in ('Prefer', 'Preference-Applied'):
        text, form = None, None
    if text is None:
        if rule == 'required':
            notices.append((1156, entry, name.lower()))
            return U
        return None
    if preferred == 'quoted' and form != 'quoted':
        notices.append((1154, None, name.lower()))
    if preferred == 'token' and form != 'token':
        notices.append((1155, None, name.lower()))
    if rule == 'no':
        notices.append((1157, entry, name.lower()))
        return U
    if outcome == U:
        notices.append((1158, entry, name.lower()))
        return U
    return outcome


def texts(v):
    if isinstance(v, str):
        yield v
    elif isinstance(v, (list, tuple)) and v not in (U, ANY):
        for x in v:
            yield from texts(x)


def delims(header, value, notices, entry):
    comma, semi = BAD_DELIMS.get(header, (0, 0))
    for t in texts(value):
        if comma and ',' in t:
            notices.append((1299, entry, None))
        if semi and ';' in t:
            notices.append((1300, entry, None))


def make_entry(rng, header, k):
    """-> (text, expected value or U, notices)"""
    notices = []
    if rng.random() < 0.1:
        return MALFORMED[header], U, [(1000, k, None)]
    n = rng.choice([1, 1, 2, 2, 3])
    if header == 'Alt-Svc':
        if rng.random() < 0.1:
            return 'clear', 'clear', []
        alts, value = [], []
        for i in range(rng.choice([1, 1, 2])):
            auth = '%s:44%d' % (rng.choice(['', 'alt.example.com']), i)
            proto = rng.choice(['h2', 'h3', 'http%2F1.1'])
            text = '%s="%s"' % (proto, auth)
            params, seen = [], set()
            for _ in range(rng.choice([0, 1, 2])):
                p = pick_pair(rng, header)
                if p[0] in seen:
                    continue
                seen.add(p[0])
                text += rng.choice(['; ', ';']) + p[2]
                params.append((p[1], judge(header, p, notices, k)))
            alts.append(text)
            value.append((ANY, params))
        return ', '.join(alts), value, notices
    if header == 'Forwarded':
        elems, value = [], []
        for _ in range(n):
            pairs = [pick_pair(rng, header) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            elems.append(';'.join(p[2] for p in pairs))
            value.append([(p[1], judge(header, p, notices, k)) for p in pairs])
        for e in value:
            names = [nm.lower() for nm, _ in e]
            for nm in sorted(set(names)):
                if names.count(nm) > 1:
                    notices.append((1296, k, nm))
        firsts = [e[0][0].lower() for e in value]
        if len(value) > 1 and all(len(e) == 1 for e in value) and len(set(firsts)) == len(firsts):
            notices.append((1297, k, len(value)))
        delims(header, value, notices, k)
        return ', '.join(elems), value, notices
    pairs = [pick_pair(rng, header) for _ in range(n)]
    if header == 'Prefer':
        value, out = [], []
        for p in pairs:
            text, params = p[2], []
            for _ in range(rng.choice([0, 0, 1])):
                nm, t = rng.choice(['x', 'y']), rng.choice(['1', 'a,b', ''])
                form = rng.random() < 0.5 and is_token(t)
                text += rng.choice(['; ', ' ;']) + nm + '=' + (t if form else quote(t))
                params.append((nm, t or None))
            out.append(text)
            value.append(((p[1], judge(header, p, notices, k)), params))
        delims(header, value, notices, k)
        return ', '.join(out), value, notices
    sep = '; ' if header == 'Strict-Transport-Security' else rng.choice([', ', ',', ' , ', ',, '])
    value = [(p[1], judge(header, p, notices, k)) for p in pairs]
    delims(header, value, notices, k)
    return sep.join(p[2] for p in pairs), value, notices


def agree(want, got):
    """Does the value of the implementation match the expected tree?"""
    from httpolice.structure import MultiDict, Unavailable
    if want == U:
        return isinstance(got, Unavailable)
    if isinstance(got, Unavailable):
        return False
    if want == ANY:
        return got is not None
    if isinstance(got, MultiDict):
        got = got.sequence
    if isinstance(want, list):
        return isinstance(got, list) and len(want) == len(got) and all(agree(a, b) for a, b in zip(want, got))
    if isinstance(want, tuple):
        return isinstance(got, tuple) and len(want) == len(got) and all(agree(a, b) for a, b in zip(want, got))
    if want is None or got is None:
        return want is got
    if isinstance(want, str):
        return isinstance(got, str) and str(got) == want
    return type(got) is type(want) and got == want


def scenario(rng):
    header = rng.choice(sorted(TABLE))
    return header, [make_entry(rng, header, k) for k in range(rng.choice([1, 1, 1, 2, 3]))]


def check_one(header, entries, in_response, repeat):
    """-> None or what differs"""
    from httpolice import request, response
    from httpolice.header import DirectivesView
    from httpolice.structure import Unavailable
    hs = [(header if k % 2 == 0 else header.lower(), t.encode('iso-8859-1')) for k, (t, _, _) in enumerate(entries)]
    msg = response.Response(u'HTTP/1.1', 200, u'OK', hs, b'') if in_response else request.Request(u'http', u'GET', u'/', u'HTTP/1.1', hs, b'')
    view = getattr(msg.headers, header.lower().replace('-', '_'))
    value = view.value
    notices = {(1013, None, None)} if False else set()
    for k, (_, _, ns) in enumerate(entries):
        for (nid, kk, x) in ns:
            # identical header lines have identical entries, so their notices coincide
            notices.add((nid, entries[kk][0] if kk is not None else None, x))
    if header == 'Strict-Transport-Security':
        want = entries[-1][1]
        if len(entries) > 1:
            notices.add((1013, None, None))
    else:
        singular = [v for _, v, _ in entries if v == 'clear']
        if singular and len(entries) > 1:
            want = [U]
            notices.add((1013, None, None))
        elif singular:
            want = 'clear'
        else:
            want = []
            for _, v, _ in entries:
                want += [U] if v == U else v
    if not agree(want, value):
        return 'value is %r, expected %r' % (value, want)
    got = set()
    for c in msg.complaints:
        if c.notice.id not in (1000, 1013, 1154, 1155, 1156, 1157, 1158, 1296, 1297, 1299, 1300):
            continue
        ctx = dict(c.context)
        e = ctx.get('entry') or ctx.get('place')
        x = ctx.get('name') or ctx.get('directive') or ctx.get('param')
        x = ctx['n_elements'] if 'n_elements' in ctx else (x.lower() if x is not None else None)
        if c.notice.id in (1013,):
            got.add((1013, None, None))
            continue
        got.add((c.notice.id, e.value.decode('iso-8859-1') if e is not None else None, x))
    if got != notices:
        return 'notices: missing %r, unexpected %r' % (sorted(notices - got, key=str), sorted(got - notices, key=str))
    if isinstance(view, DirectivesView) and isinstance(want, list):
        flat = []
        for v in want:
            if v == U:
                continue
            flat.append(v[0] if header == 'Prefer' else v)
        for name in sorted(TABLE[header]):
            exp = None
            for nm, arg in flat:
                if nm.lower() == name.lower():
                    exp = True if arg is None else arg
                    break
            key = view.knowledge.cls(name)
            for how, r in (('[%r]' % name, view[key]), ('[%r]' % name.upper(), view[view.knowledge.cls(name.upper())])):
                if not (r is True if exp is True else agree(exp, r)):
                    return 'looking up %s%s gives %r, expected %r' % (header, how, r, exp)
            if key in view.knowledge:
                r = getattr(view, name.lower().replace('-', '_') + ('_' if name == 'return' else '')) if name.lower() != 'includesubdomains' else view.includesubdomains
                if not (r is True if exp is True else agree(exp, r)):
                    return 'attribute %s of %s gives %r, expected %r' % (name, header, r, exp)
    if repeat:
        return check_one(header, entries, not in_response, False)
    return None


def job(args):
    seed, n = args
    rng = random.Random(seed)
    done = []
    for i in range(n):
        header, entries = rng.choice(done) if done and rng.random() < 0.2 else scenario(rng)
        done.append((header, entries))
        in_resp = rng.random() < 0.5
        try:
            r = check_one(header, entries, in_resp, rng.random() < 0.3)
        except Exception as e:
            r = 'raises %r' % e
        if r:
            return i + 1, (header, entries, in_resp, r)
    return n, None


DELIMS = [
    ('Accept', 'text/html;x="a,b"', 1, 0), ('Accept', 'text/html;x="a;b"', 0, 1), ('Accept', 'text/html;x="a,;b", */*', 1, 1),
    ('Accept', 'text/html;x="ab"', 0, 0), ('Accept-Post', 'text/html;x="a,b"', 1, 0), ('Accept-Patch', 'text/html;x="a;b"', 0, 1),
    ('Content-Type', 'text/plain;x="a;b"', 0, 1), ('Content-Type', 'text/plain;x="a,b"', 0, 0), ('Content-Type', 'text/plain; x=a', 0, 0),
    ('Link', '</x>; rel=next; title="a, b"', 1, 0), ('Link', '</x>; rel=next; title="a;b"', 0, 1), ('Link', '</x>; rel=next', 0, 0),
    ('TE', 'foo;x="a;b"', 0, 1), ('Transfer-Encoding', 'foo;x="a,b"', 1, 0), ('Transfer-Encoding', 'foo;x="a;b"', 0, 1),
    ('Via', '1.1 foo (a, b)', 1, 0), ('Via', '1.1 foo (a; b)', 0, 0), ('Warning', '199 - "a, b"', 1, 0), ('Warning', '199 - "a; b"', 0, 0),
    ('WWW-Authenticate', 'Basic realm="a, b; c"', 0, 0), ('Content-Disposition', 'attachment; filename="a;b,c"', 0, 0),
    ('Expect', 'foo="a,b"', 0, 0), ('Accept-Language', 'en, de', 0, 0), ('Cache-Control', 'foo="a,b;c"', 0, 0)]


def delim_cases(chk):
    """1299 and 1300 on headers whose values nest in other ways."""
    from httpolice import request
    for header, text, comma, semi in DELIMS:
        req = request.Request(u'http', u'GET', u'/', u'HTTP/1.1', [(header, text.encode())], b'')
        req.headers[[n for n in req.headers.names][0]].value
        got = [c.notice.id for c in req.complaints]
        chk.bound('quoted delimiters in other headers', 1, '%d listed cases' % len(DELIMS))
        if (1299 in got) is not bool(comma) or (1300 in got) is not bool(semi):
            chk.violation('delims', '%s: %s gives notices %r' % (header, text, got), {'header': header, 'value': text})


def delim_values(chk):
    """The same on values built from known parts, in every header where a delimiter in a quoted string is reported."""
    from contracts import valuegen
    names = sorted(valuegen.COMMA | valuegen.SEMICOLON)
    n = 12000 if chk.thorough else 1200
    for k, bad in core.parallel(valuegen.job, [(chk.seed * 977 + i, n, i % 2 == 0, names) for i in range(8)]):
        chk.bound('values with quoted delimiters', k, 'random values of %d headers built from known parts' % len(names))
        if bad:
            name, data, want, notes, what = bad
            chk.violation('delims:%s' % name, '%s: %s: %s' % (name, data.decode('iso-8859-1'), what),
                          {'header': name, 'value': data.decode('iso-8859-1'), 'difference': what})


def bounded(chk):
    chk.part('quoted delimiters', delim_cases, chk)
    chk.part('values with delimiters', delim_values, chk)
    n = 20000 if chk.thorough else 1500
    for k, bad in core.parallel(job, [(chk.seed * 1000 + i, n) for i in range(8)]):
        chk.bound('headers rendered from their abstract structure', k, 'random; up to 3 entries of up to 3 elements; %d per process' % n)
        if bad:
            header, entries, in_resp, what = bad
            chk.violation('directive:%s' % header, '%s %s: %s' % (header, [e[0] for e in entries], what),
                          {'header': header, 'values': [e[0] for e in entries], 'in_response': in_resp, 'difference': what})


def tables(chk):
    from props import rules
    rules.tables(chk)


def run(chk):
    chk.trusted += ['pyvc (generator of obligations)', 'z3', 'contracts of parse() (decided by C05, C06)']
    chk.part('contracts', relcheck.run, chk, relcheck.names_of('C08'))
    chk.part('tables', tables, chk)
    chk.part('bounded', bounded, chk)
