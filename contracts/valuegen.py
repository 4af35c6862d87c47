"""Header values built from known parts: (octets, the value a reader must get, the notices of the value itself).

Nothing is parsed here: each generator chooses the parts, then writes them down in one of the ways the header's
specification allows, so what the parts are and which notices apply is known by construction.
"""
import datetime
import random

from contracts import core

TCHAR = "!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
OWN = {1014, 1015, 1017, 1107, 1108, 1119, 1133, 1148, 1151, 1196, 1222, 1223, 1225, 1226, 1253, 1254, 1256, 1257, 1282, 1307, 1308, 1309}
DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
LONG_DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
GONE = ('unavailable',)
ANY = ('anything',)


class CI(str):
    """Text that must compare case-insensitively."""


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.notes = set()

    def p(self, x):
        return self.r.random() < x

    def pick(self, *xs):
        return self.r.choice(xs)

    # -- the lexical level

    def token(self, exclude=(), chars=TCHAR):
        while True:
            if self.p(.5):
                t = self.pick('a', 'b', 'foo', 'X-Bar', 'q', 'rel', 'filename', 'trailers', 'gzip', 'bytes', 'no-cache', 'realm', 'f', 'gzi', 'gzipp', 'Q', '1', '0', 'W')
            else:
                t = ''.join(self.r.choice(chars) for _ in range(self.pick(1, 1, 2, 3, 8)))
            if t.lower() not in exclude and all(c in chars for c in t):
                return t

    def ows(self):
        return self.pick('', '', '', ' ', '\t', '  ', ' \t')

    def bws(self, p=.15):
        if self.p(p):
            self.notes.add(1015)
            return self.pick(' ', '\t', '  ')
        return ''

    def rws(self):
        if self.p(.2):
            self.notes.add(1014)
            return self.pick('\t', '  ', ' \t', '   ')
        return ' '

    def text(self):
        return ''.join(self.r.choice(' \tabc019"\\(),;=/\xe9\x80%') for _ in range(self.pick(0, 1, 2, 4, 9)))

    def quoted(self, text):
        out = '"'
        for c in text:
            if c in '"\\':
                out += '\\' + c
            elif self.p(.06):
                self.notes.add(1017)
                out += '\\' + c
            else:
                out += c
        return out + '"'

    def value(self, t=None):
        """A token or quoted-string: (written, value)"""
        if t is None:
            t = self.token() if self.p(.6) else self.text()
        if t and all(c in TCHAR for c in t) and self.p(.6):
            return t, t
        return self.quoted(t), t

    def comment(self, depth=0):
        """-> (written, value), both without the outer parentheses"""
        w = v = ''
        for _ in range(self.pick(0, 1, 2, 3)):
            x = self.r.random()
            if x < .2 and depth < 3:
                a, b = self.comment(depth + 1)
                w, v = w + '(' + a + ')', v + '(' + b + ')'
            elif x < .35:
                c = self.r.choice('()\\')
                w, v = w + '\\' + c, v + c
            elif x < .42:
                c = self.r.choice('a" \xe9')
                self.notes.add(1017)
                w, v = w + '\\' + c, v + c
            else:
                t = ''.join(self.r.choice(' \tabc019",;=/\xe9\x80%') for _ in range(self.pick(1, 3)))
                w, v = w + t, v + t
        return w, v

    def elements(self, element, least=0, most=4):
        """A comma-separated list: (written, values)"""
        n = self.r.randint(least, most)
        slots = [True] * n
        if self.p(.2):
            for _ in range(self.pick(1, 2)):
                slots.insert(self.r.randint(0, len(slots)), False)
        if not slots:
            return '', []
        if len(slots) > 1 and False in slots:
            self.notes.add(1151)
        out, vals = '', []
        for i, s in enumerate(slots):
            if i:
                out += self.ows() + ',' + self.ows()
            if s:
                w, v = element()
                out += w
                vals.append(v)
        return out.strip(' \t'), vals

    def params(self, param, n=None):
        out, vals = '', []
        for _ in range(self.pick(0, 0, 1, 1, 2, 3) if n is None else n):
            w, v = param()
            out += self.ows() + ';' + self.ows() + w
            vals.append(v)
        return out, vals

    # -- what several headers share

    def number(self):
        n = self.pick(0, 1, 5, 10, 60, 86400, 10 ** 12)
        return ('0' * self.pick(0, 0, 0, 1, 3)) + str(n), n

    def date(self):
        kind = self.pick('imf', 'imf', 'imf', '850', 'asc')
        d, m, y = self.pick(0, 1, 6, 13, 28, 29, 30, 31, 32, 99), self.r.randint(1, 12), self.pick(1994, 2014, 2015, 2016, 2000, 1900, 0, 1, 9999, 2026)
        h, mi, s = self.pick(0, 8, 23, 10, 24, 99), self.pick(0, 59, 30, 60), self.pick(0, 59, 37, 61, 99)
        if self.p(.5):
            d, h, mi, s = min(max(d, 1), 28), min(h, 23), min(mi, 59), min(s, 59)
        if kind == '850':
            two = self.pick(94, 14, 15, 16, 0, 30, 99, 70)
            now = datetime.date.today()
            y = now.year // 100 * 100 + two
            if (y, m, d) > (now.year + 50, now.month, now.day):
                y -= 100
            self.notes.add(1107)
        elif kind == 'asc':
            self.notes.add(1107)
        day = clock = None
        try:
            day = datetime.date(y, m, d)
        except ValueError:
            self.notes.add(1222)
        try:
            clock = datetime.time(h, mi, s)
        except ValueError:
            self.notes.add(1223)
        real = day.weekday() if day else 0
        dow = real if self.p(.7) else self.r.randrange(7)
        v = GONE
        if day is not None and clock is not None:
            v = datetime.datetime.combine(day, clock)
            if dow != real:
                self.notes.add(1108)
        t = '%02d:%02d:%02d' % (h, mi, s)
        if kind == 'imf':
            return '%s, %02d %s %04d %s GMT' % (DAYS[dow], d, MONTHS[m - 1], y, t), v
        if kind == '850':
            return '%s, %02d-%s-%02d %s GMT' % (LONG_DAYS[dow], d, MONTHS[m - 1], y % 100, t), v
        dd = ' %d' % d if d < 10 and self.p(.7) else '%02d' % d
        return '%s %s %s %s %04d' % (DAYS[dow], MONTHS[m - 1], dd, t, y), v

    def etag(self):
        t = '"' + ''.join(self.r.choice("abc!#/'~\xe9\xff[]") for _ in range(self.pick(0, 1, 3))) + '"'
        if self.p(.15):
            t = t[:-1] + '\\"'
            self.notes.add(1119)
        weak = self.p(.4)
        return ('W/' if weak else '') + t, (weak, t)

    def rank(self):
        return self.pick(('0', 0.0), ('1', 1.0), ('0.5', .5), ('0.', 0.0), ('1.', 1.0), ('1.000', 1.0), ('0.001', .001), ('0.999', .999), ('0.85', .85), ('1.0', 1.0))

    def weight(self):
        w, v = self.rank()
        return self.ows() + ';' + self.ows() + self.pick('q=', 'q=', 'Q=') + w, v

    def media(self):
        if self.p(.12):
            t = self.pick('application/text', 'plain/text', 'text/json', 'Text/JSON', 'PLAIN/text')
            self.notes.add(1282)
        else:
            t = self.pick('text/plain', 'text/html', 'application/json', 'TEXT/Html', 'image/svg+xml', 'application/x', 'text/jsonx', 'a/b')
        return t, CI(t)

    def param(self, exclude=(), ci=True):
        n = self.token(exclude)
        w, v = self.value()
        return n + '=' + w, (CI(n) if ci else n, v)

    def media_type(self):
        w, v = self.media()
        pw, pv = self.params(self.param)
        return w + pw, (v, {'multi': pv})

    def media_range(self, no_q):
        w, v = self.pick(lambda: ('*/*', '*/*'), lambda: ('text/*', 'text/*'), self.media, self.media)()
        pw, pv = self.params(lambda: self.param(('q',) if no_q else ()))
        return w + pw, (v, {'multi': pv})

    def language(self):
        t = self.pick('en', 'en-US', 'de-CH-1996', 'x-foo', 'zh-Hant-TW', 'i-klingon', 'sl-rozaj-biske', 'a-b')[0:]
        if t == 'a-b':
            t = 'fr'
        return t, CI(t)

    def authority(self):
        t = self.pick('example.com', 'example.com:80', '[::1]:443', '127.0.0.1', 'a:', 'a')
        return t, t

    def uri(self):
        t = self.pick('/', '/foo', 'http://example.com/', 'http://a/b?c#d', 'foo', '?x', '#y', '//h/p', 'urn:a:b', '')
        return t, t

    # -- the headers

    def accept(self):
        def one():
            w, v = self.media_range(True)
            if self.p(.5):
                q, qv = self.weight()
                exts = []
                for _ in range(self.pick(0, 0, 1, 2)):
                    n = self.token()
                    q += self.ows() + ';' + self.ows() + n
                    if self.p(.6):
                        x, xv = self.value()
                        q += '=' + x
                    else:
                        xv = None
                    exts.append((n, xv))
                return w + q, (v, {'multi': [(CI('q'), qv)] + exts})
            return w, (v, {'multi': []})
        return self.elements(one)

    def weighted(self, item):
        def one():
            w, v = item()
            if self.p(.5):
                q, qv = self.weight()
                return w + q, (v, qv)
            return w, (v, None)
        return one

    def coding(self, exclude=()):
        if self.p(.5):
            t = self.pick('gzip', 'chunked', 'deflate', 'compress', 'GZIP', 'Chunked')
            return t, (CI(t), {'multi': []})
        t = self.token(['gzip', 'chunked', 'deflate', 'compress'] + list(exclude))

        def param():
            n = self.token(['q'] if exclude else [])
            w, v = self.value()
            return n + self.bws() + '=' + self.bws() + w, (n, v)
        pw, pv = self.params(param)
        return t + pw, (CI(t), {'multi': pv})

    def te(self):
        if self.p(.25):
            t = self.pick('trailers', 'Trailers')
            return t, CI(t)
        w, v = self.coding(['trailers'])
        if self.p(.4):
            q, qv = self.weight()
            return w + q, (v, qv)
        return w, (v, None)

    def versioned(self):
        n = self.token(chars=TCHAR)
        if self.p(.5):
            v = self.token()
            return n + '/' + v, (n, v)
        return n, (n, None)

    def products(self):
        w, v = self.versioned()
        out, vals = w, [v]
        for _ in range(self.pick(0, 0, 1, 2, 3)):
            out += self.rws()
            if self.p(.5):
                w, v = self.versioned()
            else:
                w, v = self.comment()
                w = '(' + w + ')'
            out += w
            vals.append(v)
        return out, vals

    def via(self):
        ver = self.token()
        if self.p(.4):
            n = self.token()
            w, v = n + '/' + ver, (n, ver)
        else:
            w, v = ver, ('HTTP', ver)
        w += self.rws()
        b = self.pick('example.com', 'example.com:80', 'fred', '[::1]', 'a_b', 'p.example.net')
        w += b
        c = None
        if self.p(.4):
            w += self.rws()
            cw, c = self.comment()
            w += '(' + cw + ')'
        return w, (v, b, c)

    def byte_range(self):
        x = self.r.random()
        aw, a = self.number()
        if x < .3:
            return '-' + aw, (None, a)
        if x < .5:
            return aw + '-', (a, None)
        bw, b = self.number()
        if b < a:
            self.notes.add(1133)
        return aw + '-' + bw, (a, b)

    def range(self):
        if self.p(.2):
            u, s = self.token(('bytes',)), self.pick('1-2', 'x', 'a,b', '"')
            return u + '=' + s, (CI(u), s)
        u = self.pick('bytes', 'bytes', 'Bytes')
        w, v = self.elements(self.byte_range, 1)
        return u + '=' + w, (CI(u), v)

    def content_range(self):
        if self.p(.15):
            u, s = self.token(('bytes',)), self.pick('1-2', 'x', 'a b', '1-2/3')
            return u + ' ' + s, (CI(u), s)
        u = self.pick('bytes', 'bytes', 'BYTES')
        nw, n = self.number()
        if self.p(.2):
            return u + ' */' + nw, (CI(u), (None, n))
        aw, a = self.number()
        bw, b = self.number()
        if self.p(.3):
            nw, n = '*', None
        if self.p(.15) and n is not None:
            bw, b = str(n), n
        if self.p(.1):
            bw, b = aw, a
        if b < a or (n is not None and n <= b):
            self.notes.add(1148)
        return '%s %s-%s/%s' % (u, aw, bw, nw), (CI(u), ((a, b), n))

    def pragma(self):
        if self.p(.4):
            t = self.pick('no-cache', 'No-Cache')
            return t, CI(t)
        n = self.token(('no-cache',))
        if self.p(.5):
            w, v = self.value()
            return n + '=' + w, (n, v)
        return n, (n, None)

    def warning(self):
        code = self.pick(110, 111, 199, 299, 214, 0, 999)
        agent = self.pick('example.com', 'example.com:80', '-', 'fred')
        t = self.text()
        tw = self.quoted(t)
        w, d = '%03d %s %s' % (code, agent, tw), None
        if self.p(.4):
            dw, d = self.date()
            w += ' "' + dw + '"'
        return w, (code, agent, t, d)

    def auth(self):
        scheme = self.pick('Basic', 'Bearer', 'Digest', 'foo', 'BASIC')
        x = self.r.random()
        if x < .2:
            return scheme, (CI(scheme), {'multi': []})
        if x < .4:
            t = self.pick('QWxhZGRpbjpvcGVuIHNlc2FtZQ==', 'abc', 'a.b-c_d~e+f/g', 'mF_9.B5f-4.1JqM')
            return scheme + self.pick(' ', '  ') + t, (CI(scheme), t)
        ps, vals = [], []
        for _ in range(self.pick(1, 1, 2, 3)):
            n = self.pick('realm', 'Realm', 'a', 'nonce', 'realmx', 'charset')
            w, v = self.value()
            if n.lower() == 'realm' and not w.startswith('"'):
                self.notes.add(1196)
            ps.append(n + self.bws(.08) + '=' + self.bws(.08) + w)
            vals.append((CI(n), v))
        return scheme + ' ' + ', '.join(ps), (CI(scheme), {'multi': vals})

    def ext_value(self):
        cs = self.pick('UTF-8', 'utf-8', 'iso-8859-1', 'US-ASCII')
        lang = self.pick('', 'en', 'de-CH')
        data = self.pick(b'', b'abc', b'\xc3\xa9', b'\xff', b'a b', b'%41', b'\xe2\x82\xac rates', b'\xc3')
        w = ''
        for c in data:
            if chr(c) in 'abcdefghijklmnopqrstuvwxyz0123456789' and self.p(.8):
                w += chr(c)
            else:
                w += self.pick('%%%02X', '%%%02x') % c
        if cs.lower() == 'utf-8':
            try:
                data.decode('utf-8')
            except UnicodeDecodeError:
                self.notes.add(1254)
        else:
            self.notes.add(1253)
        return "%s'%s'%s" % (cs, lang, w), (CI(cs), CI(lang) if lang else None, data)

    def disposition(self):
        t = self.pick('attachment', 'inline', 'Foo')

        def param():
            x = self.r.random()
            if x < .3:
                n = self.pick('filename', 'Filename')
                w, v = self.value()
            elif x < .6:
                n = self.pick('filename*', 'FILENAME*')
                w, v = self.ext_value()
            else:
                n = self.token(('filename', 'filename*'))
                w, v = self.value()
            return n + self.ows() + '=' + self.ows() + w, (CI(n), v)
        pw, pv = self.params(param)
        return t + pw, (CI(t), {'multi': pv})

    def relation(self):
        t = self.pick('next', 'prev', 'x.y-z', 'a1', 'http://example.com/rel', 'urn:x')
        return t, (t if ':' in t else CI(t))

    def link(self):
        u, uv = self.uri()
        if uv == '' and self.p(.5):
            u, uv = '/x', '/x'
        seen, vals = set(), []

        def param():
            n = self.pick('rel', 'rel', 'rel', 'Rel', 'title', 'title', 'title*', 'hreflang', 'type', 'media', 'rev', 'anchor', 'foo', 'x')
            k = n.lower()
            shown, have = n, True
            if self.p(.05):
                have = False
                w, v = None, None
            elif k in ('rel', 'rev'):
                if self.p(.5):
                    w, v1 = self.relation()
                    v = [v1]
                    if not all(c in TCHAR for c in w) or self.p(.4):
                        w = '"' + w + '"'
                else:
                    parts = [self.relation() for _ in range(2)]
                    w, v = '"' + parts[0][0] + self.pick(' ', '  ') + parts[1][0] + '"', [x[1] for x in parts]
            elif k == 'hreflang':
                w, v = self.language()
                if self.p(.4):
                    w = '"' + w + '"'
            elif k == 'type':
                w, v = self.media() if k not in seen else self.pick(('text/plain', CI('text/plain')))
                w = '"' + w + '"'
            elif k == 'anchor':
                w, v = self.uri()
                w = '"' + w + '"'
            elif k == 'title*':
                w, v = self.pick(("UTF-8'en'a%20b", (CI('UTF-8'), CI('en'), b'a b')), ("utf-8''%c3%a9", (CI('utf-8'), None, b'\xc3\xa9')))
            else:
                w, v = self.value()
            first = k not in seen
            if k in ('rel', 'title', 'title*', 'type', 'media'):
                if not first:
                    self.notes.add(1225)
            seen.add(k)
            if have:
                shown += self.bws(.08) + '=' + self.bws(.08) + w
            if first or k not in ('rel', 'title', 'title*', 'type', 'media'):
                if k == 'title' and have and not w.startswith('"'):
                    self.notes.add(1307)
                if k == 'hreflang' and have and w.startswith('"'):
                    self.notes.add(1308)
                if k == 'rev':
                    self.notes.add(1226)
                if not have and k in ('rel', 'rev', 'hreflang', 'type', 'title*'):
                    self.notes.add(1158)
                    v = GONE
                elif not have and k == 'anchor':
                    v = ''
                vals.append((CI(n), v))
            return shown, None
        pw, _ = self.params(param, self.pick(0, 1, 1, 2, 3, 4))
        if 'rel' not in seen:
            self.notes.add(1309)
        return '<' + u + '>' + pw, (uv, {'multi': vals})

    def alt_svc(self):
        if self.p(.4):
            proto = self.pick(b'h2', b'h3-29', b'w=x:y#z', b'x%y', b'\xff', b'http/1.1', b'a')
            wrong = False
            out = ''
            for c in proto:
                must = chr(c) not in TCHAR or chr(c) == '%'
                if must or self.p(.05):
                    if not must:
                        wrong = True
                    lower = self.p(.1)
                    e = '%%%02x' % c if lower else '%%%02X' % c
                    wrong = wrong or e != '%%%02X' % c
                    out += e
                else:
                    out += chr(c)
            if wrong:
                self.notes.add(1256)
        else:
            out, proto = self.pick(('h2', b'h2'), ('h2c', b'h2c'), ('quic', b'quic'))
        a = self.pick(':443', 'example.com:443', '[::1]:80', ':', '1.2.3.4:5', 'example.com', 'a b:1', '', ':x')
        v = a
        if a in ('example.com', 'a b:1', '', ':x'):
            self.notes.add(1257)
            v = GONE
        w = out + '=' + self.quoted(a)
        return w, ((proto, v), {'multi': []})

    def plain_token(self, ci=False):
        def one():
            t = self.token()
            return t, CI(t) if ci else t
        return one


def listed(element, least):
    return lambda g: g.elements(lambda: element(g), least)


HEADERS = {
    'Accept': lambda g: g.accept(),
    'Accept-Charset': lambda g: g.elements(g.weighted(lambda: g.pick(('utf-8', CI('utf-8')), ('*', CI('*')), ('UTF-8', CI('UTF-8')), ('x', CI('x')))), 1),
    'Accept-Encoding': lambda g: g.elements(g.weighted(lambda: g.pick(('gzip', CI('gzip')), ('*', ANY), ('identity', CI('identity')), ('BR', CI('BR')), ('foo', CI('foo'))))),
    'Accept-Language': lambda g: g.elements(g.weighted(lambda: g.pick(('en', CI('en')), ('*', CI('*')), ('en-US', CI('en-US')), ('zh-Hant', CI('zh-Hant')))), 1),
    'Accept-Patch': listed(lambda g: g.media_type(), 1),
    'Accept-Post': listed(lambda g: g.media_range(False), 0),
    'Accept-Ranges': listed(lambda g: g.pick(('bytes', CI('bytes')), ('Bytes', CI('Bytes')), ('foo', CI('foo'))), 1),
    'Age': lambda g: g.number(),
    'Allow': listed(lambda g: g.plain_token()(), 0),
    'Authorization': lambda g: g.auth(),
    'Proxy-Authorization': lambda g: g.auth(),
    'WWW-Authenticate': listed(lambda g: g.auth(), 1),
    'Proxy-Authenticate': listed(lambda g: g.auth(), 1),
    'Connection': listed(lambda g: g.plain_token(True)(), 1),
    'Content-Disposition': lambda g: g.disposition(),
    'Content-Encoding': listed(lambda g: g.plain_token(True)(), 1),
    'Content-Language': listed(lambda g: g.language(), 1),
    'Content-Length': lambda g: g.number(),
    'Content-Range': lambda g: g.content_range(),
    'Content-Type': lambda g: g.media_type(),
    'Date': lambda g: g.date(),
    'ETag': lambda g: g.etag(),
    'Expect': lambda g: g.pick(('100-continue', CI('100-continue')), ('100-Continue', CI('100-Continue'))),
    'Expires': lambda g: g.date(),
    'If-Match': listed(lambda g: g.etag(), 1),
    'If-None-Match': listed(lambda g: g.etag(), 1),
    'If-Modified-Since': lambda g: g.date(),
    'If-Unmodified-Since': lambda g: g.date(),
    'If-Range': lambda g: g.etag() if g.p(.5) else g.date(),
    'Last-Modified': lambda g: g.date(),
    'Link': listed(lambda g: g.link(), 0),
    'Max-Forwards': lambda g: g.number(),
    'Pragma': listed(lambda g: g.pragma(), 1),
    'Range': lambda g: g.range(),
    'Retry-After': lambda g: g.number() if g.p(.4) else g.date(),
    'Server': lambda g: g.products(),
    'User-Agent': lambda g: g.products(),
    'TE': listed(lambda g: g.te(), 0),
    'Trailer': listed(lambda g: g.plain_token(True)(), 1),
    'Transfer-Encoding': listed(lambda g: g.coding(), 1),
    'Upgrade': listed(lambda g: g.versioned(), 1),
    'Vary': listed(lambda g: g.pick(('Accept', CI('Accept')), ('x-foo', CI('x-foo'))), 1),
    'Via': listed(lambda g: g.via(), 1),
    'Warning': listed(lambda g: g.warning(), 1),
    'Alt-Svc': listed(lambda g: g.alt_svc(), 1),
}
LISTS = {'Accept', 'Accept-Charset', 'Accept-Encoding', 'Accept-Language', 'Accept-Patch', 'Accept-Post', 'Accept-Ranges', 'Allow', 'WWW-Authenticate', 'Proxy-Authenticate',
         'Connection', 'Content-Encoding', 'Content-Language', 'If-Match', 'If-None-Match', 'Link', 'Pragma', 'TE', 'Trailer', 'Transfer-Encoding', 'Upgrade', 'Vary', 'Via',
         'Warning', 'Alt-Svc'}
REQUEST = {'Accept', 'Accept-Charset', 'Accept-Encoding', 'Accept-Language', 'Authorization', 'Proxy-Authorization', 'Expect', 'If-Match', 'If-None-Match', 'If-Modified-Since',
           'If-Unmodified-Since', 'If-Range', 'Max-Forwards', 'Range', 'User-Agent', 'TE'}
RESPONSE = {'Accept-Patch', 'Accept-Post', 'Accept-Ranges', 'Age', 'Allow', 'WWW-Authenticate', 'Proxy-Authenticate', 'ETag', 'Last-Modified', 'Retry-After', 'Server', 'Vary', 'Alt-Svc',
            'Expires', 'Content-Range'}


def make(rng, name):
    """-> (octets, expected value, expected notices)"""
    while True:
        g = Gen(rng)
        w, v = HEADERS[name](g)
        if w == '' and name != 'Accept':
            continue
        try:
            data = w.encode('iso-8859-1')
        except UnicodeEncodeError:
            continue
        if data != data.strip(b' \t'):
            continue
        return data, v, g.notes


def same(want, got):
    """Whether the value read is the value written."""
    from httpolice.structure import CaseInsensitive, MultiDict, Unavailable, okay
    if want is ANY:
        return True
    if want is GONE:
        return isinstance(got, Unavailable)
    if isinstance(got, Unavailable):
        return False
    if want is None or isinstance(want, (bool, datetime.datetime, bytes)):
        return type(got) is type(want) and got == want
    if isinstance(want, float):
        return isinstance(got, float) and got == want
    if isinstance(want, int):
        return isinstance(got, int) and not isinstance(got, bool) and int(got) == want
    if isinstance(want, str):
        return isinstance(got, str) and str.__eq__(got, want) is True and isinstance(got, CaseInsensitive) is isinstance(want, CI)
    if isinstance(want, dict):
        return isinstance(got, MultiDict) and same(want['multi'], [tuple(x) for x in got.sequence])
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(same(a, b) for a, b in zip(want, got))
    if isinstance(want, tuple):
        return isinstance(got, tuple) and len(got) == len(want) and all(same(a, b) for a, b in zip(want, got))
    return False


BOTH = {'Accept', 'Accept-Patch', 'Accept-Post', 'Forwarded', 'Link', 'Prefer', 'TE', 'Transfer-Encoding'}
COMMA = BOTH | {'Preference-Applied', 'Via', 'Warning'}           # where a quoted comma is reported (1299)
SEMICOLON = BOTH | {'Content-Type', 'Strict-Transport-Security'}  # where a quoted semicolon is reported (1300)


def texts(v):
    """All the texts in a value; None stands for a part whose text is not known."""
    if v is ANY or v is GONE:
        yield None
    elif isinstance(v, str):
        yield v
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from texts(x)
    elif isinstance(v, dict):
        yield from texts(v['multi'])


def delims(name, v):
    """-> the set of notices about quoted delimiters, or None when not known"""
    ts = list(texts(v))
    if None in ts:
        return None
    return {i for i, where, c in ((1299, COMMA, ','), (1300, SEMICOLON, ';')) if name in where and any(c in t for t in ts)}


def check_one(name, data, want, notes, in_request):
    """None, or what differs, for a message with this header."""
    from httpolice import exchange, request, response, structure
    if in_request:
        m = request.Request('http', 'GET', '/', 'HTTP/1.1', [('Host', b'h'), (name, data)] if name != 'Host' else [(name, data)], b'')
        ex = exchange.Exchange(m, [])
    else:
        m = response.Response('HTTP/1.1', 200, 'OK', [(name, data)], b'')
        ex = exchange.Exchange(None, [m])
    exchange.check_exchange(ex)
    got = {c.id for c in m.notices}
    mine = OWN | {1000} | ({1158} if name == 'Link' else set())
    if got & mine != notes:
        return 'notices missing %r, unexpected %r' % (sorted(notes - got), sorted((got & mine) - notes))
    due = delims(name, want)
    if due is not None and got & {1299, 1300} != due:
        return 'notices about quoted delimiters: %r instead of %r' % (sorted(got & {1299, 1300}), sorted(due))
    v = m.headers[structure.FieldName(name)].value
    if not same(want, v):
        return 'read as %r instead of %r' % (v, want)
    return None


def job(j):
    """(seed, count, in_request[, headers]) -> (count, first difference or None)"""
    seed, n, in_request = j[:3]
    rng = random.Random(seed)
    names = [x for x in HEADERS if x not in (RESPONSE if in_request else REQUEST) and (len(j) < 4 or x in j[3])]
    for i in range(n):
        name = rng.choice(names)
        core.tick()
        data, want, notes = make(rng, name)
        try:
            bad = check_one(name, data, want, notes, in_request)
        except Exception as e:
            bad = 'raises %r' % (e,)
        if bad:
            return i + 1, (name, data, want, sorted(notes), bad)
    return n, None
