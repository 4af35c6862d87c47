"""The specification grammars, transcribed from the RFCs' ABNF (independently of httpolice/syntax), and a small ABNF reader.

Extensions to ABNF notation used by the RFCs themselves: #element, 1#element (RFC 7230 section 7 with erratum 5257),
%s"..." (RFC 7405).  One of ours: `a - b` (words of a that are not words of b).
"""
import re

from pyvc import lang

LETTER = 256

TEXT = r'''
; ---- RFC 5234
ALPHA = %x41-5A / %x61-7A
CHAR = %x01-7F
DIGIT = %x30-39
DQUOTE = %x22
HEXDIG = DIGIT / "A" / "B" / "C" / "D" / "E" / "F"
HTAB = %x09
SP = %x20
VCHAR = %x21-7E

; ---- RFC 3986, RFC 6874
URI = scheme ":" hier-part [ "?" query ] [ "#" fragment ]
hier-part = "//" authority path-abempty / path-absolute / path-rootless / path-empty
URI-reference = URI / relative-ref
absolute-URI = scheme ":" hier-part [ "?" query ]
relative-ref = relative-part [ "?" query ] [ "#" fragment ]
relative-part = "//" authority path-abempty / path-absolute / path-noscheme / path-empty
scheme = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." )
authority = [ userinfo "@" ] host [ ":" port ]
userinfo = *( unreserved / pct-encoded / sub-delims / ":" )
host = IP-literal / IPv4address / reg-name
port = *DIGIT
IP-literal = "[" ( IPv6address / IPv6addrz / IPvFuture ) "]"
ZoneID = 1*( unreserved / pct-encoded )
IPv6addrz = IPv6address "%25" ZoneID
IPvFuture = "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
IPv6address = 6( h16 ":" ) ls32 / "::" 5( h16 ":" ) ls32 / [ h16 ] "::" 4( h16 ":" ) ls32 / [ *1( h16 ":" ) h16 ] "::" 3( h16 ":" ) ls32 / [ *2( h16 ":" ) h16 ] "::" 2( h16 ":" ) ls32 / [ *3( h16 ":" ) h16 ] "::" h16 ":" ls32 / [ *4( h16 ":" ) h16 ] "::" ls32 / [ *5( h16 ":" ) h16 ] "::" h16 / [ *6( h16 ":" ) h16 ] "::"
h16 = 1*4HEXDIG
ls32 = ( h16 ":" h16 ) / IPv4address
IPv4address = dec-octet "." dec-octet "." dec-octet "." dec-octet
dec-octet = DIGIT / %x31-39 DIGIT / "1" 2DIGIT / "2" %x30-34 DIGIT / "25" %x30-35
reg-name = *( unreserved / pct-encoded / sub-delims )
path-abempty = *( "/" segment )
path-absolute = "/" [ segment-nz *( "/" segment ) ]
path-noscheme = segment-nz-nc *( "/" segment )
path-rootless = segment-nz *( "/" segment )
path-empty = ""
segment = *pchar
segment-nz = 1*pchar
segment-nz-nc = 1*( unreserved / pct-encoded / sub-delims / "@" )
pchar = unreserved / pct-encoded / sub-delims / ":" / "@"
query = *( pchar / "/" / "?" )
fragment = *( pchar / "/" / "?" )
pct-encoded = "%" HEXDIG HEXDIG
unreserved = ALPHA / DIGIT / "-" / "." / "_" / "~"
sub-delims = "!" / "$" / "&" / "'" / "(" / ")" / "*" / "+" / "," / ";" / "="

; ---- RFC 7230
OWS = *( SP / HTAB )
RWS = 1*( SP / HTAB )
BWS = OWS
token = 1*tchar
tchar = "!" / "#" / "$" / "%" / "&" / "'" / "*" / "+" / "-" / "." / "^" / "_" / "`" / "|" / "~" / DIGIT / ALPHA
quoted-string = DQUOTE *( qdtext / quoted-pair ) DQUOTE
qdtext = HTAB / SP / %x21 / %x23-5B / %x5D-7E / obs-text
obs-text = %x80-FF
quoted-pair = "\" ( HTAB / SP / VCHAR / obs-text )
comment = "(" *( ctext / quoted-pair / nested-comment ) ")"
ctext = HTAB / SP / %x21-27 / %x2A-5B / %x5D-7E / obs-text
word = token / quoted-string
method = token
field-name = token
reason-phrase = *( HTAB / SP / VCHAR / obs-text )
absolute-path = 1*( "/" segment )
partial-URI = relative-part [ "?" query ]
origin-form = absolute-path [ "?" query ]
absolute-form = absolute-URI
authority-form = authority
asterisk-form = "*"
request-target = origin-form / absolute-form / authority-form / asterisk-form
built-in-coding = "chunked" / "compress" / "deflate" / "gzip"
transfer-coding = built-in-coding / transfer-extension
transfer-extension = ( token - built-in-coding ) *( OWS ";" OWS transfer-parameter )
transfer-parameter = token BWS "=" BWS word
Transfer-Encoding = 1#transfer-coding
TE = #t-codings
t-codings = "trailers" / ( te-coding [ t-ranking ] )
te-coding = built-in-coding / ( token - built-in-coding - "trailers" ) *( OWS ";" OWS te-parameter )
te-parameter = ( token - "q" ) BWS "=" BWS word
t-ranking = OWS ";" OWS "q=" rank
rank = ( "0" [ "." *3DIGIT ] ) / ( "1" [ "." *3"0" ] )
Trailer = 1#field-name
uri-host = host
Host = uri-host [ ":" port ]
Connection = 1#token
Upgrade = 1#protocol
protocol = token [ "/" token ]
Via = 1#( received-protocol RWS received-by [ RWS comment ] )
received-protocol = [ token "/" ] token
received-by = ( uri-host [ ":" port ] ) / pseudonym
pseudonym = token
Content-Length = 1*DIGIT

; ---- RFC 7231
parameter = token "=" word
media-type = token "/" token *( OWS ";" OWS parameter )
content-coding = token
product = token [ "/" token ]
User-Agent = product *( RWS ( product / comment ) )
Server = product *( RWS ( product / comment ) )
HTTP-date = IMF-fixdate / obs-date
IMF-fixdate = day-name "," SP date1 SP time-of-day SP GMT
day-name = %s"Mon" / %s"Tue" / %s"Wed" / %s"Thu" / %s"Fri" / %s"Sat" / %s"Sun"
date1 = day SP month SP year
day = 2DIGIT
month = %s"Jan" / %s"Feb" / %s"Mar" / %s"Apr" / %s"May" / %s"Jun" / %s"Jul" / %s"Aug" / %s"Sep" / %s"Oct" / %s"Nov" / %s"Dec"
year = 4DIGIT
GMT = %s"GMT"
time-of-day = 2DIGIT ":" 2DIGIT ":" 2DIGIT
obs-date = rfc850-date / asctime-date
rfc850-date = day-name-l "," SP date2 SP time-of-day SP GMT
day-name-l = %s"Monday" / %s"Tuesday" / %s"Wednesday" / %s"Thursday" / %s"Friday" / %s"Saturday" / %s"Sunday"
date2 = day "-" month "-" 2DIGIT
asctime-date = day-name SP date3 SP time-of-day SP year
date3 = month SP ( 2DIGIT / ( SP DIGIT ) )
media-range = ( "*/*" / ( token "/" "*" ) / ( token "/" token ) ) *( OWS ";" OWS parameter )
media-range-no-q = ( "*/*" / ( token "/" "*" ) / ( token "/" token ) ) *( OWS ";" OWS ( token - "q" ) "=" word )
weight = OWS ";" OWS "q=" qvalue
qvalue = ( "0" [ "." *3DIGIT ] ) / ( "1" [ "." *3"0" ] )
accept-ext = OWS ";" OWS token [ "=" word ]
accept-params = weight *accept-ext
Accept = #( media-range-no-q [ accept-params ] )
Accept-Charset = 1#( ( token / "*" ) [ weight ] )
Accept-Encoding = #( ( content-coding / "identity" / "*" ) [ weight ] )
Accept-Language = 1#( language-range [ weight ] )
delay-seconds = 1*DIGIT
Retry-After = HTTP-date / delay-seconds
Allow = #method
Content-Encoding = 1#content-coding
Content-Language = 1#Language-Tag
Content-Location = absolute-URI / partial-URI
Content-Type = media-type
Date = HTTP-date
Location = URI-reference
Max-Forwards = 1*DIGIT
Referer = absolute-URI / partial-URI
Vary = "*" / 1#field-name
Expect = "100-continue"

; ---- RFC 4647, RFC 5646
alphanum = ALPHA / DIGIT
language-range = ( 1*8ALPHA *( "-" 1*8alphanum ) ) / "*"
Language-Tag = langtag / privateuse / grandfathered
langtag = language [ "-" script ] [ "-" region ] *( "-" variant ) *( "-" extension ) [ "-" privateuse ]
language = 2*3ALPHA [ "-" extlang ] / 4ALPHA / 5*8ALPHA
extlang = 3ALPHA *2( "-" 3ALPHA )
script = 4ALPHA
region = 2ALPHA / 3DIGIT
variant = 5*8alphanum / ( DIGIT 3alphanum )
extension = singleton 1*( "-" ( 2*8alphanum ) )
singleton = DIGIT / %x41-57 / %x59-5A / %x61-77 / %x79-7A
privateuse = "x" 1*( "-" ( 1*8alphanum ) )
grandfathered = "en-GB-oed" / "i-ami" / "i-bnn" / "i-default" / "i-enochian" / "i-hak" / "i-klingon" / "i-lux" / "i-mingo" / "i-navajo" / "i-pwn" / "i-tao" / "i-tay" / "i-tsu" / "sgn-BE-FR" / "sgn-BE-NL" / "sgn-CH-DE" / "art-lojban" / "cel-gaulish" / "no-bok" / "no-nyn" / "zh-guoyu" / "zh-hakka" / "zh-min" / "zh-min-nan" / "zh-xiang"

; ---- RFC 5789, W3C LDP
Accept-Patch = 1#media-type
Accept-Post = #media-range

; ---- RFC 7232
ETag = entity-tag
entity-tag = [ weak ] opaque-tag
weak = %s"W/"
opaque-tag = DQUOTE *etagc DQUOTE
etagc = %x21 / %x23-7E / obs-text
Last-Modified = HTTP-date
If-Match = "*" / 1#entity-tag
If-None-Match = "*" / 1#entity-tag
If-Modified-Since = HTTP-date
If-Unmodified-Since = HTTP-date

; ---- RFC 7233
bytes-unit = "bytes"
other-range-unit = token - "bytes"
range-unit = bytes-unit / other-range-unit
Accept-Ranges = 1#range-unit / "none"
byte-ranges-specifier = bytes-unit "=" byte-range-set
byte-range-set = 1#( byte-range-spec / suffix-byte-range-spec )
byte-range-spec = 1*DIGIT "-" [ 1*DIGIT ]
suffix-byte-range-spec = "-" 1*DIGIT
other-ranges-specifier = other-range-unit "=" 1*VCHAR
Range = byte-ranges-specifier / other-ranges-specifier
If-Range = entity-tag / HTTP-date
Content-Range = byte-content-range / other-content-range
byte-content-range = bytes-unit SP ( byte-range-resp / unsatisfied-range )
byte-range-resp = 1*DIGIT "-" 1*DIGIT "/" ( 1*DIGIT / "*" )
unsatisfied-range = "*/" 1*DIGIT
other-content-range = other-range-unit SP *CHAR

; ---- RFC 7234
delta-seconds = 1*DIGIT
Age = delta-seconds
Cache-Control = 1#cache-directive
cache-directive = token [ "=" word ]
field-name-list = #field-name
Expires = HTTP-date
Pragma = 1#( "no-cache" / ( token - "no-cache" ) [ "=" word ] )
Warning = 1#warning-value
warning-value = warn-code SP warn-agent SP quoted-string [ SP warn-date ]
warn-code = 3DIGIT
warn-agent = ( uri-host [ ":" port ] ) / pseudonym
warn-date = DQUOTE HTTP-date DQUOTE

; ---- RFC 7235
auth-param = token BWS "=" BWS word
challenge = token [ 1*SP ( token68 / #auth-param ) ]
token68 = 1*( ALPHA / DIGIT / "-" / "." / "_" / "~" / "+" / "/" ) *"="
WWW-Authenticate = 1#challenge
Proxy-Authenticate = 1#challenge
Authorization = challenge
Proxy-Authorization = challenge
HTTP2-Settings = token68

; ---- RFC 6266 (implied *LWS as OWS), RFC 8187
Content-Disposition = token *( OWS ";" OWS disposition-parm )
disposition-parm = "filename" OWS "=" OWS word / "filename*" OWS "=" OWS ext-value / ( token - "filename" - "filename*" ) OWS "=" OWS word
ext-value = mime-charset "'" [ Language-Tag ] "'" *( pct-encoded / attr-char )
mime-charset = 1*( ALPHA / DIGIT / "!" / "#" / "$" / "%" / "&" / "+" / "-" / "^" / "_" / "`" / "{" / "}" / "~" )
attr-char = ALPHA / DIGIT / "!" / "#" / "$" / "&" / "+" / "-" / "." / "^" / "_" / "`" / "|" / "~"

; ---- RFC 6797 (implied *LWS as OWS)
Strict-Transport-Security = [ hsts-directive ] *( OWS ";" OWS [ hsts-directive ] )
hsts-directive = token [ OWS "=" OWS word ]

; ---- RFC 7239
Forwarded = 1#forwarded-element
forwarded-element = [ forwarded-pair ] *( ";" [ forwarded-pair ] )
forwarded-pair = token "=" word
node = nodename [ ":" node-port ]
nodename = IPv4address / "[" IPv6address "]" / "unknown" / obfnode
obfnode = "_" 1*( ALPHA / DIGIT / "." / "_" / "-" )
node-port = 1*5DIGIT / "_" 1*( ALPHA / DIGIT / "." / "_" / "-" )

; ---- RFC 7240 with erratum 4439
Prefer = 1#preference
preference = preference-parameter *( OWS ";" [ OWS preference-parameter ] )
preference-parameter = parameter / token
Preference-Applied = 1#preference-parameter
return = "representation" / "minimal"
handling = "strict" / "lenient"

; ---- RFC 7838
Alt-Svc = %s"clear" / 1#alt-value
alt-value = token "=" quoted-string *( OWS ";" OWS parameter )
alt-authority = [ uri-host ] ":" port
persist = "1"
Alt-Used = uri-host [ ":" port ]

; ---- RFC 8288, RFC 6838
Link = #link-value
link-value = "<" URI-reference ">" *( OWS ";" OWS link-param )
link-param = token BWS [ "=" BWS word ]
rel = relation-type *( 1*SP relation-type )
relation-type = %x61-7A *( %x61-7A / DIGIT / "." / "-" ) / URI
link-type = restricted-name "/" restricted-name
restricted-name = ( ALPHA / DIGIT ) *126( ALPHA / DIGIT / "!" / "#" / "$" / "&" / "-" / "^" / "_" / "." / "+" )

; ---- RFC 6749, RFC 6750
scope = 1*NQCHAR *( SP 1*NQCHAR )
NQCHAR = %x21 / %x23-5B / %x5D-7E
NQSCHAR = %x20-21 / %x23-5B / %x5D-7E
oauth-error = 1*NQSCHAR

; ---- WHATWG Fetch
origin-or-null = scheme "://" host [ ":" port ] / %s"null"
Origin = origin-or-null
Access-Control-Request-Method = method
Access-Control-Request-Headers = 1#field-name
Access-Control-Allow-Origin = origin-or-null / "*"
Access-Control-Allow-Credentials = %s"true"
Access-Control-Expose-Headers = #field-name
Access-Control-Max-Age = delta-seconds
Access-Control-Allow-Methods = #method
Access-Control-Allow-Headers = #field-name
X-Content-Type-Options = "nosniff"
Cross-Origin-Resource-Policy = %s"same-origin" / %s"same-site"

; ---- documentation of HTTPolice (doc/quickstart, HTTPolice-Silence)
HTTPolice-Silence = #( 1*DIGIT [ RWS "resp" ] )
'''

HEADERS = '''Accept Accept-Charset Accept-Encoding Accept-Language Accept-Patch Accept-Post Accept-Ranges
Access-Control-Allow-Credentials Access-Control-Allow-Headers Access-Control-Allow-Methods Access-Control-Allow-Origin
Access-Control-Expose-Headers Access-Control-Max-Age Access-Control-Request-Headers Access-Control-Request-Method Age Allow
Alt-Svc Alt-Used Authorization Cache-Control Connection Content-Disposition Content-Encoding Content-Language Content-Length
Content-Location Content-Range Content-Type Cross-Origin-Resource-Policy Date ETag Expect Expires Forwarded HTTP2-Settings
HTTPolice-Silence Host If-Match If-Modified-Since If-None-Match If-Range If-Unmodified-Since Last-Modified Link Location
Max-Forwards Origin Pragma Prefer Preference-Applied Proxy-Authenticate Proxy-Authorization Range Referer Retry-After Server
Strict-Transport-Security TE Trailer Transfer-Encoding Upgrade User-Agent Vary Via WWW-Authenticate Warning
X-Content-Type-Options'''.split()

# (knowledge table, key) -> rule of its argument
ARGUMENTS = {
    ('cache_directive', 'max-age'): 'delta-seconds', ('cache_directive', 'max-stale'): 'delta-seconds',
    ('cache_directive', 'min-fresh'): 'delta-seconds', ('cache_directive', 's-maxage'): 'delta-seconds',
    ('cache_directive', 'stale-if-error'): 'delta-seconds', ('cache_directive', 'stale-while-revalidate'): 'delta-seconds',
    ('cache_directive', 'no-cache'): 'field-name-list', ('cache_directive', 'private'): 'field-name-list',
    ('hsts_directive', 'max-age'): 'delta-seconds',
    ('alt_svc_param', 'ma'): 'delta-seconds', ('alt_svc_param', 'persist'): 'persist',
    ('preference', 'handling'): 'handling', ('preference', 'return'): 'return', ('preference', 'wait'): 'delay-seconds',
    ('forwarded_param', 'by'): 'node', ('forwarded_param', 'for'): 'node', ('forwarded_param', 'host'): 'Host',
    ('forwarded_param', 'proto'): 'scheme',
}
# name of a symbol in httpolice.syntax -> rule
SYMBOLS = {
    ('rfc7230', 'method'): 'method', ('rfc7230', 'request_target'): 'request-target', ('rfc7230', 'origin_form'): 'origin-form',
    ('rfc7230', 'absolute_form'): 'absolute-form', ('rfc7230', 'authority_form'): 'authority-form',
    ('rfc7230', 'asterisk_form'): 'asterisk-form', ('rfc7230', 'field_name'): 'field-name',
    ('rfc7230', 'reason_phrase'): 'reason-phrase',
    ('rfc3986', 'absolute_URI'): 'absolute-URI', ('rfc3986', 'relative_part'): 'relative-part', ('rfc3986', 'scheme'): 'scheme',
    ('rfc6749', 'error'): 'oauth-error', ('rfc6749', 'error_description'): 'oauth-error', ('rfc6749', 'scope'): 'scope',
    ('rfc6749', 'error_uri'): 'URI-reference',
    ('rfc8288', 'anchor'): 'URI-reference', ('rfc8288', 'rel'): 'rel', ('rfc8288', 'rev'): 'rel',
    ('rfc8288', 'hreflang'): 'Language-Tag', ('rfc8288', 'type_'): 'link-type', ('rfc8187', 'ext_value'): 'ext-value',
}

_tok = re.compile(r'\s*(?:(%s"[^"]*")|("[^"]*")|(%x[0-9A-Fa-f.\-]+)|([A-Za-z][A-Za-z0-9\-]*)|(\d*[*#]\d*|\d+)|([()/\[\]\-]))')


class Grammar:
    def __init__(self, text=TEXT):
        self.rules = {}
        for line in text.split('\n'):
            line = line.strip()
            if not line or line.startswith(';'):
                continue
            name, _, body = line.partition(' = ')
            assert name not in self.rules, name
            self.rules[name] = body
        self.cache = {}
        self.busy = []

    def lang(self, name):
        if name == 'nested-comment':
            return lang.chars(1 << LETTER)
        if name not in self.cache:
            assert name not in self.busy, 'recursion in %s' % name
            self.busy.append(name)
            self.cache[name] = self.compile(self.rules[name])
            self.busy.pop()
        return self.cache[name]

    def compile(self, body):
        toks = []
        i = 0
        body = body.rstrip()
        while i < len(body):
            m = _tok.match(body, i)
            if not m or m.end() == i:
                raise SyntaxError(body[i:])
            toks.append(m.group(0).strip())
            i = m.end()
        self_ = self
        pos = [0]

        def peek():
            return toks[pos[0]] if pos[0] < len(toks) else None

        def take():
            pos[0] += 1
            return toks[pos[0] - 1]

        def alternation():
            xs = [concat()]
            while peek() == '/':
                take()
                xs.append(concat())
            return lang.alt(xs)

        def concat():
            xs = []
            while peek() not in (None, '/', ')', ']', '-'):
                xs.append(repetition())
            r = lang.seq(xs)
            while peek() == '-':
                take()
                r = lang.minus(r, repetition())
            return r

        def repetition():
            t = peek()
            if t[0].isdigit() or t[0] in '*#':
                take()
                if '#' in t:
                    e = element()
                    return list1(e) if t == '1#' else list0(e)
                if '*' in t:
                    lo, hi = t.split('*')
                    return lang.repeat(element(), int(lo or 0), int(hi) if hi else None)
                return lang.repeat(element(), int(t), int(t))
            return element()

        def element():
            t = take()
            if t == '(':
                r = alternation()
                assert take() == ')'
                return r
            if t == '[':
                r = alternation()
                assert take() == ']'
                return lang.alt([r, lang.EPS])
            if t.startswith('%s"'):
                return lang.seq([lang.chars(1 << ord(c)) for c in t[3:-1]])
            if t.startswith('"'):
                return lang.seq([lang.chars(lang.mask_of({ord(c.lower()), ord(c.upper())})) for c in t[1:-1]])
            if t.startswith('%x'):
                if '-' in t:
                    a, b = t[2:].split('-')
                    return lang.chars(lang.mask_of(range(int(a, 16), int(b, 16) + 1)))
                return lang.seq([lang.chars(1 << int(x, 16)) for x in t[2:].split('.')])
            return self_.lang(t)

        def list0(e):
            ows = self_.lang('OWS')
            comma = lang.chars(1 << 44)
            opt = lang.alt([lang.seq([e, ows]), lang.EPS])
            return lang.seq([opt, lang.star(lang.seq([comma, ows, opt]))])

        def list1(e):
            ows = self_.lang('OWS')
            comma = lang.chars(1 << 44)
            return lang.seq([lang.star(lang.seq([comma, ows])), e,
                             lang.star(lang.seq([ows, comma, lang.alt([lang.seq([ows, e]), lang.EPS])]))])
        r = alternation()
        assert pos[0] == len(toks), (body, toks[pos[0]:])
        return r


def trimmed():
    """Words that neither begin nor end with a space or tab."""
    ws = (1 << 32) | (1 << 9)
    other = (((1 << 257) - 1)) & ~ws
    return lang.DFA([[(other, 1)], [(other, 1), (ws, 2)], [(other, 1), (ws, 2)]], {0, 1})
