"""Executable specification of the notices: for each notice id, the condition under which it is reported,
transcribed from the notice's documented meaning (httpolice/notices.xml) and the RFC sections it cites.

The same functions are (a) interpreted symbolically by pyvc, where the real check_* functions must report
notice n on a path condition equivalent to SPEC[n] for every message, and (b) executed on concrete messages as the oracle.

`K(table, fact, key)` consults the frozen protocol registries in known_facts.json, never the live tables.
"""
import base64
from datetime import datetime, timedelta
import fnmatch
import itertools
import string
from urllib.parse import parse_qs, urljoin, urlparse

from contracts.known_facts import K, listed
from httpolice.structure import EntityTag, FieldName, Method, MultiDict, Parametrized, Unavailable, Versioned
from httpolice import request
from httpolice.syntax import rfc6749, rfc7230

H10, H11, H2 = u'HTTP/1.0', u'HTTP/1.1', u'HTTP/2'


def usable(x):
    return x is not None and not isinstance(x, Unavailable)


def syntax_ok(data, symbol):
    """Is `data` in the language of `symbol`? (the recogniser itself is the subject of C05/C06)"""
    from httpolice.parse import parse, ParseError
    try:
        parse(data, symbol)
    except (ParseError, UnicodeError):
        return False
    return True


def parsed(data, symbol):
    """The value of `data` as `symbol`; Unavailable if it does not match."""
    from httpolice.parse import parse, ParseError
    try:
        return parse(data, symbol)
    except (ParseError, UnicodeError):
        return Unavailable(data)


def repeated(xs):
    """The values occurring more than once."""
    xs = list(xs)
    return [x for i, x in enumerate(xs) if any(x == y for y in xs[:i])]


def now():
    return datetime.utcnow()


def early_hints(msg):
    return getattr(msg, 'status', None) == 103


# ---------------------------------------------------------------------------------------------------
# Any message

MSG = {}

MSG[1293] = lambda msg: any(not syntax_ok(hdr.name, rfc7230.field_name) for hdr in msg.headers)
MSG[1197] = lambda msg: any(K('header', 'is_deprecated', hdr.name) for hdr in msg.headers)
MSG[1277] = lambda msg: any(hdr.name.startswith(u'X-') and not listed('header', hdr.name) for hdr in msg.headers)
MSG[1054] = lambda msg: (msg.version == H11 and msg.headers.trailer.is_present and
                         u'chunked' not in msg.headers.transfer_encoding)
MSG[1030] = lambda msg: any(entry.name not in msg.headers.trailer for entry in msg.trailer_entries)
MSG[1020] = lambda msg: msg.headers.transfer_encoding.is_present and msg.headers.content_length.is_present
MSG[1034] = lambda msg: any(K('header', 'is_bad_for_connection', FieldName(opt)) for opt in msg.headers.connection)
MSG[1035] = lambda msg: (msg.headers.content_type.is_okay and
                         K('media_type', 'is_deprecated', msg.headers.content_type.item))
MSG[1042] = lambda msg: msg.headers.content_type.is_okay and any(True for _ in msg.headers.content_type.param.duplicates())
MSG[1280] = lambda msg: (msg.headers.content_type == u'application/json' and
                         u'charset' in msg.headers.content_type.param)
MSG[1109] = lambda msg: msg.headers.date > now() + timedelta(seconds=10)
MSG[1163] = lambda msg: any(w.code < 100 or w.code > 299 for w in msg.headers.warning)
MSG[1164] = lambda msg: any(usable(w.date) and msg.headers.date != w.date for w in msg.headers.warning)
MSG[1160] = lambda msg: any(pragma != u'no-cache' for pragma in msg.headers.pragma)
MSG[1228] = lambda msg: any(p.item == u'h2' for p in msg.headers.upgrade)
MSG[1233] = lambda msg: any(p.item == u'h2c' and msg.is_tls for p in msg.headers.upgrade)
MSG[1050] = lambda msg: (not early_hints(msg) and msg.headers.upgrade.is_present and
                         u'upgrade' not in msg.headers.connection)


def transformed(msg):
    """A proxy says that it has transformed the message (Warning 214, or status 203)."""
    status = getattr(msg, 'status', None)
    if status is None:
        return 214 in msg.headers.warning
    return status != 103 and (status == 203 or 214 in msg.headers.warning)


MSG[1189] = lambda msg: (not early_hints(msg) and getattr(msg, 'status', None) != 203 and
                         214 in msg.headers.warning)
MSG[1191] = lambda msg: not early_hints(msg) and transformed(msg) and 214 not in msg.headers.warning
MSG[1192] = lambda msg: not early_hints(msg) and transformed(msg) and msg.headers.cache_control.no_transform
MSG[1244] = lambda msg: not early_hints(msg) and msg.version == H2 and any(
    hdr.name in [u'Connection', u'Transfer-Encoding', u'Keep-Alive'] for hdr in msg.headers)
MSG[1245] = lambda msg: not early_hints(msg) and msg.version == H2 and any(
    hdr.name == u'Upgrade' for hdr in msg.headers)

# ---------------------------------------------------------------------------------------------------
# Requests

REQ = {}


def http1(msg):
    return msg.version in [H10, H11]


def sent_body(req):
    """Did the request have a body?  True/False/None (unknown)."""
    if req.body:
        return True
    if req.version in [H10, H11]:
        return req.headers.content_length.is_present or req.headers.transfer_encoding.is_present
    return None


REQ[1292] = lambda req: not syntax_ok(req.method, rfc7230.method)


def target_parsed(req):
    """The parsed request target (form, text), or Unavailable."""
    if req.method == u'CONNECT':
        return parsed(req.target, request.connect_target)
    elif req.method == u'OPTIONS':
        return parsed(req.target, request.options_target)
    return parsed(req.target, request.normal_target)


def target_is(req, form):
    r = target_parsed(req)
    return usable(r) and r[0] is form


REQ[1045] = lambda req: not usable(target_parsed(req))


REQ[1295] = lambda req: req.method != req.method.upper() and listed('method', req.method.upper())
REQ[1041] = lambda req: req.body and req.headers.content_type.is_absent
REQ[1021] = lambda req: (http1(req) and K('method', 'defines_body', req.method) and
                         req.headers.content_length.is_absent and req.headers.transfer_encoding.is_absent)
REQ[1022] = lambda req: (K('method', 'defines_body', req.method) is False and req.body == b'' and
                         req.headers.content_length.is_present)
REQ[1028] = lambda req: u'chunked' in req.headers.te
REQ[1244] = lambda req: MSG[1244](req) or (req.version == H2 and req.headers.te and req.headers.te != [u'trailers'])
REQ[1029] = lambda req: req.version == H11 and req.headers.te and u'TE' not in req.headers.connection
REQ[1031] = lambda req: req.version == H11 and req.headers.host.is_absent
REQ[1032] = lambda req: req.headers.host.is_present and req.header_entries[0].name != u'Host'
REQ[1063] = lambda req: any(K('header', 'is_for_request', hdr.name) is False for hdr in req.headers)
REQ[1053] = lambda req: any(K('header', 'is_for_request', hdr.name) is not False and
                            K('header', 'is_representation_metadata', hdr.name) and
                            sent_body(req) is False for hdr in req.headers)
REQ[1056] = lambda req: req.body and req.method == u'GET'
REQ[1057] = lambda req: req.body and req.method == u'HEAD'
REQ[1059] = lambda req: req.body and req.method == u'DELETE'
REQ[1061] = lambda req: req.body and req.method == u'CONNECT'
REQ[1062] = lambda req: req.method == u'OPTIONS' and req.body and req.headers.content_type.is_absent
REQ[1066] = lambda req: req.headers.expect == u'100-continue' and sent_body(req) is False
REQ[1067] = lambda req: req.headers.max_forwards.is_present and req.method not in [u'OPTIONS', u'TRACE']


def plain_http(req):
    """Known to be sent without TLS."""
    return req.scheme == u'http'


def over_tls(req):
    return req.scheme == u'https'


def uri_scheme(uri):
    try:
        return urlparse(uri).scheme
    except ValueError:
        return u''


def uri_fragment(uri):
    try:
        return urlparse(uri).fragment
    except ValueError:
        return u''


def resolve(base, ref):
    """RFC 3986 section 5.2; None when it cannot be resolved."""
    try:
        return urljoin(base, ref)
    except ValueError:
        return None


REQ[1068] = lambda req: (req.headers.referer.is_okay and plain_http(req) and
                         uri_scheme(req.headers.referer.value) == u'https')
REQ[1070] = lambda req: req.headers.user_agent.is_absent
REQ[1093] = lambda req: (
    req.headers.user_agent.is_okay and
    any(isinstance(p, Versioned) for p in req.headers.user_agent) and
    not any(isinstance(p, Versioned) and not K('product', 'is_library', p.item)
            for p in req.headers.user_agent))
REQ[1116] = lambda req: any(x.item in [u'x-gzip', u'x-compress'] and x.param is not None
                            for x in req.headers.accept_encoding)
REQ[1120] = lambda req: req.headers.if_match != u'*' and any(tag.weak for tag in req.headers.if_match)
REQ[1131] = lambda req: req.method == u'HEAD' and any(K('header', 'is_precondition', hdr.name) for hdr in req.headers)
REQ[1130] = lambda req: req.method in [u'CONNECT', u'OPTIONS', u'TRACE'] and any(
    hdr.name in [u'If-Modified-Since', u'If-Unmodified-Since', u'If-Match', u'If-None-Match', u'If-Range']
    for hdr in req.headers)
REQ[1122] = lambda req: (req.method not in [u'CONNECT', u'OPTIONS', u'TRACE', u'GET', u'HEAD'] and
                         req.headers.if_modified_since.is_present)
REQ[1132] = lambda req: req.headers.range.is_present and req.method != u'GET'
REQ[1134] = lambda req: req.headers.if_range.is_present and req.headers.range.is_absent
REQ[1135] = lambda req: isinstance(req.headers.if_range.value, EntityTag) and req.headers.if_range.weak
REQ[1152] = lambda req: any(K('cache_directive', 'is_for_request', d.item) is False for d in req.headers.cache_control)
REQ[1159] = lambda req: any(d.item == u'no-cache' and d.param is not None for d in req.headers.cache_control)
REQ[1161] = lambda req: req.headers.cache_control.no_cache and u'no-cache' not in req.headers.pragma
REQ[1165] = lambda req: any(100 <= w.code <= 199 for w in req.headers.warning)
REQ[1171] = lambda req: K('method', 'is_cacheable', req.method) is False and any(
    d.item in [u'max-age', u'max-stale', u'min-fresh', u'no-cache', u'no-store', u'only-if-cached']
    for d in req.headers.cache_control)
REQ[1193] = lambda req: (
    (req.headers.cache_control[u'max-stale'] and req.headers.cache_control[u'min-fresh']) or
    (req.headers.cache_control[u'stale-if-error'] and req.headers.cache_control[u'min-fresh']) or
    (req.headers.cache_control[u'max-stale'] and req.headers.cache_control[u'no-cache']) or
    (req.headers.cache_control[u'max-age'] and req.headers.cache_control[u'no-cache']))


def auth_headers(req):
    return [hdr for hdr in [req.headers.authorization, req.headers.proxy_authorization] if hdr.is_okay]


def decodes(credentials):
    try:
        base64.b64decode(credentials)
    except Exception:
        return False
    return True


def decoded(credentials):
    return base64.b64decode(credentials)


def has_ctl(data):
    return any(c < 0x20 or c == 0x7F for c in data)


REQ[1209] = lambda req: any(hdr.item == u'Basic' and not isinstance(hdr.param, str) for hdr in auth_headers(req))
REQ[1210] = lambda req: any(hdr.item == u'Basic' and isinstance(hdr.param, str) and not decodes(hdr.param)
                            for hdr in auth_headers(req))
REQ[1211] = lambda req: any(hdr.item == u'Basic' and isinstance(hdr.param, str) and decodes(hdr.param) and
                            b':' not in decoded(hdr.param) for hdr in auth_headers(req))
REQ[1212] = lambda req: any(hdr.item == u'Basic' and isinstance(hdr.param, str) and decodes(hdr.param) and
                            has_ctl(decoded(hdr.param)) for hdr in auth_headers(req))
REQ[1261] = lambda req: plain_http(req) and any(hdr.item == u'Bearer' for hdr in auth_headers(req))
REQ[1262] = lambda req: any(hdr.item == u'Bearer' and not isinstance(hdr.param, str) for hdr in auth_headers(req))
REQ[1274] = lambda req: any(hdr.item != u'Basic' and hdr.item != u'Bearer' and not hdr.param
                            for hdr in auth_headers(req))
REQ[1213] = lambda req: (req.method == u'PATCH' and req.headers.content_type.is_okay and
                         K('media_type', 'is_patch', req.headers.content_type.item) is False)
REQ[1231] = lambda req: any(p.item == u'h2c' for p in req.headers.upgrade) and req.headers.http2_settings.is_absent
REQ[1230] = lambda req: req.headers.http2_settings and u'HTTP2-Settings' not in req.headers.connection


def base64url_only(s):
    alphabet = string.ascii_letters + string.digits + '-_'
    return all(c in alphabet for c in s)


REQ[1234] = lambda req: req.headers.http2_settings.is_okay and not base64url_only(req.headers.http2_settings.value)


def effective_uri(req):
    """RFC 7230 section 5.5, or None if unknown."""
    if target_is(req, rfc7230.absolute_form):
        return req.target
    if not req.scheme:
        return None
    if target_is(req, rfc7230.authority_form):
        return req.scheme + u'://' + req.target + u''
    if not req.headers.host.is_okay:
        return None
    if target_is(req, rfc7230.asterisk_form):
        return req.scheme + u'://' + req.headers.host.value + u''
    if target_is(req, rfc7230.origin_form):
        return req.scheme + u'://' + req.headers.host.value + req.target
    return None


def query_params(req):
    uri = effective_uri(req)
    if uri is None:
        return {}
    return query_of(uri)


def query_of(uri):
    """Parameters of the query component of `uri`."""
    try:
        return parse_qs(urlparse(uri).query)
    except ValueError:
        return {}


def token_in_query(req):
    return u'access_token' in query_params(req)


REQ[1270] = lambda req: token_in_query(req)


def token_in_form(req):
    return usable(req.url_encoded_data) and u'access_token' in req.url_encoded_data


REQ[1271] = lambda req: plain_http(req) and (token_in_query(req) or token_in_form(req))
REQ[1272] = lambda req: token_in_query(req) and not req.headers.cache_control.no_store


def subsumptions(view):
    """Pairs (wildcard, value) such that the element `wildcard` makes `value` redundant."""
    normalized = []
    for (item, q) in view:
        if isinstance(item, Parametrized):
            item = item.item
        if q is None:
            q = 1.0
        elif isinstance(q, MultiDict):
            q = q.get(u'q', 1.0)
        normalized.append((str(item).lower(), q))
    out = []
    for i, (w, q1) in enumerate(normalized):
        for j, (v, q2) in enumerate(normalized):
            if i == j or q1 != q2:
                continue
            if w == u'*' or w == u'*/*':
                if v != w:
                    out.append((w, v))
            elif w.endswith(u'/*'):
                if v.startswith(w[:-1]) and v != w:
                    out.append((w, v))
    return out


REQ[1276] = lambda req: any(any(True for _ in subsumptions(hdr)) for hdr in [
    req.headers.accept, req.headers.accept_charset, req.headers.accept_encoding, req.headers.accept_language])
REQ[1285] = lambda req: any(True for _ in repeated(name for ((name, _), _) in req.headers.prefer))
REQ[1287] = lambda req: req.headers.prefer.respond_async and K('method', 'is_safe', req.method)
REQ[1288] = lambda req: req.headers.prefer.return_ == u'minimal' and req.method == u'GET'
REQ[1289] = lambda req: ((u'return', u'minimal') in req.headers.prefer.without_params and
                         (u'return', u'representation') in req.headers.prefer.without_params)
REQ[1290] = lambda req: ((u'handling', u'strict') in req.headers.prefer.without_params and
                         (u'handling', u'lenient') in req.headers.prefer.without_params)


# ---------------------------------------------------------------------------------------------------
# Responses by themselves

RESP = {}


def informational(resp):
    return 100 <= resp.status <= 199


def successful(resp):
    return 200 <= resp.status <= 299


def redirection(resp):
    return 300 <= resp.status <= 399


def client_error(resp):
    return 400 <= resp.status <= 499


def server_error(resp):
    return 500 <= resp.status <= 599


def close_delimited(resp):
    """Is the end of this response only indicated by closing the connection? (RFC 7230 section 3.3.3)"""
    req = resp.request
    return (req is not None and resp.version in [H10, H11] and
            req.method != u'HEAD' and not (req.method == u'CONNECT' and successful(resp)) and
            not informational(resp) and resp.status != 204 and resp.status != 304 and
            resp.headers.content_length.is_absent and u'chunked' not in resp.headers.transfer_encoding)


def from_future(resp):
    """Was the response generated more than 30 seconds from now (Date plus Age)?"""
    return (resp.headers.date.is_okay and resp.headers.age.is_okay and
            later_than_now(resp.headers.date.value, resp.headers.age.value))


def later_than_now(date, age):
    try:
        return date + timedelta(seconds=age) > now() + timedelta(seconds=30)
    except OverflowError:
        return True


def has_1xx_warning(resp):
    return any(100 <= w.code <= 199 for w in resp.headers.warning)


def cached(resp):
    return (resp.status != 103 and not from_future(resp) and
            (resp.headers.age.is_present or has_1xx_warning(resp)))


def heuristic(resp):
    """The freshness of this cached response must have been determined heuristically."""
    return cached(resp) and (113 in resp.headers.warning or (
        resp.headers.expires.is_absent and not resp.headers.cache_control.max_age and
        resp.headers.cache_control.is_absent))


def warned_stale(resp):
    return 110 in resp.headers.warning or 111 in resp.headers.warning


def older_than_max_age(resp):
    return (resp.headers.cache_control.s_maxage is None and
            resp.headers.age > resp.headers.cache_control.max_age)


def expired(resp):
    return (resp.headers.cache_control.s_maxage is None and resp.headers.cache_control.max_age is None and
            resp.headers.expires.is_okay and resp.headers.date.is_okay and
            resp.headers.age > (resp.headers.expires.value - resp.headers.date.value).total_seconds())


def stale(resp):
    return resp.status != 103 and (warned_stale(resp) or older_than_max_age(resp) or expired(resp))


RESP[1294] = lambda resp: usable(resp.reason) and not syntax_ok(resp.reason, rfc7230.reason_phrase)
RESP[1167] = lambda resp: resp.status < 100 or resp.status > 599
RESP[1025] = lambda resp: close_delimited(resp)
RESP[1047] = lambda resp: (close_delimited(resp) and resp.version == H11 and
                           u'close' not in resp.headers.connection)
RESP[1064] = lambda resp: any(K('header', 'is_for_response', hdr.name) is False for hdr in resp.headers)
RESP[1048] = lambda resp: resp.status == 101 and resp.headers.upgrade.is_absent
RESP[1246] = lambda resp: resp.status == 101 and resp.version == H2
RESP[1240] = lambda resp: resp.status == 204 and resp.body
RESP[1076] = lambda resp: resp.status == 205 and resp.body
RESP[1078] = lambda resp: resp.status == 301 and resp.headers.location.is_absent
RESP[1079] = lambda resp: resp.status == 302 and resp.headers.location.is_absent
RESP[1080] = lambda resp: resp.status == 303 and resp.headers.location.is_absent
RESP[1084] = lambda resp: resp.status == 307 and resp.headers.location.is_absent
RESP[1205] = lambda resp: resp.status == 308 and resp.headers.location.is_absent
RESP[1082] = lambda resp: resp.status == 305
RESP[1083] = lambda resp: resp.status == 306
RESP[1088] = lambda resp: resp.status == 402
RESP[1089] = lambda resp: resp.status == 405 and resp.headers.allow.is_absent
RESP[1094] = lambda resp: resp.status == 408 and u'close' not in resp.headers.connection
RESP[1110] = lambda resp: 200 <= resp.status <= 499 and resp.headers.date.is_absent
RESP[1111] = lambda resp: (resp.status == 201 and resp.headers.location.is_okay and
                           uri_fragment(resp.headers.location.value))
RESP[1118] = lambda resp: resp.headers.last_modified > resp.headers.date.value
RESP[1127] = lambda resp: resp.status == 304 and any(
    K('header', 'is_representation_metadata', hdr.name) and hdr.name not in [u'etag', u'last-modified']
    for hdr in resp.headers)


def is_byteranges(resp):
    return resp.headers.content_type == u'multipart/byteranges'


RESP[1138] = lambda resp: resp.status == 206 and not is_byteranges(resp) and resp.headers.content_range.is_absent
RESP[1143] = lambda resp: resp.status == 206 and is_byteranges(resp) and resp.headers.content_range.is_present
RESP[1141] = lambda resp: resp.status == 206 and is_byteranges(resp) and usable(resp.multipart_data) and any(
    u'Content-Range' not in part for part in resp.multipart_data.get_payload())
RESP[1142] = lambda resp: resp.status == 206 and is_byteranges(resp) and usable(resp.multipart_data) and any(
    u'Content-Type' not in part for part in resp.multipart_data.get_payload())
RESP[1153] = lambda resp: any(K('cache_directive', 'is_for_response', d.item) is False
                              for d in resp.headers.cache_control)
RESP[1162] = lambda resp: u'no-cache' in resp.headers.pragma
RESP[1243] = lambda resp: resp.status == 451 and not any(
    usable(link.param.get(u'rel')) and u'blocked-by' in link.param.get(u'rel') for link in resp.headers.link)


def disposition(resp):
    return resp.headers.content_disposition.is_okay


def filename(resp):
    """The plain `filename` parameter of Content-Disposition, or None."""
    return resp.headers.content_disposition.param.get(u'filename')


def filename_ext(resp):
    return resp.headers.content_disposition.param.get(u'filename*')


def percent_encoded(s):
    digits = '0123456789abcdefABCDEF'
    return any(s[i] == '%' and s[i + 1] in digits and s[i + 2] in digits for i in range(len(s) - 2))


def pure_ascii(s):
    return all(ord(c) < 0x80 for c in s)


RESP[1247] = lambda resp: disposition(resp) and any(
    True for _ in resp.headers.content_disposition.param.duplicates())
RESP[1248] = lambda resp: disposition(resp) and filename(resp) is not None and percent_encoded(filename(resp))
RESP[1249] = lambda resp: disposition(resp) and filename(resp) is not None and (
    u'"' in filename(resp) or u'\\' in filename(resp))
RESP[1250] = lambda resp: disposition(resp) and filename(resp) is not None and not pure_ascii(filename(resp))
RESP[1251] = lambda resp: disposition(resp) and filename_ext(resp) is not None and filename(resp) is None
RESP[1252] = lambda resp: (disposition(resp) and filename_ext(resp) is not None and filename(resp) is not None and
                           resp.headers.content_disposition.param.index(u'filename*') <
                           resp.headers.content_disposition.param.index(u'filename'))
RESP[1258] = lambda resp: resp.headers.alt_svc.is_present and resp.version == H2
RESP[1260] = lambda resp: resp.headers.alt_svc.is_present and resp.status == 421
RESP[1218] = lambda resp: (resp.headers.strict_transport_security.is_okay and
                           u'max-age' not in resp.headers.strict_transport_security)
RESP[1219] = lambda resp: (resp.headers.strict_transport_security.is_okay and
                           resp.headers.strict_transport_security[u'max-age'] == 0 and
                           resp.headers.strict_transport_security[u'includesubdomains'])
RESP[1220] = lambda resp: resp.headers.strict_transport_security.is_okay and any(
    True for _ in repeated(d.item for d in resp.headers.strict_transport_security))
RESP[1227] = lambda resp: any(K('media_type', 'is_patch', t.item) is False for t in resp.headers.accept_patch)


def both(resp, d1, d2):
    return resp.headers.cache_control[d1] and resp.headers.cache_control[d2]


def overridden(resp, d1, d2):
    """d1 is in effect, and d2 (without a list of fields) makes it useless."""
    return resp.headers.cache_control[d1] and resp.headers.cache_control[d2] in [True, []]


RESP[1193] = lambda resp: (both(resp, u'public', u'no-store') or both(resp, u'private', u'public') or
                           both(resp, u'private', u'no-store') or
                           both(resp, u'must-revalidate', u'stale-while-revalidate') or
                           both(resp, u'must-revalidate', u'stale-if-error'))
RESP[1238] = lambda resp: (overridden(resp, u'max-age', u'no-cache') or overridden(resp, u'max-age', u'no-store') or
                           overridden(resp, u's-maxage', u'private') or
                           overridden(resp, u's-maxage', u'no-cache') or
                           overridden(resp, u's-maxage', u'no-store'))
RESP[1235] = lambda resp: resp.headers.vary != u'*' and u'host' in resp.headers.vary
RESP[1194] = lambda resp: resp.status == 401 and resp.headers.www_authenticate.is_absent
RESP[1195] = lambda resp: resp.status == 407 and resp.headers.proxy_authenticate.is_absent

# -- challenges


def challenges(resp, scheme):
    return [c for c in resp.headers.www_authenticate if c.item == scheme] + \
        [c for c in resp.headers.proxy_authenticate if c.item == scheme]


def some_basic(resp, pred):
    """Some Basic challenge, in either header, satisfies pred."""
    return (any(c.item == u'basic' and pred(c) for c in resp.headers.www_authenticate) or
            any(c.item == u'basic' and pred(c) for c in resp.headers.proxy_authenticate))


RESP[1273] = lambda resp: some_basic(resp, lambda c: isinstance(c.param, str))
RESP[1206] = lambda resp: some_basic(resp, lambda c: not isinstance(c.param, str) and u'realm' not in c.param)
RESP[1208] = lambda resp: some_basic(resp, lambda c: not isinstance(c.param, str) and any(
    charset.lower() != u'utf-8' for charset in c.param.getall(u'charset')))
RESP[1207] = lambda resp: some_basic(resp, lambda c: not isinstance(c.param, str) and any(
    name != u'charset' and name != u'realm' for name in c.param))


def some_bearer(resp, pred):
    return any(c.item == u'bearer' and pred(c) for c in resp.headers.www_authenticate)


def no_params(c):
    return isinstance(c.param, str) or not c.param


def sent_bearer_header(req):
    return req.headers.authorization.is_okay and req.headers.authorization.item == u'bearer'


def sent_token(req):
    return sent_bearer_header(req) or token_in_form(req) or token_in_query(req)


def wrong_status(c, status):
    error = c.param[u'error']
    return ((error == u'invalid_request' and status != 400) or (error == u'invalid_token' and status != 401) or
            (error == u'insufficient_scope' and status != 403))


RESP[1263] = lambda resp: (resp.request is not None and plain_http(resp.request) and
                           some_bearer(resp, lambda c: True))
RESP[1264] = lambda resp: some_bearer(resp, lambda c: no_params(c))
RESP[1265] = lambda resp: some_bearer(resp, lambda c: not no_params(c) and any(
    p in [u'realm', u'scope', u'error', u'error_description', u'error_uri'] for p in c.param.duplicates()))
RESP[1266] = lambda resp: some_bearer(resp, lambda c: not no_params(c) and (
    (u'scope' in c.param and not syntax_ok(c.param[u'scope'], rfc6749.scope)) or
    (u'error' in c.param and not syntax_ok(c.param[u'error'], rfc6749.error)) or
    (u'error_description' in c.param and
     not syntax_ok(c.param[u'error_description'], rfc6749.error_description)) or
    (u'error_uri' in c.param and not syntax_ok(c.param[u'error_uri'], rfc6749.error_uri))))
RESP[1267] = lambda resp: (resp.status == 401 and resp.request is not None and sent_bearer_header(resp.request) and
                           some_bearer(resp, lambda c: not no_params(c) and u'error' not in c.param))
RESP[1268] = lambda resp: some_bearer(resp, lambda c: not no_params(c) and u'error' in c.param and
                                      wrong_status(c, resp.status))
RESP[1269] = lambda resp: (
    resp.request is not None and resp.request.headers.authorization.is_absent and not sent_token(resp.request) and
    some_bearer(resp, lambda c: not no_params(c) and (
        u'error' in c.param or u'error_description' in c.param or u'error_uri' in c.param)))

# -- not for 103 (Early Hints)

RESP[1018] = lambda resp: (resp.status != 103 and (informational(resp) or resp.status == 204) and
                           resp.headers.transfer_encoding.is_present)
RESP[1023] = lambda resp: (resp.status != 103 and (informational(resp) or resp.status == 204) and
                           resp.headers.content_length.is_present)
RESP[1198] = lambda resp: resp.status != 103 and informational(resp) and u'close' in resp.headers.connection
RESP[1052] = lambda resp: resp.status != 103 and informational(resp) and any(
    K('header', 'is_representation_metadata', hdr.name) for hdr in resp.headers)
RESP[1112] = lambda resp: (resp.status != 103 and resp.headers.location.is_present and
                           not redirection(resp) and resp.status != 201)
RESP[1113] = lambda resp: (resp.status != 103 and resp.headers.retry_after.is_present and
                           not redirection(resp) and resp.status not in [413, 429, 503])
RESP[1147] = lambda resp: (resp.status != 103 and resp.headers.content_range.is_present and
                           resp.status not in [206, 416])
RESP[1241] = lambda resp: resp.status != 103 and from_future(resp)
RESP[1168] = lambda resp: cached(resp) and resp.headers.age.is_present
RESP[1169] = lambda resp: cached(resp) and resp.headers.age.is_absent
RESP[1166] = lambda resp: cached(resp) and resp.headers.age.is_absent
RESP[1175] = lambda resp: cached(resp) and resp.headers.cache_control.no_cache in [True, []]
RESP[1176] = lambda resp: cached(resp) and resp.headers.cache_control.no_store
RESP[1202] = lambda resp: cached(resp) and K('status_code', 'is_cacheable', resp.status) == 'enum:not_at_all'
RESP[1177] = lambda resp: (cached(resp) and K('status_code', 'is_cacheable', resp.status) == 'enum:not_by_default' and
                           resp.headers.expires.is_absent and resp.headers.cache_control.is_absent)
RESP[1179] = lambda resp: cached(resp) and 113 in resp.headers.warning
RESP[1178] = lambda resp: heuristic(resp) and 113 not in resp.headers.warning
RESP[1180] = lambda resp: heuristic(resp) and resp.headers.age > 86400 and 113 not in resp.headers.warning
RESP[1181] = lambda resp: heuristic(resp) and resp.headers.expires.is_present
RESP[1182] = lambda resp: (heuristic(resp) and resp.headers.expires.is_absent and
                           resp.headers.cache_control.max_age is not None)
RESP[1183] = lambda resp: resp.status != 103 and warned_stale(resp)
RESP[1184] = lambda resp: resp.status != 103 and not warned_stale(resp) and older_than_max_age(resp)
RESP[1185] = lambda resp: (resp.status != 103 and not warned_stale(resp) and not older_than_max_age(resp) and
                           expired(resp))
RESP[1186] = lambda resp: stale(resp) and 110 not in resp.headers.warning
RESP[1187] = lambda resp: stale(resp) and resp.headers.cache_control.must_revalidate
RESP[1190] = lambda resp: resp.status == 203


def immutable(resp):
    return resp.status != 103 and resp.headers.cache_control.immutable


RESP[1301] = lambda resp: (
    immutable(resp) and not resp.headers.cache_control.max_age and
    (resp.headers.expires.is_absent or resp.headers.date >= resp.headers.expires.value))
RESP[1302] = lambda resp: immutable(resp) and resp.request is not None and plain_http(resp.request)
RESP[1303] = lambda resp: immutable(resp) and close_delimited(resp)
RESP[1217] = lambda resp: (resp.status != 103 and resp.headers.allow.is_present and
                           resp.headers.accept_patch.is_present and u'PATCH' not in resp.headers.allow)
RESP[1310] = lambda resp: (resp.status != 103 and resp.headers.allow.is_present and
                           resp.headers.accept_post.is_present and u'POST' not in resp.headers.allow)
RESP[1046] = lambda resp: resp.status != 103 and transformed(resp) and resp.headers.via.is_absent

# ---------------------------------------------------------------------------------------------------
# Request and response together (reported on the response)

CTX = {}


def to_proxy(req):
    """Is the request addressed to a proxy?  True/False/None (unknown)."""
    if req.version in [H10, H11]:
        return target_is(req, rfc7230.absolute_form)
    return None


def get_or_head(req):
    return req.method in [u'GET', u'HEAD']


CTX[1041] = lambda req, resp: (resp.body and resp.headers.content_type.is_absent and
                               not (resp.status == 206 and req.headers.if_range.is_present))
CTX[1019] = lambda req, resp: (req.method == u'CONNECT' and successful(resp) and
                               resp.headers.transfer_encoding.is_present)
CTX[1024] = lambda req, resp: (req.method == u'CONNECT' and successful(resp) and
                               resp.headers.content_length.is_present)
CTX[1199] = lambda req, resp: (req.method == u'CONNECT' and successful(resp) and
                               u'close' in resp.headers.connection)
CTX[1239] = lambda req, resp: req.method == u'HEAD' and resp.body
CTX[1306] = lambda req, resp: req.version == H10 and resp.headers.transfer_encoding.is_present
CTX[1033] = lambda req, resp: (req.version == H11 and (successful(resp) or redirection(resp)) and
                               (not req.headers.host.is_okay or req.headers.host.total_entries > 1))
CTX[1237] = lambda req, resp: resp.status != 103 and transformed(resp) and to_proxy(req) is False
CTX[1046] = lambda req, resp: to_proxy(req) and successful(resp) and resp.headers.via.is_absent
CTX[1049] = lambda req, resp: resp.status == 101 and any(p not in req.headers.upgrade for p in resp.headers.upgrade)
CTX[1232] = lambda req, resp: resp.status == 101 and not req.headers.http2_settings.is_okay and any(
    p in req.headers.upgrade and p.item == u'h2c' for p in resp.headers.upgrade)
CTX[1051] = lambda req, resp: resp.status == 101 and req.version == H10
CTX[1071] = lambda req, resp: resp.status != 101 and informational(resp) and req.version == H10


def points_to_request(req, hdr):
    """Does this header (Location, Content-Location) refer to the effective request URI itself?"""
    return (hdr.is_okay and effective_uri(req) and
            effective_uri(req) == resolve(effective_uri(req), hdr.value))


CTX[1055] = lambda req, resp: (get_or_head(req) and resp.status in [200, 203, 204, 206, 304] and
                               points_to_request(req, resp.headers.content_location))
CTX[1060] = lambda req, resp: req.method == u'DELETE' and points_to_request(req, resp.headers.content_location)
CTX[1085] = lambda req, resp: (req.scheme and points_to_request(req, resp.headers.location) and
                               (resp.status in [300, 307, 308] or
                                (resp.status in [301, 302, 303] and req.method != u'POST')))
CTX[1058] = lambda req, resp: req.method == u'PUT' and req.headers.content_range.is_present and successful(resp)
CTX[1072] = lambda req, resp: K('method', 'is_safe', req.method) and resp.status == 201
CTX[1074] = lambda req, resp: K('method', 'is_safe', req.method) and resp.status == 202
CTX[1095] = lambda req, resp: K('method', 'is_safe', req.method) and resp.status == 409
CTX[1073] = lambda req, resp: resp.status == 201 and req.method == u'POST' and resp.headers.location.is_absent


def empty_but_should_explain(req, resp):
    return req.method != u'HEAD' and resp.body == b''


CTX[1284] = lambda req, resp: empty_but_should_explain(req, resp) and resp.status == 202
CTX[1077] = lambda req, resp: empty_but_should_explain(req, resp) and resp.status == 300
CTX[1081] = lambda req, resp: empty_but_should_explain(req, resp) and resp.status == 303
CTX[1092] = lambda req, resp: empty_but_should_explain(req, resp) and resp.status == 406
CTX[1096] = lambda req, resp: empty_but_should_explain(req, resp) and resp.status == 409
CTX[1201] = lambda req, resp: empty_but_should_explain(req, resp) and resp.status == 428
CTX[1203] = lambda req, resp: empty_but_should_explain(req, resp) and resp.status == 429
CTX[1242] = lambda req, resp: empty_but_should_explain(req, resp) and resp.status == 451
CTX[1087] = lambda req, resp: (empty_but_should_explain(req, resp) and client_error(resp) and
                               resp.status not in [406, 409, 428, 429, 451])
CTX[1106] = lambda req, resp: empty_but_should_explain(req, resp) and resp.status == 505
CTX[1204] = lambda req, resp: empty_but_should_explain(req, resp) and resp.status == 511
CTX[1104] = lambda req, resp: (empty_but_should_explain(req, resp) and server_error(resp) and
                               resp.status not in [505, 511])
CTX[1086] = lambda req, resp: (req.method == u'OPTIONS' and target_is(req, rfc7230.asterisk_form) and
                               resp.status in [300, 301, 302, 307, 308])


def negotiates(hdr):
    return K('header', 'is_proactive_conneg', hdr.name)


CTX[1090] = lambda req, resp: resp.status == 406 and not any(negotiates(hdr) for hdr in req.headers)
CTX[1117] = lambda req, resp: (
    resp.status == 406 and any(negotiates(hdr) for hdr in req.headers) and
    all(hdr.name == u'accept-language' for hdr in req.headers if negotiates(hdr)))
CTX[1097] = lambda req, resp: resp.status == 411 and req.headers.content_length.is_okay
CTX[1098] = lambda req, resp: resp.status == 413 and req.body == b''
CTX[1099] = lambda req, resp: resp.status == 415 and req.body == b'' and req.headers.content_type.is_absent
CTX[1100] = lambda req, resp: resp.status == 417 and req.headers.expect.is_absent
CTX[1102] = lambda req, resp: resp.status == 426 and any(p in req.headers.upgrade for p in resp.headers.upgrade)
CTX[1103] = lambda req, resp: successful(resp) and any(p in req.headers.upgrade for p in resp.headers.upgrade)
CTX[1101] = lambda req, resp: resp.status == 426 and not resp.headers.upgrade
CTX[1105] = lambda req, resp: resp.status == 505 and resp.version and resp.version == req.version
CTX[1114] = lambda req, resp: resp.status == 405 and req.method in resp.headers.allow
CTX[1115] = lambda req, resp: (successful(resp) and resp.headers.allow.is_present and
                               req.method not in resp.headers.allow)
CTX[1121] = lambda req, resp: (
    get_or_head(req) and successful(resp) and resp.headers.etag.is_okay and
    (req.headers.if_none_match == u'*' or
     any(tag.opaque_tag == resp.headers.etag.value.opaque_tag for tag in req.headers.if_none_match)))
CTX[1123] = lambda req, resp: (get_or_head(req) and successful(resp) and not resp.headers.etag.is_okay and
                               req.headers.if_modified_since >= resp.headers.last_modified.value)


def precondition(hdr):
    return K('header', 'is_precondition', hdr.name)


def conditional(req):
    return any(precondition(hdr) for hdr in req.headers)


CTX[1124] = lambda req, resp: resp.status == 304 and not get_or_head(req)
CTX[1125] = lambda req, resp: (resp.status == 412 or (resp.status == 304 and get_or_head(req))) and not conditional(req)
CTX[1128] = lambda req, resp: (
    resp.status == 412 and conditional(req) and not get_or_head(req) and
    all(hdr.name == u'if-modified-since' for hdr in req.headers if precondition(hdr)))
CTX[1129] = lambda req, resp: (
    resp.status == 412 and conditional(req) and req.method in [u'CONNECT', u'OPTIONS', u'TRACE'] and
    not all(hdr.name == u'if-modified-since' for hdr in req.headers if precondition(hdr)) and
    all(hdr.name in [u'if-match', u'if-none-match', u'if-modified-since', u'if-unmodified-since', u'if-range']
        for hdr in req.headers if precondition(hdr)))
CTX[1136] = lambda req, resp: resp.status == 206 and req.headers.range.is_absent
CTX[1137] = lambda req, resp: resp.status == 206 and req.headers.range.is_present and req.method != u'GET'


def byte_ranges(req):
    return req.headers.range.is_okay and req.headers.range.value.unit == u'bytes'


CTX[1144] = lambda req, resp: (resp.status == 206 and is_byteranges(resp) and byte_ranges(req) and
                               len(req.headers.range.value.ranges) == 1)
CTX[1145] = lambda req, resp: (
    resp.status == 206 and isinstance(req.headers.if_range.value, EntityTag) and resp.headers.etag.is_okay and
    (resp.headers.etag.value.weak or req.headers.if_range.value.weak or
     resp.headers.etag.value.opaque_tag != req.headers.if_range.value.opaque_tag))
CTX[1146] = lambda req, resp: resp.status == 206 and req.headers.if_range.is_present and any(
    K('header', 'is_representation_metadata', hdr.name) and hdr.name not in [u'etag', u'content-location']
    for hdr in resp.headers)
CTX[1149] = lambda req, resp: resp.status == 416 and req.headers.range.is_absent
CTX[1150] = lambda req, resp: resp.status == 416 and byte_ranges(req) and resp.headers.content_range.is_absent
CTX[1172] = lambda req, resp: cached(resp) and K('method', 'is_cacheable', req.method) is False
CTX[1170] = lambda req, resp: cached(resp) and resp.headers.age > req.headers.cache_control.max_age
CTX[1173] = lambda req, resp: cached(resp) and req.headers.cache_control.no_cache
CTX[1174] = lambda req, resp: (cached(resp) and not req.headers.cache_control.no_cache and
                               req.headers.cache_control.is_absent and u'no-cache' in req.headers.pragma)
CTX[1188] = lambda req, resp: (
    stale(resp) and 111 not in resp.headers.warning and 112 not in resp.headers.warning and
    req.headers.cache_control[u'max-stale'] is None and req.headers.cache_control[u'stale-if-error'] is None and
    resp.headers.cache_control[u'stale-if-error'] is None and
    resp.headers.cache_control[u'stale-while-revalidate'] is None)
CTX[1200] = lambda req, resp: resp.status == 428 and conditional(req)
CTX[1214] = lambda req, resp: (req.method == u'PATCH' and successful(resp) and req.headers.content_type.is_okay and
                               K('media_type', 'is_patch', req.headers.content_type.item) is False)
CTX[1215] = lambda req, resp: req.method == u'PATCH' and resp.status == 415 and resp.headers.accept_patch.is_absent
CTX[1221] = lambda req, resp: resp.headers.strict_transport_security.is_present and plain_http(req)
CTX[1283] = lambda req, resp: (resp.status == 421 and K('method', 'is_cacheable', req.method) and
                               not resp.headers.cache_control.no_store)
CTX[1286] = lambda req, resp: any(pref not in req.headers.prefer.without_params
                                  for pref in resp.headers.preference_applied)
CTX[1216] = lambda req, resp: (resp.status != 103 and req.method == u'OPTIONS' and
                               u'PATCH' in resp.headers.allow and resp.headers.accept_patch.is_absent)
CTX[1291] = lambda req, resp: (resp.status != 103 and req.method == u'GET' and
                               resp.headers.preference_applied.is_present and
                               resp.headers.vary != u'*' and u'prefer' not in resp.headers.vary)

# Reported on the request when a response is checked in its context.
CTX_REQ = {}
CTX_REQ[1236] = lambda req, resp: to_proxy(req)


# Every message has its headers parsed and its payload decoded when it is checked, so that their own notices
# (C07, C08, C12) are reported: pseudo-notices recorded by the contracts of those accessors.
MSG['force'] = lambda msg: any(True for hdr in msg.headers)
for _p in ['decoded_body', 'unicode_body', 'json_data', 'xml_data', 'multipart_data', 'url_encoded_data']:
    MSG['access:' + _p] = lambda msg: True
IGNORED = ['access:displayable_body', 'access:guessed_charset']


def request_table():
    t = dict(MSG)
    t.update(REQ)
    return t


def response_table():
    t = dict(MSG)
    t.update(RESP)
    return t
