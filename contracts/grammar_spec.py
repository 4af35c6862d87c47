"""C05: which symbol must have which language, and judges that ask the real code about one string."""
from contracts import abnf

BYTES = frozenset(range(256))


def _ids(obj):
    return [c.notice.id for c in obj.complaints]


def _request(**kw):
    from httpolice.request import Request
    a = dict(scheme='http', method='GET', target='/', version='HTTP/1.1', header_entries=[('Host', b'h')], body=b'')
    a.update(kw)
    return Request(**a)


def _response(**kw):
    from httpolice.response import Response
    a = dict(version='HTTP/1.1', status=200, reason='OK', header_entries=[], body=b'')
    a.update(kw)
    return Response(**a)


def _fn(name):
    from httpolice.structure import FieldName
    return FieldName(name)


def judge_header(name):
    """Whether a header with this value is accepted without notice 1000."""
    def judge(data):
        m = _response(header_entries=[(name, data)])
        view = m.headers[_fn(name)]
        view.value
        bad = 1000 in _ids(m)
        return not bad
    return judge


def quoted(data):
    """A quoted-string whose value is `data`, or None."""
    out = b'"'
    for c in data:
        if c in (0x22, 0x5C):
            out += b'\\' + bytes((c,))
        elif c == 9 or 0x20 <= c <= 0x7e or c >= 0x80:
            out += bytes((c,))
        else:
            return None
    return out + b'"'


def judge_argument(table, key):
    header, fmt = {'cache_directive': ('Cache-Control', b'%s=%s'), 'hsts_directive': ('Strict-Transport-Security', b'%s=%s'),
                   'alt_svc_param': ('Alt-Svc', b'h2=":443"; %s=%s'), 'preference': ('Prefer', b'%s=%s'),
                   'forwarded_param': ('Forwarded', b'%s=%s')}[table]

    def judge(data):
        q = quoted(data)
        if q is None or (table == 'preference' and data == b''):
            return None
        m = _response(header_entries=[(header, fmt % (key.encode(), q))])
        m.headers[_fn(header)].value
        return 1158 not in _ids(m)
    return judge


def judge_link(param):
    def judge(data):
        q = quoted(data)
        if q is None:
            return None
        p = b'%s=%s' % (param.encode(), q)
        m = _response(header_entries=[('Link', b'<a>; ' + p)])
        m.headers[_fn('Link')].value
        return 1158 not in _ids(m)
    return judge


def judge_alt_authority(data):
    q = quoted(data)
    if q is None:
        return None
    m = _response(header_entries=[('Alt-Svc', b'h2=' + q)])
    m.headers[_fn('Alt-Svc')].value
    return 1257 not in _ids(m)


def judge_bearer(param):
    def judge(data):
        from httpolice.exchange import Exchange
        from httpolice.exchange import check_exchange
        q = quoted(data)
        if q is None:
            return None
        r = _response(status=401, header_entries=[('WWW-Authenticate', b'Bearer realm="x", %s=%s' % (param.encode(), q))])
        x = Exchange(_request(), [r])
        check_exchange(x)
        return 1266 not in _ids(r)
    return judge


def _latin(data):
    return data.decode('iso-8859-1')


def judge_method(data):
    from httpolice.exchange import Exchange, check_exchange
    r = _request(method=_latin(data))
    check_exchange(Exchange(r, []))
    return 1292 not in _ids(r)


def judge_field_name(data):
    from httpolice.exchange import Exchange, check_exchange
    r = _request(header_entries=[('Host', b'h'), (_latin(data), b'x')])
    check_exchange(Exchange(r, []))
    return 1293 not in _ids(r)


def judge_reason(data):
    from httpolice.exchange import Exchange, check_exchange
    r = _response(reason=_latin(data))
    check_exchange(Exchange(None, [r]))
    return 1294 not in _ids(r)


def judge_target(method):
    def judge(data):
        r = _request(method=method, target=_latin(data))
        r.target_form
        return 1045 not in _ids(r)
    return judge


def table_symbol(table, key):
    def get():
        from httpolice import known
        t = getattr(known, table)
        for k in t:
            if str(k).lower() == key.lower():
                return t.syntax_for(k)
        return None
    return get


def module_symbol(module, name):
    def get():
        import importlib
        return getattr(importlib.import_module(module), name, None)
    return get


G = None


def grammar():
    global G
    if G is None:
        G = abnf.Grammar()
        # RFC 7230 section 5.3: which forms a method may use
        G.rules['connect-target'] = 'authority-form'
        G.rules['options-target'] = 'origin-form / asterisk-form / absolute-form'
        G.rules['normal-target'] = 'origin-form / absolute-form'
    return G


def units():
    """(name, how to get the live symbol, specification rule, trimmed values only, judge or None)"""
    out = []
    for h in abnf.HEADERS:
        out.append(('header ' + h, table_symbol('header', h), h, True, judge_header(h)))
    for (t, k), rule in sorted(abnf.ARGUMENTS.items()):
        out.append(('argument %s %s' % (t, k), table_symbol(t, k), rule, True, judge_argument(t, k)))
    judges = {('rfc7230', 'method'): judge_method, ('rfc7230', 'field_name'): judge_field_name,
              ('rfc7230', 'reason_phrase'): judge_reason,
              ('rfc8288', 'anchor'): judge_link('anchor'), ('rfc8288', 'rel'): judge_link('rel'),
              ('rfc8288', 'rev'): judge_link('rev'), ('rfc8288', 'hreflang'): judge_link('hreflang'),
              ('rfc8288', 'type_'): judge_link('type')}
    for p in ('error', 'error_description', 'scope', 'error_uri'):
        judges[('rfc6749', p)] = judge_bearer(p)
    for (m, n), rule in sorted(abnf.SYMBOLS.items()):
        out.append(('symbol %s.%s' % (m, n), module_symbol('httpolice.syntax.' + m, n), rule, False, judges.get((m, n))))
    out.append(('Link title*', module_symbol('httpolice.syntax.rfc8288', 'ext_value'), 'ext-value', False, judge_link('title*')))
    for name, meth in (('connect_target', 'CONNECT'), ('options_target', 'OPTIONS'), ('normal_target', 'GET')):
        out.append(('target of ' + meth, module_symbol('httpolice.request', name), name.replace('_', '-'), False, judge_target(meth)))
    out.append(('target of an unknown method', module_symbol('httpolice.request', 'normal_target'), 'normal-target', False,
                judge_target('get')))
    out.append(('Alt-Svc alt-authority', None, 'alt-authority', False, judge_alt_authority))
    return out
