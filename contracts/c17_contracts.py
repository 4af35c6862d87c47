"""C17: contracts of the input from HAR files and of the helper functions for header lists."""
import base64
import io
import json
from urllib.parse import urlparse, urlsplit

import z3

from contracts.relcheck import calls, engine, rel
from pyvc.engine import PyRaise
from pyvc.relational import Splat
from pyvc.terms import SBool, SInt, SV, SObj, const, fn, V, I, B

from httpolice import helpers
from httpolice.exchange import Exchange
from httpolice.inputs import har
from httpolice.inputs.common import InputError
from httpolice.known import h, m, st
from httpolice.request import Request
from httpolice.response import Response
from httpolice.structure import FieldName, StatusCode, Unavailable
from httpolice.util.text import decode_path, force_bytes, force_unicode

P = 'C17'
H = 'httpolice.inputs.har.'
G = 'httpolice.helpers.'


class Made:
    """A request or response under construction: plain attributes."""


class MadeRequest(Made):
    pass


class MadeResponse(Made):
    pass


class MadeExchange(Made):
    pass


class Gone:
    """An unavailable body."""


def text(name):
    return SV(const(name))


def made(cls, names, defaults):
    def handler(e, a, k):
        attrs = dict(defaults)
        attrs.update(zip(names, a))
        attrs.update(k)
        return e.born(SObj(cls, attrs, meta={'constructed': True}))
    return handler


def status_code(e, a, k):
    return SInt(e.to_int(a[0]), StatusCode)


def decode64(e, a, k):
    if len(a) > 1 or k:
        return e.app('otherwise_decoded', list(a) + list(k.values()))
    if e.decide(fn('not_base64', [V], B)(e.to_v(a[0]))):
        raise PyRaise(ValueError('not base64'))
    return SV(fn('from_base64', [V], V)(e.to_v(a[0])), bytes)


URL_PARTS = ('scheme', 'netloc', 'path', 'query', 'fragment')


class Url:
    pass


def url_parts(e, a, k):
    return SObj(Url, {n: SV(fn('url_' + n, [V], V)(e.to_v(a[0])), str) for n in URL_PARTS}, ident='url of %s' % e.to_v(a[0]),
                meta={'external': True})


def url_parts_with_parameters(e, a, k):
    """Here the path is cut at a semicolon in its last segment."""
    r = url_parts(e, a, k)
    r.attrs['path'] = SV(fn('url_path_before_parameters', [V], V)(e.to_v(a[0])), str)
    r.attrs['params'] = SV(fn('url_parameters', [V], V)(e.to_v(a[0])), str)
    return r


def gone(e, a, k):
    return SV(const('unavailable'))


def message_engine():
    eng = engine()
    C = eng.contracts
    C[Request] = made(MadeRequest, ('scheme', 'method', 'target', 'version', 'header_entries', 'body', 'trailer_entries', 'remark'),
                      {'trailer_entries': None, 'remark': None})
    C[Response] = made(MadeResponse, ('version', 'status', 'reason', 'header_entries', 'body', 'trailer_entries', 'remark'),
                       {'trailer_entries': None, 'remark': None})
    C[Exchange] = made(MadeExchange, ('request', 'responses'), {})
    C[Unavailable] = gone
    C[StatusCode] = status_code
    C[FieldName] = lambda e, a, k: SV(fn('field_name', [V], V)(e.to_v(a[0])), str)
    C[urlsplit] = url_parts
    C[urlparse] = url_parts_with_parameters
    C[base64.b64decode] = decode64
    C[har._process_message] = lambda e, a, k: (SV(fn('version_of', [V, V], V)(e.to_v(SV(const('data'))), e.to_v(a[1])), str),
                                              e.born([Splat(const('entries'), {'make': entry})]))
    C[spec_message] = C[har._process_message]
    return eng


def entry(e, t):
    return (SV(fn('entry_name', [V], V)(t), str), SV(fn('entry_value', [V], V)(t), str))


def number(name):
    return SInt(const(name, I), int)


# ---- requests

def body_of(size):
    if size == 0:
        return b''
    if size > 0:
        return Unavailable()
    return None


def spec_message(data, creator):
    """-> version, header entries"""
    for d in data['headers']:
        need(str, d['name'])
    entries = [(FieldName(d['name']), d['value']) for d in data['headers']]
    helpers.pop_pseudo_headers(entries)
    if creator == u'WebInspector' or creator == u'Firefox' or creator == u'F12 Developer Tools':
        return None, entries
    if data['httpVersion'].startswith(u'HTTP/'):
        return data['httpVersion'], entries
    return None, entries


def need(type_, value):
    if not isinstance(value, type_) or isinstance(value, bool):
        raise TypeError


def spec_request(data, creator, path):
    need(str, data['method'])
    need(str, data['url'])
    version, entries = spec_message(data, creator)
    url = urlsplit(data['url'])
    if data['method'] == m.CONNECT:
        target = url.netloc
    elif any(name == h.host for (name, _) in entries):
        target = url.path
        if u'?' in data['url'].partition(u'#')[0]:
            target += u'?' + url.query
    else:
        target = data['url']
    body = body_of(data['bodySize'])
    known = None
    if data.get('postData') and data['postData'].get('text'):
        known = data['postData']['text']
        need(str, known)
        if creator == u'Fiddler' and data['method'] == m.CONNECT and u'Fiddler' in known:
            known = None
            body = b''
    r = Request(url.scheme, data['method'], target, version, entries, body, remark=u'from %s' % path)
    if known is not None:
        r.unicode_body = known
    r.is_to_proxy = None
    return r


def request_data(form):
    def setup(eng):
        data = {'method': text('method'), 'url': text('url'), 'bodySize': number('bodySize'), 'httpVersion': text('httpVersion'),
                'headers': [Splat(const('headers'))]}
        if form != 'absent':
            data['postData'] = {} if form == 'empty' else {'mimeType': text('mime')} if form == 'no text' else {'text': text('posted')}
        return data, SV(const('creator'), str), text('path')
    return setup


for _form in ('absent', 'empty', 'no text', 'text'):
    rel(P, '_process_request postData=%s' % _form, [H + '_process_request'], message_engine, request_data(_form),
        calls(har._process_request), calls(spec_request))


# ---- responses

def spec_response(data, req, creator, path):
    if data['status'] == 0:
        return None
    need(int, data['status'])
    need(str, data['statusText'])
    if data['content'].get('text'):
        need(str, data['content']['text'])
    version, entries = spec_message(data, creator)
    status = StatusCode(data['status'])
    tunnel = creator == u'Fiddler' and req.method == m.CONNECT and 200 <= data['status'] < 300
    if tunnel:
        entries = [(name, value) for (name, value) in entries if name not in (u'EndTime', u'ClientToServerBytes', u'ServerToClientBytes')]
    content = data['content']
    if data['bodySize'] == 0 or content['size'] == 0 or data['status'] == 304:
        body = b''
    elif creator == u'Firefox':
        body = None
    elif data['bodySize'] > 0 or content['size'] > 0:
        body = Unavailable()
    else:
        body = None
    r = Response(version, status, data['statusText'], entries, body=body, remark=u'from %s' % path)
    if not content.get('text') or data['status'] == 304:
        return r
    if 'encoding' not in content:
        r.unicode_body = content['text']
    elif content['encoding'].lower() == u'base64':
        try:
            decoded = base64.b64decode(content['text'])
        except ValueError:
            return r
        if tunnel and b'Fiddler' in decoded:
            r.body = b''
        else:
            r.decoded_body = decoded
    return r


def response_data(has_text, has_encoding):
    def setup(eng):
        content = {'size': number('size')}
        if has_text:
            content['text'] = text('text')
        if has_encoding:
            content['encoding'] = text('encoding')
        data = {'status': number('status'), 'statusText': text('statusText'), 'bodySize': number('bodySize'),
                'httpVersion': text('httpVersion'), 'headers': [Splat(const('headers'))], 'content': content}
        req = SObj(MadeRequest, {'method': text('method')}, ident='the request', meta={'external': True})
        return data, req, SV(const('creator'), str), text('path')
    return setup


for _text in (True, False):
    for _encoding in (True, False):
        rel(P, '_process_response text=%s encoding=%s' % (_text, _encoding), [H + '_process_response'], message_engine,
            response_data(_text, _encoding), calls(har._process_response), calls(spec_response))


# ---- the common part

def part_engine():
    eng = message_engine()
    C = eng.contracts
    del C[har._process_message], C[spec_message]

    def pop(e, a, k):
        e.mutate(a[0])
        t = e.to_v(a[0])
        a[0][:] = [Splat(fn('without_pseudo', [V], V)(t))]
        return e.app('pseudo', [SV(t)])
    C[helpers.pop_pseudo_headers] = C[har.pop_pseudo_headers] = pop
    return eng


def header_item(e, t):
    return {'name': SV(fn('item_name', [V], V)(t), str), 'value': SV(fn('item_value', [V], V)(t), str)}


rel(P, '_process_message', [H + '_process_message'], part_engine,
    lambda e: ({'headers': [Splat(const('headers'), {'make': header_item})], 'httpVersion': text('httpVersion')}, SV(const('creator'), str)),
    calls(har._process_message), calls(spec_message))


# ---- entries and files

def spec_entry(data, creator, path):
    req = har._process_request(data['request'], creator, path)
    resp = har._process_response(data['response'], req, creator, path)
    if resp is None:
        return Exchange(req, [])
    return Exchange(req, [resp])


def entry_engine():
    eng = message_engine()
    eng.contracts[har._process_request] = lambda e, a, k: e.app('request_of', a)
    eng.contracts[har._process_response] = lambda e, a, k: e.app('response_of', a)
    return eng


rel(P, '_process_entry', [H + '_process_entry'], entry_engine,
    lambda e: ({'request': SV(const('request')), 'response': SV(const('response'))}, SV(const('creator'), str), text('path')),
    calls(har._process_entry), calls(spec_entry))


class GhostFile:
    def __enter__(self):
        return self

    def __exit__(self, *exc):
        close(self)
        return False


def close(f):
    raise NotImplementedError


class Json:
    """A value read from a JSON file."""

    def __getitem__(self, key):
        raise NotImplementedError

    def __iter__(self):
        return members(self)


def members(x):
    raise NotImplementedError


def open_text(e, a, k):
    mode = k.get('mode', a[1] if len(a) > 1 else 'r')
    enc = k.get('encoding', a[3] if len(a) > 3 else None)
    if str(mode) not in ('rt', 'r') or not isinstance(enc, str) or enc.lower().replace('_', '-') != 'utf-8-sig' or set(k) - {'encoding', 'mode'}:
        return e.app('otherwise_opened', a)
    e.effect('open', a[0])
    return SObj(GhostFile, {'path': a[0]}, ident='file of %s' % e.to_v(a[0]), meta={'external': True})


def json_load(e, a, k):
    p = e.to_v(a[0].attrs['path'])
    for i, x in enumerate((ValueError('bad JSON'), UnicodeDecodeError('utf-8', b'', 0, 1, 'x'), RecursionError('too deep'))):
        if e.decide(fn('load_fails_%d' % i, [V], B)(p)):
            raise PyRaise(x)
    return json_value(e, fn('json_of', [V], V)(p))


def json_value(e, t):
    return SObj(Json, {'t': SV(t)}, ident='json %s' % t, meta={'external': True})


def json_item(e, a, k):
    t, key = a[0].attrs['t'].t, e.to_v(a[1])
    if e.decide(fn('no_mapping', [V], B)(t)):
        raise PyRaise(TypeError('not a mapping'))
    if e.decide(z3.Not(fn('has_item', [V, V], B)(t, key))):
        raise PyRaise(KeyError('missing'))
    return json_value(e, fn('item', [V, V], V)(t, key))


def json_members(e, a, k):
    t = a[0].attrs['t'].t
    if e.decide(fn('not_iterable', [V], B)(t)):
        raise PyRaise(TypeError('not iterable'))
    return SV(fn('members', [V], V)(t))


def made_exchange(e, a, k):
    t = e.to_v(e.app('exchange_of', [x.attrs['t'] if isinstance(x, SObj) else x for x in a]))
    for i, x in enumerate((AttributeError('a'), KeyError('k'), TypeError('t'), ValueError('v'), IndexError('i'), OverflowError('o'))):
        if i < 4 and e.decide(fn('entry_fails_%d' % i, [V], B)(t)):
            raise PyRaise(x)
    return SV(t)


def input_error(e, a, k):
    return e.born(SObj(InputError, {}, meta={'constructed': True}))


def har_engine():
    eng = engine()
    C = eng.contracts
    C[io.open] = C[open] = open_text
    C[json.load] = json_load
    C[close] = lambda e, a, k: e.effect('close', a[0].attrs['path'])
    C[Json.__getitem__] = json_item
    C[members] = json_members
    C[har._process_entry] = made_exchange
    C[decode_path] = C[har.decode_path] = lambda e, a, k: SV(fn('decode_path', [V], V)(e.to_v(a[0])), str)
    return eng


def spec_har(paths):
    for path in paths:
        with io.open(decode_path(path), 'rt', encoding='utf-8-sig') as f:
            try:
                data = json.load(f)
            except Exception:
                raise InputError(u'bad')
            try:
                creator = data['log']['creator']['name']
                for one in data['log']['entries']:
                    yield har._process_entry(one, creator, decode_path(path))
            except Exception:
                raise InputError(u'bad')


rel(P, 'har_input', [H + 'har_input'], har_engine, lambda e: ([Splat(const('paths'))],), calls(har.har_input), calls(spec_har))


# ---- helpers

def helper_engine():
    eng = engine()
    return eng


def spec_pop(entries):
    """Drops the entries whose name starts with a colon; the last value of each such name is returned."""
    removed = {}
    i = 0
    while i < len(entries):
        if entries[i][0].startswith(u':'):
            removed[entries[i][0]] = entries[i][1]
            del entries[i]
        else:
            i += 1
    return removed


def spec_name(cgi_name):
    name = cgi_name[5:] if cgi_name.startswith('HTTP_') else cgi_name
    return force_unicode(u'-'.join(word.title() for word in name.split('_')))


def spec_value(value):
    return force_bytes(value if isinstance(value, (str, bytes)) else str(value))


def cgi_engine():
    eng = engine()
    C = eng.contracts
    for f in (force_bytes, force_unicode):
        C[f] = C[getattr(helpers, f.__name__)] = lambda e, a, k, f=f: e.app(f.__name__, a)
    return eng


rel(P, '_header_name_from_cgi', [G + '_header_name_from_cgi'], cgi_engine, lambda e: (text('name'),), calls(helpers._header_name_from_cgi), calls(spec_name))
for _t in ('str', 'bytes', None):
    rel(P, '_header_value_from_cgi %s' % _t, [G + '_header_value_from_cgi'], cgi_engine,
        lambda e, t=_t: (SV(const('value'), {'str': str, 'bytes': bytes, None: int}[t]),), calls(helpers._header_value_from_cgi), calls(spec_value))


def spec_cgi(cgi):
    """Host, Content-Length and Content-Type first, when they are set; then every other HTTP_ variable in its order."""
    chosen = []
    for first in ['HTTP_HOST', 'CONTENT_LENGTH', 'CONTENT_TYPE']:
        if cgi.get(first):
            chosen.append(first)
    for key in cgi:
        if key.startswith('HTTP_') and key not in chosen:
            chosen.append(key)
    return [(helpers._header_name_from_cgi(key), helpers._header_value_from_cgi(cgi[key])) for key in chosen]


class Environ:
    def __getitem__(self, key):
        return environ_value(key)

    def get(self, key, default=None):
        return environ_get(key)

    def __iter__(self):
        return environ_keys()


def environ_value(key):
    raise NotImplementedError


def environ_get(key):
    raise NotImplementedError


def environ_keys():
    raise NotImplementedError


def environ_engine():
    eng = engine()
    C = eng.contracts
    C[environ_value] = lambda e, a, k: e.app('environ', a)
    C[environ_get] = lambda e, a, k: e.app('environ_or_none', a)
    C[environ_keys] = lambda e, a, k: SV(const('environ_keys'))
    C[helpers._header_name_from_cgi] = lambda e, a, k: e.app('name_from_cgi', a)
    C[helpers._header_value_from_cgi] = lambda e, a, k: e.app('value_from_cgi', a)
    return eng


rel(P, 'headers_from_cgi', [G + 'headers_from_cgi'], environ_engine, lambda e: (SObj(Environ, {}, ident='environ', meta={'external': True}),),
    calls(helpers.headers_from_cgi), calls(spec_cgi))


class Entries:
    """A list of header entries whose contents are a logical value."""

    def __len__(self):
        return entries_len(self.t)

    def __getitem__(self, i):
        return entries_at(self.t, i)

    def __delitem__(self, i):
        self.t = entries_without(self.t, i)

    def pop(self, i):
        r = entries_at(self.t, i)
        self.t = entries_without(self.t, i)
        return r


def entries_len(t):
    raise NotImplementedError


def entries_at(t, i):
    raise NotImplementedError


def entries_without(t, i):
    raise NotImplementedError


def pop_engine():
    eng = engine()
    C = eng.contracts
    C[entries_len] = lambda e, a, k: SInt(fn('entries_len', [V], I)(e.to_v(a[0])), int)
    C[entries_at] = lambda e, a, k: (e.app('name_at', a), e.app('value_at', a))
    C[entries_without] = lambda e, a, k: e.app('entries_without', a)
    return eng


def pop_setup(e):
    return (e.born(SObj(Entries, {'t': SV(const('entries'))}, meta={'internal': True})),)


rel(P, 'pop_pseudo_headers', [G + 'pop_pseudo_headers'], pop_engine, pop_setup, calls(helpers.pop_pseudo_headers), calls(spec_pop),
    observe=lambda x: x.attrs['t'])
