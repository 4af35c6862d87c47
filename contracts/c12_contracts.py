"""C12: contracts of the payload properties of messages."""
import codecs
import json as json_module

import z3

from contracts import ghost
from contracts.relcheck import calls, engine, rel
from pyvc.engine import NTuple, PyRaise, as_z3
from pyvc.relational import Splat
from pyvc.terms import SBool, SInt, SV, SObj, const, fn, V, I, B

import defusedxml
import defusedxml.ElementTree
import xml.etree.ElementTree
from httpolice import codings, known, message, request, response
from httpolice.blackboard import Blackboard
from httpolice.known import cc, media, st
from httpolice.structure import Unavailable, okay
from httpolice.util import data as util_data, text as util_text

P = 'C12'
M = 'httpolice.message.Message.'


# ---- specifications

def spec_decoded(msg):
    """Codings undone from last to first until one cannot be undone (or nothing is left)."""
    r = msg.body
    rest = msg.headers.content_encoding.value[:]
    while rest and okay(r) and r:
        coding = rest.pop()
        if coding == cc.gzip or coding == cc.x_gzip:
            how = codings.decode_gzip
        elif coding == cc.deflate:
            how = codings.decode_deflate
        elif coding == cc.br:
            how = codings.decode_brotli
        else:
            if okay(coding):
                msg.complain(1036, coding=coding)
            r = Unavailable(r)
            continue
        try:
            r = how(r)
        except Exception as e:
            msg.complain(1037, coding=coding, error=e)
            r = Unavailable(r)
    return r


def spec_charset(msg):
    """The declared charset or UTF-8, if the payload (when known) decodes entirely."""
    name = 'utf-8'
    if msg.headers.content_type.is_okay:
        name = msg.headers.content_type.param.get(u'charset', 'utf-8')
    try:
        name = codecs.lookup(name).name
    except LookupError:
        return None
    except UnicodeError:
        return None
    if okay(msg.decoded_body):
        try:
            msg.decoded_body.decode(name)
        except LookupError:
            return None
        except UnicodeError:
            return None
    return name


def spec_text(msg):
    if not okay(msg.decoded_body):
        return msg.decoded_body
    if not okay(msg.guessed_charset):
        return Unavailable(msg.decoded_body)
    return msg.decoded_body.decode(msg.guessed_charset)


def spec_json(msg):
    ct = msg.headers.content_type
    if not ct.is_okay or not known.media_type.is_json(ct.item):
        return None
    if not okay(msg.unicode_body) or not msg.content_is_full:
        return None
    try:
        data = json_of(msg.unicode_body)
    except RecursionError:
        return Unavailable(msg.unicode_body)
    except ValueError as e:
        msg.complain(1038, error=e)
        return Unavailable(msg.unicode_body)
    if msg.guessed_charset not in ['ascii', 'utf-8', None]:
        msg.complain(1281)
    return data


def json_of(text):
    raise NotImplementedError


def xml_of(data):
    raise NotImplementedError


def email_of(data):
    raise NotImplementedError


def spec_xml(msg):
    ct = msg.headers.content_type
    if not ct.is_okay or not known.media_type.is_xml(ct.item):
        return None
    if not okay(msg.decoded_body) or not msg.content_is_full:
        return None
    try:
        return xml_of(msg.decoded_body)
    except defusedxml.EntitiesForbidden:
        msg.complain(1275)
    except xml.etree.ElementTree.ParseError as e:
        msg.complain(1039, error=e)
    except UnicodeError as e:
        msg.complain(1039, error=e)
    except (LookupError, ValueError):
        pass
    return Unavailable(msg.decoded_body)


def spec_multipart(msg):
    ct = msg.headers.content_type
    if not ct.is_okay or not known.media_type.is_multipart(ct.item):
        return None
    if not okay(msg.decoded_body) or not msg.content_is_full:
        return None
    try:
        parsed = email_of(b'Content-Type: ' + ct.entries[0].value + b'\r\n\r\n' + msg.decoded_body)
    except RecursionError:
        return Unavailable(msg.decoded_body)
    for d in parsed.defects:
        if isinstance(d, message.email.errors.NoBoundaryInMultipartDefect):
            msg.complain(1139)
        elif isinstance(d, message.email.errors.StartBoundaryNotFoundDefect):
            msg.complain(1140)
    if parsed.is_multipart():
        return parsed
    return Unavailable(msg.decoded_body)


def good_char(c):
    return message.URL_ENCODED_GOOD_CHARS[ord(c)]


def parsed_form(text):
    raise NotImplementedError


def bytes_in(data):
    raise NotImplementedError


def spec_form(msg):
    if not (msg.headers.content_type == media.application_x_www_form_urlencoded):
        return None
    if not okay(msg.decoded_body) or not msg.content_is_full:
        return None
    for c in bytes_in(msg.decoded_body):
        if not good_char(c):
            msg.complain(1040, char=util_text.format_chars([c]))
            return Unavailable(msg.decoded_body)
    return parsed_form(msg.decoded_body.decode('ascii'))


def spec_display(msg):
    how = []
    if msg.headers.transfer_encoding:
        how.append(u'removing Transfer-Encoding')
    pretty = None
    if okay(msg.json_data):
        try:
            pretty = pretty_json(msg.json_data)
        except RecursionError:
            pretty = None
    if pretty is not None or okay(msg.unicode_body) or okay(msg.decoded_body):
        if msg.headers.content_encoding:
            how.append(u'removing Content-Encoding')
    if pretty is not None or okay(msg.unicode_body):
        if msg.guessed_charset and msg.guessed_charset != 'utf-8':
            how.append(u'decoding from %s' % msg.guessed_charset)
    if pretty is not None:
        r = pretty
        how.append(u'pretty-printing')
    elif okay(msg.unicode_body):
        r = msg.unicode_body
    elif okay(msg.decoded_body):
        r = msg.decoded_body.decode('utf-8', 'replace')
    elif okay(msg.body):
        r = msg.body.decode('utf-8', 'replace')
    else:
        return msg.body, []
    if len(r) > 1000:
        r = r[:1000]
        how.append(u'taking the first 1000 characters')
    if util_text.printable(r) != r:
        how.append(u'replacing non-printable characters with the \ufffd sign')
    return util_text.printable(r), how


def pretty_json(data):
    raise NotImplementedError


def spec_full(resp):
    if resp.status == st.not_modified or resp.status == st.early_hints:
        return False
    if resp.status == st.partial_content and not (resp.headers.content_type == media.multipart_byteranges):
        return False
    if okay(resp.request):
        return not (resp.request.method == known.m.HEAD)
    return bool(resp.body)


# ---- symbolic inputs and contracts of callees

class GhostView:
    """A header view as C07 specifies it: only what the payload code looks at."""

    def __bool__(self):
        return self.truth_value

    def __eq__(self, other):
        raise NotImplementedError

    def __ne__(self, other):
        raise NotImplementedError


def view(name, **attrs):
    v = SObj(GhostView, {'name_': name, 'truth_value': SBool(const(name + '_is_true', B))}, ident=name, meta={'external': True})
    v.attrs.update(attrs)
    return v


RAISED = {}


def raising(name, e, args, excs, result=None):
    """The call either gives its (unknown) result or raises one of `excs`."""
    t = [e.to_v(a) for a in args]
    for exc in excs:
        if e.decide(fn('%s_raises_%s' % (name, exc.__name__), [V] * len(t), B)(*t)):
            raise PyRaise(RAISED.setdefault((name, exc), make_exc(exc)))
    return e.app(name, args) if result is None else result()


def make_exc(exc):
    if exc is UnicodeDecodeError:
        return exc('x', b'x', 0, 1, 'x')
    if exc is UnicodeError:
        return exc('x')
    return exc(*['x'] * 6) if issubclass(exc, defusedxml.DefusedXmlException) else exc('x')


def decode_method(e, body, args, kw):
    if len(args) > 1 or 'errors' in kw:
        return e.app('decode_' + str(args[1] if len(args) > 1 else kw['errors']), [body, args[0]])
    if args and isinstance(args[0], str) and args[0] == 'ascii':
        # lemma (checked exhaustively by props/c12.py): every character let through is ASCII
        return e.app('decode', [body, 'ascii'])
    return raising('decode', e, [body, args[0] if args else 'utf-8'], [LookupError, UnicodeDecodeError])


def prepare():
    eng = engine()
    ghost.install(eng)
    C = eng.contracts
    C[Blackboard.complain] = lambda e, a, k: e.effect('complain', a[0], a[1], dict(sorted(k.items())))
    for f in (codings.decode_gzip, codings.decode_deflate, codings.decode_brotli):
        C[f] = lambda e, a, k, f=f: raising(f.__name__, e, a, [Exception])
    C[codecs.lookup] = lambda e, a, k: raising('lookup', e, a, [LookupError, UnicodeDecodeError])
    C[GhostView.__eq__] = lambda e, a, k: e.app('view_eq', [a[0].ident, a[1]], rng=B)
    C[GhostView.__ne__] = lambda e, a, k: SBool(z3.Not(e.app('view_eq', [a[0].ident, a[1]], rng=B).t))
    for n in ('is_json', 'is_xml', 'is_multipart'):
        C[getattr(known.MediaTypeKnowledge, n)] = lambda e, a, k, n=n: e.app(n, a[1:], rng=B)

    def loads(e, a, k):
        e.effect('json', a[0], sorted(k))
        return raising('json_of', e, a[:1], [RecursionError, ValueError])
    C[message.json.loads] = lambda e, a, k: raising('json_of' if k.get('parse_int') is message._parse_json_int and
                                                    k.get('parse_constant') is message._reject_json_constant and len(k) == 2
                                                    else 'otherwise_read_json', e, a[:1], [RecursionError, ValueError])
    C[json_of] = lambda e, a, k: raising('json_of', e, a, [RecursionError, ValueError])
    C[message.json.dumps] = lambda e, a, k: raising('pretty_json' if k == {'indent': 2, 'ensure_ascii': False} else 'otherwise_shown_json',
                                                    e, a[:1], [RecursionError])
    C[pretty_json] = lambda e, a, k: raising('pretty_json', e, a, [RecursionError])
    xml_errors = [defusedxml.EntitiesForbidden, xml.etree.ElementTree.ParseError, UnicodeDecodeError, LookupError, ValueError]
    C[defusedxml.ElementTree.fromstring] = lambda e, a, k: raising('xml_of', e, a, xml_errors)
    C[xml_of] = lambda e, a, k: raising('xml_of', e, a, xml_errors)
    for f in (message.parse_email_message, email_of):
        C[f] = lambda e, a, k: raising('email_of', e, a, [RecursionError])
    C[ord] = lambda e, a, k: e.app('ord', a)
    C[util_text.format_chars] = lambda e, a, k: e.app('format_chars', a)
    C[util_text.printable] = lambda e, a, k: e.app('printable', a)
    for f in (message.parse_qs, parsed_form):
        C[f] = lambda e, a, k: e.app('parsed_form', a)
    for f in (util_data.iterbytes, bytes_in):
        C[f] = lambda e, a, k: e.app('bytes_in', a)
    eng.method_contracts['decode'] = decode_method
    eng.method_contracts['is_multipart'] = lambda e, o, a, k: e.app('is_multipart_message', [o], rng=B)
    eng.opaque_maps[id(message.URL_ENCODED_GOOD_CHARS)] = 'good_code'
    return eng


CODING = None


def msg(eng, cls=request.Request, **known_attrs):
    m = SObj(cls, {}, ident='msg', meta={'external': True})
    ct = const('content_type')
    entry = SObj(Entry, {'value': SV(const('content_type_text'))}, ident='entry', meta={'external': True})
    headers = SObj(Entry, {
        'content_encoding': view('content_encoding', value=[Splat(const('codings'))]),
        'transfer_encoding': view('transfer_encoding'),
        'content_type': view('content_type', is_okay=SBool(const('content_type_okay', B)), value=SV(ct),
                             item=plain(eng.getattr(SV(ct), 'item')), param=plain(eng.getattr(SV(ct), 'param')), entries=[entry]),
    }, ident='headers', meta={'external': True})
    m.attrs.update({'headers': headers, 'body': SV(const('body')), 'memoized': {}, 'status': SV(const('status')),
                    'request': SV(const('request'))})
    for n in known_attrs.get('given', ()):
        t = SBool(const(n, B)) if n == 'content_is_full' else SV(const(n))
        eng.attr_contracts[(message.Message, n)] = lambda e, o, t=t: t
    if 'decoded_body' in known_attrs.get('given', ()) and 'guessed_charset' in known_attrs['given']:
        # the contract of `guessed_charset`; case 'the guessed charset decodes the body'
        b, c, un = const('decoded_body'), const('guessed_charset'), eng.pred(Unavailable)
        for exc in (LookupError, UnicodeDecodeError):
            raises = fn('decode_raises_%s' % exc.__name__, [V, V], B)(b, c)
            eng.fact(z3.Implies(z3.And(*[z3.And(x != eng.lit(None), z3.Not(un(x))) for x in (b, c)]), z3.Not(raises)))
    return m


class Entry:
    pass


def truth_of(x):
    return bool(x)


def plain(x):
    return x.force() if hasattr(x, 'force') else x


def getter(name, cls=message.Message):
    p = vars(cls)[name]
    return getattr(p.fget, '__wrapped__', p.fget)


for _name, _spec, _given in (
        ('decoded_body', spec_decoded, []),
        ('guessed_charset', spec_charset, ['decoded_body']),
        ('unicode_body', spec_text, ['decoded_body', 'guessed_charset']),
        ('json_data', spec_json, ['unicode_body', 'decoded_body', 'guessed_charset', 'content_is_full']),
        ('xml_data', spec_xml, ['decoded_body', 'content_is_full']),
        ('multipart_data', spec_multipart, ['decoded_body', 'content_is_full']),
        ('url_encoded_data', spec_form, ['decoded_body', 'content_is_full'])):
    for _cls in (request.Request, response.Response):
        rel(P, '%s of %s' % (_name, _cls.__name__.lower()), [M + _name], prepare,
            lambda e, c=_cls, g=_given: (msg(e, c, given=g),), calls(getter(_name)), calls(_spec))
rel(P, 'content_is_full of response', ['httpolice.response.Response.content_is_full'], prepare,
    lambda e: (msg(e, response.Response),), lambda e, r: e.call_function(truth_of, [e.call_function(getter('content_is_full', response.Response), [r], {})], {}),
    calls(spec_full))


def decoded_by_spec(guess, m):
    c = guess(m)
    try:
        if okay(c) and okay(m.decoded_body):
            return m.decoded_body.decode(c)
    except LookupError:
        return None
    except UnicodeError:
        return None


def decoded_with(guess, m):
    c = guess(m)
    if okay(c) and okay(m.decoded_body):
        return m.decoded_body.decode(c)


for _cls in (request.Request, response.Response):
    # no exception may escape; decided by C18 as well as here (the specification's side raises none)
    rel(P, 'the guessed charset of a %s decodes its body' % _cls.__name__.lower(), [M + 'guessed_charset'], prepare,
        lambda e, c=_cls: (msg(e, c, given=['decoded_body']),),
        lambda e, m: e.call_function(decoded_with, [getter('guessed_charset'), m], {}),
        lambda e, m: e.call_function(decoded_by_spec, [spec_charset, m], {}))


def known_forms(have, lack):
    """The forms of the body that are (not) available."""
    def setup(eng):
        m = msg(eng, given=['json_data', 'unicode_body', 'decoded_body', 'guessed_charset'])
        un = eng.pred(Unavailable)
        for n in have:
            eng.fact(z3.And(const(n) != eng.lit(None), z3.Not(un(const(n)))))
        for n in lack:
            eng.fact(z3.Or(const(n) == eng.lit(None), un(const(n))))
        return (m,)
    return setup


FORMS = ['json_data', 'unicode_body', 'decoded_body', 'body']
# the five cases are exhaustive: the first form that is available, or none
for _i, _f in enumerate(FORMS + [None]):
    rel(P, 'displayable_body when %s' % ('the first available form is ' + _f if _f else 'nothing is available'),
        [M + 'displayable_body'], prepare, known_forms([_f] if _f else [], FORMS[:_i]),
        calls(getter('displayable_body')), calls(spec_display))


# ---- the memo behind every derived property: the getter runs at most once, and an assignment replaces it

class Probe(Blackboard):
    @message.derived_property
    def probed(self):
        return probe(self)


def probe(x):
    raise NotImplementedError


def spec_get(known_value, x):
    """-> (value, the memo afterwards)"""
    if 'probed' in known_value:
        return known_value['probed'], known_value
    r = probe(x)
    return r, dict(known_value, probed=r)


def memo_setup(kind):
    def prepare_memo():
        eng = engine()
        eng.contracts[probe] = lambda e, a, k: (e.effect('probe', a[0].ident), e.app('probed', [a[0].ident]))[1]
        return eng

    def setup(eng):
        memo = {'other': SV(const('other'))}
        if kind == 'known':
            memo['probed'] = SV(const('memo'))
        return (SObj(Probe, {'memoized': memo}, ident='board', meta={'external': True}), memo)
    return prepare_memo, setup


READ, ASSIGN = vars(Probe)['probed'].fget, vars(Probe)['probed'].fset


def get_twice(board, memo):
    return READ(board), READ(board), board.memoized


def get_twice_spec(board, memo):
    r, after = spec_get(memo, board)
    return r, r, after


def assign_then_get(board, memo):
    ASSIGN(board, 5)
    return READ(board), board.memoized


def assign_then_get_spec(board, memo):
    return 5, dict(memo, probed=5)


for _kind in ('known', 'unknown'):
    _prep, _setup = memo_setup(_kind)
    rel(P, 'derived property read when %s' % _kind, ['httpolice.blackboard.derived_property'], _prep, _setup,
        calls(get_twice), calls(get_twice_spec))
    rel(P, 'derived property assigned when %s' % _kind, ['httpolice.blackboard.derived_property'], _prep, _setup,
        calls(assign_then_get), calls(assign_then_get_spec))


# ---- gzip: every member is decoded and complete, nothing is left over

class GhostInflater:
    """zlib.decompressobj: fed once, then asked."""

    def decompress(self, data):
        raise NotImplementedError


def spec_gzip(data):
    out = []
    rest = data
    while rest or not out:
        text, complete, left = inflated(rest)
        out.append(text)
        if not complete:
            raise codings.zlib.error('truncated')
        rest = left
    return b''.join(out)


def inflated(data):
    raise NotImplementedError


def prepare_gzip():
    eng = engine()
    C = eng.contracts
    C[codings.zlib.decompressobj] = lambda e, a, k: e.born(SObj(GhostInflater, {'wbits': a[0]}, meta={'constructed': True}))

    def feed(e, a, k):
        me, data = a
        if 'eof' in me.attrs or me.attrs['wbits'] != 31:
            return raising('otherwise_inflated', e, [data], [codings.zlib.error])
        r = raising('inflate', e, [data], [codings.zlib.error])
        me.attrs['eof'] = e.app('complete', [data], rng=B)
        me.attrs['unused_data'] = e.app('left', [data])
        return r
    C[GhostInflater.decompress] = feed
    C[inflated] = lambda e, a, k: (raising('inflate', e, a, [codings.zlib.error]), e.app('complete', a, rng=B), e.app('left', a))
    return eng


rel(P, 'decode_gzip', ['httpolice.codings.decode_gzip'], prepare_gzip, lambda e: (SV(const('data')),),
    calls(codings.decode_gzip), calls(spec_gzip))


# ---- iterbytes: every byte, in order

rel(P, 'decode_deflate', ['httpolice.codings.decode_deflate'], lambda: zl(codings.zlib.decompress, 'zlib'),
    lambda e: (SV(const('data')),), calls(codings.decode_deflate), lambda e, d: raising('zlib', e, [d], [ValueError]))
rel(P, 'decode_brotli', ['httpolice.codings.decode_brotli'], lambda: zl(codings.brotli.decompress, 'brotli'),
    lambda e: (SV(const('data')),), calls(codings.decode_brotli), lambda e, d: raising('brotli', e, [d], [ValueError]))


def zl(f, name):
    eng = engine()
    eng.contracts[f] = lambda e, a, k: raising(name if not k and len(a) == 1 else 'otherwise_' + name, e, a, [ValueError])
    return eng
