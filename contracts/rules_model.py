"""Symbolic messages and callee contracts for the notice rules (C13, C14, C15)."""
import base64
import types
from datetime import datetime, timedelta

import z3

from contracts import known_facts, rules_spec
from pyvc.engine import Engine, PyRaise, And, as_z3, is_sym
from pyvc.terms import SBool, SInt, SV, SComp, SObj, V, B, I, TRUTH, MEM, LEN, fn, const

from httpolice import blackboard, header, known, message, parse as parse_mod, request, response, structure
from httpolice.structure import EntityTag, StatusCode, Unavailable


class StrLike(dict):
    pass


CI = {'ci': True}
PARAM = {'eq_field': 'item', 'attrs': {'item': CI, 'param': None}}


def code_attr(eng, x):
    return SInt(z3.Function('v2i', V, I)(eng.app('getitem0', [x]).t))


WARNING = {'eq_field': 'code', 'attrs': {'code': code_attr, 'date': None}}
NAME = {'ci': True, 'isinstance': {str: True}}
AUTH = {'items': {0: {'ci': True}}, 'attrs': {'item': {'ci': True}, 'param': None, 'scheme': {'ci': True}}}
ETAG = {'cls_methods': EntityTag}

# Element hints: facts about the parsed values of headers that the grammars of C05 establish.
ELEM = {
    'cache-control': PARAM, 'preference-applied': PARAM, 'warning': WARNING,
    'connection': CI, 'vary': CI, 'trailer': CI, 'content-encoding': CI,
    'if-none-match': ETAG, 'if-match': ETAG,
}
VALUE = {'etag': ETAG, 'if-range': ETAG, 'authorization': AUTH, 'proxy-authorization': AUTH}


def make_engine():
    eng = Engine(inline=lambda f: (f.__module__ or '').split('.')[0] in ('httpolice', 'contracts'))
    eng.max_paths = 3000
    C = eng.contracts

    # -- registries: the live look-ups and the specification's frozen ones are identified; equality of
    #    the tables themselves is the exhaustive obligation `tables`.
    owner = {}
    for name in known_facts.LOOKUPS:
        owner[id(getattr(known, name))] = name

    def k_app(obj, pred, args, rng_bool=False):
        return eng.app('K:%s.%s' % (obj, pred), args)

    def mk_lookup(pred):
        def h(e, args, kw):
            self, key = args[0], args[1]
            obj = owner.get(id(self), 'other%s' % type(self).__name__)
            if not isinstance(key, (SV, SInt)):
                return getattr(self, pred)(key)
            return k_app(obj, pred, [key])
        return h
    classes = {}
    for obj, preds in known_facts.LOOKUPS.items():
        k = getattr(known, obj)
        for p in preds:
            f = type(k).__dict__.get(p)
            if f is None:
                for b in type(k).__mro__:
                    if p in b.__dict__:
                        f = b.__dict__[p]
                        break
            C[f] = mk_lookup(p)

    def k_contains(e, args, kw):
        self, key = args[0], args[1]
        if not isinstance(key, (SV, SInt)):
            return key in self
        return e.app('listed:' + owner.get(id(self), '?'), [key], rng=B)
    C[known.Knowledge.__contains__] = k_contains

    def spec_K(e, args, kw):
        obj, pred, key = args
        if not isinstance(key, (SV, SInt)):
            return known_facts.K(obj, pred, key)
        return k_app(obj, pred, [key])
    C[known_facts.K] = spec_K

    def spec_listed(e, args, kw):
        obj, key = args
        if not isinstance(key, (SV, SInt)):
            return known_facts.listed(obj, key)
        return e.app('listed:' + obj, [key], rng=B)
    C[known_facts.listed] = spec_listed

    # -- parsing: contract of httpolice.parse.parse (C05, C06)
    def accepts(data, symbol):
        return eng.app('accepts', [data, symbol], rng=B).t

    def parsed_value(data, symbol):
        v = eng.app('parsed', [data, symbol])
        if not is_bound(v.t):
            p = eng.pred(Unavailable)
            eng.fact(p(v.t) == z3.Not(accepts(data, symbol)))
            eng.fact(v.t != eng.lit(None))
        return v

    def parse_contract(e, args, kw):
        names = ['data', 'target_symbol', 'complain', 'fail_notice_id', 'annotate_classes']
        a = dict(zip(names, args))
        a.update(kw)
        data, symbol = a['data'], a.get('target_symbol', a.get('symbol'))
        acc = accepts(data, symbol)
        v = parsed_value(data, symbol)
        comp = a.get('complain')
        if comp is None:
            if not e.decide(acc):
                raise PyRaise(parse_mod.ParseError('', 0, []))
        else:
            before = e.effects
            e.effects = []
            e.call(comp, [a.get('fail_notice_id')], {})
            effs = e.effects
            e.effects = before
            e.add_effects(effs, z3.Not(acc))
        if a.get('annotate_classes'):
            return (v, e.app('annotations', [data, symbol]))
        return v
    C[parse_mod.parse] = parse_contract

    def is_bound(t):
        from pyvc.engine import has_free_binder
        return has_free_binder(t)

    def spec_parsed(e, args, kw):
        return parsed_value(args[0], args[1])
    C[rules_spec.parsed] = spec_parsed
    C[rules_spec.syntax_ok] = lambda e, args, kw: SBool(accepts(args[0], args[1]))

    # -- notices
    def complain(e, args, kw):
        nid = args[1] if len(args) > 1 else kw.get('notice_id')
        e.effect('complain', args[0].ident if isinstance(args[0], SObj) else repr(args[0]), nid)
        return None
    C[blackboard.Blackboard.complain] = complain

    def silence(e, args, kw):
        e.effect('silence', args[0].ident, e.to_v(args[1]))
        return None
    C[blackboard.Blackboard.silence] = silence

    # -- header views: contract of HeadersView / HeaderView._parse (C07), directive look-up (C08)
    def headers_getitem(e, args, kw):
        hv, key = args
        msg = hv.meta['message']
        if isinstance(key, (SV,)):
            return name_view(e, msg, key)
        return concrete_view(e, hv, msg, key)
    C[header.HeadersView.__getitem__] = headers_getitem

    def headers_getattr(e, args, kw):
        hv, name = args
        try:
            key = getattr(known.h, name)
        except AttributeError as exc:
            raise PyRaise(exc)
        return concrete_view(e, hv, hv.meta['message'], key)
    C[header.HeadersView.__getattr__] = headers_getattr

    def names_term(msg):
        return const('names_' + msg.ident)

    def name_view(e, msg, name_sv):
        t = e.to_v(name_sv)

        def rebuild(key):
            return name_view(e, msg, SV(key, NAME))
        o = SObj(header.HeaderView, {'message': msg, 'name': SV(t, NAME)}, ident='view_any')
        o.meta = {'v': fn('view_' + msg.ident, [V], V)(t), 'key': t, 'rebuild': rebuild}

        def lazy(e2, obj, attr):
            if attr == '_entries':
                return SV(fn('entries_' + msg.ident, [V], V)(obj.meta['key']))
            return NotImplemented
        o.lazy = lazy
        return o

    def headers_iter(e, args, kw):
        hv = args[0]
        msg = hv.meta['message']
        b = e.fresh_binders(1)
        nt = names_term(msg)
        return SComp(b, MEM(b[0], nt), name_view(e, msg, SV(b[0], NAME)), nt)
    C[header.HeadersView.__iter__] = headers_iter

    def headers_names(e, obj):
        msg = obj.meta['message']
        b = e.fresh_binders(1)
        nt = names_term(msg)
        return SComp(b, MEM(b[0], nt), SV(b[0], NAME), nt)
    eng.attr_contracts[(header.HeadersView, 'names')] = headers_names

    def view_class(key):
        hv = header.HeadersView
        if key in hv.special_cases:
            return hv.special_cases[key]
        rule = known.header.rule_for(key)
        return {known.HeaderRule.single: header.SingleHeaderView,
                known.HeaderRule.multi: header.MultiHeaderView}.get(rule, header.UnknownHeaderView)

    def concrete_view(e, hv, msg, key):
        cache = hv.meta['views']
        k = str(key).lower()
        if k not in cache:
            cls = view_class(key)
            nm = '%s_%s' % (msg.ident, k)
            val = const('value_' + nm)
            ents = const('entries_' + nm)
            un = e.pred(Unavailable)
            e.fact(z3.Not(e.pred(header.HeaderView)(val)))
            e.fact(ents != e.lit(None))
            e.fact(LEN(ents) >= 0)
            if issubclass(cls, header.MultiHeaderView):
                e.fact(val != e.lit(None))
                e.fact(z3.Not(un(val)))
                e.fact(z3.Implies(LEN(ents) == 0, z3.Not(TRUTH(val))))
                x = const('x')
                e.fact(z3.ForAll([x], z3.Implies(MEM(x, val), TRUTH(val))))
            else:
                e.fact((LEN(ents) == 0) == (val == e.lit(None)))
            hint = {}
            if k in ELEM:
                hint['elem'] = ELEM[k]
            if k in VALUE:
                hint = VALUE[k]
            o = SObj(cls, {'message': msg, 'name': key, '_entries': SV(ents), '_value': SV(val, hint or None)},
                     ident='view_' + nm)
            o.meta = {'v': const('view_' + nm), 'pure': True}
            cache[k] = o
        return cache[k]

    def lookup(e, args, kw):
        view, key = args
        val = e.getattr(view, 'value')
        return e.app('lookup', [val, key if isinstance(key, SV) else ci_lit(key)])

    def ci_lit(key):
        return structure.CaseInsensitive(str(key))
    C[header.DirectivesView.__getitem__] = lookup
    C[header.PreferView.__getitem__] = lookup

    def view_value(e, obj):
        if obj.ident == 'view_any':
            key = obj.meta['key']
            e.effect('complain', obj.attrs['message'].ident, 'force')
            return SV(fn('value_' + obj.attrs['message'].ident, [V], V)(key))
        return e.get_property(header.HeaderView.__dict__['value'], obj)
    eng.attr_contracts[(header.HeaderView, 'value')] = view_value

    def total_entries(e, obj):
        return SInt(LEN(e.app('all_entries', [SV(obj.meta['v'])]).t))
    eng.attr_contracts[(header.HeaderView, 'total_entries')] = total_entries

    # -- payload properties: contracts verified by C12
    for p in ['decoded_body', 'guessed_charset', 'unicode_body', 'json_data', 'xml_data', 'multipart_data',
              'url_encoded_data', 'displayable_body']:
        def h(e, obj, p=p):
            e.effect('complain', obj.ident, 'access:' + p)
            return SV(const('%s_%s' % (p, obj.ident)))
        eng.attr_contracts[(message.Message, p)] = h

    # -- helpers with their own (separately checked) contracts
    from httpolice.util import data as udata, text as utext

    def uf(name, **opts):
        return lambda e, args, kw: e.app(name, args, **opts)
    C[udata.duplicates] = uf('repeated')
    C[rules_spec.repeated] = uf('repeated')
    C[request._accept_subsumptions] = uf('subsumptions')
    C[rules_spec.subsumptions] = uf('subsumptions')
    C[request._is_urlsafe_base64] = uf('base64url_only', rng=B)
    C[rules_spec.base64url_only] = uf('base64url_only', rng=B)
    C[utext.contains_percent_encodes] = uf('percent_encoded', rng=B)
    C[rules_spec.percent_encoded] = uf('percent_encoded', rng=B)
    C[utext.is_ascii] = uf('pure_ascii', rng=B)
    C[rules_spec.pure_ascii] = uf('pure_ascii', rng=B)
    C[udata.iterbytes] = uf('iterbytes')
    from httpolice.syntax.common import CTL

    def has_ctl(e, args, kw):
        b = e.fresh_binders(1)
        seq = e.app('iterbytes', args).t
        m = e.app('ctl', [SV(b[0])], rng=B).t
        return SBool(z3.Exists(b, And([MEM(b[0], seq), m])))
    C[rules_spec.has_ctl] = has_ctl

    def sym_match(e, args, kw):
        if args[0] is CTL:
            return e.app('ctl', [args[1]], rng=B)
        return e.app('matches', args, rng=B)
    C[type(CTL).match] = sym_match

    def b64(e, args, kw):
        ok = e.app('decodes', [args[0]], rng=B).t
        if not e.decide(ok):
            raise PyRaise(ValueError())
        return e.app('b64decoded', [args[0]])
    C[base64.b64decode] = b64
    C[rules_spec.decodes] = uf('decodes', rng=B)
    C[rules_spec.decoded] = uf('b64decoded')

    # -- URIs and time (external functions; the specification's total versions agree where defined)
    from urllib.parse import parse_qs, urljoin, urlparse
    def may_raise(name, exc, **opts):
        def h(e, args, kw):
            if not e.decide(e.app(name + '_defined', args, rng=B).t):
                raise PyRaise(exc())
            return e.app(name, args, **opts)
        return h
    C[urlparse] = may_raise('urlparse', ValueError,
                            hint={'attrs': {'scheme': None, 'fragment': None, 'query': None}})
    C[urljoin] = may_raise('urljoin', ValueError)
    C[parse_qs] = lambda e, a, k: e.app('parse_qs', a) if any(is_sym(x) for x in a) else parse_qs(*a, **k)

    def new_timedelta(e, args, kw):
        vals = list(args) + [kw[k] for k in sorted(kw)]
        if not any(is_sym(v) for v in vals):
            return timedelta(*args, **kw)
        name = 'new_timedelta' + ''.join('_' + k for k in sorted(kw))
        if not e.decide(e.app(name + '_defined', vals, rng=B).t):
            raise PyRaise(OverflowError())
        return e.app(name, vals, hint={'partial_add': OverflowError})
    C[timedelta] = new_timedelta
    C[datetime.utcnow] = lambda e, a, k: SV(const('now'))
    C[rules_spec.now] = lambda e, a, k: SV(const('now'))
    eng.non_null_ops = Unavailable
    return eng


VERSIONS = [u'HTTP/1.0', u'HTTP/1.1', u'HTTP/2']


def sym_message(eng, cls, ident):
    o = SObj(cls, {}, ident=ident)
    o.meta = {'pure': True, 'v': const('obj_' + ident)}
    un = eng.pred(Unavailable)
    a = o.attrs
    a['version'] = SV(const('version_' + ident))
    a['body'] = SV(const('body_' + ident))
    a['annotations'] = SV(const('annotations_' + ident))
    a['header_entries'] = SV(const('header_entries_' + ident), {'items': {0: {'attrs': {'name': NAME}}}})
    a['trailer_entries'] = SV(const('trailer_entries_' + ident), {'elem': {'attrs': {'name': NAME}}})
    a['_complaints'] = SV(const('complaints_' + ident))
    a['headers'] = SObj(header.HeadersView, {'_message': o}, ident='headers_' + ident,
                        meta={'message': o, 'views': {}, 'v': const('headers_' + ident)})
    if cls is request.Request:
        a['scheme'] = SV(const('scheme_' + ident))
        a['method'] = SV(const('method_' + ident))
        a['target'] = SV(const('target_' + ident))
    else:
        a['status'] = SInt(z3.Int('status_' + ident), StatusCode)
        a['reason'] = SV(const('reason_' + ident))
        a['request'] = None
    if cls is request.Request:
        for x in ('method', 'target'):
            eng.fact(a[x].t != eng.lit(None))
            eng.fact(z3.Not(un(a[x].t)))
    eng.fact(eng.to_v(o) != eng.lit(None))
    eng.fact(z3.Not(un(eng.to_v(o))))
    eng.fact(z3.Not(un(eng.to_v(a['version']))))
    return o
