"""C07, C08: contracts of header views and of directive arguments."""
import copy

import z3

from contracts import ghost
from contracts.ghost import GhostSet
from contracts.relcheck import contract, engine
from pyvc.engine import Bound, NTuple, PyRaise, as_z3
from pyvc.relational import Splat, has_splat
from pyvc.terms import SBool, SInt, SV, SObj, const, fn, V, I, B

from httpolice import header, known, message, request, response, structure
from httpolice.blackboard import Blackboard
from httpolice.header import (AltSvcView, ArgumentsView, CacheControlView, DirectivesView, ForwardedView, HeadersView, HeaderView,
                              MultiHeaderView, PreferView, PreferenceAppliedView, SingleHeaderView, StrictTransportSecurityView,
                              UnknownHeaderView)
from httpolice.known import HeaderRule, h
from httpolice.structure import HeaderEntry, MultiDict, Parametrized, Unavailable, okay
from httpolice import parse as parse_mod

H = 'httpolice.header.'


# ---- logical functions (contracts of callees)

def rule_of(name):
    return known.header.rule_for(name)


def syntax_of(name):
    return known.header.syntax_for(name)


def forbidden_in_trailers(name):
    return known.header.is_bad_for_trailer(name)


# ---- specifications

def spec_enumerate(view, name=None):
    """Entries with that name, header section before trailers, numbered within their section."""
    out = []
    for i, entry in enumerate(view._message.header_entries):
        if name is None:
            out.append((False, i, entry))
        elif name == entry.name:
            out.append((False, i, entry))
    for i, entry in enumerate(view._message.trailer_entries):
        if name is None:
            out.append((True, i, entry))
        elif name == entry.name:
            out.append((True, i, entry))
    return out


def spec_names(view):
    """Every name once, in order of first appearance."""
    seen = GhostSet(nothing())
    out = []
    for entry in view._message.header_entries:
        if not (entry.name in seen):
            out.append(entry.name)
            seen.add(entry.name)
    for entry in view._message.trailer_entries:
        if not (entry.name in seen):
            out.append(entry.name)
            seen.add(entry.name)
    return out


def nothing():
    return frozenset()


def spec_pre_parse(view):
    entries = []
    values = []
    syntax = syntax_of(view.name)
    for from_trailer, i, entry in view.message.headers.enumerate(view.name):
        if from_trailer and forbidden_in_trailers(view.name):
            view.message.complain(1026, entry=entry)
        else:
            entries.append(entry)
            if syntax is None:
                values.append(entry.value)
            else:
                (parsed, ann) = parse_mod.parse(entry.value, syntax, view.message.complain, 1000, place=entry,
                                                annotate_classes=known.classes)
                if isinstance(parsed, Unavailable):
                    values.append(parsed)
                else:
                    v = view._process_parsed(entry, parsed)
                    view.message.annotations[(from_trailer, i)] = ann
                    view._check_quoted_delims(entry, v)
                    values.append(v)
    return entries, values


def spec_single(view):
    entries, values = view._pre_parse()
    if not entries:
        view._value = None
        view._entries = []
        return
    if len(entries) > 1:
        view.message.complain(1013, header=view, entries=entries)
    view._value = values[-1]
    view._entries = [entries[-1]]


def spec_unknown(view):
    entries, values = view._pre_parse()
    view._entries = entries
    if values:
        view._value = b','.join(values)
    else:
        view._value = None


def is_singular(v):
    if isinstance(v, list):
        return False
    return not isinstance(v, Unavailable)


def spec_multi(view):
    entries, values = view._pre_parse()
    view._entries = entries
    singular = []
    for v in values:
        if is_singular(v):
            singular.append(v)
    if not singular:
        out = []
        for v in values:
            if isinstance(v, Unavailable):
                out.append(v)
            else:
                out.extend(v)
        view._value = out
    elif len(entries) == 1 and len(singular) == 1:
        view._value = singular[0]
    else:
        view._value = [Unavailable()]
        view.message.complain(1013, header=view, entries=entries)


def spec_parsed_once(view):
    if view._entries is None:
        view._parse()


def spec_value(view):
    spec_parsed_once(view)
    return view._value


def spec_entries(view):
    spec_parsed_once(view)
    return view._entries


def spec_is_present(view):
    spec_parsed_once(view)
    return len(view._entries) > 0


def spec_is_absent(view):
    spec_parsed_once(view)
    return not (len(view._entries) > 0)


def spec_is_okay(view):
    v = view.value
    return v is not None and not isinstance(v, Unavailable)


def spec_bool(view):
    return bool(view.value)


def spec_contains(view, other):
    for x in view:
        if x == other:
            return True
    return False


def spec_lt(view, other):
    return usable(view, other) and view.value < other


def spec_le(view, other):
    return usable(view, other) and view.value <= other


def spec_gt(view, other):
    return usable(view, other) and view.value > other


def spec_ge(view, other):
    return usable(view, other) and view.value >= other


def spec_eq(view, other):
    return usable(view, other) and view.value == other


def spec_ne(view, other):
    return usable(view, other) and view.value != other


def usable(view, other):
    """Every comparison is false unless both sides are known."""
    if view.value is None or isinstance(view.value, Unavailable):
        return False
    return other is not None and not isinstance(other, Unavailable)


def spec_multi_iter(view):
    out = []
    for v in view.value:
        if v is not None and not isinstance(v, Unavailable):
            out.append(v)
    return out


# ---- C08

def spec_pair(view, entry, pair):
    name, argument = pair
    know = view.knowledge
    if argument is None:
        if know.argument_required(name):
            view.message.complain(1156, entry=entry, name=name)
            return Parametrized(name, Unavailable(u''))
        return Parametrized(name, None)
    if know.no_argument(name):
        view.message.complain(1157, entry=entry, name=name)
        return Parametrized(name, Unavailable(argument))
    if know.syntax_for(name) is None:
        return Parametrized(name, argument)
    parsed = parse_mod.parse(argument, know.syntax_for(name), view.message.complain, 1158, place=entry, name=name, value=argument)
    return Parametrized(name, parsed)


def spec_pairs(view, entry, parsed):
    out = []
    for d in parsed:
        out.append(view._process_pair(entry, d))
    return out


def spec_lookup(view, key):
    for directive, argument in view:
        if directive == key:
            if argument is None:
                return True
            return argument
    return None


def spec_without_params(view):
    out = []
    for (pref, params) in view:
        out.append(pref)
    return out


def spec_prefer_lookup(view, key):
    for (name, value) in view.without_params:
        if name == key:
            if value is None:
                return True
            return value
    return None


def spec_prefer_processed(view, entry, parsed):
    out = []
    for (pair, params) in parsed:
        out.append(Parametrized(view._process_pair(entry, pair), params))
    return out


def spec_cache_pair(view, entry, pair):
    """1154/1155 when the argument is written in the other form than the directive prefers."""
    name, argument = pair
    if argument is None:
        return spec_pair(view, entry, pair)
    form, text = argument
    if known.cache_directive.quoted_string_preferred(name):
        if form is not header.quoted_string:
            view.message.complain(1154, directive=name)
    if known.cache_directive.token_preferred(name):
        if form is not header.token:
            view.message.complain(1155, directive=name)
    return spec_pair(view, entry, (name, text))


# ---- Alt-Svc, Forwarded (C08)

def spec_alt_svc_processed(view, entry, parsed):
    """'clear' stays; otherwise a fresh copy of the parsed value with every parameter processed (parse results are shared
    between calls and must not be changed)."""
    if parsed == u'clear':
        return parsed
    out = copy.deepcopy(parsed)
    for alternative in out:
        new = []
        for p in alternative.param.sequence:
            new.append(view._process_pair(entry, p))
        alternative.param.sequence[:] = new
    return out


class OpaqueSeq:
    """A list stored in an object that already exists: reading gives `items`, storing is an effect."""

    def __iter__(self):
        return self.items

    def __setitem__(self, key, value):
        raise NotImplementedError


def spec_forwarded_processed(view, entry, parsed):
    elements = []
    for elem in parsed:
        new = []
        for p in elem:
            new.append(view._process_pair(entry, p))
        elements.append(new)
    for elem in elements:
        names = []
        for (param, value) in elem:
            names.append(param)
        for duped in header.duplicates(names):
            view.message.complain(1296, entry=entry, param=duped)
    if len(elements) > 1 and all_short(elements):
        firsts = []
        for [(param, value)] in elements:
            firsts.append(param)
        if not header.duplicates(firsts):
            view.message.complain(1297, entry=entry, n_elements=len(elements))
    return elements


def all_short(elements):
    for elem in elements:
        if not (len(elem) == 1):
            return False
    return True


# ---- symbolic inputs and contracts of callees

def entry_elem(eng, t):
    return NTuple(HeaderEntry, (SV(fn('entry_name', [V], V)(t)), SV(fn('entry_value', [V], V)(t))))


ENTRY = {'make': entry_elem}


def item_elem(eng, t):
    """(from_trailer, index, entry) as HeadersView.enumerate gives them."""
    return (SBool(fn('item_trailer', [V], B)(t)), SInt(fn('item_index', [V], I)(t)), entry_elem(eng, fn('item_entry', [V], V)(t)))


ITEM = {'make': item_elem}


def value_elem(eng, t):
    """A parsed value, unavailable or not."""
    return SV(t)


class GhostMap:
    """A mapping of which only updates matter here."""

    def __setitem__(self, key, value):
        raise NotImplementedError


def mkbool(eng, name, args):
    return SBool(eng.app(name, args, rng=B).t)


def prepare():
    eng = engine()
    ghost.install(eng)
    C = eng.contracts
    K = known.HeaderKnowledge

    def op(f, name, rng=V, skip=1):
        C[f] = lambda e, a, k, name=name, rng=rng: (e.app(name, list(a[skip:]), rng=rng))
    op(K.rule_for, 'rule_of')
    op(K.syntax_for, 'syntax_of')
    op(known.SyntaxKnowledge.syntax_for, 'syntax_of')
    op(K.is_bad_for_trailer, 'bad_for_trailer', B)
    C[K.bad_quoted_delims] = lambda e, a, k: (e.app('comma_bad', a[1:], rng=B), e.app('semicolon_bad', a[1:], rng=B))
    op(known.ArgumentKnowledge.argument_required, 'argument_required', B)
    op(known.ArgumentKnowledge.no_argument, 'no_argument', B)
    C[rule_of] = lambda e, a, k: e.app('rule_of', a)
    C[syntax_of] = lambda e, a, k: e.app('syntax_of', a)
    C[forbidden_in_trailers] = lambda e, a, k: e.app('bad_for_trailer', a, rng=B)
    C[nothing] = lambda e, a, k: SV(const('no_elements'))
    C[Blackboard.complain] = lambda e, a, k: e.effect('complain', a[0], a[1], dict(sorted(k.items())))
    C[HeadersView.enumerate] = lambda e, a, k: e.app('enumerate', [a[0].attrs['_message']] + list(a[1:]), hint={'elem': ITEM})

    def set_(e, a, k):
        if not a:
            return e.born(SObj(GhostSet, {'t': SV(const('no_elements'))}, meta={'constructed': True}))
        from pyvc.relational import r_set
        return r_set(e, a, k)
    C[set] = set_

    def parse_contract(e, a, k):
        value, syntax = a[0], a[1]
        ctx = dict(k)
        complain = a[2] if len(a) > 2 else ctx.pop('complain', None)
        nid = a[3] if len(a) > 3 else ctx.pop('fail_notice_id', None)
        classes = ctx.pop('annotate_classes', None) if len(a) <= 4 else a[4]
        if isinstance(complain, Bound):
            who = complain.self_
        elif complain is None:
            who = None
        else:
            raise PyRaise(TypeError('complain'))
        e.effect('parse', value, syntax, who, nid, classes is not None, dict(sorted(ctx.items())))
        if classes is None:
            return e.app('parsed', [value, syntax])
        if classes is not known.classes:
            return (e.app('parsed', [value, syntax]), e.app('annotated_otherwise', [value, syntax]))
        return (e.app('parsed', [value, syntax]), e.app('annotated', [value, syntax]))
    C[parse_mod.parse] = parse_contract
    C[GhostMap.__setitem__] = lambda e, a, k: e.effect('annotate', a[1], a[2])
    C[header.duplicates] = lambda e, a, k: e.app('duplicates', [ghost.as_value(e, a[0])])
    return eng


def msg(eng):
    m = SObj(request.Request, {}, ident='msg', meta={'external': True})
    m.attrs['header_entries'] = [Splat(const('header_entries'), ENTRY)]
    m.attrs['trailer_entries'] = [Splat(const('trailer_entries'), ENTRY)]
    m.attrs['annotations'] = SObj(GhostMap, {}, ident='annotations', meta={'external': True})
    hv = SObj(HeadersView, {'_message': m, '_cache': SV(const('cache'))}, ident='headers')
    m.attrs['headers'] = hv
    return m


def view(eng, cls, **attrs):
    v = SObj(cls, {'message': msg(eng), 'name': SV(const('the_name')), '_entries': None, '_value': None}, ident='view')
    v.attrs.update(attrs)
    return v


def state(v):
    return (v.attrs.get('_entries'), v.attrs.get('_value'))


def rel(prop, name, functions, setup, code, spec, pre=None):
    """A contract where both sides get the inputs that `setup(eng)` builds (fresh each time)."""
    @contract(prop, name, functions)
    def case():
        eng = prepare()
        if pre:
            pre(eng)

        def run(f):
            args = setup(eng)
            r = f(eng, *args)
            return r, [state(a) for a in args if isinstance(a, SObj) and '_entries' in a.attrs]
        return eng, lambda: run(code), lambda: run(spec)


def calls(f):
    return lambda eng, *a: eng.call_function(f, list(a), {})


def reads(attr):
    return lambda eng, v, *a: eng.getattr(v, attr)


def yields(f):
    def run(eng, *a):
        from pyvc.relational import r_list
        return r_list(eng, [eng.call_function(f, list(a), {})], {})
    return run


def prop_of(cls, name):
    return vars(cls)[name].fget


# HeadersView

def hv(eng):
    return (msg(eng).attrs['headers'],)


def without_enumerate(eng):
    del eng.contracts[HeadersView.enumerate]


rel('C07', 'HeadersView.enumerate of a name', [H + 'HeadersView.enumerate'], lambda e: hv(e) + (SV(const('some_name')),),
    calls(HeadersView.enumerate), calls(spec_enumerate), pre=lambda e: (without_enumerate(e), e.fact(const('some_name') != e.lit(None))))
rel('C07', 'HeadersView.enumerate of all', [H + 'HeadersView.enumerate'], lambda e: hv(e) + (None,),
    calls(HeadersView.enumerate), calls(spec_enumerate), pre=without_enumerate)
rel('C07', 'HeadersView.names', [H + 'HeadersView.names'], hv, yields(prop_of(HeadersView, 'names')), yields(spec_names))

# HeaderView._pre_parse, with the contracts of _process_parsed and _check_quoted_delims


def pre_parse_callees(eng):
    for cls in (HeaderView, ArgumentsView, AltSvcView, PreferView, ForwardedView):
        if '_process_parsed' in vars(cls):
            eng.contracts[cls._process_parsed] = processed
    eng.contracts[HeaderView._check_quoted_delims] = lambda e, a, k: e.effect('check_quoted_delims', a[1], a[2])


def processed(e, a, k):
    e.effect('process', a[1], a[2])
    return e.app('processed', [a[1], a[2]])


for _c in (UnknownHeaderView, SingleHeaderView, MultiHeaderView, CacheControlView, StrictTransportSecurityView, AltSvcView,
           PreferView, PreferenceAppliedView, ForwardedView):
    rel('C07', '_pre_parse of %s' % _c.__name__, [H + 'HeaderView._pre_parse'], lambda e, _c=_c: (view(e, _c),),
        lambda e, v: e.call(e.getattr(v, '_pre_parse'), [], {}), calls(spec_pre_parse), pre=pre_parse_callees)


def pre_parsed(e, a, k):
    """Contract of _pre_parse: as many values as entries."""
    es, vs = const('pre_entries'), const('pre_values')
    from pyvc.terms import LEN, TRUTH
    e.fact(LEN(es) == LEN(vs))
    e.fact(TRUTH(es) == TRUTH(vs))
    for t in (es, vs):
        e.fact((LEN(t) > 0) == TRUTH(t))
        e.fact(LEN(t) >= 0)
    e.effect('pre_parse')
    return ([Splat(es, ENTRY)], [Splat(vs, None)])


def parse_callees(eng):
    eng.contracts[HeaderView._pre_parse] = pre_parsed


for _c, _s in ((UnknownHeaderView, spec_unknown), (SingleHeaderView, spec_single), (MultiHeaderView, spec_multi),
               (CacheControlView, spec_multi), (StrictTransportSecurityView, spec_single), (AltSvcView, spec_multi),
               (PreferView, spec_multi), (PreferenceAppliedView, spec_multi), (ForwardedView, spec_multi)):
    rel('C07', '_parse of %s' % _c.__name__, [H + '%s._parse' % _c.__name__], lambda e, _c=_c: (view(e, _c),),
        lambda e, v: e.call(e.getattr(v, '_parse'), [], {}), calls(_s), pre=parse_callees)


# laziness and observers; contract of _parse: sets both fields

def parse_sets(e, a, k):
    e.effect('parse', a[0])
    e.setattr(a[0], '_entries', [Splat(const('the_entries'), ENTRY)])
    e.setattr(a[0], '_value', SV(const('the_value')))
    return None


def observers(eng):
    for cls in (UnknownHeaderView, SingleHeaderView, MultiHeaderView):
        eng.contracts[cls._parse] = parse_sets


def done(e, cls):
    return view(e, cls, _entries=[Splat(const('the_entries'), ENTRY)], _value=SV(const('the_value')))


for _c in (UnknownHeaderView, SingleHeaderView, MultiHeaderView):
    for _when, _mk in (('first time', view), ('already parsed', done)):
        for _n, _s in (('value', spec_value), ('entries', spec_entries), ('is_present', spec_is_present),
                       ('is_absent', spec_is_absent), ('is_okay', spec_is_okay)):
            rel('C07', '%s.%s, %s' % (_c.__name__, _n, _when), [H + 'HeaderView.' + _n], lambda e, _c=_c, _mk=_mk: (_mk(e, _c),),
                reads(_n), calls(_s), pre=observers)


def tv(eng, x):
    return x if x is NotImplemented else SBool(as_z3(eng.truth(x)))


def truth_of(f):
    return lambda eng, *a: tv(eng, eng.call_function(f, list(a), {}))


for _c in (UnknownHeaderView, SingleHeaderView, MultiHeaderView):
    rel('C07', '%s.__bool__' % _c.__name__, [H + 'HeaderView.__bool__'], lambda e, _c=_c: (view(e, _c),),
        truth_of(HeaderView.__bool__), truth_of(spec_bool), pre=observers)
    for _n, _s in (('lt', spec_lt), ('le', spec_le), ('gt', spec_gt), ('ge', spec_ge), ('eq', spec_eq), ('ne', spec_ne)):
        rel('C07', '%s.__%s__' % (_c.__name__, _n), [H + 'HeaderView._compare', H + 'HeaderView.__%s__' % _n],
            lambda e, _c=_c: (done(e, _c), SV(const('other'), {'isinstance': {HeaderView: False}})),
            truth_of(vars(HeaderView)['__%s__' % _n]), truth_of(_s), pre=observers)
        rel('C07', '%s.__%s__ another view' % (_c.__name__, _n), [H + 'HeaderView._compare'],
            lambda e, _c=_c: (done(e, _c), SObj(SingleHeaderView, {}, ident='another')),
            calls(vars(HeaderView)['__%s__' % _n]), lambda e, v, o: NotImplemented, pre=observers)


def opaque_list(e, cls):
    return view(e, cls, _entries=[Splat(const('the_entries'), ENTRY)], _value=[Splat(const('the_value'), None)])


rel('C07', 'MultiHeaderView.__iter__', [H + 'MultiHeaderView.__iter__'], lambda e: (opaque_list(e, MultiHeaderView),),
    yields(MultiHeaderView.__iter__), yields(spec_multi_iter), pre=observers)
for _c in (SingleHeaderView, MultiHeaderView):
    rel('C07', '%s.__contains__' % _c.__name__, [H + 'HeaderView.__contains__'], lambda e, _c=_c: (opaque_list(e, _c), SV(const('other'))),
        truth_of(HeaderView.__contains__), truth_of(spec_contains), pre=observers)
rel('C07', 'SingleHeaderView.__iter__', [H + 'HeaderView.__iter__'], lambda e: (opaque_list(e, SingleHeaderView),),
    yields(HeaderView.__iter__), lambda e, v: v.attrs['_value'], pre=observers)


# ---- C08

def pair_elem(eng, t):
    return NTuple(Parametrized, (SV(fn('p_item', [V], V)(t)), SV(fn('p_param', [V], V)(t))))


ARGS = (CacheControlView, StrictTransportSecurityView, AltSvcView, PreferView, PreferenceAppliedView, ForwardedView)


def knowledge_tables(eng):
    pass


def the_entry():
    return entry_elem(None, const('the_entry'))


for _c in ARGS:
    for _what, _arg in (('with an argument', lambda: SV(const('argument'))), ('without argument', lambda: None)):
        if _c is CacheControlView:
            continue
        rel('C08', '%s._process_pair %s' % (_c.__name__, _what), [H + 'ArgumentsView._process_pair'],
            lambda e, _c=_c, _arg=_arg: (view(e, _c), the_entry(), (SV(const('pair_name')), _arg())),
            lambda e, v, en, p: e.call(e.getattr(v, '_process_pair'), [en, p], {}), calls(spec_pair),
            pre=lambda e: e.fact(const('argument') != e.lit(None)))


for _what, _arg in (('with an argument', lambda: (SV(const('form')), SV(const('argument')))), ('without argument', lambda: None)):
    rel('C08', 'CacheControlView._process_pair %s' % _what, [H + 'CacheControlView._process_pair', H + 'ArgumentsView._process_pair'],
        lambda e, _arg=_arg: (view(e, CacheControlView), the_entry(), (SV(const('pair_name')), _arg())),
        lambda e, v, en, p: e.call(e.getattr(v, '_process_pair'), [en, p], {}), calls(spec_cache_pair),
        pre=lambda e: (e.fact(const('argument') != e.lit(None)), form_tables(e)))


def form_tables(e):
    K = known.CacheDirectiveKnowledge
    e.contracts[K.quoted_string_preferred] = lambda e, a, k: e.app('quoted_string_preferred', a[1:], rng=B)
    e.contracts[K.token_preferred] = lambda e, a, k: e.app('token_preferred', a[1:], rng=B)


def pair_contract(e, a, k):
    e.effect('pair', a[1], a[2])
    return pair_elem(e, e.app('processed_pair', [a[1], a[2]]).t)


def pair_callee(eng):
    eng.contracts[ArgumentsView._process_pair] = pair_contract
    eng.contracts[CacheControlView._process_pair] = pair_contract


PAIR = {'make': pair_elem}
for _c in (CacheControlView, StrictTransportSecurityView, PreferenceAppliedView):
    rel('C08', '%s._process_parsed' % _c.__name__, [H + 'ArgumentsView._process_parsed'],
        lambda e, _c=_c: (view(e, _c), the_entry(), [Splat(const('parsed_value'), PAIR)]),
        lambda e, v, en, p: e.call(e.getattr(v, '_process_parsed'), [en, p], {}), calls(spec_pairs), pre=pair_callee)
rel('C08', 'PreferView._process_parsed', [H + 'PreferView._process_parsed'],
    lambda e: (view(e, PreferView), the_entry(), [Splat(const('parsed_value'), PAIR)]),
    lambda e, v, en, p: e.call(e.getattr(v, '_process_parsed'), [en, p], {}), calls(spec_prefer_processed), pre=pair_callee)


def list_elem(eng, t):
    return [Splat(t, PAIR)]


rel('C08', 'ForwardedView._process_parsed', [H + 'ForwardedView._process_parsed', H + 'ArgumentsView._process_parsed'],
    lambda e: (view(e, ForwardedView), the_entry(), [Splat(const('parsed_value'), {'make': list_elem})]),
    lambda e, v, en, p: e.call(e.getattr(v, '_process_parsed'), [en, p], {}), calls(spec_forwarded_processed), pre=pair_callee)

for _c in (CacheControlView, StrictTransportSecurityView, PreferenceAppliedView):
    rel('C08', '%s.__getitem__' % _c.__name__, [H + 'DirectivesView.__getitem__'],
        lambda e, _c=_c: (view(e, _c, _entries=[Splat(const('the_entries'), ENTRY)], _value=[Splat(const('the_value'), PAIR)]),
                          SV(const('key'))),
        calls(_c.__getitem__), calls(spec_lookup), pre=observers)


def nested_elem(eng, t):
    return NTuple(Parametrized, (pair_elem(eng, fn('p_item', [V], V)(t)), SV(fn('p_param', [V], V)(t))))


def preferences(e):
    return view(e, PreferView, _entries=[Splat(const('the_entries'), ENTRY)], _value=[Splat(const('the_value'), {'make': nested_elem})])


rel('C08', 'PreferView.without_params', [H + 'PreferView.without_params'], lambda e: (preferences(e),), reads('without_params'),
    calls(spec_without_params), pre=observers)


def without_params_contract(e):
    observers(e)
    e.attr_contracts[(PreferView, 'without_params')] = lambda e, v: [Splat(const('without_params'), PAIR)]


rel('C08', 'PreferView.__getitem__', [H + 'PreferView.__getitem__'], lambda e: (preferences(e), SV(const('key'))),
    calls(PreferView.__getitem__), calls(spec_prefer_lookup), pre=without_params_contract)


def alternative_elem(eng, t):
    seq = SObj(OpaqueSeq, {'items': [Splat(fn('params_of', [V], V)(t), PAIR)]}, ident='sequence_of_%s' % t, meta={'external': True, 'v': t})
    return NTuple(Parametrized, (SV(fn('p_item', [V], V)(t)), SObj(MultiDict, {'sequence': seq}, ident='params_%s' % t, meta={'external': True})))


def alt_svc_callees(eng):
    pair_callee(eng)
    eng.contracts[copy.deepcopy] = lambda e, a, k: [Splat(e.app('deep_copy', [a[0]]).t, {'make': alternative_elem})]
    eng.contracts[OpaqueSeq.__setitem__] = lambda e, a, k: e.effect('store', a[0], a[1] == slice(None), a[2])


rel('C08', 'AltSvcView._process_parsed', [H + 'AltSvcView._process_parsed', H + 'ArgumentsView._process_parsed'],
    lambda e: (view(e, AltSvcView), the_entry(), SV(const('parsed_value'), {'elem': {'make': alternative_elem}})),
    lambda e, v, en, p: e.call(e.getattr(v, '_process_parsed'), [en, p], {}), calls(spec_alt_svc_processed), pre=alt_svc_callees)


# ---- 1299, 1300

def spec_quoted_delims(view, entry, parsed):
    if known.header.bad_quoted_delims(view.name)[0] or known.header.bad_quoted_delims(view.name)[1]:
        scan(view, entry, parsed)


def scan(view, entry, v):
    if isinstance(v, str):
        if known.header.bad_quoted_delims(view.name)[0] and u',' in v:
            view.message.complain(1299, entry=entry)
        if known.header.bad_quoted_delims(view.name)[1] and u';' in v:
            view.message.complain(1300, entry=entry)
    elif isinstance(v, (list, tuple)):
        for x in v:
            rec(x)
    elif isinstance(v, MultiDict):
        rec(v.sequence)


def rec(x):
    """Contract of the recursive call: everything inside x is scanned."""


def recursion(e):
    e.closure_recursion = lambda e, a, k: e.effect('scanned', a[0])
    e.contracts[rec] = lambda e, a, k: e.effect('scanned', a[0])
    v = const('parsed_value')
    kinds = [e.pred(c)(v) for c in (str, list, tuple, MultiDict)]
    for i, a in enumerate(kinds):
        for b in kinds[:i]:
            e.fact(z3.Not(z3.And(a, b)))


rel('C08', 'HeaderView._check_quoted_delims', [H + 'HeaderView._check_quoted_delims'],
    lambda e: (view(e, MultiHeaderView), the_entry(), SV(const('parsed_value'))),
    calls(HeaderView._check_quoted_delims), calls(spec_quoted_delims), pre=recursion)
