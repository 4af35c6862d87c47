"""C13, C14 (and C18): contracts of the semantic actions of the grammar: the values of headers, and the notices of the
values themselves (dates, ranges, entity tags, list elements, parameters of links, ...)."""
import datetime
import itertools

import z3

from contracts import ghost
from contracts.c12_contracts import raising
from contracts.relcheck import CASES, calls, engine, rel
from pyvc.engine import NTuple
from pyvc.relational import Splat
from pyvc.terms import SBool, SInt, SV, SObj, const, fn, V, I, B

from httpolice import parse as parse_mod, request
from httpolice.known import media
from httpolice.structure import CaseInsensitive, MediaType, MultiDict, Parametrized, Unavailable, okay
from httpolice.syntax import common, rfc6797, rfc7230, rfc7231, rfc7232, rfc7233, rfc7235, rfc7239, rfc7240, rfc7838, rfc8187, rfc8288

X = 'httpolice.syntax.'
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']


def note(notice_id, **context):
    """Where the notices go."""
    raise NotImplementedError


# ---- specifications

def spec_date(d, m, y):
    try:
        return datetime.date(y, m, d)
    except ValueError:
        note(1222, date='%d %s %d' % (d, MONTHS[m - 1], y))
        return Unavailable('%d %s %d' % (d, MONTHS[m - 1], y))


def spec_time(h, m, s):
    try:
        return datetime.time(h, m, s)
    except ValueError:
        note(1223, time='%02d:%02d:%02d' % (h, m, s))
        return Unavailable('%02d:%02d:%02d' % (h, m, s))


def spec_datetime(dow, day, clock):
    if okay(day) and okay(clock):
        return dow, datetime.datetime(day.year, day.month, day.day, clock.hour, clock.minute, clock.second)
    return dow, Unavailable('%s %s' % (day, clock))


def spec_recent_year(d, m, y):
    """RFC 7231 section 7.1.1.1: this century, but the one before if that were more than 50 years ahead."""
    now = datetime.date.today()
    year = y + (now.year - now.year % 100)
    if (year, m, d) > (now.year + 50, now.month, now.day):
        return spec_date(d, m, year - 100)
    return spec_date(d, m, year)


def spec_asctime(dow, dm, clock, y):
    return spec_datetime(dow, spec_date(dm[1], dm[0], y), clock)


def spec_day_of_week(r):
    claimed, moment = r
    if not okay(moment):
        return moment
    actual = moment.weekday()
    if actual != claimed:
        note(1108, date=moment.strftime('%Y-%m-%d'), claimed=DAYS[claimed], actual=DAYS[actual])
    return moment


def spec_obsolete(r):
    note(1107)
    return r


def spec_byte_range(first, last):
    if last is not None and last < first:
        note(1133)
    return first, last


def spec_content_range(r):
    bounds, complete = r.range
    if bounds is None:
        return r
    first, last = bounds
    if last < first:
        note(1148)
    elif complete is not None and complete <= last:
        note(1148)
    return r


def spec_no_backslashes(s):
    if '\\' in s:
        note(1119)
    return s


def spec_realm(k, v):
    if k == 'realm' and v[0] is not rfc7230.quoted_string:
        note(1196)
    return k, v[1]


def spec_one_space(s):
    if s != ' ':
        note(1014, num=len(s))
    return s


def spec_bad_space(s):
    if s:
        note(1015)
    return s


def spec_collect(xs):
    out = []
    for x in xs:
        if x is not None:
            out.append(x)
    if len(out) != len(xs) and len(xs) > 1:
        note(1151)
    return out


def spec_present(xs):
    out = []
    for x in xs:
        if x is not None:
            out.append(x)
    return out


def spec_empty_value(x):
    name, value = x
    if value == '':
        return Parametrized(name, None)
    return Parametrized(name, value)


def spec_no_value(x):
    return Parametrized(x, None)


def spec_media_type(t):
    if t in GOOD_TYPES:
        note(1282, bad=t, good=GOOD_TYPES[t])
    return t


def spec_ext_value(v):
    if v.charset == 'UTF-8':
        try:
            v.value_bytes.decode(v.charset)
        except UnicodeError as e:
            note(1254, charset=v.charset, error=e)
    else:
        note(1253, charset=v.charset)
    return v


def spec_link_params(params):
    kept = []
    seen = ghost.GhostSet(nothing())
    for (name, value) in params:
        once = name == 'rel' or name == 'media' or name == 'title' or name == 'title*' or name == 'type'
        if once:
            if name in seen:
                note(1225, name=name)
                continue
            seen.add(name)
        written = None
        if value is not None:
            written, value = value
        if name == 'title' and written is rfc7230.token:
            note(1307)
        if name == 'hreflang' and written is rfc7230.quoted_string:
            note(1308)
        syntax = link_syntax(name)
        if syntax is not None:
            text = value or ''
            value = parse_mod.parse(text, syntax, note, 1158, name=name, value=text)
        kept.append((name, value))
        if name == 'rev':
            note(1226)
    if 'rel' not in seen:
        note(1309)
    return MultiDict(kept)


GOOD_TYPES = {MediaType('application/text'): media.text_plain, MediaType('plain/text'): media.text_plain, MediaType('text/json'): media.application_json}


def nothing():
    return frozenset()


def link_syntax(name):
    if name == 'anchor':
        return rfc8288.URI_Reference
    if name == 'rel':
        return rfc8288.rel
    if name == 'rev':
        return rfc8288.rev
    if name == 'hreflang':
        return rfc8288.hreflang
    if name == 'type':
        return rfc8288.type_
    if name == 'title*':
        return rfc8288.ext_value
    return None


def spec_alt_authority(value):
    return parse_mod.parse(value, parse_mod.maybe_str(rfc7230.uri_host) + ':' + rfc7230.port, note, 1257, authority=value)


def spec_prepend(q, xs):
    return MultiDict([(CaseInsensitive('q'), q)] + xs)


# ---- the verifier's view of what the actions call

def prepare():
    eng = engine()
    ghost.install(eng)
    C = eng.contracts
    C[note] = lambda e, a, k: e.effect('note', a[0], dict(sorted(k.items())))
    C[datetime.date] = lambda e, a, k: raising('date', e, a, [ValueError])
    C[datetime.time] = lambda e, a, k: raising('time', e, a, [ValueError])
    C[datetime.datetime] = lambda e, a, k: e.app('datetime', a)
    C[datetime.date.today] = lambda e, a, k: SV(const('today'))
    return eng


def ints(*names):
    def setup(eng):
        out = []
        for n, lo, hi in names:
            t = const(n, I)
            eng.fact(z3.And(t >= lo, t <= hi))
            out.append(SInt(t, int))
        return tuple(out)
    return setup


def values(*names):
    return lambda eng: tuple(SV(const(n)) for n in names)


def noting(module, name):
    return lambda eng, *a: eng.call_function(getattr(module, name), [note] + list(a), {})


def calling(module, name):
    return lambda eng, *a: eng.call_function(getattr(module, name), list(a), {})


D, Y = ('d', 0, 99), ('y', 0, 9999)
def names(prefix='action '):
    return [n for n in CASES if n.startswith(prefix)]


for P in ('C14',):
    rel(P, 'action _to_date', [X + 'rfc7231._to_date'], prepare, ints(D, ('m', 1, 12), Y), noting(rfc7231, '_to_date'), calls(spec_date))
    rel(P, 'action _to_time', [X + 'rfc7231._to_time'], prepare, ints(('h', 0, 99), ('mi', 0, 99), ('s', 0, 99)), noting(rfc7231, '_to_time'), calls(spec_time))
    rel(P, 'action _to_datetime', [X + 'rfc7231._to_datetime'], prepare, values('dow', 'day', 'clock'), calling(rfc7231, '_to_datetime'), calls(spec_datetime))
    rel(P, 'action _to_date_2digit', [X + 'rfc7231._to_date_2digit'], prepare, ints(D, ('m', 1, 12), ('y', 0, 99)), noting(rfc7231, '_to_date_2digit'), calls(spec_recent_year))
    rel(P, 'action _from_asctime', [X + 'rfc7231._from_asctime'], prepare,
        lambda e: (SV(const('dow')), tuple(ints(('m', 1, 12), D)(e)), SV(const('clock')), ints(Y)(e)[0]),
        noting(rfc7231, '_from_asctime'), calls(spec_asctime))
    rel(P, 'action _check_day_of_week', [X + 'rfc7231._check_day_of_week'], prepare,
        lambda e: ((ints(('dow', 0, 6))(e)[0], SV(const('moment'))),), noting(rfc7231, '_check_day_of_week'), calls(spec_day_of_week))
    rel(P, 'action _obsolete_date', [X + 'rfc7231._obsolete_date'], prepare, values('r'), noting(rfc7231, '_obsolete_date'), calls(spec_obsolete))


def naturals(*names):
    return ints(*[(n, 0, 10 ** 1000) for n in names])


class Expression:
    """A grammar expression as its parts."""

    def __init__(self, parts):
        self.parts = parts

    def __add__(self, x):
        return Expression(self.parts + (x,))


def shown(e, x):
    if isinstance(x, SObj) and x.cls is Expression:
        return ' '.join(p if isinstance(p, str) else p.name for p in x.attrs['parts'])
    return x


def parsing():
    eng = prepare()
    C = eng.contracts
    C[nothing] = lambda e, a, k: SV(const('empty_set'))
    C[set] = lambda e, a, k: SObj(ghost.GhostSet, {'t': SV(const('empty_set'))}, ident=None)
    C[MultiDict] = lambda e, a, k: e.app('MultiDict', [a[0]])
    C[parse_mod.maybe_str] = lambda e, a, k: SObj(Expression, {'parts': ('maybe_str', a[0])}, ident=None)
    eng.contracts[parse_mod.parse] = lambda e, a, k: (e.effect('parse', a[0], shown(e, a[1]), a[2] if len(a) > 2 else None, a[3] if len(a) > 3 else None, dict(sorted(k.items()))),
                                                      e.app('parsed', [a[0], e.to_v(shown(e, a[1]))]))[1]
    return eng


def content_range(bounds):
    def setup(eng):
        complete = SV(const('complete'))
        b = naturals('first', 'last')(eng) if bounds else None
        return (SObj(Ranged, {'range': (b, complete)}, ident='content_range', meta={'external': True}),)
    return setup


class Ranged:
    pass


for P in ('C14',):
    rel(P, 'action _well_formed1', [X + 'rfc7233._well_formed1'], prepare, naturals('first', 'last'), noting(rfc7233, '_well_formed1'), calls(spec_byte_range))
    rel(P, 'action _well_formed1 without a last position', [X + 'rfc7233._well_formed1'], prepare, lambda e: naturals('first')(e) + (None,),
        noting(rfc7233, '_well_formed1'), calls(spec_byte_range))
    for _b in (True, False):
        rel(P, 'action _well_formed2 %s bounds' % ('with' if _b else 'without'), [X + 'rfc7233._well_formed2'], prepare, content_range(_b),
            noting(rfc7233, '_well_formed2'), calls(spec_content_range))
    rel(P, 'action _no_backslashes', [X + 'rfc7232._no_backslashes'], prepare, values('s'), noting(rfc7232, '_no_backslashes'), calls(spec_no_backslashes))
    rel(P, 'action _check_realm', [X + 'rfc7235._check_realm'], prepare, lambda e: (SV(const('k')), (SV(const('written')), SV(const('v')))),
        noting(rfc7235, '_check_realm'), calls(spec_realm))
    rel(P, 'action _check_just_one_space', [X + 'rfc7230._check_just_one_space'], prepare, values('s'), noting(rfc7230, '_check_just_one_space'), calls(spec_one_space))
    rel(P, 'action _bad_whitespace', [X + 'rfc7230._bad_whitespace'], prepare, values('s'), noting(rfc7230, '_bad_whitespace'), calls(spec_bad_space))
    rel(P, 'action _collect_elements of lists', [X + 'rfc7230._collect_elements'], prepare, lambda e: ([Splat(const('xs'))],),
        noting(rfc7230, '_collect_elements'), calls(spec_collect))
    rel(P, 'action _collect_elements of HSTS', [X + 'rfc6797._collect_elements'], prepare, lambda e: ([Splat(const('xs'))],),
        calling(rfc6797, '_collect_elements'), calls(spec_present))
    rel(P, 'action _remove_empty', [X + 'rfc7239._remove_empty'], prepare, lambda e: ([Splat(const('xs'))],),
        calling(rfc7239, '_remove_empty'), calls(spec_present))
    rel(P, 'action _prepend_q', [X + 'rfc7231._prepend_q'], prepare, lambda e: (SV(const('q')), [Splat(const('xs'))]), calling(rfc7231, '_prepend_q'), calls(spec_prepend))
    rel(P, 'action _normalize_empty_value', [X + 'rfc7240._normalize_empty_value'], prepare, lambda e: ((SV(const('name')), SV(const('value'))),),
        calling(rfc7240, '_normalize_empty_value'), calls(spec_empty_value))
    rel(P, 'action _normalize_empty_value without a value', [X + 'rfc7240._normalize_empty_value'], prepare,
        lambda e: (SObj(CaseInsensitive, {}, ident='name', meta={'external': True}),), calling(rfc7240, '_normalize_empty_value'), calls(spec_no_value))
    rel(P, 'action check_media_type', [X + 'common.check_media_type'], prepare, values('t'), noting(common, 'check_media_type'), calls(spec_media_type))
    rel(P, 'action _check_ext_value', [X + 'rfc8187._check_ext_value'], prepare, values('v'), noting(rfc8187, '_check_ext_value'), calls(spec_ext_value))
    rel(P, 'action _process_params', [X + 'rfc8288._process_params'], parsing, lambda e: ([Splat(const('params'))],), noting(rfc8288, '_process_params'), calls(spec_link_params))
    rel(P, 'action _check_alt_authority', [X + 'rfc7838._check_alt_authority'], parsing, values('value'), noting(rfc7838, '_check_alt_authority'), calls(spec_alt_authority))


# ---- helpers of the rules that have a contract of their own

def pairs_in_order(xs):
    """Every ordered pair of elements at different positions."""
    raise NotImplementedError


def spec_subsumptions(items):
    """Pairs (wildcard, element) where the wildcard, with the same weight, already covers the element."""
    elements = []
    for (item, weight) in items:
        name = item.item if isinstance(item, Parametrized) else item
        if weight is None:
            weight = 1.0
        elif isinstance(weight, MultiDict):
            weight = weight.get('q', 1.0)
        elements.append((name, name.lower(), weight))
    out = []
    for ((wild, w, q1), (value, v, q2)) in pairs_in_order(elements):
        if q1 == q2 and w != v:
            if w == '*' or w == '*/*':
                out.append((wild, value))
            elif w.endswith('/*') and v.startswith(w[:-1]):
                out.append((wild, value))
    return out


ITEM_NAME = {'text': 'str'}


def accept_element(e, t):
    # whether an element has parameters, and how its weight is given, are independent unknowns
    item = SV(fn('element_item', [V], V)(t), {'attrs': {'item': ITEM_NAME}, 'text': 'str'})
    return item, SV(fn('element_weight', [V], V)(t))


def triple(e, t):
    one = lambda n: tuple(SV(fn('%s_%s' % (n, p), [V], V)(t), {'text': 'str'} if p == 'lower' else None) for p in ('name', 'lower', 'weight'))
    return one('first'), one('second')


def subsumption_engine():
    eng = prepare()
    C = eng.contracts
    pairs = lambda e, a, k: SV(fn('pairs_in_order', [V], V)(e.to_v(a[0])), {'elem': {'make': triple}})
    C[pairs_in_order] = pairs
    C[itertools.permutations] = lambda e, a, k: pairs(e, a, k) if list(a[1:]) == [2] and not k else e.app('permutations', [e.to_v(x) for x in a])
    return eng


for P in ('C13',):
    rel(P, 'helper _accept_subsumptions', ['httpolice.request._accept_subsumptions'], subsumption_engine,
        lambda e: ([Splat(const('items'), {'make': accept_element})],), calls(request._accept_subsumptions), calls(spec_subsumptions))
