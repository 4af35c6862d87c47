"""C07: header views.  Contracts of HeadersView and HeaderView discharged by the relational verifier; exhaustive choice of the view
class; bounded: random messages against an independent aggregator."""
import random

from contracts import core, known_facts, msggen, relcheck
from contracts import c07_contracts     # noqa: registers the contracts

SPECIAL_RULE = {'Alt-Svc': 'multi', 'Cache-Control': 'multi', 'Forwarded': 'multi', 'Prefer': 'multi', 'Preference-Applied': 'multi',
                'Strict-Transport-Security': 'single'}
VIEW = {'Alt-Svc': 'AltSvcView', 'Cache-Control': 'CacheControlView', 'Forwarded': 'ForwardedView', 'Prefer': 'PreferView',
        'Preference-Applied': 'PreferenceAppliedView', 'Strict-Transport-Security': 'StrictTransportSecurityView'}
RULE_VIEW = {'enum:single': 'SingleHeaderView', 'enum:multi': 'MultiHeaderView', None: 'UnknownHeaderView'}


def classes(chk):
    """Every registered header name (and unknown ones) gets the view that its rule prescribes, once per message."""
    from httpolice import request
    from httpolice.structure import FieldName
    wrong, n = [], 0
    rows = known_facts.facts()['header']['rows']
    for name in sorted(rows) + ['X-Unknown', 'zz', 'x-forwarded-by']:
        for variant in (name, name.lower(), name.upper()):
            n += 1
            req = request.Request(u'http', u'GET', u'/', u'HTTP/1.1', [], b'')
            rule = rows[name]['rule_for'] if name in rows else None
            want = VIEW.get(name) or RULE_VIEW.get(rule, '?')
            v = req.headers[FieldName(variant)]
            if type(v).__name__ != want or v is not req.headers[FieldName(name)] or v.name != name or v.message is not req:
                wrong.append('%s: %s, expected %s' % (variant, type(v).__name__, want))
    if wrong:
        chk.obligation('HeadersView.__getitem__ for every registered name', 'refuted', 'exhaustive', 0, '; '.join(wrong[:5]))
        chk.violation('view-class', 'HeadersView.__getitem__: ' + wrong[0], {'differences': wrong[:30]})
    else:
        chk.obligation('HeadersView.__getitem__ for every registered name (%d names)' % n, 'discharged', 'exhaustive')


def flat(v):
    """Comparable form of a value."""
    from httpolice.structure import MultiDict, Unavailable
    if isinstance(v, Unavailable):
        return ('U',)
    if isinstance(v, MultiDict):
        return ('M', flat(v.sequence))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [flat(x) for x in v])
    if isinstance(v, str):
        return ('s', str(v))
    return (type(v).__name__, repr(v))


class Oracle:
    """Values of single entries come from parse() (its contract is C05, C06) on first use, before the views run."""

    def __init__(self):
        self.cache = {}

    def entry(self, name, value):
        """-> ('raw', bytes) | ('bad',) | ('ok', is_list, flat value or None if processed further)"""
        from httpolice import known
        from httpolice.parse import ParseError, parse
        from httpolice.structure import FieldName
        key = (name.lower(), value)
        if key not in self.cache:
            syntax = known.header.syntax_for(FieldName(name))
            if syntax is None:
                r = ('raw', value)
            else:
                try:
                    v = parse(value, syntax)
                    r = ('ok', isinstance(v, list), None if name in VIEW else flat(v), None if name in VIEW else len(v) if isinstance(v, list) else 1)
                except ParseError:
                    r = ('bad',)
            self.cache[key] = r
        return self.cache[key]


def canonical():
    rows = known_facts.facts()['header']['rows']
    return {k.lower(): k for k in rows}, rows


def expect(oracle, headers, trailers, names, rows):
    """-> name -> (entries, kind, value), notices"""
    out, notices = {}, set()
    order = []
    for h, v in headers + trailers:
        k = names.get(h.lower(), h)
        if k.lower() not in [o.lower() for o in order]:
            order.append(k)
    for name in order:
        rule = rows[name]['rule_for'] if name in rows else None
        rule = SPECIAL_RULE.get(name) or {'enum:single': 'single', 'enum:multi': 'multi'}.get(rule)
        forbidden = bool(name in rows and rows[name]['is_bad_for_trailer'])
        items = []
        for trailer, part in ((False, headers), (True, trailers)):
            for i, (h, v) in enumerate(part):
                if h.lower() == name.lower():
                    if trailer and forbidden:
                        notices.add((1026, v))
                    else:
                        items.append((h, v))
        values = []
        for h, v in items:
            e = oracle.entry(name, v)
            values.append(e)
            if e[0] == 'bad':
                notices.add((1000, v))
        if rule == 'single':
            if len(items) > 1:
                notices.add((1013, name.lower()))
            val = ('absent',) if not items else ('U',) if values[-1][0] == 'bad' else values[-1]
            out[name] = (items[-1:], rule, val)
        elif rule == 'multi':
            sing = [x for x in values if x[0] == 'ok' and not x[1] or x[0] == 'raw']
            if sing and (len(sing) > 1 or len(items) > 1):
                notices.add((1013, name.lower()))
                val = ('list', [('U',)])
            elif sing:
                val = sing[0]
            else:
                parts = []
                for x in values:
                    if x[0] == 'bad':
                        parts.append(('U',))
                    elif x[2] is None:
                        parts = None
                        break
                    else:
                        parts += x[2][1]
                val = ('list', parts) if parts is not None else ('skip',)
            out[name] = (items, rule, val)
        else:
            val = ('absent',) if not items else ('raw', b','.join(v for _, v in items))
            out[name] = (items, rule, val)
    return out, notices


def observe(view, others):
    """Every observer of a view against its value; -> None or what is inconsistent."""
    import operator
    from httpolice.structure import Unavailable
    v = view.value
    okay = v is not None and not isinstance(v, Unavailable)
    if view.value is not v or view.is_okay is not okay:
        return 'is_okay %r for value %r' % (view.is_okay, v)
    if view.is_present is not (len(view.entries) > 0) or view.is_absent is not (len(view.entries) == 0):
        return 'is_present/is_absent with %d entries' % len(view.entries)
    if bool(view) is not bool(v):
        return 'bool is %r for value %r' % (bool(view), v)
    for attr in ('item', 'param', 'opaque_tag', 'weak'):
        if hasattr(v, attr) and getattr(view, attr) is not getattr(v, attr) and getattr(view, attr) != getattr(v, attr):
            return 'attribute %s of the view' % attr
    if isinstance(v, list):
        usable = [x for x in v if x is not None and not isinstance(x, Unavailable)] if type(view).__mro__[1].__name__ != 'HeaderView' or \
            type(view).__name__ == 'MultiHeaderView' else v
        got = list(view)
        if len(got) != len(usable) or any(a is not b for a, b in zip(got, usable)):
            return 'iteration gives %r for value %r' % (got, v)
        for o in others + [getattr(x, 'item', x) for x in usable[:3]]:
            if (o in view) is not any(x == o for x in usable):
                return '%r in view is %r for value %r' % (o, o in view, v)
    for o in others + [v, None, Unavailable(), Unavailable(v)]:
        ok = okay and o is not None and not isinstance(o, Unavailable)
        for op in (operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge):
            try:
                want = bool(op(v, o)) if ok else False
            except TypeError:
                continue
            got = op(view, o)
            if bool(got) is not want or (not ok and got is not False):
                return '%s(view, %r) is %r for value %r' % (op.__name__, o, got, v)
    return None


def check_one(case, oracle, names, rows, seed):
    from httpolice import request, response
    from httpolice.structure import FieldName
    headers, trailers, in_resp, only = case
    exp, notices = expect(oracle, headers, trailers, names, rows)
    if in_resp:
        m = response.Response(u'HTTP/1.1', 200, u'OK', headers, b'', trailer_entries=trailers)
    else:
        m = request.Request(u'http', u'GET', u'/', u'HTTP/1.1', headers, b'', trailers)
    got_names = list(m.headers.names)
    if [n.lower() for n in got_names] != [n.lower() for n in exp]:
        return 'names are %r, expected %r' % (got_names, list(exp))
    if [(t, i, e.value) for t, i, e in m.headers.enumerate()] != [(False, i, v) for i, (_, v) in enumerate(headers)] + \
            [(True, i, v) for i, (_, v) in enumerate(trailers)]:
        return 'enumerate() gives %r' % m.headers.enumerate()
    if [v.name.lower() for v in m.headers] != [n.lower() for n in exp]:
        return 'iteration over the headers gives %r' % [v.name for v in m.headers]
    if m.headers.clearly(lambda n: 'a' in n.lower()) != set(n for n in got_names if 'a' in n.lower()):
        return 'clearly() gives %r' % m.headers.clearly(lambda n: 'a' in n.lower())
    r = random.Random(seed)
    absent = [n for n in ('Host', 'Vary', 'ETag', 'X-Nope', 'Cache-Control', 'Date') if n.lower() not in [x.lower() for x in exp]]
    todo = list(exp) + absent
    r.shuffle(todo)
    others = ['', 'foo', 'close', 'x', 0, 5, b'x', b'', ('a', 'b')]
    views = []
    for name in todo:
        view = m.headers[FieldName(name)]
        if r.random() < 0.4 and name in rows and getattr(m.headers, name.lower().replace('-', '_'), view) is not view:
            return '%s: attribute and item give different views' % name
        first = r.choice(['value', 'entries', 'is_present', 'is_okay', 'is_absent'])
        getattr(view, first)
        items, rule, val = exp.get(name, ([], None, None))
        if name not in exp:
            rule = SPECIAL_RULE.get(name) or {'enum:single': 'single', 'enum:multi': 'multi'}.get(rows[name]['rule_for'] if name in rows else None)
            val = ('list', []) if rule == 'multi' else ('absent',)
        got = [(e.name, e.value) for e in view.entries]
        if [(str(a).lower(), b) for a, b in got] != [(a.lower(), b) for a, b in items]:
            return '%s: entries %r, expected %r' % (name, got, items)
        v = view.value
        if val[0] == 'absent':
            good = v is None
        elif val[0] == 'U':
            good = flat(v) == ('U',)
        elif val[0] == 'raw':
            good = v == val[1]
        elif val[0] == 'list':
            good = isinstance(v, list) and flat(v)[1] == val[1]
        elif val[0] == 'skip' or val[2] is None:
            good = v is not None and flat(v) != ('U',)
        else:
            good = flat(v) == val[2]
        if not good:
            return '%s: value %r, expected %r' % (name, v, val)
        total = sum(1 for h, _ in headers + trailers if h.lower() == name.lower())
        if view.total_entries != total:
            return '%s: total_entries is %d, expected %d' % (name, view.total_entries, total)
        w = observe(view, others)
        if w:
            return '%s: %s' % (name, w)
        views.append(view)
    for a in views[:4]:
        for b in views[:4]:
            if (a == b) is not (a is b) or (a != b) is not (a is not b):
                return 'comparison of the views of %s and %s' % (a.name, b.name)
    got = set()
    for c in m.complaints:
        if c.notice.id in (1000, 1026):
            got.add((c.notice.id, c.context.get('entry', c.context.get('place')).value))
        elif c.notice.id == 1013:
            got.add((1013, c.context['header'].name.lower()))
            es = c.context['entries']
            want = [e for e in m.headers.enumerate(c.context['header'].name)]
            if [e.value for e in es] != [e.value for t, _, e in want if not (t and rows.get(names.get(c.context['header'].name.lower()), {}).get('is_bad_for_trailer'))]:
                return '1013 lists entries %r' % (es,)
    if got != notices:
        return 'notices: missing %r, unexpected %r' % (sorted(notices - got, key=str), sorted(got - notices, key=str))
    for trailer, part in ((False, headers), (True, trailers)):
        for i, (h, v) in enumerate(part):
            name = names.get(h.lower(), h)
            e = oracle.entry(name, v)
            bad_trailer = trailer and name in rows and rows[name]['is_bad_for_trailer']
            ann = m.annotations.get((trailer, i))
            if (ann is not None) is not (e[0] == 'ok' and not bad_trailer):
                return 'annotation of %s %r: %r' % (h, v, ann)
            if ann is not None and not any(isinstance(x, int) for x in ann) and b''.join(x if isinstance(x, bytes) else str(x).encode('iso-8859-1') for x in ann) != v:
                return 'annotation of %s %r does not reproduce it: %r' % (h, v, ann)
    return None


def make_case(gen):
    r = gen.rng
    n = r.choice([1, 2, 3, 4, 6, 9])
    pool = [r.choice(gen.names if r.random() < 0.8 else gen.known()) for _ in range(r.choice([1, 2, 3]))]
    hs = [(gen.case(x), gen.value(x).encode('iso-8859-1', 'replace')) for x in (r.choice(pool) for _ in range(n))]
    if r.random() < 0.4:
        k = r.randrange(0, n + 1)
        return hs[:k], hs[k:], r.random() < 0.5, None
    return hs, [], r.random() < 0.5, None


def job(args):
    seed, n = args
    gen = msggen.Gen(seed)
    names, rows = canonical()
    oracle = Oracle()
    for i in range(n):
        case = make_case(gen)
        try:
            bad = check_one(case, oracle, names, rows, seed * 7919 + i)
        except Exception as e:
            import traceback
            bad = 'raises %r at %s' % (e, traceback.format_exc().splitlines()[-3:-1])
        if bad:
            return i + 1, (case, bad)
    return n, None


def bounded(chk):
    n = 12000 if chk.thorough else 800
    for k, bad in core.parallel(job, [(chk.seed * 1000 + i, n) for i in range(8)]):
        chk.bound('messages against an independent aggregator', k, 'random; up to 9 entries over up to 3 names; %d per process' % n)
        if bad:
            (hs, ts, in_resp, _), what = bad
            chk.violation('view', '%s with headers %r, trailers %r: %s' % ('response' if in_resp else 'request', hs, ts, what),
                          {'headers': repr(hs), 'trailers': repr(ts), 'in_response': in_resp, 'difference': what})


def run(chk):
    from props import rules
    chk.trusted += ['pyvc (generator of obligations)', 'z3', 'contracts of parse() (decided by C05, C06)']
    chk.part('contracts', relcheck.run, chk, relcheck.names_of('C07'))
    chk.part('tables', rules.tables, chk)
    chk.part('classes', classes, chk)
    chk.part('bounded', bounded, chk)
