"""C09: laws of the protocol value types."""
import itertools
import random
import traceback

from contracts import core, relcheck
from contracts import c09_contracts     # noqa

CI = ['CaseInsensitive', 'FieldName', 'TransferCoding', 'ContentCoding', 'ConnectionOption', 'MediaType', 'LanguageTag', 'Charset',
      'RangeUnit', 'CacheDirective', 'AuthScheme', 'HSTSDirective', 'Preference', 'ForwardedParam']
CS = ['ProtocolString', 'HTTPVersion', 'Method', 'UpgradeToken', 'ProductName', 'AltSvcParam']
TEXTS = ['', 'a', 'A', 'aB', 'Ab', 'AB', 'ab', 'text/HTML', 'TEXT/html', 'text/html', 'no-cache', 'No-Cache', 'x_', 'X_', 'a-', 'a_', 'é', 'É',
         'abc', 'abC', '1', 'a1']


class Bad(Exception):
    pass


def need(cond, what, **ctx):
    if not cond:
        raise Bad(what, ctx)


def strings(chk):
    from httpolice import structure
    n = 0
    vals = []
    for cn in CI + CS:
        c = getattr(structure, cn, None)
        if c is None:
            continue
        for t in TEXTS:
            vals.append((cn in CI, cn, t, c(t)))
    for t in TEXTS:
        vals.append((False, 'str', t, t))
    for (ci1, c1, t1, a), (ci2, c2, t2, b) in itertools.product(vals, repeat=2):
        if ci1 != ci2 and 'str' not in (c1, c2):
            continue                # unrelated classes
        n += 1
        want = t1.lower() == t2.lower() if ci1 or ci2 else t1 == t2
        need((a == b) is want, '%s(%r) == %s(%r) is %r' % (c1, t1, c2, t2, a == b))
        need((a != b) is (not want), '%s(%r) != %s(%r) is %r' % (c1, t1, c2, t2, a != b))
        if want and ci1 == ci2:
            need(hash(a) == hash(b), 'hash(%s(%r)) and hash(%s(%r)) differ' % (c1, t1, c2, t2))
            need(len({a, b}) == 1 and b in {a: 1}, 'set of %s(%r), %s(%r)' % (c1, t1, c2, t2))
        if not want:
            need(len({a, b}) == 2, 'set of %s(%r), %s(%r)' % (c1, t1, c2, t2))
        if ci1:
            need(bool(a.startswith(b)) is t1.lower().startswith(t2.lower()), '%s(%r).startswith(%r)' % (c1, t1, b))
            need(bool(a.endswith(b)) is t1.lower().endswith(t2.lower()), '%s(%r).endswith(%r)' % (c1, t1, b))
    c = structure.CaseInsensitive
    special = [c(t) for t in ('stra\xdfe', 'STRASSE', 'strasse', 'S', '\u017f', 's', 'k', '\u212a', 'K', '\ufb01', 'fi', 'FI', '\u0130', 'i\u0307', 'i',
                              '\u01c5', '\u01c6', '\u03c3', '\u03c2', '\u03a3', '\xb5', '\u03bc')]
    for a, b in itertools.product(special, repeat=2):
        # letters whose lower, upper and folded forms do not correspond: whichever is used, the laws hold
        n += 1
        need((a == b) is (b == a) and (a != b) is (not a == b), 'equality of %r and %r' % (a, b))
        need(a != b or hash(a) == hash(b), '%r equals %r but has another hash' % (a, b))
    for _, cn, t, a in vals:
        for other in (None, 5, b'a', ('a',), [], structure.Unavailable('a')):
            n += 1
            need((a == other) is False and (a != other) is True, '%s(%r) == %r' % (cn, t, other))
        if cn != 'str':
            need(isinstance(a, str) and str(a) == t and len(a) == len(t), '%s(%r) keeps its text' % (cn, t))
    chk.bound('protocol strings: all pairs over all classes', n, '%d classes x %d texts' % (len(CI + CS), len(TEXTS)))


def unavailable(chk):
    from httpolice.structure import Unavailable, okay
    n = 0
    inner = [None, '', 'a', 'A', b'', b'a', 'b', ('a',), 5]
    us = [Unavailable(x) for x in inner] + [Unavailable(x) for x in inner] + [Unavailable()]
    need(Unavailable().inner is None and Unavailable('a').inner == 'a', 'inner')
    for a, b in itertools.product(us, repeat=2):
        n += 1
        want = a.inner is not None and b.inner is not None and a.inner == b.inner
        need((a == b) is want, '%r == %r' % (a, b))
        need((a != b) is (not want), '%r != %r' % (a, b))
        if want:
            need(hash(a) == hash(b), 'hash %r' % a)
    for a in us:
        hash(a)
        for o in inner + ['x', 1.5, object(), []]:
            n += 1
            need((a == o) is False and (o == a) is False and (a != o) is True, '%r == %r' % (a, o))
        need(okay(a) is False, 'okay(%r)' % a)
    need(okay(None) is False, 'okay(None)')
    for o in ['', 0, b'', [], {}, False, 'x', 5, object(), ()]:
        need(okay(o) is True, 'okay(%r)' % (o,))
    chk.bound('unavailable values: all pairs', n, '%d contents' % len(inner))


def items(chk):
    from httpolice import structure as s
    n = 0
    ci = s.MediaType
    base = [ci('a/b'), ci('A/B'), 'a/b', 'c', 5, None, s.Unavailable('a/b'), s.ProductName('c')]
    ps = [s.Parametrized(i, p) for i in base[:4] + [5] for p in (None, 'x', [('q', 1)])]
    for a in ps:
        for o in base:
            n += 1
            need((a == o) is (a.item == o), '%r == %r' % (a, o))
            need((a != o) is (not (a.item == o)), '%r != %r' % (a, o))
            need((o in [a]) is (a.item == o) or isinstance(o, str), '%r in [%r]' % (o, a))
        for b in ps:
            n += 1
            want = a.item == b.item and a.param == b.param
            need((a == b) is want and (a != b) is (not want), '%r == %r' % (a, b))
            need((a == tuple(b)) is want, '%r == %r' % (a, tuple(b)))
        if isinstance(a.item, s.CaseInsensitive):
            need(hash(a) == hash(a.item), 'hash(%r)' % (a,))
        need(tuple(a) == (a.item, a.param), 'fields of %r' % (a,))
    ws = [s.WarningValue(s.WarnCode(c), 'x', t, None) for c in (110, 299) for t in 'ab']
    for a in ws:
        for c in (110, 299, 199, s.WarnCode(110), None, 'x'):
            n += 1
            need((a == c) is (int(a.code) == c), '%r == %r' % (a, c))
            need((a != c) is (int(a.code) != c), '%r != %r' % (a, c))
            need((c in [a]) is (int(a.code) == c), '%r in [%r]' % (c, a))
        for b in ws:
            n += 1
            want = tuple(a) == tuple(b)
            need((a == b) is want and (a != b) is (not want), '%r == %r' % (a, b))
            if want:
                need(hash(a) == hash(b), 'hash')
        need(hash(a) == hash(a.code), 'hash of %r' % (a,))
    tags = [s.EntityTag(w, t) for w in (True, False) for t in ('', 'a', 'A', 'b')]
    for a, b in itertools.product(tags, repeat=2):
        n += 1
        need(bool(a.weak_equiv(b)) is (a.opaque_tag == b.opaque_tag), 'weak %r %r' % (a, b))
        need(bool(a.strong_equiv(b)) is (not a.weak and not b.weak and a.opaque_tag == b.opaque_tag), 'strong %r %r' % (a, b))
        need((a == b) is ((a.weak, a.opaque_tag) == (b.weak, b.opaque_tag)), '%r == %r' % (a, b))
    for v in (None, '1.0'):
        x = s.Versioned(s.ProductName('h'), v)
        n += 1
        need(x == s.Versioned(s.ProductName('h'), v) and x != s.Versioned(s.ProductName('H'), v) and x.item == 'h' and x.version == v,
             'Versioned %r' % (x,))
        need(str(x) == ('h' if v is None else 'h/1.0'), 'text of %r' % (x,))
    for nm, val in (('Host', b'x'), ('HOST', 'x'), ('hOST', b'')):
        e = s.HeaderEntry(nm, val)
        n += 1
        need(isinstance(e.name, s.FieldName) and e.name == 'host' and isinstance(e.value, bytes) and
             e.value == (val if isinstance(val, bytes) else val.encode('iso-8859-1')), 'HeaderEntry(%r, %r)' % (nm, val))
    chk.bound('items with parameters, warnings, entity tags, header entries: all pairs', n, 'small value sets')


def multidict(chk):
    from httpolice.structure import CaseInsensitive, MultiDict
    n = 0
    top = 6 if chk.thorough else 5
    for keys, mk in (('abA', str), ('abA', CaseInsensitive)):
        pairs = [(k, v) for k in keys for v in (1, None)]
        for ln in range(top):
            if mk is CaseInsensitive and ln > 4:
                continue
            for seq in itertools.product(pairs, repeat=ln):
                n += 1
                fold = (lambda k: k.lower()) if mk is CaseInsensitive else (lambda k: k)
                s = [(mk(k), v) for k, v in seq]
                m = MultiDict(list(s))
                need(m.sequence == s and len(m) == len(s), 'order of %r' % (seq,))
                groups = {}
                for k, v in seq:
                    groups.setdefault(fold(k), []).append(v)
                need([fold(k) for k in m] == list(groups), 'iteration of %r' % (seq,))
                need([fold(k) for k in m.duplicates()] == [k for k, v in groups.items() if len(v) > 1], 'duplicates of %r' % (seq,))
                for k in keys + 'z':
                    g = groups.get(fold(k))
                    need((mk(k) in m) is (g is not None), '%r in %r' % (k, seq))
                    need(list(m.getall(mk(k))) == (g or []), 'getall(%r) of %r' % (k, seq))
                    need(m.get(mk(k)) == (g[0] if g else None), 'get(%r) of %r' % (k, seq))
                    need(m.get(mk(k), 'dflt') == (g[0] if g else 'dflt'), 'get(%r) of %r' % (k, seq))
                    try:
                        got = m[mk(k)]
                        need(g and got == g[0], '%r[%r]' % (seq, k))
                    except (KeyError, IndexError):
                        need(not g, '%r[%r] missing' % (seq, k))
                    try:
                        i = m.index(mk(k))
                        need(g and i == [fold(x) for x, _ in seq].index(fold(k)), 'index %r of %r' % (k, seq))
                    except ValueError:
                        need(not g, 'index %r of %r' % (k, seq))
                need(m == MultiDict(list(s)) and not (m != MultiDict(list(s))), 'equality of %r' % (seq,))
                if s:
                    need(m != MultiDict(s[1:]) and not (m == MultiDict(s[:-1])), 'equality of %r' % (seq,))
                if len(s) > 1 and seq[0] != seq[-1] and mk is str:
                    need(m != MultiDict(s[::-1]) or s == s[::-1], 'order in equality of %r' % (seq,))
    need(MultiDict().sequence == [] and len(MultiDict()) == 0, 'empty')
    a, b = MultiDict(), MultiDict()
    a.sequence.append(('x', 1))
    need(len(b) == 0 and 'x' in a, 'maps share state')
    m = MultiDict([('a', 1)])
    need('b' not in m, 'x')
    m.sequence.append(('b', 2))
    need('b' in m and m['b'] == 2 and list(m) == ['a', 'b'], 'changes of the sequence are not seen')
    chk.bound('multi-valued maps: all sequences', n, '3 keys x 2 values, up to length %d' % (top - 1))


def status(chk):
    from httpolice.structure import StatusCode
    names = ['informational', 'successful', 'redirection', 'client_error', 'server_error']
    for i in range(-200, 1300):
        s = StatusCode(i)
        for k, nm in enumerate(names):
            need(bool(getattr(s, nm)) is (100 * (k + 1) <= i < 100 * (k + 2)), 'StatusCode(%d).%s' % (i, nm))
        need(s == i and hash(s) == hash(i), 'StatusCode(%d) == %d' % (i, i))
    chk.bound('status codes', 1500, 'all from -200 to 1299')


def enums(chk):
    from httpolice.notice import Severity
    order = [Severity.debug, Severity.comment, Severity.error] if hasattr(Severity, 'debug') else sorted(Severity, key=lambda x: x.value)
    for i, a in enumerate(order):
        for j, b in enumerate(order):
            need((a < b) is (i < j) and (a <= b) is (i <= j) and (a > b) is (i > j) and (a >= b) is (i >= j) and (a == b) is (i == j),
                 'order of %r and %r' % (a, b))
        for op in ('__lt__', '__le__', '__gt__', '__ge__'):
            need(getattr(a, op)(5) is NotImplemented, 'order against another type')
    chk.bound('ordered enumeration', len(order) ** 2, 'all pairs of severities')


def run(chk):
    chk.trusted = ['pyvc (engine and relational verifier, own code)', 'z3', 'contracts/c09_contracts.py (executable specifications)']
    chk.assumptions += ['str.lower, hash and equality of built-in values are functions of their arguments; equality of field values is an equivalence']
    chk.part('contracts', lambda: relcheck.run(chk, relcheck.names_of('C09')))
    for f in (strings, unavailable, items, multidict, status, enums):
        def job(f=f):
            try:
                f(chk)
            except Bad as e:
                chk.violation('law:' + f.__name__, 'value law broken: %s' % e.args[0], {'law': e.args[0]})
            except Exception as e:
                where = traceback.format_exc().splitlines()[-7:]
                chk.violation('law:' + f.__name__, 'an operation on values raises %r' % e, {'law': f.__name__, 'trace': where})
        chk.part(f.__name__, job)
