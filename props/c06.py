"""C06: the parser recognises exactly the grammar and never depends on history."""
import collections
import random
import signal
import time

from contracts import c06_contracts, core, parser_spec as ps, relcheck  # noqa


class Hang(BaseException):
    pass


def alarm(*a):
    raise Hang()


def one(e, recs, s, data, notes):
    """None, or what is wrong with the real parser on this grammar and input."""
    from httpolice.parse import parse, ParseError
    o = ps.Oracle(e, recs, data)
    coms = []
    try:
        r, ann = parse(data, s, lambda i, **k: coms.append((i, k.get('n'))), annotate_classes=[ps.Noted])
    except ParseError as ex:
        if o.accepts():
            return 'a word of the language is rejected'
        p = max(i for i in range(len(data) + 1) if ps.Oracle(e, recs, data[:i]).viable())
        if p != ex.position:
            return 'error reported at %d, but the first impossible position is %d' % (ex.position, p)
        return None
    if not o.accepts():
        return 'a word outside the language is accepted'
    if ps.flat(r).encode() != data:
        return 'the result is not a derivation of the input: %r' % (r,)
    want = []
    try:
        ps.validate(e, r, want)
    except ps.Invalid as x:
        return 'invalid derivation: %s' % x
    if sorted(want) != sorted(coms):
        return 'complaints %r are not those of the derivation %r' % (sorted(coms), sorted(want))
    text = b''
    inside = {id(n) for n in ps.nodes(r)}
    for x in ann:
        if isinstance(x, bytes):
            text += x
        else:
            if id(x) not in inside:
                return 'an annotation comes from another derivation'
            text += ps.flat(x).encode()
    if text != data:
        return 'the annotated form %r does not reproduce the input' % (ann,)
    return None


def strings(rng, e, recs, n):
    for _ in range(n):
        yield ''.join(rng.choice('abc') for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 7]))).encode()


def job(j):
    seed, lo, hi, deadline = j
    signal.signal(signal.SIGALRM, alarm)
    n = 0
    bad, hung = [], []
    for k in range(lo, hi):
        if time.time() > deadline:
            break
        rng = random.Random('%d/%d' % (seed, k))
        e, recs = ps.grammar(rng)
        if not ps.usable(e, recs) or ps.cyclic(e, recs):
            continue
        s = ps.build(e, recs)
        for data in list(strings(rng, e, recs, 10)) + [words(rng, e, recs) for _ in range(4)]:
            if data is None:
                continue
            n += 1
            signal.alarm(5)
            try:
                w = one(e, recs, s, data, None)
            except Hang:
                w = None
                hung.append((seed, k, repr(e), repr(recs), data, 'no answer within 5 s'))
            except RecursionError:
                w = 'RecursionError'
            signal.alarm(0)
            if w:
                bad.append((seed, k, repr(e), repr(recs), data, w))
                break
        if len(bad) > 3:
            break
    return n, bad, hung


def words(rng, e, recs, fuel=60):
    """A random word of the language (or None)."""
    left = [fuel]

    def go(x):
        left[0] -= 1
        if left[0] < 0:
            raise OverflowError
        k = x.kind
        if k == 'set':
            return rng.choice(sorted(x.args[0]))
        if k == 'lit':
            return x.args[0]
        if k == 'ref':
            return go(x.args[0].body)
        if k == 'seq':
            return ''.join(go(y) for y in x.args)
        if k == 'alt':
            return go(rng.choice(x.args))
        if k == 'many':
            return ''.join(go(x.args[0]) for _ in range(rng.choice([0, 0, 1, 2, 3])))
        if k == 'many1':
            return ''.join(go(x.args[0]) for _ in range(rng.choice([1, 1, 2, 3])))
        if k == 'times':
            return ''.join(go(x.args[2]) for _ in range(rng.randint(x.args[0], x.args[1])))
        if k == 'maybe':
            return go(x.args[0]) if rng.random() < 0.5 else ''
        return go(x.args[0])
    try:
        w = go(e)
    except (OverflowError, RecursionError):
        return None
    return w.encode() if len(w) < 14 else None


# ------------------------------------------------------------------------------------------------
# history independence

def plain(v, depth=0):
    """Comparable description of a parse result."""
    if depth > 12:
        return '...'
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [plain(x, depth + 1) for x in v]
    if isinstance(v, dict):
        return sorted((repr(k), plain(x, depth + 1)) for k, x in v.items())
    if hasattr(v, '__dict__') and not isinstance(v, type) and type(v).__module__.startswith('httpolice'):
        return [type(v).__name__, plain(dict(v.__dict__), depth + 1), repr(v)]
    if hasattr(v, 'sequence'):
        return [type(v).__name__, plain(v.sequence, depth + 1)]
    return [type(v).__name__, repr(v)]


def outcome(data, symbol, classes, name):
    from httpolice.parse import parse, ParseError
    coms = []
    try:
        r = parse(data, symbol, lambda i, **k: coms.append((i, sorted((a, plain(b)) for a, b in k.items()))),
                  annotate_classes=classes)
    except ParseError as e:
        return ['error', e.position, repr(e.found), [(d, sorted(str(s.name) for s in (ss or ()))) for d, ss in e.expected]]
    if classes:
        return [plain(r[0]), plain(r[1]), coms]
    return [plain(r), coms]


def limits():
    from httpolice import parse as P
    memo, lim = getattr(P, '_memo', None), getattr(P, 'MEMO_LIMIT', None)
    return memo, lim


def history(chk):
    from httpolice import known, structure
    from httpolice.structure import FieldName
    from contracts import abnf, grammar_spec, msggen
    import copy
    rng = random.Random(chk.seed)
    pool = []
    everything = sorted(set(known.classes) | {structure.Parametrized}, key=lambda c: c.__name__)
    for h in abnf.HEADERS:
        sym = known.header.syntax_for(FieldName(h))
        if sym is None:
            continue
        vals = list(msggen.HEADERS.get(h, ()))[:12] + ['', 'x', '*', 'a, b', '"x"']
        for v in vals:
            try:
                b = v.encode('iso-8859-1')
            except UnicodeError:
                continue
            some = tuple(rng.sample(everything, min(2, len(everything))))
            for classes in ((), tuple(known.classes), some, some[:1]):
                pool.append((b, sym, classes, h))
    memo, lim = limits()
    n = 0

    def reset():
        if memo is not None:
            memo.clear()
    fresh = {}
    for i, (b, sym, classes, h) in enumerate(pool):
        reset()
        fresh[i] = outcome(b, sym, classes, h)
    order = []
    rounds = 6 if chk.thorough else 3
    for _ in range(rounds):
        xs = list(range(len(pool)))
        rng.shuffle(xs)
        order += xs
    # also bursts of repeated and alternating requests
    for _ in range(3000):
        i = rng.randrange(len(pool))
        order += [i, i, max(0, i - 1), i]
    for i in order:
        n += 1
        got = outcome(*pool[i])
        if got != fresh[i]:
            chk.violation('history', 'parse(%r, %s) depends on what was parsed before: %r, when fresh %r' % (
                pool[i][0], pool[i][3], got, fresh[i]), {'input': repr(pool[i][0]), 'syntax': pool[i][3], 'annotated': bool(pool[i][2])})
            break
        if memo is not None and lim is not None and len(memo) > lim:
            chk.violation('memo', 'the number of remembered results %d exceeds its limit %d' % (len(memo), lim),
                          {'history': [repr(pool[k][0]) for k in order[:n]][-20:]})
            break
    if memo is not None and lim is not None:
        from httpolice.syntax.rfc7230 import token
        for k in range(3 * lim):
            outcome(b'%d' % k + b'a' * rng.choice([1, 20, 300, 700]), token, rng.choice([(), (FieldName,)]), 'token')
            if len(memo) > lim:
                chk.violation('memo', 'the number of remembered results %d exceeds its limit %d' % (len(memo), lim),
                              {'history': 'parse() of %d different tokens of up to 700 octets' % (k + 1)})
                break
    chk.bound('history independence of parse()', n, '%d (value, syntax, annotation) triples in %d random calls' % (len(pool), len(order)))


def message_history(chk):
    """The same message analysed again, after others, gives the same notices and header values."""
    from contracts import abnf, msggen
    from httpolice.exchange import Exchange, check_exchange
    from httpolice.request import Request
    from httpolice.response import Response
    from httpolice.structure import FieldName
    rng = random.Random(chk.seed + 1)
    cases = []
    for h in abnf.HEADERS:
        for v in list(msggen.HEADERS.get(h, ()))[:10] + ['x', '']:
            cases.append((h, v))

    def run(h, v):
        out = []
        for m in (Request('http', 'GET', '/', 'HTTP/1.1', [('Host', b'h'), (h, v)], b''),
                  Response('HTTP/1.1', 200, 'OK', [(h, v)], b'')):
            view = m.headers[FieldName(h)]
            val = plain(view.value)
            x = Exchange(m, []) if isinstance(m, Request) else Exchange(None, [m])
            check_exchange(x)
            out.append((val, [c.notice.id for c in m.complaints], plain(view.value),
                        sorted((repr(k), plain(a)) for k, a in m.annotations.items())))
        return out
    memo, lim = limits()
    first = {}
    n = 0
    for c in cases:
        if memo is not None:
            memo.clear()
        first[c] = run(*c)
    order = cases * 2
    rng.shuffle(order)
    for c in order:
        n += 1
        got = run(*c)
        if got != first[c]:
            chk.violation('history:message', 'analysing %s: %s again gives another answer: %r, at first %r' % (c[0], c[1], got, first[c]),
                          {'header': c[0], 'value': c[1]})
            break
    chk.bound('history independence of whole-message analysis', n, '%d header values, each analysed three times' % len(cases))




def bounded(chk):
    per = 60000 if chk.thorough else 2600
    deadline = time.time() + (600 if chk.thorough else 60)
    size = 100
    jobs = [(chk.seed, i, i + size, deadline) for i in range(0, per, size)]
    slow, total = [], 0
    for n, bad, hung in core.parallel(job, jobs):
        slow += hung
        total += n
        chk.bound('random grammars against the span-fixpoint recogniser (language, error position, derivation, complaints, annotations)',
                  n, '%d random grammars of at most 5 levels, inputs of at most 14 octets' % per)
        for seed, k, e, recs, data, w in bad:
            chk.violation('grammar', '%s: grammar %s with %s, input %r' % (w, e, recs, data),
                          {'seed': seed, 'grammar_no': k, 'grammar': e, 'recursive': recs, 'input': repr(data), 'what': w})
    if slow:
        chk.bound('inputs of highly ambiguous grammars left without an answer after 5 s', len(slow), 'not judged')
    if len(slow) > 2 + total // 500:
        seed, k, e, recs, data, w = slow[0]
        chk.violation('grammar', '%s: grammar %s with %s, input %r' % (w, e, recs, data),
                      {'seed': seed, 'grammar_no': k, 'grammar': e, 'recursive': recs, 'input': repr(data), 'what': w})


def earley_steps(chk):
    """The recogniser against the inference rules of Earley's algorithm, iteration by iteration."""
    from contracts import earley
    for which, out in core.parallel(earley.outcome, sorted(earley.FUNCTIONS), timeout=200):
        for label, status, sec, detail in out:
            chk.obligation(label, status, 'pyvc / z3', sec, detail)
        chk.functions += earley.FUNCTIONS[which]


def run(chk):
    chk.trusted += ['pyvc (engine and relational verifier, own code)', 'z3', 'contracts/c06_contracts.py (executable specifications)',
                    'contracts/parser_spec.py (span-fixpoint recogniser for the bounded part)']
    chk.assumptions += ['_inner_parse is a function of its arguments or raises ParseError (proved: its chart has exactly the items that the rules of Earley\'s algorithm derive, results are put together from those of the symbols of a completed item)',
                        'every derivation is found by the rules of Earley\'s algorithm with nullable symbols skipped (Aycock and Horspool)',
                        'id() differs between live objects; is_nullable is what it says; _unroll resumes each generator with the next result of the one it asked for (bounded)',
                        'what was remembered is not changed by those who got it (history part, bounded)', 'parse() is not interrupted half-way or called from two threads']
    chk.part('contracts', lambda: relcheck.run(chk, relcheck.names_of('C06')))
    chk.part('recogniser', earley_steps, chk)
    chk.part('grammars', bounded, chk)
    chk.part('history', history, chk)
    chk.part('message history', message_history, chk)
