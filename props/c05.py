"""C05: grammar languages.  Extracted language of every live symbol = language of the RFC's ABNF (exact automata equivalence)."""
import random
import sys
import time

from contracts import abnf, core, grammar_extract, grammar_spec as gs
from pyvc import lang

sys.setrecursionlimit(20000)
COMMENTS = [b'(a)', b'()', b'(\\))', b'((a)b)', b'( )']


def concrete(w, rng):
    out = b''
    for x in w:
        out += rng.choice(COMMENTS) if x >= 256 else bytes((x,))
    return out


def trim(d):
    return lang.inter(d, abnf.trimmed())


def spec_lang(rule, trimmed):
    d = gs.grammar().lang(rule)
    return trim(d) if trimmed else d


def ask(judge, symbol, data):
    """What the real code says: through the public behaviour if there is a judge, else through parse()."""
    if judge is not None:
        r = judge(data)
        if r is not None:
            return r
    if symbol is None:
        return None
    from httpolice.parse import parse, ParseError
    try:
        parse(data, symbol)
    except ParseError:
        return False
    return True


def prove(chk):
    ex = grammar_extract.Extractor()
    g = gs.grammar()
    for name, get, rule, trimmed, judge in gs.units():
        if get is None:
            continue
        t = time.time()
        ob = 'language of %s = ABNF rule %s' % (name, rule)
        try:
            sym = get()
        except Exception as e:
            chk.obligation(ob, 'undecided', 'automata', time.time() - t, repr(e))
            continue
        chk.functions.append(name)
        if sym is None:
            if name.startswith(('header', 'argument')):
                w = b''.join(bytes((x,)) for x in [0x22, 0x2c, 0x20, 0x22])
                got = ask(judge, None, w)
                if got is True or name.startswith('header'):
                    chk.obligation(ob, 'refuted', 'automata', time.time() - t, 'no syntax is registered')
                    chk.violation(name, '%s has no syntax: %r is accepted' % (name, w), {'unit': name, 'input': repr(w)})
                else:
                    chk.obligation(ob, 'undecided', 'automata', time.time() - t, 'symbol not found')
            else:
                chk.obligation(ob, 'undecided', 'automata', time.time() - t, 'symbol not found')
            continue
        try:
            d = ex.symbol(sym)
        except Exception as e:
            chk.obligation(ob, 'undecided', 'automata', time.time() - t, 'extraction: %r' % e)
            continue
        if trimmed:
            d = trim(d)
        spec = spec_lang(rule, trimmed)
        diffs, n = lang.difference(d, spec)
        if not diffs:
            chk.obligation(ob, 'discharged', 'automata', time.time() - t, '%d state pairs' % n)
            continue
        rng = random.Random(chk.seed)
        status = 'undecided'
        for w, live in diffs:
            data = concrete(w, rng)
            want = not live
            if ask(judge, sym, data) is not None and ask(judge, sym, data) != want:
                status = 'refuted'
                chk.violation(name, '%s: %r is %s, but the specification %s it' % (
                    name, data, 'accepted' if live else 'rejected', 'rejects' if live else 'accepts'),
                    {'unit': name, 'rule': rule, 'input': repr(data), 'accepted': live})
                break
        chk.obligation(ob, status, 'automata', time.time() - t, 'differ on %r' % [(concrete(w, rng), l) for w, l in diffs])
    # what the letter of a recursive symbol stands for
    com = g.lang('comment')
    for k, s in sorted(ex.recursive.items(), key=lambda x: str(x[1].name)):
        t = time.time()
        d = grammar_extract.Extractor().symbol(s)
        diffs, n = lang.difference(d, com)
        chk.obligation('recursive symbol %s: body = comment of RFC 7230 (least fixed points agree)' % s.name,
                       'discharged' if not diffs else 'undecided', 'automata', time.time() - t, repr(diffs))
    # no other syntax is registered
    from httpolice import known
    t = time.time()
    extra = []
    for k in known.header:
        if known.header.syntax_for(k) is not None and str(k) not in abnf.HEADERS:
            extra.append(('header', str(k)))
    for table in ('cache_directive', 'hsts_directive', 'alt_svc_param', 'preference', 'forwarded_param'):
        tb = getattr(known, table)
        for k in tb:
            if tb.syntax_for(k) is not None and (table, str(k)) not in abnf.ARGUMENTS:
                extra.append((table, str(k)))
    chk.obligation('no syntax beyond the specified ones is registered', 'discharged' if not extra else 'refuted',
                   'exhaustive', time.time() - t, repr(extra))


def job(j):
    idx, seed, limit, deadline = j
    name, get, rule, trimmed, judge = gs.units()[idx]
    rng = random.Random('%d %s' % (seed, name))
    spec = spec_lang(rule, trimmed)
    words = list(lang.cover(spec, rng, 1))
    rng.shuffle(words)
    seen = set()
    bad = []
    n = 0
    try:
        sym = get() if get else None
    except Exception:
        sym = None
    tr = abnf.trimmed()
    for w in words:
        if n >= limit or time.time() > deadline:
            break
        data = concrete(w, rng)
        key = data
        if key in seen or len(data) > 220:
            continue
        seen.add(key)
        if trimmed and not tr.accepts(data):
            continue
        if any(x >= 256 for x in w):
            want = spec.accepts(w)
        elif name.split()[-1] in ('User-Agent', 'Server', 'Via') and b'(' in data:
            continue                       # a literal parenthesis may or may not complete a nested comment
        else:
            want = spec.accepts(w)
        got = ask(judge, sym, data)
        if got is None:
            continue
        n += 1
        if got != want:
            bad.append((name, rule, data, want))
            if len(bad) > 3:
                break
    return n, bad


def bounded(chk):
    us = gs.units()
    limit = 4000 if chk.thorough else 220
    t = time.time()
    deadline = t + (500 if chk.thorough else 45)
    jobs = [(i, chk.seed, limit, deadline) for i in range(len(us))]
    random.Random(chk.seed).shuffle(jobs)
    for n, bad in core.parallel(job, jobs):
        chk.bound('transition cover of the specification automata, replayed on the real parser', n,
                  'at most %d strings per syntax, of at most 220 octets' % limit)
        for name, rule, data, want in bad:
            chk.violation(name, '%s: %r is %s, but the specification %s it' % (
                name, data, 'rejected' if want else 'accepted', 'accepts' if want else 'rejects'),
                {'unit': name, 'rule': rule, 'input': repr(data), 'accepted': not want})


def run(chk):
    chk.trusted += ['pyvc.lang (automata equivalence) and contracts/grammar_extract.py',
                    'contracts/abnf.py: the transcription of the RFCs’ ABNF',
                    'C06: parse() accepts exactly the language of the symbol']
    chk.assumptions += ['field values reach the parser without leading and trailing blanks (C04), so languages are compared on such strings',
                        'semantic actions do not reject (they are not allowed to raise ParseError); checked on the replayed strings only']
    chk.part('prove', prove, chk)
    chk.part('bounded', bounded, chk)
