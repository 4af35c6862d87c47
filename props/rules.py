"""C13, C14, C15: notices are reported exactly when their documented condition holds."""
import ast
import inspect
import itertools
import json
import os
import random
import time

from contracts import core, known_facts, msggen

CORPUS = os.path.join(core.ROOT, 'contracts', 'corpus_rules.json')
SCEN = {'C13': ['request'], 'C14': ['response', 'response-req'], 'C15': ['context', 'sequence', 'sequence-req']}
TRUSTED = ['pyvc: obligation generator for Python functions (own code)', 'z3 (back end of every symbolic obligation)',
           'contracts/rules_spec.py: the documented conditions, written from notices.xml and the RFCs',
           'contracts/known_facts.json: registry facts frozen from the reviewed tree']
ASSUME = [
    'contract of parse.parse (C05, C06), of header views (C07) and directive look-up (C08), of payload properties (C12) '
    'and of Blackboard.complain (C10) - each decided by that property\'s own check',
    'urlparse, urljoin, parse_qs, b64decode, timedelta, datetime.utcnow are pure functions that may raise only ValueError '
    '(URIs, base64) or OverflowError (time)',
    'the clock does not change while one message is checked',
    'values of parsed headers have the types their grammar produces',
]
TABLE_PROPS = {
    'is_bad_for_connection': ['C13', 'C14'], 'is_bad_for_trailer': ['C07', 'C13', 'C14'], 'is_for_request': ['C13', 'C14'],
    'is_for_response': ['C13', 'C14'], 'is_precondition': ['C13', 'C15'], 'is_proactive_conneg': ['C13', 'C15'],
    'is_representation_metadata': ['C13', 'C14', 'C15'], 'is_deprecated': ['C13', 'C14'],
    'defines_body': ['C13', 'C15'], 'is_safe': ['C13', 'C15'], 'is_cacheable': ['C14', 'C15'],
    'is_patch': ['C13', 'C14', 'C15'], 'is_json': ['C12', 'C13', 'C14'], 'is_xml': ['C12', 'C13', 'C14'], 'is_multipart': ['C12', 'C13', 'C14'],
    'is_library': ['C13'], 'rule_for': ['C07', 'C13', 'C14'], 'bad_quoted_delims': ['C08'], 'token_preferred': ['C08'],
    'quoted_string_preferred': ['C08'], 'argument_required': ['C08'], 'no_argument': ['C08'], 'syntax_for': ['C05', 'C07', 'C08'],
}
LISTED = ['method', 'status_code', 'cache_directive', 'media_type', 'auth_scheme', 'content_coding', 'range_unit',
          'transfer_coding', 'upgrade_token', 'warn_code', 'header', 'preference', 'product']


def tables(chk):
    """Exhaustive comparison of every registry look-up the rules use with the frozen facts."""
    diffs = known_facts.compare()
    mine = []
    for d in diffs:
        obj = d.split('[')[0].split(' ')[0]
        pred = d.split('].')[1].split(':')[0] if '].' in d else None
        if pred is None and ('unexpected key' in d or d.endswith(' names') or d.endswith('case_insensitive')):
            continue
        if pred is not None and chk.pid in TABLE_PROPS.get(pred, []):
            mine.append(d)
        elif pred is None and 'missing key' in d and obj in LISTED:
            mine.append(d)
        elif pred is None and d.endswith(' default'):
            mine.append(d)
    n = sum(len(t['rows']) for t in known_facts.facts().values())
    if mine:
        chk.obligation('tables: registry look-ups equal the protocol facts', 'refuted', 'exhaustive', 0, '; '.join(mine[:20]))
        chk.violation('tables:' + mine[0], 'registry fact changed: ' + mine[0], {'differences': mine}, True)
    else:
        chk.obligation('tables: %d registry rows x predicates equal the protocol facts' % n, 'discharged', 'exhaustive')


# ---------------------------------------------------------------------------------------------------
# helper functions with contracts of their own

def helper_obligations(chk):
    from httpolice import request
    from httpolice.util import data, text
    import contracts.rules_spec as spec
    rng = random.Random(chk.seed)

    def small(alphabet, n):
        for k in range(n + 1):
            yield from itertools.product(alphabet, repeat=k)

    def exhaustive(name, f, cases, ok, bound):
        n = 0
        if f is None:
            return
        for c in cases:
            n += 1
            try:
                r = f(*c)
            except Exception as e:
                r = e
            if isinstance(r, Exception) or not ok(c, r):
                chk.violation('helper:%s' % name, '%s(%r) gives %r' % (name, c, r), {'function': name, 'input': repr(c)})
                return
        chk.bound('helper ' + name, n, bound)

    def get(mod, n):
        return getattr(mod, n, None)
    f = get(data, 'duplicates')
    if f:
        exhaustive('duplicates', lambda xs: sorted(f(xs)), ([list(c)] for c in small('abc', 5)),
                   lambda c, r: r == sorted(x for x in set(c[0]) if c[0].count(x) > 1), 'all lists over 3 values up to length 5')
    f = get(data, 'iterbytes')
    if f:
        exhaustive('iterbytes', lambda b: list(f(b)), ((bytes(c),) for c in small([0, 10, 65, 255], 4)),
                   lambda c, r: b''.join(r) == c[0] and all(len(x) == 1 for x in r), 'all byte strings over 4 bytes up to length 4')
    f = get(text, 'is_ascii')
    if f:
        exhaustive('is_ascii', f, ((''.join(c),) for c in small(['a', '\x00', '\x7f', '\x80', '\xff', '\u0100'], 3)),
                   lambda c, r: bool(r) == spec.pure_ascii(c[0]), 'all strings over 6 characters up to length 3')
    f = get(text, 'contains_percent_encodes')
    if f:
        exhaustive('contains_percent_encodes', f, ((''.join(c),) for c in small(['%', 'a', 'F', '9', 'g', '0'], 5)),
                   lambda c, r: bool(r) == spec.percent_encoded(c[0]), 'all strings over 6 characters up to length 5')
    from httpolice.syntax import common
    ctl = getattr(common, 'CTL', None)
    if ctl is not None:
        exhaustive('CTL.match', ctl.match, ((bytes([b]),) for b in range(256)),
                   lambda c, r: bool(r) == (c[0][0] < 32 or c[0][0] == 127), 'every octet')


# ---------------------------------------------------------------------------------------------------
# proof

def owner(scenario, keys):
    """property of an obligation"""
    if scenario == 'request':
        return {'C13'}
    if scenario in ('response', 'response-req'):
        return {'C14'}
    return {'C15'}


def proof(chk):
    from contracts import rules_proof
    results = rules_proof.prove(SCEN[chk.pid], 300 if chk.thorough else 120)
    refuted = []
    for r in results:
        if r['error']:
            chk.undecided.append('%s: %s' % (r['scenario'], r['error']))
            refuted.append({'name': r['scenario'], 'keys': [], 'hints': {}, 'status': 'undecided', 'detail': r['error']})
            continue
        for o in r['obligations']:
            chk.obligation(o['name'], o['status'], 'z3', o['seconds'], o['detail'])
            if o['status'] != 'discharged':
                refuted.append(o)
        chk.assumptions += ['pyvc assumed: ' + a for a in r['assumed']]
        if r.get('vacuous'):
            chk.assumptions.append('never decided both ways in scenario %s: %s' % (r['scenario'], ', '.join(r['vacuous'])))
    return refuted


# ---------------------------------------------------------------------------------------------------
# bounded cross-check on concrete exchanges; directed when an obligation failed

def source_literals():
    """String and int literals of the rule modules (ingredients for directed search)."""
    from httpolice import exchange, message, request, response
    strs, ints = set(), set()
    for mod in (request, response, message, exchange):
        for n in ast.walk(ast.parse(inspect.getsource(mod))):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, int) and not isinstance(n.value, bool):
                    ints.add(n.value)
                elif isinstance(n.value, (str, bytes)) and len(n.value) < 60:
                    v = n.value if isinstance(n.value, str) else n.value.decode('latin1')
                    strs.add(v)
    return strs, ints


KIND = {'C13': 'req', 'C14': 'resp', 'C15': 'both'}


def mine(pid, d, diffs):
    out = []
    for x in diffs:
        if x[0] == 'CRASH':
            # a crash is charged to the property whose check raised it
            out.append(x)
        elif pid in x[0].split('/'):
            out.append(x)
    return out


def restrict(pid, d):
    if pid == 'C13':
        return dict(d, responses=[])
    return d


def crosscheck_job(job):
    pid, seed, cases, n, directed, deadline = job
    from contracts import rules_oracle as oracle
    rng = random.Random(seed)
    g = msggen.Gen(seed, directed.get('headers', ()), directed.get('statuses', ()), directed.get('methods', ()))
    focus = directed.get('keys')
    out, count = [], 0
    pool = list(cases)
    i = 0
    while True:
        if i < len(pool):
            d = pool[i]
        elif i >= n or time.time() > deadline:
            break
        elif rng.random() < 0.5 and pool:
            d = g.mutate(rng.choice(pool))
            if rng.random() < 0.5:
                d = g.mutate(d)
            if rng.random() < 0.3:
                d = g.mutate(g.mutate(d))
        else:
            kind = KIND[pid] if rng.random() < 0.9 or pid == 'C13' else 'any'
            names = directed.get('headers') or ()
            pick = lambda: [x for x in names if rng.random() < 0.35] if names else ()
            d = g.exchange(kind, pick(), pick())
            if pid == 'C15' and rng.random() < 0.25:
                d['responses'] += [g.response() for _ in range(rng.choice([1, 1, 2, 3]))]
                for r in d['responses']:
                    r['status'] = rng.choice([100, 100, 101, 102, 103, 200, 204, 404, 199, 99, 600])
                if d['request'] and rng.random() < 0.6:
                    d['request']['headers'].append(['Expect', '100-continue'])
        i += 1
        d = restrict(pid, d)
        count += 1
        diffs = mine(pid, d, oracle.compare(d))
        if diffs:
            out.append((d, diffs))
            if len(out) >= 3:
                break
    return count, out


def shrink(pid, d, diff):
    from contracts import rules_oracle as oracle
    import copy

    def bad(x):
        return any(y[1:] == diff[1:] and y[0] == diff[0] for y in oracle.compare(x))
    changed = True
    while changed:
        changed = False
        for m in ([d['request']] if d['request'] else []) + d['responses']:
            for i in range(len(m['headers'])):
                d2 = copy.deepcopy(d)
                ms = ([d2['request']] if d2['request'] else []) + d2['responses']
                j = (([d['request']] if d['request'] else []) + d['responses']).index(m)
                del ms[j]['headers'][i]
                if bad(d2):
                    d, changed = d2, True
                    break
            if changed:
                break
    return d


def crosscheck(chk, refuted):
    with open(CORPUS) as f:
        corpus = [c[2] for c in json.load(f)]
    if chk.pid == 'C13':
        corpus = [d for d in corpus if d['request']] + listings()
    elif chk.pid == 'C14':
        corpus = [d for d in corpus if d['responses']]
    else:
        corpus = [d for d in corpus if d['responses'] and d['request']] + sequences()
    directed = {}
    strs, ints = source_literals()
    directed['statuses'] = [i for i in ints if 100 <= i <= 599]
    secs = 60 if chk.thorough else 20
    per = 60000 if chk.thorough else 4000
    if refuted:
        secs, per = 90, 10 ** 7
        hs = set()
        names = {n.lower().replace('-', '_'): n for n in msggen.HEADERS}
        for o in refuted:
            h = o['hints']
            for p in h.get('present', ()):
                key = p.split('_', 1)[1].replace('-', '_')
                if key in names:
                    hs.add(names[key])
            if 'status' in h and 0 <= h['status'] <= 999:
                directed['statuses'] += [h['status']] * 3
            if 'method' in h:
                directed.setdefault('methods', []).append(h['method'])
            directed.setdefault('keys', []).extend(o['keys'])
        # header names the code of the failed notice's condition mentions
        for o in refuted:
            for n, H in names.items():
                if ('value_req_' + n.replace('_', '-')) in o['detail'] or ('value_resp_' + n.replace('_', '-')) in o['detail'] \
                        or ('entries_req_' + n.replace('_', '-')) in o['detail'] or ('entries_resp_' + n.replace('_', '-')) in o['detail']:
                    hs.add(H)
        directed['headers'] = sorted(hs)[:12]
        directed['statuses'] = directed['statuses'][-40:]
    deadline = time.time() + secs
    k = 8
    jobs = [(chk.pid, chk.seed * 1000 + i, corpus[i::k], per, directed if i % 2 or not refuted else {}, deadline) for i in range(k)]
    total, found = 0, []
    for n, out in core.parallel(crosscheck_job, jobs, timeout=secs + 120):
        total += n
        found += out
    chk.bound('concrete exchanges: every notice id compared with the specification', total,
              'corpus of %d exchanges triggering every id + random and mutated ones' % len(corpus))
    for d in corpus[:3]:
        chk.sample(d)
    seen = set()
    for d, diffs in found:
        for x in diffs:
            key = 'rule:%s:%s:%s' % (x[1], x[2], 'missing' if x[3] else 'spurious') if x[0] != 'CRASH' else 'crash:' + str(x[2])[:80]
            if key in seen:
                continue
            seen.add(key)
            if len(seen) < 4:
                d = shrink(chk.pid, d, x)
            what = ('crash: %s' % x[2]) if x[0] == 'CRASH' else 'notice %s on the %s: expected %s, observed %s' % (
                x[2], x[1], x[3], x[4])
            chk.violation(key, what, {'exchange': d, 'difference': list(x),
                                      'how': 'contracts.rules_oracle.compare(exchange)'})


def listings():
    """Exhaustive small domains of the helpers the proof treats as functions with a specification."""
    out = []

    def req(headers):
        out.append({'request': {'scheme': 'http', 'method': 'GET', 'target': '/', 'version': 'HTTP/1.1',
                                'headers': [['Host', 'example.com']] + headers, 'body': '', 'trailers': None}, 'responses': []})
    items = ['*/*', 'text/*', 'text/html', 'text/html;level=1', 'text/html;q=0.5', '*/*;q=0.1', 'text/*;q=0', 'image/png', 'TEXT/html',
             'text/html;level=2;q=0.3', 'TEXT/*', 't/*', 'a+b/*', '*/*;q=0.5', 'text/*;q=0.5', 'text+b/c', '[t]/*', '*/*;q=1', 'text/html;q=1.0', 'text/*;q=1', 'text/html;q=0.50', 'a/b;x=*']
    for a, b in itertools.permutations(items, 2):
        req([['Accept', a + ', ' + b]])
    for h, vals in (('Accept-Charset', ['*', 'utf-8', 'UTF-8', '*;q=0.5', 'utf-8;q=0.5', 'a*', '*;q=1', 'utf-8;q=1.000']),
                    ('Accept-Encoding', ['*', 'gzip', 'identity', '*;q=0', 'gzip;q=0', 'br;q=1']),
                    ('Accept-Language', ['*', 'en', 'en-US', '*;q=0.5', 'en;q=0.5', 'fr;q=1', '*;q=1.0'])):
        for n in (2, 3):
            for v in itertools.permutations(vals, n):
                req([[h, ', '.join(v)]])
    up = [['Connection', 'upgrade, http2-settings'], ['Upgrade', 'h2c']]
    for i in range(33, 127):
        for v in (chr(i), 'AA' + chr(i) + 'A'):
            req(up + [['HTTP2-Settings', v]])
    return out


def sequences():
    """All short histories of response statuses (with and without an Expect: 100-continue)."""
    out = []
    for expect in ('100-continue', None):
        for n in (1, 2, 3):
            for st in itertools.product([100, 101, 103, 200, 404], repeat=n):
                out.append({'request': {'scheme': 'http', 'method': 'POST', 'target': '/', 'version': 'HTTP/1.1',
                                        'headers': [['Host', 'example.com']] + ([['Expect', expect]] if expect else []),
                                        'body': '', 'trailers': None},
                            'responses': [{'version': 'HTTP/1.1', 'status': s, 'reason': '', 'headers': [], 'body': '',
                                           'trailers': None} for s in st]})
    return out


def actions(chk):
    """The semantic actions of the grammar: what they make of a value and the notices they report."""
    from contracts import actions_contracts, relcheck
    relcheck.run(chk, actions_contracts.names())


def helper_contracts(chk):
    from contracts import actions_contracts, relcheck
    relcheck.run(chk, actions_contracts.names('helper '))


def values(chk):
    """Header values written from known parts: the notices of the value itself, and the value the rules see."""
    from contracts import valuegen
    n = 6000 if chk.thorough else 900
    for cnt, bad in core.parallel(valuegen.job, [(chk.seed * 163 + i, n, chk.pid == 'C13') for i in range(8)], timeout=600):
        chk.bound('header values built from known parts: notices of the value and the parsed value', cnt, 'at most 3 elements each, every header with a grammar')
        if bad:
            name, data, want, notes, what = bad
            chk.violation('value:%s:%s' % (name, what[:60]), '%s: %r: %s' % (name, data, what),
                          {'header': name, 'value': repr(data), 'expected value': repr(want), 'expected notices of the value': notes, 'observed': what})


def run(chk):
    chk.trusted += TRUSTED
    chk.assumptions += ASSUME
    chk.functions += {'C13': ['request.check_request', 'message.check_message', 'Request derived properties', 'Message derived properties'],
                      'C14': ['response.check_response', 'response.check_response_itself', 'message.check_message',
                              'Response derived properties'],
                      'C15': ['response.check_response_in_context', 'response.check_responses', 'response.check_response',
                              'exchange.check_exchange']}[chk.pid]
    chk.part('tables', tables, chk)
    chk.part('helpers', helper_obligations, chk)
    if chk.pid == 'C13':
        chk.part('helper contracts', helper_contracts, chk)
    if chk.pid in ('C13', 'C14'):
        chk.part('values', values, chk)
        chk.part('actions', actions, chk)
    refuted = chk.part('proof', proof, chk)
    if refuted is None:
        refuted = [{'name': 'proof', 'keys': [], 'hints': {}, 'status': 'undecided', 'detail': ''}]
    chk.part('crosscheck', crosscheck, chk, refuted)
