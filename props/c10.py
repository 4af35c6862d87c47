"""C10: reporting and silencing."""
import copy
import json
import os
import random
import time

import z3

from contracts import core, msggen, relcheck
from contracts import c10_contracts     # noqa: registers the contracts


# ---- what the checks silence, from their headers (obligations over the symbolic scenarios of C13-C15)

def scenario_job(which):
    import sys
    sys.setrecursionlimit(20000)
    from contracts import rules_check, rules_model
    from httpolice import request, response
    from pyvc.engine import And, Or
    t0 = time.time()
    name = 'silencing by HTTPolice-Silence in %s' % {
        'request': 'check_request', 'response': 'check_response', 'context': 'check_response_in_context'}[which]
    try:
        eng, paths, _ = rules_check.scenario(which)
        spec = {'request': c10_contracts.listed_request, 'response': c10_contracts.listed_response, 'context': c10_contracts.listed_context}[which]
        subject = 'req' if which == 'request' else 'resp'
        # the specification runs on the same symbolic message
        arg = None
        for (_, args) in list(_.values())[:1]:
            arg = args[0]
        sp = eng.explore(lambda: eng.call(spec, [arg], {}))
        terms = [(p.cond, eng.to_v(p.value)) for p in sp]
    except Exception as e:
        return [(name, 'undecided', time.time() - t0, repr(e))]
    out = []
    for label, status, detail in obligations(eng, paths, terms, subject):
        out.append(('%s: %s' % (name, label), status, (time.time() - t0), detail))
    return out


def obligations(eng, paths, terms, subject):
    from pyvc.engine import And, Or
    other, wrong, missing = [], [], []
    for p in paths:
        hit = []
        for g, pl in p.effects:
            if pl[0] != 'silence':
                continue
            c = And([p.cond, g])
            if pl[1] != subject:
                other.append(c)
                continue
            for sc, st in terms:
                wrong.append(And([c, sc, pl[2] != st]))
            hit.append(g)
        missing.append(And([p.cond, z3.Not(Or(hit))]))

    def valid(bad):
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(eng.facts)
        s.add(Or(bad) if bad else z3.BoolVal(False))
        return s.check() == z3.unsat
    for label, bad in (('no other object is silenced', other), ('exactly the ids listed for it are silenced', wrong),
                       ('they are silenced on every path', missing)):
        yield label, ('discharged' if valid(bad) else 'undecided'), '' if valid(bad) else str(bad)[:1500]


# ---- bounded: histories of reporting and silencing on real objects, against a model

class Model:
    def __init__(self):
        self.log, self.hidden = {}, {}

    def complain(self, o, nid, ctx):
        l = self.log.setdefault(o, [])
        if (nid, ctx) not in l:
            l.append((nid, ctx))

    def silence(self, objs, ids):
        for o in objs:
            self.hidden.setdefault(o, set()).update(ids)

    def visible(self, o):
        return [x for x in self.log.get(o, []) if x[0] not in self.hidden.get(o, set())]


def histories(job):
    seed, n = job
    from httpolice import request, response
    from httpolice.exchange import Exchange, complaint_box
    from httpolice.notice import all_notices
    ids = sorted(all_notices)
    rng = random.Random(seed)
    count = 0
    for _ in range(n):
        count += 1
        core.tick()
        has_req = rng.random() < 0.7
        nresp = rng.choice([0, 1, 1, 2, 3])
        req = request.Request(u'http', u'GET', u'/', u'HTTP/1.1', [], b'') if has_req else None
        resps = [response.Response(u'HTTP/1.1', 200, u'OK', [], b'') for _ in range(nresp)]
        pre = rng.random() < 0.2
        m = Model()
        steps = []
        pool = [rng.choice(ids) for _ in range(rng.choice([2, 3, 5]))]
        objs = [('req', req)] * has_req + [('resp%d' % i, r) for i, r in enumerate(resps)]
        stranger = request.Request(u'http', u'GET', u'/', u'HTTP/1.1', [], b'')
        exch = Exchange(req, resps)
        every = objs + [('exch', exch), ('stranger', stranger)]
        kids = {'exch': ['exch'] + [n for n, _ in objs]}
        long = rng.random() < 0.03
        for _ in range(rng.randrange(60, 160) if long else rng.randrange(1, 14)):
            nm, o = rng.choice(every[:1] * 9 + every) if long else rng.choice(every)
            if rng.random() < (0.97 if long else 0.6):
                nid = rng.choice(pool)
                ctx = rng.choice([(), (('entry', 1),), (('entry', 2),), (('x', 1), ('entry', 1)), (('entry', [1]),)])
                if long:
                    ctx = (('entry', rng.randrange(50)),)
                steps.append(('complain', nm, nid, repr(ctx)))
                if rng.random() < 0.5:
                    o.complain(nid, **{k: copy.deepcopy(v) for k, v in ctx})
                else:
                    o.complain(nid, **{k: copy.deepcopy(v) for k, v in reversed(ctx)})
                m.complain(nm, nid, repr(sorted(ctx)))
            else:
                some = [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
                form = rng.choice(['list', 'set', 'gen', 'tuple'])
                given = {'list': list, 'set': set, 'gen': iter, 'tuple': tuple}[form](some)
                steps.append(('silence', nm, some, form))
                o.silence(given)
                m.silence(kids.get(nm, [nm]), some)
            if not long or rng.random() < 0.1:
                for nm2, o2 in every:
                    want = m.visible(nm2)
                    for attr in ('notices', 'complaints'):
                        got = getattr(o2, attr)
                        seen = [(c.id, repr(sorted((k, v) for k, v in c.context.items() if k != o2.self_name))) for c in got]
                        if seen != want or any(c.context.get(o2.self_name) is not o2 for c in got) or \
                                any(c.severity is not all_notices[c.id].severity or c.notice is not all_notices[c.id]
                                    for c in got):
                            return count, {'steps': steps, 'object': nm2, 'attribute': attr, 'expected': want, 'observed': seen}
    return count, None


# ---- bounded: silencing a whole analysis only hides

def visible(exch):
    from httpolice.exchange import check_exchange
    check_exchange(exch)
    out = []
    for o in ([exch.request] if exch.request else []) + list(exch.responses) + [exch]:
        out.append([(c.id, sorted(k for k in c.context)) for c in o.notices])
    return out


def endtoend(job):
    seed, cases, n = job
    from httpolice.notice import all_notices
    rng = random.Random(seed)
    g = msggen.Gen(seed)
    count = 0
    for i in range(n):
        d = rng.choice(cases)
        if rng.random() < 0.6:
            d = g.mutate(d)
        try:
            base = visible(msggen.build(d))
        except Exception:
            continue
        count += 1
        core.tick()
        allids = sorted({x[0] for l in base for x in l}) or [1000]
        ids = [rng.choice(allids) for _ in range(rng.choice([1, 1, 2, 3]))]
        nmsg = len(base) - 1
        hidden = [set() for _ in base]
        how = rng.choice(['exch', 'msg', 'after', 'header'])
        d2 = copy.deepcopy(d)
        if how == 'header':
            extra = {'request': [], 'responses': []}
            if d['request'] and rng.random() < 0.6:
                parts = []
                for x in ids:
                    r = rng.random() < 0.5
                    parts.append('%d%s' % (x, ' resp' if r else ''))
                    if r:
                        for k in range(1, nmsg):
                            hidden[k].add(x)
                    else:
                        hidden[0].add(x)
                d2['request']['headers'].append(['HTTPolice-Silence', ', '.join(parts)])
            elif d['responses']:
                k = rng.randrange(len(d['responses']))
                d2['responses'][k]['headers'].append(['HTTPolice-Silence', ', '.join(map(str, ids))])
                hidden[k + (1 if d['request'] else 0)].update(ids)
            else:
                continue
            # the base run has a header of the same name that hides nothing
            b2 = copy.deepcopy(d2)
            for m in ([b2['request']] if b2['request'] else []) + b2['responses']:
                for h in m['headers']:
                    if h[0] == 'HTTPolice-Silence' and h not in sum([x['headers'] for x in (
                            ([d['request']] if d['request'] else []) + d['responses'])], []):
                        h[1] = '9999999'
            try:
                base = visible(msggen.build(b2))
            except Exception:
                continue
        exch = msggen.build(d2)
        objs = ([exch.request] if exch.request else []) + list(exch.responses) + [exch]
        if how == 'exch':
            exch.silence(iter(ids))
            for h in hidden:
                h.update(ids)
        elif how == 'msg':
            k = rng.randrange(len(objs) - 1) if len(objs) > 1 else 0
            objs[k].silence(ids)
            hidden[k].update(ids)
        got = visible(exch)
        if how == 'after':
            exch.silence(ids)
            for h in hidden:
                h.update(ids)
            got = [[(c.id, sorted(k for k in c.context)) for c in o.notices] for o in objs]
        want = [[x for x in l if x[0] not in h] for l, h in zip(base, hidden)]
        if got != want:
            return count, {'exchange': d2, 'silenced': ids, 'how': how, 'expected': want, 'observed': got}
    return count, None


def run(chk):
    chk.trusted = ['pyvc (engine and relational verifier, own code)', 'z3', 'contracts/c10_contracts.py (executable specifications)']
    chk.assumptions += ['sets are modelled by union and membership, lists by opaque sublists; the dict all_notices is a function of the id',
                        'check_* scenarios: header views per C07']
    for which, part in (('contracts', contracts), ('header', header_part), ('histories', bounded)):
        chk.part(which, part, chk)


def contracts(chk):
    relcheck.run(chk, relcheck.names_of('C10'))


def header_part(chk):
    for out in core.parallel(scenario_job, ['request', 'response', 'context'], timeout=300):
        for n, s, t, d in out:
            chk.obligation(n, s, 'pyvc / z3', t, d)
    chk.functions += ['httpolice.request.check_request', 'httpolice.response.check_response_itself',
                      'httpolice.response.check_response_in_context']


def bounded(chk):
    n = 60000 if chk.thorough else 4000
    jobs = [(chk.seed * 97 + i, n // 8) for i in range(8)]
    for cnt, bad in core.parallel(histories, jobs, timeout=800):
        chk.bound('histories of reporting and silencing, compared with a model after every step', cnt, 'random, up to 13 steps, some up to 160')
        if bad:
            chk.violation('history', 'notices shown differ from those reported and not silenced: %s' % bad['object'], bad)
    with open(os.path.join(core.ROOT, 'contracts', 'corpus_rules.json')) as f:
        corpus = [c[2] for c in json.load(f)]
    n = 40000 if chk.thorough else 4000
    jobs = [(chk.seed * 31 + i, corpus, n // 8) for i in range(8)]
    for cnt, bad in core.parallel(endtoend, jobs, timeout=800):
        chk.bound('whole exchanges with and without silencing', cnt, 'corpus and mutations')
        if bad:
            chk.violation('endtoend', 'silencing %s via %s changes other notices or hides the wrong ones' % (bad['silenced'], bad['how']), bad)
