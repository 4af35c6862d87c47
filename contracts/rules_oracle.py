"""Concrete side of C13-C15: run the real checks on a message and compare the reported ids with the specification."""
import random
import warnings

from contracts import known_facts, msggen, rules_spec
from httpolice import exchange

warnings.simplefilter('ignore')

TABLE_REQ = {k: f for k, f in rules_spec.request_table().items() if isinstance(k, int)}
TABLE_RESP = {k: f for k, f in rules_spec.response_table().items() if isinstance(k, int)}
CTX = rules_spec.CTX
CTX_REQ = rules_spec.CTX_REQ


def holds(f, *args):
    try:
        return bool(f(*args))
    except Exception as e:
        return 'spec raised %r' % (e,)


def observed(d):
    exch = msggen.build(d)
    try:
        exchange.check_exchange(exch)
    except Exception as e:
        return None, None, 'crash: %s: %s' % (type(e).__name__, e)
    req = {c.id for c in exch.request.notices} if exch.request else set()
    resps = [{c.id for c in r.notices} for r in exch.responses]
    return req, resps, None


def expected(d):
    exch = msggen.build(d)
    req, out_req, out_resp = exch.request, {}, []
    if req is not None:
        out_req = {n: holds(f, req) for n, f in TABLE_REQ.items()}
    final = None
    interim_100 = False
    for r in exch.responses:
        o = {n: holds(f, r) for n, f in TABLE_RESP.items()}
        for n in list(CTX):
            o.setdefault(n, False)
        if req is not None:
            for n, f in CTX.items():
                v = holds(f, req, r)
                o[n] = v if isinstance(v, str) else (v or o[n])
            for n, f in CTX_REQ.items():
                out_req[n] = out_req.get(n) or holds(f, req, r)
        # only one final response; 101 in place of the awaited 100
        o[1304] = final is not None
        if r.status >= 200 and final is None or (r.status < 100 and final is None):
            final = r
        if r.status == 100:
            interim_100 = True
        o[1305] = bool(req is not None and req.headers.expect == u'100-continue' and not interim_100 and r.status == 101)
        out_resp.append(o)
    return out_req, out_resp


ONLY_CTX = {1304, 1305} | (set(CTX) - set(TABLE_RESP))


def compare(d):
    """-> list of (property, subject, id, expected, observed)"""
    oreq, oresp, crash = observed(d)
    if crash:
        return [('CRASH', 'exchange', crash, None, None)]
    ereq, eresp = expected(d)
    out = []
    for n, e in ereq.items():
        if isinstance(e, str):
            continue
        o = n in oreq
        if o != e:
            out.append(('C15' if n in CTX_REQ else 'C13', 'req', n, e, o))
    for i, er in enumerate(eresp):
        for n, e in er.items():
            if isinstance(e, str):
                continue
            o = n in oresp[i]
            if o != e:
                out.append(('C15' if n in ONLY_CTX or (n in CTX and d['request'] and n in (1041,)) else
                            'C14/C15' if n in CTX else 'C14', 'resp', n, e, o))
    return out


def triggered(d):
    oreq, oresp, crash = observed(d)
    if crash:
        return set()
    return {('req', n) for n in oreq} | {('resp', n) for r in oresp for n in r}


def add_more_responses(g, d):
    d['responses'] += [g.response() for _ in range(g.rng.choice([1, 1, 2]))]
    return d
