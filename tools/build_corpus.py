"""Builds contracts/corpus_rules.json: exchanges that trigger each notice id (seeds of the bounded cross-check)."""
import json, sys, time, inspect, re, multiprocessing
from contracts import msggen, rules_oracle as o, rules_spec

def directed(f, seen=None, depth=0):
    """header names, statuses, methods mentioned by a spec function (transitively)"""
    names, ints, methods = [], [], []
    seen = seen if seen is not None else set()
    def code(c):
        for k in c.co_consts:
            if isinstance(k, int) and not isinstance(k, bool) and k >= 100: ints.append(k)
            elif isinstance(k, tuple):
                ints.extend(x for x in k if isinstance(x, int) and x >= 100); methods.extend(x for x in k if isinstance(x, str) and x.isupper())
            elif isinstance(k, str) and k.isupper(): methods.append(k)
            elif hasattr(k, 'co_consts'): code(k)
        for n in c.co_names:
            h = n.replace('_', '-')
            for H in msggen.HEADERS:
                if H.lower() == h: names.append(H)
            g = getattr(rules_spec, n, None)
            if inspect.isfunction(g) and g.__module__ == rules_spec.__name__ and g not in seen:
                seen.add(g); code(g.__code__)
    code(f.__code__)
    return sorted(set(names)), sorted(set(ints)), sorted(set(m for m in methods if m in msggen.METHODS))

def work(job):
    subj, n, tab, seed = job
    f = getattr(o, tab)[n]
    names, ints, methods = directed(f)
    g = msggen.Gen(seed, names, [i for i in ints if i < 600] * 3, methods * 3)
    found = []
    t = time.time()
    while time.time() - t < 60 and len(found) < 4:
        ks = [x for x in names if g.rng.random() < 0.5]
        d = g.exchange('req' if subj == 'req' and n not in rules_spec.CTX_REQ else 'both' if n in rules_spec.CTX or g.rng.random() < .5 else 'resp',
                       [x for x in ks if g.rng.random() < .6], [x for x in ks if g.rng.random() < .6])
        if (subj, n) in o.triggered(d):
            # shrink
            import copy
            for which in ('request', 0):
                m = d['request'] if which == 'request' else (d['responses'][0] if d['responses'] else None)
                if not m: continue
                i = 0
                while i < len(m['headers']):
                    d2 = copy.deepcopy(d)
                    m2 = d2['request'] if which == 'request' else d2['responses'][0]
                    del m2['headers'][i]
                    if (subj, n) in o.triggered(d2):
                        d, m = d2, m2
                    else: i += 1
            if d not in found: found.append(d)
    return subj, n, found

if __name__ == '__main__':
    jobs = [('req', n, 'TABLE_REQ', n) for n in o.TABLE_REQ] + [('req', n, 'CTX_REQ', n) for n in o.CTX_REQ]
    jobs += [('resp', n, 'TABLE_RESP', n) for n in o.TABLE_RESP] + [('resp', n, 'CTX', n + 7) for n in o.CTX]
    out = []
    with multiprocessing.Pool(8) as p:
        for subj, n, found in p.imap_unordered(work, jobs):
            if not found: print('none for', subj, n)
            for d in found: out.append([subj, n, d])
    out.sort(key=lambda x: (x[0], x[1], json.dumps(x[2])))
    with open('/verif/contracts/corpus_rules.json', 'w') as f:
        json.dump(out, f, separators=(',', ':'))
    print(len(out))
