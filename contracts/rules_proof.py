"""The proof part of C13-C15: for every notice id and every message, reported <=> documented condition."""
import time

import z3

from contracts import rules_check, rules_model, rules_spec, sequence
from pyvc.engine import Unsupported, MergeAbort, PyRaise, walk

SKIP = {}       # one-sided obligations: see only_if()


def decls(t, out=None):
    out = set() if out is None else out
    for x in walk(t):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
            out.add(x.decl().name())
    return out


def consts_of(t):
    return {x.decl().name() for x in walk(t)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0}


def check(eng, goal, hyps=(), timeout=10000):
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(eng.facts)
    s.add(list(hyps))
    s.add(z3.Not(goal))
    t = time.time()
    r = s.check()
    m = s.model() if r == z3.sat else None
    if r == z3.unknown:
        s2 = z3.SolverFor('AUFLIA') if False else z3.Solver()
        s2.set('timeout', timeout)
        s2.set('smt.mbqi', False)
        s2.set('smt.random_seed', 7)
        s2.add(eng.facts)
        s2.add(list(hyps))
        s2.add(z3.Not(goal))
        r2 = s2.check()
        if r2 == z3.unsat:
            r = r2
    return r, m, time.time() - t


def hints_from_model(eng, m):
    """Concrete ingredients the counter-model suggests (status, method, header presence)."""
    out = {}
    if m is None:
        return out
    try:
        for d in m.decls():
            n = d.name()
            if n == 'status_resp':
                out['status'] = m[d].as_long()
        for d in m.decls():
            if d.name() == 'method_req':
                v = m[d]
                for e in m.decls():
                    if e.name().startswith('lit') and "Method(" in e.name() and m[e].eq(v):
                        out['method'] = e.name().split("'")[1]
        present = []
        none = None
        for d in m.decls():
            if d.name().startswith('lit') and d.name().endswith('_None'):
                none = m[d]
        for d in m.decls():
            n = d.name()
            if n.startswith('value_') and d.arity() == 0 and none is not None and not m[d].eq(none):
                present.append(n[len('value_'):])
        out['present'] = present
    except Exception:
        pass
    return out


# ids reported while a *derived property* of the other message is computed: they are decided where that property's
# own message is checked; here only "reported => condition" is required.
def only_if(which, key):
    subj, n = key
    if which in ('context', 'response-req'):
        if subj == 'req' and n in rules_spec.request_table():
            return ('req', rules_spec.request_table()[n])
        if which == 'context' and subj == 'resp' and n in rules_spec.response_table():
            return ('resp', rules_spec.response_table()[n])
    return None


IGNORED = {'access:displayable_body', 'access:url_encoded_data'}


def run_scenario(job):
    """job: (scenario, deadline seconds) -> dict with obligations; runs in its own process."""
    which, budget = job
    t0 = time.time()
    res = {'scenario': which, 'obligations': [], 'notes': [], 'assumed': [], 'error': None}
    add = lambda name, keys, status, sec=0.0, detail='', hints=None: res['obligations'].append(
        {'name': name, 'keys': keys, 'status': status, 'seconds': round(sec, 3), 'detail': detail, 'hints': hints or {}})
    try:
        if which.startswith('sequence'):
            return run_sequence(which, res, add)
        eng, paths, table = rules_check.scenario(which)
    except (Unsupported, MergeAbort, RecursionError) as e:
        res['error'] = 'outside the verified subset: %s' % e
        return res
    except Exception as e:
        res['error'] = 'machinery: %s: %s' % (type(e).__name__, e)
        return res
    res['notes'], res['assumed'] = list(eng.notes), sorted(eng.assumed)
    g = rules_check.guards(paths)
    specs, vocab = {}, set()
    req = resp = None
    for k, (f, args) in table.items():
        for a in args:
            if a.ident == 'req':
                req = a
            else:
                resp = a
    if req is None and resp is not None and resp.attrs['request'] is not None:
        req = resp.attrs['request']
    for k in sorted(set(table) | set(g), key=str):
        if k in table:
            f, args = table[k]
        else:
            o = only_if(which, k)
            if o is None:
                continue
            f, args = o[1], [req if o[0] == 'req' else resp]
        try:
            specs[k] = rules_check.spec_term(eng, f, args)
            decls(specs[k], vocab)
        except (Unsupported, MergeAbort, PyRaise) as e:
            res['notes'].append('spec %s unsupported: %s' % (k, e))
            specs[k] = None
    for f in eng.facts:
        decls(f, vocab)
    for p in paths:
        if p.kind != 'ok':
            r, m, sec = check(eng, z3.Not(p.cond))
            foreign = decls(p.cond) - vocab
            add('%s: no exception escapes (%r)' % (which, p.value), [('crash', 0)],
                'discharged' if r == z3.unsat else 'undecided' if foreign or r == z3.unknown else 'refuted', sec,
                'path condition satisfiable; raises %r' % (p.value,), hints_from_model(eng, m))
    if all(p.kind == 'ok' for p in paths):
        add('%s: no exception escapes' % which, [('crash', 0)], 'discharged')
    for k in sorted(set(g) | set(table), key=str):
        if isinstance(k[1], str) and k[1] in IGNORED:
            continue
        code = g.get(k, z3.BoolVal(False))
        name = '%s: %s %s' % (which, k[0], k[1])
        if k not in specs:
            add(name + ' is not specified for this object', [k],
                'discharged' if z3.is_false(z3.simplify(code)) else 'refuted', 0, 'unexpected notice')
            continue
        if specs[k] is None:
            add(name, [k], 'undecided', 0, 'specification outside the subset')
            continue
        goals = [('reported only if the documented condition holds', z3.Implies(code, specs[k]))]
        if k in table:
            goals.append(('reported whenever the documented condition holds', z3.Implies(specs[k], code)))
        for lab, goal in goals:
            if time.time() - t0 > budget:
                add('%s: %s' % (name, lab), [k], 'undecided', 0, 'time budget')
                continue
            r, m, sec = check(eng, goal)
            status, detail = 'discharged', ''
            hints = {}
            if r == z3.sat:
                foreign = decls(code) - vocab
                status = 'undecided' if foreign else 'refuted'
                hints = hints_from_model(eng, m)
                detail = 'z3: sat (counter-model %s)%s' % (
                    hints, ' but the code uses functions without a contract: %s' % sorted(foreign) if foreign else '')
                detail += '\ncode: %s' % str(z3.simplify(code))[:3000]
            elif r == z3.unknown:
                status, detail = 'undecided', 'z3: unknown'
            add('%s: %s' % (name, lab), [k], status, sec, detail, hints)
    # vacuity: the hypotheses are consistent with each condition and with its negation
    vac = []
    for k, t in specs.items():
        if t is None or time.time() - t0 > budget:
            continue
        for lab, x in (('holds', t), ('fails', z3.Not(t))):
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(eng.facts)
            s.add(x)
            if s.check() == z3.unsat:
                vac.append('%s %s never %s' % (k[0], k[1], lab))
    res['vacuous'] = vac
    res['wall'] = round(time.time() - t0, 2)
    return res


def run_sequence(which, res, add):
    eng, paths, spec = sequence.run(which == 'sequence-req')
    res['notes'], res['assumed'] = list(eng.notes), sorted(eng.assumed)
    g = rules_check.guards(paths)
    vocab = set()
    for t in list(spec.values()) + list(eng.facts) + eng.iteration_hyps:
        decls(t, vocab)
    for p in paths:
        if p.kind != 'ok':
            add('%s: no exception escapes' % which, [('crash', 0)], 'undecided', 0, repr(p.value))
    for k in sorted(set(g) | set(spec), key=str):
        code = g.get(k, z3.BoolVal(False))
        r, m, sec = check(eng, code == spec.get(k, z3.BoolVal(False)), eng.iteration_hyps)
        status, detail = 'discharged', ''
        if r != z3.unsat:
            # a weaker inferred invariant can refute a true fact: only a concrete history decides
            status, detail = 'undecided', 'not implied by the inferred loop invariants; code: %s' % z3.simplify(code)
        add('%s: for every i-th response: %s %s <=> its condition' % (which, k[0], k[1]), [k], status, sec, detail)
    res['vacuous'] = []
    return res


def crashes(which):
    """-> (scenario, [(name, status, seconds, detail)], error): only the obligations about exceptions"""
    out = []
    try:
        if which.startswith('sequence'):
            eng, paths, spec = sequence.run(which == 'sequence-req')
            table = {}
        else:
            eng, paths, table = rules_check.scenario(which)
    except (Unsupported, MergeAbort, RecursionError) as e:
        return which, [], 'outside the verified subset: %s' % e
    except Exception as e:
        return which, [], 'machinery: %s: %s' % (type(e).__name__, e)
    vocab = set()
    for f, args in table.values():
        try:
            decls(rules_check.spec_term(eng, f, args), vocab)
        except (Unsupported, MergeAbort, PyRaise):
            pass
    for f in eng.facts:
        decls(f, vocab)
    name = '%s: no exception escapes' % which
    for p in paths:
        if p.kind != 'ok':
            r, _, sec = check(eng, z3.Not(p.cond))
            sure = r == z3.sat and not which.startswith('sequence') and not decls(p.cond) - vocab
            out.append(('%s (%r)' % (name, p.value), 'discharged' if r == z3.unsat else 'refuted' if sure else 'undecided', sec,
                        'path condition satisfiable; raises %r' % (p.value,)))
    if all(p.kind == 'ok' for p in paths):
        out.append((name, 'discharged', 0.0, ''))
    return which, out, None


SCENARIOS = ['request', 'response', 'response-req', 'context', 'sequence', 'sequence-req']


def prove(scenarios, budget=200):
    from contracts import core
    return list(core.parallel(run_scenario, [(s, budget) for s in scenarios], timeout=600))


if __name__ == '__main__':
    import sys
    for r in prove(sys.argv[1:] or SCENARIOS):
        st = {}
        for o in r['obligations']:
            st[o['status']] = st.get(o['status'], 0) + 1
            if o['status'] != 'discharged':
                print('  ', o['name'], o['status'], o['detail'][:300], o['hints'])
        print(r['scenario'], st, r.get('wall'), r['error'], r.get('vacuous'))
