"""Proof obligations of C13-C15."""
import sys
import time

import z3

from contracts import rules_model, rules_spec
from pyvc.engine import And, Or, as_z3, Unsupported, MergeAbort, PyRaise
from pyvc.terms import SBool

from httpolice import request, response, message, exchange


def guards(paths):
    """-> {(subject, id): z3 Bool} : the condition under which it is reported."""
    out = {}
    for p in paths:
        for (g, payload) in p.effects:
            if payload[0] == 'complain':
                out.setdefault((payload[1], payload[2]), []).append(And([p.cond, g]))
    return {k: Or(v) for k, v in out.items()}


def spec_term(eng, f, args):
    paths = eng.explore(lambda: SBool(as_z3(eng.truth(eng.call(f, args, {})))))
    if any(p.kind != 'ok' for p in paths):
        raise Unsupported('specification raises')
    return Or([And([p.cond, p.value.t]) for p in paths])


class Obligation:
    def __init__(self, name, goal, facts):
        self.name, self.goal, self.facts = name, goal, facts
        self.status, self.seconds, self.detail, self.model = None, 0.0, '', None


def scenario(which):
    """which: 'request' | 'response' | 'response-req' | 'context' -> (eng, paths, guards, table, subject args)"""
    eng = rules_model.make_engine()
    if which == 'request':
        req = rules_model.sym_message(eng, request.Request, 'req')
        paths = eng.explore(lambda: eng.call(request.check_request, [req], {}))
        return eng, paths, {('req', n): (f, [req]) for n, f in rules_spec.request_table().items()}
    resp = rules_model.sym_message(eng, response.Response, 'resp')
    if which == 'response':
        paths = eng.explore(lambda: eng.call(response.check_response, [resp], {}))
        return eng, paths, {('resp', n): (f, [resp]) for n, f in rules_spec.response_table().items()}
    req = rules_model.sym_message(eng, request.Request, 'req')
    resp.attrs['request'] = req
    if which == 'response-req':
        paths = eng.explore(lambda: eng.call(response.check_response_itself, [resp], {}))
        return eng, paths, {('resp', n): (f, [resp]) for n, f in rules_spec.response_table().items()}
    paths = eng.explore(lambda: eng.call(response.check_response_in_context, [resp, req], {}))
    t = {('resp', n): (f, [req, resp]) for n, f in rules_spec.CTX.items()}
    t.update({('req', n): (f, [req, resp]) for n, f in rules_spec.CTX_REQ.items()})
    return eng, paths, t


if __name__ == '__main__':
    t0 = time.time()
    eng, paths, table = scenario(sys.argv[1])
    print('explored', len(paths), 'paths', eng.n_checks, 'checks', '%.1f s' % (time.time() - t0))
    for p in paths:
        if p.kind != 'ok':
            print('  PATH', p.kind, p.value, str(p.cond)[:300])
    print('\n'.join(eng.notes))
    g = guards(paths)
    ok = bad = 0
    for k in sorted(set(g) | set(table), key=str):
        code = g.get(k, z3.BoolVal(False))
        if k not in table:
            print('UNSPEC', k)
            continue
        f, args = table[k]
        try:
            spec = spec_term(eng, f, args)
        except Unsupported as e:
            print('SPEC UNSUPPORTED', k, e)
            bad += 1
            continue
        for lab, goal in (('=>', z3.Implies(code, spec)), ('<=', z3.Implies(spec, code))):
            s = z3.Solver()
            s.set('timeout', 10000)
            s.add(eng.facts)
            s.add(z3.Not(goal))
            t1 = time.time()
            r = s.check()
            if r == z3.unsat:
                ok += 1
            else:
                bad += 1
                print('FAIL', k, lab, r, '%.1f' % (time.time() - t1))
                if '-v' in sys.argv:
                    print('   code', z3.simplify(code))
                    print('   spec', z3.simplify(spec))
    print(ok, 'ok', bad, 'bad', '%.1f s' % (time.time() - t0))
    print(sorted(eng.assumed))
