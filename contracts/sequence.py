"""Obligations about check_exchange / check_responses / check_response: dispatch to the checks and notices 1304, 1305."""
import z3

from contracts import rules_model
from contracts.rules_check import guards
from httpolice import exchange, request, response
from pyvc.engine import And, as_z3
from pyvc.ghostseq import GhostSeq
from pyvc.terms import SInt, SObj, const


def run(with_request):
    """-> (eng, paths, {(subject, what): spec term}, hypotheses)"""
    eng = rules_model.make_engine()
    eng.iteration_hyps = []
    C = eng.contracts

    def record(name):
        def h(e, args, kw):
            e.effect('complain', args[0].ident, ':'.join([name] + [getattr(a, 'ident', repr(a)) for a in args[1:]]))
            return None
        return h
    C[request.check_request] = record('check_request')
    C[response.check_response_itself] = record('check_response_itself')
    C[response.check_response_in_context] = record('check_response_in_context')
    resp = rules_model.sym_message(eng, response.Response, 'resp')
    req = rules_model.sym_message(eng, request.Request, 'req') if with_request else None
    resp.attrs['request'] = req
    status = z3.Int('status_resp')
    expect = z3.BoolVal(False)
    if req is not None:
        p = eng.explore(lambda: eng.eq(eng.getattr(req.attrs['headers'], 'expect'), u'100-continue'))
        expect = z3.Or([And([x.cond, as_z3(x.value)]) for x in p])
    final = lambda pre: z3.Or(pre['final'], z3.Not(z3.And(100 <= status, status < 200)))
    cont = lambda pre: z3.Or(pre['continued'], status == 100)
    seq = GhostSeq(resp, {'final': (False, final), 'continued': (False, cont)}, [expect])
    exch = SObj(exchange.Exchange, {'request': req, 'responses': seq}, ident='exch')
    paths = eng.explore(lambda: eng.call(exchange.check_exchange, [exch], {}))
    T, F = z3.BoolVal(True), z3.BoolVal(False)
    spec = {('resp', 1304): seq.pre['final'],
            ('resp', 1305): z3.And(expect, z3.Not(seq.pre['continued']), status == 101),
            ('resp', 'check_response_itself'): T}
    if req is not None:
        spec[('req', 'check_request')] = T
        spec[('resp', 'check_response_in_context:req')] = T
    return eng, paths, spec


if __name__ == '__main__':
    for w in (False, True):
        eng, paths, spec = run(w)
        print('\n'.join(eng.notes))
        g = guards(paths)
        for k in sorted(set(g) | set(spec), key=str):
            s = z3.Solver()
            s.add(eng.facts)
            s.add(eng.iteration_hyps)
            s.add(g.get(k, z3.BoolVal(False)) != spec.get(k, z3.BoolVal(False)))
            print(w, k, s.check())
