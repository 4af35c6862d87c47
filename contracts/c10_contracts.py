"""C10: contracts of reporting and silencing."""
from contracts import ghost
from contracts.ghost import GhostSet, union, member
from contracts.relcheck import contract, engine
from pyvc.relational import Splat
from pyvc.engine import Bound, NTuple
from pyvc.terms import SV, SObj, const, fn, V

from httpolice import blackboard, exchange, message, request, response
from httpolice.blackboard import Blackboard, Complaint
from httpolice.exchange import Exchange
from httpolice.notice import all_notices

P = 'C10'


# ---- specifications (executable)

def spec_complain(board, notice_id, context):
    """Append the complaint unless an identical one is there; change nothing else."""
    who = dict(context)
    if board.self_name not in who:
        who[board.self_name] = board
    c = Complaint(the_notice(notice_id), who)
    if c not in board._complaints:
        board._complaints = board._complaints + [c]


def the_notice(notice_id):
    return all_notices[notice_id]


def spec_visible(board):
    """Exactly the complaints whose notice is not silenced, in order."""
    out = []
    for c in board._complaints:
        if not member(c.notice.id, board._silenced.t):
            out.append(c)
    return out


def spec_children(exch):
    out = []
    if exch.request is not None:
        out = [exch.request]
    return out + exch.responses


def spec_silence(board, ids, children):
    """The ids become silenced on this object and on every child; no other object is involved."""
    board._silenced = GhostSet(union(board._silenced.t, ids))
    for child in children:
        child.silence(ids)


def spec_init(exch, req, resps):
    exch._complaints = []
    exch._silenced = set()
    exch.memoized = {}
    for r in resps:
        r.request = req
    exch.request = req
    exch.responses = resps


def listed_request(req):
    return [i for (i, in_resp) in req.headers.httpolice_silence if not in_resp]


def listed_response(resp):
    return [i for (i, _) in resp.headers.httpolice_silence]


def listed_context(req):
    return [i for (i, in_resp) in req.headers.httpolice_silence if in_resp]


# ---- symbolic inputs

def complaint_elem(eng, t):
    return NTuple(Complaint, (SV(fn('c_notice', [V], V)(t)), SV(fn('c_context', [V], V)(t))))


COMPLAINT = {'make': complaint_elem}


def board(eng, cls, ident, with_state=True):
    o = SObj(cls, {}, ident=ident)
    if with_state:
        o.attrs['_complaints'] = [Splat(const('complaints_' + ident), COMPLAINT)]
        o.attrs['_silenced'] = SObj(GhostSet, {'t': SV(const('silenced_' + ident))}, ident='silencedset_' + ident,
                                    meta={'constructed': True})
        o.attrs['memoized'] = SV(const('memoized_' + ident))
    return o


def prepare():
    eng = engine()
    ghost.install(eng)
    eng.opaque_maps[id(all_notices)] = 'notice_with_id'
    return eng


CLASSES = [Blackboard, request.Request, response.Response, Exchange]


def state(o):
    return (o, dict((k, v) for k, v in o.attrs.items() if isinstance(k, str)))


def make_complain(cls):
    @contract(P, 'Blackboard.complain on %s' % cls.__name__, ['httpolice.blackboard.Blackboard.complain'])
    def case():
        eng = prepare()
        nid, val = SV(const('notice_id')), SV(const('context_value'))

        def code():
            b = board(eng, cls, 'board')
            r = eng.call(eng.getattr(b, 'complain'), [nid], {'entry': val})
            return r, state(b)

        def spec():
            b = board(eng, cls, 'board')
            r = eng.call_function(spec_complain, [b, nid, {'entry': val}], {})
            return None, state(b)
        return eng, code, spec


def make_visible(cls, attr):
    @contract(P, '%s.%s' % (cls.__name__, attr), ['httpolice.blackboard.Blackboard.complaints'])
    def case():
        eng = prepare()

        def code():
            b = board(eng, cls, 'board')
            return eng.getattr(b, attr), state(b)

        def spec():
            b = board(eng, cls, 'board')
            return eng.call_function(spec_visible, [b], {}), state(b)
        return eng, code, spec


def silence_effect(e, args, kw):
    e.effect('silence', args[0], ghost.as_value(e, args[1]))
    return None


def resp_elem(eng, t):
    o = SObj(response.Response, {}, ident='response_%s' % t)
    o.meta = {'external': True, 'v': t}
    return o


def exch_obj(eng, has_req):
    b = board(eng, Exchange, 'exch')
    b.attrs['request'] = board(eng, request.Request, 'req') if has_req else None
    if has_req:
        b.attrs['request'].meta = {'external': True}
    b.attrs['responses'] = [Splat(const('responses'), {'make': resp_elem})]
    return b


def make_silence(cls, has_req=False, one_shot=False):
    name = 'Blackboard.silence on %s' % cls.__name__
    if cls is Exchange:
        name += ' with request' if has_req else ' without request'
    if one_shot:
        name += ', one-shot iterable'

    @contract(P, name, ['httpolice.blackboard.Blackboard.silence', 'httpolice.blackboard.Blackboard.children',
                        'httpolice.exchange.Exchange.children'])
    def case():
        eng = prepare()
        ids = SV(const('ids'))

        def given():
            if one_shot:
                return SObj(OneShot, {'t': SV(const('ids'))}, ident='oneshot')
            return ids

        def code():
            b = exch_obj(eng, has_req) if cls is Exchange else board(eng, cls, 'board')
            # a child is checked against the contract of silence, the object itself against the body
            eng.contracts[Blackboard.silence] = silence_effect
            eng.call_function(Blackboard.silence, [b, given()], {})
            return state(b)

        def spec():
            b = exch_obj(eng, has_req) if cls is Exchange else board(eng, cls, 'board')
            children = eng.call_function(spec_children, [b], {}) if cls is Exchange else []
            eng.call_function(spec_silence, [b, [Splat(const('ids'))], children], {})
            return state(b)
        return eng, code, spec


class OneShot:
    """An iterator: the elements at the first traversal, nothing afterwards."""

    def __iter__(self):
        r = self.t
        self.t = []
        return r


for _c in CLASSES:
    make_complain(_c)
    make_visible(_c, 'complaints')
    make_visible(_c, 'notices')
    for _os in (False, True):
        if _c is Exchange:
            make_silence(_c, True, _os)
            make_silence(_c, False, _os)
        else:
            make_silence(_c, one_shot=_os)


def make_init(has_req):
    @contract(P, 'Exchange.__init__ %s request' % ('with' if has_req else 'without'),
              ['httpolice.exchange.Exchange.__init__', 'httpolice.blackboard.Blackboard.__init__'])
    def case():
        eng = prepare()

        def run(f):
            e = SObj(Exchange, {}, ident='exch')
            req = board(eng, request.Request, 'req') if has_req else None
            if has_req:
                req.meta = {'external': True}
            resps = [Splat(const('responses'), {'make': resp_elem})]
            eng.call_function(f, [e, req, resps], {})
            return state(e)
        return eng, lambda: run(Exchange.__init__), lambda: run(spec_init)


make_init(True)
make_init(False)


def make_children(has_req):
    @contract(P, 'Exchange.children %s request' % ('with' if has_req else 'without'),
              ['httpolice.exchange.Exchange.children'])
    def case():
        eng = prepare()

        def code():
            e = exch_obj(eng, has_req)
            return eng.getattr(e, 'children'), state(e)

        def spec():
            e = exch_obj(eng, has_req)
            return eng.call_function(spec_children, [e], {}), state(e)
        return eng, code, spec


make_children(True)
make_children(False)
