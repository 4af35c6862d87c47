"""C06: contracts of the parser.

parse() is proved against the contract of _inner_parse (a function of its three arguments, or a ParseError) and of the
dictionary that remembers results: what is found under a key was stored by an earlier call whose key was equal, and
every stored value is what _inner_parse gives for the arguments of the call that stores it."""
from collections import OrderedDict

import z3

from contracts.relcheck import calls, engine, rel
from pyvc.engine import PyRaise, as_z3
from pyvc.relational import REST, Splat
from pyvc.terms import SBool, SInt, SV, SObj, const, fn, LEN, V, I, B

from httpolice import parse as parse_module
from httpolice.parse import ParseError, Symbol, parse
from httpolice.structure import Unavailable

P = 'httpolice.parse.'
LIMIT = parse_module.MEMO_LIMIT if hasattr(parse_module, 'MEMO_LIMIT') else 500


class Memo:
    """The remembered results."""

    def pop(self, key, *default):
        raise NotImplementedError

    def get(self, key, default=None):
        raise NotImplementedError

    def popitem(self, last=True):
        raise NotImplementedError

    def move_to_end(self, key, last=True):
        raise NotImplementedError

    def __contains__(self, key):
        raise NotImplementedError

    def __getitem__(self, key):
        raise NotImplementedError

    def __setitem__(self, key, value):
        raise NotImplementedError

    def __delitem__(self, key):
        raise NotImplementedError

    def __len__(self):
        raise NotImplementedError


class Report:
    def __call__(self, notice_id, **context):
        raise NotImplementedError


def look(data, symbol, classes):
    raise NotImplementedError


def nonterminal(symbol):
    raise NotImplementedError


def spliced(data, annotations):
    raise NotImplementedError


# ---- the specification: nothing is remembered

def spec_parse(data, symbol, complain=None, fail_notice_id=None, annotate_classes=None, **extra_context):
    classes = tuple(annotate_classes or ())
    if not isinstance(data, bytes):
        try:
            data = data.encode('iso-8859-1')
        except UnicodeError as e:
            if fail_notice_id is None:
                raise
            complain(fail_notice_id, error=e, **extra_context)
            if classes:
                return Unavailable(data), None
            return Unavailable(data)
    try:
        (result, complaints, annotations) = look(data, nonterminal(symbol), classes)
    except ParseError as e:
        if fail_notice_id is None:
            raise
        if complain is not None:
            complain(fail_notice_id, error=e, **extra_context)
        if classes:
            return Unavailable(data), spliced(data, [])
        return Unavailable(data)
    if complain is not None:
        for (notice_id, context) in complaints:
            complain(notice_id, **dict(extra_context, **context))
    if classes:
        return result, spliced(data, annotations)
    return result


def complaint(e, t):
    return e.app('notice_of', [SV(t)]), {REST: fn('context_of', [V], V)(t)}


def outcome(e, t):
    """What _inner_parse returns for the arguments `t` (terms)."""
    return (SV(fn('inner_result', [V] * 3, V)(*t)), e.born([Splat(fn('inner_complaints', [V] * 3, V)(*t), {'make': complaint})]),
            e.born([Splat(fn('inner_annotations', [V] * 3, V)(*t))]))


FAILS = fn('inner_fails', [V] * 3, B)


def memo_engine():
    eng = engine()
    C = eng.contracts

    def inner(e, a, k):
        t = [e.to_v(x) for x in a]
        if e.decide(FAILS(*t)):
            raise PyRaise(e.born(SObj(ParseError, {'what': e.app('inner_error', [SV(x) for x in t])}, meta={'constructed': True})))
        return outcome(e, t)
    C[parse_module._inner_parse] = C[look] = inner
    C[Symbol.as_nonterminal] = C[nonterminal] = lambda e, a, k: SV(fn('nonterminal', [V], V)(e.to_v(a[0])))
    eng.method_contracts['as_nonterminal'] = lambda e, o, a, k: SV(fn('nonterminal', [V], V)(e.to_v(o)))
    C[parse_module._splice_annotations] = C[spliced] = lambda e, a, k: e.app('spliced', [a[0], e.born(list(a[1]))])

    def encode(e, o, a, k):
        x = e.to_v(o)
        if a != ['iso-8859-1'] or k:
            return e.app('encode', [o] + a)
        if e.decide(fn('not_latin', [V], B)(x)):
            raise PyRaise(e.born(SObj(UnicodeError, {'of': o}, meta={'constructed': True})))
        r = SV(fn('latin', [V], V)(x))
        e.D = r.t
        e.fact(e.pred(bytes)(r.t))
        return r
    eng.method_contracts['encode'] = encode

    def unavailable(e, a, k):
        return e.app('unavailable', a)
    C[Unavailable] = unavailable

    def merged(e, a, k):
        if REST in k:
            rest = k.pop(REST)
            d = dict(a[0]) if a else {}
            return {REST: e.to_v(e.app('merged', [d, dict(sorted(k.items())), SV(rest)]))}
        r = dict(*a, **k)
        return e.born(r)
    C[dict] = merged

    def report(e, a, k):
        if REST in k:
            k = dict(k)
            rest = SV(k.pop(REST))
            e.effect('complain', a[1], rest, dict(sorted(k.items())))
        else:
            e.effect('complain', a[1], dict(sorted(k.items())))
    C[Report.__call__] = report

    # -- the dictionary

    def term(e, key):
        return e.to_v(key)

    def has(e, m, key):
        return fn('remembered', [V, V], B)(e.to_v(m.attrs['state']), term(e, key))

    def equal_parts(key, sub):
        if isinstance(key, tuple) and not any(isinstance(x, Splat) for x in key):
            return [f for x in key for f in equal_parts(x, sub)]
        t = eng.to_v(key)
        return [t == sub(t)]

    def found(e, m, key):
        """Stored by an earlier call, with some arguments, whose key (made in the same way) equals this one."""
        now = [e.D, e.S, e.K]
        pairs = [(e.D, e.fresh('earlier_data')), (e.S, e.fresh('earlier_symbol'))] + [(c, e.fresh('earlier')) for c in e.free]

        def sub(t):
            for p in pairs:
                t = z3.substitute(t, p)
            return t
        before = [sub(x) for x in now]
        for f in equal_parts(key, sub):
            e.fact(z3.Implies(has(e, m, key), f))
        t = [before[0], fn('nonterminal', [V], V)(before[1]), before[2]]
        if e.valid(z3.And([x == y for x, y in zip(now, before)]), e.pc):
            t = [now[0], fn('nonterminal', [V], V)(now[1]), now[2]]
        e.assume(z3.Not(FAILS(*t)))
        return outcome(e, t)

    def change(e, m, what, args, by):
        e.setattr(m, 'state', e.app('memo_' + what, [m.attrs['state']] + list(args)))
        e.setattr(m, 'size', SInt(e.to_int(m.attrs['size']) + by))

    def lookup(e, a, k, remove, missing):
        m, key = a[0], a[1]
        if not e.decide(has(e, m, key)):
            if missing is KeyError:
                raise PyRaise(KeyError('?'))
            return missing
        e.fact(z3.Implies(has(e, m, key), e.to_int(m.attrs['size']) >= 1))
        r = found(e, m, key)
        if remove:
            change(e, m, 'without', [key], -1)
            e.fact(z3.Not(has(e, m, key)))
        return r

    def store(e, a, k):
        m, key, value = a
        t = [e.D, fn('nonterminal', [V], V)(e.S), e.K]
        ok = z3.BoolVal(False)
        if isinstance(value, tuple) and len(value) == 3:
            ok = z3.And(as_z3(e.same(value, outcome(e, t))), z3.Not(FAILS(*t)))
        if not e.decide(ok):
            e.effect('something else is remembered for this input', key, value)
        was = has(e, m, key)
        change(e, m, 'with', [key], z3.If(was, z3.IntVal(0), z3.IntVal(1)))
        e.fact(has(e, m, key))

    def drop(e, a, k):
        change(e, a[0], 'popped', [], -1)
        return (e.app('popped_key', [a[0].attrs['state']]), e.app('popped_value', [a[0].attrs['state']]))
    C[Memo.pop] = lambda e, a, k: lookup(e, a, k, True, a[2] if len(a) > 2 else k.get('default', KeyError))
    C[Memo.get] = lambda e, a, k: lookup(e, a, k, False, a[2] if len(a) > 2 else k.get('default'))
    C[Memo.__getitem__] = lambda e, a, k: lookup(e, a, k, False, KeyError)
    C[Memo.__delitem__] = lambda e, a, k: (lookup(e, a, k, True, KeyError), None)[1]
    C[Memo.__contains__] = lambda e, a, k: SBool(has(e, a[0], a[1]))
    C[Memo.__setitem__] = store
    C[Memo.popitem] = drop
    C[Memo.move_to_end] = lambda e, a, k: None
    C[Memo.__len__] = lambda e, a, k: SInt(e.to_int(a[0].attrs['size']))
    return eng


def memo_globals():
    return [v for v in vars(parse_module).values() if type(v) in (dict, OrderedDict) and v is not vars(parse_module).get('__builtins__')
            and v is not vars(parse_module).get('__annotations__')]


def setup(kinds):
    def go(e):
        data, symbol, classes = SV(const('data')), SV(const('symbol')), SV(const('classes'))
        e.D, e.S, e.free = data.t, symbol.t, [data.t, classes.t]
        m = e.born(SObj(Memo, {'state': SV(const('memo')), 'size': SInt(const('size', I))}, meta={'constructed': True}))
        e.fact(z3.And(const('size', I) >= 0, const('size', I) <= LIMIT))
        e.stand_in = {id(v): m for v in memo_globals()}
        kw = {'where': SV(const('where'))}
        if 'sink' in kinds:
            kw['complain'] = SObj(Report, {}, ident='sink', meta={'external': True})
        if 'notice' in kinds:
            kw['fail_notice_id'] = SInt(const('notice', I), int)
        e.K = e.to_v(())
        if 'classes' in kinds:
            kw['annotate_classes'] = classes
            e.K = e.to_v(e.call(tuple, [classes], {})) if e.decide(e.truth(classes)) else e.K
        return data, symbol, kw, m
    return go


def within(m):
    """The number of remembered results is within the limit."""
    return SBool(m.attrs['size'].t <= LIMIT)


for kinds in (('sink', 'notice', 'classes'), ('sink', 'notice'), ('sink', 'classes'), ('classes',), ('sink',), ()):
    rel('C06', 'parse %s' % ' '.join(kinds), [P + 'parse'], memo_engine, setup(kinds),
        lambda e, data, symbol, kw, m: e.call_function(parse, [data, symbol], dict(kw)),
        lambda e, data, symbol, kw, m: e.call_function(spec_parse, [data, symbol], dict(kw)),
        observe=lambda data, symbol, kw, m: [within(m)])


# ---- the annotated form of the input

def spec_splice(data, annotations):
    """The input cut at the annotations, an annotation that begins inside the one before left out."""
    out, done = [], 0
    for (first, last, obj) in annotations:
        if first >= done:
            out.append(data[done:first])
            out.append(obj)
            done = last
    out.append(data[done:])
    return [x for x in out if x != b'']


def annotation(e, t):
    return (SInt(fn('first_of', [V], I)(t), int), SInt(fn('last_of', [V], I)(t), int), SV(fn('object_of', [V], V)(t)))


def splice_setup(e):
    return SV(const('data'), bytes), e.born([Splat(const('annotations'), {'make': annotation})])


rel('C06', '_splice_annotations', [P + '_splice_annotations'], engine, splice_setup, calls(parse_module._splice_annotations), calls(spec_splice))

