"""C09: contracts and laws of the protocol value types."""
from contracts.relcheck import contract, engine
from pyvc.engine import NTuple, as_z3
from pyvc.relational import Splat
from pyvc.terms import SInt, SV, SObj, SBool, const, fn, V, I, B
import z3

from httpolice import structure
from httpolice.notice import Severity
from httpolice.structure import (CaseInsensitive, EntityTag, HeaderEntry, MultiDict, Parametrized, StatusCode,
                                 Unavailable, Versioned, WarningValue, okay)
from httpolice.util.ordered_enum import OrderedEnum

P = 'C09'
MOD = 'httpolice.structure.'


# ---- specifications

def spec_okay(x):
    if x is None:
        return False
    return not isinstance(x, Unavailable)


def spec_unavailable_eq(a, b):
    if not isinstance(b, Unavailable):
        return False
    if a.inner is None:
        return False
    return a.inner == b.inner


def spec_item_eq(a, b, item):
    """A value with parameters equals a tuple field by field, anything else by its item."""
    return item == b


def spec_fold_eq(a, b):
    if isinstance(b, str):
        return a.lower() == b.lower()
    return NotImplemented


def spec_weak(a, b):
    return a.opaque_tag == b.opaque_tag


def spec_strong(a, b):
    if a.weak:
        return False
    if b.weak:
        return False
    return a.opaque_tag == b.opaque_tag


# ---- laws, stated as programs over the real methods

def law_ne(a, b):
    return (a != b) == (not (a == b))


def law_symmetric(a, b):
    return (a == b) == (b == a)


def law_reflexive(a):
    return a == a


def law_hash(a, b):
    if a == b:
        return hash(a) == hash(b)
    return True


def law_transitive(a, b, c):
    if a == b and b == c:
        return a == c
    return True


def law_in(a, b):
    """membership by the bare item"""
    return (a in [b]) == (b == a)


def true():
    return True


# ---- symbolic values

def tv(eng, x):
    if x is NotImplemented:
        return x
    return mk(eng.truth(x))


def mk(t):
    return SBool(as_z3(t))


def eng_():
    e = engine()
    def hash_(e, a, k):
        """hash() of our own classes runs their __hash__; of anything else it is a function of the value."""
        x = a[0]
        if isinstance(x, (SObj, NTuple)):
            m = e.class_attr(x.cls, '__hash__')
            if hasattr(m, '__code__'):
                return e.call_function(m, [x], {})
        return SInt(z3.Function('hash_value', V, I)(e.to_v(x)))
    e.contracts[hash] = hash_

    def fields(e, a):
        x, y = [t.tup if isinstance(t, NTuple) else t for t in a]
        return z3.And([as_z3(e.eq(p, q)) for p, q in zip(x, y)]) if len(x) == len(y) else z3.BoolVal(False)
    e.contracts[tuple.__eq__] = lambda e, a, k: SBool(fields(e, a))
    e.contracts[tuple.__ne__] = lambda e, a, k: SBool(z3.Not(fields(e, a)))
    return e


def unav(name):
    return SObj(Unavailable, {'inner': SV(const(name))}, ident='u_' + name, meta={'constructed': True})


def par(n):
    return NTuple(Parametrized, (SV(const('item_' + n)), SV(const('param_' + n))))


def warning(n):
    return NTuple(WarningValue, (SV(const('code_' + n)), SV(const('agent_' + n)), SV(const('text_' + n)), SV(const('date_' + n))))


def plain(eng, n, *classes):
    v = const('plain_' + n)
    for c in classes:
        eng.fact(z3.Not(eng.pred(c)(v)))
    return SV(v)


def etag(n):
    return NTuple(EntityTag, (SV(const('weak_' + n)), SV(const('tag_' + n))))


def case(name, functions):
    return contract(P, name, [MOD + f if '.' in f or f == 'okay' else f for f in functions])


@case('okay', ['okay'])
def _():
    eng = eng_()
    x = SV(const('x'))
    return eng, lambda: eng.call_function(okay, [x], {}), lambda: eng.call_function(spec_okay, [x], {})


def make_unav():
    for nm, other in (('Unavailable', lambda e: unav('b')), ('something else', lambda e: plain(e, 'b', Unavailable)),
                      ('None', lambda e: None)):
        def build(other=other):
            eng = eng_()
            o = other(eng)
            return (eng, lambda: eng.call_function(Unavailable.__eq__, [unav('a'), o], {}),
                    lambda: eng.call_function(spec_unavailable_eq, [unav('a'), o], {}))
        case('Unavailable.__eq__ with %s' % nm, ['Unavailable.__eq__'])(build)

    def laws(f, n, nm):
        def build():
            eng = eng_()
            args = [unav(x) for x in 'abc'[:n]]
            return eng, lambda: tv(eng, eng.call_function(f, args, {})), lambda: mk(True)
        case('Unavailable: ' + nm, ['Unavailable.__eq__', 'Unavailable.__hash__'])(build)
    laws(law_ne, 2, '!= is the negation of ==')
    laws(law_symmetric, 2, '== is symmetric')
    laws(law_hash, 2, 'equal values have equal hashes')
    laws(law_transitive, 3, '== is transitive')


make_unav()


def make_items(cls, new):
    def build_eq(op):
        def build():
            eng = eng_()
            b = plain(eng, 'b', tuple)
            f = cls.__dict__[op]
            a = new('a')

            def spec():
                r = eng.eq(a.tup[0], b)
                return mk(r if op == '__eq__' else z3.Not(r))
            return eng, lambda: tv(eng, eng.call_function(f, [a, b], {})), spec
        case('%s.%s with a bare item' % (cls.__name__, op), ['%s.%s' % (cls.__name__, op)])(build)

        def build2():
            eng = eng_()
            a, b = new('a'), new('b')

            def spec():
                r = z3.And([eng.to_v(x) == eng.to_v(y) for x, y in zip(a.tup, b.tup)])
                return mk(r if op == '__eq__' else z3.Not(r))
            return eng, lambda: tv(eng, eng.call_function(cls.__dict__[op], [a, b], {})), spec
        case('%s.%s with another one' % (cls.__name__, op), ['%s.%s' % (cls.__name__, op)])(build2)
    build_eq('__eq__')
    build_eq('__ne__')

    def hash_law():
        eng = eng_()
        return eng, lambda: tv(eng, eng.call_function(law_hash, [new('a'), new('b')], {})), lambda: mk(True)
    case('%s: equal values have equal hashes' % cls.__name__, ['%s.__hash__' % cls.__name__])(hash_law)

    def hash_item():
        eng = eng_()
        b = plain(eng, 'b', tuple)
        return eng, lambda: tv(eng, eng.call_function(law_hash, [new('a'), b], {})), lambda: mk(True)
    case('%s: hashes like its bare item' % cls.__name__, ['%s.__hash__' % cls.__name__])(hash_item)


make_items(Parametrized, par)
make_items(WarningValue, warning)


def make_etag():
    for f, s in (('weak_equiv', spec_weak), ('strong_equiv', spec_strong)):
        def build(f=f, s=s):
            eng = eng_()
            return (eng, lambda: tv(eng, eng.call_function(EntityTag.__dict__[f], [etag('a'), etag('b')], {})),
                    lambda: tv(eng, eng.call_function(s, [etag('a'), etag('b')], {})))
        case('EntityTag.' + f, ['EntityTag.' + f])(build)


make_etag()


# ---- status-code classes

RANGES = {'informational': 100, 'successful': 200, 'redirection': 300, 'client_error': 400, 'server_error': 500}


def make_status(p, lo):
    def build():
        eng = eng_()
        s = SInt(z3.Int('status'), StatusCode)
        return (eng, lambda: tv(eng, eng.getattr(s, p)),
                lambda: mk(z3.And(s.t >= lo, s.t < lo + 100)))
    case('StatusCode.%s is %d..%d' % (p, lo, lo + 99), ['StatusCode.' + p])(build)


for _p, _lo in RANGES.items():
    make_status(_p, _lo)


# ---- case-insensitive strings: fold is str.lower, an external function

def folded(eng, t):
    return fn('lower', [V], V)(t)


def ci_value(eng, n):
    t = const('string_' + n)
    eng.fact(eng.pred(str)(t))
    return SObj(CaseInsensitive, {'lower': SObj(LowerOf, {'t': SV(t)}, ident='lower_' + n)}, ident='ci_' + n,
                meta={'v': t})


class LowerOf:
    def __call__(self):
        raise AssertionError('modelled')


def ci_engine():
    eng = eng_()
    eng.contracts[LowerOf.__call__] = lambda e, a, k: SV(folded(e, e.to_v(a[0].attrs['t'])))
    return eng


def make_ci():
    D = CaseInsensitive.__dict__

    def str_other():
        eng = ci_engine()
        a, b = ci_value(eng, 'a'), ci_value(eng, 'b')
        return (eng, lambda: tv(eng, eng.call_function(D['__eq__'], [a, b], {})),
                lambda: mk(folded(eng, eng.to_v(a)) == folded(eng, eng.to_v(b))))
    case('CaseInsensitive.__eq__: by folded content', ['CaseInsensitive.__eq__'])(str_other)

    def ne():
        eng = ci_engine()
        a, b = ci_value(eng, 'a'), ci_value(eng, 'b')
        return (eng, lambda: tv(eng, eng.call_function(D['__ne__'], [a, b], {})),
                lambda: mk(folded(eng, eng.to_v(a)) != folded(eng, eng.to_v(b))))
    case('CaseInsensitive.__ne__: negation', ['CaseInsensitive.__ne__'])(ne)

    for f, n, nm in ((law_ne, 2, '!= is the negation of =='), (law_symmetric, 2, '== is symmetric'),
                     (law_reflexive, 1, '== is reflexive'), (law_hash, 2, 'equal values have equal hashes'),
                     (law_transitive, 3, '== is transitive')):
        def build(f=f, n=n):
            eng = ci_engine()
            args = [ci_value(eng, x) for x in 'abc'[:n]]
            return eng, lambda: tv(eng, eng.call_function(f, args, {})), lambda: mk(True)
        case('CaseInsensitive: ' + nm, ['CaseInsensitive.__eq__', 'CaseInsensitive.__hash__'])(build)


make_ci()


# ---- ordered enumerations

def make_enum():
    for op, z in (('__lt__', lambda a, b: a < b), ('__le__', lambda a, b: a <= b), ('__gt__', lambda a, b: a > b),
                  ('__ge__', lambda a, b: a >= b)):
        def build(op=op, z=z):
            eng = eng_()
            f = OrderedEnum.__dict__[op]
            a = SObj(Severity, {'value': SInt(z3.Int('va')), '__class__': Severity}, ident='a')
            b = SObj(Severity, {'value': SInt(z3.Int('vb')), '__class__': Severity}, ident='b')
            return (eng, lambda: tv(eng, eng.call_function(f, [a, b], {})),
                    lambda: mk(z(z3.Int('va'), z3.Int('vb'))))
        contract(P, 'OrderedEnum.%s' % op, ['httpolice.util.ordered_enum.OrderedEnum.' + op])(build)


make_enum()
