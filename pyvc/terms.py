"""Symbolic values.

All Python values whose content is not known are terms of one uninterpreted sort V, except integers and
booleans that are known to be so, which are z3 Int (mathematical, as Python's) and Bool.
Observers of opaque values (attributes, pure methods, pure external functions) are uninterpreted functions.
"""
import z3

V = z3.DeclareSort('V')
B = z3.BoolSort()
I = z3.IntSort()

_funcs = {}


def fn(name, dom, rng):
    key = (name, tuple(str(d) for d in dom), str(rng))
    f = _funcs.get(key)
    if f is None:
        if any(k[0] == name for k in _funcs):
            name = '%s#%d' % (name, len(_funcs))
        f = z3.Function(name, *(list(dom) + [rng]))
        _funcs[key] = f
    return f


def const(name, sort=V):
    return z3.Const(name, sort)


TRUTH = fn('truth', [V], B)
V2I = fn('v2i', [V], I)
I2V = fn('i2v', [I], V)
LITID = fn('litid', [V], I)
MEM = fn('mem', [V, V], B)
LT = fn('lt', [V, V], B)
LEN = fn('len', [V], I)


class Sym:
    __slots__ = ()

    def __bool__(self):
        raise TypeError('symbolic value used natively as a bool: %r' % (self,))

    def __eq__(self, other):
        raise TypeError('symbolic value compared natively: %r == %r' % (self, other))

    __hash__ = object.__hash__


class SBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SBool(%s)' % self.t


class SInt(Sym):
    __slots__ = ('t', 'cls')

    def __init__(self, t, cls=int):
        self.t = t
        self.cls = cls

    def __repr__(self):
        return 'SInt(%s)' % self.t


class SV(Sym):
    """Opaque value. `hint`: None or a type hint (see hints in contracts)."""
    __slots__ = ('t', 'hint')

    def __init__(self, t, hint=None):
        self.t = t
        self.hint = hint

    def __repr__(self):
        return 'SV(%s)' % self.t


class SComp(Sym):
    """A lazily mapped and filtered symbolic sequence: [val(e) for e in source if cond(e)].

    `binders` is a list of z3 constants bound, `cond` a z3 Bool over them (including membership),
    `val` an engine value over them, `source` V term identifying the source.
    """
    __slots__ = ('binders', 'cond', 'val', 'source', 'flag')

    def __init__(self, binders, cond, val, source, flag='list'):
        self.binders, self.cond, self.val, self.source, self.flag = binders, cond, val, source, flag

    def __repr__(self):
        return 'SComp(%s | %s)' % (self.val, self.cond)


_obj_counter = [0]


class SObj(Sym):
    """A symbolic instance of a real class. `attrs` are known attributes; `lazy(engine, self, name)` may
    provide others (returns NotImplemented when it has none)."""
    __slots__ = ('cls', 'attrs', 'lazy', 'ident', 'birth', 'meta')

    def __init__(self, cls, attrs=None, lazy=None, ident=None, meta=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.lazy = lazy
        if ident is None:
            _obj_counter[0] += 1
            ident = 'obj_%s_%d' % (getattr(cls, '__name__', cls), _obj_counter[0])
        self.ident = ident
        self.birth = 0
        self.meta = meta

    def __repr__(self):
        return '<SObj %s>' % self.ident


class Closure:
    """A function defined by interpreted code (def/lambda)."""

    def __init__(self, node, frame, globals_, name, qualname=None):
        self.node = node
        self.frame = frame
        self.globals = globals_
        self.name = name
        self.qualname = qualname or name
        self.defaults = None
        self.kw_defaults = None
        self.attrs = {}

    def __repr__(self):
        return '<Closure %s>' % self.name


class Bound:
    def __init__(self, self_, func):
        self.self_ = self_
        self.func = func

    def __repr__(self):
        return '<Bound %r of %r>' % (self.func, self.self_)


class Poison(Sym):
    """A local variable whose value was lost (assigned in a summarised loop)."""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why
