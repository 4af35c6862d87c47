"""Functional contracts by relational verification.

The contract of a function is an executable specification: a second function that says what must be returned, which
effects (reported notices, calls of trusted operations) must happen in which order and how the state must change.
Both are executed symbolically on the same opaque inputs.  For every path of the code, every path of the
specification that is compatible with it must end in the same way (one obligation per code path).

Loops over sequences of unknown length, and while loops, are never unrolled.  A loop of the code and a loop of the
specification are related by an inductive coupling invariant: a set of equalities between their loop-carried variables
and heap cells, inferred by the Houdini method (start from all equalities that hold on entry, drop those that the
bodies do not preserve).  The bodies must then continue, leave, return or raise together, with the same effects.
Names and the textual form of the loops play no role."""
import ast
import itertools
import re
import types
import time

import z3

from pyvc.engine import (Engine, Unsupported, MergeAbort, Restart, PyRaise, ReturnEx, BreakEx, ContinueEx, PathEnd,
                         Path, Dec, Frame, And, Or, Not, NTuple, SymAttr, GenList, SymSet, Poison, MISSING, as_z3,
                         is_sym, assigned_names, target_names, has_free_binder, BUILTINS, Closure, Bound)
from pyvc.terms import (SBool, SInt, SV, SObj, SComp, Sym, V, B, I, TRUTH, MEM, LEN, fn, const)


class Splat(Sym):
    """Inside a Python list: all elements of an opaque sequence, in order."""
    __slots__ = ('t', 'hint')

    def __init__(self, t, hint=None):
        self.t, self.hint = t, hint

    def __repr__(self):
        return '*%s' % self.t


REST = '.rest'       # key of the opaque state of a dictionary that got symbolic keys


def dict_term(e, d):
    if REST in d:
        return d[REST]
    t = const('dict_empty')
    for k, v in d.items():
        t = fn('dict_store', [V, V, V], V)(t, e.to_v(k), e.to_v(v))
    return t


class Seq(Sym):
    """An opaque sequence with a structured element: enumerate, zip, range, dict items of opaque values."""
    __slots__ = ('kind', 'terms', 'make', 'empty')

    def __init__(self, kind, terms, make, empty=None):
        self.kind, self.terms, self.make, self.empty = kind, terms, make, empty


class LazyComp(Sym):
    """A generator expression not consumed yet."""
    __slots__ = ('e', 'fr')

    def __init__(self, e, fr):
        self.e, self.fr = e, fr


SAME_KIND = {'m_' + n for n in ('strip lstrip rstrip lower upper replace title capitalize rjust ljust center zfill join format translate '
                                'expandtabs casefold swapcase').split()} | {'slice', 'op_add', 'format'}


def text_result(name, kind):
    """What is known of the result of an operation on a str or bytes."""
    if name in SAME_KIND:
        return {'text': kind}
    if name == 'm_decode' and kind == 'bytes':
        return {'text': 'str'}
    if name == 'm_encode' and kind == 'str':
        return {'text': 'bytes'}
    if name in ('m_partition', 'm_rpartition'):
        return {'items': {i: {'text': kind} for i in range(3)}}
    if name in ('m_split', 'm_rsplit', 'm_splitlines'):
        return {'elem': {'text': kind}}
    return None


def has_splat(x):
    return isinstance(x, (list, tuple)) and any(isinstance(y, Splat) for y in x)


class Cell:
    """A place that a loop may change."""
    __slots__ = ('kind', 'obj', 'name')

    def __init__(self, kind, obj, name=None):
        self.kind, self.obj, self.name = kind, obj, name

    def key(self):
        return (self.kind, id(self.obj), self.name)

    def get(self):
        if self.kind == 'env':
            return self.obj.env.get(self.name, MISSING)
        if self.kind == 'attr':
            return self.obj.attrs.get(self.name, MISSING)
        if self.kind == 'list':
            return list(self.obj)
        if self.kind == 'dict':
            return dict(self.obj)
        raise Unsupported('cell')

    def set(self, v):
        if self.kind == 'env':
            if v is MISSING:
                self.obj.env.pop(self.name, None)
            else:
                self.obj.env[self.name] = v
        elif self.kind == 'attr':
            if v is MISSING:
                self.obj.attrs.pop(self.name, None)
            else:
                self.obj.attrs[self.name] = v
        elif self.kind == 'list':
            self.obj[:] = v
        elif self.kind == 'dict':
            self.obj.clear()
            self.obj.update(v)

    def __repr__(self):
        return '%s %s' % (self.kind, self.name or '')


class Loop:
    """One execution of a loop statement: state on entry, transition of one iteration, state on exit."""

    def __init__(self, what, source, elem):
        self.what = what            # 'for' or 'while'
        self.source = source        # z3 terms identifying the sequence, or ()
        self.elem = elem
        self.cells, self.init, self.havoc, self.result = [], [], [], []
        self.paths = []
        self.labels = []
        self.exit = {}              # label -> z3 Bool
        self.ret = {}               # label -> returned value
        self.token = None
        self.used = False
        self.effects = False
        self.invs = []


class Active:
    """A loop whose body is being executed."""

    def __init__(self, level):
        self.level = level
        self.touched = {}           # cell key -> (cell, value before)


class RelEngine(Engine):

    def __init__(self, **kw):
        self.pattern_name = None    # how a compiled pattern is known to the specification (only its truth is used)
        Engine.__init__(self, merge=False, **kw)
        self.light = True
        self.active = []
        self.loops = []
        self.closure_recursion = None
        self.closure_stack = []
        self.partners = None        # loops of the code path the specification is run against
        self.failures = []
        self.max_paths = 3000
        self.structural = set()
        self.valid_timeout = 5000
        self.n_valid = 0
        self.solver_s = 0.0
        self.unroll = None          # bound on the length of opaque sequences and on iterations, instead of invariants
        self.deadline = None
        self.expanded = {}          # ids of the element terms -> the opaque sequence they are all of
        self.same_hyp = []
        self.opaque_maps = {}       # id of a concrete mapping -> name of the logical look-up function
        C = self.contracts
        C[len] = r_len
        C[list] = r_list
        C[tuple] = r_tuple
        C[any] = lambda e, a, k: e.anyall(a[0], True)
        C[all] = lambda e, a, k: e.anyall(a[0], False)
        C[enumerate] = r_enumerate
        C[zip] = r_zip
        C[range] = r_range
        C[iter] = lambda e, a, k: e.iter_value(a[0])
        C[reversed] = r_reversed
        C[set] = r_set
        C[bool] = lambda e, a, k: e.wrap_bool(e.truth(a[0])) if a else False

    # -- exploration that also keeps the loops of each path

    def nested(self, thunk, assume=()):
        out = []
        stack = [[]]
        saved = (self.dec, self.pc_conds, self.effects, self.nest, self.loop_counters, self.loops)
        n = 0
        try:
            self.nest += 1
            while stack:
                n += 1
                if n > self.max_paths:
                    raise Unsupported('too many paths')
                if self.deadline is not None and time.time() > self.deadline:
                    raise Unsupported('out of time')
                prefix = stack.pop()
                self.dec = Dec(prefix, stack)
                self.pc_conds = list(saved[1]) + list(assume)
                self.effects = []
                self.loops = []
                if self.partners is not None:
                    for p in self.partners:
                        p.used = False
                kind, value = 'ok', None
                try:
                    value = thunk()
                except ReturnEx as e:
                    kind, value = 'return', e.value
                except BreakEx:
                    kind = 'break'
                except ContinueEx:
                    kind = 'continue'
                except PyRaise as e:
                    kind, value = 'raise', e.exc
                except PathEnd:
                    continue
                out.append(Path(And(self.dec.conds), kind, value, self.effects, self.loops))
        finally:
            (self.dec, self.pc_conds, self.effects, self.nest, self.loop_counters, self.loops) = saved
        return out

    # -- texts: opaque values known to be str or bytes

    def app(self, name, args, hint=None, rng=V):
        if hint is None and rng is V and args:
            kind = self.text_kind(args[0])
            if kind is not None:
                hint = text_result(name, kind)
        r = Engine.app(self, name, args, hint, rng)
        if isinstance(hint, dict) and 'text' in hint and rng is V and not has_free_binder(r.t) and ('text', r.t.get_id()) not in self.lits:
            self.lits[('text', r.t.get_id())] = r.t
            self.keep.append(r.t)
            empty = self.lit(b'' if hint['text'] == 'bytes' else '')
            self.fact(TRUTH(r.t) == (r.t != empty))
            self.fact((LEN(r.t) > 0) == TRUTH(r.t))
            self.fact(LEN(r.t) >= 0)
            self.fact(r.t != self.lit(None))
        return r

    def text_kind(self, x):
        if isinstance(x, SV):
            return x.hint.get('text') if isinstance(x.hint, dict) else None
        return 'str' if isinstance(x, str) else 'bytes' if isinstance(x, bytes) else None

    # -- bounded unrolling (only used to tell a refuted loop from one that is written differently)

    def elements(self, t, hint):
        """The elements of an opaque sequence of at most `unroll` elements, one case per length."""
        self.fact(LEN(t) >= 0)
        self.fact((LEN(t) > 0) == TRUTH(t))
        for n in range(self.unroll + 1):
            if self.decide(LEN(t) == n):
                break
        else:
            raise PathEnd('longer than the bound')
        terms = [fn('getitem%d' % i, [V], V)(t) for i in range(n)]
        for i, x in enumerate(terms):
            self.fact(z3.Implies(LEN(t) == n, fn('last%d' % (n - i), [V], V)(t) == x))
            self.fact(z3.Implies(LEN(t) == n, MEM(x, t)))
        if n:
            self.expanded[tuple(x.get_id() for x in terms)] = t
            self.keep += terms
        else:
            self.fact(z3.Implies(LEN(t) == 0, t == self._empty('list')))
        if isinstance(hint, dict) and 'make' in hint:
            return [hint['make'](self, x) for x in terms]
        return [SV(x, hint) for x in terms]

    def expand(self, x):
        """A Python list with no opaque parts."""
        if isinstance(x, Seq):
            raise Unsupported('unrolling %s' % x.kind)
        if isinstance(x, SV):
            return self.elements(x.t, x.hint.get('elem') if isinstance(x.hint, dict) else None)
        out = []
        for y in x:
            out += self.elements(y.t, y.hint) if isinstance(y, Splat) else [y]
        return out

    def settle(self, x):
        """As `same` needs it: parts whose length is known under the conditions compared are expanded."""
        out = []
        for y in x:
            if not isinstance(y, Splat):
                out.append(y)
                continue
            for n in range(self.unroll + 1):
                if self.valid(LEN(y.t) == n, self.same_hyp):
                    h = y.hint
                    for i in range(n):
                        t = fn('getitem%d' % i, [V], V)(y.t)
                        out.append(h['make'](self, t) if isinstance(h, dict) and 'make' in h else SV(t, h))
                    break
            else:
                return x
        return out

    # -- lists with opaque parts

    def to_v(self, x):
        if isinstance(x, SymAttr):
            x = x.force()
        if isinstance(x, Splat):
            return x.t
        if self.unroll is not None and self.expanded and isinstance(x, list) and x and all(isinstance(y, SV) for y in x):
            t = self.expanded.get(tuple(y.t.get_id() for y in x))
            if t is not None:
                return t
        if isinstance(x, LazyComp):
            x = self.force_comp(x)
        if isinstance(x, NTuple):
            return fn('mk_' + x.cls.__name__, [V] * len(x.tup), V)(*[self.to_v(y) for y in x.tup])
        if isinstance(x, Seq):
            return fn('seq_' + x.kind, [t.sort() for t in x.terms], V)(*x.terms)
        if has_splat(x):
            acc = None
            for y in x:
                if isinstance(y, Splat):
                    acc = y.t if acc is None else fn('cat', [V, V], V)(acc, y.t)
                else:
                    acc = fn('snoc', [V, V], V)(self._empty('list') if acc is None else acc, self.to_v(y))
            t = acc
            if len(x) > 1 and ('sp', t.get_id()) not in self.lits:
                self.lits[('sp', t.get_id())] = t
                self.keep.append(t)
                self.fact(TRUTH(t) == as_z3(self.truth(x)))
                self.fact(LEN(t) == as_z3int(r_len(self, [x], {})))
            return t
        if isinstance(x, SObj) and x.meta is not None and x.meta.get('constructed'):
            names = sorted(n for n in x.attrs if isinstance(n, str))
            vs = [self.to_v(x.attrs[n]) for n in names]
            if not vs:
                return const('new_%s' % x.cls.__name__)
            return fn('new_%s_%s' % (x.cls.__name__, '_'.join(names)), [V] * len(vs), V)(*vs)
        if isinstance(x, dict) and REST in x:
            return x[REST]
        if isinstance(x, dict) and x and all(isinstance(k, str) for k in x):
            ks = sorted(x)
            return fn('dict_' + '_'.join(ks), [V] * len(ks), V)(*[self.to_v(x[k]) for k in ks])
        if isinstance(x, SymSet):
            vs = sorted([self.to_v(y) for y in x.items], key=str)
            return fn('set%d' % len(vs), [V] * len(vs), V)(*vs) if vs else self._empty('set')
        return Engine.to_v(self, x)

    def construct(self, cls, args, kwargs):
        r = Engine.construct(self, cls, args, kwargs)
        if isinstance(r, SObj) and r.meta is None:
            r.meta = {'constructed': True}
        return r

    def truth(self, x):
        if isinstance(x, SymAttr):
            x = x.force()
        if isinstance(x, dict) and REST in x:
            return TRUTH(x[REST])
        if isinstance(x, LazyComp):
            return True
        if isinstance(x, NTuple):
            return True
        if isinstance(x, SymSet):
            return bool(x.items)
        if has_splat(x):
            if any(not isinstance(y, Splat) for y in x):
                return True
            return Or([TRUTH(y.t) for y in x])
        if isinstance(x, Seq):
            raise Unsupported('truth of an iterator')
        return Engine.truth(self, x)

    def iter_value(self, x):
        if isinstance(x, SymAttr):
            x = x.force()
        if self.unroll is not None and (isinstance(x, SV) or has_splat(x)):
            return GenList(self.expand(x))
        if isinstance(x, (SV, Seq, LazyComp)) or has_splat(x):
            return x
        if isinstance(x, SObj):
            m = self.class_attr(x.cls, '__iter__')
            if m is not MISSING:
                return self.iter_value(self.call(Bound(x, m), [], {}))
        r = self.iter_sym(x)
        return r if not isinstance(r, list) else GenList(r)

    def iter_sym(self, x):
        if isinstance(x, dict) and REST in x:
            raise Unsupported('iterating an opaque dictionary')
        if isinstance(x, LazyComp):
            x = self.force_comp(x)
        if isinstance(x, SymAttr):
            x = x.force()
        if isinstance(x, NTuple):
            return list(x.tup)
        if self.unroll is not None and (isinstance(x, SV) or has_splat(x)):
            return self.expand(x)
        if has_splat(x):
            if len(x) == 1:
                return Engine.iter_sym(self, SV(x[0].t, {'elem': x[0].hint} if x[0].hint else None))
            return Engine.iter_sym(self, SV(self.to_v(x)))
        return Engine.iter_sym(self, x)

    def eq(self, a, b):
        if isinstance(a, SymAttr):
            a = a.force()
        if isinstance(b, SymAttr):
            b = b.force()
        if has_splat(a) or has_splat(b):
            for x, y in ((a, b), (b, a)):
                if has_splat(x) and isinstance(y, (list, tuple)) and not y:
                    return Not(self.truth(x))
            return self.to_v(a) == self.to_v(b)
        if isinstance(a, NTuple) and isinstance(b, NTuple):
            m = self.class_attr(a.cls, '__eq__')
            if m is MISSING or not callable(m) or not hasattr(m, '__code__') or m.__qualname__.startswith('tuple'):
                if a.cls is b.cls or len(a.tup) == len(b.tup):
                    return And([as_z3(self.eq(x, y)) for x, y in zip(a.tup, b.tup)])
                return False
        for (x, y) in ((a, b), (b, a)):
            if isinstance(x, NTuple):
                m = self.class_attr(x.cls, '__eq__')
                if hasattr(m, '__code__') and self.inline_ok(m):
                    r = self.call(Bound(x, m), [y], {})
                    if r is not NotImplemented:
                        return self.truth(r)
        return Engine.eq(self, a, b)

    def contains(self, cont, x):
        if isinstance(cont, SymAttr):
            cont = cont.force()
        if isinstance(x, SymAttr):
            x = x.force()
        if isinstance(cont, LazyComp):
            cont = self.force_comp(cont)
        if isinstance(cont, dict) and REST in cont:
            return fn('dict_has', [V, V], B)(cont[REST], self.to_v(x))
        if isinstance(cont, SymSet):
            return Or([as_z3(self.eq(y, x)) for y in cont.items]) if cont.items else False
        if has_splat(cont):
            ts = []
            for y in cont:
                if isinstance(y, Splat):
                    ts.append(MEM(self.to_v(x), y.t))
                else:
                    ts.append(as_z3(self.eq(y, x)))
            return Or(ts)
        return Engine.contains(self, cont, x)

    def getattr(self, x, name):
        if isinstance(x, NTuple):
            if name in x.cls._fields:
                return x.tup[x.cls._fields.index(name)]
            ca = self.class_attr(x.cls, name)
            if isinstance(ca, property):
                return self.get_property(ca, x)
            if ca is not MISSING:
                return self.bind(ca, x, x.cls)
            raise PyRaise(AttributeError(name))
        return Engine.getattr(self, x, name)

    def getitem(self, x, k):
        if isinstance(x, SymAttr):
            x = x.force()
        if id(x) in self.opaque_maps and is_sym(k):
            return self.app(self.opaque_maps[id(x)], [k])
        if isinstance(x, dict) and REST in x:
            if not self.decide(fn('dict_has', [V, V], B)(x[REST], self.to_v(k))):
                raise PyRaise(KeyError(k))
            return SV(fn('dict_get', [V, V], V)(x[REST], self.to_v(k)))
        if isinstance(x, NTuple):
            if isinstance(k, int):
                return x.tup[k]
        if self.unroll is not None and (has_splat(x) or isinstance(x, SV) and isinstance(x.hint, dict) and 'elem' in x.hint) and \
                isinstance(k, (int, slice)) and not is_sym(k):
            return Engine.getitem(self, self.born(self.expand(x)), k)
        if has_splat(x):
            if isinstance(k, int):
                if k >= 0:
                    for i, y in enumerate(x[:k + 1]):
                        if isinstance(y, Splat):
                            break
                    else:
                        if len(x) > k:
                            return x[k]
                else:
                    tail = x[k:]
                    if len(tail) == -k and not has_splat(tail):
                        return x[k]
                if len(x) == 1:
                    return self.index_opaque(x[0].t, k, x[0].hint)
            if isinstance(k, slice):
                if k.start is None and k.stop is None and k.step is None:
                    return self.born(list(x))
                if len(x) == 1 and isinstance(x, list) and k.step is None and \
                        ((k.start, k.stop) == (-1, None) or k.start in (None, 0) and type(k.stop) is int and k.stop == 1):
                    # the last (or first) element, if any
                    self.fact((LEN(x[0].t) > 0) == TRUTH(x[0].t))
                    if not self.decide(TRUTH(x[0].t)):
                        return self.born([])
                    return self.born([self.index_opaque(x[0].t, -1 if k.start == -1 else 0, x[0].hint)])
                if len(x) == 1:
                    return Engine.getitem(self, SV(x[0].t), k)
            return self.app('subscript', [x, k])
        if isinstance(x, SV) and isinstance(k, int) and not isinstance(k, bool) and k < 0:
            return self.index_opaque(x.t, k, x.hint.get('elem') if isinstance(x.hint, dict) else None)
        return Engine.getitem(self, x, k)

    def index_opaque(self, t, k, hint):
        """Element k of an opaque sequence: an IndexError when it is too short."""
        need = k + 1 if k >= 0 else -k
        self.fact(LEN(t) >= 0)
        self.fact((LEN(t) > 0) == TRUTH(t))
        if not self.decide(LEN(t) >= need):
            raise PyRaise(IndexError('index out of range'))
        name = 'getitem%d' % k if k >= 0 else 'last%d' % -k
        if isinstance(hint, dict) and 'make' in hint:
            return hint['make'](self, fn(name, [V], V)(t))
        return self.app(name, [SV(t)], hint=hint)

    def container_method(self, f, args, kwargs):
        c, name = f.__self__, f.__name__
        if isinstance(c, dict) and REST in c:
            if name == 'get' and not kwargs:
                if self.decide(as_z3(self.contains(c, args[0]))):
                    return SV(fn('dict_get', [V, V], V)(c[REST], self.to_v(args[0])))
                return args[1] if len(args) > 1 else None
            raise Unsupported('dict.%s on an opaque dictionary' % name)
        if isinstance(c, list) and name == 'extend':
            self.mutate(c)
            x = args[0]
            if isinstance(x, LazyComp):
                x = self.force_comp(x)
            if isinstance(x, SymAttr):
                x = x.force()
            if isinstance(x, list):
                c.extend(x)
            elif isinstance(x, SV):
                c.append(Splat(x.t, x.hint.get('elem') if isinstance(x.hint, dict) else None))
            else:
                r = self.iter_sym(x)
                if isinstance(r, list):
                    c.extend(r)
                else:
                    c.append(Splat(self.to_v(x)))
            return None
        if self.unroll is not None and isinstance(c, list) and has_splat(c):
            c[:] = self.expand(c)
            return Engine.container_method(self, getattr(c, name), args, kwargs)
        if isinstance(c, list) and has_splat(c):
            if name == 'append':
                self.mutate(c)
                t = c[-1].t if isinstance(c[-1], Splat) else None
                if t is not None and t.decl().name() == 'init' and self.to_v(args[0]).eq(fn('last1', [V], V)(t.arg(0))):
                    c[-1] = Splat(t.arg(0), c[-1].hint)     # the element taken off is put back
                    return None
                c.append(args[0])
                return None
            if name == 'insert' and args[0] == 0:
                self.mutate(c)
                c.insert(0, args[1])
                return None
            if name == 'pop':
                k = args[0] if args else -1
                if k == -1 and not isinstance(c[-1], Splat):
                    self.mutate(c)
                    return c.pop()
                if k == 0 and not isinstance(c[0], Splat):
                    self.mutate(c)
                    return c.pop(0)
                if len(c) == 1 and k in (0, -1):
                    self.mutate(c)
                    t, h = c[0].t, c[0].hint
                    v = self.index_opaque(t, k, h)
                    c[0] = Splat(fn('tail' if k == 0 else 'init', [V], V)(t), h)
                    return v
            if name == 'copy':
                return self.born(list(c))
            raise Unsupported('list.%s on a partly opaque list' % name)
        return Engine.container_method(self, f, args, kwargs)

    def binop(self, op, a, b):
        if isinstance(a, SymAttr):
            a = a.force()
        if isinstance(b, SymAttr):
            b = b.force()
        if isinstance(op, ast.Mod) and isinstance(a, SInt) and isinstance(b, int) and not isinstance(b, bool) and b > 0:
            return SInt(a.t % b)
        if isinstance(op, ast.Add):
            if isinstance(a, list) and isinstance(b, SV):
                return self.born(list(a) + [Splat(b.t)])
            if isinstance(b, list) and isinstance(a, SV):
                return self.born([Splat(a.t)] + list(b))
        return Engine.binop(self, op, a, b)

    def s_AugAssign(self, s, fr):
        if isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add):
            cur = self.lookup(s.target.id, fr)
            if isinstance(cur, list):
                val = self.eval(s.value, fr)
                self.container_method(cur.extend, [val], {})
                return
        Engine.s_AugAssign(self, s, fr)

    # -- comprehensions: a loop that appends to a list

    def comp(self, gens, elt, fr, flag):
        first = self.eval(gens[0].iter, fr)
        if isinstance(first, LazyComp):
            first = self.force_comp(first)
        inner = Frame({}, fr.globals, outer=fr, qualname=fr.qualname)
        inner.cells = {}
        out = self.born([])
        inner.env['.out'] = out
        inner.env['.src'] = first
        call = ast.Call(func=ast.Attribute(value=ast.Name(id='.out', ctx=ast.Load()), attr='append', ctx=ast.Load()),
                        args=[elt], keywords=[])
        body = [ast.Expr(value=call)]
        for k in range(len(gens) - 1, -1, -1):
            g = gens[k]
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            src = g.iter if k else ast.Name(id='.src', ctx=ast.Load())
            body = [ast.For(target=g.target, iter=src, body=body, orelse=[], lineno=getattr(elt, 'lineno', 0),
                            col_offset=0)]
        self.exec_block(body, inner)
        return inner.env['.out']

    def e_GeneratorExp(self, e, fr):
        return LazyComp(e, fr)

    def force_comp(self, x):
        r = self.comp(x.e.generators, x.e.elt, x.fr, 'list')
        return GenList(r) if isinstance(r, list) and not has_splat(r) else r

    def e_SetComp(self, e, fr):
        r = self.comp(e.generators, e.elt, fr, 'list')
        return r_set(self, [r], {})

    def e_DictComp(self, e, fr):
        r = self.comp(e.generators, ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), fr, 'list')
        if has_splat(r):
            return self.app('dict_of', [r])
        return self.make_dict(r)

    def make_dict(self, pairs):
        if any(is_sym(k) for k, _ in pairs):
            raise Unsupported('dict with symbolic keys')
        return self.born(dict(pairs))

    def anyall(self, x, is_any):
        if isinstance(x, LazyComp):
            saved = self.merge
            e, fr = x.e, x.fr
            # early-exit loop: for ...: if cond: return True
            inner = Frame({}, fr.globals, outer=fr, qualname=fr.qualname)
            test = e.elt if is_any else ast.UnaryOp(op=ast.Not(), operand=e.elt)
            body = [ast.If(test=test, body=[ast.Return(value=ast.Constant(value=is_any))], orelse=[])]
            for g in reversed(e.generators):
                for c in reversed(g.ifs):
                    body = [ast.If(test=c, body=body, orelse=[])]
                body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[],
                                lineno=getattr(e, 'lineno', 0), col_offset=0)]
            try:
                self.exec_block(body, inner)
            except ReturnEx as r:
                return r.value
            return not is_any
        if isinstance(x, SymAttr):
            x = x.force()
        if self.unroll is not None and (isinstance(x, SV) or has_splat(x)):
            x = self.expand(x)
        if isinstance(x, SV):
            return self.app('any_of' if is_any else 'all_of', [x], rng=B)
        return BUILTINS[any if is_any else all](self, x)

    # -- mutation

    def touch(self, cell):
        for a in self.active:
            if a.level > self.births.get(id(cell.obj), 0):
                k = cell.key()
                if k not in a.touched:
                    a.touched[k] = (cell, cell.get())

    def mutate(self, obj):
        if isinstance(obj, list):
            self.touch(Cell('list', obj))
        elif isinstance(obj, dict):
            self.touch(Cell('dict', obj))
        elif isinstance(obj, SObj):
            pass
        elif isinstance(obj, set):
            if any(a.level > self.births.get(id(obj), 0) for a in self.active):
                raise Unsupported('set changed in a loop')
        elif isinstance(obj, Frame):
            pass

    def setattr(self, x, name, value):
        if isinstance(x, SObj) and x.meta and x.meta.get('external'):
            self.effect('set', x, name, value)
            return
        if isinstance(x, SObj):
            ca = self.class_attr(x.cls, name)
            key = name
            if isinstance(ca, property):
                w = getattr(ca.fget, '__wrapped__', None)
                if w is not None and ca.fget.__code__.co_name == 'prop':
                    key = ('memo', w.__name__)
            self.touch(Cell('attr', x, key))
        return Engine.setattr(self, x, name, value)

    def assign(self, t, v, fr):
        if isinstance(v, SymAttr):
            v = v.force()
        if isinstance(t, ast.Name) and t.id in fr.nonlocals:
            f = fr.outer
            while f is not None and t.id not in f.env:
                f = f.outer
            if f is not None:
                self.touch(Cell('env', f, t.id))
        return Engine.assign(self, t, v, fr)

    def store_item(self, c, k, v):
        if isinstance(c, dict) and (REST in c or is_sym(k)):
            self.mutate(c)
            r = fn('dict_store', [V, V, V], V)(dict_term(self, c), self.to_v(k), self.to_v(v))
            c.clear()
            c[REST] = r
            return
        if isinstance(c, list) and is_sym(k) and len(c) == 1 and isinstance(c[0], Splat):
            self.mutate(c)
            c[0] = Splat(fn('list_store', [V, V, V], V)(c[0].t, self.to_v(k), self.to_v(v)), c[0].hint)
            return
        return Engine.store_item(self, c, k, v)

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value else None
        self.mutate(fr.yields)
        fr.yields.append(v)
        return None

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        self.container_method(fr.yields.extend, [v], {})
        return None

    def call(self, f, args, kwargs):
        if isinstance(f, Closure) and self.closure_recursion is not None:
            if f.node in self.closure_stack:
                # a recursive call of a local function: by induction it meets its contract
                return self.closure_recursion(self, args, kwargs)
            self.closure_stack.append(f.node)
            try:
                return Engine.call(self, f, args, kwargs)
            finally:
                self.closure_stack.pop()
        if isinstance(f, types.BuiltinMethodType) and isinstance(getattr(f, '__self__', None), re.Pattern) and \
                any(is_sym(a) for a in args) and self.lookup_contract(f) is None:
            name, known_pattern = f.__name__, self.pattern_name
            plain = self.contracts.get(getattr(re, name, None))
            if plain is not None and f.__self__.flags in (0, re.UNICODE):
                # pattern.match(x) is re.match(pattern, x)
                return plain(self, [f.__self__.pattern] + list(args), kwargs)
            if name in ('match', 'fullmatch') and known_pattern is not None and len(args) == 1:
                fits = self.app(known_pattern(f.__self__), args, rng=B)
                r = self.app('match_' + known_pattern(f.__self__), args)
                self.fact(TRUTH(r.t) == fits.t)
                self.fact((r.t == self.lit(None)) == z3.Not(fits.t))
                return r
            return self.app('pattern_%s_%d_%s' % (name, f.__self__.flags, f.__self__.pattern), list(args) + [v for _, v in sorted(kwargs.items())])
        if self.lookup_contract(f) is not None or isinstance(f, Bound) and self.lookup_contract(f.func) is not None or \
                isinstance(f, SObj) and (f.meta or {}).get('external'):
            return Engine.call(self, f, args, kwargs)
        if REST in kwargs or (not isinstance(f, (types.FunctionType, Closure, Bound)) and f is not len and f is not bool and
                              any(isinstance(a, dict) and REST in a for a in args)):
            raise Unsupported('an opaque dictionary as argument')
        return Engine.call(self, f, args, kwargs)

    # -- loops

    def s_For(self, s, fr):
        src = self.eval(s.iter, fr)
        if isinstance(src, SymAttr):
            src = src.force()
        if isinstance(src, LazyComp):
            src = self.force_comp(src)
        if isinstance(src, SObj):
            m = self.class_attr(src.cls, '__iter__')
            if m is MISSING:
                raise Unsupported('iterating %r' % src)
            src = self.iter_value(self.call(Bound(src, m), [], {}))
            if isinstance(src, LazyComp):
                src = self.force_comp(src)
        if isinstance(src, SComp):
            src = SV(self.comp_v(src))
        if self.unroll is not None and (isinstance(src, (SV, Seq)) or has_splat(src)):
            src = self.expand(src)
        empty = self.empty_term(src)
        if empty is not None and self.pc_conds is not None and self.valid(empty):
            return self.exec_block(s.orelse, fr)
        if has_splat(src) and isinstance(src, list) and len(src) > 1 and not has_break(s) and not s.orelse:
            # part by part: known elements are unrolled, every opaque part is a loop of its own
            for x in list(src):
                if not isinstance(x, Splat):
                    self.assign(s.target, x, fr)
                    try:
                        self.exec_block(s.body, fr)
                    except ContinueEx:
                        pass
                else:
                    empty = self.empty_term([x])
                    if not (self.pc_conds is not None and self.valid(empty)):
                        self.loop('for', s, [x], fr)
            return
        if isinstance(src, (SV, Seq)) or has_splat(src):
            return self.loop('for', s, src, fr)
        if isinstance(src, NTuple):
            src = list(src.tup)
        items = self.iter_sym(src)
        if not isinstance(items, list):
            raise Unsupported('loop over %r' % (src,))
        broke = False
        for x in items:
            self.assign(s.target, x, fr)
            try:
                self.exec_block(s.body, fr)
            except ContinueEx:
                continue
            except BreakEx:
                broke = True
                break
        if not broke:
            self.exec_block(s.orelse, fr)

    def empty_term(self, src):
        """z3 condition for a list (or an enumeration of one) to have no element, or None."""
        if isinstance(src, Seq):
            return src.empty
        if has_splat(src):
            if all(isinstance(y, Splat) for y in src):
                return And([Not(TRUTH(y.t)) for y in src])
        return None

    def s_While(self, s, fr):
        if self.unroll is None:
            return self.loop('while', s, None, fr)
        for k in range(self.unroll + 1):
            if not self.decide(as_z3(self.truth_expr(s.test, fr))):
                return self.exec_block(s.orelse, fr)
            if k == self.unroll:
                raise PathEnd('more iterations than the bound')
            try:
                self.exec_block(s.body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                return

    def source_of(self, src):
        """-> (terms identifying the sequence, element factory)"""
        if isinstance(src, SV):
            h = src.hint.get('elem') if isinstance(src.hint, dict) else None
            t = src.t
        elif has_splat(src):
            h = src[0].hint if len(src) == 1 else None
            t = self.to_v(src)
        else:
            return src.kind, list(src.terms), src.make
        mk = h.get('make') if isinstance(h, dict) else None

        def make(eng):
            e = eng.fresh('elem')
            eng.assume_fact(MEM(e, t))
            if mk is not None:
                return mk(eng, e)
            return SV(e, h)
        return 'each', [t], make

    def assume_fact(self, t):
        self.fact(t)

    def havoc(self, v, name, inv):
        if isinstance(v, (bool, SBool)):
            return SBool(self.fresh('h_' + name, B))
        if isinstance(v, (SInt, int)):
            h = SInt(self.fresh('h_' + name, I), v.cls if isinstance(v, SInt) else type(v))
            return h
        if isinstance(v, SymAttr):
            v = v.force()
        if isinstance(v, list):
            hint = None
            for y in v:
                if isinstance(y, Splat):
                    hint = y.hint
            t = self.fresh('h_' + name)
            self.fact(LEN(t) >= 0)
            self.fact((LEN(t) > 0) == TRUTH(t))
            self.fact(t != self.lit(None))
            return [Splat(t, hint)]
        if isinstance(v, dict):
            return {REST: self.fresh('h_' + name)}
        if type(v) is tuple:
            return tuple(self.havoc(y, name, inv) for y in v)
        if isinstance(v, (SObj, NTuple)):
            return SV(self.fresh('h_' + name))
        return SV(self.fresh('h_' + name), v.hint if isinstance(v, SV) else None)

    def loop(self, what, s, src, fr):
        if what == 'for':
            kind, terms, make = self.source_of(src)
        else:
            kind, terms, make = 'while', [], None
        me = Loop(what + ':' + kind, terms, None)
        partner = None
        notes = []
        if self.partners is not None:
            for p in self.partners:
                if p.used or p.what != me.what:
                    continue
                if len(p.source) == len(terms) and all(a.sort() == b.sort() for a, b in zip(p.source, terms)) and \
                        all(self.valid(a == b) for a, b in zip(p.source, terms)):
                    partner = p
                    r = self.run_loop(me, s, fr, make, partner, notes)
                    if r:
                        partner.used = True
                        break
                    partner = None
            if partner is None:
                self.failures.append('loop of the specification (line %s) matches no loop of the code: %s' % (
                    getattr(s, 'lineno', '?'), '; '.join(notes) or 'no loop over the same sequence'))
                self.run_loop(me, s, fr, make, None, notes)
        else:
            self.run_loop(me, s, fr, make, None, notes)
        self.leave(me, s, fr)

    def run_loop(self, me, s, fr, make, partner, notes):
        base = dict(fr.env)
        names = assigned_names(s.body)
        if isinstance(s, ast.While):
            names |= assigned_names([ast.Expr(value=s.test)])
        cells = [Cell('env', fr, n) for n in sorted(names) if n in base and not isinstance(base[n], Poison)
                 and n not in target_names(getattr(s, 'target', ast.Tuple(elts=[])))]
        init = [c.get() for c in cells]
        me.elem = None
        if make is not None:
            me.elem = partner.elem if partner is not None and partner.elem is not None else make(self)

        for _ in range(12):
            act = Active(self.nest + 1)
            havoc = [self.havoc(v, c.name if isinstance(c.name, str) else c.kind, None) for c, v in zip(cells, init)]

            def run_body():
                for (c, v) in act.touched.values():
                    c.set(v)
                for n in list(fr.env):
                    if n not in base:
                        del fr.env[n]
                for c, h in zip(cells, havoc):
                    c.set(h)
                if me.elem is not None:
                    self.assign(s.target, me.elem, fr)
                out = 'go'
                try:
                    if isinstance(s, ast.While):
                        t = self.truth_expr(s.test, fr)
                        if not self.decide(as_z3(t)):
                            return ('done', [c.get() for c in cells])
                    self.exec_block(s.body, fr)
                except ContinueEx:
                    pass
                except BreakEx:
                    out = 'done' if not s.orelse else 'break'
                except ReturnEx as e:
                    v = e.value
                    return (('return',) + self.ret_label(v), [c.get() for c in cells], snapshot(v))
                except PyRaise as e:
                    cls = e.exc.cls if isinstance(e.exc, SObj) else type(e.exc)
                    return (('raise', cls.__name__), [c.get() for c in cells], e.exc)
                return (out, [c.get() for c in cells])

            self.active.append(act)
            saved_partners = self.partners
            nfail = len(self.failures)
            try:
                if partner is None:
                    self.partners = None
                    paths = self.nested(run_body)
                    coupled = None
                else:
                    coupled, paths = self.couple(me, partner, cells, init, havoc, run_body, notes)
            finally:
                self.active.pop()
                self.partners = saved_partners
                fresh_cells = [(c, v) for (c, v) in act.touched.values() if c.key() not in {x.key() for x in cells}]
                for (c, v) in act.touched.values():
                    c.set(v)
                for c, v in zip(cells, init):
                    c.set(v)
                for n in list(fr.env):
                    if n not in base:
                        del fr.env[n]
            if fresh_cells:
                for c, v in fresh_cells:
                    # inner cells become part of the outer loops' state as well
                    for a in self.active:
                        if a.level > self.births.get(id(c.obj), 0) and c.key() not in a.touched:
                            a.touched[c.key()] = (c, v)
                cells += [c for c, _ in fresh_cells]
                init += [v for _, v in fresh_cells]
                del self.failures[nfail:]
                continue
            break
        else:
            raise Unsupported('the state changed by a loop does not settle')
        if partner is not None and coupled is None:
            return False
        me.cells, me.init, me.havoc, me.paths = cells, init, havoc, paths
        for a in self.active:
            for c, v in zip(cells, init):
                if c.kind != 'env' and a.level > self.births.get(id(c.obj), 0) and c.key() not in a.touched:
                    a.touched[c.key()] = (c, v)
        labels = []
        for p in paths:
            if p.kind == 'ok' and p.value[0] != 'go' and p.value[0] not in labels:
                labels.append(p.value[0])
        if me.what.startswith('for') and 'done' not in labels:
            labels.append('done')
        me.labels = sorted(labels, key=str)
        me.effects = any(p.effects for p in paths)
        if partner is None:
            me.result = [self.havoc(v, 'out_' + (c.name if isinstance(c.name, str) else c.kind), None)
                         for c, v in zip(cells, init)]
            me.token = SV(self.fresh('loop'))
            me.exit = {l: self.fresh('exit', B) for l in me.labels}
            for l in me.labels:
                if l[0] == 'return':
                    v = next(p.value[2] for p in paths if p.kind == 'ok' and p.value[0] == l)
                    me.ret[l] = v if l[1] == 'const' else self.havoc(v, 'ret', None)
                elif l[0] == 'raise':
                    me.ret[l] = next(p.value[2] for p in paths if p.kind == 'ok' and p.value[0] == l)
        else:
            me.result = [partner.result[coupled[i]] if i in coupled else
                         self.havoc(v, 'out_' + (c.name if isinstance(c.name, str) else c.kind), None)
                         for i, (c, v) in enumerate(zip(cells, init))]
            me.token = partner.token
            me.exit = {l: partner.exit.get(l, z3.BoolVal(False)) for l in me.labels}
            me.ret = {l: partner.ret[l] if l in partner.ret else None for l in me.labels if l[0] in ('return', 'raise')}
        return True

    def ret_label(self, v):
        if isinstance(v, SymAttr):
            v = v.force()
        if not is_sym(v) and not isinstance(v, (list, dict)):
            return ('const', repr(v))
        if type(v) is tuple:
            return ('tuple%d' % len(v),)
        if isinstance(v, (SInt, SBool, list)):
            return (type(v).__name__,)
        return ('sym',)

    def couple(self, me, partner, cells, init, havoc, run_body, notes):
        """Infer the coupling invariant; -> ({cell index: partner's cell index} or None, paths)."""
        cand = set()
        for i, v in enumerate(init):
            for j, w in enumerate(partner.init):
                if self.comparable(havoc[i], partner.havoc[j]) and self.valid(as_z3(self.same(v, w))):
                    cand.add((i, j))
        for _ in range(60):
            A = [as_z3(self.same(havoc[i], partner.havoc[j])) for (i, j) in sorted(cand)]
            bad = set()
            problem = None
            all_paths = []
            for b in partner.paths:
                self.partners = b.extra
                A2 = A + [b.cond]
                if not self.satisfiable(A2):
                    continue
                for q in self.nested(run_body, A2):
                    all_paths.append(q)
                    hyp = A2 + [q.cond]
                    if b.kind != 'ok' or q.kind != 'ok':
                        raise Unsupported('escape from a loop body')
                    la, lb = q.value[0], b.value[0]
                    if la != lb:
                        if not self.valid(z3.BoolVal(False), hyp):
                            problem = 'the specification does %r where the code does %r' % (la, lb)
                        continue
                    if la[0] == 'return' and la[1] != 'const':
                        if not self.valid(as_z3(self.same(q.value[2], b.value[2])), hyp):
                            problem = 'different values returned from the loop: %r / %r' % (b.value[2], q.value[2])
                    if la[0] == 'raise' and not self.valid(as_z3(self.same_exception(q.value[2], b.value[2])), hyp):
                        problem = 'different exceptions raised from the loop: %r / %r' % (b.value[2], q.value[2])
                    r = self.same_effects(b.effects, q.effects)
                    if r is not True and not self.valid(as_z3(r), hyp):
                        problem = 'different effects in one iteration: code %s, specification %s' % (
                            show_effects(b.effects), show_effects(q.effects))
                    for (i, j) in cand - bad:
                        try:
                            g = self.same(q.value[1][i], b.value[1][j])
                        except Unsupported:
                            bad.add((i, j))
                            continue
                        if not self.valid(as_z3(g), hyp):
                            bad.add((i, j))
            if problem:
                notes.append(problem)
                return None, all_paths
            if not bad:
                break
            cand -= bad
        else:
            return None, []
        m = {}
        for (i, j) in sorted(cand):
            m.setdefault(i, j)
        self.note('coupling invariant: %s' % ', '.join('%r == %r' % (cells[i], partner.cells[j]) for i, j in m.items()))
        return m, all_paths

    def comparable(self, a, b):
        ka, kb = (SBool if isinstance(x, SBool) else SInt if isinstance(x, SInt) else list if isinstance(x, list)
                  else dict if isinstance(x, dict) else tuple if isinstance(x, tuple) else SV for x in (a, b))
        return ka is kb and (ka is not tuple or len(a) == len(b))

    def leave(self, me, s, fr):
        """The state after the loop."""
        self.loops.append(me)
        labels = me.labels
        if not labels:
            raise PathEnd('the loop never ends')
        label = labels[-1]
        for l in labels[:-1]:
            if self.decide(me.exit[l]):
                label = l
                break
        for c, v in zip(me.cells, me.result):
            c.set(list(v) if isinstance(v, list) else v)
        for n in assigned_names(s.body) | target_names(getattr(s, 'target', ast.Tuple(elts=[]))):
            if n in fr.env and not any(c.kind == 'env' and c.name == n and c.obj is fr for c in me.cells):
                fr.env[n] = Poison('%s assigned in a loop' % n)
            elif n not in fr.env:
                fr.env[n] = Poison('%s assigned in a loop' % n)
        if me.effects:
            self.effect('loop', me.token)
        if label == 'done' and s.orelse:
            self.exec_block(s.orelse, fr)
            return
        if label in ('done', 'break'):
            if isinstance(s, ast.While) and not any(p.kind == 'ok' and p.value[0] in ('break',) for p in me.paths) and \
                    not has_break(s):
                t = self.truth_pure(s.test, fr)
                if t is not None:
                    self.assume(Not(t) if not isinstance(t, bool) else not t)
            return
        if label[0] == 'return':
            raise ReturnEx(me.ret[label])
        raise PyRaise(me.ret[label])

    def truth_pure(self, e, fr):
        """Truth of a condition if it can be evaluated without a case split or effects."""
        saved = (self.effects, self.dec, self.loops)
        self.effects, self.loops = [], []
        dec, self.dec = self.dec, None
        try:
            t = self.truth_expr(e, fr)
            if self.effects:
                return None
            return t
        except (Unsupported, MergeAbort, PyRaise):
            return None
        finally:
            (self.effects, self.dec, self.loops) = saved

    # -- comparison

    def same(self, a, b, seen=()):
        if isinstance(a, SymAttr):
            a = a.force()
        if isinstance(b, SymAttr):
            b = b.force()
        if isinstance(a, LazyComp):
            a = self.force_comp(a)
        if isinstance(b, LazyComp):
            b = self.force_comp(b)
        if a is b:
            return True
        if a is MISSING or b is MISSING:
            return False
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('comparison of a lost value: %s' % (a.why if isinstance(a, Poison) else b.why))
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return as_z3(self.truth(a)) == as_z3(self.truth(b))
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)) and not isinstance(a, bool) and \
                not isinstance(b, bool):
            return self.to_int(a) == self.to_int(b)
        if isinstance(a, NTuple) or isinstance(b, NTuple):
            ta = a.tup if isinstance(a, NTuple) else a
            tb = b.tup if isinstance(b, NTuple) else b
            if isinstance(a, NTuple) and isinstance(b, NTuple) and a.cls is not b.cls:
                return False
            if isinstance(ta, tuple) and isinstance(tb, tuple):
                return self.same_items(ta, tb, seen)
            return self.to_v(a) == self.to_v(b)
        if self.unroll is not None and isinstance(a, list) and isinstance(b, list) and has_splat(a) is not has_splat(b):
            a, b = self.settle(a), self.settle(b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and not has_splat(a) and not has_splat(b):
            return type(a) is type(b) and self.same_items(a, b, seen)
        if isinstance(a, dict) and isinstance(b, dict) and (REST in a or REST in b):
            return dict_term(self, a) == dict_term(self, b)
        if isinstance(a, dict) and isinstance(b, dict):
            if list(a) != list(b):
                if set(a) != set(b):
                    return False
            return And([as_z3(self.same(a[k], b[k], seen)) for k in a])
        if isinstance(a, SObj) and isinstance(b, SObj):
            if a.ident == b.ident:
                return True
            if a.cls is not b.cls:
                return False
            if not ((a.meta or {}).get('constructed') and (b.meta or {}).get('constructed')):
                return self.to_v(a) == self.to_v(b)
            if (id(a), id(b)) in seen:
                return True
            s2 = seen + ((id(a), id(b)),)
            ka = {k for k in a.attrs if isinstance(k, str)}
            kb = {k for k in b.attrs if isinstance(k, str)}
            if ka != kb:
                return False
            return And([as_z3(self.same(a.attrs[k], b.attrs[k], s2)) for k in sorted(ka)])
        if not is_sym(a) and not is_sym(b):
            try:
                return bool(type(a) is type(b) and a == b)
            except Exception:
                return False
        return self.to_v(a) == self.to_v(b)

    def same_exception(self, a, b):
        """Of exceptions whose constructor has a contract, the attributes; of others only the class (messages are for people)."""
        ca = a.cls if isinstance(a, SObj) else type(a)
        cb = b.cls if isinstance(b, SObj) else type(b)
        if ca is not cb:
            return False
        if isinstance(a, SObj) and isinstance(b, SObj) and 'args' not in a.attrs and 'args' not in b.attrs and \
                (a.meta or {}).get('constructed') and (b.meta or {}).get('constructed'):
            return self.same(a, b)
        return True

    def same_items(self, a, b, seen):
        if len(a) != len(b):
            return False
        return And([as_z3(self.same(x, y, seen)) for x, y in zip(a, b)])

    def same_effects(self, e1, e2):
        if len(e1) != len(e2):
            return False
        ts = []
        for (g1, p1), (g2, p2) in zip(e1, e2):
            if len(p1) != len(p2):
                return False
            for x, y in zip(p1, p2):
                t = self.same(x, y)
                if t is False:
                    return False
                ts.append(as_z3(t))
        return And(ts) if ts else True

    # -- solver

    def solve(self, conds, timeout=None):
        s = z3.Solver()
        s.set('timeout', timeout or self.valid_timeout)
        ctx, handle = s.ctx.ref(), s.solver
        for f in self.facts:
            z3.Z3_solver_assert(ctx, handle, f.ast)
        s.add(list(self.pc_conds))
        s.add(list(conds))
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.n_valid += 1
        return r, s

    def satisfiable(self, conds):
        return self.solve(conds)[0] != z3.unsat

    def valid(self, t, hyp=()):
        if isinstance(t, bool):
            if t:
                return True
            t = z3.BoolVal(False)
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        return self.solve(list(hyp) + [z3.Not(t)])[0] == z3.unsat


def snapshot(v):
    """The value with the lists in it as they are now (a loop's cells are put back after its body)."""
    if type(v) is list:
        return [snapshot(x) for x in v]
    if type(v) is tuple:
        return tuple(snapshot(x) for x in v)
    return v


def has_break(s):
    def scan(n, in_loop):
        if isinstance(n, ast.Break) and not in_loop:
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            return False
        loop = in_loop or isinstance(n, (ast.For, ast.While))
        return any(scan(c, loop) for c in ast.iter_child_nodes(n))
    return any(scan(x, False) for x in s.body)


def show_effects(effs):
    return str([p for _, p in effs])[:300]


def as_z3int(x):
    return x.t if isinstance(x, SInt) else z3.IntVal(x)


# -- builtins on partly opaque lists

def r_len(e, a, k):
    x = a[0]
    if isinstance(x, dict) and REST in x:
        raise Unsupported('length of an opaque dictionary')
    if isinstance(x, LazyComp):
        raise PyRaise(TypeError('no len'))
    if has_splat(x):
        t = z3.IntVal(sum(1 for y in x if not isinstance(y, Splat)))
        for y in x:
            if isinstance(y, Splat):
                e.fact(LEN(y.t) >= 0)
                e.fact((LEN(y.t) > 0) == TRUTH(y.t))
                t = t + LEN(y.t)
        return SInt(z3.simplify(t))
    return BUILTINS[len](e, x)


def r_list(e, a, k):
    if not a:
        return e.born([])
    x = e.iter_value(a[0])
    if isinstance(x, LazyComp):
        x = e.force_comp(x)
    if isinstance(x, SV):
        return e.born([Splat(x.t, x.hint.get('elem') if isinstance(x.hint, dict) else None)])
    if isinstance(x, Seq):
        return e.born([Splat(e.to_v(x))])
    if isinstance(x, SComp):
        return e.born([Splat(e.comp_v(x))])
    return e.born(list(x))


def r_tuple(e, a, k):
    if not a:
        return ()
    return tuple(r_list(e, a, k))


def r_set(e, a, k):
    if not a:
        return e.born(set())
    x = a[0]
    if isinstance(x, SymSet):
        return x
    x = e.iter_value(x)
    if isinstance(x, LazyComp):
        x = e.force_comp(x)
    if isinstance(x, (SV, Seq)) or has_splat(x):
        return e.app('set_of', [x])
    if is_sym(list(x)):
        return SymSet(x)
    return e.born(set(x))


def element(e, x, name):
    """Factory of the element of an opaque iterable."""
    kind, terms, make = e.source_of(x)
    return kind, terms, make


def r_enumerate(e, a, k):
    x = e.iter_value(a[0])
    start = a[1] if len(a) > 1 else k.get('start', 0)
    if isinstance(x, LazyComp):
        x = e.force_comp(x)
    if isinstance(x, (SV, Seq)) or has_splat(x):
        kind, terms, make = e.source_of(x)

        def mk(eng):
            i = eng.fresh('idx', I)
            eng.fact(i >= as_z3int(start))
            return (SInt(i), make(eng))
        return Seq('enumerate_' + kind, terms + [as_z3int(start)], mk, e.empty_term(x))
    return BUILTINS[enumerate](e, x, start)


def r_zip(e, a, k):
    xs = [e.iter_value(x) for x in a]
    xs = [e.force_comp(x) if isinstance(x, LazyComp) else x for x in xs]
    if any(isinstance(x, (SV, Seq)) or has_splat(x) for x in xs):
        parts = []
        for x in xs:
            if isinstance(x, (SV, Seq)) or has_splat(x):
                parts.append(e.source_of(x))
            else:
                raise Unsupported('zip of an opaque and a known sequence')
        terms = [t for _, ts, _ in parts for t in ts]
        return Seq('zip', terms, lambda eng: tuple(m(eng) for _, _, m in parts))
    return GenList(list(zip(*xs)))


def r_range(e, a, k):
    if any(is_sym(x) for x in a):
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        step = a[2] if len(a) > 2 else 1
        if not isinstance(step, int) or step < 1:
            raise Unsupported('range with such a step')
        l, h = as_z3int(lo), as_z3int(hi)
        if e.unroll is not None:
            out = []
            while e.decide(l + len(out) * step < h):
                if len(out) == e.unroll:
                    raise PathEnd('longer than the bound')
                out.append(SInt(z3.simplify(l + len(out) * step)))
            return GenList(out)

        def mk(eng):
            i = eng.fresh('idx', I)
            eng.fact(z3.And(i >= l, i < h, (i - l) % step == 0))
            return SInt(i)
        if step != 1:
            return Seq('range%d' % step, [l, h], mk)
        return Seq('range', [l, h], mk)
    return range(*a)


def r_reversed(e, a, k):
    x = e.iter_value(a[0])
    if isinstance(x, SV):
        return SV(fn('reversed', [V], V)(x.t), x.hint)
    if has_splat(x):
        if len(x) == 1:
            return SV(fn('reversed', [V], V)(x[0].t), {'elem': x[0].hint})
        raise Unsupported('reversed')
    return GenList(list(reversed(list(x))))


# ------------------------------------------------------------------------------------------------

def prove(eng, name, code, spec, report, timeout=10000, hints=None):
    """One obligation per path of `code`: it ends exactly as `spec` requires.

    code, spec: thunks building fresh inputs and calling; report(name, status, seconds, detail, model)."""
    t0 = time.time()
    try:
        eng.partners = None
        saved_facts = None
        code_paths = eng.nested(code)
    except (Unsupported, MergeAbort, Restart, RecursionError) as e:
        report(name + ': extraction', 'undecided', time.time() - t0, 'outside the verified subset: %s' % e, None)
        return
    if eng.solve([Or([p.cond for p in code_paths])], timeout)[0] == z3.unsat:
        report(name + ': vacuous', 'undecided', time.time() - t0, 'the assumptions are contradictory', None)
        return
    for n, p in enumerate(code_paths):
        t1 = time.time()
        label = '%s: path %d/%d%s' % (name, n + 1, len(code_paths), '' if p.kind != 'raise' else ' (raises)')
        eng.failures = []
        try:
            eng.partners = p.extra
            spec_paths = eng.nested(spec, [p.cond])
        except (Unsupported, MergeAbort, Restart, RecursionError) as e:
            report(label, 'undecided', time.time() - t1, 'specification outside the subset: %s' % e, None)
            continue
        finally:
            eng.partners = None
        status, detail, model = 'discharged', '', None
        if p.kind == 'raise' and isinstance(p.value, (AttributeError, NameError)) and \
                eng.solve([p.cond], timeout)[0] != z3.unsat:
            # the model of the inputs lacks something this version of the code uses
            status, detail = 'undecided', repr(p.value)
            spec_paths = []
        for q in spec_paths:
            eng.same_hyp = [p.cond, q.cond]
            try:
                if (p.kind == 'raise') != (q.kind == 'raise'):
                    goal, why = False, 'code ends with %s %r, specification with %s %r' % (p.kind, p.value, q.kind, q.value)
                elif p.kind == 'raise':
                    ca = p.value.cls if isinstance(p.value, SObj) else type(p.value)
                    cb = q.value.cls if isinstance(q.value, SObj) else type(q.value)
                    goal, why = eng.same_exception(p.value, q.value), 'code raises %s, specification %s (%r / %r)' % (
                        ca.__name__, cb.__name__, getattr(p.value, 'attrs', ''), getattr(q.value, 'attrs', ''))
                else:
                    goal = eng.same(p.value, q.value)
                    why = 'different result or state: code %s / specification %s' % (
                        str(p.value)[:400], str(q.value)[:400])
                e = eng.same_effects(p.effects, q.effects)
            except Unsupported as exc:
                status, detail = 'undecided', str(exc)
                break
            for g, w in ((goal, why), (e, 'different effects: code %s / specification %s' % (
                    show_effects(p.effects), show_effects(q.effects)))):
                g = as_z3(g) if not isinstance(g, bool) else z3.BoolVal(g)
                r, s = eng.solve([p.cond, q.cond, z3.Not(g)], timeout)
                if r == z3.unsat:
                    continue
                status = 'refuted' if r == z3.sat else 'undecided'
                detail = w + ('; path condition: %s' % str(z3.simplify(p.cond))[:1500])
                if r == z3.sat:
                    model = s.model()
                break
            if status != 'discharged':
                break
        if status == 'refuted' and any('no loop over the same sequence' in f for f in eng.failures):
            # the loops of the code are arranged otherwise than the specification's: nothing is known
            status = 'undecided'
        if status == 'refuted' and p.extra and not eng.failures:
            detail = 'after a loop: ' + detail
        if status != 'discharged' and eng.failures:
            detail = '; '.join(eng.failures[:3]) + '; ' + detail
        if not spec_paths and status == 'discharged' and eng.unroll is None:
            # the specification has no path here: only acceptable if the code path is impossible
            r, _ = eng.solve([p.cond], timeout)
            if r != z3.unsat:
                status, detail = 'undecided', 'the specification does not end'
        report(label, status, time.time() - t1, detail, model)
    if eng.solve([Or([p.cond for p in code_paths])], timeout)[0] == z3.unsat:
        report(name + ': vacuous', 'undecided', time.time() - t0, 'the assumptions became contradictory', None)
