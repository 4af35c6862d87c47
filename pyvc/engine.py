"""Symbolic interpreter / VC generator over the AST of live functions.  See DESIGN.md section "pyvc"."""
import ast
import builtins
import datetime
import enum
import functools
import inspect
import operator
import string
import os
import types

import z3

from pyvc.terms import (SBool, SInt, SV, SObj, SComp, Sym, Closure, Bound, Poison,
                        V, B, I, TRUTH, V2I, I2V, LITID, MEM, LT, LEN, fn, const)


class Unsupported(Exception):
    """The construct is outside the engine's subset: the obligation stays undischarged."""


class MergeAbort(Exception):
    pass


class Restart(Exception):
    """A new unmergeable point was found: decision prefixes are stale, start over."""


class PyRaise(Exception):
    """An exception raised by the interpreted code."""

    def __init__(self, exc):
        Exception.__init__(self, repr(exc))
        self.exc = exc


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PathEnd(Exception):
    """Path cut by a loop invariant (back edge proved) or by an infeasible assumption."""


# ------------------------------------------------------------------------------------------------
# Source index: live code object -> AST node

_modules = {}


def module_index(filename):
    if filename not in _modules:
        with open(filename, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, filename)
        index = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                first = node.lineno
                if isinstance(node, ast.FunctionDef) and node.decorator_list:
                    first = min(first, min(d.lineno for d in node.decorator_list))
                name = node.name if isinstance(node, ast.FunctionDef) else '<lambda>'
                index.setdefault((first, name), []).append(node)
        _modules[filename] = (tree, index, src)
    return _modules[filename]


def node_for(func):
    code = func.__code__
    _, index, _ = module_index(code.co_filename)
    nodes = index.get((code.co_firstlineno, code.co_name), [])
    if not nodes:
        raise Unsupported('no source for %r' % func)
    if len(nodes) == 1:
        return nodes[0]
    # several lambdas on one line: distinguish by column of the body
    for n in nodes:
        for (l1, _, c1, _) in code.co_positions():
            if l1 is not None and isinstance(n, ast.Lambda) and \
                    n.body.lineno == l1 and n.body.col_offset == c1:
                return n
    return nodes[0]


def is_generator_node(node):
    if isinstance(node, ast.Lambda):
        return False
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Frame:
    __slots__ = ('env', 'globals', 'outer', 'func', 'yields', 'cells', 'loop_no', 'qualname', 'exc', 'nonlocals')

    def __init__(self, env, globals_, outer=None, func=None, cells=None, qualname='?'):
        self.env = env
        self.globals = globals_
        self.outer = outer
        self.func = func
        self.cells = cells or {}
        self.yields = None
        self.qualname = qualname
        self.exc = None
        self.nonlocals = ()


class Dec:
    """Decision context of one exploration."""
    __slots__ = ('prefix', 'pos', 'stack', 'conds', 'taken')

    def __init__(self, prefix, stack):
        self.prefix = prefix
        self.pos = 0
        self.stack = stack
        self.conds = []
        self.taken = []


class Path:
    __slots__ = ('cond', 'kind', 'value', 'effects', 'extra')

    def __init__(self, cond, kind, value, effects, extra=None):
        self.cond, self.kind, self.value, self.effects, self.extra = cond, kind, value, effects, extra


def And(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return z3.BoolVal(True)
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def Or(xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if not xs:
        return z3.BoolVal(False)
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def as_z3(t):
    if isinstance(t, bool):
        return z3.BoolVal(t)
    return t


def Not(t):
    if isinstance(t, bool):
        return not t
    if z3.is_not(t):
        return t.arg(0)
    return z3.Not(t)


class _CI(str):
    """A case-insensitive literal."""
    def __eq__(self, other):
        return str(self).lower() == str(other).lower()

    def __hash__(self):
        return hash(str(self).lower())


class _Missing:
    def __repr__(self):
        return 'MISSING'


MISSING = _Missing()

# Positional index of the fields of the library's named tuples, so that x.item and unpacking agree.
FIELD_INDEX = {'item': 0, 'param': 1, 'version': 1, 'weak': 0, 'opaque_tag': 1, 'code': 0, 'agent': 1,
               'text': 2, 'date': 3, 'unit': 0, 'ranges': 1}

CONCRETE_OK = (type(None), bool, int, float, str, bytes, complex, type, types.FunctionType,
               types.BuiltinFunctionType, types.ModuleType, range, frozenset)

_BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
           ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow,
           ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.BitOr: operator.or_,
           ast.BitXor: operator.xor, ast.BitAnd: operator.and_}
_OPNAMES = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv',
            ast.Mod: 'mod', ast.Pow: 'pow', ast.LShift: 'lshift', ast.RShift: 'rshift', ast.BitOr: 'or',
            ast.BitXor: 'xor', ast.BitAnd: 'and'}


def is_sym(x, depth=3):
    """Does x contain symbolic parts?"""
    if isinstance(x, (Sym, Closure, Bound)):
        if isinstance(x, Bound):
            return is_sym(x.self_, depth)
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(is_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(is_sym(y, depth - 1) for y in x.values()) or any(is_sym(y, depth - 1) for y in x.keys())
    return False


class Engine:

    def __init__(self, merge=True, timeout=4000, inline=None):
        self.merge = merge
        self.contracts = {}         # function object / code / class / name -> handler(engine, args, kwargs)
        self.attr_contracts = {}    # (class, attr) -> handler(engine, obj)
        self.stand_in = {}          # id of a module-level object -> the ghost object that stands for it
        self.method_contracts = {}  # name of a method of opaque values -> handler(engine, obj, args, kwargs)
        self.loop_specs = {}        # (qualname, ordinal) -> LoopSpec
        self.opaque = set()         # functions to treat as uninterpreted pure functions
        self.inline_ok = inline or (lambda func: (func.__module__ or '').startswith('httpolice'))
        self.solver = z3.Solver()
        self.solver.set('timeout', 400)
        self.light = merge          # feasibility checks ignore quantified facts and conditions
        self.proxies = {}
        self.format_parts = {}
        self.pc = []
        self.pc_conds = []
        self.dec = None
        self.effects = []
        self.non_null_ops = None
        self.lits = {}
        self.lit_by_name = {}
        self.lit_objs = []
        self.preds = {}
        self.facts = []
        self.fact_ids = set()
        self.keep = []
        self.nest = 0
        self.binder_depth = 0
        self.births = {}
        self.no_merge = {}
        self.counter = 0
        self.used_uf = {}
        self.n_checks = 0
        self.depth = 0
        self.loop_counters = {}
        self.paths_done = 0
        self.appends = None
        self.max_paths = 4000
        self.unsupported_calls = set()
        self.pure_cache = {}
        self.notes = []
        self.implied_cache = {}
        self.assumed = set()

    # -------------------------------------------------------------------------------------------
    # facts, literals, terms

    def fact(self, t):
        if isinstance(t, bool):
            t = z3.BoolVal(t)
        if t.get_id() in self.fact_ids:
            return
        self.fact_ids.add(t.get_id())       # (the list keeps the term alive, so its id stays its own)
        self.facts.append(t)
        if not self.light or not has_quant(t):
            self.solver.add(t)

    def note(self, msg):
        self.notes.append(msg)

    def fresh(self, prefix, sort=V):
        self.counter += 1
        return const('%s!%d' % (prefix, self.counter), sort)

    def lit(self, x):
        if isinstance(x, bool) or x is None:
            key = ('c', repr(x))
        elif isinstance(x, int):
            return self.i2v(z3.IntVal(int(x)))
        elif isinstance(x, str):
            ci = getattr(type(x), '__eq__') is not str.__eq__
            key = ('s', str(x).lower() if ci else str(x))
        elif isinstance(x, bytes):
            key = ('y', x)
        elif isinstance(x, float):
            key = ('f', x)
        elif isinstance(x, enum.Enum):
            key = ('s', 'enum:' + x.name)
        elif isinstance(x, (datetime.timedelta, datetime.datetime)):
            key = ('d', x)
        else:
            key = ('o', id(x))
            self.keep.append(x)
        if key not in self.lits:
            k = len(self.lits)
            c = const('lit%d_%s' % (k, repr(x)[:40]))
            self.lits[key] = c
            self.lit_by_name[c.decl().name()] = x
            self.fact(LITID(c) == k)
            try:
                self.fact(TRUTH(c) == bool(x))
            except Exception:
                pass
            for pname, (cls, p) in self.preds.items():
                self.fact(p(c) == isinstance(x, cls))
            self.lit_objs.append((c, x))
        return self.lits[key]

    def i2v(self, t):
        v = I2V(t)
        k = ('i', v.get_id())
        if k not in self.lits:
            self.lits[k] = v
            self.keep.append(v)
            if not has_free_binder(v):
                self.fact(V2I(v) == t)
                self.fact(LITID(v) == -1)
                self.fact(TRUTH(v) == (t != 0))
                if z3.is_int_value(t):
                    for pname, (cls, p) in self.preds.items():
                        self.fact(p(v) == isinstance(t.as_long(), cls))
                    self.lit_objs.append((v, t.as_long()))
        return v

    def pred(self, cls):
        name = 'is_' + cls.__name__
        if name not in self.preds:
            p = fn(name, [V], B)
            self.preds[name] = (cls, p)
            for (c, x) in self.lit_objs:
                self.fact(p(c) == isinstance(x, cls))
        return self.preds[name][1]

    def to_v(self, x):
        if isinstance(x, SV):
            return x.t
        if isinstance(x, SInt):
            return self.i2v(x.t)
        if isinstance(x, SBool):
            return z3.If(x.t, self.lit(True), self.lit(False))
        if isinstance(x, SObj):
            if x.meta is not None and 'v' in x.meta:
                return x.meta['v']
            c = const('obj_' + x.ident)
            if ('obj', x.ident) not in self.lits:
                self.lits[('obj', x.ident)] = c
                self.fact(LITID(c) == -3)
                self.fact(c != self.lit(None))
            return c
        if isinstance(x, SComp):
            return self.comp_v(x)
        if isinstance(x, Poison):
            raise Unsupported(x.why)
        if isinstance(x, (tuple, list)):
            if isinstance(x, list) and not x:
                return self._empty('list')
            f = fn('%s%d' % ('list' if isinstance(x, list) else 'tuple', len(x)), [V] * len(x), V)
            t = f(*[self.to_v(y) for y in x]) if len(x) else self._empty('tuple')
            if len(x) and not has_free_binder(t):
                k = ('t', t.get_id())
                if k not in self.lits:
                    self.lits[k] = t
                    self.keep.append(t)
                    self.fact(TRUTH(t))
                    self.fact(LITID(t) == -2)
                    self.fact(LEN(t) == len(x))
                    for i, y in enumerate(x):
                        self.fact(fn('getitem%d' % i, [V], V)(t) == self.to_v(y))
            return t
        if isinstance(x, (dict, set)):
            if not x:
                return self._empty(type(x).__name__)
            if isinstance(x, dict):
                return self.to_v(('dict',) + tuple(x.items()))
            return self.to_v(('set',) + tuple(sorted(x, key=repr)))
        if isinstance(x, Closure) or isinstance(x, Bound):
            raise Unsupported('function value %r used as data' % x)
        return self.lit(x)

    def _empty(self, kind):
        key = ('empty', kind)
        if key not in self.lits:
            c = const('empty_' + kind)
            self.lits[key] = c
            self.lit_by_name[c.decl().name()] = {'list': [], 'tuple': (), 'dict': {}, 'set': set()}[kind]
            self.fact(LITID(c) == -10 - len(kind))
            self.fact(z3.Not(TRUTH(c)))
            self.fact(LEN(c) == 0)
            self.lit_objs.append((c, {'list': [], 'tuple': (), 'dict': {}, 'set': set()}[kind]))
            for pname, (cls, p) in self.preds.items():
                self.fact(p(c) == isinstance(self.lit_by_name[c.decl().name()], cls))
        return self.lits[key]

    def comp_v(self, x):
        skip = self.lit('<skip>')
        body = z3.If(x.cond, self.to_v(x.val), skip)
        lam = z3.Lambda(x.binders, body)
        f = fn('filtermap%d' % len(x.binders), [V, lam.sort()], V)
        t = f(x.source, lam)
        if not has_free_binder(t):
            k = ('cv', t.get_id())
            if k not in self.lits:
                self.lits[k] = t
                self.keep.append(t)
                self.fact(TRUTH(t) == z3.Exists(x.binders, x.cond))
                self.fact((LEN(t) > 0) == TRUTH(t))
                self.fact(t != self.lit(None))
                self.fact(LEN(t) >= 0)
        return t

    def app(self, name, args, hint=None, rng=V):
        vs = [self.to_v(a) for a in args]
        f = fn(name, [V] * len(vs), rng)
        self.used_uf[name] = self.used_uf.get(name, 0) + 1
        if not vs:
            t = const(name, rng)
        else:
            t = f(*vs)
        if rng is V:
            return SV(t, hint)
        if rng is B:
            return SBool(t)
        return SInt(t)

    # -------------------------------------------------------------------------------------------
    # decisions

    def proxy(self, t):
        key = t.get_id()
        p = self.proxies.get(key)
        if p is None:
            p = const('p!%d' % len(self.proxies), B)
            self.solver.add(z3.Implies(p, t))
            self.proxies[key] = p
            self.keep.append(t)
        return p

    def check(self, extra=()):
        self.n_checks += 1
        conds = list(self.pc_conds) + list(extra)
        if self.light:
            conds = [c for c in conds if not has_quant(c)]
        return self.solver.check(*[self.proxy(c) for c in conds])

    def implied(self, t):
        """True/False if t is decided by the path condition, else None."""
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.light and has_quant(t):
            return None
        key = (t.get_id(),) + tuple(c.get_id() for c in self.pc_conds)
        if key in self.implied_cache:
            return self.implied_cache[key][0]
        k = None
        if self.check([t]) == z3.unsat:
            k = False
        elif self.check([z3.Not(t)]) == z3.unsat:
            k = True
        self.implied_cache[key] = (k, t, tuple(self.pc_conds))
        return k

    def assume(self, t):
        if isinstance(t, bool):
            if not t:
                raise PathEnd('assume False')
            return
        self.pc_conds.append(t)
        if self.dec is not None:
            self.dec.conds.append(t)

    def decide(self, t):
        if isinstance(t, SBool):
            t = t.t
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        d = self.dec
        if d is None:
            raise Unsupported('decision outside exploration')
        if d.pos < len(d.prefix):
            b = d.prefix[d.pos]
            d.pos += 1
            d.taken.append(b)
            if b is True or b is False:
                self.assume(t if b else z3.Not(t))
                return b
            return b[0]         # forced
        k = self.implied(t)
        if k is not None:
            d.pos += 1
            d.taken.append((k,))
            return k
        d.stack.append(d.taken + [False])
        d.taken.append(True)
        d.pos += 1
        self.assume(t)
        return True

    def nested(self, thunk, assume=()):
        """Explore every path of thunk() under the current path condition; returns a list of Path."""
        out = []
        stack = [[]]
        saved = (self.dec, self.pc_conds, self.effects, self.nest, self.loop_counters)
        n = 0
        try:
            self.nest += 1
            while stack:
                n += 1
                if n > self.max_paths:
                    raise Unsupported('too many paths')
                prefix = stack.pop()
                self.dec = Dec(prefix, stack)
                self.pc_conds = list(saved[1])
                self.effects = []
                self.loop_counters = dict(saved[4])
                for a in assume:
                    self.pc_conds.append(a)
                kind, value = 'ok', None
                try:
                    value = thunk()
                except ReturnEx as e:
                    kind, value = 'return', e.value
                except BreakEx:
                    kind = 'break'
                except ContinueEx:
                    kind = 'continue'
                except PyRaise as e:
                    kind, value = 'raise', e.exc
                except PathEnd:
                    continue
                out.append(Path(And(self.dec.conds), kind, value, self.effects))
        finally:
            (self.dec, self.pc_conds, self.effects, self.nest, self.loop_counters) = saved
        return out

    def explore(self, thunk):
        """Top-level exploration."""
        assert self.dec is None
        for _ in range(200):
            try:
                return self.nested(thunk)
            except Restart:
                pass
        raise Unsupported('too many restarts')

    # -------------------------------------------------------------------------------------------
    # effects and mutation

    def effect(self, *payload):
        self.effects.append((z3.BoolVal(True), payload))

    def add_effects(self, effs, guard):
        for (g, payload) in effs:
            self.effects.append((And([guard, g]), payload))

    def born(self, obj):
        self.births[id(obj)] = self.nest
        self.keep.append(obj)
        return obj

    def mutate(self, obj):
        if self.births.get(id(obj), 0) < self.nest and self.nest > 1:
            raise MergeAbort('mutation of outer object')

    # -------------------------------------------------------------------------------------------
    # basic operations

    def truth(self, x):
        """-> bool or z3 Bool"""
        if isinstance(x, SBool):
            return x.t
        if isinstance(x, SInt):
            return x.t != 0
        if isinstance(x, SV):
            return TRUTH(x.t)
        if isinstance(x, SComp):
            if x.flag == 'gen':
                return True
            return z3.Exists(x.binders, x.cond)
        if isinstance(x, SObj):
            m = self.class_attr(x.cls, '__bool__')
            if m is not MISSING:
                return self.truth(self.call(Bound(x, m), [], {}))
            m = self.class_attr(x.cls, '__len__')
            if m is not MISSING:
                return self.truth(self.call(Bound(x, m), [], {}))
            return True
        if isinstance(x, (Closure, Bound)):
            return True
        if isinstance(x, Poison):
            raise Unsupported(x.why)
        return bool(x)

    def eq(self, a, b):
        """-> bool or z3 Bool (Python ==)"""
        if not is_sym(a) and not is_sym(b):
            return bool(a == b)
        if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
            if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
                return self.to_int(a) == self.to_int(b)
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                return as_z3(self.truth(a)) == as_z3(self.truth(b))
        for (x, y) in ((a, b), (b, a)):
            if isinstance(x, SObj):
                m = self.class_attr(x.cls, '__eq__')
                if isinstance(m, types.FunctionType) and self.inline_ok(m):
                    r = self.call(Bound(x, m), [y], {})
                    if r is NotImplemented:
                        continue
                    return self.truth(r)
        if isinstance(a, SObj) and isinstance(b, SObj):
            return z3.simplify(self.to_v(a) == self.to_v(b)) if a is not b else True
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and \
                isinstance(a, tuple) == isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And([as_z3(self.eq(x, y)) for x, y in zip(a, b)])
        for (x, y) in ((a, b), (b, a)):
            if isinstance(x, SV) and x.hint is not None and not isinstance(y, (tuple, list, SV, SComp)):
                h = x.hint.get('eq_field') if isinstance(x.hint, dict) else None
                if h:
                    return self.eq(self.getattr(x, h), y)
        for (x, y) in ((a, b), (b, a)):
            if isinstance(x, SComp):
                if x.flag in ('set', 'list', 'gen') and isinstance(y, (set, frozenset)) and not is_sym(y):
                    return self.comp_set_eq(x, y)
                return self.eq(SV(self.comp_v(x)), y)
        for (x, y) in ((a, b), (b, a)):
            if isinstance(x, SV) and isinstance(x.hint, dict) and x.hint.get('ci') and isinstance(y, str):
                return x.t == self.lit(_CI(y))
        return self.to_v(a) == self.to_v(b)

    def comp_set_eq(self, c, items):
        return And([self.comp_subset(c, items)] + [as_z3(self.contains(c, y)) for y in items])

    def comp_subset(self, c, items):
        c = self.open_comp(c)
        self.binder_depth += len(c.binders)
        try:
            t = Or([as_z3(self.eq(c.val, y)) for y in items])
        finally:
            self.binder_depth -= len(c.binders)
        return z3.ForAll(c.binders, z3.Implies(c.cond, t))

    def to_int(self, x):
        if isinstance(x, SInt):
            return x.t
        if isinstance(x, bool):
            return z3.IntVal(int(x))
        if isinstance(x, int):
            return z3.IntVal(int(x))
        if isinstance(x, SV):
            return V2I(x.t)
        if isinstance(x, SBool):
            return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported('not an int: %r' % (x,))

    def is_(self, a, b):
        for x in (a, b):
            if isinstance(x, Poison):
                raise Unsupported(x.why)
        if isinstance(a, SBool) and isinstance(b, bool):
            return a.t if b else Not(a.t)
        if isinstance(b, SBool) and isinstance(a, bool):
            return b.t if a else Not(b.t)
        if isinstance(a, SV) or isinstance(b, SV):
            if isinstance(a, (Closure, Bound)) or isinstance(b, (Closure, Bound)):
                return False
            return self.to_v(a) == self.to_v(b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            return a is b
        return a is b

    def cmp(self, op, a, b):
        """-> bool or z3 Bool"""
        t = type(op)
        if t is ast.Is:
            return self.is_(a, b)
        if t is ast.IsNot:
            return Not(self.is_(a, b))
        if t is ast.Eq:
            return self.eq(a, b)
        if t is ast.NotEq:
            for (x, y) in ((a, b), (b, a)):
                if isinstance(x, SObj):
                    m = self.class_attr(x.cls, '__ne__')
                    if isinstance(m, types.FunctionType) and self.inline_ok(m):
                        r = self.call(Bound(x, m), [y], {})
                        if r is NotImplemented:
                            continue
                        return self.truth(r)
            return Not(self.eq(a, b))
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            return Not(self.contains(b, a))
        names = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}
        refl = {ast.Lt: '__gt__', ast.LtE: '__ge__', ast.Gt: '__lt__', ast.GtE: '__le__'}
        if not is_sym(a) and not is_sym(b):
            return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
                    ast.GtE: operator.ge}[t](a, b)
        for (x, y, n) in ((a, b, names[t]), (b, a, refl[t])):
            if isinstance(x, SObj):
                m = self.class_attr(x.cls, n)
                if isinstance(m, types.FunctionType) and self.inline_ok(m):
                    r = self.call(Bound(x, m), [y], {})
                    if r is NotImplemented:
                        continue
                    return self.truth(r)
        if isinstance(a, (set, frozenset)) or isinstance(b, (set, frozenset)):
            raise Unsupported('set comparison')
        if isinstance(a, (SInt, int)) or isinstance(b, (SInt, int)) :
            x, y = self.to_int(a), self.to_int(b)
            return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[t]
        x, y = self.to_v(a), self.to_v(b)
        if t is ast.Lt:
            return LT(x, y)
        if t is ast.Gt:
            return LT(y, x)
        if t is ast.LtE:
            return z3.Not(LT(y, x))
        return z3.Not(LT(x, y))

    def contains(self, cont, x):
        if isinstance(cont, (list, tuple, set, frozenset, dict, range)) and \
                (is_sym(cont) or is_sym(x)):
            ts = [as_z3(self.eq(y, x)) for y in cont]
            return Or(ts) if ts else False
        if isinstance(cont, SComp):
            c = self.open_comp(cont)
            self.binder_depth += len(c.binders)
            try:
                t = self.eq(c.val, x)
            finally:
                self.binder_depth -= len(c.binders)
            return z3.Exists(c.binders, And([c.cond, as_z3(t)]))
        if isinstance(cont, SObj):
            m = self.class_attr(cont.cls, '__contains__')
            if m is not MISSING:
                return self.truth(self.call(Bound(cont, m), [x], {}))
            m = self.class_attr(cont.cls, '__iter__')
            if m is not MISSING:
                return self.contains(self.call(Bound(cont, m), [], {}), x)
            raise Unsupported('contains %r' % cont)
        if isinstance(cont, SV):
            h = cont.hint.get('elem') if isinstance(cont.hint, dict) else None
            if isinstance(h, dict) and h.get('eq_field') and not isinstance(x, tuple):
                return self.contains(self.iter_sym(cont), x)
            return MEM(self.to_v(x), cont.t)
        if not is_sym(x):
            return x in cont
        # symbolic key in a concrete library object (Knowledge and such)
        m = self.class_attr(type(cont), '__contains__')
        if isinstance(m, types.FunctionType):
            return self.truth(self.call(Bound(cont, m), [x], {}))
        if isinstance(cont, (str, bytes)):
            return TRUTH(self.app('contains_in', [cont, x]).t)
        raise Unsupported('%r in %r' % (x, cont))

    # -- SComp plumbing

    def fresh_binders(self, n):
        return [const('e!%d' % (self.binder_depth + k)) for k in range(n)]

    def open_comp(self, c):
        """Rename the binders of c for the current binder depth."""
        new = self.fresh_binders(len(c.binders))
        pairs = [(o, n) for o, n in zip(c.binders, new) if not o.eq(n)]
        if not pairs:
            return c
        return SComp(new, z3.substitute(c.cond, *pairs), self.subst(c.val, pairs), c.source, c.flag)

    def subst(self, x, pairs):
        if not pairs:
            return x
        if isinstance(x, SV):
            return SV(z3.substitute(x.t, *pairs), x.hint)
        if isinstance(x, SBool):
            return SBool(z3.substitute(x.t, *pairs))
        if isinstance(x, SInt):
            return SInt(z3.substitute(x.t, *pairs), x.cls)
        if isinstance(x, tuple):
            return tuple(self.subst(y, pairs) for y in x)
        if isinstance(x, list):
            return [self.subst(y, pairs) for y in x]
        if isinstance(x, SComp):
            inner = [p for p in pairs if not any(p[0].eq(b) for b in x.binders)]
            if not inner:
                return x
            return SComp(x.binders, z3.substitute(x.cond, *inner), self.subst(x.val, inner),
                         z3.substitute(x.source, *inner), x.flag)
        if isinstance(x, SObj):
            if x.meta and 'rebuild' in x.meta:
                return x.meta['rebuild'](z3.substitute(x.meta['key'], *pairs))
            if not is_sym(x.attrs, 2):
                return x
            return x
        return x

    def iter_sym(self, x):
        """-> a Python list (finite, known shape) or an SComp."""
        if isinstance(x, Poison):
            raise Unsupported(x.why)
        if isinstance(x, (list, tuple, range)):
            return list(x)
        if isinstance(x, (str, bytes)):
            return list(x)
        if isinstance(x, (dict,)):
            return list(x)
        if isinstance(x, (set, frozenset)):
            return sorted(x, key=repr)
        if isinstance(x, SComp):
            return x
        if isinstance(x, SV):
            h = x.hint.get('elem') if isinstance(x.hint, dict) else None
            b = self.fresh_binders(1)
            return SComp(b, MEM(b[0], x.t), SV(b[0], h), x.t)
        if isinstance(x, SObj):
            m = self.class_attr(x.cls, '__iter__')
            if m is MISSING:
                raise Unsupported('iterating %r' % x)
            return self.iter_sym(self.call(Bound(x, m), [], {}))
        m = self.class_attr(type(x), '__iter__')
        if isinstance(m, types.FunctionType) and self.inline_ok(m):
            return self.iter_sym(self.call(Bound(x, m), [], {}))
        if hasattr(x, '__iter__'):
            return list(x)
        raise Unsupported('iterating %r' % (x,))

    # -------------------------------------------------------------------------------------------
    # attributes

    def class_attr(self, cls, name):
        if not isinstance(cls, type):
            return MISSING
        for k in cls.__mro__:
            if name in k.__dict__:
                v = k.__dict__[name]
                if k is object:
                    return MISSING
                return v
        return MISSING

    def getattr(self, x, name):
        if isinstance(x, Poison):
            raise Unsupported(x.why)
        if isinstance(x, SObj):
            key = None
            for k in getattr(x.cls, '__mro__', ()):
                if (k, name) in self.attr_contracts:
                    key = (k, name)
                    break
            if key:
                return self.attr_contracts[key](self, x)
            ca = self.class_attr(x.cls, name)
            if isinstance(ca, property):
                return self.get_property(ca, x)
            if name in x.attrs:
                return x.attrs[name]
            if x.lazy is not None:
                r = x.lazy(self, x, name)
                if r is not NotImplemented:
                    x.attrs[name] = r
                    return r
            if name == '__class__':
                return x.cls
            if ca is not MISSING:
                return self.bind(ca, x, x.cls)
            ga = self.class_attr(x.cls, '__getattr__')
            if ga is not MISSING:
                return self.call(Bound(x, ga), [name], {})
            if (x.meta or {}).get('external') or stand_in(x.cls):
                raise Unsupported('attribute %s of a %s is not modelled' % (name, x.cls.__name__))
            raise PyRaise(AttributeError(name))
        if isinstance(x, SInt):
            ca = self.class_attr(x.cls, name)
            if isinstance(ca, property):
                return self.get_property(ca, x)
            if ca is not MISSING:
                return self.bind(ca, x, x.cls)
            return self.app('attr_' + name, [x])
        if isinstance(x, SV):
            if isinstance(x.hint, dict):
                if name in x.hint.get('attrs', {}):
                    h = x.hint['attrs'][name]
                    if callable(h):
                        return h(self, x)
                    if name in FIELD_INDEX:
                        return self.app('getitem%d' % FIELD_INDEX[name], [x], hint=h)
                    return self.app('attr_' + name, [x], hint=h)
                cls = x.hint.get('cls')
                if cls is not None:
                    ca = self.class_attr(cls, name)
                    if isinstance(ca, property) and isinstance(ca.fget, types.FunctionType):
                        return self.get_property(ca, x)
                    if isinstance(ca, types.FunctionType) and self.inline_ok(ca):
                        return Bound(x, ca)
            if name in FIELD_INDEX:
                return self.app('getitem%d' % FIELD_INDEX[name], [x])
            return SymAttr(self, x, name)
        if isinstance(x, SComp):
            return SymAttr(self, x, name)
        if isinstance(x, SBool):
            return SymAttr(self, x, name)
        if isinstance(x, Closure):
            if name in x.attrs:
                return x.attrs[name]
            if name == '__name__':
                return x.name
            raise PyRaise(AttributeError(name))
        if isinstance(x, SuperProxy):
            mro = x.cls.__mro__
            idx = mro.index(x.start)
            for k in mro[idx + 1:]:
                if name in k.__dict__:
                    v = k.__dict__[name]
                    if isinstance(v, property):
                        return self.get_property(v, x.obj)
                    return self.bind(v, x.obj, k)
            raise PyRaise(AttributeError(name))
        if isinstance(x, SymAttr):
            return self.getattr(x.force(), name)
        # concrete objects
        if not isinstance(x, (types.ModuleType, type)):
            ca = self.class_attr(type(x), name)
            if isinstance(ca, types.FunctionType) and self.inline_ok(ca) and \
                    name not in getattr(x, '__dict__', {}):
                return Bound(x, ca)
        try:
            return getattr(x, name)
        except AttributeError as e:
            raise PyRaise(e)

    def pure_cached(self, key, thunk):
        """Evaluate a pure getter of an immutable symbolic object once, outside any path condition."""
        hit = self.pure_cache.get(key)
        if hit is None:
            saved = (self.pc_conds, self.effects, self.dec)
            self.pc_conds, self.effects, self.dec = [], [], None
            try:
                paths = self.nested(thunk)
            finally:
                self.pc_conds, self.effects, self.dec = saved
            if any(p.kind != 'ok' for p in paths):
                hit = (None, None)
            else:
                try:
                    v = self.merge_values([(p.cond, p.value) for p in paths])
                    hit = (v, [(And([p.cond, g]), pl) for p in paths for (g, pl) in p.effects])
                except MergeAbort:
                    hit = (None, None)
            self.pure_cache[key] = hit
            self.keep.append(thunk)
        if hit[1] is None:
            return thunk()
        for e in hit[1]:
            self.effects.append(e)
        return hit[0]

    def get_property(self, prop, obj):
        f = prop.fget
        if isinstance(obj, SObj) and obj.meta is not None and obj.meta.get('pure') and self.merge and \
                isinstance(f, types.FunctionType):
            w = getattr(f, '__wrapped__', None)
            if ('memo', getattr(w, '__name__', None)) not in obj.attrs:
                return self.pure_cached((id(obj), id(f)), lambda: self.get_property1(prop, obj))
        return self.get_property1(prop, obj)

    def get_property1(self, prop, obj):
        f = prop.fget
        if isinstance(f, types.FunctionType):
            w = getattr(f, '__wrapped__', None)
            if w is not None and f.__code__.co_name == 'prop':
                # derived_property: the wrapper memoizes a pure computation (verified separately).
                name = w.__name__
                if isinstance(obj, SObj) and ('memo', name) in obj.attrs:
                    return obj.attrs[('memo', name)]
                return self.call(Bound(obj, w), [], {})
            return self.call(Bound(obj, f), [], {})
        if isinstance(f, operator.itemgetter) or not isinstance(f, types.FunctionType):
            if isinstance(obj, Sym):
                return self.app('prop', [obj])
            return f(obj)
        raise Unsupported('property')

    def bind(self, ca, obj, cls):
        if isinstance(ca, types.FunctionType):
            return Bound(obj, ca)
        if isinstance(ca, staticmethod):
            return ca.__func__
        if isinstance(ca, classmethod):
            return Bound(cls, ca.__func__)
        if isinstance(ca, (types.WrapperDescriptorType, types.MethodDescriptorType)) and isinstance(obj, Sym) and \
                ca in self.contracts:
            return Bound(obj, ca)
        return ca

    def setattr(self, x, name, value):
        if isinstance(x, SObj):
            ca = self.class_attr(x.cls, name)
            if isinstance(ca, property):
                f = ca.fget
                w = getattr(f, '__wrapped__', None)
                if w is not None and f.__code__.co_name == 'prop':
                    self.mutate(x)
                    x.attrs[('memo', w.__name__)] = value
                    return
                raise Unsupported('property setter')
            self.mutate(x)
            x.attrs[name] = value
            return
        if isinstance(x, Closure):
            x.attrs[name] = value
            return
        raise Unsupported('setattr on %r' % (x,))

    # -------------------------------------------------------------------------------------------
    # subscripts

    def getitem(self, x, k):
        if isinstance(x, Poison):
            raise Unsupported(x.why)
        if isinstance(x, SObj):
            m = self.class_attr(x.cls, '__getitem__')
            if m is MISSING:
                raise Unsupported('getitem on %r' % x)
            return self.call(Bound(x, m), [k], {})
        if isinstance(x, (list, tuple)) and not is_sym(k):
            try:
                r = x[k]
            except IndexError as e:
                raise PyRaise(e)
            if isinstance(k, slice) and isinstance(r, list):
                self.born(r)
            return r
        if isinstance(x, SV):
            if isinstance(k, int) and not isinstance(k, bool) and 0 <= k < 6:
                h = None
                if isinstance(x.hint, dict):
                    h = x.hint.get('items', {}).get(k)
                return self.app('getitem%d' % k, [x], hint=h)
            if isinstance(k, slice):
                if k.start is None and k.stop is None and k.step is None:
                    return SV(x.t, x.hint)
                return self.app('slice', [x, k.start, k.stop, k.step])
            return self.app('subscript', [x, k])
        if isinstance(x, SComp):
            if isinstance(k, slice) and k.start is None and k.stop is None and k.step is None:
                return x
            return self.app('subscript', [x, k])
        if isinstance(x, dict) and is_sym(k):
            for kk, vv in x.items():
                if self.decide(as_z3(self.eq(kk, k))):
                    return vv
            raise PyRaise(KeyError(k))
        m = self.class_attr(type(x), '__getitem__')
        if is_sym(k) and isinstance(m, types.FunctionType) and self.inline_ok(m):
            return self.call(Bound(x, m), [k], {})
        if is_sym(k):
            return self.app('subscript', [x, k])
        try:
            return x[k]
        except (KeyError, IndexError, TypeError) as e:
            raise PyRaise(e)

    # -------------------------------------------------------------------------------------------
    # calls

    def lookup_contract(self, f):
        try:
            c = self.contracts.get(f)
        except TypeError:
            c = None
        if c is not None:
            return c
        if isinstance(f, types.FunctionType):
            c = self.contracts.get(f.__module__ + '.' + f.__qualname__) or self.contracts.get(f.__code__)
        return c

    def call(self, f, args, kwargs):
        if isinstance(f, SymAttr):
            return f.call(args, kwargs)
        if isinstance(f, Bound):
            c = self.lookup_contract(f.func)
            if c is not None:
                return c(self, [f.self_] + list(args), kwargs)
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Closure):
            return self.call_node(f.node, f.globals, args, kwargs, outer=f.frame, func=f,
                                  defaults=f.defaults, kw_defaults=f.kw_defaults, qualname=f.qualname)
        c = self.lookup_contract(f)
        if c is not None:
            return c(self, list(args), kwargs)
        if isinstance(f, Sym):
            if isinstance(f, SObj):
                m = self.class_attr(f.cls, '__call__')
                if m is not MISSING:
                    return self.call(Bound(f, m), args, kwargs)
            if isinstance(f, SV):
                return self.app('apply', [f] + list(args) + [v for _, v in sorted(kwargs.items())])
            raise Unsupported('call of %r' % f)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + list(args), kwargs)
        h = BUILTINS.get(f) if _hashable(f) else None
        if h is not None:
            return h(self, *args, **kwargs)
        sym = any(is_sym(a) for a in args) or any(is_sym(a) for a in kwargs.values())
        if isinstance(f, types.FunctionType) and self.inline_ok(f):
            name = f.__module__ + '.' + f.__qualname__
            if f in self.opaque or name in self.opaque:
                if sym:
                    return self.app(name, list(args) + [v for _, v in sorted(kwargs.items())])
            else:
                return self.call_function(f, args, kwargs)
        if isinstance(f, types.BuiltinMethodType) and isinstance(getattr(f, '__self__', None), (list, dict, set)):
            return self.container_method(f, args, kwargs)
        if isinstance(f, type):
            return self.construct(f, args, kwargs)
        if not sym:
            try:
                return f(*args, **kwargs)
            except Exception as e:
                raise PyRaise(e)
        if isinstance(f, types.BuiltinMethodType) and isinstance(getattr(f, '__self__', None), (str, bytes)):
            if f.__name__ == 'format':
                parts = brace_parts(f.__self__, list(args), kwargs)
                if parts is not None:
                    return self.formatted(parts)
                raise Unsupported('str.format')
            if f.__name__ == 'join' and len(args) == 1 and type(args[0]) in (list, tuple, GenList) and not kwargs and \
                    all(isinstance(x, (SV, str, bytes)) for x in args[0]):
                # joining a known number of pieces is concatenation
                r = None
                for x in args[0]:
                    r = x if r is None else self.binop(ast.Add(), self.binop(ast.Add(), r, f.__self__) if f.__self__ else r, x)
                return f.__self__[:0] if r is None else r
            return self.app('m_' + f.__name__, [f.__self__] + list(args))
        name = getattr(f, '__module__', None) or ''
        name = name + '.' + getattr(f, '__qualname__', repr(f))
        self.assumed.add('pure external function ' + name)
        return self.app(name, list(args) + [v for _, v in sorted(kwargs.items())])

    def construct(self, cls, args, kwargs):
        sym = any(is_sym(a) for a in args) or any(is_sym(a) for a in kwargs.values())
        if not (cls.__module__ or '').startswith(('httpolice', 'contracts')):
            if issubclass(cls, BaseException):
                if sym:
                    return SObj(cls, {'args': tuple(args)})
                return cls(*args, **kwargs)
            if sym:
                self.assumed.add('pure external constructor ' + cls.__name__)
                return self.app('new_' + cls.__name__ + ''.join('_' + k for k in sorted(kwargs)),
                                list(args) + [v for _, v in sorted(kwargs.items())])
            try:
                return cls(*args, **kwargs)
            except Exception as e:
                raise PyRaise(e)
        if issubclass(cls, (str, int)) and len(args) == 1 and sym:
            x = args[0]
            if issubclass(cls, int):
                return SInt(self.to_int(x), cls)
            self.assumed.add('constructor %s(x) == x' % cls.__name__)
            return x
        if issubclass(cls, tuple):
            if not sym:
                try:
                    return cls(*args, **kwargs)
                except Exception as e:
                    raise PyRaise(e)
            new = self.class_attr(cls, '__new__')
            fields = cls._fields
            vals = dict(zip(fields, args))
            vals.update(kwargs)
            tup = tuple(vals[f] for f in fields)
            o = NTuple(cls, tup)
            return o
        if not sym and issubclass(cls, BaseException):
            try:
                return cls(*args, **kwargs)
            except Exception as e:
                raise PyRaise(e)
        init = self.class_attr(cls, '__init__')
        obj = self.born(SObj(cls))
        if init is not MISSING and isinstance(init, types.FunctionType):
            c = self.lookup_contract(init)
            if c is not None:
                c(self, [obj] + list(args), kwargs)
            else:
                self.call(init, [obj] + list(args), kwargs)
        elif args or kwargs:
            obj.attrs['args'] = tuple(args)
        return obj

    def container_method(self, f, args, kwargs):
        c = f.__self__
        name = f.__name__
        if name in ('append', 'extend', 'pop', 'insert', 'remove', 'clear', 'update', 'add', 'setdefault',
                    'popitem', 'sort', 'reverse', 'discard', '__setitem__', '__delitem__'):
            if name == 'append' and self.appends is not None and \
                    self.births.get(id(c), 0) < self.nest and any(c is l for l in self.appends):
                self.effect('append', c, args[0])
                return None
            self.mutate(c)
        if name == 'extend' and isinstance(c, list):
            items = self.iter_sym(args[0])
            if isinstance(items, SComp):
                raise Unsupported('extend with symbolic sequence')
            c.extend(items)
            return None
        if isinstance(c, dict) and args and is_sym(args[0]) and name in ('get', 'setdefault', 'pop'):
            for kk, vv in list(c.items()):
                if self.decide(as_z3(self.eq(kk, args[0]))):
                    if name == 'pop':
                        del c[kk]
                    return vv
            if name == 'setdefault':
                raise Unsupported('setdefault with symbolic key')
            if name == 'pop' and len(args) == 1:
                raise PyRaise(KeyError(args[0]))
            return args[1] if len(args) > 1 else None
        if isinstance(c, (set, dict)) and args and is_sym(args[0]) and name in ('add', 'discard', 'update'):
            raise Unsupported('set.%s with symbolic element' % name)
        if isinstance(c, list) and name in ('index', 'count', 'remove') and (is_sym(c) or is_sym(args)):
            if name == 'index':
                for i, y in enumerate(c):
                    if self.decide(as_z3(self.eq(y, args[0]))):
                        return i
                raise PyRaise(ValueError('not in list'))
            raise Unsupported('list.' + name)
        try:
            return f(*args, **kwargs)
        except Exception as e:
            raise PyRaise(e)

    def call_function(self, f, args, kwargs):
        node = node_for(f)
        cells = {}
        if f.__closure__:
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    cells[n] = c.cell_contents
                except ValueError:
                    pass
        return self.call_node(node, f.__globals__, args, kwargs, func=f, cells=cells,
                              defaults=f.__defaults__, kw_defaults=f.__kwdefaults__,
                              qualname=f.__module__ + '.' + f.__qualname__)

    def bind_args(self, node, args, kwargs, defaults, kw_defaults):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(names) and not a.vararg:
            raise PyRaise(TypeError('too many arguments'))
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names):])
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kwargs:
                if n in env:
                    raise PyRaise(TypeError('multiple values for ' + n))
                env[n] = kwargs.pop(n)
        if a.kwarg:
            env[a.kwarg.arg] = self.born(dict(kwargs))
        elif kwargs:
            raise PyRaise(TypeError('unexpected keyword %r' % list(kwargs)))
        defaults = defaults or ()
        for n, v in zip(names[len(names) - len(defaults):], defaults):
            env.setdefault(n, v)
        for n, v in (kw_defaults or {}).items():
            env.setdefault(n, v)
        for n in names:
            if n not in env:
                raise PyRaise(TypeError('missing argument ' + n))
        return env

    def call_node(self, node, globals_, args, kwargs, outer=None, func=None, cells=None,
                  defaults=None, kw_defaults=None, qualname='?'):
        try:
            env = self.bind_args(node, args, kwargs, defaults, kw_defaults)
        except PyRaise as e:
            if globals_.get('__name__', '').startswith('contracts.'):
                raise Unsupported('a stand-in is called in a way it does not cover: %s' % e.exc)
            raise

        def run():
            fr = Frame(dict(env), globals_, outer=outer, func=func, cells=cells, qualname=qualname)
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            gen = is_generator_node(node)
            if gen:
                fr.yields = self.born([])
            try:
                self.exec_block(node.body, fr)
            except ReturnEx as e:
                if not gen:
                    return e.value
            if gen:
                return GenList(fr.yields)
            return None

        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported('call depth')
        try:
            key = ('call', id(node))
            if self.merge and not self.no_merge.get(key):
                try:
                    return self.merged(run)
                except MergeAbort as exc:
                    self.no_merge[key] = True
                    self.note('no merge of call %s: %s' % (qualname, exc))
                    raise Restart()
            return run()
        finally:
            self.depth -= 1

    def merged(self, run):
        paths = self.nested(run)
        if not paths:
            raise PathEnd('no path')
        if len(paths) == 1 and paths[0].kind == 'ok':
            self.add_effects(paths[0].effects, paths[0].cond)
            return paths[0].value
        if any(p.kind != 'ok' for p in paths):
            raise MergeAbort('exceptional path')
        v = self.merge_values([(p.cond, p.value) for p in paths])
        for p in paths:
            self.add_effects(p.effects, p.cond)
        return v

    def merge_values(self, pairs):
        vals = [v for _, v in pairs]
        first = vals[0]
        if all(v is first for v in vals):
            return first
        for v in vals:
            if isinstance(v, Poison):
                return v
        if all(isinstance(v, (bool, SBool)) for v in vals):
            t = as_z3(self.truth(vals[-1]))
            for c, v in reversed(pairs[:-1]):
                t = z3.If(c, as_z3(self.truth(v)), t)
            return SBool(z3.simplify(t))
        if all(isinstance(v, (int, SInt)) for v in vals):
            t = self.to_int(vals[-1])
            for c, v in reversed(pairs[:-1]):
                t = z3.If(c, self.to_int(v), t)
            return SInt(t)
        if all(isinstance(v, tuple) and type(v) is tuple for v in vals) and len({len(v) for v in vals}) == 1:
            return tuple(self.merge_values([(c, v[i]) for c, v in pairs]) for i in range(len(first)))
        if any(isinstance(v, tuple) and hasattr(v, '_fields') for v in vals):
            raise MergeAbort('a concrete structure and something else')
        if all(isinstance(v, (SV, SBool, SInt, bool, int, str, bytes, float, type(None), SComp)) or
               (not is_sym(v) and _hashable(v)) or (isinstance(v, (list, dict, set)) and not v)
               for v in vals):
            try:
                same = all(not is_sym(v) for v in vals) and all(type(v) is type(first) and v == first for v in vals)
            except Exception:
                same = False
            if same:
                return first
            hints = [v.hint for v in vals if isinstance(v, SV)]
            hint = hints[0] if hints and all(h is hints[0] for h in hints) else None
            t = self.to_v(vals[-1])
            for c, v in reversed(pairs[:-1]):
                t = z3.If(c, self.to_v(v), t)
            return SV(t, hint)
        raise MergeAbort('values not mergeable')

    # -------------------------------------------------------------------------------------------
    # expressions

    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.env:
                v = f.env[name]
                return v
            if name in f.cells:
                return f.cells[name]
            f = f.outer
        if name in fr.globals:
            v = fr.globals[name]
            return self.stand_in.get(id(v), v) if self.stand_in else v
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError(name))

    def truth_expr(self, e, fr):
        """Truth value of an expression as bool or z3 Bool, merged (no forks) in merge mode."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return Not(self.truth_expr(e.operand, fr))
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            acc = []
            for k, v in enumerate(e.values):
                if acc and self.merge:
                    asm = acc if is_and else [Not(a) for a in acc]
                    t = self.pure_bool(lambda: self.truth_expr(v, fr), asm)
                else:
                    t = self.truth_expr(v, fr)
                    if not self.merge and not isinstance(t, bool):
                        t = self.decide(t)
                if isinstance(t, bool):
                    if t is not is_and:
                        if not acc:
                            return t
                        return And(acc + [z3.BoolVal(False)]) if is_and else Or(acc + [z3.BoolVal(True)])
                    continue
                acc.append(t)
            if not acc:
                return is_and
            return And(acc) if is_and else Or(acc)
        if isinstance(e, ast.Compare):
            return self.eval_compare(e, fr)
        if isinstance(e, ast.Call) and self.merge and not getattr(e, '_nomerge', False):
            pass
        return self.truth(self.eval(e, fr))

    def pure_bool(self, thunk, assume):
        paths = self.nested(thunk, assume)
        g = And(list(assume))
        for p in paths:
            if p.kind != 'ok':
                # e.g. an exception in a condition: cannot merge
                raise MergeAbort('exception in condition')
            self.add_effects(p.effects, And([g, p.cond]))
        if not paths:
            return False
        if len(paths) == 1:
            return paths[0].value
        t = as_z3(paths[-1].value)
        for p in reversed(paths[:-1]):
            t = z3.If(p.cond, as_z3(p.value), t)
        return t

    def eval_compare(self, e, fr):
        left = self.eval(e.left, fr)
        acc = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            t = self.cmp(op, left, right)
            if isinstance(t, SBool):
                t = t.t
            if isinstance(t, bool) or not z3.is_expr(t):
                if not t:
                    return False if not acc else And(acc + [z3.BoolVal(False)])
            else:
                acc.append(t)
            left = right
        return And(acc) if acc else True

    def wrap_bool(self, t):
        return t if isinstance(t, bool) else SBool(t)

    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Compare(self, e, fr):
        return self.wrap_bool(self.eval_compare(e, fr))

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        # value semantics
        first = self.eval(e.values[0], fr)
        rest = e.values[1:]
        return self.boolop_val(first, rest, is_and, fr)

    def boolop_val(self, first, rest, is_and, fr):
        if not rest:
            return first
        t = self.truth(first)
        if isinstance(t, bool):
            if t is is_and:
                return self.boolop_val(self.eval(rest[0], fr), rest[1:], is_and, fr)
            return first
        if self.merge:
            cond = t if is_and else z3.Not(t)
            try:
                paths = self.nested(lambda: self.boolop_val(self.eval(rest[0], fr), rest[1:], is_and, fr), [cond])
                if any(p.kind != 'ok' for p in paths):
                    raise MergeAbort('exception')
                if not paths:
                    return first
                v = self.merge_values([(And([cond, p.cond]), p.value) for p in paths] +
                                      [(Not(cond), first)])
                for p in paths:
                    self.add_effects(p.effects, And([cond, p.cond]))
                return v
            except MergeAbort:
                pass
        if self.decide(t) is is_and:
            return self.boolop_val(self.eval(rest[0], fr), rest[1:], is_and, fr)
        return first

    def e_UnaryOp(self, e, fr):
        if isinstance(e.op, ast.Not):
            return self.wrap_bool(Not(self.truth_expr(e.operand, fr)))
        v = self.eval(e.operand, fr)
        if isinstance(v, (SInt, SV)):
            t = self.to_int(v)
            if isinstance(e.op, ast.USub):
                return SInt(-t)
            raise Unsupported('unary op')
        return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(e.op)](v)

    def e_IfExp(self, e, fr):
        t = self.truth_expr(e.test, fr)
        if isinstance(t, bool):
            return self.eval(e.body if t else e.orelse, fr)
        if self.merge:
            try:
                p1 = self.nested(lambda: self.eval(e.body, fr), [t])
                p2 = self.nested(lambda: self.eval(e.orelse, fr), [z3.Not(t)])
                if any(p.kind != 'ok' for p in p1 + p2):
                    raise MergeAbort('exception')
                pairs = [(And([t, p.cond]), p.value) for p in p1] + [(And([z3.Not(t), p.cond]), p.value) for p in p2]
                v = self.merge_values(pairs)
                for p in p1:
                    self.add_effects(p.effects, And([t, p.cond]))
                for p in p2:
                    self.add_effects(p.effects, And([z3.Not(t), p.cond]))
                return v
            except MergeAbort:
                pass
        return self.eval(e.body if self.decide(t) else e.orelse, fr)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('poisoned operand')
        if isinstance(a, SymAttr):
            a = a.force()
        if isinstance(b, SymAttr):
            b = b.force()
        t = type(op)
        if not is_sym(a) and not is_sym(b):
            try:
                r = _BINOPS[t](a, b)
            except Exception as exc:
                raise PyRaise(exc)
            if isinstance(r, (list, dict, set)):
                self.born(r)
            return r
        num = lambda x: isinstance(x, (SInt, int)) and not isinstance(x, bool)
        if (num(a) and num(b)) and t in (ast.Add, ast.Sub, ast.Mult):
            x, y = self.to_int(a), self.to_int(b)
            return SInt({ast.Add: x + y, ast.Sub: x - y, ast.Mult: x * y}[t] if t is not ast.Mult else x * y)
        if isinstance(a, SInt) and isinstance(b, int) and not isinstance(b, bool) and b > 0 and t in (ast.FloorDiv, ast.Mod):
            # for a positive divisor Python's floor division is z3's integer division
            return SInt(a.t / b if t is ast.FloorDiv else a.t % b)
        if isinstance(a, list) and isinstance(b, list) and t is ast.Add:
            return self.born(a + b)
        if isinstance(a, tuple) and isinstance(b, tuple) and t is ast.Add:
            return a + b
        if t is ast.Mod and isinstance(a, str):
            parts = percent_parts(a, list(b) if type(b) is tuple else [b])
            return self.app('format', [a, b]) if parts is None else self.formatted(parts)
        for (x, y, nm) in ((a, b, '__%s__'), (b, a, '__r%s__')):
            if isinstance(x, SObj):
                mm = self.class_attr(x.cls, nm % _OPNAMES[t])
                if isinstance(mm, types.FunctionType):
                    return self.call(Bound(x, mm), [y], {})
        if isinstance(a, SComp) and isinstance(b, (set, frozenset)) and not is_sym(b) and t is ast.Sub:
            c = self.open_comp(a)
            self.binder_depth += len(c.binders)
            try:
                t1 = Or([as_z3(self.eq(c.val, y)) for y in b])
            finally:
                self.binder_depth -= len(c.binders)
            return SComp(c.binders, And([c.cond, Not(t1)]), c.val, c.source, c.flag)
        if isinstance(a, SBool) or isinstance(b, SBool):
            if t in (ast.BitAnd, ast.BitOr):
                x, y = as_z3(self.truth(a)), as_z3(self.truth(b))
                return SBool(z3.And(x, y) if t is ast.BitAnd else z3.Or(x, y))
        for x in (a, b):
            if t is ast.Add and isinstance(x, SV) and isinstance(x.hint, dict) and 'partial_add' in x.hint:
                if not self.decide(self.app('add_defined', [a, b], rng=B).t):
                    raise PyRaise(x.hint['partial_add']())
        if t is ast.Add and not is_sym(a) and a in ('', b'') and isinstance(b, SV):
            return b
        if t is ast.Add and not is_sym(b) and b in ('', b'') and isinstance(a, SV):
            return a
        if t is ast.Add and self.text_kind(a) == 'str' and self.text_kind(b) == 'str':
            # concatenating texts and formatting them with %s are the same: one form for both
            return self.formatted(self.text_parts(a) + self.text_parts(b))
        if t is ast.Add and isinstance(a, SV) and z3.is_app(a.t) and a.t.decl().name() == 'op_add':
            # concatenation is associative: one form for both ways of grouping
            parts, x = [], a.t
            while z3.is_app(x) and x.decl().name() == 'op_add':
                parts.append(x.arg(0))
                x = x.arg(1)
            r = self.app('op_add', [SV(x), b])
            for x in reversed(parts):
                r = self.app('op_add', [SV(x), r])
        else:
            r = self.app('op_' + _OPNAMES[t], [a, b])
        if self.non_null_ops is not None and not has_free_binder(r.t):
            # the result of an arithmetic operator or concatenation is never None or an Unavailable marker
            self.fact(r.t != self.lit(None))
            self.fact(z3.Not(self.pred(self.non_null_ops)(r.t)))
        return r

    def e_Subscript(self, e, fr):
        return self.getitem(self.eval(e.value, fr), self.eval(e.slice, fr))

    def e_Slice(self, e, fr):
        return slice(*[self.eval(x, fr) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def e_Tuple(self, e, fr):
        return tuple(self.eval_list(e.elts, fr))

    def e_List(self, e, fr):
        return self.born(self.eval_list(e.elts, fr))

    def e_Set(self, e, fr):
        xs = self.eval_list(e.elts, fr)
        if any(is_sym(x) for x in xs):
            return SymSet(xs)
        return self.born(set(xs))

    def eval_list(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.iter_sym(self.eval(x.value, fr))
                if isinstance(it, SComp):
                    raise Unsupported('star of symbolic sequence')
                out.extend(it)
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.eval(v, fr)
                if not isinstance(x, dict):
                    raise Unsupported('a display of an unknown mapping')
                if '.rest' in x and '.rest' not in d:
                    d = self.call(dict, [d], dict(x))       # {**a, **b} is dict(a, **b)
                elif '.rest' in x:
                    raise Unsupported('two opaque dictionaries')
                else:
                    if '.rest' in d:
                        raise Unsupported('keys after an opaque dictionary')
                    d.update(x)
            else:
                kk = self.eval(k, fr)
                if is_sym(kk) or '.rest' in d:
                    raise Unsupported('dict with symbolic key')
                d[kk] = self.eval(v, fr)
        return self.born(d)

    def e_Lambda(self, e, fr):
        c = Closure(e, fr, fr.globals, '<lambda>', fr.qualname + '.<lambda>')
        c.defaults = tuple(self.eval(d, fr) for d in e.args.defaults)
        return c

    def e_JoinedStr(self, e, fr):
        parts = []
        plain = True
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(('s', self.eval(v.value, fr)))
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    plain = False
                    parts.append(ast.dump(v.format_spec) if v.format_spec is not None else str(v.conversion))
        if not plain:
            return self.app('fstring', [p[1] if isinstance(p, tuple) else p for p in parts])
        return self.formatted(parts)

    def text_kind(self, x):
        return None

    def text_parts(self, x):
        if isinstance(x, str):
            return [x]
        p = self.format_parts.get(x.t.get_id())
        return list(p) if p is not None else [('s', x)]

    def formatted(self, parts):
        """A text from pieces: str, or (conversion, value).  One form for %, format() and f-strings."""
        template, args = '', []
        flat = []
        for p in parts:
            if isinstance(p, tuple) and p[0] == 's' and isinstance(p[1], SV) and p[1].t.get_id() in self.format_parts:
                flat += self.format_parts[p[1].t.get_id()]
            else:
                flat.append(p)
        parts = flat
        for p in parts:
            if isinstance(p, str):
                template += p.replace('%', '%%')
                continue
            conv, x = p
            if isinstance(x, SymAttr):
                x = x.force()
            if conv in 'sd' and not is_sym(x) and isinstance(x, (str, int)):
                template += str(x).replace('%', '%%')
                continue
            template += '%s' if isinstance(x, SInt) else '%' + conv
            args.append(x)
        if not args:
            return template.replace('%%', '%')
        if template == '%s' and self.text_kind(args[0]) == 'str':
            return args[0]
        r = self.app('format', [template, tuple(args)])
        self.format_parts[r.t.get_id()] = parts
        self.keep.append(r.t)
        return r

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value else None
        f = fr
        if self.appends is not None and any(f.yields is l for l in self.appends) and \
                self.births.get(id(f.yields), 0) < self.nest:
            self.effect('append', f.yields, v)
            return None
        self.mutate(f.yields)
        f.yields.append(v)
        return None

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    # comprehensions

    def comp(self, gens, elt, fr, flag):
        inner = Frame({}, fr.globals, outer=fr, qualname=fr.qualname)
        return self.comp_level(gens, 0, elt, inner, flag)

    def comp_level(self, gens, k, elt, fr, flag):
        g = gens[k]
        src = self.iter_sym(self.eval(g.iter, fr))
        last = k == len(gens) - 1
        if isinstance(src, list):
            out = []
            for x in src:
                self.assign(g.target, x, fr)
                ok = True
                for c in g.ifs:
                    t = self.truth_expr(c, fr)
                    if not self.decide(t):
                        ok = False
                        break
                if not ok:
                    continue
                if last:
                    out.append(self.eval(elt, fr))
                else:
                    r = self.comp_level(gens, k + 1, elt, fr, flag)
                    if isinstance(r, SComp):
                        if len(src) == 1:
                            return r
                        raise Unsupported('nested comprehension over mixed sources')
                    out.extend(r)
            return self.born(out)
        c = self.open_comp(src)
        self.binder_depth += len(c.binders)
        saved_pc = self.pc_conds
        self.pc_conds = saved_pc + [c.cond]
        try:
            self.assign(g.target, c.val, fr)
            conds = [c.cond]
            for cc in g.ifs:
                t = self.pure_bool(lambda: self.truth_expr(cc, fr), conds[1:]) if self.merge else \
                    self.truth_expr(cc, fr)
                conds.append(as_z3(t))
            if last:
                v = self.pure_value(lambda: self.eval(elt, fr), conds[1:])
                return SComp(c.binders, And(conds), v, src.source, flag)
            r = self.comp_level(gens, k + 1, elt, fr, flag)
            if isinstance(r, SComp):
                return SComp(c.binders + r.binders, And(conds + [r.cond]), r.val, src.source, flag)
            if isinstance(r, list) and len(r) == 1:
                return SComp(c.binders, And(conds), r[0], src.source, flag)
            raise Unsupported('nested comprehension')
        finally:
            self.binder_depth -= len(c.binders)
            self.pc_conds = saved_pc

    def pure_value(self, thunk, assume):
        paths = self.nested(thunk, assume)
        if any(p.kind != 'ok' for p in paths):
            raise MergeAbort('exception in element')
        if not paths:
            return None
        if any(p.effects for p in paths):
            raise Unsupported('effects in comprehension element')
        if len(paths) == 1:
            return paths[0].value
        return self.merge_values([(p.cond, p.value) for p in paths])

    def e_ListComp(self, e, fr):
        return self.comp(e.generators, e.elt, fr, 'list')

    def e_GeneratorExp(self, e, fr):
        r = self.comp(e.generators, e.elt, fr, 'gen')
        return r if isinstance(r, SComp) else GenList(r)

    def e_SetComp(self, e, fr):
        r = self.comp(e.generators, e.elt, fr, 'set')
        if isinstance(r, SComp):
            return r
        if any(is_sym(x) for x in r):
            return SymSet(r)
        return self.born(set(r))

    def e_DictComp(self, e, fr):
        r = self.comp(e.generators, ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), fr, 'list')
        if isinstance(r, SComp):
            raise Unsupported('dict comprehension over symbolic sequence')
        return self.born(dict(r))

    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in fr.env:
            if e.args:
                cls = self.eval(e.args[0], fr)
                obj = self.eval(e.args[1], fr)
            else:
                cls = fr.cells.get('__class__')
                obj = fr.env[next(iter(fr.env))]
            ocls = obj.cls if isinstance(obj, (SObj, NTuple)) else (obj if isinstance(obj, type) else type(obj))
            return SuperProxy(cls, ocls, obj)
        f = self.eval(e.func, fr)
        args = self.eval_list(e.args, fr)
        kwargs = {}
        for kw in e.keywords:
            if kw.arg is None:
                d = self.eval(kw.value, fr)
                if not isinstance(d, dict):
                    kwargs['**'] = d
                else:
                    kwargs.update(d)
            else:
                kwargs[kw.arg] = self.eval(kw.value, fr)
        return self.call(f, args, kwargs)

    # -------------------------------------------------------------------------------------------
    # statements

    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, s, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        m(s, fr)

    def s_Expr(self, s, fr):
        self.eval(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            fr.env[(a.asname or a.name).split('.')[0]] = __import__(a.name)

    def s_Global(self, s, fr):
        raise Unsupported('global')

    def s_Nonlocal(self, s, fr):
        fr.nonlocals = tuple(fr.nonlocals) + tuple(s.names)

    def s_Assert(self, s, fr):
        t = self.truth_expr(s.test, fr)
        if not self.decide(t):
            raise PyRaise(AssertionError())

    def s_Return(self, s, fr):
        raise ReturnEx(self.eval(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise BreakEx()

    def s_Continue(self, s, fr):
        raise ContinueEx()

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, fr)
        elif isinstance(s.target, ast.Attribute):
            cur = self.getattr(self.eval(s.target.value, fr), s.target.attr)
        else:
            cur = self.getitem(self.eval(s.target.value, fr), self.eval(s.target.slice, fr))
        val = self.eval(s.value, fr)
        if isinstance(cur, list) and isinstance(s.op, ast.Add):
            self.mutate(cur)
            items = self.iter_sym(val)
            if isinstance(items, SComp):
                raise Unsupported('+= symbolic sequence')
            cur.extend(items)
            return
        self.assign(s.target, self.binop(s.op, cur, val), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.nonlocals:
                f = fr.outer
                while f is not None and t.id not in f.env:
                    f = f.outer
                if f is None:
                    raise Unsupported('nonlocal')
                self.mutate(f)
                f.env[t.id] = v
            else:
                fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.store_item(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        else:
            raise Unsupported('assignment target')

    def store_item(self, c, k, v):
        if isinstance(c, SObj):
            m = self.class_attr(c.cls, '__setitem__')
            if m is MISSING:
                raise Unsupported('setitem')
            self.call(Bound(c, m), [k, v], {})
            return
        if isinstance(c, (list, dict)):
            self.mutate(c)
            if isinstance(k, slice) and isinstance(v, (SV, SComp)):
                raise Unsupported('slice assignment')
            if is_sym(k):
                raise Unsupported('store at symbolic key')
            c[k] = v
            return
        raise Unsupported('store into %r' % (c,))

    def unpack(self, elts, v, fr):
        if isinstance(v, SymAttr):
            v = v.force()
        if isinstance(v, SV):
            if any(isinstance(x, ast.Starred) for x in elts):
                raise Unsupported('starred unpacking')
            for i, x in enumerate(elts):
                self.assign(x, self.getitem(v, i), fr)
            return
        if isinstance(v, NTuple):
            v = v.tup
        if isinstance(v, SObj):
            it = self.iter_sym(v)
            if isinstance(it, SComp):
                # e.g. unpacking a header view whose value is a fixed-shape tuple
                it = [self.getitem(SV(it.source, None), i) for i in range(len(elts))]
            v = it
        if isinstance(v, SComp):
            for i, x in enumerate(elts):
                self.assign(x, self.app('getitem%d' % i, [v]), fr)
            return
        vals = list(v)
        stars = [i for i, x in enumerate(elts) if isinstance(x, ast.Starred)]
        if stars:
            (i,) = stars
            after = len(elts) - i - 1
            if any(not isinstance(x, tuple) and type(x).__name__ == 'Splat' for x in vals):
                raise Unsupported('starred unpacking of a sequence of unknown length')
            if len(vals) < i + after:
                raise PyRaise(ValueError('unpack'))
            vals = vals[:i] + [self.born(vals[i:len(vals) - after])] + vals[len(vals) - after:]
            elts = [x.value if isinstance(x, ast.Starred) else x for x in elts]
        if len(vals) != len(elts):
            raise PyRaise(ValueError('unpack'))
        for x, y in zip(elts, vals):
            self.assign(x, y, fr)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                c = self.eval(t.value, fr)
                k = self.eval(t.slice, fr)
                if isinstance(c, SObj) and self.class_attr(c.cls, '__delitem__') is not MISSING:
                    self.call(Bound(c, self.class_attr(c.cls, '__delitem__')), [k], {})
                    continue
                if is_sym(k) or not isinstance(c, (list, dict)):
                    raise Unsupported('del')
                self.mutate(c)
                try:
                    del c[k]
                except Exception as e:
                    raise PyRaise(e)
            else:
                raise Unsupported('del')

    def s_FunctionDef(self, s, fr):
        c = Closure(s, fr, fr.globals, s.name, fr.qualname + '.<locals>.' + s.name)
        c.defaults = tuple(self.eval(d, fr) for d in s.args.defaults)
        if s.decorator_list:
            raise Unsupported('decorated local function')
        fr.env[s.name] = c

    def s_Raise(self, s, fr):
        if s.exc is None:
            if fr.exc is not None:
                raise PyRaise(fr.exc)
            raise Unsupported('bare raise')
        e = self.eval(s.exc, fr)
        if isinstance(e, type):
            e = self.call(e, [], {})
        raise PyRaise(e)

    def exc_matches(self, exc, types_):
        cls = exc.cls if isinstance(exc, SObj) else type(exc)
        if not isinstance(types_, tuple):
            types_ = (types_,)
        return any(issubclass(cls, t) for t in types_)

    def s_Try(self, s, fr):
        try:
            try:
                self.exec_block(s.body, fr)
            except PyRaise as pe:
                for h in s.handlers:
                    ts = self.eval(h.type, fr) if h.type is not None else BaseException
                    if self.exc_matches(pe.exc, ts):
                        if h.name:
                            fr.env[h.name] = pe.exc
                        saved = fr.exc
                        fr.exc = pe.exc
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            fr.exc = saved
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            if s.finalbody:
                self.exec_block(s.finalbody, fr)
            raise
        else:
            if s.finalbody:
                self.exec_block(s.finalbody, fr)

    def s_With(self, s, fr):
        ms = []
        for it in s.items:
            cm = self.eval(it.context_expr, fr)
            v = self.call(self.getattr(cm, '__enter__'), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            ms.append(cm)
        try:
            self.exec_block(s.body, fr)
        except PyRaise as e:
            cls = e.exc.cls if isinstance(e.exc, SObj) else type(e.exc)
            for cm in reversed(ms):
                r = self.call(self.getattr(cm, '__exit__'), [cls, e.exc, None], {})
                if self.decide(as_z3(self.truth(r))):
                    return
            raise
        except (ReturnEx, BreakEx, ContinueEx):
            for cm in reversed(ms):
                self.call(self.getattr(cm, '__exit__'), [None, None, None], {})
            raise
        else:
            for cm in reversed(ms):
                self.call(self.getattr(cm, '__exit__'), [None, None, None], {})

    def s_If(self, s, fr):
        t = self.truth_expr(s.test, fr)
        if not isinstance(t, bool):
            t = z3.simplify(t)
            if z3.is_true(t):
                t = True
            elif z3.is_false(t):
                t = False
        if not isinstance(t, bool):
            k = self.implied(t)
            if k is not None:
                t = k
        if isinstance(t, bool):
            self.exec_block(s.body if t else s.orelse, fr)
            return
        if self.merge and not self.no_merge.get(id(s)):
            if has_escape(s):
                self.no_merge[id(s)] = True
            else:
                try:
                    self.merge_if(s, t, fr)
                    return
                except MergeAbort as exc:
                    self.no_merge[id(s)] = True
                    self.note('no merge of if at %s:%d: %s' % (fr.qualname, s.lineno, exc))
                    raise Restart()
        if self.decide(t):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def merge_if(self, s, t, fr):
        base = dict(fr.env)
        groups = []

        def run(block):
            fr.env.clear()
            fr.env.update(base)
            self.exec_block(block, fr)
            return dict(fr.env)
        try:
            for cond, block in ((t, s.body), (z3.Not(t), s.orelse)):
                if not block:
                    groups.append((cond, base, []))
                    continue
                for p in self.nested(lambda: run(block), [cond]):
                    if p.kind != 'ok':
                        raise MergeAbort('escape')
                    groups.append((And([cond, p.cond]), p.value, p.effects))
            if not groups:
                raise PathEnd('infeasible')
            names = []
            for g in groups:
                for n in g[1]:
                    if n not in names:
                        names.append(n)
            new = {}
            for n in names:
                vals = [(g[0], g[1].get(n, MISSING)) for g in groups]
                if any(v is MISSING for _, v in vals):
                    new[n] = Poison('variable %s maybe unbound' % n)
                    continue
                new[n] = self.merge_values(vals)
        except BaseException:
            fr.env.clear()
            fr.env.update(base)
            raise
        fr.env.clear()
        fr.env.update(new)
        for g in groups:
            self.add_effects(g[2], g[0])

    def loop_ordinal(self, s, fr):
        """Ordinal of the loop statement inside its function."""
        f = fr.func
        node = None
        if isinstance(f, types.FunctionType):
            node = node_for(f)
        elif isinstance(f, Closure):
            node = f.node
        if node is None:
            return 0
        loops = [n for n in ast.walk(node) if isinstance(n, (ast.For, ast.While))]
        loops.sort(key=lambda n: (n.lineno, n.col_offset))
        return loops.index(s)

    def s_For(self, s, fr):
        spec = self.loop_specs.get((fr.qualname, self.loop_ordinal(s, fr)))
        if spec is not None:
            return spec.run_for(self, s, fr)
        src = self.eval(s.iter, fr)
        if hasattr(src, 'run_for'):
            return src.run_for(self, s, fr)
        src = self.iter_sym(src)
        if isinstance(src, list):
            broke = False
            for x in src:
                self.assign(s.target, x, fr)
                try:
                    self.exec_block(s.body, fr)
                except ContinueEx:
                    continue
                except BreakEx:
                    broke = True
                    break
            if not broke:
                self.exec_block(s.orelse, fr)
            return
        self.parallel_loop(s, src, fr)

    def parallel_loop(self, s, src, fr):
        """Exact summary of a loop over a symbolic sequence whose iterations only report/collect."""
        base = dict(fr.env)
        c = self.open_comp(src)
        outer_lists = [v for v in self.visible_lists(fr)]
        saved_app = self.appends

        def body():
            fr.env.clear()
            fr.env.update(base)
            for n in assigned_names(s.body):
                if n in fr.env:
                    fr.env[n] = Poison('%s is carried from one iteration to the next' % n)
            self.assign(s.target, c.val, fr)
            self.exec_block(s.body, fr)
            return None
        self.binder_depth += len(c.binders)
        self.appends = (saved_app or []) + outer_lists
        try:
            paths = self.nested(body, [c.cond])
        finally:
            self.binder_depth -= len(c.binders)
            self.appends = saved_app
            fr.env.clear()
            fr.env.update(base)
        assigned = assigned_names(s.body) | target_names(s.target)
        normal = [p for p in paths if p.kind in ('ok', 'continue')]
        exits = [p for p in paths if p.kind not in ('ok', 'continue')]
        ex = lambda t: z3.Exists(c.binders, And([c.cond, t])) if mentions(And([c.cond, t]), c.binders) \
            else And([c.cond, t])
        if not exits:
            appended = {}
            for p in normal:
                for (g, payload) in p.effects:
                    if payload[0] == 'append':
                        appended.setdefault(id(payload[1]), []).append((And([p.cond, g]), payload))
                    else:
                        self.effects.append((ex(And([p.cond, g])), self.close_payload(payload, c)))
            for lid, effs in appended.items():
                lst = effs[0][1][1]
                if len(effs) == 1 and not lst:
                    sc = SComp(c.binders, And([c.cond, effs[0][0]]), effs[0][1][2], src.source)
                elif not lst:
                    sc = SComp(c.binders, And([c.cond, Or([g for g, _ in effs])]),
                               self.merge_values([(g, pl[2]) for g, pl in effs]), src.source)
                else:
                    raise Unsupported('append to non-empty list in symbolic loop')
                self.rebind(fr, lst, sc)
            for n in assigned:
                if n in fr.env:
                    fr.env[n] = Poison('%s assigned in a summarised loop' % n)
            self.exec_block(s.orelse, fr)
            return
        # Early exits.  Exact only if what each exit does is the same for every element taking it,
        # and other iterations have no effect.
        if any(p.effects for p in normal):
            raise Unsupported('loop with early exit and other effects')
        e2 = [const('e2!%d' % i) for i in range(len(c.binders))]
        pairs = list(zip(c.binders, e2))
        Bs = Or([p.cond for p in exits])
        for p in exits:
            if len(exits) > 1:
                t = z3.And(c.cond, p.cond, z3.substitute(And([c.cond, Bs]), *pairs),
                           z3.Not(z3.substitute(p.cond, *pairs)))
                self.solver.push()
                r = self.check([t])
                self.solver.pop()
                if r != z3.unsat:
                    raise Unsupported('early exits depend on the element')
            for (g, payload) in p.effects:
                if mentions(g, c.binders):
                    t = z3.And(c.cond, p.cond, g, z3.substitute(And([c.cond, p.cond]), *pairs),
                               z3.Not(z3.substitute(g, *pairs)))
                    if self.check([t]) != z3.unsat:
                        raise Unsupported('effects at early exit depend on the element')
            if p.kind == 'return' and is_sym(p.value):
                if isinstance(p.value, SObj) or mentions(self.to_v(p.value), c.binders):
                    # value of the first matching element
                    f = SComp(c.binders, And([c.cond, p.cond]), p.value, src.source)
                    if len(exits) > 1:
                        raise Unsupported('several early exits returning elements')
                    p.value = self.app('first_of', [f])
        if self.merge and all(p.kind == 'break' for p in exits) and not s.orelse:
            for p in exits:
                for (g, payload) in p.effects:
                    self.effects.append((ex(And([p.cond, g])), self.close_payload(payload, c)))
            for n in assigned:
                if n in fr.env:
                    fr.env[n] = Poison('%s assigned in a summarised loop' % n)
            return
        for p in exits:
            if self.decide(ex(p.cond)):
                for (g, payload) in p.effects:
                    gg = ex(And([p.cond, g])) if mentions(g, c.binders) else g
                    self.effects.append((gg, self.close_payload(payload, c)))
                for n in assigned:
                    if n in fr.env:
                        fr.env[n] = Poison('%s assigned in a summarised loop' % n)
                if p.kind == 'return':
                    raise ReturnEx(p.value)
                if p.kind == 'break':
                    return
                raise PyRaise(p.value)
        for n in assigned:
            if n in fr.env:
                fr.env[n] = Poison('%s assigned in a summarised loop' % n)
        self.exec_block(s.orelse, fr)

    def close_payload(self, payload, c):
        return payload

    def visible_lists(self, fr):
        out = []
        f = fr
        while f is not None:
            out.extend(v for v in f.env.values() if type(v) is list)
            if f.yields is not None:
                out.append(f.yields)
            f = f.outer
        return out

    def rebind(self, fr, lst, sc):
        f = fr
        while f is not None:
            for n, v in list(f.env.items()):
                if v is lst:
                    f.env[n] = sc
            if f.yields is lst:
                f.yields = sc
            f = f.outer

    def s_While(self, s, fr):
        spec = self.loop_specs.get((fr.qualname, self.loop_ordinal(s, fr)))
        if spec is not None:
            return spec.run_while(self, s, fr)
        n = 0
        while True:
            t = self.truth_expr(s.test, fr)
            before = len(self.dec.taken) if self.dec else 0
            if not self.decide(t):
                self.exec_block(s.orelse, fr)
                return
            n += 1
            if n > 40:
                raise Unsupported('while loop without invariant')
            try:
                self.exec_block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue


# ------------------------------------------------------------------------------------------------

class GenList(list):
    """Result of a finite generator."""


class SymSet(Sym):
    """A finite set with symbolic elements."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = list(items)


class NTuple(Sym):
    """A namedtuple instance of a repo class with symbolic fields."""
    __slots__ = ('cls', 'tup')

    def __init__(self, cls, tup):
        self.cls, self.tup = cls, tup


class SuperProxy:
    def __init__(self, start, cls, obj):
        self.start, self.cls, self.obj = start, cls, obj


class SymAttr(Sym):
    """Attribute of an opaque value, not yet known to be data or a method."""
    __slots__ = ('eng', 'obj', 'name')

    def __init__(self, eng, obj, name):
        self.eng, self.obj, self.name = eng, obj, name

    def force(self):
        return self.eng.app('attr_' + self.name, [self.obj])

    def call(self, args, kwargs):
        h = self.eng.method_contracts.get(self.name)
        if h is not None:
            r = h(self.eng, self.obj, list(args), kwargs)
            if r is not NotImplemented:
                return r
        h = METHODS.get(self.name)
        if h is not None:
            r = h(self.eng, self.obj, *args, **kwargs)
            if r is not NotImplemented:
                return r
        hint = None
        if isinstance(self.obj, SComp) and self.name == 'issubset' and \
                isinstance(args[0], (set, frozenset)) and not is_sym(args[0]):
            return self.eng.wrap_bool(self.eng.comp_subset(self.obj, args[0]))
        if isinstance(self.obj, SV) and isinstance(self.obj.hint, dict):
            cm = self.obj.hint.get('cls_methods') or self.obj.hint.get('cls')
            if cm is not None:
                f = self.eng.class_attr(cm, self.name)
                if isinstance(f, types.FunctionType) and self.eng.inline_ok(f):
                    return self.eng.call(Bound(self.obj, f), list(args), kwargs)
            hint = self.obj.hint.get('methods', {}).get(self.name)
        return self.eng.app('m_' + self.name, [self.obj] + list(args) +
                            [v for _, v in sorted(kwargs.items())], hint=hint)


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


_qcache = {}


_hq_cache = {}


def has_quant(t):
    k = t.get_id()
    if k not in _hq_cache:
        _hq_cache[k] = (any(z3.is_quantifier(x) for x in walk(t)), t)
    return _hq_cache[k][0]


def walk(t):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        yield x
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())


_fb_cache = {}


def has_free_binder(t):
    """Does the term mention a comprehension binder constant (or a bound variable)?"""
    k = t.get_id()
    if k not in _fb_cache:
        r = False
        for x in walk(t):
            if z3.is_var(x):
                continue
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('e!'):
                r = True
                break
        _fb_cache[k] = (r, t)
    return _fb_cache[k][0]


def mentions(t, binders):
    ids = {b.get_id() for b in binders}
    return any(x.get_id() in ids for x in walk(t))


def has_escape(s):
    """Return/break/continue directly inside (not in nested functions; break/continue inside nested loops are fine)."""
    def scan(n, in_loop):
        if isinstance(n, ast.Return):
            return True
        if isinstance(n, (ast.Break, ast.Continue)) and not in_loop:
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            return False
        loop = in_loop or isinstance(n, (ast.For, ast.While))
        return any(scan(c, loop) for c in ast.iter_child_nodes(n))
    return any(scan(x, False) for x in s.body + s.orelse)


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def assigned_names(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


# ------------------------------------------------------------------------------------------------
# builtins

def b_len(eng, x):
    if isinstance(x, SV):
        t = LEN(x.t)
        if not has_free_binder(t):
            eng.fact(t >= 0)
            eng.fact((t > 0) == TRUTH(x.t))
        return SInt(t)
    if isinstance(x, SComp):
        return b_len(eng, SV(eng.comp_v(x)))
    if isinstance(x, SObj):
        m = eng.class_attr(x.cls, '__len__')
        if m is MISSING:
            ga = eng.class_attr(x.cls, '__getattr__')
            raise PyRaise(TypeError('no len'))
        return eng.call(Bound(x, m), [], {})
    if isinstance(x, NTuple):
        return len(x.tup)
    if isinstance(x, SymAttr):
        return b_len(eng, x.force())
    return len(x)


def b_isinstance(eng, x, cls):
    if isinstance(x, SymAttr):
        x = x.force()
    if isinstance(cls, tuple):
        rs = [b_isinstance(eng, x, c) for c in cls]
        if any(r is True for r in rs):
            return True
        ts = [r.t for r in rs if not isinstance(r, bool)]
        return SBool(Or(ts)) if ts else False
    if isinstance(x, (SObj, SInt, NTuple)):
        return issubclass(x.cls, cls)
    if isinstance(x, SBool):
        return issubclass(bool, cls)
    if isinstance(x, SComp):
        return cls in (list, object) if x.flag == 'list' else False
    if isinstance(x, (Closure, Bound)):
        return cls in (types.FunctionType, object)
    if isinstance(x, SV):
        if isinstance(x.hint, dict):
            k = x.hint.get('isinstance', {}).get(cls)
            if k is not None:
                return k
            hc = x.hint.get('cls')
            if hc is not None:
                return issubclass(hc, cls)
        return SBool(eng.pred(cls)(x.t))
    return isinstance(x, cls)


def b_any(eng, it):
    src = eng.iter_sym(it)
    if isinstance(src, list):
        ts = []
        for x in src:
            t = eng.truth(x)
            if t is True:
                return True
            if t is not False:
                ts.append(t)
        return SBool(Or(ts)) if ts else False
    c = eng.open_comp(src)
    eng.binder_depth += len(c.binders)
    try:
        t = as_z3(eng.truth(c.val))
    finally:
        eng.binder_depth -= len(c.binders)
    return SBool(z3.Exists(c.binders, And([c.cond, t])))


def b_all(eng, it):
    src = eng.iter_sym(it)
    if isinstance(src, list):
        ts = []
        for x in src:
            t = eng.truth(x)
            if t is False:
                return False
            if t is not True:
                ts.append(t)
        return SBool(And(ts)) if ts else True
    c = eng.open_comp(src)
    eng.binder_depth += len(c.binders)
    try:
        t = as_z3(eng.truth(c.val))
    finally:
        eng.binder_depth -= len(c.binders)
    return SBool(z3.Not(z3.Exists(c.binders, And([c.cond, Not(t)]))))


def b_bool(eng, x=False):
    return eng.wrap_bool(eng.truth(x))


def b_getattr(eng, x, name, *default):
    try:
        r = eng.getattr(x, name)
    except PyRaise as e:
        if default and isinstance(e.exc, AttributeError):
            return default[0]
        raise
    return r


def b_hasattr(eng, x, name):
    try:
        eng.getattr(x, name)
        return True
    except PyRaise:
        return False


def b_iter(eng, x):
    r = eng.iter_sym(x)
    return r if isinstance(r, SComp) else GenList(r)


def b_list(eng, x=()):
    r = eng.iter_sym(x)
    if isinstance(r, SComp):
        return SComp(r.binders, r.cond, r.val, r.source, 'list')
    return eng.born(list(r))


def b_tuple(eng, x=()):
    r = eng.iter_sym(x)
    if isinstance(r, SComp):
        raise Unsupported('tuple of symbolic sequence')
    return tuple(r)


def b_set(eng, x=()):
    r = eng.iter_sym(x)
    if isinstance(r, SComp):
        return SComp(r.binders, r.cond, r.val, r.source, 'set')
    if any(is_sym(y) for y in r):
        return SymSet(r)
    return eng.born(set(r))


def b_frozenset(eng, x=()):
    return b_set(eng, x)


def b_dict(eng, *args, **kw):
    d = {}
    if args:
        if isinstance(args[0], dict):
            d.update(args[0])
        elif isinstance(args[0], Sym):
            raise Unsupported('dict of symbolic')
        else:
            d.update(dict(args[0]))
    star = kw.pop('**', None)
    if star is not None:
        raise Unsupported('dict(**symbolic)')
    d.update(kw)
    return eng.born(d)


def b_enumerate(eng, x, start=0):
    r = eng.iter_sym(x)
    if isinstance(r, SComp):
        idx = eng.app('index_of', [SV(r.source)] + [SV(b) for b in r.binders])
        return SComp(r.binders, r.cond, (SInt(V2I(idx.t)), r.val), r.source, 'gen')
    return GenList(list(enumerate(r, start)))


def b_zip(eng, *xs):
    rs = [eng.iter_sym(x) for x in xs]
    if any(isinstance(r, SComp) for r in rs):
        raise Unsupported('zip of symbolic')
    return GenList(list(zip(*rs)))


def b_sum(eng, x, start=0):
    r = eng.iter_sym(x)
    if isinstance(r, SComp):
        return SInt(eng.app('sum', [r], rng=I).t)
    acc = start
    for y in r:
        acc = eng.binop(ast.Add(), acc, y)
    return acc


def b_int(eng, *args):
    if any(is_sym(a) for a in args):
        x = args[0]
        if isinstance(x, (SInt,)):
            return SInt(x.t)
        return SInt(eng.app('int_of', list(args), rng=I).t)
    try:
        return int(*args)
    except Exception as e:
        raise PyRaise(e)


def b_str(eng, *args):
    if any(is_sym(a) for a in args):
        return eng.app('str_of', list(args))
    return str(*args)


def b_sorted(eng, x, **kw):
    r = eng.iter_sym(x)
    if isinstance(r, SComp) or any(is_sym(y) for y in r):
        return eng.app('sorted', [x])
    return eng.born(sorted(r, **kw))


def b_minmax(name):
    def f(eng, *args, **kw):
        if any(is_sym(a) for a in args):
            if len(args) == 2 and all(isinstance(a, (int, SInt)) for a in args):
                a, b = eng.to_int(args[0]), eng.to_int(args[1])
                return SInt(z3.If(a <= b, a, b) if name == 'min' else z3.If(a >= b, a, b))
            raise Unsupported(name)
        return getattr(builtins, name)(*args, **kw)
    return f


def b_next(eng, it, *default):
    if isinstance(it, GenList):
        eng.mutate(it)
        if it:
            return it.pop(0)
        if default:
            return default[0]
        raise PyRaise(StopIteration())
    raise Unsupported('next on %r' % (it,))


def b_type(eng, x):
    if isinstance(x, (SObj, SInt, NTuple)):
        return x.cls
    if isinstance(x, Sym):
        raise Unsupported('type of symbolic')
    return type(x)


def b_callable(eng, x):
    if isinstance(x, (Closure, Bound)):
        return True
    if isinstance(x, Sym):
        raise Unsupported('callable')
    return callable(x)


def b_id(eng, x):
    if isinstance(x, Sym):
        return SInt(eng.app('id_of', [x], rng=I).t)
    return id(x)


def b_hash(eng, x):
    if isinstance(x, SObj):
        m = eng.class_attr(x.cls, '__hash__')
        if isinstance(m, types.FunctionType):
            return eng.call(Bound(x, m), [], {})
    if isinstance(x, NTuple):
        m = eng.class_attr(x.cls, '__hash__')
        if isinstance(m, types.FunctionType) and eng.inline_ok(m):
            return eng.call(Bound(x, m), [], {})
    if is_sym(x):
        return SInt(eng.app('hash_of', [x], rng=I).t)
    return hash(x)


def b_reversed(eng, x):
    r = eng.iter_sym(x)
    if isinstance(r, SComp):
        raise Unsupported('reversed symbolic')
    return GenList(reversed(r))


def b_repr(eng, x):
    if is_sym(x):
        return eng.app('repr_of', [x])
    return repr(x)


def op_cmp(node):
    def f(eng, a, b):
        return eng.wrap_bool(eng.cmp(node, a, b))
    return f


def op_bin(node):
    def f(eng, a, b):
        return eng.binop(node, a, b)
    return f


def stand_in(f):
    """Whether a class or function belongs to the specifications, not to the code."""
    return (getattr(f, '__module__', None) or '').startswith('contracts.')


def percent_parts(template, args):
    """The pieces of template % args, or None when it uses more than %s and %d."""
    parts, i = [], 0
    args = list(args)
    while i < len(template):
        j = template.find('%', i)
        if j < 0:
            parts.append(template[i:])
            break
        parts.append(template[i:j])
        c = template[j + 1:j + 2]
        if c == '%':
            parts.append('%')
        elif c and c in 'sd' and args:
            parts.append((c, args.pop(0)))
        else:
            return None
        i = j + 2
    return None if args else parts


def brace_parts(template, args, kwargs):
    """The pieces of template.format(...), or None when it uses more than plain fields."""
    parts = []
    n = 0
    try:
        for lit, name, spec, conv in string.Formatter().parse(template):
            parts.append(lit)
            if name is None:
                continue
            if spec or conv:
                return None
            if name == '':
                name, n = str(n), n + 1
            parts.append(('s', args[int(name)] if name.isdigit() else kwargs[name]))
    except (ValueError, IndexError, KeyError):
        return None
    return parts


BUILTINS = {
    len: b_len, isinstance: b_isinstance, any: b_any, all: b_all, bool: b_bool, getattr: b_getattr,
    hasattr: b_hasattr, iter: b_iter, list: b_list, tuple: b_tuple, set: b_set, frozenset: b_frozenset,
    dict: b_dict, enumerate: b_enumerate, zip: b_zip, sum: b_sum, int: b_int, str: b_str, sorted: b_sorted,
    min: b_minmax('min'), max: b_minmax('max'), next: b_next, type: b_type, callable: b_callable, id: b_id,
    hash: b_hash, reversed: b_reversed, repr: b_repr,
    operator.lt: op_cmp(ast.Lt()), operator.le: op_cmp(ast.LtE()), operator.gt: op_cmp(ast.Gt()),
    operator.ge: op_cmp(ast.GtE()), operator.eq: op_cmp(ast.Eq()), operator.ne: op_cmp(ast.NotEq()),
    operator.add: op_bin(ast.Add()), operator.and_: op_bin(ast.BitAnd()), operator.or_: op_bin(ast.BitOr()),
    operator.contains: lambda eng, a, b: eng.wrap_bool(eng.contains(a, b)),
    operator.not_: lambda eng, a: eng.wrap_bool(Not(eng.truth(a))),
    operator.truth: b_bool,
}


def m_eq(eng, a, b):
    return eng.wrap_bool(eng.eq(a, b))


METHODS = {
    '__eq__': m_eq,
    '__ne__': lambda eng, a, b: eng.wrap_bool(Not(eng.eq(a, b))),
}
