"""C06: the recogniser (`_inner_parse`) against the inference rules of Earley's algorithm.

The body of each loop of the real function is interpreted once, from an arbitrary state that satisfies the invariants of
the chart, and every obligation is about the items it adds:

  sound    an item (symbol, rule, pos, start) is added at position k only by one of the four rules: a rule of a predicted
           nonterminal (or of the target, at 0), an item whose terminal matches the octet (k is the next position), an item
           waiting at `start` for the symbol completed here, an item whose next symbol is nullable.  By induction over the
           items added, every item in the chart stands for a derivation: the first `pos` symbols of the rule derive
           data[start:k].
  closed   when an item has been visited, everything that these rules derive from it has been added (an item completed
           without consuming input is covered by the nullable rule), every item of a position is visited, positions are
           visited in order, and one is left out only when it and so all later ones have no items.  So every derivation is
           in the chart.
  verdict  a result is returned only for a derivation of the target over all the data, and the error is raised only if
           there are no items at the end of the data, or none of the results begins at 0.

  results  `_find_results` gives only results that the chart supports (the symbols of a completed item, each with a result of its
           own that ends where the next one begins), built by the rule's action from theirs in order, and goes on to the next
           possibility in a fixed order until there is none.

Used contracts: `_add_item` (proved below: adds unless present), `is_nullable` (bounded only), `_unroll` (drives the generators:
bounded only).  Which results are avoided to end recursion without progress is checked for its form only (undecided otherwise)."""
import ast
import time

import z3

from contracts.relcheck import inline
from pyvc.engine import BUILTINS, BreakEx, ContinueEx, PathEnd, PyRaise, Unsupported, as_z3
from pyvc.relational import RelEngine, Seq, Splat, assigned_names, r_range
from pyvc.terms import SBool, SInt, SV, SObj, const, fn, LEN, TRUTH, V, I, B

from httpolice import parse as parse_module
from httpolice.parse import Nonterminal, ParseError, Terminal

P = 'httpolice.parse.'

XSYM = fn('symbol_at', [V, I], V)           # the symbol after the first i ones of a rule, None at the end
SIZE = fn('rule_length', [V], I)
RULE = fn('is_rule_of', [V, V], B)
NULLABLE = fn('is_nullable', [V], B)
MATCH = fn('octet_matches', [V, I], B)      # terminal, index into the data
ITEMS = fn('items_at', [I, I], I)           # number of items at a position, and how many additions ago


class Chart:
    def __getitem__(self, i):
        raise NotImplementedError

    def append(self, x):
        raise NotImplementedError

    def __len__(self):
        raise NotImplementedError


class Items:
    def append(self, x):
        raise NotImplementedError

    def __getitem__(self, j):
        raise NotImplementedError

    def __len__(self):
        raise NotImplementedError


class Index:
    def setdefault(self, symbol, default):
        raise NotImplementedError

    def get(self, symbol, default=None):
        raise NotImplementedError


class Fingerprints:
    def __contains__(self, x):
        raise NotImplementedError

    def add(self, x):
        raise NotImplementedError


class Waiting:
    """The items whose next symbol is a given one."""

    def append(self, x):
        raise NotImplementedError


class RuleSymbols:
    def __getitem__(self, i):
        raise NotImplementedError

    def __len__(self):
        raise NotImplementedError


class Octet:
    """data[i:i+1]"""

    def decode(self, encoding):
        raise NotImplementedError


def z(x):
    return as_z3(x) if not isinstance(x, SInt) else x.t


class StepEngine(RelEngine):
    """Loops by their invariants: a `while` loop and one over a range are either left or in an arbitrary iteration; one
    over an opaque sequence is in an arbitrary iteration."""

    def __init__(self):
        RelEngine.__init__(self, inline=inline)
        self.results = []
        self.deadline = time.time() + 100

    def oblige(self, what, cond, certain=True):
        """`certain`: a failure is a violation (and not only another way of writing the loop)"""
        if self.dec.pos < len(self.dec.prefix):
            return          # shown on the path that this one was forked from
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        cond = z3.simplify(cond)
        st = z3.unsat if z3.is_true(cond) else self.solve([z3.Not(cond)])[0]
        detail = ''
        if st != z3.unsat:
            detail = 'not shown: %s; on the path %s; items added: %s' % (
                str(cond)[:600], str(z3.simplify(z3.And(list(self.pc_conds) + list(self.dec.conds))))[:1500], self.added)
            if st == z3.sat and certain and self.known_path():
                self.results.append((what, 'refuted', detail))
            else:
                self.results.append((what, 'undecided', detail))
        else:
            self.results.append((what, 'discharged', ''))

    def forget_names(self):
        """Facts about what was fresh on an earlier path are of no use."""
        if not self.facts:
            return
        kept = [f for f in self.facts if '!' not in f.sexpr()]
        self.facts[:] = kept
        self.fact_ids = {f.get_id() for f in kept}

    def known_path(self):
        """The path depends on nothing but the chart and the grammar."""
        ok = {'symbol_at', 'rule_length', 'is_rule_of', 'is_nullable', 'octet_matches', 'items_at'}
        seen, stack = set(), [c for c in list(self.dec.conds)]
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and t.decl().name() not in ok and \
                    not t.decl().name().startswith(('is_', 'len', 'truth', 'lit')):
                return False
            stack += t.children()
        return True

    # -- values

    def item(self, k, key=None):
        s, r = self.fresh('sym'), self.fresh('rule')
        p, st = self.fresh('pos', I), self.fresh('start', I)
        self.fact(z3.And(RULE(s, r), p >= 0, p <= SIZE(r), st >= 0, st <= k))
        self.symbol_facts(r, p)
        self.read.append(((s, r, p, st), k, key))
        return (SV(s), SV(r), SInt(p), SInt(st))

    def symbol_facts(self, r, p):
        x = XSYM(r, p)
        none, nt, t = x == self.lit(None), self.pred(Nonterminal)(x), self.pred(Terminal)(x)
        self.fact(z3.And(z3.Or(none, nt, t), z3.Not(z3.And(none, nt)), z3.Not(z3.And(none, t)), z3.Not(z3.And(nt, t)),
                         none == (p == SIZE(r)), SIZE(r) >= 0, z3.Implies(none, z3.Not(TRUTH(x))), z3.Implies(z3.Not(none), TRUTH(x))))

    def position(self, k):
        return (SObj(Items, {'k': k, 'n': SInt(self.fresh('n_items', I))}, meta={'constructed': True}),
                SObj(Index, {'k': k}, meta={'constructed': True}), SObj(Fingerprints, {'k': k}, meta={'constructed': True}))

    def at(self, k):
        """The inventory of position k (a term); positions that are certainly the same share it."""
        for k1, inv in self.inventories:
            if self.valid(k1 == k):
                return inv
        inv = self.position(k)
        self.fact(inv[0].attrs['n'].t >= 0)
        self.inventories.append((k, inv))
        return inv

    def getattr(self, x, name):
        if isinstance(x, SV) and name in ('symbols', 'xsymbols'):
            return SObj(RuleSymbols, {'rule': x.t, 'x': name == 'xsymbols'}, meta={'constructed': True})
        if isinstance(x, SV) and name == 'rules':
            return Seq('rules', [x.t], lambda eng: eng.some_rule(x.t))
        return RelEngine.getattr(self, x, name)

    def some_rule(self, s):
        r = self.fresh('rule')
        self.fact(RULE(s, r))
        self.symbol_facts(r, z3.IntVal(0))
        self.rules_read.append((s, r))
        return SV(r)

    def getitem(self, x, k):
        if isinstance(x, SV) and x.t.eq(self.data) and isinstance(k, slice) and k.step is None and k.start is not None and \
                k.stop is not None and self.valid(z(k.stop) == z(k.start) + 1):
            i = z(k.start)
            return SObj(Octet, {'i': i}, meta={'constructed': True})
        if isinstance(x, Seq):
            raise Unsupported('a part of an opaque sequence')
        return RelEngine.getitem(self, x, k)

    def truth(self, x):
        if isinstance(x, SObj) and x.cls is Octet:
            return z3.And(x.attrs['i'] >= 0, x.attrs['i'] < LEN(self.data))
        return RelEngine.truth(self, x)

    # -- loops

    def s_For(self, s, fr):
        src = self.eval(s.iter, fr)
        if isinstance(src, SObj) and src.cls is Items:
            return self.visit(s, src, fr)
        if isinstance(src, Seq) and src.kind in ('rules', 'waiting'):
            return self.each(s, src, fr)
        if isinstance(src, Seq) and src.kind == 'range' and not s.orelse:
            return self.positions(s, src, fr)
        if isinstance(src, (SV, Splat)) or isinstance(src, list) and any(isinstance(y, Splat) for y in src):
            t = src.t if isinstance(src, SV) else src[0].t if len(src) == 1 else None
            if t is not None and not s.orelse:
                return self.each(s, Seq('results', [t], lambda eng: eng.a_result(t)), fr)
        if isinstance(src, (list, tuple)) and not any(isinstance(y, Splat) for y in src):
            return RelEngine.s_For(self, s, fr)
        raise Unsupported('a loop over %r' % (src,))

    def forget(self, s, fr):
        for n in assigned_names(s.body):
            if n in fr.env:
                v = fr.env[n]
                fr.env[n] = self.havoc(v, n, None) if isinstance(v, (SInt, int, bool, SBool, SV)) else self.unknown(n)

    def unknown(self, n):
        from pyvc.engine import Poison
        return Poison('%s after a loop' % n)

    def each(self, s, src, fr):
        before = dict(fr.env)
        self.forget(s, fr)
        self.assign(s.target, src.make(self), fr)
        if self.valid(False):
            raise Unsupported('a loop over nothing')
        try:
            self.exec_block(s.body, fr)
        except ContinueEx:
            pass
        except BreakEx:
            raise Unsupported('a loop that is left early')
        for n in list(fr.env):
            if n not in before:
                del fr.env[n]
        self.forget(s, fr)

    def a_result(self, t):
        r = self.fresh('found')
        i = self.fresh('begin', I)
        self.begins.append((i, r, t))
        return (SInt(i),) + tuple(self.app('found_%s' % n, [SV(r)]) for n in ('item', 'result', 'complaints', 'annotations'))

    def chart_name(self, fr):
        names = [n for n, v in fr.env.items() if isinstance(v, list) and v and all(isinstance(y, tuple) and len(y) == 3 for y in v)]
        if len(names) != 1:
            raise Unsupported('no chart')
        return names[0]

    def positions(self, s, src, fr):
        lo, hi = src.terms
        if self.chart is not None:
            raise Unsupported('a second loop over positions')
        name = self.chart_name(fr)
        first = fr.env[name]
        self.oblige('positions: from the first to the end of the data', z3.And(lo == 0, hi == LEN(self.data) + 1), certain=False)
        self.oblige('the chart begins with one position', len(first) == 1, certain=False)
        inv = first[0]
        ok = isinstance(inv[0], list) and isinstance(inv[1], dict) and isinstance(inv[2], set)
        self.oblige('the chart begins empty', ok and not inv[0] and not inv[1] and not inv[2], certain=False)
        for (where, (sy, r, p, st), _) in self.adds:
            self.oblige('sound: what is added before the first position', z3.And(
                z3.BoolVal(where == tuple(map(id, inv))), RULE(sy, r), sy == self.target, p == 0, st == 0))
        covered = [z3.And(sy == self.target, r == r1, p == 0, st == 0) for (s1, r1) in self.rules_read
                   for (_, (sy, r, p, st), _) in self.adds if s1.eq(self.target)]
        self.oblige('closed: all rules of the target are expected at the first position', z3.Or(covered) if covered else False)
        self.adds, self.rules_read, self.read, self.inventories = [], [], [], []
        i = self.fresh('i', I)
        self.fact(z3.And(i >= 0, i <= LEN(self.data)))
        self.chart = SObj(Chart, {}, meta={'constructed': True})
        self.pos = i
        names = assigned_names(s.body)
        for n in names:
            if n in fr.env:
                fr.env[n] = self.unknown(n)
        fr.env[name] = self.chart
        if self.decide(self.fresh('all_positions_seen', B)):
            # left at the end: the last position has been visited
            self.assign(s.target, SInt(LEN(self.data)), fr)
            self.size = LEN(self.data) + 2
            self.finished = 'end'
            return
        self.size = i + 1
        self.assign(s.target, SInt(i), fr)
        try:
            self.exec_block(s.body, fr)
        except ContinueEx:
            pass
        except BreakEx:
            n = self.at(i)[0].attrs['n'].t
            self.oblige('closed: a position is left out only if it has no items', n == 0)
            self.finished = 'early'
            return
        self.oblige('one more position is prepared than was visited', self.size == i + 2, certain=False)
        self.oblige('closed: the items of a position are visited', self.visited, certain=False)
        raise PathEnd('one position')

    def index_names(self, s, fr):
        return [n for n in sorted(assigned_names(s.body)) if n in fr.env and isinstance(fr.env[n], (int, SInt)) and not
                isinstance(fr.env[n], bool)]

    def s_While(self, s, fr):
        if self.chart is None or s.orelse:
            raise Unsupported('a while loop')
        items, index_, prints = self.at(self.pos)
        names = self.index_names(s, fr)
        at_start = {n: fr.env[n] for n in names}
        self.forget(s, fr)
        if self.decide(self.fresh('all_items_seen', B)):
            self.visited = True
            return
        endless = isinstance(s.test, ast.Constant) and bool(s.test.value)
        n0 = items.attrs['n'].t
        cands = {n: fr.env[n].t for n in names}
        j = None
        if len(cands) == 1:
            (jn, j), = cands.items()
            self.oblige('closed: the first item is visited', z(at_start[jn]) == 0, certain=False)
            self.fact(j >= 0)
            if endless:
                self.oblige('there is an item to visit', n0 > 0, certain=False)
                self.fact(j < n0)
        else:
            raise Unsupported('no index of items')
        left = False
        if not self.decide(as_z3(self.truth_expr(s.test, fr))):
            self.oblige('closed: all items are visited', j >= items.attrs['n'].t, certain=False)
            raise PathEnd('no more items')
        self.now = j
        try:
            self.exec_block(s.body, fr)
        except ContinueEx:
            pass
        except BreakEx:
            left = True
        self.one_item_done()
        self.oblige('closed: the next item is visited next', z(fr.env[jn]) == j + 1, certain=False)
        if left:
            self.oblige('closed: all items are visited', j + 1 >= items.attrs['n'].t, certain=False)
        elif endless:
            self.oblige('there is an item to visit next', j + 1 < items.attrs['n'].t, certain=False)
        raise PathEnd('one item')

    def visit(self, s, items, fr):
        """for item in items: also visits those that are added meanwhile"""
        if self.chart is None or s.orelse or not self.valid(items.attrs['k'] == self.pos):
            raise Unsupported('a loop over the items of another position')
        self.forget(s, fr)
        if self.decide(self.fresh('all_items_seen', B)):
            self.visited = True
            return
        self.assign(s.target, self.item(self.pos), fr)
        try:
            self.exec_block(s.body, fr)
        except ContinueEx:
            pass
        except BreakEx:
            raise Unsupported('a loop that is left early')
        self.one_item_done()
        raise PathEnd('one item')

    # -- obligations of one visited item

    def one_item_done(self):
        here = [x for x in self.read if x[2] is None]
        if len(here) != 1:
            raise Unsupported('%d items are read in one iteration' % len(here))
        (s, r, p, st), k, _ = here[0]
        nxt = XSYM(r, p)
        i = self.pos
        completed, predicted = nxt == self.lit(None), self.pred(Nonterminal)(nxt)
        scanned = z3.And(self.pred(Terminal)(nxt), i < LEN(self.data), MATCH(nxt, i))

        def is_(add, k1, item):
            where, (s1, r1, p1, st1), _ = add
            return z3.And(where == k1, s1 == item[0], r1 == item[1], p1 == item[2], st1 == item[3])
        waiting = [x for x in self.read if x[2] is not None]
        for add in self.adds:
            where, (s1, r1, p1, st1), _ = add
            ways = [z3.And(predicted, RULE(nxt, r1), s1 == nxt, p1 == 0, st1 == i, where == i),
                    z3.And(scanned, is_(add, i + 1, (s, r, p + 1, st))),
                    z3.And(predicted, NULLABLE(nxt), is_(add, i, (s, r, p + 1, st)))]
            for (sw, rw, pw, stw), kw, key in waiting:
                ways.append(z3.And(completed, kw == st, key == s, is_(add, i, (sw, rw, pw + 1, stw))))
            self.oblige('sound: what is added follows by a rule', z3.Or(ways))
        done = [z3.And(kw == st, key == s, is_(add, i, (sw, rw, pw + 1, stw)))
                for (sw, rw, pw, stw), kw, key in waiting for add in self.adds]
        self.oblige('closed: completed', z3.Implies(completed, z3.Or(done) if done else z3.BoolVal(False)))
        done = [z3.And(s1 == nxt, is_(add, i, (nxt, rr, z3.IntVal(0), i))) for s1, rr in self.rules_read for add in self.adds]
        self.oblige('closed: predicted', z3.Implies(predicted, z3.Or(done) if done else z3.BoolVal(False)))
        done = [is_(add, i, (s, r, p + 1, st)) for add in self.adds]
        self.oblige('closed: nullable', z3.Implies(z3.And(predicted, NULLABLE(nxt)), z3.Or(done) if done else z3.BoolVal(False)))
        done = [is_(add, i + 1, (s, r, p + 1, st)) for add in self.adds]
        self.oblige('closed: scanned', z3.Implies(scanned, z3.Or(done) if done else z3.BoolVal(False)))


def add_item(e, a, k):
    if k or len(a) != 7:
        raise Unsupported('another form of _add_item')
    items, index_, prints, s, r, p, st = a
    it = (e.to_v(s), e.to_v(r), z(p), z(st))
    if isinstance(items, list):
        where = (id(items), id(index_), id(prints))
    else:
        if not (isinstance(items, SObj) and items.cls is Items and isinstance(index_, SObj) and index_.cls is Index and
                isinstance(prints, SObj) and prints.cls is Fingerprints):
            raise Unsupported('an unknown inventory')
        ks = [x.attrs['k'] for x in (items, index_, prints)]
        e.oblige('the parts of one inventory are used together', z3.And(ks[0] == ks[1], ks[0] == ks[2]))
        where = ks[0]
        n = e.fresh('n_items', I)
        e.fact(n >= items.attrs['n'].t)
        items.attrs['n'] = SInt(n)
    e.adds.append((where, it, len(e.adds)))
    e.added = [(str(w), [str(x) for x in i]) for w, i, _ in e.adds]


def chart_get(e, a, k):
    i = z(a[1])
    e.oblige('a position of the chart', z3.And(i >= 0, i < e.size), certain=False)
    return e.at(i)


def chart_append(e, a, k):
    x = a[1]
    if not (isinstance(x, tuple) and len(x) == 3 and isinstance(x[0], list) and isinstance(x[1], dict) and isinstance(x[2], set)):
        raise Unsupported('an unknown inventory')
    e.oblige('a new position has no items', not x[0] and not x[1] and not x[2])
    e.size = e.size + 1


def items_get(e, a, k):
    items, j = a
    if e.now is None or not e.valid(z3.And(items.attrs['k'] == e.pos, z(j) == e.now)):
        raise Unsupported('another item')
    for x in e.read:
        if x[2] is None:
            (s, r, p, st) = x[0]
            return (SV(s), SV(r), SInt(p), SInt(st))
    return e.item(e.pos)


def index_get(e, a, k):
    idx, key = a[0], e.to_v(a[1])
    default = a[2] if len(a) > 2 else None
    if default not in ([], ()):
        raise Unsupported('another default')

    def make(eng):
        it = eng.item(idx.attrs['k'], key)
        (s, r, p, st), _, _ = eng.read[-1]
        eng.fact(XSYM(r, p) == key)
        eng.symbol_facts(r, p)
        return it
    return Seq('waiting', [idx.attrs['k'], key], make)


def symbols_get(e, a, k):
    rule, i = a[0].attrs['rule'], a[1]
    if isinstance(i, slice) or not isinstance(i, (int, SInt)):
        raise Unsupported('a part of a rule')
    t = z(i)
    if e.valid(t < 0):
        t = z3.simplify(SIZE(rule) + (1 if a[0].attrs['x'] else 0) + t)
    if not a[0].attrs['x'] and not e.valid(t < SIZE(rule)):
        raise Unsupported('beyond the end of a rule')
    return SV(XSYM(rule, t))


def matches(e, o, args, kw):
    if len(args) != 1 or not (isinstance(args[0], SObj) and args[0].cls is Octet):
        raise Unsupported('match of something else')
    return SBool(MATCH(e.to_v(o), args[0].attrs['i']))


def step_engine():
    eng = StepEngine()
    C = eng.contracts
    C[parse_module._add_item] = add_item
    C[Chart.__getitem__] = chart_get
    C[Chart.append] = chart_append
    C[Chart.__len__] = lambda e, a, k: SInt(e.size)
    C[Items.__getitem__] = items_get
    C[Items.__len__] = lambda e, a, k: a[0].attrs['n']
    C[Index.get] = index_get
    C[RuleSymbols.__getitem__] = symbols_get
    C[RuleSymbols.__len__] = lambda e, a, k: SInt(SIZE(a[0].attrs['rule']) + (1 if a[0].attrs['x'] else 0))
    C[parse_module._find_results] = lambda e, a, k: e.app('find_results', [x if not (isinstance(x, SObj) and x.cls is Chart) else SV(const('the_chart'))
                                                                         for x in a])
    C[parse_module._unroll] = lambda e, a, k: e.app('unrolled', list(a))
    C[parse_module._build_parse_error] = lambda e, a, k: SObj(ParseError, {}, meta={'constructed': True})
    eng.method_contracts['match'] = matches
    eng.method_contracts['is_nullable'] = lambda e, o, a, k: SBool(NULLABLE(e.to_v(o)))
    return eng


def recogniser():
    """-> [(label, status, detail)]"""
    eng = step_engine()

    def thunk():
        eng.forget_names()
        eng.data, eng.target, eng.classes = const('data'), const('target'), const('classes')
        eng.adds, eng.added, eng.rules_read, eng.read, eng.inventories, eng.begins = [], [], [], [], [], []
        eng.chart, eng.size, eng.visited, eng.now, eng.finished, eng.pos = None, None, False, None, None, None
        data = SV(eng.data, bytes)
        eng.fact(eng.pred(bytes)(eng.data))
        eng.fact(LEN(eng.data) >= 0)
        expected = eng.to_v(eng.app('unrolled', [eng.app('find_results', [data, SV(eng.target), SV(const('the_chart')), SInt(LEN(eng.data)), [],
                                                                          SV(eng.classes)])]))
        try:
            r = eng.call_function(parse_module._inner_parse, [data, SV(eng.target), SV(eng.classes)], {})
        except PyRaise as e:
            if eng.finished is None:
                raise
            cls = e.exc.cls if isinstance(e.exc, SObj) else type(e.exc)
            eng.oblige('verdict: what is raised', cls is ParseError)
            if eng.finished == 'end':
                # some result was looked at and rejected
                eng.oblige('verdict: the error is raised only if no result begins at the beginning of the data',
                           z3.Or([z3.And(t == expected, i != 0) for i, _, t in eng.begins]) if eng.begins else False)
            return
        if eng.finished is None:
            raise Unsupported('no loop over positions')
        if not (isinstance(r, tuple) and len(r) == 3):
            raise Unsupported('another form of result')
        got = [eng.to_v(x) for x in r]
        ways = [z3.And(t == expected, i == 0, eng.pos == LEN(eng.data) if eng.finished == 'early' else z3.BoolVal(True),
                       *[g == eng.to_v(eng.app('found_%s' % n, [SV(f)])) for g, n in zip(got, ('result', 'complaints', 'annotations'))])
                for i, f, t in eng.begins]
        eng.oblige('verdict: what is returned is a result for all of the data', z3.Or(ways) if ways else False)
    paths = eng.explore(thunk)
    for p in paths:
        if p.kind == 'raise':
            eng.results.append(('no exception within a loop', 'undecided', repr(p.value)[:300]))
    return eng.results, paths


# ---- _add_item: the item is added to the three parts of the inventory, unless its fingerprint is there

ID = fn('identity_of', [V], I)


def adding():
    """-> [(label, status, detail)]"""
    eng = step_engine()
    C = eng.contracts
    del C[parse_module._add_item]
    C[id] = lambda e, a, k: SInt(ID(e.to_v(a[0])))

    def event(what):
        def handler(e, a, k):
            e.events.append((what, a))
        return handler
    C[Items.append] = event('items')
    C[Fingerprints.add] = event('prints')
    C[Waiting.append] = event('waiting')

    def present(e, a, k):
        e.asked.append(a[1])
        return SBool(const('present', B))
    C[Fingerprints.__contains__] = present

    def setdefault(e, a, k):
        if len(a) != 3 or a[2] != []:
            raise Unsupported('another default')
        return SObj(Waiting, {'key': e.to_v(a[1])}, meta={'constructed': True})
    C[Index.setdefault] = setdefault

    def thunk():
        eng.forget_names()
        eng.read, eng.rules_read, eng.added, eng.adds, eng.data, eng.pos, eng.now = [], [], None, [], const('data'), None, None
        eng.events, eng.asked = [], []
        inv = eng.position(const('k', I))
        s, r, p, st = const('symbol'), const('rule'), const('pos', I), const('start', I)
        eng.fact(z3.And(p >= 0, p <= SIZE(r)))
        eng.symbol_facts(r, p)
        eng.call_function(parse_module._add_item, list(inv) + [SV(s), SV(r), SInt(p), SInt(st)], {})
        eng.added = [w for w, _ in eng.events]
        if len(eng.asked) != 1:
            raise Unsupported('the fingerprints are asked %d times' % len(eng.asked))
        known = eng.decide(const('present', B))
        if known:
            return eng.oblige('add: an item that is present is not added again', not eng.events)
        eng.oblige('add: all parts of the inventory get the item', sorted(w for w, _ in eng.events) == ['items', 'prints', 'waiting'])
        for what, a in eng.events:
            if what == 'prints':
                eng.oblige('add: the fingerprint looked for is the one that is kept', as_z3(eng.same(a[1], eng.asked[0])))
                continue
            it = a[1]
            if not (isinstance(it, tuple) and len(it) == 4):
                raise Unsupported('another form of item')
            eng.oblige('add: what the %s get' % what, z3.And(eng.to_v(it[0]) == s, eng.to_v(it[1]) == r, z(it[2]) == p, z(it[3]) == st))
            if what == 'waiting':
                eng.oblige('add: items are found by their next symbol', a[0].attrs['key'] == XSYM(r, p))
        # different items have different fingerprints
        print_ = eng.asked[0]
        if not isinstance(print_, tuple):
            raise Unsupported('another form of fingerprint')
        other = [(s, eng.fresh('symbol')), (r, eng.fresh('rule')), (p, eng.fresh('pos', I)), (st, eng.fresh('start', I))]
        for a, b in other[:2]:
            eng.fact(z3.Implies(ID(a) == ID(b), a == b))
        mine = [x.t if isinstance(x, SInt) else eng.to_v(x) for x in print_]
        same = z3.And([t == z3.substitute(t, other) for t in mine])
        eng.oblige('add: different items have different fingerprints', z3.Implies(same, z3.And([a == b for a, b in other])))
    for path in eng.explore(thunk):
        if path.kind == 'raise':
            eng.results.append(('add: no exception', 'undecided', repr(path.value)[:300]))
    return eng.results


# ---- _find_results: how results are read off the chart

NODES, COMPLAINTS, ANNOTATIONS = (const('frames_' + n) for n in ('nodes', 'complaints', 'annotations'))
SKIP = parse_module._SKIP


class Stack:
    """The frames: one per symbol of the rule, the last symbol first; `depth` of them, the top one not yet looked at."""

    def pop(self):
        raise NotImplementedError

    def append(self, x):
        raise NotImplementedError

    def __len__(self):
        raise NotImplementedError


class ResultEngine(StepEngine):

    def __init__(self):
        StepEngine.__init__(self)
        self.changed = set()

    def begin(self):
        self.read, self.rules_read, self.added, self.adds, self.inventories = [], [], None, [], []
        self.pos = self.now = self.top = self.got = self.item_at = None
        self.stack, self.asked, self.yielded, self.pushed, self.left, self.looked = None, 0, [], [], False, False
        self.complained = self.acted = False
        self.size = LEN(self.data) + 1

    def known_path(self):
        return True

    # -- the rule at hand

    def rule_at_hand(self):
        (s, r, p, st), k, _ = self.item_at
        return r, st

    def repeated(self):
        r, _ = self.rule_at_hand()
        return z3.And(self.pred(parse_module.RepeatedNonterminal)(self.symbol), XSYM(r, 0) == self.symbol)

    def symbol_wanted(self, depth):
        r, _ = self.rule_at_hand()
        return z3.If(self.repeated(), XSYM(r, SIZE(r) - 1), XSYM(r, SIZE(r) - 1 - depth))

    def results_of(self, symbol, i, parents):
        return fn('results_of', [V, I, V], V)(symbol, i, parents)

    # -- loops

    def s_For(self, s, fr):
        src = self.eval(s.iter, fr)
        if isinstance(src, Seq) and src.kind == 'frames' and not s.orelse:
            return self.gather(s, src, fr)
        if isinstance(src, Seq) and src.kind == 'waiting' and not s.orelse:
            if self.item_at is not None:
                raise Unsupported('a second loop over items')
            if not self.valid(src.terms[1] == self.lit(None)):
                self.oblige('results: completed items are looked at', src.terms[1] == self.lit(None))
            item = src.make(self)
            self.item_at = self.read[-1]
            (sy, r, p, st), k, _ = self.item_at
            self.oblige('results: items that end where the result shall end', k == self.end)
            # what the recogniser guarantees: the item stands for a derivation
            self.fact(z3.And(z3.Implies(p == 0, st == k)))
            before = dict(fr.env)
            self.forget(s, fr)
            self.assign(s.target, item, fr)
            self.item_value = item
            avoided = as_z3(self.contains(SV(self.outer), item))
            try:
                self.exec_block(s.body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                raise Unsupported('a loop that is left early')
            self.oblige('results: every completed item of the symbol is used', z3.Or(z3.BoolVal(self.looked), sy != self.symbol, avoided))
            for n in list(fr.env):
                if n not in before:
                    del fr.env[n]
            self.forget(s, fr)
            return
        if isinstance(src, (list, tuple)) and not any(isinstance(y, Splat) for y in src):
            return RelEngine.s_For(self, s, fr)
        raise Unsupported('a loop over %r' % (src,))

    def gather(self, s, src, fr):
        """A loop over all the frames that collects parts of them into lists."""
        lists = {n: v for n, v in fr.env.items() if isinstance(v, list)}
        kept = {n: list(v) for n, v in lists.items()}
        before = dict(fr.env)
        for v in lists.values():
            self.mutate(v)
            v[:] = []
        frame = src.make(self)
        self.assign(s.target, frame, fr)
        try:
            self.exec_block(s.body, fr)
        except (BreakEx, ContinueEx):
            raise Unsupported('a loop that is left early')
        for n, v in lists.items():
            got = list(v)
            if got:
                if len(got) != 1:
                    raise Unsupported('several parts of a frame in one list')
                part = None
                if isinstance(got[0], Splat):
                    part = {4: COMPLAINTS, 5: ANNOTATIONS}.get(next((c for c in (4, 5) if got[0].t.eq(frame[c][0].t)), None))
                elif isinstance(got[0], SV) and got[0].t.eq(frame[3].t):
                    part = NODES
                if part is None:
                    raise Unsupported('another part of a frame')
                got = [Splat(part)]
            v[:] = kept[n] + got
        for n in list(fr.env):
            if n not in before:
                del fr.env[n]
            elif not isinstance(fr.env[n], list) and fr.env[n] is not before[n]:
                fr.env[n] = self.unknown(n)

    def s_While(self, s, fr):
        if s.orelse or self.item_at is None or self.looked:
            raise Unsupported('a while loop')
        names = [n for n, v in fr.env.items() if isinstance(v, list) and len(v) == 1 and isinstance(v[0], tuple) and len(v[0]) == 6]
        if len(names) != 1:
            raise Unsupported('no frames')
        self.looked = True
        (sy, r, p, st), k, _ = self.item_at
        first = fr.env[names[0]][0]
        self.oblige('results: only items of the symbol are used', sy == self.symbol)
        self.oblige('results: the search begins at the end', z3.And(z(first[0]) == self.end, z3.BoolVal(first[2] is None)))
        self.oblige('results: an item is not used within itself', self.to_v(first[1]) == self.to_v(
            self.binop(ast.Add(), SV(self.outer), [self.item_value])), certain=False)
        entry = {}
        for n in sorted(assigned_names(s.body)):
            if n in fr.env and n != names[0]:
                v = fr.env[n]
                if (n, str(v)) in self.changed or not isinstance(v, SV):
                    fr.env[n] = self.unknown(n)
                else:
                    entry[n] = v
        if self.decide(self.fresh('no_more_results', B)):
            return
        d = self.fresh('depth', I)
        self.fact(z3.And(d >= 0, z3.Implies(z3.Not(self.repeated()), d <= SIZE(r))))
        self.depth_now = d
        self.stack = fr.env[names[0]] = SObj(Stack, {'n': SInt(d + 1)}, meta={'constructed': True})
        if not (isinstance(s.test, ast.Constant) and s.test.value is True):
            if not self.decide(as_z3(self.truth_expr(s.test, fr))):
                raise PathEnd('no frames')
        left = False
        try:
            self.exec_block(s.body, fr)
        except ContinueEx:
            pass
        except BreakEx:
            left = True
        for n, v in entry.items():
            if fr.env.get(n) is not v and not (isinstance(fr.env.get(n), SV) and fr.env[n].t.eq(v.t)):
                from pyvc.engine import Restart
                self.changed.add((n, str(v)))
                raise Restart()
        self.one_frame_done(left)
        raise PathEnd('one frame')

    def truth(self, x):
        if isinstance(x, SObj) and x.cls is Stack:
            return x.attrs['n'].t > 0
        return StepEngine.truth(self, x)

    def getattr(self, x, name):
        if isinstance(x, SV) and name == 'action':
            return self.app('attr_action', [x])
        return StepEngine.getattr(self, x, name)

    def call(self, f, args, kwargs):
        if isinstance(f, SV) and f.t.decl().name() == 'attr_action':
            return self.act(f.t.arg(0), args, kwargs)
        return StepEngine.call(self, f, args, kwargs)

    def act(self, rule, args, kw):
        """The semantic action: gets the results of the symbols, may complain."""
        if kw or len(args) != 2 or not isinstance(args[1], SV) or self.acted:
            raise Unsupported('another form of action')
        self.oblige('results: the action gets the results of the symbols', z3.And(args[1].t == NODES, rule == self.rule_at_hand()[0]))
        self.call(args[0], [SV(const('own_id'))], {'detail': SV(const('own_context'))})
        self.complained = [(SV(const('own_id')), {'detail': SV(const('own_context'))})]
        self.acted = True
        self.acted_nodes = self.app('acted', [SV(rule), args[1]])
        return self.acted_nodes

    # -- one frame

    def e_Yield(self, node, fr):
        v = self.eval(node.value, fr) if node.value else None
        if isinstance(v, tuple) and len(v) == 5:
            self.yielded.append(v)
            self.check_result(v)
            return None
        if not isinstance(v, SV) or self.top is None:
            raise Unsupported('yields something else')
        i, parents, rs = self.top
        self.oblige('results: those of the symbol at hand are asked for', self.to_v(v) == self.results_of(
            self.symbol_wanted(self.depth_now), i, self.to_v(parents)))
        self.asked += 1
        if self.asked > 1:
            raise Unsupported('two results in one iteration')
        if self.decide(self.fresh('no_more', B)):
            self.got = 'none'
            return None
        b = self.fresh('begin', I)
        self.fact(z3.And(b >= 0, b <= i))
        self.got = (SInt(b), SV(self.fresh('found_item')), SV(self.fresh('found_node')), self.born([Splat(self.fresh('found_complaints'))]),
                    self.born([Splat(self.fresh('found_annotations'))]))
        return self.got

    def check_result(self, v):
        if self.item_at is None or self.valid(self.pred(Terminal)(self.symbol)):
            self.oblige('results: a terminal matches the octet before the end', z3.And(
                self.pred(Terminal)(self.symbol), self.end > 0, MATCH(self.symbol, self.end - 1), z(v[0]) == self.end - 1,
                self.to_v(v[2]) == fn('octet_text', [I], V)(self.end - 1), z3.BoolVal(v[3] == [] and v[4] == [])))
            return
        r, st = self.rule_at_hand()
        if self.top is None:
            raise Unsupported('a result outside the loop')
        i, parents, rs = self.top
        self.oblige('results: where a result begins', z3.And(z(v[0]) == st, as_z3(self.same(v[1], self.item_value))))
        if not self.decide(self.repeated()):
            self.oblige('results: the symbols of the rule make up the whole', z3.And(self.depth_now == SIZE(r), i == st))
            nodes = SV(NODES)
            expected = [Splat(COMPLAINTS)]
            action = self.app('attr_action', [SV(r)])
            if self.decide(as_z3(self.is_(action, None))):
                pass
            else:
                self.oblige('results: the action is applied to the results of the symbols', self.acted)
                nodes = self.acted_nodes if self.acted else nodes
                expected = expected + list(self.complained or [])
            left = fn('without_skips', [V], V)(nodes.t)
            self.fact(LEN(left) >= 0)
            n = LEN(left)
            result = self.to_v(v[2])
            self.oblige('results: what a result is', z3.And(
                z3.Implies(n == 0, result == self.lit(SKIP)), z3.Implies(n == 1, result == self.to_v(self.getitem(SV(left), 0))),
                z3.Implies(n > 1, result == left)))
            self.oblige('results: complaints of the symbols in order, then those of the action', as_z3(self.same(list(v[3]), expected)))
            marked = [Splat(ANNOTATIONS)]
            if self.decide(as_z3(self.truth(self.call(isinstance, [v[2], SV(self.classes)], {})))):
                marked = marked + [(SInt(st), SInt(self.end), v[2])]
            self.oblige('results: annotations of the symbols in order, then that of the result', as_z3(self.same(list(v[4]), marked)))
        else:
            if not isinstance(self.got, tuple):
                raise Unsupported('a repetition without a result')
            b, _, node, coms, anns = self.got
            self.oblige('results: the repetitions make up the whole', z(b) == st)
            self.oblige('results: the repetitions in order', as_z3(self.same(v[2], [node, Splat(NODES)])))
            self.oblige('results: complaints of the repetitions in order', as_z3(self.same(list(v[3]), list(coms) + [Splat(COMPLAINTS)])))
            self.oblige('results: annotations of the repetitions in order', as_z3(self.same(list(v[4]), list(anns) + [Splat(ANNOTATIONS)])))

    def one_frame_done(self, left):
        r, st = self.rule_at_hand()
        if self.top is None:
            raise Unsupported('no frame is looked at')
        i, parents, rs = self.top
        d = self.depth_now
        rep = self.repeated()
        full = z3.And(z3.Not(rep), d == SIZE(r))
        n_yield, n_push = len(self.yielded), len(self.pushed)
        if self.decide(full):
            self.oblige('results: a complete parse that begins where the item does is given', z3.BoolVal(n_yield == 1) == (i == st))
            self.oblige('results: after a complete parse the search goes back', n_push == 0)
            self.oblige('results: the search ends when there is no symbol left to go back to',
                        z3.BoolVal(left) == (d == 0), certain=False)
            return
        if self.got is None:
            return self.oblige('results: another result is asked for', False)
        if self.got == 'none':
            self.oblige('results: without another result the search goes back', n_push == 0 and n_yield == 0)
            self.oblige('results: the search ends when there is no symbol left to go back to', z3.BoolVal(left) == (d == 0), certain=False)
            return
        b, item, node, coms, anns = self.got
        self.oblige('results: the search goes on', not left)
        self.oblige('results: a repetition that begins where the item does is given', z3.BoolVal(n_yield == 1) == z3.And(rep, b.t == st))
        again = self.frame_is(0, i, parents) if n_push == 1 else z3.BoolVal(False)
        further = z3.BoolVal(False)
        if n_push == 2:
            inner, fresh = self.pushed
            further = z3.And(self.frame_is(0, i, parents), self.to_v(inner[3]) == node.t, as_z3(self.same(inner[4], coms)),
                             as_z3(self.same(inner[5], anns)), z(fresh[0]) == b.t, z3.BoolVal(fresh[2] is None))
            nothing, more = self.to_v([]), self.to_v(self.binop(ast.Add(), parents, [item]))
            self.oblige('results: what is avoided further on', self.to_v(fresh[1]) == z3.If(b.t < i, nothing, z3.If(rep, more, self.to_v(parents))),
                        certain=False)
        self.oblige('results: a result that does not begin before the item is continued to the left of it', z3.Implies(b.t >= st, further))
        self.oblige('results: otherwise the next result is tried', z3.Implies(b.t < st, again))

    def frame_is(self, n, i, parents):
        """The n-th frame pushed still asks for further results of the symbol at hand."""
        f = self.pushed[n]
        if f[2] is None:
            return z3.BoolVal(False)
        return z3.And(z(f[0]) == i, as_z3(self.same(f[1], parents)), self.to_v(f[2]) == self.results_of(
            self.symbol_wanted(self.depth_now), i, self.to_v(parents)))


def result_engine():
    eng = step_engine()
    eng2 = ResultEngine()
    eng2.contracts.update({k: v for k, v in eng.contracts.items() if k not in eng2.contracts})
    eng2.method_contracts.update(eng.method_contracts)
    C = eng2.contracts

    def pop(e, a, k):
        if e.top is not None or len(a) > 1:
            raise Unsupported('another way of looking at frames')
        n = a[0].attrs['n'].t
        e.oblige('results: there is a frame', n > 0)
        a[0].attrs['n'] = SInt(n - 1)
        i, parents, rs = e.fresh('i', I), SV(e.fresh('parents')), e.fresh('rs')
        e.fact(z3.And(i >= 0, i <= e.end))
        r, st = e.rule_at_hand()
        e.fact(z3.Implies(z3.And(z3.Not(e.repeated()), e.depth_now == 0), i == e.end))
        e.fact(z3.Implies(z3.And(SIZE(r) == 0), st == e.end))
        e.fact(z3.Implies(XSYM(r, 0) == e.lit(None), SIZE(r) == 0))
        e.fact(SIZE(r) >= 0)
        e.fact(z3.Implies(e.repeated(), SIZE(r) >= 1))
        if e.decide(e.fresh('not_started', B)):
            e.top = (i, parents, None)
            return (SInt(i), parents, None, None, None, None)
        # started, so it has a symbol
        e.fact(z3.Or(e.repeated(), e.depth_now < SIZE(r)))
        e.fact(rs == e.results_of(e.symbol_wanted(e.depth_now), i, parents.t))
        e.fact(rs != e.lit(None))
        e.top = (i, parents, SV(rs))
        return (SInt(i), parents, SV(rs), SV(e.fresh('node')), SV(e.fresh('coms')), SV(e.fresh('anns')))
    C[Stack.pop] = pop

    def push(e, a, k):
        if e.top is None or not (isinstance(a[1], tuple) and len(a[1]) == 6):
            raise Unsupported('another form of frame')
        e.pushed.append(a[1])
        a[0].attrs['n'] = SInt(a[0].attrs['n'].t + 1)
    C[Stack.append] = push
    C[Stack.__len__] = lambda e, a, k: a[0].attrs['n']

    def reverse(e, a, k):
        if isinstance(a[0], SObj) and a[0].cls is Stack:
            return Seq('frames', [], lambda eng: (SInt(eng.fresh('f_i', I)), SV(eng.fresh('f_parents')), SV(eng.fresh('f_rs')), SV(eng.fresh('f_node')),
                                                  [Splat(eng.fresh('f_complaints'))], [Splat(eng.fresh('f_annotations'))]))
        raise Unsupported('reversed')
    C[reversed] = reverse

    def find(e, a, k):
        if len(a) != 6 or k:
            raise Unsupported('another form of _find_results')
        data, symbol, chart, i, parents, classes = a
        e.oblige('results: of the same data, chart and classes', z3.And(e.to_v(data) == e.data, z3.BoolVal(chart is e.chart), e.to_v(classes) == e.classes))
        t = e.results_of(e.to_v(symbol), z(i), e.to_v(parents))
        e.fact(t != e.lit(None))
        return SV(t)
    C[parse_module._find_results] = find
    plain_tuple = C[tuple]

    def as_tuple(e, a, k):
        from pyvc.relational import LazyComp
        if a and isinstance(a[0], LazyComp):
            g = a[0].e.generators
            if len(g) == 1 and isinstance(g[0].target, ast.Name) and isinstance(a[0].e.elt, ast.Name) and a[0].e.elt.id == g[0].target.id and len(g[0].ifs) == 1:
                from pyvc.engine import Frame
                src = e.eval(g[0].iter, a[0].fr)
                if isinstance(src, (list, tuple)) and len(src) == 1 and isinstance(src[0], Splat):
                    src = SV(src[0].t)
                if isinstance(src, SV):
                    x = e.fresh('node')
                    inner = Frame({g[0].target.id: SV(x)}, a[0].fr.globals, outer=a[0].fr, qualname=a[0].fr.qualname)
                    inner.cells = {}
                    c = as_z3(e.truth_expr(g[0].ifs[0], inner))
                    if e.valid(c == (x != e.lit(SKIP))):
                        t = fn('without_skips', [V], V)(src.t)
                        e.fact(LEN(t) >= 0)
                        return SV(t)
            raise Unsupported('another selection of nodes')
        if a and isinstance(a[0], list) and len(a[0]) == 1 and isinstance(a[0][0], Splat):
            return SV(a[0][0].t)
        return plain_tuple(e, a, k)
    C[tuple] = as_tuple

    def instance(e, a, k):
        if isinstance(a[1], SV):
            return SBool(fn('is_one_of', [V, V], B)(e.to_v(a[0]), a[1].t))
        return BUILTINS[isinstance](e, *a, **k)
    C[isinstance] = instance

    def text(e, o, args, kw):
        if not (isinstance(o, SObj) and o.cls is Octet) or list(args) != ['iso-8859-1'] or kw:
            raise Unsupported('another decoding')
        return SV(fn('octet_text', [I], V)(o.attrs['i']))
    eng2.method_contracts['decode'] = text
    C[Octet.decode] = lambda e, a, k: text(e, a[0], a[1:], k)
    return eng2


def reading():
    """-> [(label, status, detail)]"""
    eng = result_engine()

    def thunk():
        eng.forget_names()
        eng.data, eng.symbol, eng.outer, eng.classes, eng.end = const('data'), const('symbol'), const('parents'), const('classes'), const('end', I)
        eng.begin()
        eng.chart = SObj(Chart, {}, meta={'constructed': True})
        eng.fact(z3.And(eng.pred(bytes)(eng.data), LEN(eng.data) >= 0, eng.end >= 0, eng.end <= LEN(eng.data)))
        t, nt, rp = (eng.pred(c)(eng.symbol) for c in (Terminal, Nonterminal, parse_module.RepeatedNonterminal))
        eng.fact(z3.And(z3.Or(t, nt), z3.Not(z3.And(t, nt)), z3.Implies(rp, nt)))
        eng.call_function(parse_module._find_results, [SV(eng.data, bytes), SV(eng.symbol), eng.chart, SInt(eng.end), SV(eng.outer), SV(eng.classes)], {})
        if eng.item_at is None:
            eng.oblige('results: nonterminals are looked up', t)
            eng.oblige('results: a terminal has one result if it matches', z3.And(eng.end > 0, MATCH(eng.symbol, eng.end - 1)) == z3.BoolVal(len(eng.yielded) == 1))
    for path in eng.explore(thunk):
        if path.kind == 'raise':
            eng.results.append(('results: no exception', 'undecided', repr(path.value)[:300]))
    return eng.results


FUNCTIONS = {'recogniser': [P + '_inner_parse'], 'adding': [P + '_add_item'], 'reading': [P + '_find_results']}


def outcome(which):
    """-> [(label, status, seconds, detail)], one per kind of obligation"""
    import traceback
    from pyvc.engine import MergeAbort
    t0 = time.time()
    try:
        got = globals()[which]()
        got = got[0] if isinstance(got, tuple) else got
    except (Unsupported, MergeAbort, RecursionError) as e:
        return which, [('Earley ' + which, 'undecided', time.time() - t0, 'outside the verified subset: %s' % e)]
    except Exception:
        return which, [('Earley ' + which, 'undecided', time.time() - t0, 'machinery: ' + ' | '.join(traceback.format_exc().splitlines()[-6:]))]
    out = {}
    for label, status, detail in got:
        rank = ['discharged', 'undecided', 'refuted']
        if label not in out or rank.index(status) > rank.index(out[label][0]):
            out[label] = (status, detail)
    dt = (time.time() - t0) / max(1, len(out))
    return which, [('Earley: ' + label, st, dt, d) for label, (st, d) in out.items()]
