"""C06: random grammars built with the real combinators, and an independent (span fixpoint) recogniser for them."""
import random


class E:
    """Grammar expression. kind: set, lit, seq, alt, many, many1, times, maybe, ref, skip"""
    count = 0

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args
        E.count += 1
        self.id = E.count

    def __repr__(self):
        if self.kind == 'ref':
            return 'ref%d' % self.args[0].id
        return '%s#%d(%s)' % (self.kind, self.id, ', '.join(repr(a) for a in self.args))


class Rec:
    def __init__(self):
        E.count += 1
        self.id = E.count
        self.body = None

    def __repr__(self):
        return 'rec%d=%r' % (self.id, self.body)


def gen(rng, depth, recs):
    ab = 'abc'
    if depth <= 0:
        r = rng.random()
        if recs and r < 0.25:
            return E('ref', rng.choice(recs))
        if r < 0.55:
            return E('set', frozenset(rng.sample(ab, rng.choice([1, 1, 2]))))
        if r < 0.6:
            return E('lit', '')
        return E('lit', ''.join(rng.choice(ab) for _ in range(rng.choice([1, 1, 2, 3]))))
    k = rng.random()
    sub = lambda: gen(rng, depth - 1 - (rng.random() < 0.3), recs)
    if k < 0.28:
        return E('seq', *[sub() for _ in range(rng.choice([2, 2, 3]))])
    if k < 0.5:
        return E('alt', *[sub() for _ in range(rng.choice([2, 2, 3]))])
    if k < 0.62:
        return E('many', sub())
    if k < 0.68:
        return E('many1', sub())
    if k < 0.78:
        lo = rng.choice([0, 0, 1, 2])
        return E('times', lo, lo + rng.choice([0, 1, 2]) or 1, sub())
    if k < 0.88:
        return E('maybe', sub())
    if k < 0.95:
        return E('mark', sub())
    return gen(rng, 0, recs)


def grammar(rng):
    recs = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        recs.append(Rec())
    for r in recs:
        r.body = gen(rng, rng.choice([1, 2, 3]), recs)
    return gen(rng, rng.choice([1, 2, 3]), recs), recs


# --------------------------------------------------------------------------------------------------
# the independent recogniser

class Oracle:
    def __init__(self, e, recs, data):
        self.data = data
        self.n = len(data)
        self.recs = recs
        self.span = {}            # rec id -> set of (i, j)
        for r in recs:
            self.span[r.id] = set()
        changed = True
        while changed:
            changed = False
            for r in recs:
                new = self.spans(r.body)
                if not new <= self.span[r.id]:
                    self.span[r.id] |= new
                    changed = True
        self.pre = {r.id: set() for r in recs}
        changed = True
        while changed:
            changed = False
            for r in recs:
                new = self.prefixes(r.body)
                if not new <= self.pre[r.id]:
                    self.pre[r.id] |= new
                    changed = True
        self.top = self.spans(e)
        self.top_pre = self.prefixes(e)

    def join(self, a, b):
        by = {}
        for (i, j) in b:
            by.setdefault(i, []).append(j)
        return {(i, k) for (i, j) in a for k in by.get(j, ())}

    def plus(self, a):
        r = set(a)
        while True:
            new = r | self.join(r, a)
            if new == r:
                return r
            r = new

    def spans(self, e):
        """all (i, j) with data[i:j] in L(e), given current spans of recursive symbols"""
        eps = {(i, i) for i in range(self.n + 1)}
        k = e.kind
        if k == 'set':
            return {(i, i + 1) for i in range(self.n) if chr(self.data[i]) in e.args[0]}
        if k == 'lit':
            s = e.args[0].encode()
            return {(i, i + len(s)) for i in range(self.n - len(s) + 1) if self.data[i:i + len(s)].lower() == s.lower()}
        if k == 'ref':
            return set(self.span[e.args[0].id])
        if k == 'seq':
            r = self.spans(e.args[0])
            for x in e.args[1:]:
                r = self.join(r, self.spans(x))
            return r
        if k == 'alt':
            return set().union(*[self.spans(x) for x in e.args])
        if k == 'many':
            return eps | self.plus(self.spans(e.args[0]))
        if k == 'many1':
            return self.plus(self.spans(e.args[0]))
        if k == 'maybe':
            return eps | self.spans(e.args[0])
        if k == 'mark':
            return self.spans(e.args[0])
        if k == 'times':
            lo, hi, x = e.args
            a = self.spans(x)
            r = set()
            cur = eps
            for c in range(hi + 1):
                if c >= lo:
                    r |= cur
                cur = self.join(cur, a)
            return r
        raise AssertionError(k)

    def prefixes(self, e):
        """all i with data[i:] a proper or improper prefix of a word of L(e) (all symbols are productive)"""
        k = e.kind
        full = {self.n}
        if k == 'set':
            return full | {i for (i, j) in self.spans(e) if j == self.n}
        if k == 'lit':
            s = e.args[0].encode().lower()
            return {i for i in range(self.n + 1) if s.startswith(self.data[i:].lower())} if s else full
        if k == 'ref':
            return full | self.pre[e.args[0].id]
        if k == 'seq':
            r = set()
            acc = {(i, i) for i in range(self.n + 1)}
            for x in e.args:
                p = self.prefixes(x)
                r |= {i for (i, j) in acc if j in p}
                acc = self.join(acc, self.spans(x))
            return r | full | {i for (i, j) in acc if j == self.n}
        if k == 'alt':
            return full.union(*[self.prefixes(x) for x in e.args])
        if k in ('many', 'many1'):
            a = self.spans(e.args[0])
            p = self.prefixes(e.args[0])
            pl = self.plus(a) | {(i, i) for i in range(self.n + 1)}
            return full | {i for (i, j) in pl if j in p} | {i for (i, j) in pl if j == self.n}
        if k in ('maybe', 'mark'):
            return full | self.prefixes(e.args[0])
        if k == 'times':
            lo, hi, x = e.args
            a, p = self.spans(x), self.prefixes(x)
            cur = {(i, i) for i in range(self.n + 1)}
            r = set(full)
            for c in range(hi):
                r |= {i for (i, j) in cur if j in p}
                cur = self.join(cur, a)
            return r | {i for (i, j) in cur if j == self.n}
        raise AssertionError(k)

    def accepts(self):
        return (0, self.n) in self.top

    def viable(self):
        return 0 in self.top_pre


def productive(e, recs):
    good = set()
    while True:
        new = {r.id for r in recs if prod1(r.body, good)}
        if new == good:
            break
        good = new
    return prod1(e, good) and all(r.id in good for r in recs)


def prod1(e, good):
    k = e.kind
    if k in ('set', 'lit', 'many', 'maybe'):
        # optional parts must be productive as well, or the viable-prefix property is not defined
        return all(prod1(x, good) for x in e.args if isinstance(x, E))
    if k == 'ref':
        return e.args[0].id in good
    if k == 'alt':
        return any(prod1(x, good) for x in e.args)
    return all(prod1(x, good) for x in e.args if isinstance(x, E))


def all_productive(e, good):
    if e.kind == 'ref':
        return e.args[0].id in good
    return all(all_productive(x, good) for x in e.args if isinstance(x, E))


# --------------------------------------------------------------------------------------------------
# the real grammar, with semantic actions that build the derivation

class Node:
    def __init__(self, eid, args):
        self.eid, self.args_ = eid, args

    def __repr__(self):
        return 'Node(%d, %r)' % (self.eid, self.args_)


class Noted(Node):
    """The annotated kind of node."""


def build(e, recs):
    from httpolice import parse as P
    sym = {}
    for r in recs:
        sym[r.id] = P.recursive() > P.named('r%d' % r.id)

    def wrap(x, inner, cls=Node, complain=False):
        if complain:
            def action(complain, *args):
                complain(x.id, n=len(args))
                return cls(x.id, args)
            action = P.can_complain(action)
        else:
            def action(*args):
                return cls(x.id, args)
        return action << inner

    def go(x):
        k = x.kind
        if k == 'set':
            r = None
            for c in sorted(x.args[0]):
                t = P.octet(ord(c))
                r = t if r is None else r | t
            return r
        if k == 'lit':
            return P.literal(x.args[0]) if x.args[0] else P.subst('') << P.empty
        if k == 'ref':
            return sym[x.args[0].id]
        if k == 'seq':
            r = None
            for y in x.args:
                t = P.group(go(y)) if y.kind in ('seq', 'alt') else go(y)
                r = t if r is None else r * t
            return wrap(x, r, complain=x.id % 2 == 0)
        if k == 'alt':
            r = None
            for y in x.args:
                t = wrap(y, go(y)) if y.kind not in ('alt',) else wrap(y, go(y))
                r = t if r is None else r | t
            return r
        if k == 'many':
            return wrap(x, P.many(go(x.args[0])))
        if k == 'many1':
            return wrap(x, P.many1(go(x.args[0])))
        if k == 'times':
            return wrap(x, P.times(x.args[0], x.args[1], go(x.args[2])))
        if k == 'maybe':
            return wrap(x, P.maybe(go(x.args[0])), complain=x.id % 3 == 0)
        if k == 'mark':
            # a class as action is never inlined, so it is annotated
            sub = go(x.args[0])
            cls = type('Noted%d' % x.id, (Noted,), {'__init__': lambda self, *a: Node.__init__(self, x.id, a)})
            return cls << sub
        raise AssertionError(k)
    for r in recs:
        r.wrapper = E('seq')
        sym[r.id].rec = wrap(r.wrapper, go(r.body))
    return go(e)


def flat(v):
    """The text of a result built without skip()."""
    if v is None:
        return ''
    if isinstance(v, str):
        return v
    if isinstance(v, (list, tuple)):
        return ''.join(flat(x) for x in v)
    return flat(v.args_)


def nodes(v):
    if isinstance(v, (list, tuple)):
        for x in v:
            yield from nodes(x)
    elif isinstance(v, Node):
        yield from nodes(v.args_)
        yield v


def shape(v):
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [shape(x) for x in v]
    if isinstance(v, Node):
        return ('node', v.eid, shape(v.args_))
    return v


class Invalid(Exception):
    pass


def validate(x, v, noted):
    """Check that v is the result of a derivation of x; append the notes its actions make (as a multiset)."""
    k = x.kind

    def need(c):
        if not c:
            raise Invalid('%r is not a result of %r' % (v, x))

    def node(eid, n=None):
        need(isinstance(v, Node) and v.eid == eid)
        need(n is None or len(v.args_) == n)
        return v.args_
    if k == 'set':
        need(isinstance(v, str) and v in x.args[0])
    elif k == 'lit':
        need(isinstance(v, str) and v.lower() == x.args[0].lower())
    elif k == 'ref':
        r = x.args[0]
        validate(r.body, node(r.wrapper.id, 1)[0], noted)
    elif k == 'seq':
        a = node(x.id, len(x.args))
        for y, w in zip(x.args, a):
            validate(y, w, noted)
        if x.id % 2 == 0:
            noted.append((x.id, len(a)))
    elif k == 'alt':
        need(isinstance(v, Node) and len(v.args_) == 1)
        ys = [y for y in x.args if y.id == v.eid]
        need(len(ys) == 1)
        validate(ys[0], v.args_[0], noted)
    elif k in ('many', 'many1', 'times'):
        a = node(x.id, 1)[0]
        need(isinstance(a, list))
        lo, hi = {'many': (0, None), 'many1': (1, None), 'times': x.args[:2]}[k]
        need(len(a) >= lo and (hi is None or len(a) <= hi))
        for w in a:
            validate(x.args[-1], w, noted)
    elif k == 'maybe':
        a = node(x.id, 1)
        if a[0] is not None:
            validate(x.args[0], a[0], noted)
        if x.id % 3 == 0:
            noted.append((x.id, 1))
    elif k == 'mark':
        need(isinstance(v, Noted))
        validate(x.args[0], node(x.id, 1)[0], noted)


def nullable(x, cur):
    k = x.kind
    if k == 'set':
        return False
    if k == 'lit':
        return x.args[0] == ''
    if k == 'ref':
        return cur.get(x.args[0].id, False)
    if k == 'seq':
        return all(nullable(y, cur) for y in x.args)
    if k == 'alt':
        return any(nullable(y, cur) for y in x.args)
    if k in ('many', 'maybe'):
        return True
    if k == 'times':
        return x.args[0] == 0 or nullable(x.args[2], cur)
    return nullable(x.args[0], cur)


def cyclic(e, recs):
    """Whether a word may have infinitely many derivations: a symbol that derives itself alone, or a repeated empty word.
    (On such grammars parse() can take exponential time to pick a derivation; none is in httpolice.syntax.)"""
    cur = {}
    while True:
        new = {r.id: nullable(r.body, cur) for r in recs}
        if new == cur:
            break
        cur = new

    def alone(x):
        k = x.kind
        if k == 'ref':
            return {x.args[0].id}
        if k == 'seq':
            r = set()
            for i, y in enumerate(x.args):
                if all(nullable(z, cur) for j, z in enumerate(x.args) if j != i):
                    r |= alone(y)
            return r
        if k in ('set', 'lit'):
            return set()
        return set().union(*[alone(y) for y in x.args if isinstance(y, E)])
    def loops(x):
        if x.kind in ('many', 'many1', 'times') and nullable(x.args[-1], cur):
            return True
        return any(loops(y) for y in x.args if isinstance(y, E))
    if any(loops(x) for x in [e] + [r.body for r in recs]):
        return True
    edge = {r.id: alone(r.body) for r in recs}
    for r in recs:
        seen, todo = set(), list(edge[r.id])
        while todo:
            a = todo.pop()
            if a == r.id:
                return True
            if a not in seen:
                seen.add(a)
                todo.extend(edge[a])
    return False


def usable(e, recs):
    good = {r.id for r in recs}
    return productive(e, recs) and all(all_productive(x, good) for x in [e] + [r.body for r in recs])
