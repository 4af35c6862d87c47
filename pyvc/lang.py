"""Regular languages over the alphabet 0..255 plus letters >= 256 (used for recursive symbols).

A language is a complete-by-convention DFA: a list of states, each a list of (mask, target) with disjoint
masks (integers used as bit sets); missing transitions go to an implicit dead state.
"""

NSYM = 260
ALL = (1 << 256) - 1


def mask_of(chars):
    m = 0
    for c in chars:
        m |= 1 << c
    return m


class DFA:
    __slots__ = ('trans', 'final')

    def __init__(self, trans, final):
        self.trans, self.final = trans, final

    def size(self):
        return len(self.trans)

    def accepts(self, data):
        s = 0
        for b in data:
            for (m, t) in self.trans[s]:
                if m >> b & 1:
                    s = t
                    break
            else:
                return False
        return s in self.final

    def letters(self):
        r = 0
        for row in self.trans:
            for (m, _) in row:
                r |= m >> 256
        return r


class NFA:
    """State 0 is initial, `final` one state; edges[s] = list of (mask, t), eps[s] = list of t."""

    def __init__(self):
        self.edges, self.eps = [], []

    def new(self):
        self.edges.append([])
        self.eps.append([])
        return len(self.edges) - 1

    def embed(self, dfa, start, end):
        base = len(self.edges)
        for _ in range(len(dfa.trans)):
            self.new()
        for s, row in enumerate(dfa.trans):
            e = self.edges[base + s]
            for (m, t) in row:
                e.append((m, base + t))
        self.eps[start].append(base)
        for f in dfa.final:
            self.eps[base + f].append(end)


def atoms(masks):
    """Partition of the union of masks into classes that no mask splits."""
    parts = []
    for m in masks:
        new = []
        for p in parts:
            i = p & m
            if i:
                new.append(i)
                d = p & ~m
                if d:
                    new.append(d)
                m &= ~i
            else:
                new.append(p)
        if m:
            new.append(m)
        parts = new
    return parts


def determinise(nfa, start, ends):
    cache = {}

    def closure(states):
        seen = set(states)
        todo = list(states)
        while todo:
            s = todo.pop()
            for t in nfa.eps[s]:
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        return frozenset(s for s in seen if nfa.edges[s] or s in ends)

    def clo1(s):
        r = cache.get(s)
        if r is None:
            r = cache[s] = closure([s])
        return r
    init = clo1(start)
    index = {init: 0}
    order = [init]
    trans = []
    k = 0
    while k < len(order):
        st = order[k]
        k += 1
        merged = {}
        for s in st:
            for (m, t) in nfa.edges[s]:
                merged[t] = merged.get(t, 0) | m
        row = {}
        for a in atoms(list(set(merged.values()))):
            tgt = set()
            for t, m in merged.items():
                if m & a:
                    tgt |= clo1(t)
            tgt = frozenset(tgt)
            if tgt not in index:
                index[tgt] = len(order)
                order.append(tgt)
            j = index[tgt]
            row[j] = row.get(j, 0) | a
        trans.append([(m, t) for t, m in row.items()])
    final = {i for i, st in enumerate(order) if st & ends}
    return minimise(DFA(trans, final))


def minimise(d):
    # drop states that cannot reach a final state
    n = len(d.trans)
    rev = [[] for _ in range(n)]
    for s, row in enumerate(d.trans):
        for (_, t) in row:
            rev[t].append(s)
    live = set(d.final)
    todo = list(live)
    while todo:
        s = todo.pop()
        for p in rev[s]:
            if p not in live:
                live.add(p)
                todo.append(p)
    if 0 not in live:
        return DFA([[]], set())
    # Moore partition refinement
    cls = [(2 if s in d.final else 1) if s in live else 0 for s in range(n)]
    count = len(set(c for c in cls if c))
    while True:
        sigs = {}
        new = [0] * n
        for s in range(n):
            if s not in live:
                continue
            row = {}
            for (m, t) in d.trans[s]:
                c = cls[t]
                if c:
                    row[c] = row.get(c, 0) | m
            sig = (cls[s], frozenset(row.items()))
            new[s] = sigs.setdefault(sig, len(sigs) + 1)
        cls = new
        if len(sigs) == count:
            break
        count = len(sigs)
    # rebuild from initial
    order = [cls[0]]
    rep = {}
    for s in range(n):
        if cls[s]:
            rep.setdefault(cls[s], s)
    idx = {cls[0]: 0}
    trans = []
    k = 0
    while k < len(order):
        s = rep[order[k]]
        k += 1
        row = {}
        for (m, t) in d.trans[s]:
            c = cls[t]
            if c:
                if c not in idx:
                    idx[c] = len(order)
                    order.append(c)
                j = idx[c]
                row[j] = row.get(j, 0) | m
        trans.append([(m, t) for t, m in row.items()])
    final = {idx[c] for c in order if rep[c] in d.final}
    return DFA(trans, final)


EMPTY = DFA([[]], set())
EPS = DFA([[]], {0})


def chars(mask):
    return DFA([[(mask, 1)], []], {1}) if mask else EMPTY


def seq(ds):
    ds = list(ds)
    if not ds:
        return EPS
    if len(ds) == 1:
        return ds[0]
    n = NFA()
    cur = start = n.new()
    for d in ds:
        nxt = n.new()
        n.embed(d, cur, nxt)
        cur = nxt
    return determinise(n, start, {cur})


def alt(ds):
    ds = list(ds)
    if not ds:
        return EMPTY
    if len(ds) == 1:
        return ds[0]
    n = NFA()
    start, end = n.new(), n.new()
    for d in ds:
        n.embed(d, start, end)
    return determinise(n, start, {end})


def star(d):
    n = NFA()
    start, end = n.new(), n.new()
    mid = n.new()
    n.eps[start].append(mid)
    n.eps[mid].append(end)
    n.embed(d, mid, mid)
    return determinise(n, start, {end})


def repeat(d, lo, hi):
    if hi is None:
        return seq([d] * lo + [star(d)])
    n = NFA()
    cur = start = n.new()
    ends = set()
    if lo == 0:
        ends.add(cur)
    for i in range(hi):
        nxt = n.new()
        n.embed(d, cur, nxt)
        cur = nxt
        if i + 1 >= lo:
            ends.add(cur)
    return determinise(n, start, ends)


def _step_pairs(ra, rb):
    """Joint moves of two rows, None for dead."""
    out = []
    resta = 0
    for (m, _) in ra:
        resta |= m
    restb = 0
    for (m, _) in rb:
        restb |= m
    for (m, t) in ra:
        for (m2, t2) in rb:
            i = m & m2
            if i:
                out.append((i, t, t2))
        i = m & ~restb
        if i:
            out.append((i, t, None))
    for (m2, t2) in rb:
        i = m2 & ~resta
        if i:
            out.append((i, None, t2))
    return out


def product(a, b, keep):
    """DFA of {w : keep(w in a, w in b)}; keep(False, False) must be False."""
    index = {(0, 0): 0}
    order = [(0, 0)]
    trans, final = [], set()
    k = 0
    while k < len(order):
        (s, t) = order[k]
        if keep(s is not None and s in a.final, t is not None and t in b.final):
            final.add(k)
        k += 1
        row = {}
        for (m, s2, t2) in _step_pairs(a.trans[s] if s is not None else [], b.trans[t] if t is not None else []):
            if (s2, t2) not in index:
                index[(s2, t2)] = len(order)
                order.append((s2, t2))
            j = index[(s2, t2)]
            row[j] = row.get(j, 0) | m
        trans.append([(m, x) for x, m in row.items()])
    return minimise(DFA(trans, final))


def minus(a, b):
    return product(a, b, lambda x, y: x and not y)


def inter(a, b):
    return product(a, b, lambda x, y: x and y)


def low(mask):
    """A nice representative symbol of a mask."""
    for pref in (b'a1A;,="x0 -/:.*%\t\\<>[]()_~'):
        if mask >> pref & 1:
            return pref
    return (mask & -mask).bit_length() - 1


def difference(a, b, limit=6):
    """Shortest words (lists of symbols) on which a and b differ, at most `limit`; and the number of pairs visited."""
    from collections import deque
    seen = {(0, 0): None}
    todo = deque([(0, 0)])
    out = []
    n = 0
    while todo:
        p = todo.popleft()
        (s, t) = p
        n += 1
        if (s is not None and s in a.final) != (t is not None and t in b.final):
            w = []
            q = p
            while seen[q] is not None:
                (m, q2) = seen[q]
                w.append(low(m))
                q = q2
            out.append((w[::-1], s is not None and s in a.final))
            if len(out) >= limit:
                return out, n
        for (m, s2, t2) in _step_pairs(a.trans[s] if s is not None else [], b.trans[t] if t is not None else []):
            if (s2, t2) not in seen:
                seen[(s2, t2)] = (m, p)
                todo.append((s2, t2))
    return out, n


def prefixes(d):
    """Shortest word to each state, shortest suffix from each state to acceptance."""
    from collections import deque
    pre = {0: []}
    todo = deque([0])
    while todo:
        s = todo.popleft()
        for (m, t) in d.trans[s]:
            if t not in pre:
                pre[t] = pre[s] + [low(m)]
                todo.append(t)
    n = len(d.trans)
    rev = [[] for _ in range(n)]
    for s, row in enumerate(d.trans):
        for (m, t) in row:
            rev[t].append((m, s))
    suf = {f: [] for f in d.final}
    todo = deque(d.final)
    while todo:
        s = todo.popleft()
        for (m, p) in rev[s]:
            if p not in suf:
                suf[p] = [low(m)] + suf[s]
                todo.append(p)
    return pre, suf


def cover(d, rng=None, extra=0):
    """Words that exercise every transition of d (accepted), and, for every state and every way out of the language,
    words that leave it."""
    pre, suf = prefixes(d)
    for s, row in enumerate(d.trans):
        if s not in pre:
            continue
        out = 0
        for (m, t) in row:
            out |= m
            picks = {low(m), (m & -m).bit_length() - 1, m.bit_length() - 1}
            if rng is not None:
                bits = [i for i in range(m.bit_length()) if m >> i & 1]
                for _ in range(extra):
                    picks.add(rng.choice(bits))
            for c in picks:
                if t in suf:
                    yield pre[s] + [c] + suf[t]
                if t not in d.final:
                    yield pre[s] + [c]
        rest = ALL & ~out
        if rest:
            bits = [i for i in range(256) if rest >> i & 1]
            picks = {low(rest), bits[0], bits[-1]}
            for i in range(256):      # boundaries of character ranges
                if rest >> i & 1 and ((out >> (i + 1) & 1) or (i and out >> (i - 1) & 1)):
                    picks.add(i)
            if rng is not None:
                for _ in range(extra):
                    picks.add(rng.choice(bits))
            for c in picks:
                yield pre[s] + [c]
                if s in suf:
                    yield pre[s] + [c] + suf[s]
