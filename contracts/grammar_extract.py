"""Mechanical extraction of the language of a live grammar symbol of httpolice.parse (regular, up to nested comments).

What is dropped: semantic actions, names, citations.  What is kept: rules (sequences of symbols), terminal byte sets.
A nonterminal that is recursive in its middle is expanded once; its nested occurrences become the letter 256, and the
symbol itself is recorded in `recursive` so that a separate obligation fixes what the letter stands for.
"""
from pyvc import lang

LETTER = 256


class Unsupported(Exception):
    pass


class Extractor:
    def __init__(self):
        from httpolice import parse as P
        self.P = P
        self.cache = {}
        self.keep = []
        self.recursive = {}          # id -> symbol
        self.stack = []

    def terminal_mask(self, t):
        m = 0
        for c in range(256):
            if t.match(bytes((c,))):
                m |= 1 << c
        return m

    def symbol(self, s):
        """-> DFA"""
        d, _ = self._symbol(s)
        return d

    def _symbol(self, s):
        k = id(s)
        if k in self.cache:
            return self.cache[k], frozenset()
        P = self.P
        if isinstance(s, P.Terminal):
            d = lang.chars(self.terminal_mask(s))
            self.cache[k] = d
            self.keep.append(s)
            return d, frozenset()
        if not isinstance(s, P.Nonterminal):
            raise Unsupported('symbol %r' % (s,))
        if k in self.stack:
            self.recursive[k] = s
            return lang.chars(1 << LETTER), frozenset([k])
        self.stack.append(k)
        try:
            left, right, base = [], [], []
            open_ = frozenset()
            for rule in s.rules:
                syms = list(rule.symbols)
                if len(syms) == 1 and syms[0] is s:
                    continue
                kind = base
                if syms and syms[0] is s:
                    kind, syms = left, syms[1:]
                elif syms and syms[-1] is s:
                    kind, syms = right, syms[:-1]
                parts = []
                for x in syms:
                    d, o = self._symbol(x)
                    parts.append(d)
                    open_ |= o
                kind.append(lang.seq(parts))
            d = lang.alt(base)
            if left:
                d = lang.seq([d, lang.star(lang.alt(left))])
            if right:
                d = lang.seq([lang.star(lang.alt(right)), d])
        finally:
            self.stack.pop()
        open_ -= {k}
        if not open_:
            self.cache[k] = d
            self.keep.append(s)
        return d, open_
