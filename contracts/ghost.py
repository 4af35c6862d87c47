"""Ghost containers used by contracts: their methods are ordinary code interpreted by the verifier, over logical
functions (union, member, ...) that both the implementation's containers and the specifications refer to."""


def union(s, xs):
    """Logical: the set s with all elements of xs."""
    return set(s) | set(xs)


def adjoin(s, x):
    return set(s) | {x}


def member(x, s):
    return x in s


def tally(c, xs):
    import collections
    r = collections.Counter(c)
    r.update(xs)
    return r


def count_of(c, x):
    return c[x]


class GhostSet:
    """A mutable set whose contents are the logical value `t`."""

    def __init__(self, t):
        self.t = t

    def update(self, xs):
        self.t = union(self.t, xs)

    def add(self, x):
        self.t = adjoin(self.t, x)

    def __contains__(self, x):
        return member(x, self.t)


class GhostCounter:

    def __init__(self, t=()):
        self.t = t

    def update(self, xs):
        self.t = tally(self.t, xs)

    def __getitem__(self, x):
        return count_of(self.t, x)


def install(eng):
    from pyvc.terms import B, I
    C = eng.contracts
    C[union] = lambda e, a, k: e.app('union', [a[0], as_value(e, a[1])])
    C[adjoin] = lambda e, a, k: e.app('adjoin', a)
    C[member] = lambda e, a, k: e.app('member', [a[0], a[1]], rng=B)
    C[tally] = lambda e, a, k: e.app('tally', [a[0], as_value(e, a[1])])
    C[count_of] = lambda e, a, k: e.app('count_of', a, rng=I)


def as_value(e, x):
    from pyvc.relational import LazyComp, r_list
    if isinstance(x, LazyComp):
        return e.force_comp(x)
    return r_list(e, [x], {})
