"""Loops over an unbounded sequence, proved by inferred inductive invariants.

A GhostSeq stands for a sequence of unknown length.  Its contract names *ghost* Booleans that are functions of the
elements before the current one, with their initial value and their update by one element.  The invariant of a loop
over it is inferred by the Houdini method: start from all candidates relating every loop-carried local variable to
the ghosts, and drop those that do not hold initially or are not preserved by the (symbolically executed) body,
until the rest is inductive.  Local names play no role, so the proof survives renaming and restructuring."""
import itertools

import z3

from pyvc.engine import (And, Or, Not, Poison, Unsupported, MergeAbort, Sym, as_z3, assigned_names, target_names,
                         has_escape, is_sym)
from pyvc.terms import SBool, SV, SInt, const, B


class GhostSeq(Sym):
    def __init__(self, elem, ghosts, consts=()):
        """elem: symbolic element; ghosts: {name: (initial bool, lambda pre: z3 term after this element)};
        consts: further z3 Booleans the invariant may mention."""
        self.elem, self.ghosts, self.consts = elem, ghosts, list(consts)
        self.pre = {n: z3.Bool('ghost_' + n) for n in ghosts}

    def ghost_terms(self, val):
        """Small family of Boolean combinations of ghosts and constants."""
        atoms = [val[n] for n in self.ghosts] + self.consts
        lits = [(a, str(i)) for i, a in enumerate(atoms)] + [(z3.Not(a), '!%d' % i) for i, a in enumerate(atoms)]
        out = [(z3.BoolVal(True), 'T'), (z3.BoolVal(False), 'F')] + lits
        for (a, x), (b, y) in itertools.combinations(lits, 2):
            if x.lstrip('!') != y.lstrip('!'):
                out.append((z3.And(a, b), x + '&' + y))
                out.append((z3.Or(a, b), x + '|' + y))
        return out

    def atoms_of(self, eng, v):
        """Boolean facts about a value of a local variable."""
        out = {}
        if isinstance(v, Poison):
            return out
        try:
            out['truth'] = as_z3(eng.truth(v))
        except (Unsupported, MergeAbort):
            pass
        try:
            out['none'] = as_z3(eng.is_(v, None))
        except (Unsupported, MergeAbort):
            pass
        return out

    def run_for(self, eng, s, fr):
        if s.orelse or has_escape(s):
            raise Unsupported('early exit from a loop over an unbounded sequence')
        base = dict(fr.env)
        carried = [n for n in sorted(assigned_names(s.body)) if n in base]
        init = {n: z3.BoolVal(i) for n, (i, _) in self.ghosts.items()}
        post = {n: upd(self.pre) for n, (_, upd) in self.ghosts.items()}
        t_init, t_pre, t_post = (self.ghost_terms(x) for x in (init, self.pre, post))

        havoc = {}
        for n in carried:
            v = base[n]
            if isinstance(v, (bool, SBool)):
                havoc[n] = SBool(eng.fresh('h_' + n, B))
            elif v is None or isinstance(v, SV):
                havoc[n] = SV(eng.fresh('h_' + n))
            elif isinstance(v, int):
                havoc[n] = SInt(eng.fresh('h_' + n, z3.IntSort()))
            else:
                raise Unsupported('loop-carried value %r' % (v,))
        # a None test of an element is false, of None true
        cands = set()
        for n in carried:
            a0 = self.atoms_of(eng, base[n])
            h = self.atoms_of(eng, havoc[n])
            for kind in set(a0) & set(h):
                for i in range(len(t_init)):
                    if self.valid(eng, a0[kind] == t_init[i][0]):
                        cands.add((n, kind, i))

        def inv(atoms, terms):
            return [atoms[n][kind] == terms[i][0] for (n, kind, i) in sorted(cands)]
        hav_atoms = {n: self.atoms_of(eng, havoc[n]) for n in carried}

        def run_body():
            fr.env.clear()
            fr.env.update(base)
            fr.env.update(havoc)
            for n in assigned_names(s.body):
                if n not in base:
                    fr.env.pop(n, None)
            eng.assign(s.target, self.elem, fr)
            eng.exec_block(s.body, fr)
            return dict(fr.env)
        try:
            while True:
                assume = inv(hav_atoms, t_pre)
                paths = eng.nested(run_body, assume)
                if any(p.kind not in ('ok', 'continue') for p in paths):
                    raise Unsupported('early exit from a loop over an unbounded sequence')
                bad = set()
                for p in paths:
                    env = p.value if p.kind == 'ok' else None
                    if env is None:
                        raise Unsupported('continue in a loop over an unbounded sequence')
                    for n in carried:
                        a = self.atoms_of(eng, env[n])
                        for c in cands:
                            if c[0] == n and c not in bad:
                                if c[1] not in a or not self.valid(
                                        eng, z3.Implies(And(assume + [p.cond]), a[c[1]] == t_post[c[2]][0])):
                                    bad.add(c)
                if not bad:
                    break
                cands -= bad
        finally:
            fr.env.clear()
            fr.env.update(base)
        eng.notes.append('invariant inferred at %s:%d: %s' % (fr.qualname, s.lineno, '; '.join(
            '%s(%s) <=> %s' % (k, n, t_pre[i][1]) for (n, k, i) in sorted(cands)[:6])))
        final_inv = inv(hav_atoms, t_pre)
        for p in paths:
            # the ghosts and the invariant hold at this iteration: hypotheses of every reported effect
            for (g, payload) in p.effects:
                eng.effects.append((And([p.cond, g]), payload))
        eng.iteration_hyps = getattr(eng, 'iteration_hyps', []) + final_inv
        for n in assigned_names(s.body) | target_names(s.target):
            if n in fr.env or n in base:
                fr.env[n] = Poison('%s assigned in a loop over an unbounded sequence' % n)

    @staticmethod
    def valid(eng, t):
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add([f for f in eng.facts])
        s.add(eng.pc_conds)
        s.add(z3.Not(t))
        return s.check() == z3.unsat
