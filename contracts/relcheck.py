"""Runs functional contracts (pyvc.relational) as obligations of a check."""
import time
import traceback

from pyvc.engine import Unsupported, MergeAbort
from pyvc.relational import RelEngine, prove

CASES = {}      # name -> (module-level function building (engine, code, spec), functions under contract)


def contract(prop, name, functions):
    def deco(f):
        CASES[name] = (prop, f, functions)
        return f
    return deco


def rel(prop, name, functions, prepare, setup, code, spec, observe=None, pre=None):
    """A contract where code and specification get the inputs that `setup(eng)` builds (fresh each time); what is
    compared is the result and `observe(*args)`."""
    @contract(prop, name, functions)
    def case():
        eng = prepare()
        if pre:
            pre(eng)

        def run(f):
            args = setup(eng)
            r = f(eng, *args)
            return r, observe(*args) if observe else None
        return eng, lambda: run(code), lambda: run(spec)


def calls(f):
    return lambda eng, *a: eng.call_function(f, list(a), {})


def inline(f):
    return (getattr(f, '__module__', '') or '').split('.')[0] in ('httpolice', 'contracts')


def engine():
    return RelEngine(inline=inline)


UNROLL = 2
UNROLL_SECONDS = 60


def unrolled(f, name, k=UNROLL):
    """The same contract with loops unrolled and opaque sequences of at most k elements, which proves nothing but does not
    depend on how loops are written: [(label, status, seconds, detail)]"""
    out = []
    try:
        eng, code, spec = f()
        eng.unroll = k
        eng.deadline = time.time() + UNROLL_SECONDS
        prove(eng, name, code, spec, lambda *a: out.append(a[:4]))
    except (Unsupported, MergeAbort, RecursionError) as e:
        out.append((name, 'undecided', 0.0, 'outside the verified subset: %s' % e))
    except Exception:
        out.append((name, 'undecided', 0.0, 'machinery: ' + ' | '.join(traceback.format_exc().splitlines()[-6:])))
    return out


def loopy(detail):
    return 'matches no loop of the code' in detail or detail.startswith('after a loop')


def confirm(f, name, out):
    """A loop that the invariant does not relate to the specification's may be wrong or only be written differently: it is
    reported only when code and specification also differ within the bound."""
    for k in range(UNROLL, 0, -1):
        got = unrolled(f, name, k)
        if any(x[1] == 'refuted' for x in got) or not any(x[1] == 'undecided' for x in got):
            break
    bad = [x for x in got if x[1] == 'refuted']
    for i, (label, st, sec, d) in enumerate(out):
        if st != 'refuted' or not loopy(d):
            continue
        if bad:
            out[i] = (label, st, sec, 'within %d iterations: %s: %s ... %s' % (k, bad[0][0], bad[0][3], d))
        else:
            left = [x[3] for x in got if x[1] == 'undecided']
            out[i] = (label, 'undecided', sec, 'not proved, and no difference within %d iterations%s: %s' % (
                k, ' (%s)' % left[0][:200] if left else '', d))


def run_case(name):
    prop, f, functions = CASES[name]
    out = []
    notes, assumed = [], []
    t0 = time.time()

    def report(label, status, seconds, detail, model):
        out.append((label, status, seconds, detail))
    try:
        eng, code, spec = f()
        prove(eng, name, code, spec, report)
        notes, assumed = eng.notes, sorted(eng.assumed)
        if any(st == 'refuted' and loopy(d) for _, st, _, d in out):
            confirm(f, name, out)
        if not out:
            out.append((name + ': no path', 'undecided', 0.0, 'no path of the code was found'))
    except (Unsupported, MergeAbort, RecursionError) as e:
        out.append((name, 'undecided', 0.0, 'outside the verified subset: %s' % e))
    except Exception:
        out.append((name, 'undecided', 0.0, 'machinery: ' + ' | '.join(traceback.format_exc().splitlines()[-6:])))
    return name, out, notes, assumed, time.time() - t0


def run(chk, names):
    from contracts import core
    for name, out, notes, assumed, wall in core.parallel(run_case, names, timeout=400):
        for label, status, sec, detail in out:
            chk.obligation(label, status, 'pyvc relational / z3', sec, detail)
        chk.functions += CASES[name][2]
        chk.assumptions += assumed
        chk.loop_notes = getattr(chk, 'loop_notes', []) + ['%s: %s' % (name, n) for n in notes]


def names_of(prop):
    return [n for n, c in CASES.items() if c[0] == prop]


def main(prop, verbose=True, only=None):
    from contracts import core
    total = 0
    for name in names_of(prop):
        if only and only not in name:
            continue
        name, out, notes, assumed, wall = run_case(name)
        st = {}
        for label, status, sec, detail in out:
            st[status] = st.get(status, 0) + 1
            if status != 'discharged':
                print('   %s: %s %s' % (label, status, detail[:300] + ' ... ' + detail[-500:] if len(detail) > 900 else detail))
        print('%-45s %s %.1f s' % (name, st, wall))
        if verbose:
            for n in notes[:8]:
                print('      ' + n)
            if assumed:
                print('      assumed: ' + '; '.join(assumed))


def run_escapes(name):
    """The exceptions that can leave the functions of a case, whatever the inputs: [(label, status, seconds, classes)]"""
    import z3
    from pyvc.terms import SObj
    prop, f, functions = CASES[name]
    t0 = time.time()
    try:
        eng, code, _ = f()
        eng.partners = None
        paths = eng.nested(code)
        got, unknown = {}, False
        for p in paths:
            if p.kind != 'raise':
                continue
            cls = p.value.cls if isinstance(p.value, SObj) else type(p.value)
            r = eng.solve([p.cond], 5000)[0]
            if r == z3.unsat or isinstance(p.value, (AttributeError, NameError)):
                unknown = unknown or r != z3.unsat      # the model of the inputs may lack what this version of the code uses
                continue
            got.setdefault(cls.__name__, str(z3.simplify(p.cond))[:600])
        return name, got, 'unknown attribute' if unknown else None, len(paths), time.time() - t0
    except (Unsupported, MergeAbort, RecursionError) as e:
        return name, {}, 'outside the verified subset: %s' % e, 0, time.time() - t0
    except Exception:
        return name, {}, 'machinery: ' + ' | '.join(traceback.format_exc().splitlines()[-6:]), 0, time.time() - t0
