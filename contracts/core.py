"""Common part of every check: obligations, bounded cross-checks, violations, evidence, exit status."""
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('VERIF_EVIDENCE_DIR') or os.path.join(ROOT, 'evidence')


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obligations = []       # (name, status, backend, seconds, detail)
        self.bounded = {}           # name -> {'cases': n, 'bound': text}
        self.functions = []         # functions under contract
        self.trusted = []
        self.assumptions = []
        self.violations = []        # (key, what, replay dict, found)
        self.undecided = []
        self.samples = []
        self.known = []
        path = os.path.join(ROOT, 'known_findings.json')
        if os.path.exists(path):
            with open(path) as f:
                self.known = [k for k in json.load(f) if k['property'] == pid and k['status'] == 'known']

    # -- recording

    def obligation(self, name, status, backend, seconds=0.0, detail=''):
        """status: 'discharged', 'refuted' or 'undecided'."""
        self.obligations.append((name, status, backend, seconds, detail))
        return status == 'discharged'

    def bound(self, name, cases, bound):
        b = self.bounded.setdefault(name, {'cases': 0, 'bound': bound})
        b['cases'] += cases

    def sample(self, x):
        if len(self.samples) < 5:
            self.samples.append(x)

    def violation(self, key, what, replay, found=True):
        """`key` identifies the failing input or obligation; `replay` says how to see it again."""
        self.violations.append((key, what, replay, found))

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def elapsed(self):
        return time.time() - self.t0

    # -- the parts of a check: a crash of the machinery is not a violation

    def part(self, name, f, *args):
        try:
            return f(*args)
        except Exception as e:
            tb = traceback.format_exc()
            files = [l for l in tb.splitlines() if l.lstrip().startswith('File "')]
            blocks = tb.split('The above exception was the direct cause')[0]
            first = [l for l in blocks.splitlines() if l.lstrip().startswith('File "')] or files
            if name in CONCRETE and first and '/httpolice/' in first[-1] and not isinstance(e, (ImportError, SyntaxError, NotImplementedError)):
                # the real code, given the inputs of a bounded check, raised something
                self.violation('%s raises %s' % (name, type(e).__name__), 'the code raises %r in part %s' % (e, name), {'trace': tb.splitlines()[-40:]})
                return None
            self.undecided.append('%s: %s' % (name, e))
            sys.stderr.write('[%s] part %s undecided: %s\n' % (self.pid, name, tb))
            return None

    # -- the verdict

    def finish(self):
        known_keys = {k['key']: k for k in self.known}
        real = []
        hit = set()
        for v in self.violations:
            if v[0] in known_keys:
                hit.add(v[0])
            else:
                real.append(v)
        refuted = [o for o in self.obligations if o[1] == 'refuted']
        found = [v for v in real if v[3]]
        notfound = [v for v in real if not v[3]]
        if refuted and not real and not hit:
            notfound = [('obligation:' + refuted[0][0], 'obligation refuted: %s' % refuted[0][0],
                         {'obligation': refuted[0][0], 'verifier_output': refuted[0][4]}, False)]
        for k in sorted(hit):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, known_keys[k]['what']))
        out = found or notfound
        for n, (key, what, replay, fnd) in enumerate(out[:1]):
            d = os.path.join(EVIDENCE, 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s.json' % self.pid)
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'key': key, 'what': what, 'replay': replay,
                           'refuted_obligations': [{'name': o[0], 'detail': o[4][:4000]} for o in refuted],
                           'all_violations': [(v[0], v[1]) for v in out[:50]]}, f, indent=1, default=repr)
            print('  ' + what)
            print('VIOLATION property=%s replay=%s%s' % (self.pid, path, '' if fnd else ' no-failing-input-found'))
        und = [o for o in self.obligations if o[1] == 'undecided']
        for o in und[:20]:
            sys.stderr.write('undecided obligation: %s %s\n' % (o[0], o[4][:300]))
        self.write_evidence(len(out), und)
        disc = sum(1 for o in self.obligations if o[1] == 'discharged')
        print('%s: %d/%d obligations discharged, %d undecided, bounded cases %d, %.1f s' % (
            self.pid, disc, len(self.obligations), len(und) + len(self.undecided),
            sum(b['cases'] for b in self.bounded.values()), self.elapsed()))
        return 1 if out else 0

    def write_evidence(self, nviol, und):
        by_backend = {}
        for (_, s, b, t, _) in self.obligations:
            x = by_backend.setdefault(b, {'obligations': 0, 'discharged': 0, 'solver_s': 0.0})
            x['obligations'] += 1
            x['discharged'] += s == 'discharged'
            x['solver_s'] = round(x['solver_s'] + t, 3)
        disc = sum(1 for o in self.obligations if o[1] == 'discharged')
        cov = {
            'obligations': len(self.obligations),
            'discharged': disc,
            'checker_cmd': './check %s --tier %s' % (self.pid, self.tier),
            'trusted_base': self.trusted or ['pyvc (generator of obligations)', 'z3'],
            'back_ends': by_backend,
            'functions_under_contract': sorted(set(self.functions)),
            'undecided': [o[0] for o in und] + self.undecided,
            'refuted': [o[0] for o in self.obligations if o[1] == 'refuted'],
            'obligation_names': [o[0] for o in self.obligations][:400],
            'bounded_checks': self.bounded,
            'evaluations': sum(b['cases'] for b in self.bounded.values()),
            'samples': self.samples or [o[0] for o in self.obligations[:3]],
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': LEVELS.get(self.pid, 'proof'),
              'coverage': cov, 'assumptions': sorted(set(self.assumptions)), 'wall_s': round(self.elapsed(), 2),
              'violations': nviol}
        if ev['level'] == 'other':
            cov['explanation'] = EXPLAIN.get(self.pid, '')
        d = EVIDENCE
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)


# parts that run the real code on concrete inputs
CONCRETE = {'bounded', 'history', 'message history', 'classes', 'quoted delimiters', 'reports', 'lemmas', 'bodies', 'captures', 'documents', 'crosscheck',
            'streams', 'limit', 'helpers', 'values', 'tables', 'histories', 'status', 'items', 'strings', 'multidict', 'unavailable', 'enums'}
LEVELS = {'C06': 'other', 'C18': 'other'}
EXPLAIN = {
    'C06': 'the memo, parse() and the annotated form are proved for all inputs and histories; the Earley core (recognition, derivations, error '
           'positions) is a bounded stand-in: random grammars and inputs against an independent recogniser',
    'C18': 'escaping exceptions of every function under contract and of the check_* functions are proved absent for all inputs, except implicit '
           'TypeErrors on values of abstract type, recursion depth and memory; the whole chain is additionally run on bounded random inputs',
}


# ---------------------------------------------------------------------------------------------------
# process pool for bounded cross-checks

def _die_with_parent():
    import ctypes
    import signal
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # PR_SET_PDEATHSIG: no worker outlives the check
    except (OSError, AttributeError):
        pass


class Hang(Exception):
    pass


def _hung(*_):
    raise Hang('the code under test did not finish in %d seconds on this one case' % HANG_S)


HANG_S = 100


def tick():
    """Called before each case of a bounded check: a case that never finishes becomes an exception of that case."""
    import signal
    signal.signal(signal.SIGALRM, _hung)
    signal.alarm(HANG_S)


class _Job:
    def __init__(self, func):
        self.func = func

    def __call__(self, job):
        import signal
        try:
            return self.func(job)
        finally:
            signal.alarm(0)


def parallel(func, jobs, timeout=None, procs=None):
    """Run func(job) for each job in forked processes; yields results (exceptions re-raised)."""
    import multiprocessing
    ctx = multiprocessing.get_context('fork')
    procs = min(procs or os.cpu_count() or 4, len(jobs)) or 1
    if procs <= 1:
        for j in jobs:
            yield _Job(func)(j)
        return
    with ctx.Pool(procs, _die_with_parent) as pool:
        it = pool.imap_unordered(_Job(func), jobs)
        for _ in jobs:
            yield it.next(timeout)
