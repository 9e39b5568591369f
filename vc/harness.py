"""Obligation ledger, replay files, evidence."""
import importlib
import json
import os
import pickle
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class TimeOut(BaseException):
    """The time of the whole check is used up."""


def watchdog(seconds):
    def ring(*a):
        raise TimeOut('time limit of the check')
    signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, max(seconds, 1))


class limit:
    """raise AssertionError if the block takes longer"""

    def __init__(self, seconds, what='does not terminate'):
        self.seconds, self.what = seconds, what

    def __enter__(self):
        def ring(*a):
            raise AssertionError(self.what)
        self.t0 = time.time()
        self.rest = signal.getitimer(signal.ITIMER_REAL)[0]
        self.old = signal.signal(signal.SIGALRM, ring)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        if self.rest:
            signal.setitimer(signal.ITIMER_REAL, max(self.rest - (time.time() - self.t0), .1))
        return False


class Skip(Exception):
    """The case does not meet the precondition of the property."""


class Check:
    def __init__(self, pid, module):
        self.pid = pid
        self.module = module
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.obls = {}            # name -> [status, backend, function, detail]
        self.stats = {}
        self.cases = {}           # case kind -> count
        self.distinct = set()
        self.samples = []
        self.functions = []
        self.trusted = []
        self.assumptions = []
        self.bounds = []
        self.notes = []
        self.failures = []        # (what, replay path, confirmed)
        self.prefix = ''
        self.known = load_known(pid)
        self.known_hit = set()
        self.out = os.path.join(HERE, 'out', pid)
        os.makedirs(self.out, exist_ok=True)
        for f in os.listdir(self.out):
            os.unlink(os.path.join(self.out, f))
        self.budget = 260 if self.tier == 'quick' else 780
        self.wall = 600 if self.tier == 'quick' else 820

    thorough = property(lambda s: s.tier == 'thorough')

    def left(self):
        return self.budget - (time.time() - self.t0)

    # ---- deductive part
    def under_contract(self, *names):
        for n in names:
            if n not in self.functions:
                self.functions.append(n)

    def trust(self, *texts):
        self.trusted += [t for t in texts if t not in self.trusted]

    def assume(self, *texts):
        self.assumptions += [t for t in texts if t not in self.assumptions]

    def bound(self, text):
        if text not in self.bounds:
            self.bounds.append(text)

    def obl(self, name, status, backend='z3', detail=''):
        """status: proved / refuted / undecided.  One entry per obligation name;
        a name proved on several paths is proved only if proved on all."""
        rank = {'proved': 0, 'undecided': 1, 'refuted': 2}
        old = self.obls.get(name)
        if old is None or rank[status] > rank[old[0]]:
            self.obls[name] = [status, backend, detail]

    def prove(self, name, ctx, formula, backend='z3'):
        """discharge one closed formula under the path condition of ctx"""
        import z3
        if isinstance(formula, bool):
            if formula or ctx.check() == z3.unsat:
                return self.obl(name, 'proved', 'evaluation')
            return self.obl(name, 'refuted', 'evaluation', 'formula is false on path %r' % (ctx.trace,))
        from . import sym
        if isinstance(formula, sym.SBool):
            formula = formula.pos
        r = ctx.check(z3.Not(formula))
        if r == z3.unsat:
            self.obl(name, 'proved', backend)
        elif r == z3.sat:
            self.obl(name, 'refuted', backend, 'path %r\ncounterexample %s' % (ctx.trace, str(ctx.solver.model())[:3000]))
        else:
            self.obl(name, 'undecided', backend, 'solver returned unknown')

    def section(self, name, fn, *a):
        """Run a part of the proof.  If the code left the modelled fragment the
        part is undecided: the obligation stays undischarged and is reported as such."""
        try:
            return fn(*a)
        except Exception as e:
            self.obl(name, 'undecided', 'engine', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))

    # ---- concrete part (bounded stand-ins and search for failing inputs)
    def case(self, kind, *args):
        fn = self.module.CASES[kind]
        if len([f for f in self.failures if f[0].startswith(kind + ':')]) >= 3:
            return False                    # enough counterexamples of this kind
        self.cases[kind] = self.cases.get(kind, 0) + 1
        try:
            key = hash((kind, repr(args)))
            if key not in self.distinct:
                self.distinct.add(key)
                if self.cases[kind] <= 2:
                    self.samples.append({'case': kind, 'input': repr(args)[:300]})
            fn(*args)
        except Skip:
            self.cases[kind] -= 1
            return True
        except Exception as e:
            self.fail(kind, args, '%s: %s' % (type(e).__name__, e))
            return False
        return True

    def fail(self, kind, args, msg):
        if len([f for f in self.failures if f[0].startswith(kind + ':')]) >= 3:
            return
        key = '%s%r' % (kind, args)
        for k in self.known:
            if k['match'] == key:
                if key not in self.known_hit:
                    self.known_hit.add(key)
                    if not self.prefix:
                        print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
                return
        n = len(self.failures)
        path = os.path.join(self.out, '%sreplay_%d.py' % (self.prefix, n))
        open(path, 'w').write(REPLAY % dict(pid=self.pid, msg=msg.replace('\\', '/').replace('"""', "'''"), here=HERE,
                                            mod=self.module.__name__, kind=kind, args=args))
        ok = False
        try:
            r = subprocess.run([sys.executable, path], capture_output=True, timeout=120)
            ok = r.returncode == 1
        except Exception:
            pass
        self.failures.append(('%s: %s' % (kind, msg), path, ok, key))

    # ---- several processes
    def parallel(self, tasks, workers=None):
        """Run tasks [(name, function)] in forked workers (worker i takes tasks i, i+n, ...) and merge
        their ledgers.  A task that raises, or a worker that dies, leaves an undecided obligation."""
        from . import srcmod
        tasks = list(tasks)
        n = min(workers or int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1), len(tasks))
        if n <= 1:
            for name, fn in tasks:
                self.section(name, fn)
            return
        base = srcmod.scratch()
        sys.stdout.flush()
        sys.stderr.flush()
        pids = {}
        for i in range(n):
            pid = os.fork()
            if pid:
                pids[pid] = i
                continue
            rc = 1
            try:
                srcmod.enter_worker(i)
                watchdog(self.t0 + self.wall - 30 - time.time())
                sub = self._worker('w%d_' % i)
                try:
                    for name, fn in tasks[i::n]:
                        t1 = time.time()
                        sub.section(name, fn)
                        if os.environ.get('VERIF_TIMES'):
                            print('TIME %7.2f %s' % (time.time() - t1, name), flush=True)
                    watchdog(3600)
                except TimeOut:
                    sub.obl(name, 'undecided', 'time', 'the time limit of the check was reached here; later tasks were not run')
                with open(os.path.join(base, 'w%d.pickle' % i), 'wb') as f:
                    pickle.dump(sub._ledger(), f)
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(rc)
        while pids:
            pid, st = os.wait()
            i = pids.pop(pid, None)
            if i is None:
                continue
            f = os.path.join(base, 'w%d.pickle' % i)
            if st != 0 or not os.path.exists(f):
                self.obl('worker %d completed' % i, 'undecided', 'engine', 'wait status %d; tasks %s' % (st, [t for t, _ in tasks[i::n]][:20]))
                continue
            self._merge(pickle.load(open(f, 'rb')))
            os.unlink(f)

    def _worker(self, prefix):
        self.prefix = prefix
        self.obls, self.stats, self.cases, self.distinct, self.samples = {}, {}, {}, set(), []
        self.functions, self.trusted, self.assumptions, self.bounds, self.notes = [], [], [], [], []
        self.failures = []
        self.known_before = set(self.known_hit)
        return self

    def _ledger(self):
        return dict(obls=self.obls, stats=self.stats, cases=self.cases, distinct=self.distinct, samples=self.samples,
                    functions=self.functions, trusted=self.trusted, assumptions=self.assumptions, bounds=self.bounds,
                    notes=self.notes, failures=self.failures, known_hit=self.known_hit - self.known_before)

    def _merge(self, w):
        for n, (st, be, de) in w['obls'].items():
            self.obl(n, st, be, de)
        for k, v in w['stats'].items():
            self.stats[k] = self.stats.get(k, 0) + v
        for k, v in w['cases'].items():
            self.cases[k] = self.cases.get(k, 0) + v
        self.distinct |= w['distinct']
        self.samples += w['samples']
        self.under_contract(*w['functions'])
        self.trust(*w['trusted'])
        self.assume(*w['assumptions'])
        for b in w['bounds']:
            self.bound(b)
        self.notes += w['notes']
        for f in w['failures']:
            kind = f[0].split(':')[0]
            if len([g for g in self.failures if g[0].startswith(kind + ':')]) < 3:
                self.failures.append(f)
        for key in sorted(w['known_hit'] - self.known_hit):
            self.known_hit.add(key)
            for k in self.known:
                if k['match'] == key:
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))

    def finish(self):
        st = [o[0] for o in self.obls.values()]
        refuted = [(n, o) for n, o in self.obls.items() if o[0] == 'refuted']
        undec = [(n, o) for n, o in self.obls.items() if o[0] == 'undecided']
        viol = []
        for what, path, ok, key in self.failures:
            viol.append((path, ok, what))
        if refuted and not any(v[1] for v in viol):
            path = os.path.join(self.out, 'failed_obligations.txt')
            with open(path, 'w') as f:
                for n, o in refuted:
                    f.write('property %s: obligation not valid: %s\nback end: %s\n%s\n\n' % (self.pid, n, o[1], o[2]))
            viol.append((path, False, 'obligation refuted: ' + refuted[0][0]))
        empty = not self.obls and not self.cases
        level = getattr(self.module, 'LEVEL', 'proof')
        cov = dict(
            obligations=len(st), discharged=st.count('proved'),
            undischarged=[dict(name=n, status=o[0], detail=o[2][:400]) for n, o in refuted + undec],
            back_ends=_count(o[1] for o in self.obls.values()),
            obligation_names=sorted(self.obls)[:400],
            functions_under_contract=self.functions,
            solver_queries=self.stats.get('queries', 0), solver_s=round(self.stats.get('solver_s', 0), 2),
            checker_cmd='%s /verif/run.py %s' % (sys.executable, self.pid),
            trusted_base=self.trusted + BASE_TRUST,
            bounded=dict(cases=self.cases, bounds=self.bounds),
            evaluations=sum(self.cases.values()), distinct_nontrivial=len(self.distinct),
            rule='distinct (kind, arguments); every case builds a type/program and values and compares against an independent specification',
            samples=self.samples[:12])
        cov['explanation'] = getattr(self.module, 'EXPLANATION', '') or (self.module.__doc__ or '')
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(viol))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w'), indent=1, default=str)
        print('%s: obligations %d, discharged %d, undecided %d, refuted %d; bounded cases %d; %.1fs' % (
            self.pid, len(st), st.count('proved'), len(undec), len(refuted), sum(self.cases.values()), time.time() - self.t0))
        for n, o in undec[:10]:
            print('  undecided: %s  %s' % (n, o[2].strip().split('\n')[0][:200]))
        if empty:
            print('%s: nothing was checked' % self.pid)
            return 2
        if not viol:
            return 0
        if any(ok for _, ok, _ in viol):
            viol = [v for v in viol if v[1]]
        for path, ok, what in viol[:5]:
            print('  %s' % what[:400])
            print('VIOLATION property=%s replay=%s%s' % (self.pid, path, '' if ok else ' no-failing-input-found'))
        return 1


BASE_TRUST = ['CPython 3.12 executes the code of /repo as usual', 'z3 (unsat answers)',
              'the proxies and contracts of /verif/vc']

REPLAY = '''"""Replay for property %(pid)s.  Exit status 1: the failure shows on the current tree.

%(msg)s
"""
import sys, traceback
sys.path.insert(0, %(here)r)
import vc.fresh
from vc.harness import Skip
import os
from vc import srcmod
os.chdir(srcmod.scratch())
import %(mod)s as m
args = %(args)r
try:
    m.CASES[%(kind)r](*args)
except Skip:
    sys.exit(0)
except Exception:
    traceback.print_exc()
    sys.exit(1)
print('not reproduced')
sys.exit(0)
'''


def _count(it):
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return d


def load_known(pid):
    f = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get('known', []) if k['property'] == pid]


def main(pid):
    sys.path.insert(0, HERE)
    from . import fresh  # noqa
    from . import srcmod
    os.chdir(srcmod.scratch())        # ast_tools writes its output below the working directory
    mod = importlib.import_module('checks.' + pid.lower())
    ck = Check(pid, mod)
    try:
        watchdog(ck.wall)
        mod.run(ck)
        watchdog(3600)
    except TimeOut:
        ck.obl('check completed', 'undecided', 'time', 'time limit')
    except Exception as e:
        traceback.print_exc()
        ck.obl('check completed', 'undecided', 'engine', '%s: %s' % (type(e).__name__, e))
    rc = ck.finish()
    sys.stdout.flush()
    os.chdir('/')
    srcmod.cleanup()
    os._exit(rc)
