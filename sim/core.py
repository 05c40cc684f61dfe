"""Runner shared by all checks: seeds, worker processes, minimiser, replay
files, evidence.

One integer (VERIF_SEED) decides everything: case i of property P is generated
by random.Random("P:seed:i"); running a case is a function of the case and the
code only.  Every case runs in a child forked from a parent that has imported
the code under test, in a scratch directory of its own.
"""
import collections
import faulthandler
import hashlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import traceback

from . import clock as clockmod
now = clockmod.REAL['monotonic']

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Hang(BaseException):
    "raised in the child when a case used up its CPU time"


class Outcome:
    def __init__(self):
        self.violations = []      # list of [kind, text]
        self.stats = collections.Counter()
        self.log = hashlib.sha256()
        self.tail = collections.deque(maxlen=int(os.environ.get("VERIF_TAIL", "60")))
        self.known = []           # [kind, text] of known findings
        self.nontrivial = False
        self.sim_time = 0.0

    def violate(self, kind, text):
        self.violations.append([kind, text])
        self.event('VIOLATION %s %s' % (kind, text))

    def event(self, *a):
        s = ' '.join(str(x) for x in a)
        self.log.update(s.encode('utf-8', 'replace') + b'\n')
        self.tail.append(s[:300])

    def count(self, key, n=1):
        self.stats[key] += n


class Check:
    "base class; one per property"
    id = ''
    technique = 'deterministic simulation, seeded search'
    level = 'exploration'
    rule = ''
    n_quick = 100
    n_thorough = 3000
    cpu = 60            # CPU seconds after which a case counts as hanging
    budget = {'quick': 150, 'thorough': 780}
    shim = False
    real = []           # components that ran real code
    stub = ['src.CLA (absent from the repository; stub from laminate theory)']
    assumptions = []

    def gen(self, R, tier):
        raise NotImplementedError

    def run(self, case, out, scratch):
        raise NotImplementedError

    def shrink(self, case):
        return iter(())

    def known(self, kind, text, case):
        "name of the known finding that explains a violation, or None"
        return None

    def extra(self, runner):
        "whole-check steps; returns (violation or None, evidence dictionary)"
        return None, {}

    def known_findings(self):
        """re-runs the listed known findings of the property: list of
        (title, still fails)"""
        return []


def seed_rng(*parts):
    return random.Random(':'.join(str(x) for x in parts))


def canonical(case):
    return json.dumps(case, sort_keys=True)


def temp_names():
    R = random.Random(20)
    while True:
        yield R.randrange(1 << 32)


# ------------------------------------------------------------------- one case
def run_here(check, case, scratch):
    """runs a case in this process"""
    out = Outcome()

    def on_cpu(*_):
        raise Hang()
    # names of temporary files are random too
    tempfile._name_sequence = ('%08x' % n for n in temp_names())
    signal.signal(signal.SIGPROF, on_cpu)
    signal.setitimer(signal.ITIMER_PROF, check.cpu, 1.0)
    try:
        check.run(case, out, scratch)
    except Hang:
        signal.setitimer(signal.ITIMER_PROF, 0)
        tb = [x for x in traceback.extract_tb(sys.exc_info()[2])
              if '/src/' in x.filename]
        where = '%s:%s' % (os.path.basename(tb[-1].filename), tb[-1].name) \
            if tb else '?'
        out.violations.append(['hang', 'no end after %d s of CPU time, in %s'
                               % (check.cpu, where)])
    except Exception as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        tb = traceback.extract_tb(e.__traceback__)
        src = os.path.join(REPO, 'src') + os.sep
        mine = [x for x in tb if x.filename.startswith(VERIF + os.sep)]
        code = [x for x in tb if x.filename.startswith(src)]
        if code and not isinstance(e, (MemoryError, OSError)):
            kind, at = 'crash', code[-1]
        elif mine and isinstance(e, (
                KeyError, IndexError, TypeError, ValueError, AttributeError,
                ZeroDivisionError)):
            # what the code returned has not the form that it has to have
            kind, at = 'malformed', mine[-1]
        else:
            raise
        out.violate(kind, '%s: %s (%s:%s)' % (
            type(e).__name__, ' '.join(str(e).split())[:200],
            os.path.basename(at.filename), at.name))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        clockmod.use(None)
    return out


class Child:
    def __init__(self, check, case, key, root):
        self.key = key
        self.scratch = os.path.join(root, 'c%s' % key)
        r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(r)
                os.makedirs(self.scratch)
                os.chdir(self.scratch)
                null = os.open(os.devnull, os.O_RDWR)
                for fd in (0, 1, 2):
                    os.dup2(null, fd)
                sys.stdout = open(1, 'w', closefd=False)
                sys.stderr = open(2, 'w', closefd=False)
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                try:
                    o = run_here(check, case, self.scratch)
                    msg = dict(violations=o.violations, stats=dict(o.stats),
                               digest=o.log.hexdigest(), tail=list(o.tail),
                               known=o.known, nontrivial=o.nontrivial,
                               sim_time=o.sim_time)
                except BaseException:
                    msg = dict(error=traceback.format_exc())
                data = pickle.dumps(msg)
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            except BaseException:
                code = 3
            os._exit(code)
        os.close(w)
        self.fd = r
        self.data = b''
        self.t0 = now()
        self.limit = check.cpu*8 + 60

    def finish(self):
        os.close(self.fd)
        _, st = os.waitpid(self.pid, 0)
        shutil.rmtree(self.scratch, ignore_errors=True)
        try:
            return pickle.loads(self.data)
        except Exception:
            return dict(error='child ended with status %d and no answer' % st)

    def kill(self):
        os.kill(self.pid, signal.SIGKILL)


def run_many(check, jobs, root, workers, deadline=None, stop=None):
    """jobs: iterator of (key, case); yields (key, case, result) in order of
    completion.  `stop(key)` true: no new jobs with a greater key."""
    live = {}
    jobs = iter(jobs)
    more = True
    while True:
        while more and len(live) < workers and not (
                deadline and now() > deadline):
            try:
                key, case = next(jobs)
            except StopIteration:
                more = False
                break
            if stop and stop(key):
                more = False
                break
            c = Child(check, case, key, root)
            live[c.fd] = (c, case)
        if not live:
            return
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for fd in ready:
            c, case = live[fd]
            b = os.read(fd, 1 << 20)
            if b:
                c.data += b
                continue
            del live[fd]
            yield c.key, case, c.finish()
        for fd, (c, case) in list(live.items()):
            if now() - c.t0 > c.limit:
                c.kill()
                del live[fd]
                c.finish()
                yield c.key, case, dict(error='killed after %d s' % c.limit)


# --------------------------------------------------------------------- runner
class Runner:
    def __init__(self, check, tier, seed, root):
        self.check, self.tier, self.seed, self.root = check, tier, seed, root
        self.workers = int(os.environ.get('VERIF_WORKERS', '0')) or min(
            8, os.cpu_count() or 1)
        self.counter = 0

    def case(self, i):
        return self.check.gen(seed_rng(self.check.id, self.seed, i), self.tier)

    def one(self, case):
        self.counter += 1
        for _, _, r in run_many(self.check, [('x%d' % self.counter, case)],
                                self.root, 1):
            return r

    def kinds(self, r, case):
        return [k for k, t in r.get('violations', [])
                if self.check.known(k, t, case) is None]

    def still_hangs(self, case):
        "a slow machine is not a hang: three times the CPU time"
        self.check.cpu *= 3
        try:
            return 'hang' in self.kinds(self.one(case), case)
        finally:
            self.check.cpu //= 3

    def minimise(self, case, kind, budget):
        "greedy: first smaller case that still shows the same kind of violation"
        end = now() + budget
        tried = 0
        best, better = case, True
        res = None
        while better and now() < end:
            better = False
            cands = []
            seen = {canonical(best)}
            for c in self.check.shrink(json.loads(json.dumps(best))):
                s = canonical(c)
                if s not in seen:
                    seen.add(s)
                    cands.append(c)
            for lo in range(0, len(cands), self.workers):
                if now() > end:
                    break
                group = cands[lo:lo + self.workers]
                self.counter += 1
                got = {}
                for k, c, r in run_many(
                        self.check, [('m%d_%d' % (self.counter, j), c)
                                     for j, c in enumerate(group)],
                        self.root, self.workers):
                    got[k] = (c, r)
                    tried += 1
                for j, c in enumerate(group):
                    c, r = got['m%d_%d' % (self.counter, j)]
                    if kind in self.kinds(r, c):
                        best, res, better = c, r, True
                        break
                if better:
                    break
        return best, res, tried

    def main(self):
        ch = self.check
        t0 = now()
        n = ch.n_quick if self.tier == 'quick' else ch.n_thorough
        if os.environ.get('VERIF_CASES'):
            n = int(os.environ['VERIF_CASES'])
        deadline = t0 + float(os.environ.get('VERIF_BUDGET')
                              or ch.budget[self.tier])
        stats = collections.Counter()
        digests, shapes = set(), set()
        digest_of = {}
        nontrivial, done, sim_time = 0, 0, 0.0
        errors, known = [], collections.Counter()
        samples = []
        fail = {}

        def jobs():
            for i in range(n):
                yield i, self.case(i)

        def stop(key):
            return bool(fail) and key > min(fail)
        for i, case, r in run_many(ch, jobs(), self.root, self.workers,
                                   deadline, stop):
            if 'error' in r:
                errors.append((i, r['error']))
                continue
            done += 1
            for k, v in r['stats'].items():
                stats[k] += v
            sim_time += r['sim_time']
            if r['digest'] not in digests:
                digests.add(r['digest'])
                nontrivial += bool(r['nontrivial'])
            digest_of[i] = r['digest']
            if len(samples) < 3 and i < 8:
                samples.append(dict(index=i, case=case, events=r['tail'][-12:]))
            for k, t in r['violations']:
                name = ch.known(k, t, case)
                if name:
                    known[name] += 1
                elif k == 'hang' and not self.still_hangs(case):
                    stats['slow runs'] += 1
                elif i not in fail:
                    fail[i] = (case, k, t, r)
        wall_search = now() - t0
        report = None
        if fail:
            i = min(fail)
            report = (i,) + fail[i]
        ev_extra = {}
        if report is None:
            v, ev_extra = ch.extra(self)
            if v:
                report = ('extra',) + tuple(v)
        code = 0
        minimised = 0
        if report:
            i, case, kind, text, r = report
            if kind != 'hang' and i != 'extra':
                budget = float(os.environ.get('VERIF_MIN') or (
                    60 if self.tier == 'quick' else 180))
                small, res, minimised = self.minimise(case, kind, budget)
                if res is not None:
                    case, r = small, res
                    text = [t for k, t in r['violations'] if k == kind][0]
            path = self.write_replay(i, case, kind, text, r)
            print('violation: %s: %s' % (kind, text))
            print('VIOLATION property=%s replay=%s' % (ch.id, path))
            code = 1
        for title, fails in ch.known_findings():
            if fails:
                print('KNOWN-FINDING: property=%s %s' % (ch.id, title))
                known[title] += 1
        if code == 0 and errors:
            print('harness error in case %s:\n%s' % errors[0])
            code = 2
        if code == 0 and done == 0:
            print('no case was run')
            code = 2
        wall = now() - t0
        cov = dict(
            evaluations=done, distinct_nontrivial=nontrivial, rule=ch.rule,
            samples=samples or [dict(note='no sample')],
            cases_planned=n, seeds_per_hour=round(done/max(wall_search, .01)
                                                  * 3600),
            simulated_seconds=round(sim_time, 3),
            distinct_executions=len(digests),
            distinct_measure='distinct SHA-256 of the full event log of a run',
            counters={k: v for k, v in sorted(stats.items())
                      if not k.startswith('fault:')},
            faults_injected={k[6:]: v for k, v in sorted(stats.items())
                             if k.startswith('fault:')},
            components_real=ch.real, components_stub=ch.stub,
            known_findings={k: v for k, v in known.items()},
            harness_errors=len(errors), workers=self.workers,
            minimisation_runs=minimised)
        cov.update(ev_extra)
        ev = dict(property=ch.id, tier=self.tier, seed=self.seed,
                  level=ch.level, coverage=cov, assumptions=ch.assumptions,
                  wall_s=round(wall, 2), violations=1 if code == 1 else 0)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', ch.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d runs (%d distinct non-trivial), %.1f s, exit %d'
              % (ch.id, self.tier, done, nontrivial, wall, code))
        return code

    def write_replay(self, i, case, kind, text, r):
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%s.json' % (self.check.id, self.seed, i))
        with open(path, 'w') as f:
            json.dump(dict(property=self.check.id, seed=self.seed, index=i,
                           kind=kind, text=text, case=case,
                           digest=r.get('digest'), events=r.get('tail'),
                           how='./check %s --replay %s' % (
                               self.check.id, path)), f, indent=1)
        return path

    def replay(self, path):
        with open(path) as f:
            d = json.load(f)
        if d['kind'] == 'hang':
            self.check.cpu *= 3
        r = self.one(d['case'])
        if 'error' in r:
            print(r['error'])
            return 2
        for e in r['tail']:
            print('  ', e)
        for k, t in r['violations']:
            print('violation: %s: %s' % (k, t))
        if d['kind'] in [k for k, _ in r['violations']]:
            print('event log %s' % ('identical' if r['digest'] == d['digest']
                                    else 'differs'))
            print('VIOLATION property=%s replay=%s' % (self.check.id, path))
            return 1
        print('not reproduced')
        return 0


def warm_up():
    "imports of the code under test, once, in the parent"
    import warnings
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from . import cla_stub
    cla_stub.install()
    clockmod.install()
    from . import steps
    steps.install()
    import numpy            # noqa: F401
    import pandas           # noqa: F401
    import numpy.matlib     # noqa: F401
    import src.BELLA.optimiser   # noqa: F401
    import src.BELLA.obj_function   # noqa: F401
    import src.BELLA.materials   # noqa: F401
    numpy.seterr(all='ignore')


def main(checks, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--case', type=int, help='run one case and print its log')
    ap.add_argument('--digests', help='lo:hi, print the digest of these cases')
    a = ap.parse_args(argv)
    check = checks[a.property]()
    warm_up()
    root = tempfile.mkdtemp(prefix='verif-%s-' % a.property,
                            dir=os.environ.get('VERIF_SCRATCH'))
    try:
        run = Runner(check, a.tier, a.seed, root)
        if a.replay:
            return run.replay(a.replay)
        if a.digests:
            lo, hi = map(int, a.digests.split(':'))
            got = {}
            for i, _, r in run_many(check, ((i, run.case(i))
                                            for i in range(lo, hi)),
                                    root, run.workers):
                got[i] = r.get('digest') or r.get('error')
                if os.environ.get('VERIF_LOGS'):
                    with open('%s.%d' % (os.environ['VERIF_LOGS'], i),
                              'w') as f:
                        f.write('\n'.join(r.get('tail', [])))
            for i in sorted(got):
                print(i, got[i])
            return 0
        if a.case is not None:
            case = run.case(a.case)
            print(json.dumps(case))
            r = run.one(case)
            print(r.get('error') or '\n'.join(r['tail']))
            print({k: v for k, v in r.items() if k not in ('tail', 'error')})
            return 0
        return run.main()
    finally:
        shutil.rmtree(root, ignore_errors=True)
        faulthandler.cancel_dump_traceback_later()
