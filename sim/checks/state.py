"""P09-P11: no state leaks between runs, processes and threads"""
import json
import os
import random
import resource
import subprocess
import sys

from .. import book, clock, core, oracle, steps, workload as W, world
from ..core import Check
from ..layouts import write_layouts
from ..steps import Counter, Interrupt, Lines, Scheduler
from ..world import first_difference, gen_world, in_fork, report, simulate
from .runs import EXC, REAL, STUB


def vars_of(x, depth=0):
    "comparable copy of the attributes of an object"
    import numpy as np
    if isinstance(x, np.ndarray):
        return ('array', str(x.dtype), x.shape, [vars_of(y) for y in
                                                 x.ravel().tolist()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [vars_of(y, depth) for y in x])
    if isinstance(x, dict):
        return ('dict', [(repr(k), vars_of(v, depth)) for k, v in x.items()])
    if isinstance(x, (int, float, str, bool, type(None))):
        return repr(x)
    if isinstance(x, np.generic):
        return repr(x.item())
    if hasattr(x, '__dict__') and depth < 3:
        return ('object', [(k, vars_of(v, depth + 1))
                           for k, v in sorted(vars(x).items())])
    return type(x).__name__


class P09(Check):
    id = 'P09'
    technique = ('deterministic simulation: the same seeded runs replayed in '
                 'differently disturbed processes')
    note_text = ('Runs are compared value by value with runs of the same '
                 'random stream and clock in another interpreter.')
    rule = ('batches of problems, each solved in a fork of a fresh process '
            'and again, in another order, in a new interpreter with another '
            'hash seed, working directory, time of day, jumping wall clock, '
            'numpy random state and temporary-file names; with given layouts '
            'also another random stream and clock; non-trivial: at least two '
            'problems of the batch gave designs')
    n_quick = 44
    n_thorough = 900
    cpu = 120
    budget = {'quick': 150, 'thorough': 840}
    real = REAL + ['src/divers/excel.py (in the runs that save)']
    stub = STUB
    assumptions = ['symmetric laminates of even ply counts',
                   'the same versions of the interpreter and the libraries']

    def gen(self, R, tier):
        jobs = []
        for _ in range(R.choice([3, 4, 5])):
            j = gen_world(R, tier, small=R.random() < .6)
            j['save'] = R.random() < .25
            j['other'] = None
            if j['layouts'] is not None:
                j['other'] = dict(random_seed=R.randrange(1 << 30),
                                  stream=world.gen_stream(R),
                                  tick=R.choice([1e-6, 1., 3600.]),
                                  stalls={})
            j['jumps'] = {R.randrange(60): R.choice([-1e6, -5., 3., 1e7])
                          for _ in range(R.choice([0, 1, 3]))}
            j['offset'] = R.choice([0., -3e8, 12345.6, 4e8])
            jobs.append(j)
        if R.random() < .5:
            # a problem twice, or one that differs in little
            j = json.loads(json.dumps(R.choice(jobs)))
            if R.random() < .6:
                t = R.choice(j['problem']['targets'])
                t[0] = round(t[0]*.5 + .1, 6)
            jobs.append(j)
        order = list(range(len(jobs)))
        R.shuffle(order)
        return dict(jobs=jobs, order=order, hashseed=R.randrange(1, 1 << 31),
                    cwd=R.random() < .6, seed=R.randrange(1 << 30))

    def shrink(self, case):
        n = len(case['jobs'])
        for i in range(n):
            if n > 1:
                jobs = case['jobs'][:i] + case['jobs'][i + 1:]
                order = [j - (j > i) for j in case['order'] if j != i]
                yield dict(case, jobs=jobs, order=order)
        if case['order'] != sorted(case['order']):
            yield dict(case, order=sorted(case['order']))
        if case['cwd']:
            yield dict(case, cwd=False)
        for i, j in enumerate(case['jobs']):
            for k, v in (('jumps', {}), ('offset', 0.0), ('save', False),
                         ('other', None)):
                if j[k] != v:
                    yield dict(case, jobs=case['jobs'][:i] + [dict(j, **{
                        k: v})] + case['jobs'][i + 1:])
            if n == 1:
                for c in world.shrink_world(j):
                    if c['layouts'] == j['layouts'] or True:
                        yield dict(case, jobs=[c])

    def run(self, case, out, scratch):
        first = []
        for k, j in enumerate(case['jobs']):
            d = os.path.join(scratch, 'f%d' % k)
            os.mkdir(d)
            clk = world.KillClock(j['tick'], j['stalls'])

            def f():
                w = simulate(j, d, save=j['save'], clk=clk)
                return report(w, j['save']), w.time
            x, t = in_fork(f)
            out.sim_time += 2*t
            first.append(x)
        jobs = []
        for j in case['jobs']:
            j = dict(j)
            if j['other']:
                j.update(j['other'])
            jobs.append(j)
            out.count('fault:wall clock jump', len(j['jumps']))
            out.count('fault:other time of day', bool(j['offset']))
            out.count('fault:other random stream', bool(j['other']))
        env = dict(os.environ, PYTHONHASHSEED=str(case['hashseed']))
        env.pop('VERIF_SHIM', None)
        data = json.dumps(dict(jobs=jobs, order=case['order'],
                               seed=case['seed'], cwd=case['cwd'],
                               dir=scratch))
        p = subprocess.run(
            [sys.executable, '-m', 'sim.worker'], input=data.encode(),
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=core.VERIF,
            env=env, preexec_fn=lambda: resource.setrlimit(
                resource.RLIMIT_CPU, (self.cpu, self.cpu)))
        if p.returncode == -24:
            out.violate('hang', 'no end of the second interpreter after %d s '
                        'of CPU time' % self.cpu)
            return
        if p.returncode:
            raise RuntimeError('second interpreter: status %d: %s' % (
                p.returncode, p.stderr.decode()[-400:]))
        out.count('fault:other hash seed')
        second = json.loads(p.stdout)
        n = 0
        for k, (a, b) in enumerate(zip(first, second)):
            if case['jobs'][k]['other']:
                a, b = world.untimed_report(a), world.untimed_report(b)
            out.event(k, a.get('error') or (a['best'], a['obj']))
            out.count('runs compared')
            if 'error' in a and not a['stated']:
                out.count('runs with an internal error')
            n += 'error' not in a
            a, b = dict(a), dict(b)
            if 'error' in a and 'error' in b:
                a.pop('at'), b.pop('at')
            if set(a) != set(b):
                out.violate('differs', 'problem %d: %s; in the other process: '
                            '%s' % (k, a.get('error') or 'a design',
                                    b.get('error') or 'a design'))
                return
            x = first_difference(b, a)
            if x:
                out.violate('differs', 'problem %d in the other process: %s'
                            % (k, x))
                return
        out.nontrivial = n > 1


class P10(Check):
    id = 'P10'
    technique = ('deterministic simulation of runs with interruptions at any '
                 'executed line, repeated on the same objects')
    note_text = ('Interruptions strike before any executed line of the code '
                 'under test; the repeated run is compared value by value.')
    rule = ('random problems; 1-3 runs on the same objects interrupted at a '
            'random line or in a random function by KeyboardInterrupt or '
            'MemoryError, or none; then a complete run on the same objects, '
            'compared with one on new objects; non-trivial: an interruption '
            'struck and the run gave a design')
    n_quick = 360
    n_thorough = 3600
    cpu = 90
    budget = {'quick': 150, 'thorough': 840}
    real = REAL + ['src/divers/excel.py (in the runs that save)']
    stub = STUB
    assumptions = ['symmetric laminates of even ply counts',
                   'interruptions strike between executed lines of the code '
                   'under test, not inside libraries']

    def gen(self, R, tier):
        c = gen_world(R, tier, small=R.random() < .6)
        c['save'] = R.random() < .15
        c['hits'] = [dict(
            exc=R.choice(list(EXC) + ['OSError']), at=round(R.random(), 5),
            function=R.choice([None, None, round(R.random(), 5)]),
            save=R.random() < .2) for _ in range(R.choice([0, 1, 1, 1, 2, 3]))]
        c['new'] = R.random() < .2     # new objects after the interruption
        # layouts given first, then generated ones, or the other way round
        c['swap'] = R.random() < .25
        # the earlier runs use other parameters
        c['other'] = None
        if R.random() < .4:
            c['other'] = W.gen_params(R, c['problem'])
            for k in c['problem']['params']:
                if k.startswith('time_limit') or k == 'n_ini_ply_drops':
                    c['other'][k] = c['problem']['params'][k]
            if not c['hits'] or R.random() < .5:
                # one of them is not interrupted
                c['hits'].append(dict(exc='KeyboardInterrupt', at=1000.,
                                      function=None, save=False))
        return c

    def shrink(self, case):
        n = len(case['hits'])
        for i in range(n):
            yield dict(case, hits=case['hits'][:i] + case['hits'][i + 1:])
        for k in ('save', 'new', 'swap'):
            if case[k]:
                yield dict(case, **{k: False})
        if case['other']:
            yield dict(case, other=None)
        for i, h in enumerate(case['hits']):
            if h['save']:
                yield dict(case, hits=case['hits'][:i] + [dict(
                    h, save=False)] + case['hits'][i + 1:])
        yield from world.shrink_world(case)

    def run(self, case, out, scratch):
        dirs = [os.path.join(scratch, x) for x in 'abc']
        for d in dirs:
            os.mkdir(d)

        def fresh():
            n = Counter()
            w = simulate(case, dirs[0], save=case['save'], around=Lines(n))
            return report(w, case['save']), n.n, n.first, w.time
        want, total, functions, t = in_fork(fresh)
        out.sim_time += t
        if 'error' in want and not want['stated']:
            out.count('runs with an internal error')
        setup = None
        before = None
        names = sorted(functions)
        for h in case['hits']:
            exc = dict(EXC, OSError=OSError)[h['exc']]('simulated')
            if h['function'] is None:
                hit = Interrupt(exc, 1 + int(h['at']*total))
            else:
                f = names[int(h['function']*len(names))]
                hit = Interrupt(exc, 1 + int(h['at']*functions[f][0]), f)
            if setup is None:
                setup = W.build(case['problem'])
                before = given(setup)
            mine = setup.parameters
            if case['other']:
                setup.parameters = W.build(dict(
                    case['problem'], params=case['other'])).parameters
            other = 0
            if case['swap']:
                R = random.Random(case['problem']['random_seed'])
                other = None if case['layouts'] is not None else \
                    world.gen_layouts(R, case['problem'], 2)
            w = simulate(case, dirs[1], setup=setup, save=h['save'],
                         around=Lines(hit), layouts=other)
            setup.parameters = mine
            world.note(w, out)
            if hit.fired:
                out.count('fault:' + h['exc'])
                out.event('hit in', hit.fired, '->', W.describe(
                    w.error) if w.error else 'completed')
                out.nontrivial = 'error' not in want
            if case['other']:
                out.count('earlier runs with other parameters')
                out.nontrivial = 'error' not in want
            d = changed(before, given(setup))
            if d:
                out.violate('changed', 'after a run that was interrupted in '
                            '%s, %s' % (hit.fired, d))
                return
        if setup is None or case['new']:
            setup = W.build(case['problem'])
            before = given(setup)
        w = simulate(case, dirs[1], setup=setup, save=case['save'])
        world.note(w, out)
        got = report(w, case['save'])
        d = changed(before, given(setup))
        if d:
            out.violate('changed', 'after a complete run, %s' % d)
            return
        out.event(got.get('error') or (got['best'], got['obj'], got['sst']))
        a, b = dict(want), dict(got)
        if 'error' in a and 'error' in b:
            a.pop('at'), b.pop('at')
        if set(a) != set(b):
            out.violate('differs', 'the repeated run: %s; on new objects: %s'
                        % (b.get('error') or 'a design',
                           a.get('error') or 'a design'))
            return
        x = first_difference(b, a)
        if x:
            out.violate('differs', 'the repeated run: %s' % x)
            return
        if case['hits'] and not case['save']:
            # and once more
            w = simulate(case, dirs[1], setup=setup, save=False)
            x = first_difference(b, strip_at(report(w), 'error' in b)) \
                if w.error is None or 'error' in b else W.describe(w.error)
            if x:
                out.violate('differs', 'the third run: %s' % x)


def strip_at(d, error):
    if error:
        d = dict(d)
        d.pop('at', None)
    return d


def given(s):
    "what the user gave, apart from the structure"
    return [(n, vars_of(getattr(s, n))) for n in (
        'parameters', 'constraints', 'objf', 'mat')]


def changed(a, b):
    for (n, x), (_, y) in zip(a, b):
        if x != y:
            x, y = dict(x[1]), dict(y[1])
            for k in sorted(set(x) | set(y)):
                if x.get(k) != y.get(k):
                    return '%s.%s is %s instead of %s' % (
                        n, k, str(y.get(k))[:80], str(x.get(k))[:80])
    return None


class P11(Check):
    id = 'P11'
    technique = ('deterministic simulation of threads: seeded scheduling at '
                 'every executed line')
    note_text = ('Threads are interleaved by a seeded scheduler at line '
                 'granularity; each is compared with a run alone.')
    rule = ('2-3 optimisations with given layouts in threads of one process, '
            'switched at seeded lines; own structures, own or shared '
            'guidelines, objective parameters and material; non-trivial: at '
            'least 20 switches and two designs')
    n_quick = 140
    n_thorough = 1500
    cpu = 120
    budget = {'quick': 150, 'thorough': 840}
    real = REAL + ['src/divers/excel.py', 'CPython threads']
    stub = ['clock', 'the scheduling of the threads', 'user at the prompt',
            'src.CLA (absent from the repository; stub from laminate theory)']
    assumptions = ['symmetric laminates of even ply counts',
                   'switches happen between executed lines of the code under '
                   'test, not inside libraries']

    def gen(self, R, tier):
        n = R.choice([2, 2, 3])
        share = R.random() < .5
        jobs = []
        for i in range(n):
            while True:
                j = gen_world(R, tier, source='file', small=True)
                if share and i:
                    j['problem'] = self.sharing(R, jobs[0]['problem'],
                                                j['problem'])
                    j['layouts'] = world.gen_layouts(R, j['problem'], 2)
                if world.feasible(j['problem']):
                    break
            j['stalls'] = {}
            jobs.append(j)
        if R.random() < .3:
            # the same problem twice, on objects of its own
            jobs[1] = json.loads(json.dumps(jobs[0]))
        return dict(jobs=jobs, share=share, save=R.random() < .5,
                    quanta=R.choice([[1, 2, 3], [50], [1, 30, 3000],
                                     [400, 4000], [20000]]),
                    seed=R.randrange(1 << 30))

    @staticmethod
    def sharing(R, a, b):
        b = json.loads(json.dumps(b))
        b['constraints'] = a['constraints']
        b['objf'] = a['objf']
        b['targets'] = W.gen_targets(R, b)
        w = a['lampam_weights'][0]
        b['lampam_weights'] = [w]*len(b['n_plies'])
        return b

    def shrink(self, case):
        n = len(case['jobs'])
        if n > 2:
            for i in range(n):
                if i or not case['share']:
                    yield dict(case, jobs=case['jobs'][:i]
                               + case['jobs'][i + 1:])
        if case['save']:
            yield dict(case, save=False)
        if case['quanta'] != [20000]:
            yield dict(case, quanta=[20000])
        if case['share']:
            yield dict(case, share=False)
        for i, j in enumerate(case['jobs']):
            if len(j['layouts']) > 1:
                yield dict(case, jobs=case['jobs'][:i] + [dict(
                    j, layouts=j['layouts'][:1])] + case['jobs'][i + 1:])

    def run(self, case, out, scratch):
        alone = []
        for k, j in enumerate(case['jobs']):
            d = os.path.join(scratch, 'a%d' % k)
            os.mkdir(d)

            def f():
                w = simulate(j, d, save=case['save'])
                return report(w, case['save'])
            alone.append(in_fork(f))
        d = os.path.join(scratch, 't')
        os.mkdir(d)
        jobs, setups = case['jobs'], []
        for k, j in enumerate(jobs):
            with open(os.path.join(d, 'l%d.xlsx' % k), 'wb') as f:
                f.write(write_layouts(j['layouts']))
            setups.append(W.build(j['problem'], setups[0] if case['share']
                                  and k else None))
        before = [given(s) for s in setups]
        ends = [world.World() for _ in jobs]

        def body(k):
            def f():
                w = ends[k]
                w.path = os.path.join(d, 'r%d.xlsx' % k)
                try:
                    w.raw = W.optimise(setups[k], w.path, os.path.join(
                        d, 'l%d.xlsx' % k))
                    w.result = W.result_dict(w.raw)
                except BaseException as e:
                    w.error = e
            return f
        s = Scheduler(random.Random(case['seed']), case['quanta'])
        clk = clock.SimClock(.001)
        clock.use(clk)
        try:
            with W.quiet(), (world.Nothing() if case['save']
                             else world.NoSaving()):
                s.run([body(k) for k in range(len(jobs))])
        finally:
            clock.use(None)
        out.sim_time += clk.now - 1000
        out.count('thread switches', s.switches)
        out.count('fault:thread switch', s.switches)
        out.count('lines executed in threads', s.lines)
        out.event(s.switches, s.lines, s.trace[:20])
        n = 0
        for k in range(len(jobs)):
            if isinstance(ends[k].error, core.Hang):
                raise ends[k].error
            a, b = alone[k], report(ends[k], case['save'])
            a, b = world.untimed_report(a), world.untimed_report(b)
            out.event(k, a.get('error') or (a['best'], a['obj'], a['sst']))
            n += 'error' not in a
            if 'error' in a and 'error' in b:
                a, b = dict(a), dict(b)
                a.pop('at'), b.pop('at')
            if set(a) != set(b):
                out.violate('differs', 'thread %d: %s; alone: %s' % (
                    k, b.get('at') or 'a design', a.get('at') or 'a design'))
                return
            x = first_difference(b, a)
            if x:
                out.violate('differs', 'thread %d: %s' % (k, x))
                return
            x = changed(before[k], given(setups[k]))
            if x:
                out.violate('changed', 'thread %d: %s' % (k, x))
                return
        out.nontrivial = s.switches >= 20 and n > 1
