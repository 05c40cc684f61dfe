"""P06, P07, P08: the time-limited random search for ply-drop layouts"""
import random

import numpy as np

from .. import clock, oracle, workload as W
from ..core import Check
from ..randoms import Stream, gen_stream


class TooLong(BaseException):
    "simulated time far beyond every bound"


class BoundedClock(clock.SimClock):
    limit = None

    def read(self):
        t = super().read()
        if self.limit is not None and t > self.limit:
            raise TooLong()
        return t


def gen_search(R, tier, asym=True):
    "a structure, guidelines and limits for the layout search alone"
    rules = W.gen_constraints(R)
    p = W.gen_structure(R, base=R.choice([6, 8, 10, 14, 18, 24, 30, 40]),
                        steps=R.choice([(0, 2, 2, 4), (2, 2, 4, 6),
                                        (2, 8, 10, 16)]),
                        n_panels=R.choice([2, 2, 3, 3, 4, 5, 7, 7, 12]))
    p['constraints'] = rules
    if asym and R.random() < .2:
        rules['sym'] = False
    p['lampam_weights'] = [[1.]*12]*len(p['n_plies'])
    p['targets'] = [[0.]*12]*len(p['n_plies'])
    p['params'] = W.gen_params(R, p)
    if R.random() < .12:
        p['params']['group_size_min'] = n = R.choice([1, 1, 2, 5])
        p['params']['group_size_max'] = n + R.choice([0, 1, 5, 15])
    p['objf'] = W.gen_objf(R)
    p['random_seed'] = R.randrange(1 << 30)
    tick = R.choice([.001, .003, .01, .05])
    p['params'].update(
        n_ini_ply_drops=R.choice([1, 1, 2, 3, 5, 8]),
        time_limit_group_pdl=round(tick*R.choice([1.5, 4.5, 10.5, 20.5]), 6),
        time_limit_all_pdls=round(tick*R.choice([5.5, 30.5, 80.5, 200.5]), 6))
    stalls = {}
    for _ in range(R.choice([0, 0, 1, 2, 4])):
        stalls[R.randrange(1, 200)] = round(tick*R.choice(
            [2, 7, 30, 120, 1000]), 6)
    return dict(problem=p, tick=tick, stalls=stalls, stream=gen_stream(R))


class Run:
    "one simulated search"


def search(case, **change):
    """Runs the search of a case in the simulated environment, with changed
    parameters.  Keeps what it returned, how long it took in simulated time
    and, when the real code still has the function for one layout, all the
    layouts tried."""
    from src.BELLA import pdl_ini
    from src.BELLA.divide_panels import divide_panels
    p = dict(case['problem'])
    p['params'] = dict(p['params'])
    jumps, offset = change.pop('jumps', None), change.pop('offset', 0.)
    speed = change.pop('speed', 1)
    p['params'].update(change)
    r = Run()
    r.error = r.layouts = None
    r.tried = []
    with W.quiet():
        s = W.build(p)
        s.multipanel.from_mp_to_blending_strip(
            s.constraints, s.parameters.n_plies_ref_panel)
        try:
            divide_panels(s.multipanel, s.parameters, s.constraints)
        except Exception as e:
            if W.stated_infeasible(e):
                r.error = e
                r.kind = 'no partition'
                return r
            raise
        r.n_groups = len(s.multipanel.reduced.n_plies_per_group)
        inner = getattr(pdl_ini, 'create_initial_pdl', None)

        def recorded(*a, **k):
            x = inner(*a, **k)
            r.tried.append(np.array(x).tolist())
            return x
        groups = Groups(r)
        clk = BoundedClock(case['tick']*speed, case['stalls'], jumps, offset)
        pr = p['params']
        r.bound = pr['time_limit_all_pdls'] + r.n_groups*(
            pr['time_limit_group_pdl'] + 3*clk.tick) + 6*clk.tick \
            + 2*sum(case['stalls'].values())
        clk.limit = clk.now + 3*r.bound + 50*clk.tick
        clock.use(clk)
        if inner is not None:
            pdl_ini.create_initial_pdl = recorded
        t0 = clk.now
        try:
            with groups, Stream(p['random_seed'], case['stream']):
                out = pdl_ini.create_initial_pdls(
                    s.multipanel, s.constraints, s.parameters, s.objf)
            r.layouts = np.array(out).tolist()
        except TooLong:
            r.kind = 'too long'
        except Exception as e:
            r.error, r.kind = e, 'error'
        finally:
            clock.use(None)
            if inner is not None:
                pdl_ini.create_initial_pdl = inner
        r.time, r.clk = clk.now - t0, clk
        r.recorded = bool(r.tried)
    return r


class Groups:
    """observes the search within each group of plies: the arrangements scored
    and the one returned first; nothing when the code has other names"""

    def __init__(self, r):
        self.r = r
        r.groups = []
        r.scores = []

    def __enter__(self):
        from src.BELLA import pdl_group, pdl_ini
        self.mods = pdl_group, pdl_ini
        self.score = score = getattr(pdl_group, 'calc_penalty_spacing', None)
        self.inner = inner = getattr(pdl_ini, 'randomly_pdl_guide', None)
        if score is None or inner is None:
            return self
        now = []

        def scored(*a, **k):
            x = score(*a, **k)
            pdl = k.get('pdl', a[0] if a else None)
            if pdl is not None:
                now.append((pattern(np.array(pdl).tolist()), float(x)))
                if pdl is k.get('pdl'):
                    self.r.scores.append((
                        float(x), [np.array(pdl).tolist()] + [
                            np.array(k[y]).tolist()
                            if k.get(y) is not None else None
                            for y in ('pdl_before', 'pdl_after')]))
            return x

        def group(*a, **k):
            del now[:]
            x = inner(*a, **k)
            if len(x):
                self.r.groups.append((list(now), pattern(np.array(
                    x[0]).tolist())))
            return x
        pdl_group.calc_penalty_spacing = scored
        pdl_ini.randomly_pdl_guide = group
        return self

    def __exit__(self, *a):
        if self.score is not None and self.inner is not None:
            self.mods[0].calc_penalty_spacing = self.score
            self.mods[1].randomly_pdl_guide = self.inner


def judge_scores(r, out, st, c):
    "the score of an arrangement counts the plies around the group"
    for x, (pdl, before, after) in r.scores[:60]:
        k = len(pdl)
        if len(pdl[0]) < 2:
            continue        # not scored by design
        parts = [z for z in (before, pdl, after) if z is not None]
        if any(len(z) != k for z in parts) or k != len(st.counts):
            continue
        want = oracle.spacing_penalty(
            [[v for z in parts for v in z[i]] for i in range(k)], st, c)
        out.count('scores of arrangements judged')
        if abs(want - x) > 1e-9:
            out.violate('score', 'an arrangement of a group of plies is '
                        'scored %.6g instead of %.6g' % (x, want))
            return


def judge_groups(r, out):
    "the arrangement used for a group is the best of those scored for it"
    for scored, used in r.groups:
        value = {}
        for x, v in scored:
            value.setdefault(x, v)
        if used not in value or any(value[x] != v for x, v in scored):
            continue
        out.count('groups judged')
        best = min(v for _, v in scored)
        but_last = min([v for _, v in scored[:-1]] or [value[used]])
        if value[used] > max(best, but_last) + 1e-9:
            out.violate('not the best of its group', 'a group of plies gets '
                        'an arrangement of penalty %.6g, the best of the %d '
                        'tried for it has %.6g' % (value[used], len(scored),
                                                   best))
            return


class SearchCheck(Check):
    cpu = 20
    real = ['src/BELLA/pdl_ini.py', 'src/BELLA/pdl_group.py',
            'src/BELLA/pdl_tools.py', 'src/BELLA/divide_panels.py',
            'src/BELLA/multipanels.py', 'src/guidelines/ply_drop_spacing.py']
    stub = ['clock (simulated; speed, stalls, jumps)',
            'random stream (seeded, plain or adversarial)',
            'src.CLA (absent from the repository)']
    assumptions = ['work takes simulated time only between readings of the '
                   'clock: a fixed tick per reading plus injected stalls',
                   'numbers of plies are even where symmetry is required']

    def shrink(self, case):
        p = case['problem']
        if case['stalls']:
            yield dict(case, stalls={})
            for k in case['stalls']:
                yield dict(case, stalls={a: b for a, b in
                                         case['stalls'].items() if a != k})
        if case['stream'] != 'plain':
            yield dict(case, stream='plain')
        if case.get('jumps'):
            yield dict(case, jumps={})
        yield from shrink_structure(case)
        for k, v in (('covering', False), ('dam_tol', False),
                     ('pdl_spacing', False)):
            c = p['constraints']
            if c[k] != v:
                c = dict(c, **{k: v})
                if k == 'covering':
                    c['n_covering'] = 0
                if k == 'dam_tol':
                    c['dam_tol_rule'] = 0
                yield dict(case, problem=dict(p, constraints=c))
        for n in (1, 2):
            if p['params']['n_ini_ply_drops'] > n:
                yield dict(case, problem=dict(p, params=dict(
                    p['params'], n_ini_ply_drops=n)))

    def note(self, r, out):
        for k, v in r.clk.fired.items():
            if v:
                out.count('fault:clock ' + k, v)
        out.sim_time += r.time
        out.count('layouts tried', len(r.tried))
        out.count('clock readings', r.clk.reads)

    def gate(self, case, out, r):
        "common outcome handling; True when there are layouts to judge"
        if r.error is not None or r.layouts is None:
            if r.kind == 'too long':
                out.violate('time', 'the search goes on %.4g s (simulated) '
                            'after its start; limit %.4g s, bound %.4g s' % (
                                r.time, case['problem']['params'][
                                    'time_limit_all_pdls'], r.bound))
            elif r.kind == 'no partition':
                out.event('no partition of the plies')
                out.count('no partition')
            else:
                out.violate('error', W.describe(r.error))
            return False
        return True


def shrink_structure(case):
    "smaller structures"
    p = case['problem']
    k = len(p['n_plies'])
    for i in range(k):
        if k <= 2:
            break
        q = drop_panel(p, i)
        if q:
            yield dict(case, problem=q)
    for i in range(k):
        for d in (8, 4, 2):
            n = list(p['n_plies'])
            n[i] -= d
            if n[i] >= 6 and len(set(n)) > 1:
                yield dict(case, problem=dict(p, n_plies=n))
    if p['boundary_weights']:
        yield dict(case, problem=dict(p, boundary_weights=None))
    if any(w != 1 for w in p['weightings']):
        yield dict(case, problem=dict(p, weightings=[1]*k))
    if p['constraints']['set_of_angles'] != W.ANG4:
        q = dict(p, constraints=dict(p['constraints'], set_of_angles=W.ANG4))
        if not any(a not in W.ANG4 for t in [q.get('sequence', [])] for a in t):
            yield dict(case, problem=q)


def drop_panel(p, i):
    b = oracle.boundaries(p)
    k = len(p['n_plies'])
    keep = [j for j in range(k) if j != i]
    n = [p['n_plies'][j] for j in keep]
    if len(set(n)) < 2:
        return None
    rest = [(a, c) for a, c in b if i not in (a, c)]
    # still connected?
    seen, todo = {keep[0]}, [keep[0]]
    while todo:
        x = todo.pop()
        for a, c in rest:
            for u, v in ((a, c), (c, a)):
                if u == x and v not in seen:
                    seen.add(v)
                    todo.append(v)
    if len(seen) < len(keep):
        return None
    q = dict(p)
    for key in ('n_plies', 'ids', 'weightings', 'lengths', 'areas', 'loads',
                'lampam_weights', 'targets'):
        q[key] = [p[key][j] for j in keep]
    gone = p['ids'][i]
    q['neighbours'] = [[x for x in p['neighbours'][j] if x != gone]
                       for j in keep]
    if p['boundary_weights']:
        q['boundary_weights'] = [w for w in p['boundary_weights']
                                 if gone not in w[:2]]
    return q


class P06(SearchCheck):
    id = 'P06'
    technique = ('deterministic simulation of clock and random stream, '
                 'seeded search, layout invariants')
    rule = ('random structures of 2-12 panels; random, cyclic, extreme and '
            'sticky random streams; clock speeds and stalls; non-trivial: at '
            'least two layouts or a layout with at least two distinct rows '
            'of ply drops was returned')
    n_quick = 8000
    n_thorough = 40000

    def gen(self, R, tier):
        return gen_search(R, tier)

    def run(self, case, out, scratch):
        p = case['problem']
        r = search(case)
        if r.kind == 'too long' if r.layouts is None and r.error is None \
                else False:
            self.note(r, out)
            out.event('too long')
            return               # P08 judges this
        if not self.gate(case, out, r):
            return
        self.note(r, out)
        st = oracle.Strip(p)
        out.nontrivial = len(r.layouts) > 1 or len(set(
            map(tuple, r.layouts[0]))) > 2
        out.event(len(r.layouts), 'layouts', r.layouts)
        out.count('layouts returned', len(r.layouts))
        judge_layouts(r.layouts, p, st, out)


def pattern(layout):
    return tuple(tuple(int(x != -1) for x in row) for row in layout)


def judge_layouts(layouts, p, st, out):
    n = p['params']['n_ini_ply_drops']
    if not 1 <= len(layouts) <= n:
        out.violate('number', '%d layouts returned, %d asked for' % (
            len(layouts), n))
    for i, lay in enumerate(layouts):
        for bad in oracle.check_layout(lay, st, p['constraints']):
            out.violate('invalid', 'layout %d: %s' % (i, bad))
            return
    if len(set(map(pattern, layouts))) < len(layouts):
        out.violate('twice', 'a layout is returned twice')


class P07(SearchCheck):
    id = 'P07'
    technique = ('deterministic simulation of clock and random stream, '
                 'refinement against the k best of all layouts tried')
    rule = ('each case searches the same random stream with different '
            'numbers of layouts asked for and different time limits; '
            'non-trivial: the complete search met layouts of at least two '
            'different penalties')
    n_quick = 4500
    n_thorough = 20000

    def gen(self, R, tier):
        c = gen_search(R, tier, asym=False)
        c['problem']['constraints']['pdl_spacing'] = R.random() < .9
        c['problem']['constraints']['min_drop'] = R.choice([1, 2, 3, 4, 5])
        c['shorter'] = R.choice([.1, .3, .5, .8])
        return c

    def run(self, case, out, scratch):
        p = case['problem']
        st = oracle.Strip(p)
        c = p['constraints']
        k = p['params']['n_ini_ply_drops']

        def pens(r):
            return [round(oracle.spacing_penalty(x, st, c), 9)
                    for x in r.layouts]
        r = search(case)
        if r.error is not None or r.layouts is None:
            out.event('not judged here', r.kind)
            return
        self.note(r, out)
        got = pens(r)
        out.event('asked', k, 'penalties', got)
        judge_groups(r, out)
        judge_scores(r, out, st, c)
        if out.violations:
            return
        if any(a > b + 1e-9 for a, b in zip(got, got[1:])):
            out.violate('order', 'penalties of the layouts not in increasing '
                        'order: %s' % got)
            return
        big = search(case, n_ini_ply_drops=600)
        if big.layouts is None:
            out.event('complete search not judged')
            return
        self.note(big, out)
        every = sorted(pens(big))
        out.event('complete search', len(every), every[:12])
        out.nontrivial = len(set(every)) > 1
        if len(every) >= 600:
            return
        want = every[:k]
        if not close(got, want):
            out.violate('not the best', 'asked for %d layouts: penalties %s; '
                        'among the %d layouts of the same search the best '
                        'have %s' % (k, got, len(every), want))
            return
        if r.recorded:
            tried = [x for x in r.tried]
            for how in (tried, tried[:-1]):
                seen = {pattern(x): x for x in how}
                best = sorted(round(oracle.spacing_penalty(x, st, c), 9)
                              for x in seen.values())[:k]
                if close(got, best):
                    break
            else:
                out.violate('not the best', 'asked for %d layouts: penalties '
                            '%s; the best of the %d different layouts tried '
                            'have %s' % (k, got, len(seen), best))
                return
        less = search(case, time_limit_all_pdls=p['params'][
            'time_limit_all_pdls']*case['shorter'])
        if less.layouts is None:
            return
        self.note(less, out)
        few = pens(less)
        out.event('less time', few)
        if len(few) > len(got) or any(a > b + 1e-9
                                      for a, b in zip(got, few)):
            out.violate('more time is worse', 'penalties %s with the time '
                        'limit %g s, %s with %g s' % (
                            got, p['params']['time_limit_all_pdls'], few,
                            p['params']['time_limit_all_pdls']
                            * case['shorter']))


def close(a, b):
    return len(a) == len(b) and all(abs(x - y) < 1e-8 for x, y in zip(a, b))


class P08(SearchCheck):
    id = 'P08'
    technique = ('deterministic simulation of the clock with stalls and wall-'
                 'clock jumps, bounded-liveness check')
    rule = ('every search runs under a simulated clock of a random speed '
            'with stalls; repeated with wall-clock jumps and with a longer '
            'limit; non-trivial: the time limit struck or a stall or jump '
            'happened')
    n_quick = 6000
    n_thorough = 25000

    def gen(self, R, tier):
        c = gen_search(R, tier)
        c['jumps'] = {R.randrange(0, 60): R.choice(
            [-1e9, -3600., -1., 1., 100., 3600., 1e9]) for _ in range(
                R.choice([1, 2, 3]))}
        c['offset'] = R.choice([0., -1e8, 1e8])
        if R.random() < .3:
            c['problem']['params']['n_ini_ply_drops'] = R.choice([30, 100])
        return c

    def run(self, case, out, scratch):
        p = case['problem']
        pr = p['params']
        r = search(case)
        if not self.gate(case, out, r):
            return
        self.note(r, out)
        n, got = pr['n_ini_ply_drops'], len(r.layouts)
        out.event('n', got, 'of', n, 'time', round(r.time, 6), 'limit',
                  pr['time_limit_all_pdls'])
        out.nontrivial = r.time >= pr['time_limit_all_pdls'] or bool(
            sum(r.clk.fired.values()))
        if r.time > r.bound:
            out.violate('time', 'the search took %.4g s (simulated), limit '
                        '%.4g s, bound with the groups and stalls %.4g s' % (
                            r.time, pr['time_limit_all_pdls'], r.bound))
            return
        st = oracle.Strip(p)
        pen = [oracle.spacing_penalty(x, st, p['constraints'])
               for x in r.layouts]
        perfect = got == n and all(x == 0 for x in pen)
        if not perfect and r.time < pr['time_limit_all_pdls'] - 1e-9:
            out.violate('too early', 'stopped after %.4g s of %.4g s with %d '
                        'of %d perfect layouts' % (
                            r.time, pr['time_limit_all_pdls'],
                            sum(x == 0 for x in pen), n))
            return
        j = search(case, jumps=case['jumps'], offset=case['offset'])
        if j.layouts != r.layouts or j.time != r.time:
            out.violate('wall clock', 'with the system clock set (%s) the '
                        'search gives %s layouts after %.6g s instead of %d '
                        'after %.6g s' % (case['jumps'], j.layouts and len(
                            j.layouts), j.time, got, r.time))
            return
        # clock readings of a wall clock are counted by the same clock
        out.count('fault:clock jump', j.clk.fired['jump'])
        if perfect:
            more = search(case, time_limit_all_pdls=4*pr[
                'time_limit_all_pdls'])
            if more.layouts is None or more.time > r.time + 1e-9:
                out.violate('goes on', 'all %d layouts were found after '
                            '%.4g s, but with a longer limit the search goes '
                            'on for %.4g s' % (n, r.time, more.time))
                return
            out.event('perfect', round(more.time, 6))
