"""P17: what the ply-angle search finds, against exhaustive references on small
structures"""
import itertools

from .. import oracle, workload as W, world
from ..world import gen_world, outcome, simulate
from .runs import RunCheck, gen_earlier, interrupted

MAIN = ('global_node_limit', 'global_node_limit_final', 'local_node_limit',
        'local_node_limit_final')
LIMITS = MAIN + ('global_node_limit2', 'local_node_limit2',
                 'global_node_limit3', 'local_node_limit3')
FREE = 10**6


def feasible_designs(p, layout):
    """all the designs of a layout that satisfy every guideline in every panel,
    as stacking sequences per strip panel"""
    c = p['constraints']
    for s in itertools.product(c['set_of_angles'],
                               repeat=max(p['n_plies'])//2):
        full = list(s) + list(s)[::-1]
        ss = [[a for a, x in zip(full, row) if x != -1] for row in layout]
        if not any(oracle.guidelines(x, c) for x in ss):
            yield ss


def tree(p):
    "bound on the designs reached by a search without limits"
    c = p['constraints']
    half = max(p['n_plies'])//2
    k = len(c['set_of_angles'])
    n = k**half
    if c['diso'] and c['delta_angle'] <= 45:
        n = min(n, k*max(2, (3*k)//4)**(half - 1))
    return n


class P17(RunCheck):
    id = 'P17'
    technique = ('deterministic simulation of whole runs, refinement against '
                 'exhaustive enumeration and against runs with wider limits')
    note_text = ('Exhaustive references exist for small structures only (up '
                 'to 10 plies); the comparison with all feasible designs '
                 'leaves out the 10% rule of Abdalla and the two repairs that '
                 'deliberately change a feasible reference panel.')
    rule = ('small structures; either a search without limits compared with '
            'the best of all feasible designs of the layout, or the same '
            'world with and without limits; non-trivial: a feasible design '
            'exists, or the limits changed the result')
    n_quick = 800
    n_thorough = 4500
    cpu = 120
    earlier = .1

    def gen(self, R, tier):
        mode = R.choice(['best', 'best', 'wider'])
        while True:
            c = gen_world(
                R, tier, 'none' if R.random() < .15 else None,
                source='file' if mode == 'best' else None,
                base=R.choice([6, 8, 8]), n_panels=R.choice([2, 2, 3]),
                steps=(0, 2, 2))
            p = c['problem']
            g, q = p['constraints'], p['params']
            if max(p['n_plies']) > 10 or \
                    tree(p) > (330 if mode == 'best' else 110):
                continue
            if mode == 'best' and g['rule_10_Abdalla']:
                continue
            break
        c['mode'] = mode
        q['group_size_max'] = 1000
        q['group_size_min'] = 2
        if mode == 'best':
            for k in LIMITS:
                q[k] = FREE
            q['repair_membrane_switch'] = q['repair_flexural_switch'] = False
            c['layouts'] = c['layouts'][:2]
        else:
            q['n_ini_ply_drops'] = 1
            if c['layouts'] is not None:
                c['layouts'] = c['layouts'][:1]
            c['wide'] = list(MAIN) if R.random() < .6 \
                else ['global_node_limit_final']
        c['earlier'] = gen_earlier(R) if R.random() < self.earlier else None
        return c

    def shrink(self, case):
        for x in super().shrink(case):
            p = x['problem']
            if case['mode'] == 'best':
                p = dict(p, params=dict(p['params'], **{
                    k: FREE for k in LIMITS}))
            yield dict(x, problem=p)

    def run(self, case, out, scratch):
        setup = interrupted(case, scratch, out) if case['earlier'] else None
        w = simulate(case, scratch, setup=setup, save=False)
        world.note(w, out)
        how = outcome(w, out)
        if how == 'internal' or 'Partitioning' in type(w.error).__name__:
            return
        out.count('mode ' + case['mode'])
        if case['mode'] == 'best':
            self.best(case, w, how, out)
        else:
            self.wider(case, scratch, w, how, out)

    def best(self, case, w, how, out):
        p = case['problem']
        st = oracle.Strip(p)
        for k, layout in enumerate(case['layouts']):
            ref = None
            n = 0
            for ss in feasible_designs(p, layout):
                o = oracle.total_objective(p, st, ss)
                n += 1
                if ref is None or o < ref[0]:
                    ref = o, ss
            out.count('feasible designs enumerated', n)
            out.event('layout', k, 'feasible', n, 'best', ref)
            if ref is None:
                continue
            out.nontrivial = True
            got = None
            if how == 'ok':
                got = w.result['obj_constraints_tab'][k]
                got = None if got != got else got
            out.event('run', got)
            if got is None and how == 'ok' and any(
                    x < 1e-10 for x in w.result['obj_constraints_tab'][:k]):
                continue          # practically perfect already
            if got is None:
                out.violate('missed', 'layout %d: no design, although %s '
                            'satisfies all guidelines' % (k, ref[1]))
                return
            if got > ref[0] + 1e-9*max(1, ref[0]):
                out.violate('missed', 'layout %d: objective %.12g, although '
                            '%s has %.12g and satisfies all guidelines' % (
                                k, got, ref[1], ref[0]))
                return

    def wider(self, case, scratch, w, how, out):
        p = case['problem']
        q = dict(p['params'], **{k: FREE for k in case['wide']})
        wide = dict(case, problem=dict(p, params=q))
        x = simulate(wide, scratch, name='wide.xlsx', save=False)
        if x.error is not None and not W.stated_infeasible(x.error):
            out.violate('internal error', 'wider: ' + W.describe(x.error))
            return
        a = w.result['obj'] if how == 'ok' else None
        b = x.result['obj'] if x.error is None else None
        out.event('narrow', a, 'wide', b, case['wide'])
        out.nontrivial = a != b
        if a is not None and (b is None or b > a + 1e-9*max(1, a)):
            out.violate('wider', 'objective %s without limits, %s with them'
                        % (b, a))
