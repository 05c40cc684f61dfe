"""P19, P20: relations between pairs of runs"""
import json
import os

import numpy as np

from .. import book, core, oracle, workload as W, world
from ..core import Check
from ..world import gen_world, simulate
from .runs import far
from .saved import blocks


def weighted(p, i, ss, part):
    "distance of a stacking sequence to the target of panel i"
    w, t = oracle.effective_weights(p, i), oracle.effective_target(p, i)
    lp = oracle.lampam(ss)
    return sum(w[k]*(lp[k] - t[k])**2 for k in part)


KINDS = {'membrane': ('repair_membrane_switch', False, True, range(4)),
         'flexural': ('repair_flexural_switch', False, True, range(12)),
         'repeated': ('n_D3', 1, 2, range(12)),
         'thrice': ('n_D3', 2, 4, range(12))}


class P19(Check):
    id = 'P19'
    technique = ('deterministic simulation of pairs of runs that differ in '
                 'one refinement, same clock and random stream')
    note_text = ('Holds for the reference panel, when one design reaches the '
                 'repair in both runs.')
    rule = ('random problems and given layouts, solved with and without one '
            'refinement of the reference panel, or with more repetitions of '
            'it; non-trivial: the refinement changed the reference panel')
    n_quick = 1900
    n_thorough = 18000
    cpu = 90
    budget = {'quick': 150, 'thorough': 840}
    real = ['src/BELLA', 'src/RELAY', 'src/guidelines', 'src/divers']
    stub = ['clock', 'random stream', 'user at the prompt',
            'saving of the results (P05)',
            'src.CLA (absent from the repository)']
    assumptions = ['symmetric laminates of even ply counts',
                   'one design per layout reaches the repair '
                   '(node limits of the last level are 1)']

    def gen(self, R, tier):
        c = gen_world(R, tier, source='file')
        c['kind'] = R.choice(['membrane', 'membrane', 'flexural', 'flexural',
                              'flexural', 'repeated', 'thrice'])
        q = c['problem']['params']
        q.update(global_node_limit_final=1, local_node_limit_final=1,
                 save_buckling=False)
        if c['kind'] not in ('membrane', 'flexural'):
            q['repair_flexural_switch'] = True
        return c

    def shrink(self, case):
        for c in world.shrink_world(case):
            yield c

    def run(self, case, out, scratch):
        p = case['problem']
        key, a, b, part = KINDS[case['kind']]
        res = []
        for k, v in enumerate((a, b)):
            w = simulate(world.with_params(case, **{key: v}), scratch,
                         save=False, name='r%d.xlsx' % k)
            world.note(w, out)
            if w.error is not None:
                # whether runs end well is the matter of P16
                out.event(k, W.describe(w.error))
                return
            res.append(w.result)
        x, y = res
        st = oracle.Strip(p)
        i = st.first[st.ref]
        for k in range(len(case['layouts'])):
            one = [r['n_designs_last_level_tab'][k] for r in res]
            ok = [np.isfinite(z['obj_constraints_tab'][k]) for z in res]
            if one != [1, 1] or not all(ok):
                out.event(k, one, ok)
                continue
            s, t = x['ss_tab'][k][i], y['ss_tab'][k][i]
            f, g = weighted(p, i, s, part), weighted(p, i, t, part)
            out.count('pairs of reference panels compared')
            out.event(case['kind'], k, s, t, f, g)
            if s != t:
                out.nontrivial = True
                out.count('refined: ' + case['kind'])
            if g > f + 1e-9*max(1, f):
                out.violate('worse', '%s refinement, layout %d: distance of '
                            'the reference panel to its target %.9g with, '
                            '%.9g without (%s, %s)' % (
                                case['kind'], k, g, f, t, s))
                return


# ----------------------------------------------------------------------- P20
PER_PANEL = ('ss', 'sst', 'lampam', 'obj_panels')


def renumber(p, R):
    k = len(p['n_plies'])
    new = R.sample(range(1, R.choice([200, 200, 20000])), k)
    m = dict(zip(p['ids'], new))
    p['ids'] = new
    p['neighbours'] = [[m[x] for x in y] for y in p['neighbours']]
    if p['boundary_weights']:
        p['boundary_weights'] = [[m[a], m[b], w]
                                 for a, b, w in p['boundary_weights']]


def relist(p, R):
    "the same boundaries, listed by other panels and in another order"
    k = len(p['n_plies'])
    b = oracle.boundaries(p)
    n = [[] for _ in range(k)]
    R.shuffle(b)
    for x, y in b:
        h = R.randrange(3)
        if h != 1:
            n[x].append(p['ids'][y])
        if h != 0:
            n[y].append(p['ids'][x])
    p['neighbours'] = n
    if p['boundary_weights']:
        w = [[y, x, v] if R.random() < .5 else [x, y, v]
             for x, y, v in p['boundary_weights']]
        R.shuffle(w)
        p['boundary_weights'] = w


LISTS = ('n_plies', 'ids', 'neighbours', 'weightings', 'lengths', 'areas',
         'loads', 'lampam_weights', 'targets')


def reorder(p, R):
    k = len(p['n_plies'])
    o = list(range(k))
    R.shuffle(o)
    for key in LISTS:
        p[key] = [p[key][x] for x in o]
    return [o.index(x) for x in range(k)]


def twin(p, R):
    "a panel replaced by two of half its weighting"
    a = R.randrange(len(p['n_plies']))
    for key in LISTS:
        if key not in ('ids', 'neighbours'):
            p[key] = p[key] + [p[key][a]]
    p['weightings'][a] /= 2
    p['weightings'][-1] /= 2
    p['ids'] = p['ids'] + [999]
    p['neighbours'] = p['neighbours'] + [[p['ids'][a]]]
    if p['boundary_weights']:
        p['boundary_weights'] = p['boundary_weights'] + [[999, p['ids'][a],
                                                          1]]


def unused(p, R, layouts):
    "other values for what a problem does not use"
    c, q, o = p['constraints'], p['params'], p['objf']
    R.shuffle(c['set_of_angles'])
    p['mat'] = dict(E11=R.choice([7e10, 2e11]), ply_t=R.choice([1e-4, 3e-4]),
                    nu12=R.choice([.2, .3]), density_area=R.choice([100, 400]))
    if not c['diso']:
        c['delta_angle'] = R.choice([10, 45, 60, 90])
    if not c['contig']:
        c['n_contig'] = R.choice([2, 3, 5, 9])
    if not c['pdl_spacing']:
        c['min_drop'] = R.choice([1, 2, 5])
    if not c['dam_tol']:
        c['dam_tol_rule'] = R.choice([0, 1, 2, 3])
    if not c['covering'] and not c['dam_tol']:
        c['n_covering'] = R.choice([0, 1, 2])
    if not c['rule_10_percent']:
        c.update(percent_0=R.choice([0, 30]), percent_90=R.choice([0, 25]),
                 percent_45_135=R.choice([0, 20]), percent_Abdalla=20)
    elif c['rule_10_Abdalla']:
        c.update(percent_0=R.choice([0, 30]), percent_90=R.choice([0, 25]))
    else:
        c['percent_Abdalla'] = R.choice([0, 15])
    for k, rule in (('coeff_diso', 'diso'), ('coeff_contig', 'contig'),
                    ('coeff_10', 'rule_10_percent'), ('coeff_oopo', 'oopo'),
                    ('coeff_bal_ipo', 'bal'), ('coeff_spacing',
                                               'pdl_spacing')):
        if not c[rule]:
            o[k] = R.choice([0, 1, 50])
    if not q['repair_membrane_switch']:
        q['p_A'] = R.choice([0, 40, 100])
    if not q['repair_flexural_switch']:
        q.update(n_D2=R.choice([1, 5, 9]), n_D3=R.choice([1, 3]))
    n = sorted(set(p['n_plies']))
    ref = q['n_plies_ref_panel']
    if ref >= n[-1]:
        q['n_plies_ref_panel'] = R.choice([n[-1], n[-2] + 1, n[-1] + 1, 5000])
    elif ref <= n[0]:
        q['n_plies_ref_panel'] = R.choice([1, n[0]])
    q['save_success_rate'] = not q['save_success_rate']
    if layouts:
        q.update(group_size_max=max(np.max(q['group_size_min']).item(),
                                    R.choice([4, 7, 100])),
                 n_ini_ply_drops=R.choice([1, 2, 9]),
                 time_limit_group_pdl=R.choice([.001, 9]),
                 time_limit_all_pdls=R.choice([.001, 9]))
        p['random_seed'] = R.randrange(1 << 30)
    free = [4, 5, 6, 7] + [2, 3]*c['bal'] + [10, 11]*c['oopo']
    if set(c['set_of_angles']) == oracle.SET4:
        free += [3, 11]
    p['targets'] = [[round(R.uniform(-1, 1), 3) if i in free else x
                     for i, x in enumerate(t)] for t in p['targets']]
    p['lampam_weights'] = [[round(R.uniform(.1, 2), 2) if i in free else x
                            for i, x in enumerate(t)]
                           for t in p['lampam_weights']]


def pick(r, panels, k):
    "results for some panels, in their order"
    d = {}
    for key, v in r.items():
        if key in PER_PANEL:
            v = [v[x] for x in panels]
        elif key.endswith('_tab'):
            v = [[y[x] for x in panels] if isinstance(y, list) and len(y) == k
                 else y for y in v]
        d[key] = v
    return d


def close(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(
            close(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(
            map(close, a, b))
    if isinstance(a, float) or isinstance(b, float):
        if a != a or b != b:
            return a != a and b != b
        return not far(float(a), float(b), 1e-9)
    return a == b


def different(a, b):
    for k in sorted(b):
        if not close(a.get(k), b[k]):
            return '%s: %s instead of %s' % (k, str(a.get(k))[:150],
                                             str(b[k])[:150])
    return None


CHANGES = ('ids', 'neighbours', 'weightings', 'lampam weightings', 'sizes',
           'order', 'twin', 'single', 'again', 'boundary weightings', 'unused',
           'unused')


class P20(Check):
    id = 'P20'
    technique = ('deterministic simulation of pairs of runs that differ in '
                 'something irrelevant, same clock and random stream')
    note_text = ('Differences from rounding are excluded by scaling with '
                 'powers of two; a pair whose spacing penalties differ in the '
                 'last digit is not judged.')
    rule = ('random problems solved twice: with other IDs, order, listing, '
            'scale, sizes and loads, a panel split into twins, one layout '
            'alone, or from the layouts saved by the first run; non-trivial: '
            'both runs returned designs')
    n_quick = 650
    n_thorough = 14000
    cpu = 90
    budget = {'quick': 150, 'thorough': 840}
    real = ['src/BELLA', 'src/RELAY', 'src/guidelines', 'src/divers',
            'pandas and openpyxl (layouts saved and read)']
    stub = ['clock', 'random stream', 'user at the prompt',
            'src.CLA (absent from the repository)']
    assumptions = ['symmetric laminates of even ply counts',
                   'panels change places only when their ply counts differ']

    def gen(self, R, tier):
        change = R.choice(CHANGES)
        src = {'order': 'file', 'single': 'file', 'again': 'search'}.get(
            change)
        c = gen_world(R, tier, small=R.random() < .5, source=src)
        p = c['problem']
        p['params']['save_buckling'] = False
        if change == 'single':
            for _ in range(20):
                if len(c['layouts']) > 1:
                    break
                c = gen_world(R, tier, source=src)
        if change == 'order':
            while len(set(c['problem']['n_plies'])) < len(
                    c['problem']['n_plies']):
                c = gen_world(R, tier, small=R.random() < .5, source=src)
        p = c['problem']
        if change in ('ids', 'neighbours') and R.random() < .5:
            # panels of equal thickness and different targets
            p['targets'] = [[round(R.uniform(-.5, .5), 3) for _ in range(12)]
                            for _ in p['n_plies']]
            p['lampam_weights'] = [
                [round(R.uniform(.1, 1), 2) for _ in range(12)]
                for _ in p['n_plies']]
        p['params']['save_buckling'] = False
        c.update(change=change, seed=R.randrange(1 << 30))
        return c

    def shrink(self, case):
        for c in world.shrink_world(case):
            n = c['problem']['n_plies']
            if case['change'] == 'order' and len(set(n)) < len(n):
                continue
            if case['change'] == 'single' and len(c['layouts']) < 2:
                continue
            yield c

    def run(self, case, out, scratch):
        R = core.seed_rng('change', case['seed'])
        change = case['change']
        c = json.loads(json.dumps(case))
        p = c['problem']
        k = len(p['n_plies'])
        a = self.solve(case, out, scratch, 'a.xlsx', change == 'again')
        if a is None:
            return
        scale, bscale, panels, back = 1, 1, None, None
        if change == 'ids':
            renumber(p, R)
        elif change == 'neighbours':
            relist(p, R)
        elif change == 'weightings':
            scale = R.choice([2, 4, .5, 2.**12, 2.**18, 2.**30,
                              2.**-12, 2.**-30])
            p['weightings'] = [x*scale for x in p['weightings']]
        elif change == 'boundary weightings':
            bscale = R.choice([2, .5, 2.**12, 2.**26, 2.**-12])
            if p['boundary_weights'] is None:
                p['boundary_weights'] = [[p['ids'][i], p['ids'][j], 1]
                                         for i, j in oracle.boundaries(p)]
            p['boundary_weights'] = [[i, j, x*bscale] for i, j, x in
                                     p['boundary_weights']]
        elif change == 'lampam weightings':
            p['lampam_weights'] = [[x*g for x in y] for y, g in [
                (y, R.choice([2, 8, .5])) for y in p['lampam_weights']]]
        elif change == 'sizes':
            p['lengths'] = [[x*R.choice([1, 3, .5]), y*R.choice([1, 2])]
                            for x, y in p['lengths']]
            p['loads'] = [[R.choice([1, 9]), R.choice([2, 5])]
                          for _ in range(k)]
        elif change == 'unused':
            unused(p, R, c['layouts'])
        elif change == 'order':
            back = reorder(p, R)
        elif change == 'twin':
            twin(p, R)
            panels = list(range(k))
        elif change == 'single':
            j = case['seed'] % len(case['layouts'])
            c['layouts'] = [case['layouts'][j]]
        elif change == 'again':
            if 'error' in a:
                return
            n = len(a['obj_constraints_tab'])
            st = oracle.Strip(p)
            view = dict(book.read_file(os.path.join(scratch, 'a.xlsx')))
            bl = blocks(view['Results'])
            if len(bl) < n:      # some layout has no design
                out.event('layouts without a design')
                return
            c['layouts'] = [[[int(float(x)) for x in str(
                b[i]['initial ply drop layout']).split()] for i in st.first]
                for b in bl]
        b = self.solve(c, out, scratch, 'b.xlsx', False)
        if b is None:
            return
        out.event(change, a.get('obj_constraints_tab'),
                  b.get('obj_constraints_tab'))
        if change == 'single':
            self.single(a, b, j, out)
            return
        if ('error' in a) != ('error' in b):
            out.violate('other end', '%s: %s, then %s' % (
                change, a.get('error', 'a design'), b.get('error', 'a design'))
            )
            return
        if 'error' in a:
            return
        out.nontrivial = True
        out.count('pairs compared: ' + change)
        if scale != 1:
            b['obj'] /= scale
            b['obj_constraints_tab'] = [x/scale for x in
                                        b['obj_constraints_tab']]
        if bscale != 1:
            b['penalty_spacing_tab'] = [x/bscale for x in
                                        b['penalty_spacing_tab']]
        if panels:
            b = pick(b, panels, k + 1)
        if back:
            b = pick(b, back, k)
        if change == 'unused':           # depends on save_success_rate
            for d in a, b:
                d.pop('n_designs_repaired_unique_tab', None)
        dif = different(b, a)
        if dif is None:
            return
        if a['penalty_spacing_tab'] != b['penalty_spacing_tab'] and close(
                a['penalty_spacing_tab'], b['penalty_spacing_tab']):
            out.count('pairs not judged: spacing penalties rounded')
            return
        out.violate('other design', '%s: %s' % (change, dif))

    @staticmethod
    def single(a, b, j, out):
        "one layout alone and among others"
        if 'error' in a:
            return
        there = a['obj_constraints_tab'][j] == a['obj_constraints_tab'][j]
        if 'error' in b:
            if there:
                out.violate('other end', 'layout %d alone: %s' % (
                    j, b['error']))
            return
        out.nontrivial = True
        out.count('pairs compared: single')
        for key in sorted(a):
            if key.endswith('_tab') and not close(b[key][0], a[key][j]):
                out.violate('other design', 'layout %d alone, %s: %s instead '
                            'of %s' % (j, key, str(b[key][0])[:150],
                                       str(a[key][j])[:150]))
                return

    @staticmethod
    def solve(case, out, scratch, name, save):
        w = simulate(case, scratch, save=save, name=name)
        world.note(w, out)
        if w.error is not None and not W.stated_infeasible(w.error):
            out.event(W.describe(w.error))       # P16
            return None
        r = world.report(w)
        # lamination parameters follow from the stacking sequences (P14)
        r.pop('lampam_tab', None)
        return r
