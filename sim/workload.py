"""Random problems (as JSON dictionaries) and how to run the real code on them."""
import contextlib
import io
import random
import sys

import numpy as np

from . import oracle

ANG4 = [0, 45, -45, 90]
ANG8 = [0, 45, -45, 90, 30, -30, 60, -60]
ANG12 = [0, 45, -45, 90, 15, -15, 30, -30, 60, -60, 75, -75]


def gen_constraints(R, rules=None):
    """rules: None for any combination, 'none' for only symmetry"""
    on = (lambda p: R.random() < p) if rules != 'none' else (lambda p: False)
    dt = on(.5)
    cover = R.random() < .5
    r10 = on(.6)
    abd = r10 and R.random() < .2
    comb = R.random() < .6
    c = dict(
        sym=True, bal=on(.6), oopo=on(.25), dam_tol=dt,
        dam_tol_rule=R.choice([1, 2, 3]) if dt else 0,
        covering=cover,
        n_covering=R.choice([0, 1, 2]) if cover or R.random() < .1 else 0,
        rule_10_percent=r10, rule_10_Abdalla=abd,
        percent_Abdalla=R.choice([5, 10]) if abd else 0,
        percent_0=R.choice([8, 10, 15]), percent_90=R.choice([8, 10]),
        percent_45=0 if comb else 10, percent_135=0 if comb else 10,
        percent_45_135=R.choice([10, 20]) if comb else 0,
        diso=on(.6), contig=on(.6), n_contig=R.choice([2, 3, 4, 5]),
        delta_angle=R.choice([45, 45, 60, 90]),
        set_of_angles=R.choice([ANG4, ANG4, ANG4, ANG8, ANG12]),
        pdl_spacing=R.random() < .6, min_drop=R.choice([1, 2, 3, 4]))
    return c


def gen_structure(R, n_panels=None, base=None, steps=(0, 2, 2, 4, 6),
                  equal_ok=False):
    k = n_panels or R.choice([2, 2, 3, 3, 4, 5])
    n = [base or R.choice([8, 10, 12, 14, 16, 18, 20])]
    for _ in range(k - 1):
        n.append(n[-1] + R.choice(steps))
    if n[0] == n[-1] and not equal_ok:
        n[-1] += 2
    R.shuffle(n)
    # IDs of one to four digits
    ids = R.sample(range(1, R.choice([60, 60, 60, 200, 5000])), k)
    # a random connected adjacency: spanning tree and a few more boundaries
    edges = set()
    for i in range(1, k):
        edges.add((R.randrange(i), i))
    for _ in range(R.choice([0, 0, 1, 2])):
        i, j = R.sample(range(k), 2)
        edges.add((min(i, j), max(i, j)))
    neigh = [[] for _ in range(k)]
    for i, j in sorted(edges):
        how = R.random()
        if how < .6 or how > .8:
            neigh[i].append(ids[j])
        if how < .6 or .6 <= how <= .8:
            neigh[j].append(ids[i])
    bw = None
    if R.random() < .5:
        bw = []
        for i, j in sorted(edges):
            a, b = ids[i], ids[j]
            if R.random() < .5:
                a, b = b, a
            bw.append([a, b, R.choice([1, 1, 0.5, 2, 3, .25])])
    scale = R.choice([1, 1, 1, 1, 1, 1e-4, 1e-3, 100])
    return dict(
        n_plies=n, ids=ids, neighbours=neigh, boundary_weights=bw,
        weightings=[float('%.6g' % (R.choice([1, 1, 1, 2, 0.5, 3])*scale))
                    for _ in range(k)],
        lengths=[[R.choice([1, .5, 2]), R.choice([1, .7, 1.5])]
                 for _ in range(k)],
        areas=[None]*k,
        loads=[[R.choice([1, 3]), R.choice([1, 2])] for _ in range(k)])


def gen_weights(R):
    kind = R.randrange(5)
    if kind == 0:
        return [1.]*12
    if kind == 1:
        return [1., 1, 1, 0] + [0.]*4 + [1., 1, 1, 0]
    if kind == 2:
        return [0.]*8 + [1.]*4
    if kind == 3:
        return [1.]*4 + [0.]*8
    w = [round(R.random(), 2) for _ in range(12)]
    w[0], w[8] = max(w[0], .1), max(w[8], .1)
    return w


def gen_targets(R, p):
    ang = p['constraints']['set_of_angles']
    seq = [R.choice(ang) for _ in range(max(p['n_plies']))]
    kind = R.choice(['seq', 'seq', 'rand', 'quasi'])
    out = []
    for n in p['n_plies']:
        if kind == 'seq':
            half = seq[:n//2]
        elif kind == 'quasi':
            half = [ANG4[i % 4] for i in range(n//2)]
        else:
            half = [R.choice(ang) for _ in range(n//2)]
        out.append([round(x, 6) for x in oracle.lampam(half + half[::-1])])
    return out


def gen_params(R, p):
    n = sorted(set(p['n_plies']))
    return dict(
        group_size_min=R.choice([2, 3, 4]), group_size_max=R.choice([6, 8, 12]),
        n_ini_ply_drops=R.choice([1, 2, 3, 4]),
        global_node_limit=R.choice([1, 3, 5]),
        global_node_limit_final=R.choice([1, 1, 2, 3]),
        local_node_limit=R.choice([1, 3, 100]),
        local_node_limit_final=R.choice([1, 1, 2]),
        global_node_limit2=R.choice([1, 2, 4]),
        local_node_limit2=R.choice([1, 2, 5]),
        global_node_limit3=R.choice([1, 2, 4]),
        local_node_limit3=R.choice([1, 2, 5]),
        save_success_rate=R.random() < .5, save_buckling=R.random() < .15,
        p_A=R.choice([50, 80, 100]), n_D1=R.choice([4, 6]),
        n_D2=R.choice([2, 4, 10]), n_D3=R.choice([1, 2]),
        repair_membrane_switch=R.random() < .5,
        repair_flexural_switch=R.random() < .5,
        n_plies_ref_panel=R.choice([1, 1000, R.choice(n), R.choice(n) + 1]),
        time_limit_group_pdl=R.choice([.02, .1, .5]),
        time_limit_all_pdls=R.choice([.1, .5, 2.]))


def gen_objf(R):
    return dict(coeff_diso=R.choice([0, 0, 1, 10]),
                coeff_contig=R.choice([0, 0, 1, 10]),
                coeff_10=R.choice([0, 0, 1, 10]),
                coeff_bal_ipo=R.choice([0, 1]), coeff_oopo=R.choice([1, 1, 2]),
                coeff_spacing=R.choice([0, 1]))


MAT = dict(E11=1.4e11, E22=9e9, nu12=0.32, G12=4e9, density_area=300.5,
           ply_t=0.19e-3)


def material(p):
    return dict(MAT, **p.get('mat', {}))


DEFAULTS = dict(
    global_node_limit=100, local_node_limit=100, local_node_limit_final=1,
    global_node_limit_final=5, global_node_limit2=10, local_node_limit2=10,
    global_node_limit3=10, local_node_limit3=10, p_A=100, n_D1=6, n_D2=10,
    n_D3=1, repair_membrane_switch=True, repair_flexural_switch=True,
    n_plies_ref_panel=1000, save_success_rate=False, group_size_min=4,
    group_size_max=12)
WIDE = ('angles', 'angles', 'parameters', 'weighting', 'material', 'percents',
        'contig', 'groups', 'area', 'many', 'thick', 'coefficients', 'limits',
        'sparse', 'sparse')


def gen_problem(R, rules=None, wide=(), **kw):
    """wide: kinds of less usual problems"""
    if 'many' in wide:
        kw.update(n_panels=R.randint(6, 12), base=R.choice([8, 10, 16]),
                  steps=(0, 2, 2, 4))
    elif 'thick' in wide:
        kw.update(n_panels=R.choice([2, 3]), base=R.choice([24, 30, 40, 56]))
    p = gen_structure(R, **kw)
    c = p['constraints'] = gen_constraints(R, rules)
    if 'angles' in wide:
        a = list(R.choice([ANG4, ANG8, ANG12]))
        if R.random() < .5:
            R.shuffle(a)
        if not c['rule_10_percent'] and not c['dam_tol'] \
                and R.random() < .7:
            a = R.choice([[0, 60, -60, 90], [30, -30, 90, 0],
                          [90, 0, 30, -30, 60, -60], [0, 45, -45],
                          [60, -60, 0], [0, 90]])
            c['delta_angle'] = R.choice([60, 90])
            c['n_contig'] = R.choice([3, 4, 5])
        c['set_of_angles'] = a
    if 'sparse' in wide and rules != 'none':    # partial sequences without a next ply
        c.update(dam_tol=False, dam_tol_rule=0, rule_10_percent=False,
                 rule_10_Abdalla=False, percent_Abdalla=0,
                 diso=R.random() < .9, contig=R.random() < .9)
        c['n_contig'] = R.choice([2, 2, 3])
        c['set_of_angles'] = R.choice([
            [0, 30, -30, 90], [0, 10, -10, 60, -60], [0, 45, -45, 90, 20, -20], [90, 0, 20, -20],
            [0, 60, -60, 90, 30, -30], ANG8, [0, 45, -45]])
        c['set_of_angles'] = R.sample(c['set_of_angles'],
                                      len(c['set_of_angles']))
        c['delta_angle'] = R.choice([30, 30, 40, 45, 45, 60])
    if 'percents' in wide:
        c.update(percent_0=R.choice([0, 5, 10, 12.5]),
                 percent_90=R.choice([0, 5, 10, 12.5]))
        if c['percent_45_135']:
            c['percent_45_135'] = R.choice([0, 5, 12.5, 25])
        else:
            c.update(percent_45=R.choice([0, 5, 12.5]),
                     percent_135=R.choice([0, 5, 12.5]))
    if 'contig' in wide:
        c['n_contig'] = R.choice([2, 3, 5])
        if len(c['set_of_angles']) > 6:
            c['delta_angle'] = R.choice([30, 45, 50, 89.5])
    if 'weighting' in wide:
        i = R.randrange(len(p['n_plies']))
        p['weightings'][i] = 0
        if not any(p['weightings']):
            p['weightings'][i - 1] = 1
    if 'material' in wide:
        p['mat'] = dict(E11=R.choice([70e9, 1.8e11]),
                        E22=R.choice([7e9, 1.1e10]),
                        nu12=R.choice([0, .28]), G12=R.choice([3e9, 5.5e9]),
                        density_area=R.choice([0, 150, 268.2]),
                        ply_t=R.choice([1e-4, .25e-3, .131e-3]))
    if 'area' in wide:
        for i in range(len(p['n_plies'])):
            if R.random() < .5:
                p['lengths'][i] = [0, 0]
                p['areas'][i] = R.choice([0, .5, 1, 2.25])
    w = gen_weights(R)
    p['lampam_weights'] = [w if R.random() < .8 else gen_weights(R)
                           for _ in p['n_plies']]
    p['targets'] = gen_targets(R, p)
    p['params'] = gen_params(R, p)
    p['objf'] = gen_objf(R)
    q = p['params']
    if not all(a*b for a, b in p['lengths']):
        q['save_buckling'] = False
    if 'parameters' in wide:
        for k, v in DEFAULTS.items():
            if R.random() < .5:
                q[k] = v
    if 'limits' in wide:
        q.update(p_A=R.choice([0, 10, 33.3]), n_D1=R.choice([2, 3, 5, 7]),
                 n_D2=R.choice([1, 3, 5]), n_D3=R.choice([1, 3]),
                 repair_membrane_switch=R.random() < .8,
                 repair_flexural_switch=R.random() < .8)
    if 'groups' in wide:
        q['group_size_min'] = R.choice([1, 1, 2, 5])
        q['group_size_max'] = q['group_size_min'] + R.choice([0, 1, 5, 15])
    if 'coefficients' in wide:
        for k in p['objf']:
            p['objf'][k] = R.choice([0, .1, .33, 1, 1000, 1e-6])
    p['random_seed'] = R.randrange(1 << 30)
    while any(effective_zero(p, i) for i in range(len(p['n_plies']))):
        p['lampam_weights'] = [[1.]*12]*len(p['n_plies'])
    return p


def effective_zero(p, i):
    try:
        return not all(x == x for x in oracle.effective_weights(p, i))
    except ZeroDivisionError:
        return True


# ------------------------------------------------------------------ real code
class Setup:
    "the objects a caller of the optimiser makes"


def build(p, share=None):
    """objects of the real code for a problem; `share`: a Setup whose
    guidelines, objective parameters and material are used too"""
    from src.BELLA.panels import Panel
    from src.BELLA.multipanels import MultiPanel
    from src.BELLA.parameters import Parameters
    from src.BELLA.constraints import Constraints
    from src.BELLA.obj_function import ObjFunction
    from src.BELLA.materials import Material
    s = Setup()
    if share is None:
        c = dict(p['constraints'])
        c['set_of_angles'] = np.array(c['set_of_angles'])
        s.constraints = Constraints(**c)
        s.objf = ObjFunction(constraints=s.constraints, **p['objf'])
        s.mat = Material(**material(p))
    else:
        s.constraints, s.objf, s.mat = share.constraints, share.objf, share.mat
    s.parameters = Parameters(constraints=s.constraints, **p['params'])
    s.panels = []
    for i, n in enumerate(p['n_plies']):
        s.panels.append(Panel(
            ID=p['ids'][i], lampam_target=np.array(p['targets'][i], float),
            lampam_weightings=np.array(p['lampam_weights'][i], float),
            n_plies=n, length_x=p['lengths'][i][0], length_y=p['lengths'][i][1],
            area=p['areas'][i] or 0,
            N_x=p['loads'][i][0], N_y=p['loads'][i][1],
            weighting=p['weightings'][i],
            neighbour_panels=list(p['neighbours'][i]),
            constraints=s.constraints))
    bw = p.get('boundary_weights')
    s.multipanel = MultiPanel(
        s.panels, None if bw is None else {(a, b): w for a, b, w in bw})
    return s


def optimise(s, filename, layouts_file=None):
    from src.BELLA.optimiser import BELLA_optimiser
    return BELLA_optimiser(s.multipanel, s.parameters, s.objf, s.constraints,
                           filename, s.mat, layouts_file)


LEGIT = ('Partitioning of the laminate not possible',
         'beam search with no solutions',
         'No laminate design solution with any of',
         'No conform ply drop layout can be generated')


def stated_infeasible(e):
    """True when an exception states that the problem has no design (or no
    partition of its plies); internal errors are anything else"""
    if type(e) is Exception or type(e).__name__ == 'PartitioningError':
        return any(x in str(e) for x in LEGIT)
    return False


def describe(e):
    import traceback
    import os
    tb = [x for x in traceback.extract_tb(e.__traceback__) if '/src/' in
          x.filename]
    at = ' < '.join('%s:%s' % (os.path.basename(x.filename), x.name)
                    for x in tb[::-1][:3])
    return '%s: %s @ %s' % (type(e).__name__, ' '.join(str(e).split())[:160],
                            at)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def plain(x):
    "JSON-able copy of results"
    if isinstance(x, np.ndarray):
        return [plain(y) for y in x.tolist()]
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


TABS = ('obj_constraints_tab', 'obj_no_constraints_tab', 'penalty_spacing_tab',
        'penalty_diso_tab', 'penalty_contig_tab', 'penalty_10_tab',
        'penalty_bal_ipo_tab', 'penalty_oopo_tab', 'n_diso_tab',
        'n_contig_tab', 'n_plies_per_angle_tab', 'n_designs_last_level_tab',
        'n_designs_after_ss_ref_repair_tab',
        'n_designs_after_thick_to_thin_tab',
        'n_designs_after_thin_to_thick_tab', 'n_designs_repaired_unique_tab')


def result_dict(r):
    "what a run returned, without its duration"
    d = {k: plain(getattr(r, k)) for k in TABS}
    d['ss_tab'] = [[plain(np.asarray(s)) for s in x] for x in r.ss_tab]
    d['sst_tab'] = plain(np.asarray(r.ss_tab_tab))
    d['lampam_tab'] = plain(r.lampam_tab_tab)
    d['best'] = int(r.ind_mini)
    d['ss'] = [plain(np.asarray(s)) for s in r.ss]
    d['sst'] = plain(np.asarray(r.sst))
    d['lampam'] = plain(r.lampam)
    d['obj'] = float(r.obj_constraints)
    d['obj_panels'] = plain(r.obj_no_constraints)
    return d
