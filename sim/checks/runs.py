"""P12-P16: whole optimisation runs in the simulated world, judged by the
independent definitions of sim/oracle.py"""
import random

from .. import book, oracle, workload as W, world
from ..core import Check
from ..steps import Interrupt, Lines
from ..world import gen_world, outcome, simulate

REAL = ['src/BELLA/optimiser.py and all it calls except the seams: '
        'optimiser_with_one_pdl, pdl_ini, pdl_group, divide_panels, pruning, '
        'objectives, results, multipanels', 'src/RELAY/*', 'src/guidelines/*']
STUB = ['clock (simulated; speed, stalls)',
        'random stream (seeded, plain or adversarial)', 'user at the prompt',
        'src.CLA (absent from the repository; stub from laminate theory)']


def gen_earlier(R):
    "an earlier run on the same objects that is interrupted"
    return dict(exc=R.choice(['KeyboardInterrupt', 'MemoryError']),
                at=int(10**R.uniform(.5, 4.7)))


EXC = dict(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError)


def interrupted(case, scratch, out):
    "the earlier run; returns the objects used"
    e = case['earlier']
    hit = Interrupt(EXC[e['exc']]('simulated'), e['at'])
    w = simulate(case, scratch, save=False, around=Lines(hit))
    if hit.fired:
        out.count('fault:' + e['exc'])
        out.event('earlier run interrupted in', hit.fired)
    return w.setup


class RunCheck(Check):
    cpu = 60
    budget = {'quick': 150, 'thorough': 840}
    real = REAL
    stub = STUB + ['writing of the results workbook left out (P05 judges it)']
    assumptions = ['symmetric laminates of even ply counts',
                   'problems have 2-5 panels of 6-30 plies']
    earlier = .15
    gen_args = {}

    def gen(self, R, tier):
        c = gen_world(R, tier, **self.gen_args)
        c['earlier'] = gen_earlier(R) if R.random() < self.earlier else None
        return c

    def shrink(self, case):
        if case.get('earlier'):
            yield dict(case, earlier=None)
        yield from world.shrink_world(case)

    def run(self, case, out, scratch):
        setup = interrupted(case, scratch, out) if case['earlier'] else None
        watch = self.watch()
        w = simulate(case, scratch, setup=setup, save=False, around=watch)
        world.note(w, out)
        if outcome(w, out) != 'ok':
            return
        d = w.result
        d['watch'] = watch
        out.event('best', d['best'], d['obj_constraints_tab'], d['sst'])
        try:
            self.judge(case, d, out)
        except (KeyError, IndexError, TypeError, ValueError,
                ZeroDivisionError) as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            out.violate('malformed', 'the returned tables cannot be judged: '
                        '%s: %s (%s:%d)' % (type(e).__name__, e,
                                            tb.name, tb.lineno))

    def watch(self):
        return None

    def judge(self, case, d, out):
        raise NotImplementedError


def tried(d):
    "layouts that gave a design"
    return [i for i, x in enumerate(d['obj_constraints_tab']) if x == x]


def strip_rows(sst, st):
    return [[-1 if x == -1 else 1 for x in sst[i]] for i in st.first]


class P12(RunCheck):
    id = 'P12'
    technique = ('deterministic simulation of whole runs (random stream, '
                 'clock, earlier interruptions), structural invariants')
    note_text = ('All designs of a run are judged by independent structural '
                 'rules (ply counts, angles, blending, covering, symmetry).')
    rule = ('random structures and guidelines; layouts searched for under a '
            'simulated clock and an adversarial random stream or given; some '
            'runs reuse objects of an interrupted run; non-trivial: a design '
            'with ply drops and at least three different angles')
    n_quick = 1800
    n_thorough = 9000

    def judge(self, case, d, out):
        p = case['problem']
        st, c = oracle.Strip(p), p['constraints']
        for k in tried(d):
            ss, sst = d['ss_tab'][k], d['sst_tab'][k]
            out.count('designs judged')
            if len(set(sst[st.first[-1]])) > 2:
                out.nontrivial = True
            bad = structure_faults(p, st, c, ss, sst)
            if bad:
                out.violate(bad[0].split(':')[0], 'layout %d: %s' % (k, bad[0]))
                return
        b = d['best']
        if d['ss'] != d['ss_tab'][b] or d['sst'] != d['sst_tab'][b]:
            out.violate('best', 'the design returned is not that of the best '
                        'layout')


def structure_faults(p, st, c, ss, sst):
    n = p['n_plies']
    allowed = set(c['set_of_angles'])
    if len(ss) != len(n) or len(sst) != len(n):
        return ['panels: %d and %d rows for %d panels' % (
            len(ss), len(sst), len(n))]
    bad = []
    for i, s in enumerate(ss):
        if len(s) != n[i]:
            bad.append('ply count: panel %d has %d plies instead of %d' % (
                i, len(s), n[i]))
        if not set(s) <= allowed:
            bad.append('angles: panel %d has %s' % (i, sorted(
                set(s) - allowed)))
        if c['sym'] and s != s[::-1]:
            bad.append('symmetry: panel %d' % i)
        if [x for x in sst[i] if x != -1] != s:
            bad.append('table: plies of panel %d differ from its stacking '
                       'sequence' % i)
        if len(sst[i]) != st.counts[-1]:
            bad.append('table: row %d has length %d' % (i, len(sst[i])))
    if bad:
        return bad
    for i in range(len(n)):
        for j in range(len(n)):
            if n[i] == n[j] and ss[i] != ss[j]:
                bad.append('equal: panels %d and %d of equal thickness differ'
                           % (i, j))
            if n[i] < n[j]:
                for x, y in zip(sst[i], sst[j]):
                    if x != -1 and x != y:
                        bad.append('blending: a ply of panel %d (%d) is %d in '
                                   'the thicker panel %d' % (i, x, y, j))
                        break
    bad += ['layout: ' + x for x in oracle.check_layout(
        strip_rows(sst, st), st, c)]
    return bad


class P13(RunCheck):
    id = 'P13'
    technique = ('deterministic simulation of whole runs (random stream, '
                 'clock, earlier interruptions), guideline oracle')
    note_text = ('Guidelines are judged by independent definitions; panels '
                 'other than the reference one only for the guidelines that '
                 'the method keeps everywhere.')
    rule = ('as P12; non-trivial: a design under at least three lay-up '
            'guidelines')
    n_quick = 2200
    n_thorough = 9000

    def gen(self, R, tier):
        c = super().gen(R, tier)
        g = c['problem']['constraints']
        for k in ('bal', 'diso', 'contig', 'rule_10_percent'):
            if R.random() < .35 and not g[k]:
                g[k] = True
                if not world.feasible(c['problem']):
                    g[k] = False
        return c

    def judge(self, case, d, out):
        p = case['problem']
        st, c = oracle.Strip(p), p['constraints']
        n_rules = sum(map(bool, (c['bal'], c['diso'], c['contig'],
                                 c['dam_tol'], c['rule_10_percent'])))
        for k in tried(d):
            out.count('designs judged')
            out.nontrivial |= n_rules >= 3
            for i, s in enumerate(d['ss_tab'][k]):
                bad = oracle.guidelines(s, c)
                t = st.of_panel[i]
                if t == st.ref:
                    role = 'reference panel'
                else:
                    bad = [x for x in bad if x != 'balance']
                    role = 'panel thicker than the reference one'
                    if t < st.ref:
                        role = 'panel thinner than the reference one'
                        bad = [x for x in bad if x != 'disorientation']
                if bad:
                    out.violate(bad[0], 'layout %d, %s (panel %d): %s '
                                'violated by %s' % (k, role, i,
                                                    ', '.join(bad), s))
                    return


STEPS = ('repair_reference_panel', 'repair_thick_to_thin',
         'repair_thin_to_thick')


class Repairs:
    """notes how often the steps of the repair succeed for each layout (the
    functions are looked up by name; None where they are not found)"""

    def __init__(self):
        self.layouts = []
        self.undo = []

    def __enter__(self):
        try:
            import src.BELLA.optimiser as o
            import src.RELAY.repair_mp as r
            named = [(o, 'BELLA_optimiser_one_pdl', None)] + [
                (r, x, k) for k, x in enumerate(STEPS)]
            real = [getattr(m, x) for m, x, _ in named]
        except (ImportError, AttributeError):
            self.layouts = None
            return self
        for (m, x, k), f in zip(named, real):
            setattr(m, x, self.wrapped(f, k))
            self.undo.append((m, x, f))
        try:
            import src.BELLA.optimiser_with_one_pdl as o
            f = o.repair_mp
        except (ImportError, AttributeError):
            return self
        o.repair_mp = self.tables(f)
        self.undo.append((o, 'repair_mp', f))
        return self

    def tables(self, f):
        "notes the stacking sequence tables of the repaired designs"
        def g(*a, **k):
            r = f(*a, **k)
            if self.layouts:
                try:
                    if r[0]:
                        self.layouts[-1][3].append(str([
                            [int(x) for x in row] for row in r[2]]))
                except (TypeError, ValueError, IndexError):
                    self.layouts[-1][3].append(None)
            return r
        return g

    def __exit__(self, *a):
        for m, x, f in self.undo:
            setattr(m, x, f)
        return False

    def wrapped(self, f, step):
        def g(*a, **k):
            if step is None:
                self.layouts.append([[], [], [], []])
                return f(*a, **k)
            r = f(*a, **k)
            if self.layouts:
                self.layouts[-1][step].append(
                    isinstance(r, tuple) and bool(r[0]))
            return r
        return g

    def expected(self, k):
        "designs of layout k at the last level and after each repair step"
        if not self.layouts or k >= len(self.layouts):
            return None
        a, b, c = self.layouts[k][:3]
        if not (sum(a) == len(b) and sum(b) == len(c) and a):
            return None
        return [len(a), sum(a), sum(b), sum(c)]

    def different(self, k):
        "number of different designs of layout k"
        if self.expected(k) is None:
            return None
        t = self.layouts[k][3]
        if None in t or len(t) != self.expected(k)[-1]:
            return None
        return len(set(t))


COUNTS = ('n_designs_last_level_tab', 'n_designs_after_ss_ref_repair_tab',
          'n_designs_after_thick_to_thin_tab',
          'n_designs_after_thin_to_thick_tab')


def count_faults(p, d, k):
    n = [d[x][k] for x in COUNTS]
    u = d['n_designs_repaired_unique_tab'][k]
    q = p['params']
    if n != sorted(n, reverse=True) or n[-1] < 1 \
            or n[0] > q['global_node_limit_final']:
        return ['design counts: %s reported (at most %d designs at the last '
                'level)' % (n, q['global_node_limit_final'])]
    want = d['watch'].expected(k)
    if want is not None and want != n:
        return ['design counts: %s reported instead of %s' % (n, want)]
    if q['save_success_rate'] and not 1 <= u <= n[-1]:
        return ['design counts: %s different designs of %s' % (u, n[-1])]
    if q['save_success_rate'] and d['watch'].different(k) not in (None, u):
        return ['design counts: %s different designs reported instead of %s'
                % (u, d['watch'].different(k))]
    return []


class P14(RunCheck):
    id = 'P14'
    technique = ('deterministic simulation of whole runs (random stream, '
                 'clock, earlier interruptions), recomputation oracle')
    note_text = ('Every reported number is recomputed from the stacking '
                 'sequences by independent definitions; for the 10% rule of '
                 'Abdalla the distance to the region is not recomputed.')
    rule = ('as P12; non-trivial: a design with a violation or a penalty '
            'coefficient that matters, or weightings other than one')
    n_quick = 1800
    n_thorough = 9000

    def watch(self):
        return Repairs()

    def judge(self, case, d, out):
        p = case['problem']
        st, c = oracle.Strip(p), p['constraints']
        out.nontrivial = any(p['objf'][k] for k in (
            'coeff_diso', 'coeff_contig', 'coeff_10')) or any(
                x != 1 for x in p['weightings'])
        for k in tried(d):
            out.count('designs judged')
            bad = number_faults(p, st, c, d, k, case['layouts']) \
                or count_faults(p, d, k)
            if bad:
                out.violate(bad[0].split(':')[0],
                            'layout %d: %s' % (k, bad[0]))
                return
        b = d['best']
        for x, y, name in ((d['lampam'], [r[b] for r in d['lampam_tab']],
                            'lampam'), ([d['obj']], [d[
                                'obj_constraints_tab'][b]], 'objective'),
                           (d['obj_panels'], d['obj_no_constraints_tab'][b],
                            'panel objectives')):
            if x != y:
                out.violate('best', 'the best %s differ from the table' % name)


def far(x, y, tol=1e-9):
    return not abs(x - y) <= tol*max(1, abs(x), abs(y))


def number_faults(p, st, c, d, k, layouts):
    bad = []
    ss = d['ss_tab'][k]
    order = sorted(c['set_of_angles'])
    for i, s in enumerate(ss):
        first = st.first[st.of_panel[i]]
        lp = oracle.lampam(s)
        if any(far(x, y) for x, y in zip(lp, d['lampam_tab'][i][k])):
            bad.append('lampam: panel %d reports %s instead of %s' % (
                i, d['lampam_tab'][i][k], lp))
        o = oracle.panel_objective(p, first, s)
        if far(o, d['obj_no_constraints_tab'][k][i]):
            bad.append('panel objective: panel %d reports %.12g instead of '
                       '%.12g' % (i, d['obj_no_constraints_tab'][k][i], o))
        nd, nc = oracle.n_diso(s, c), oracle.contig_count(s, c)
        if c['diso'] and nd != d['n_diso_tab'][k][i]:
            bad.append('disorientation: panel %d reports %s instead of %d' % (
                i, d['n_diso_tab'][k][i], nd))
        if nc != d['n_contig_tab'][k][i]:
            bad.append('contiguity: panel %d reports %s instead of %d' % (
                i, d['n_contig_tab'][k][i], nc))
        want = (nd/len(s) if c['diso'] else 0, nc/len(s) if c['contig'] else 0)
        got = (d['penalty_diso_tab'][k][i], d['penalty_contig_tab'][k][i])
        if far(want[0], got[0]) or far(want[1], got[1]):
            bad.append('penalties: panel %d reports %s instead of %s' % (
                i, got, want))
        x = oracle.penalty_10(s, c)
        if x is not None and far(x, d['penalty_10_tab'][k][i], 1e-3):
            bad.append('10%% rule: panel %d reports %g instead of %g' % (
                i, d['penalty_10_tab'][k][i], x))
        x = (abs(lp[2]) + abs(lp[3]))/2
        if far(x, d['penalty_bal_ipo_tab'][k][i]):
            bad.append('balance: panel %d reports %g instead of %g' % (
                i, d['penalty_bal_ipo_tab'][k][i], x))
        x = (abs(lp[10]) + abs(lp[11]))/2 if c['oopo'] else 0
        if far(x, d['penalty_oopo_tab'][k][i]):
            bad.append('out-of-plane orthotropy: panel %d reports %g instead '
                       'of %g' % (i, d['penalty_oopo_tab'][k][i], x))
        n = [s.count(a) for a in order]
        got = d['n_plies_per_angle_tab'][k][i]
        if n != got:
            bad.append('plies per angle: panel %d reports %s instead of %s' % (
                i, got, n))
    o = oracle.total_objective(p, st, [ss[i] for i in st.first])
    if o is not None and far(o, d['obj_constraints_tab'][k]):
        bad.append('total objective: %.12g reported instead of %.12g' % (
            d['obj_constraints_tab'][k], o))
    if layouts is not None:
        x = oracle.spacing_penalty(layouts[k], st, c)
        if far(x, d['penalty_spacing_tab'][k]):
            bad.append('spacing: penalty %g reported instead of %g' % (
                d['penalty_spacing_tab'][k], x))
    return bad


class P15(RunCheck):
    id = 'P15'
    technique = ('deterministic simulation of runs over sequences of layouts, '
                 'each compared with runs of single layouts')
    note_text = ('Each layout is also run alone on new objects; the best is '
                 'taken over independently recomputed objectives.')
    rule = ('runs of 2-5 given layouts in random order, again one by one; '
            'non-trivial: at least two layouts gave different objectives or '
            'one gave no design')
    n_quick = 1000
    n_thorough = 3500
    earlier = .1

    def gen(self, R, tier):
        c = gen_world(R, tier, source='file', small=R.random() < .7,
                      n_panels=R.choice([2, 3, 3, 4]))
        c['layouts'] = world.gen_layouts(R, c['problem'],
                                         R.choice([2, 3, 3, 4, 5]))
        if R.random() < .35:       # hard: some layouts without a design
            g = c['problem']['constraints']
            g.update(diso=True, contig=True, delta_angle=45, n_contig=2)
            if world.feasible(dict(c['problem'], constraints=dict(
                    g, rule_10_percent=True))):
                g.update(rule_10_percent=True, percent_0=15)
            c['problem']['params'].update(
                global_node_limit2=1, local_node_limit2=1,
                global_node_limit3=1, local_node_limit3=1)
        if R.random() < .3 and len(c['layouts']) < 5:
            # a layout given again
            c['layouts'].append(R.choice(c['layouts']))
        R.shuffle(c['layouts'])
        c['earlier'] = gen_earlier(R) if R.random() < self.earlier else None
        return c

    def run(self, case, out, scratch):
        p = case['problem']
        n = len(case['layouts'])
        setup = interrupted(case, scratch, out) if case['earlier'] else None
        w = simulate(case, scratch, setup=setup, save=False)
        world.note(w, out)
        how = outcome(w, out)
        if how == 'internal':
            return
        alone = []
        for k in range(n):
            x = simulate(case, scratch, save=False, name='a%d' % k,
                         layouts=[case['layouts'][k]])
            if x.error is not None and not W.stated_infeasible(x.error):
                out.violate('internal error', 'layout %d alone: %s' % (
                    k, W.describe(x.error)))
                return
            alone.append(x)
        objs = [None if x.error else x.result['obj'] for x in alone]
        out.event('alone', objs)
        out.nontrivial = None in objs or len(set(objs)) > 1
        out.count('layouts without a design', objs.count(None))
        if how == 'stated':
            e = [str(x.error).strip() for x in alone if x.error]
            good = [k for k in range(n) if objs[k] is not None]
            if good and 'No laminate design solution' in str(w.error):
                out.violate('hidden', 'no design returned although layout %d '
                            'gives one' % good[0])
            elif good and str(w.error).strip() not in e:
                out.violate('hidden', 'the run ends with %r although no '
                            'layout alone does' % str(w.error).strip()[:60])
            return
        d = w.result
        st = oracle.Strip(p)
        tab = d['obj_constraints_tab']
        if len(tab) != n:
            out.violate('tables', '%d rows for %d layouts' % (len(tab), n))
            return
        perfect = None
        for k in range(n):
            if tab[k] != tab[k]:
                if perfect is None and objs[k] is not None:
                    out.violate('not tried', 'layout %d has no design in the '
                                'run but has one alone' % k)
                    return
                continue
            if objs[k] is None:
                out.violate('company', 'layout %d has a design in company but '
                            'none alone' % k)
                return
            x = alone[k].result
            for a, b, name in (
                    (d['ss_tab'][k], x['ss_tab'][0], 'stacking sequences'),
                    (d['sst_tab'][k], x['sst_tab'][0], 'table of plies'),
                    (tab[k], objs[k], 'objective'),
                    (d['obj_no_constraints_tab'][k],
                     x['obj_no_constraints_tab'][0], 'panel objectives'),
                    (d['penalty_spacing_tab'][k], x['penalty_spacing_tab'][0],
                     'spacing penalty'),
                    ([r[k] for r in d['lampam_tab']],
                     [r[0] for r in x['lampam_tab']], 'lampam')):
                if not world.equal(a, b):
                    out.violate('company', 'layout %d: %s %s in company, %s '
                                'alone' % (k, name, a, b))
                    return
            if perfect is None and tab[k] < 1e-10:
                perfect = k
        best = d['best']
        mine = {}
        for k in tried(d):
            mine[k] = oracle.total_objective(
                p, st, [d['ss_tab'][k][i] for i in st.first])
            if mine[k] is None:
                mine[k] = tab[k]
        if mine[best] > min(mine.values()) + 1e-9:
            out.violate('best', 'layout %d is returned with objective %.12g; '
                        'all: %s' % (best, mine[best], mine))
        if d['obj'] != tab[best] or d['ss'] != d['ss_tab'][best] \
                or d['sst'] != d['sst_tab'][best]:
            out.violate('best', 'the design returned is not that of layout %d'
                        % best)


class P16(RunCheck):
    id = 'P16'
    technique = ('deterministic simulation of whole runs (random stream, '
                 'clock), termination and error-kind check')
    note_text = ('Termination is bounded by CPU time (confirmed at three '
                 'times the limit); error kinds by their messages.')
    rule = ('random problems with any guidelines or none, extreme parameters '
            'and adversarial random streams; non-trivial: at least two '
            'guidelines or parameters at an extreme')
    n_quick = 1100
    n_thorough = 12000
    stub = STUB + ['writing of the results workbook left out in four fifths '
                   'of the runs']

    def gen(self, R, tier):
        rules = 'none' if R.random() < .25 else None
        wide = ['sparse'] if rules is None and R.random() < .15 else None
        c = gen_world(R, tier, rules, wide=wide)
        p = c['problem']
        c['earlier'] = None
        c['none'] = rules == 'none'
        c['save'] = R.random() < .2
        if R.random() < .5:
            q = p['params']
            for k in ('global_node_limit', 'global_node_limit_final',
                      'local_node_limit', 'local_node_limit_final',
                      'global_node_limit2', 'local_node_limit2',
                      'global_node_limit3', 'local_node_limit3'):
                if R.random() < .4:
                    q[k] = R.choice([1, 1, 10, 100])
            q['group_size_max'] = max(q['group_size_min'],
                                      R.choice([4, 6, 12, 100]))
            q['n_plies_ref_panel'] = R.choice([1, 1000, min(p['n_plies']),
                                               max(p['n_plies'])])
        if R.random() < .1:
            p['targets'] = [[0.]*12 for _ in p['n_plies']]
        if R.random() < .1:
            p['targets'] = [[R.choice([-1., 1.]) for _ in range(12)]
                            for _ in p['n_plies']]
        return c

    def run(self, case, out, scratch):
        w = simulate(case, scratch, save=case['save'])
        world.note(w, out)
        c = case['problem']['constraints']
        out.nontrivial = sum(map(bool, (
            c['bal'], c['diso'], c['contig'], c['dam_tol'],
            c['rule_10_percent']))) >= 2
        how = outcome(w, out)
        if how == 'ok':
            out.event('ok', w.result['obj_constraints_tab'])
        if how == 'stated' and case['none'] and \
                'Partitioning' not in type(w.error).__name__:
            out.violate('no design', 'a problem without guidelines beyond '
                        'symmetry ends with: %s' % W.describe(w.error))
