"""P18: problems saved in set-up workbooks and run from them"""
import builtins
import io
import os
import random
import runpy
import sys

import numpy as np

from .. import book, clock, core, fsim, oracle, workload as W, world
from ..core import Check
from ..layouts import gen_layout
from ..world import gen_world, simulate
from .layoutfile import sheet_data_spans
from .runs import far

SCRIPTS = {'SST': 'run_BELLA_from_input_file_SST_1.py',
           'horseshoe': 'run_BELLA_from_input_file_horseshoe.py'}
INPUTS = '/BELLA/input-files/'


class Script:
    """runs one of the run scripts of the repository in a scratch directory,
    on a given workbook, with a recorder in the place of the optimiser"""

    def __init__(self, name, path, answer='y'):
        self.name, self.path, self.answer = name, path, answer
        self.given = []
        self.asked = 0
        self.error = None

    def to(self, f):
        if isinstance(f, (str, os.PathLike)) and INPUTS in str(f):
            return self.path
        return f

    def run(self):
        import src.BELLA.optimiser as o
        keep = o.BELLA_optimiser, builtins.open, io.open, builtins.input
        path = list(sys.path)

        def recorder(*a, **k):
            self.given.append((a, k))

        def opened(file, *a, **k):
            return keep[1](self.to(file), *a, **k)

        def answered(prompt=''):
            self.asked += 1
            return self.answer
        o.BELLA_optimiser = recorder
        builtins.open = io.open = opened
        builtins.input = answered
        try:
            with W.quiet():
                runpy.run_path(os.path.join(core.REPO, SCRIPTS[self.name]))
        except core.Hang:
            raise
        except (Exception, SystemExit) as e:
            self.error = e
        finally:
            o.BELLA_optimiser, builtins.open, io.open, builtins.input = keep
            sys.path[:] = path
        return self

    def setup(self):
        "the objects that the optimiser was given"
        names = ('multipanel', 'parameters', 'obj_func_param', 'constraints',
                 'filename', 'mat', 'filename_initial_pdls')
        a, k = self.given[0]
        d = dict(zip(names, a))
        d.update(k)
        s = W.Setup()
        s.multipanel, s.objf = d['multipanel'], d['obj_func_param']
        s.constraints, s.mat = d['constraints'], d['mat']
        s.parameters, s.filename = d['parameters'], d['filename']
        s.layouts = d.get('filename_initial_pdls')
        s.panels = s.multipanel.panels
        return s


def save_setup(s, path, flags, sst=None):
    "as the scripts create_input_file_*.py do it"
    from src.BELLA import save_set_up as S
    from src.divers import excel
    s.multipanel.filter_target_lampams(s.constraints, s.objf)
    s.multipanel.filter_lampam_weightings(s.constraints, s.objf)
    with W.quiet():
        excel.delete_file(path)
        if sst is None:
            S.save_multipanel(path, s.multipanel, s.objf, mat=s.mat,
                              calc_penalties=False, constraints=s.constraints,
                              save_buckling=flags['buckling'])
        else:
            S.save_multipanel(path, s.multipanel, s.objf, calc_penalties=True,
                              constraints=s.constraints, sst=np.array(sst))
        S.save_constraints_BELLA(path, s.constraints)
        S.save_objective_function_BELLA(path, s.objf)
        S.save_materials(path, s.mat)
        if flags['autofit']:
            excel.autofit_column_widths(path)


def expected(p):
    "attributes of the objects of the problem"
    c, o = p['constraints'], p['objf']
    pc = oracle.percentages(c)
    cons = {'sym': c['sym'], 'bal': c['bal'], 'oopo': c['oopo'],
            'dam_tol': c['dam_tol'], 'rule_10_percent': c['rule_10_percent'],
            'rule_10_Abdalla': c['rule_10_percent'] and c['rule_10_Abdalla'],
            'percent_Abdalla': c['percent_Abdalla']/100
            if c['rule_10_percent'] and c['rule_10_Abdalla'] else 0,
            'percent_0': pc['0'], 'percent_45': pc['45'],
            'percent_90': pc['90'], 'percent_135': pc['135'],
            'percent_45_135': pc['45_135'], 'diso': c['diso'],
            'delta_angle': c['delta_angle'] if c['diso'] else 180,
            'contig': c['contig'],
            'n_contig_c': c['n_contig'] if c['contig'] else 1e10,
            'pdl_spacing': c['pdl_spacing'], 'min_drop': c['min_drop'],
            'n_covering': oracle.n_covering(c)}
    if c['dam_tol']:
        cons['dam_tol_rule'] = c['dam_tol_rule']
    obj = {k: o[k] if c[rule] else 0 for k, rule in (
        ('coeff_diso', 'diso'), ('coeff_contig', 'contig'),
        ('coeff_10', 'rule_10_percent'), ('coeff_oopo', 'oopo'),
        ('coeff_spacing', 'pdl_spacing'))}
    return cons, obj


def misread(p, s, name):
    "what is wrong with the objects given to the optimiser, or None"
    cons, obj = expected(p)
    for what, o, want in (('guidelines', s.constraints, cons),
                          ('objective', s.objf, obj), ('material', s.mat,
                                                       W.material(p))):
        for k, v in want.items():
            x = getattr(o, k)
            if k == 'density_area' and not v:
                v = 300.5                                # the default
            if far(float(x), float(v), 1e-12):
                return '%s: %s is %r instead of %r' % (what, k, x, v)
    x = sorted(int(a) for a in s.constraints.set_of_angles)
    if x != sorted(p['constraints']['set_of_angles']):
        return 'guidelines: fibre angles %s' % x
    mp = s.multipanel
    if len(mp.panels) != len(p['n_plies']):
        return 'panels: %d instead of %d' % (len(mp.panels),
                                             len(p['n_plies']))
    mp.filter_target_lampams(s.constraints, s.objf)
    mp.filter_lampam_weightings(s.constraints, s.objf)
    for i, a in enumerate(mp.panels):
        want = dict(ID=p['ids'][i], n_plies=p['n_plies'][i],
                    weighting=p['weightings'][i])
        if name == 'horseshoe':
            want.update(length_x=p['lengths'][i][0], length_y=p['lengths'][i][1],
                        N_x=p['loads'][i][0], N_y=p['loads'][i][1])
        for k, v in want.items():
            x = getattr(a, k)
            if far(float(x), float(v), 1e-12):
                return 'panel %d: %s is %r instead of %r' % (i + 1, k, x, v)
        x = sorted(int(y) for y in a.neighbour_panels)
        if x != sorted(p['neighbours'][i]):
            return 'panel %d: neighbours %s instead of %s' % (
                i + 1, x, p['neighbours'][i])
        for k, v in (('lampam_target', oracle.effective_target(p, i)),
                     ('lampam_weightings', oracle.effective_weights(p, i))):
            x = [float(y) for y in getattr(a, k)]
            if len(x) != 12 or any(far(y, z, 1e-12) for y, z in zip(x, v)):
                return 'panel %d: %s is %s instead of %s' % (i + 1, k, x, v)
    got = sorted(tuple(sorted(int(y) for y in b)) for b in mp.boundaries)
    if got != oracle.boundaries(p):
        return 'boundaries %s instead of %s' % (got, oracle.boundaries(p))
    return None


def design(R, p, layout, st):
    "a stacking sequence table that keeps the ply drops of a layout"
    ang = p['constraints']['set_of_angles']
    few = [R.choice(ang) for _ in range(R.choice([1, 2, 4]))]
    n = st.counts[-1]
    half = [R.choice(few) for _ in range(n//2)]
    ss = half + half[::-1]
    return [[-1 if x == -1 else a for x, a in zip(layout[j], ss)]
            for j in st.of_panel]


def short(x):
    return np.array([float('%.16g' % y) for y in x])


class P18(Check):
    id = 'P18'
    technique = ('deterministic simulation of set-up files on a failing disk, '
                 'run scripts against the problem that was saved')
    note_text = ('The optimiser is replaced by a recorder; what it is given '
                 'is compared with the problem, value by value.')
    rule = ('random problems saved with save_set_up and run with the run '
            'scripts: cleanly, with failing, short, altered or truncated '
            'reads, after a failed save, refused by the user, or with a '
            'design; a part of the clean ones is optimised from the workbook '
            'and directly; non-trivial: a fault struck, or three panels or '
            'more, or two optimisations compared')
    n_quick = 1000
    n_thorough = 14000
    cpu = 90
    budget = {'quick': 150, 'thorough': 840}
    shim = True
    real = ['run_BELLA_from_input_file_SST_1.py', 'src/BELLA/save_set_up.py',
            'run_BELLA_from_input_file_horseshoe.py',
            'src/BELLA/panels.py, multipanels.py, constraints.py, '
            'obj_function.py, materials.py, parameters.py',
            'src/divers/excel.py', 'pandas', 'openpyxl',
            'src/BELLA/optimiser.py (runs that are compared)']
    stub = ['disk: failing, short and altered calls through the libc seam',
            'the directory of input files (/BELLA/input-files)',
            'user at the prompt', 'clock', 'random stream',
            'src.CLA (absent from the repository)']
    assumptions = ['boundary weightings are not part of a set-up workbook',
                   'bits are flipped inside the contents of work sheets']

    def gen(self, R, tier):
        mode = R.choice(['clean', 'clean', 'clean', 'run', 'errno', 'short',
                         'truncate', 'flip', 'transit', 'save', 'refuse',
                         'design', 'design'])
        c = gen_world(R, tier, small=R.random() < .8, without=('area',))
        p = c['problem']
        p['boundary_weights'] = None
        p['objf']['coeff_bal_ipo'] = 1
        if mode == 'design':
            p['constraints'].update(rule_10_Abdalla=False, percent_Abdalla=0)
        c.update(mode=mode, script=R.choice(sorted(SCRIPTS)),
                 flags=dict(buckling=R.random() < .4, autofit=R.random() < .3),
                 old=R.random() < .3, seed=R.randrange(1 << 30),
                 at=round(R.random(), 4), which=R.randrange(256))
        if mode == 'errno':
            c['fault'] = dict(kind='errno', at=0, err=R.choice(
                ['EIO', 'EIO', 'EINTR', 'EACCES']), ops=[R.choice(
                    ['read', 'read', 'read', 'open'])])
        if mode == 'short':
            c['fault'] = dict(kind='short', at=0, ops=['read'],
                              arg=R.choice([1, 10, 50, 90]))
        if mode == 'transit':
            c['fault'] = dict(kind='flip', at=0, ops=['read'],
                              arg=R.randrange(1 << 14))
        if mode == 'save':
            c['fault'] = R.choice([
                dict(kind='errno', err=R.choice(['EIO', 'ENOSPC', 'EDQUOT'])),
                dict(kind='errno', err='EIO', ops=[R.choice(
                    ['write', 'rename', 'fsync', 'open', 'close'])]),
                dict(kind='dead'), dict(kind='full')])
        return c

    def shrink(self, case):
        if case['mode'] not in ('clean', 'design'):
            yield dict(case, mode='clean')
        if case['old']:
            yield dict(case, old=False)
        for k in ('buckling', 'autofit'):
            if case['flags'][k]:
                yield dict(case, flags=dict(case['flags'], **{k: False}))
        for c in world.shrink_world(case):
            if c['problem']['objf']['coeff_bal_ipo'] == 1:
                yield c

    def run(self, case, out, scratch):
        clock.use(clock.SimClock())
        R = random.Random(case['seed'])
        p, mode = case['problem'], case['mode']
        d = os.path.join(os.path.realpath(scratch), 'd')
        os.mkdir(d)
        os.chdir(d)
        path = os.path.join(d, 'in.xlsx')
        with W.quiet():
            s = W.build(p)
        sst = None
        st = oracle.Strip(p)
        out.event(core.canonical(p))
        if mode == 'design':
            sst = design(R, p, gen_layout(R, st, p['constraints']), st)
        elif mode == 'save':
            self.failed_save(case, out, d, path, s)
            return
        save_setup(s, path, case['flags'], sst)
        data = open(path, 'rb').read()
        if mode == 'truncate':
            data = data[:int(case['at']*len(data))]
        if mode == 'flip':
            o, n = R.choice(sheet_data_spans(data))
            k = o + R.randrange(n)
            data = data[:k] + bytes([data[k] ^ 1 << R.randrange(8)]) \
                + data[k + 1:]
        if mode in ('truncate', 'flip'):
            with open(path, 'wb') as f:
                f.write(data)
            out.count('fault:' + {'truncate': 'truncated file',
                                  'flip': 'damaged sheet'}[mode])
        if mode == 'refuse':
            self.refused(case, out, d, path)
            return
        faults = []
        if mode in ('errno', 'short', 'transit'):
            rec, _ = self.start(case, d, path)
            kinds = [fsim.NAMES.index(x) for x in case['fault']['ops']]
            at = [i for i, o in enumerate(rec.ops) if o[0] in kinds]
            if mode == 'transit':
                spans = sheet_data_spans(data)
                at = [i for i in at if any(
                    o <= rec.ops[i][3] and rec.ops[i][3] + rec.ops[i][4]
                    <= o + n for o, n in spans)]
            if not at:
                out.event('no such call')
                return
            faults = [dict(case['fault'], at=at[case['which'] % len(at)])]
        rec, x = self.start(case, d, path, faults)
        rec.note(out)
        struck = rec.struck or mode in ('truncate', 'flip')
        out.nontrivial = struck or len(p['n_plies']) > 2 or mode == 'design'
        out.event(mode, case['script'], faults, len(x.given),
                  type(x.error).__name__)
        if open(path, 'rb').read() != data:
            out.violate('file changed', 'running changed the set-up file')
            return
        if sst is not None:
            bad = self.penalties(p, st, sst, path)
            out.count('designs saved with a set-up')
            if bad:
                out.violate('penalties', bad)
                return
        if not self.judge(case, out, x, struck and mode != 'short'):
            return
        out.count('set-ups read back')
        if mode == 'run' and x.given:
            self.compare_runs(case, out, d, s, x)

    def start(self, case, d, path, faults=()):
        x = Script(case['script'], path)
        with fsim.Recorder(d, faults) as rec:
            x.run()
        return rec, x

    @staticmethod
    def judge(case, out, x, may_fail):
        "false: nothing was given to the optimiser, or something wrong was"
        if not x.given:
            if x.error is None:
                out.violate('silent', 'the script ended without an error and '
                            'without a run')
            elif not may_fail:
                out.violate('error', 'running the set-up: %s: %s' % (
                    type(x.error).__name__,
                    ' '.join(str(x.error).split())[:200]))
            return False
        if len(x.given) > 1 or x.error is not None:
            out.violate('error', '%d runs of the optimiser, %r' % (
                len(x.given), x.error))
            return False
        bad = misread(case['problem'], x.setup(), case['script'])
        if bad:
            out.violate('silent' if may_fail else 'misread', bad)
            return False
        return True

    def failed_save(self, case, out, d, path, s):
        "a disk fault while the set-up is saved, then the run"
        spare = os.path.join(d, 'spare')
        os.mkdir(spare)
        with W.quiet():
            t = W.build(case['problem'])
        with fsim.Recorder(spare) as rec:
            save_setup(t, os.path.join(spare, 'in.xlsx'), case['flags'])
        f = dict(case['fault'], at=int(case['at']*rec.count))
        err = None
        with fsim.Recorder(d, [f]) as rec:
            try:
                save_setup(s, path, case['flags'])
            except Exception as e:
                err = e
        if not rec.struck:
            return
        rec.note(out)
        out.nontrivial = True
        _, x = self.start(case, d, path)
        out.event('save', f, type(err).__name__, len(x.given),
                  type(x.error).__name__)
        if err is None and not x.given:
            out.violate('silent', 'a failure while saving the set-up was not '
                        'reported and the set-up cannot be run: %r' % x.error)
            return
        self.judge(case, out, x, err is not None)

    def refused(self, case, out, d, path):
        "a results file is there and the user wants to keep it"
        _, x = self.start(case, d, path)
        name = x.setup().filename
        mine = os.path.join(d, os.path.basename(str(name)))
        with open(mine, 'wb') as f:
            f.write(b'older results')
        y = Script(case['script'], path, answer='n').run()
        out.count('fault:consent refused')
        out.nontrivial = True
        out.event('refuse', y.asked, len(y.given), type(y.error).__name__)
        if y.given or not y.asked:
            out.violate('consent', 'the optimiser was started although the '
                        'user refused' if y.asked else 'the user was not '
                        'asked before older results are overwritten')
        elif open(mine, 'rb').read() != b'older results':
            out.violate('consent', 'older results changed without consent')

    @staticmethod
    def penalties(p, st, sst, path):
        "the penalties saved for a design given with the set-up"
        c = p['constraints']
        view = dict(book.read_file(path))
        mp = {v: view['Multipanel'].get((r, 2))
              for (r, k), v in view['Multipanel'].items() if k == 1}
        lay = [sst[i] for i in st.first]
        want = oracle.spacing_penalty(lay, st, c)
        if far(float(mp['Penalty spacing']), want):
            return 'spacing penalty %r instead of %r' % (
                mp['Penalty spacing'], want)
        head = {v: k for (r, k), v in view['Panels'].items() if r == 1}
        for i, row in enumerate(sst):
            ss = [x for x in row if x != -1]
            n = len(ss)
            lp = oracle.lampam(ss)
            want = {
                'Penalty disorientation': oracle.n_diso(ss, c)/n
                if c['diso'] else 0,
                'Penalty contiguity': oracle.contig_count(ss, c)/n,
                'Penalty balance': (abs(lp[2]) + abs(lp[3]))/2
                if c['bal'] else 0,
                'Penalty out-of-plane orthotropy': (
                    abs(lp[10]) + abs(lp[11]))/2 if c['oopo'] else 0,
                'Penalty 10% rule': oracle.penalty_10(ss, c)}
            for k, v in want.items():
                x = view['Panels'].get((i + 2, head[k]))
                if v is not None and far(float(x), v, 1e-3 if '10%' in k
                                         else 1e-9):
                    return 'panel %d: %s %r instead of %r' % (i + 1, k, x, v)
        return None

    @staticmethod
    def compare_runs(case, out, d, s, x):
        "the optimiser on the problem read and on the problem as it was"
        got = x.setup()
        # workbooks hold 16 significant digits, of the effective weightings
        for a in s.multipanel.panels:
            a.lampam_target = short(a.lampam_target)
            a.lampam_weightings_ini = short(a.lampam_weightings)
        with W.quiet():
            from src.BELLA.parameters import Parameters
            got.parameters = Parameters(constraints=got.constraints,
                                        **case['problem']['params'])
        res = []
        for k, t in enumerate((s, got)):
            w = simulate(case, d, setup=t, name='r%d.xlsx' % k, save=False)
            world.note(w, out)
            res.append(w)
        a, b = res
        out.event('runs', W.describe(a.error) if a.error else
                  a.result['obj_constraints_tab'])
        if (a.error is None) != (b.error is None):
            out.violate('other run', 'run from the workbook: %s, directly: %s'
                        % tuple('a design' if w.error is None else
                                W.describe(w.error) for w in (b, a)))
        elif a.error is None:
            out.count('pairs of runs compared')
            out.nontrivial = True
            dif = world.first_difference(b.result, a.result)
            if dif:
                out.violate('other run', 'run from the workbook, %s' % dif)
