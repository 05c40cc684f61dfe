"""P21: given designs reported as they are (format_restults_FXI scripts)"""
import builtins
import io
import os
import random
import runpy
import sys

import numpy as np
import openpyxl

from .. import book, clock, core, fsim, oracle, workload as W, world
from ..core import Check
from ..layouts import gen_layout
from ..world import gen_world
from .layoutfile import sheet_data_spans
from .saved import blocks, compare, differs, expected_panels, \
    expected_results, expected_setup, table
from .setups import save_setup

SCRIPTS = {'SST': 'FXI-results/format_restults_FXI_SST_1.py',
           'horseshoe': 'FXI-results/format_restults_FXI_horseshoe.py'}


class Report:
    "runs a format_restults_FXI script on a set-up and a design"

    def __init__(self, script, setup, design, answer='y'):
        self.script, self.setup, self.design = script, setup, design
        self.answer, self.asked, self.error = answer, 0, None

    def to(self, f):
        if isinstance(f, (str, os.PathLike)):
            if '/BELLA/input-files/' in str(f):
                return self.setup
            if '/BELLA/FXI-results/' in str(f):
                return self.design
        return f

    def run(self):
        keep = builtins.open, io.open, builtins.input
        path = list(sys.path)

        def opened(file, *a, **k):
            return keep[0](self.to(file), *a, **k)

        def answered(prompt=''):
            self.asked += 1
            return self.answer
        builtins.open = io.open = opened
        builtins.input = answered
        try:
            with W.quiet():
                runpy.run_path(os.path.join(core.REPO, self.script))
        except core.Hang:
            raise
        except (Exception, SystemExit) as e:
            self.error = e
        finally:
            builtins.open, io.open, builtins.input = keep
            sys.path[:] = path
        return self


def gen_design(R, p, st):
    """a stacking-sequence table, one row per distinct ply count, and its rows
    for each panel"""
    c = p['constraints']
    ang = c['set_of_angles']
    few = [R.choice(ang) for _ in range(R.choice([1, 2, 4, 8]))]
    n = st.counts[-1]
    layout = gen_layout(R, st, c)
    if R.random() < .3:                       # ply drops anywhere
        free = list(range(n))
        R.shuffle(free)
        layout = [[0 if i in set(free[:k]) else -1 for i in range(n)]
                  for k in st.counts]
    if R.random() < .7:
        half = [R.choice(few) for _ in range(n//2)]
        ss = half + half[::-1]
    else:
        ss = [R.choice(few) for _ in range(n)]
    return [[-1 if x == -1 else a for x, a in zip(row, ss)] for row in layout]


def write_design(path, rows, R):
    """the workbook of a design: a column per panel, a row per ply; thicker
    panels that are not in the structure and blank rows are left out"""
    wb = openpyxl.Workbook()
    ws = wb.active
    ws.title = 'Best result FXI'
    cols = [r for r in rows for _ in range(R.choice([1, 1, 1, 2]))]
    if R.random() < .5:
        R.shuffle(cols)
    else:
        cols.reverse()
    blank = set()
    n = len(rows[0])
    if R.random() < .2:                       # a position without any ply
        blank = {R.randrange(n + 1)}
    ws.append(['sst_%2d' % (i + 1) for i in range(len(cols))])
    for k in range(n):
        if k in blank:
            for i in range(len(cols)):
                ws.cell(ws.max_row + (i == 0), i + 1, -1)
        ws.append([None if c[k] == -1 else c[k] for c in cols])
    if R.random() < .5:
        ws = wb.create_sheet('Parameters FXI')
        ws.append(['sym', 'bal'])
        ws.append([1, 1])
    wb.save(path)


def as_read(p, name):
    "the problem as the script reads it"
    k = range(len(p['n_plies']))
    q = dict(p)
    q['lampam_weights'] = [oracle.effective_weights(p, i) for i in k]
    q['targets'] = [oracle.effective_target(p, i) for i in k]
    if name == 'SST':
        q.update(lengths=[[0, 0] for _ in k], loads=[[0, 0] for _ in k],
                 areas=[0 for _ in k])
    q['params'] = dict(p['params'], save_buckling=any(q['loads'][0]))
    return q


def expected_report(p, name, rows, st):
    q = as_read(p, name)
    sheets = expected_setup(q, 1)
    del sheets['Parameters']
    sst = [rows[j] for j in st.of_panel]
    ss = [[x for x in r if x != -1] for r in sst]
    d = dict(ss_tab=[ss], sst_tab=[sst], obj_no_constraints_tab=[[0]*len(ss)],
             obj_constraints_tab=[0], penalty_spacing_tab=[
                 oracle.spacing_penalty(rows, st, p['constraints'])])

    class Raw:
        n_obj_func_calls_tab = [0]
    res = expected_results(q, d, Raw, 0, None)
    for r in res:
        for k in ('obj_no_constraints', 'obj_constraints',
                  'n_obj_func_calls'):
            r.pop(k, None)
    return sheets, expected_panels(q), res


def check_report(view, p, name, rows, st, whole=True):
    "what is wrong with a report; whole=False: sheets may be missing"
    want, panels, res = expected_report(p, name, rows, st)
    sheets = dict(view)
    for s in list(want) + ['Panels', 'Best Result']:
        if s not in sheets:
            if whole:
                return 'no sheet %r' % s
            continue
        cells = sheets[s]
        if s == 'Panels':
            bad = compare(table(cells)[1], panels, 'Panels')
            if bad:
                return bad
        elif s == 'Best Result':
            got = blocks(cells)
            if len(got) != 1:
                return '%d designs in sheet Best Result' % len(got)
            bad = compare(got[0], res, 'Best Result')
            if bad:
                return bad
            if not as_read(p, name)['params']['save_buckling'] and any(
                    'lambda buckling' in r for r in got[0]):
                return 'buckling factors without loads'
        else:
            got = {v: cells.get((r, 2)) for (r, c), v in cells.items()
                   if c == 1}
            for k, v in want[s].items():
                if k not in got:
                    return 'sheet %r has no %r' % (s, k)
                if differs(got[k], v):
                    return '%s, %s: %r instead of %r' % (s, k, got[k], v)
    other = set(sheets) - set(want) - {'Panels', 'Best Result'}
    if other:
        return 'sheets %s' % sorted(other)
    return None


class P21(Check):
    id = 'P21'
    technique = ('deterministic simulation of the reporting of given designs '
                 'on a failing disk, recomputation oracle for every value')
    note_text = ('Designs are random stacking-sequence tables; every value of '
                 'the report is recomputed from the table and the problem.')
    rule = ('random problems and designs in the workbooks that the scripts '
            'format_restults_FXI_*.py read: cleanly, with one of the two '
            'workbooks failing, short, altered or truncated, without a '
            'thickness of the structure, with a disk fault while the report '
            'is saved (then repeated), or refused by the user; non-trivial: '
            'a fault struck or three panels or more')
    n_quick = 900
    n_thorough = 14000
    cpu = 90
    budget = {'quick': 150, 'thorough': 840}
    shim = True
    real = ['FXI-results/format_restults_FXI_SST_1.py',
            'FXI-results/format_restults_FXI_horseshoe.py',
            'src/BELLA/save_set_up.py, save_result.py, results.py, '
            'format_pdl.py, panels.py, multipanels.py, constraints.py',
            'src/guidelines', 'src/buckling/buckling.py',
            'src/divers/excel.py', 'pandas', 'openpyxl']
    stub = ['disk: failing, short and altered calls through the libc seam',
            'the directories /BELLA/input-files and /BELLA/FXI-results',
            'user at the prompt', 'clock', 'random stream',
            'src.CLA (absent from the repository)']
    assumptions = ['even ply counts; one stacking sequence per ply count',
                   'boundary weightings are not part of a set-up workbook',
                   'bits are flipped inside the contents of work sheets']

    def gen(self, R, tier):
        mode = R.choice(['clean', 'clean', 'clean', 'clean', 'errno', 'short',
                         'truncate', 'flip', 'transit', 'missing', 'save',
                         'save', 'save', 'refuse'])
        c = gen_world(R, tier, small=R.random() < .8, without=('area',))
        p = c['problem']
        p['boundary_weights'] = None
        p['objf']['coeff_bal_ipo'] = 1
        if R.random() < .2:
            p['loads'][0] = [0, 0]
        c.update(mode=mode, script=R.choice(sorted(SCRIPTS)),
                 of=R.choice(['setup', 'design']), old=R.random() < .3,
                 retry=R.random() < .5, seed=R.randrange(1 << 30),
                 at=round(R.random(), 4), which=R.randrange(256))
        if mode == 'errno':
            c['fault'] = dict(kind='errno', at=0, err=R.choice(
                ['EIO', 'EIO', 'EINTR', 'EACCES']), ops=[R.choice(
                    ['read', 'read', 'read', 'open'])])
        if mode == 'short':
            c['fault'] = dict(kind='short', at=0, ops=['read'],
                              arg=R.choice([1, 10, 50, 90]))
        if mode == 'transit':
            c['fault'] = dict(kind='flip', at=0, ops=['read'],
                              arg=R.randrange(1 << 14))
        if mode == 'save':
            c['fault'] = R.choice([
                dict(kind='errno', err=R.choice(['EIO', 'ENOSPC', 'EDQUOT'])),
                dict(kind='errno', err='EIO', ops=[R.choice(
                    ['write', 'rename', 'fsync', 'open', 'close'])]),
                dict(kind='dead'), dict(kind='full')])
        return c

    def shrink(self, case):
        if case['mode'] != 'clean':
            yield dict(case, mode='clean')
        if case['old']:
            yield dict(case, old=False)
        for c in world.shrink_world(case):
            if c['problem']['objf']['coeff_bal_ipo'] == 1:
                yield c

    def run(self, case, out, scratch):
        clock.use(clock.SimClock())
        R = random.Random(case['seed'])
        p, mode = case['problem'], case['mode']
        top = os.path.realpath(scratch)
        inp, d = os.path.join(top, 'in'), os.path.join(top, 'd')
        os.mkdir(inp)
        os.mkdir(d)
        os.chdir(d)
        paths = {}
        for k in ('setup', 'design'):
            os.mkdir(os.path.join(inp, k))
            paths[k] = os.path.join(inp, k, k + '.xlsx')
        with W.quiet():
            s = W.build(p)
        save_setup(s, paths['setup'], dict(buckling=False, autofit=False))
        st = oracle.Strip(p)
        rows = gen_design(R, p, st)
        given = rows
        if mode == 'missing':
            i = R.randrange(len(rows))
            given = rows[:i] + rows[i + 1:]
            if not given:
                given = [[0]*(len(rows[0]) + 2)]
        write_design(paths['design'], given, R)
        out.event(core.canonical(p), rows)
        name = case['script']
        target = paths[case['of']]
        data = open(target, 'rb').read()
        if mode == 'truncate':
            data = data[:int(case['at']*len(data))]
        if mode == 'flip':
            o, n = R.choice(sheet_data_spans(data))
            k = o + R.randrange(n)
            data = data[:k] + bytes([data[k] ^ 1 << R.randrange(8)]) \
                + data[k + 1:]
        if mode in ('truncate', 'flip'):
            with open(target, 'wb') as f:
                f.write(data)
            out.count('fault:' + {'truncate': 'truncated file',
                                  'flip': 'damaged sheet'}[mode])
        if mode == 'missing':
            out.count('fault:missing thickness')
        res = os.path.join(d, 'results_FXI_' + {
            'SST': 'SST-40-60', 'horseshoe': 'horseshoe'}[name] + '.xlsx')
        old = case['old'] or mode == 'refuse'
        if old:
            with open(res, 'wb') as f:
                f.write(b'older results')
        before = fsim.snapshot(inp)
        if mode == 'refuse':
            x = Report(SCRIPTS[name], paths['setup'], paths['design'], 'n').run()
            out.count('fault:consent refused')
            out.nontrivial = True
            if not x.asked:
                out.violate('consent', 'the user was not asked before older '
                            'results are overwritten')
            elif fsim.snapshot(d) != {res: b'older results'}:
                out.violate('consent', 'older results changed although the '
                            'user refused')
            return
        faults = []
        if mode in ('errno', 'short', 'transit'):
            watch = os.path.join(top, 'trial')
            os.mkdir(watch)
            os.chdir(watch)
            rec, _ = self.start(name, paths, os.path.dirname(target))
            os.chdir(d)
            at = self.places(rec, case, data)
            if not at:
                out.event('no such call')
                return
            faults = [dict(case['fault'], at=at[case['which'] % len(at)])]
        if mode == 'save':
            spare = os.path.join(top, 'spare')
            os.mkdir(spare)
            os.chdir(spare)
            rec, _ = self.start(name, paths, spare)
            os.chdir(d)
            faults = [dict(case['fault'], at=int(case['at']*rec.count))]
        rec, x = self.start(name, paths, d if mode == 'save' else
                            os.path.dirname(target), faults)
        rec.note(out)
        struck = rec.struck or mode in ('truncate', 'flip', 'missing')
        out.nontrivial = struck or len(p['n_plies']) > 2
        out.event(mode, name, faults, type(x.error).__name__)
        if fsim.snapshot(inp) != before:
            out.violate('inputs', 'reporting changed the set-up or the design')
            return
        if old and not x.asked:
            out.violate('consent', 'the user was not asked before older '
                        'results are overwritten')
            return
        may_fail = struck and mode != 'short'
        if x.error is not None and not may_fail:
            out.violate('error', 'reporting a design: %s' % W.describe(x.error))
            return
        if x.error is None and mode == 'missing':
            out.violate('silent', 'a report without an error although the '
                        'design has no laminate for one of the panels')
            return
        if not self.judge(case, out, x, res, rows, st):
            return
        if mode == 'save' and x.error is not None and case['retry']:
            y = Report(SCRIPTS[name], paths['setup'], paths['design']).run()
            if y.error is not None:
                out.violate('repeat', 'the report repeated after a failure '
                            'while saving: %s' % W.describe(y.error))
            elif self.judge(case, out, y, res, rows, st):
                out.count('reports repeated after a failure')

    @staticmethod
    def judge(case, out, x, res, rows, st):
        try:
            data = open(res, 'rb').read()
        except OSError:
            data = None
        if data in (None, b'older results'):
            if x.error is None:
                out.violate('silent', 'the script ended without an error and '
                            'without a report')
            return x.error is not None
        try:
            view = book.read(data)
        except book.Unreadable as e:
            out.violate('unreadable', 'the report cannot be read: %s' % e)
            return False
        try:
            bad = check_report(view, case['problem'], case['script'], rows,
                               st, x.error is None)
        except (KeyError, IndexError, TypeError, ValueError,
                ZeroDivisionError) as e:
            bad = 'the report cannot be judged (%s: %s)' % (
                type(e).__name__, e)
        if x.error is None:
            out.count('reports compared')
            out.count('cells compared', sum(len(c) for _, c in view))
        if bad:
            out.violate('misreported', bad)
            return False
        return True

    @staticmethod
    def start(name, paths, watched, faults=()):
        x = Report(SCRIPTS[name], paths['setup'], paths['design'])
        with fsim.Recorder(watched, faults) as rec:
            x.run()
        return rec, x

    @staticmethod
    def places(rec, case, data):
        "calls that the fault of a case can strike"
        kinds = [fsim.NAMES.index(x) for x in case['fault']['ops']]
        at = [i for i, o in enumerate(rec.ops) if o[0] in kinds]
        if case['mode'] == 'transit':
            spans = sheet_data_spans(data)
            at = [i for i in at if any(
                o <= rec.ops[i][3] and rec.ops[i][3] + rec.ops[i][4] <= o + n
                for o, n in spans)]
        return at
