"""P22: set-ups made of given designs (create_input_file scripts)"""
import io
import os
import random

import numpy as np
import openpyxl

from .. import book, clock, core, fsim, oracle, workload as W
from ..core import Check
from .layoutfile import sheet_data_spans
from .reports import Report
from .runs import far
from .saved import compare, differs, expected_panels, expected_setup, table

SCRIPTS = {'SST': 'input-files/create_input_file_SST.py',
           'horseshoe2': 'input-files/create_input_file_horseshoe2.py'}
SHEET = {'SST': 'SST-120-180', 'horseshoe2': 'horseshoe2'}
# the guidelines of both scripts
C = dict(sym=True, bal=True, oopo=False, dam_tol=True, dam_tol_rule=1,
         covering=True, n_covering=1, rule_10_percent=True,
         rule_10_Abdalla=True, percent_Abdalla=10, percent_0=0, percent_45=0,
         percent_90=0, percent_135=0, percent_45_135=0, diso=True,
         delta_angle=45, contig=True, n_contig=5, pdl_spacing=True,
         min_drop=2, set_of_angles=W.ANG12)
# the structure of the horseshoe
PLIES = [32, 28, 20, 18, 16, 22, 18, 24, 38, 34, 30, 28, 22, 18, 24, 30, 18,
         22]
NEIGHBOURS = [[2, 9], [1, 3, 6, 10], [2, 4, 6], [3, 5, 7], [4, 8], [2, 3, 7],
              [4, 6, 8], [5, 7], [1, 10, 11], [2, 9, 12], [9, 12],
              [10, 11, 13, 16], [12, 14, 16], [13, 15, 17], [14, 18],
              [12, 13, 17], [14, 16, 18], [15, 17]]
WIDE = (0, 1, 8, 9, 10, 11)               # indices of the larger panels
N_X = [700, 375, 270, 250, 210, 305, 290, 600, 1100, 900, 375, 400, 330, 190,
       300, 815, 320, 300]
N_Y = [400, 360, 325, 200, 100, 360, 195, 480, 600, 400, 525, 320, 330, 205,
       610, 1000, 180, 410]


class Creation(Report):
    """a run of a script; guidelines that differ from those written in it are
    given by replacing the settings that it passes to Constraints"""

    def __init__(self, case, design, answer='y'):
        Report.__init__(self, SCRIPTS[case['script']], design, design, answer)
        self.constraints = case['constraints']

    def run(self):
        import src.BELLA.constraints as m
        keep = m.Constraints

        def other(**kw):
            kw.pop('combine_45_135', None)
            kw.update(self.constraints)
            kw['set_of_angles'] = np.array(kw['set_of_angles'])
            return keep(**kw)
        try:
            if self.constraints != C:
                m.Constraints = other
            return Report.run(self)
        finally:
            m.Constraints = keep


def laminate(row):
    return [x for x in row if x != -1]


def mirrored(half):
    return half + half[::-1]


def faults_of(half, c):
    "guidelines that the laminate of a half row violates"
    ss = mirrored(laminate(half))
    if len(ss) < 4:
        return ['empty']
    return oracle.guidelines(ss, c)


def spacing(sst, bounds, c):
    class Pairs:
        bweights = {b: 1 for b in bounds}
    return oracle.spacing_penalty(sst, Pairs, c)


def descent(R, n):
    "plies whose angle falls by equal steps from ply to ply, from 45 degrees"
    step = R.choice([15, 15, 30, 45])
    k = 180//step
    one = [(45 - step*i + 89) % 180 - 89 for i in range(k)]
    if R.random() < .5:
        one = [-x if abs(x) < 90 else x for x in one]
    return (one*(n//k + 1))[:n]


def blocks(R, m, e):
    "blocks of m equal plies, and e in the middle"
    s = R.choice([1, -1])
    return [45*s]*R.choice([m, min(m, 5)]) + [0]*m + [-45*s]*m + [90]*e


def long_run(R, rows):
    "too many equal plies next to each other in the thicker panels"
    half = blocks(R, *R.choice([(6, 1), (6, 2), (7, 2), (3, 3), (2, 3),
                                (5, 3)]))
    zeros = [i for i, x in enumerate(half) if x in (0, 90)]
    k = R.choice([0, R.randrange(len(rows))])
    return [without(half, {R.choice(zeros)})]*k + [half]*(len(rows) - k)


def base(R, n, c):
    "a half laminate that satisfies the guidelines, or None"
    for _ in range(12):
        half = descent(R, n)
        if R.random() < .3:
            half = blocks(R, R.choice([1, 2, 3, 5]), R.choice([1, 1, 2]))
            half = (half*n)[:n]
        half = [x if x in c['set_of_angles'] else 0 for x in half]
        bad = faults_of(half, c)
        for _ in range(150):
            if not bad:
                return half
            new = change(R, half, c)
            b = faults_of(new, c)
            if len(b) <= len(bad):
                half, bad = new, b
    return None


def change(R, half, c):
    new = list(half)
    i, j = R.randrange(len(half)), R.randrange(len(half))
    if R.random() < .6:
        new[i], new[j] = new[j], new[i]
    else:
        new[i] = R.choice(c['set_of_angles'])
        new[j] = new[i] if new[i] in (0, 90) else -new[i]
    return new


def vary(R, half, c):
    for _ in range(R.choice([0, 5, 30])):
        new = change(R, half, c)
        if not faults_of(new, c):
            half = new
    return half


def without(row, gone):
    return [-1 if i in gone else x for i, x in enumerate(row)]


def gen_sst(R, c):
    "half rows of 16 panels that satisfy all guidelines, or None"
    n = R.choice([12, 24, 24, 36])
    half = base(R, n, c)
    if half is None:
        return None
    half = vary(R, half, c)
    m = oracle.n_covering(c)
    rows = [half]
    for _ in range(15):
        row = rows[-1]
        new = row
        if R.random() < .8:
            for _ in range(12):
                i, j = R.randrange(m, n), R.randrange(m, n)
                if row[i] == -1 or row[j] == -1:
                    continue
                gone = {i} if row[i] in (0, 90) or not c['bal'] else {i, j}
                if len(gone) == 2 and row[j] != -row[i]:
                    continue
                x = without(row, gone)
                if not faults_of(x, c) and not spacing(
                        [mirrored(x), mirrored(row)], [(0, 1)], c):
                    new = x
                    break
        rows.append(new)
    return rows[::-1]


def gen_horseshoe(R, c):
    "half rows for all thicknesses of the horseshoe, or None"
    for _ in range(10):
        half = base(R, 19, c)
        if half is None:
            return None
        rows = [vary(R, half, c)]
        while len(laminate(rows[-1])) > 8:
            row = rows[-1]
            can = [i for i in range(1, 19) if row[i] != -1]
            R.shuffle(can)
            for i in can:
                x = without(row, {i})
                if not faults_of(x, c):
                    rows.append(x)
                    break
            else:
                break
        if len(laminate(rows[-1])) == 8:
            return rows[::-1]
    return None


def checked(name, c):
    "the guidelines that a script checks"
    return c if name == 'SST' else dict(c, bal=False)


def damage(R, rows, how, c):
    "another design, feasible or not, nested like the given one"
    rows = [list(r) for r in rows]
    n = len(rows[0])
    i, j = R.randrange(n), R.randrange(n)
    n_rows = len(rows)
    k = R.randrange(n_rows)
    full = rows[-1]

    def angle(pos, a):
        for r in rows:
            if r[pos] != -1:
                r[pos] = a
    if how == 'long':
        return long_run(R, rows)
    if how in ('swap', 'swap outer'):
        i = 0 if how == 'swap outer' else i
        a, b = full[i], full[j]
        angle(i, b)
        angle(j, a)
    elif how == 'angle':
        angle(i, R.choice(c['set_of_angles']))
    elif how == 'near':
        angle(i, full[max(0, i - 1)])
    elif how == 'negative':
        angle(i, -full[i] if abs(full[i]) < 90 else 0)
    elif how == 'repeat':
        i = R.randrange(n - 3)
        m = R.choice([3, 5, 6, 6, 7])
        for x in range(i, min(n, i + m)):
            angle(x, full[i])
    elif how == 'outer':
        angle(0, R.choice([0, 90, 30, -60, -45, 45]))
    elif how == 'cover':                       # an outer ply is dropped
        up = full
        for _ in range(40):
            i = R.randrange(max(1, oracle.n_covering(c)))
            gone = {i} if not c['bal'] or up[i] in (0, 90) else {
                i, R.choice([x for x in range(n) if up[x] == -up[i]] or [i])}
            x = without(up, gone)
            if not faults_of(x, c) and not spacing(
                    [mirrored(x), mirrored(up)], [(0, 1)], c):
                rows[:k + 1] = [x]*(k + 1)
                rows[k + 1:] = [up]*(n_rows - k - 1)
                break
        else:
            for r in rows[:k + 1]:
                r[i] = -1
    elif how == 'drop':
        for r in rows[:k + 1]:
            r[i] = -1
    elif how == 'order':
        x = R.randrange(len(rows))
        rows[k], rows[x] = rows[x], rows[k]
    elif how == 'tight':                       # ply drops next to each other
        k = R.randrange(len(rows) - 1)
        up = rows[k + 1]
        for _ in range(60):
            i = R.randrange(1, n - 3)
            gone = {x for x in range(i, min(n, i + R.choice([2, 2, 3, 4])))
                    if up[x] != -1}
            x = without(up, gone)
            if gone and not faults_of(x, c):
                rows[:k + 1] = [x]*(k + 1)
                break
    return rows


def only(R, rows, c):
    """plies turned and exchanged as long as no more than one guideline is
    violated, until some panel violates it"""
    g = R.choice([x for x, on in (
        ('balance', c['bal']), ('damage tolerance', c['dam_tol']),
        ('disorientation', c['diso']), ('contiguity', c['contig']),
        ('10% rule', c['rule_10_percent'])) if on] or ['none'])
    n = len(rows[0])
    angles = c['set_of_angles']
    if R.random() < (.9 if g == '10% rule' else .4):
        angles = [x for x in R.choice([
            [0, 15, -15], [45, -45], [45, -45, 30, -30, 0], [0, 90],
            [0, 90], [45, -45, 60, -60, 90], [0, 15, -15, 30, -30, 45, -45],
            [0, 90, 45, -45]]) if x in angles] or angles
    places = R.choice([range(n), range(n), [0, 1, 2], [1, 2], [n - 2, n - 1]])
    for _ in range(120):
        i = R.choice(places)
        j = R.choice([x for x in range(n) if x != i])
        a, b = rows[-1][i], rows[-1][j]
        if R.random() < .5:
            b, a = a, b
        else:
            a = R.choice(angles)
            if R.random() < .7:
                b = a if a in (0, 90) else -a
        if a not in c['set_of_angles'] or b not in c['set_of_angles']:
            continue
        new = [[x if x == -1 else a if p == i else b if p == j else x
                for p, x in enumerate(r)] for r in rows]
        bad = set()
        for r in new[0], new[len(new)//2], new[-1]:
            bad.update(faults_of(r, c))
        if bad <= {g}:
            rows = new
            if bad and R.random() < .5:
                break
    return rows


WAYS = {'SST': ('swap', 'angle', 'near', 'negative', 'repeat', 'outer', 'cover',
                'cover', 'drop', 'order', 'tight', 'tight', 'long', 'long', 'swap outer')
        + ('only',)*8,
        'horseshoe2': ('swap', 'angle', 'near', 'negative', 'repeat', 'outer',
                       'swap outer') + ('only',)*6}


def judge_design(name, rows, c):
    "what a design of half rows violates; None: too close to tell"
    bad = set()
    for r in rows:
        if len(laminate(r)) < 2:
            return None
        if c['rule_10_percent'] and c['rule_10_Abdalla']:
            g = oracle.abdalla_region(mirrored(laminate(r)), c)
            if min(abs(x) for x in g) < 1e-6:
                return None
        bad.update(faults_of(r, checked(name, c)))
    if name == 'SST':
        sst = [mirrored(r) for r in rows]
        m = oracle.n_covering(c)
        if any(-1 in r[:m] for r in sst):
            bad.add('covering')
        if spacing(sst, [(i, i + 1) for i in range(len(sst) - 1)], c) > 0:
            bad.add('spacing')
    return sorted(bad)


def problem(name, rows, c):
    "the problem that a script makes of a design, and its table"
    inch = 25.40/1000
    if name == 'SST':
        sst = [mirrored(r) for r in rows]
        n = len(sst)
        p = dict(ids=list(range(1, n + 1)), lengths=[[0, 0]]*n,
                 loads=[[0, 0]]*n, neighbours=[[2]] + [
                     [i, i + 2] for i in range(1, n - 1)] + [[n - 1]])
    else:
        by = {2*len(laminate(r)): mirrored(r) for r in rows}
        sst = [by[k] for k in PLIES]
        n = len(sst)
        p = dict(ids=list(range(1, n + 1)), neighbours=NEIGHBOURS,
                 lengths=[[inch*18, inch*24] if i in WIDE else
                          [inch*20, inch*12] for i in range(n)],
                 loads=[[175.127*a, 175.127*b] for a, b in zip(N_X, N_Y)])
    w = [1., 1, 1, 1, 0, 0, 0, 0, 1, 1, 1, 1]
    if set(c['set_of_angles']) <= oracle.SET4:
        w[3] = w[11] = 0
    p.update(
        constraints=c, areas=[0]*n, weightings=[1]*n, lampam_weights=[w]*n,
        n_plies=[len(laminate(r)) for r in sst],
        targets=[oracle.lampam(laminate(r)) for r in sst],
        objf=dict(coeff_contig=1, coeff_diso=10, coeff_10=1, coeff_oopo=1,
                  coeff_spacing=1, coeff_bal_ipo=1),
        mat=dict(E11=20.5/1.45038e-10, E22=1.31/1.45038e-10, nu12=.32,
                 G12=.62/1.45038e-10, density_area=300.5, ply_t=inch*.0075),
        params=W.gen_params(random.Random(0), dict(n_plies=[8, 10])))
    return p, sst


def check_setup(view, p, sst, whole=True):
    "what is wrong with the set-up made of a design"
    want = expected_setup(p, 1)
    del want['Parameters']
    del want['Multipanel']['Weight']
    pairs = oracle.boundaries(p)
    c = p['constraints']
    want['Multipanel']['Penalty spacing'] = spacing(sst, pairs, c)
    rows = expected_panels(p)
    for r, full in zip(rows, sst):
        ss = laminate(full)
        lp, n = oracle.lampam(ss), len(ss)
        r.update({
            'Penalty disorientation': oracle.n_diso(ss, c)/n
            if c['diso'] else 0,
            'Penalty contiguity': oracle.contig_count(ss, c)/n,
            'Penalty 10% rule': 0,
            'Penalty balance': (abs(lp[2]) + abs(lp[3]))/2 if c['bal'] else 0,
            'Penalty out-of-plane orthotropy': (
                abs(lp[10]) + abs(lp[11]))/2 if c['oopo'] else 0})
    sheets = dict(view)
    for s in list(want) + ['Panels']:
        if s not in sheets:
            if whole:
                return 'no sheet %r' % s
            continue
        cells = sheets[s]
        if s == 'Panels':
            bad = compare(table(cells)[1], rows, 'Panels')
            if bad:
                return bad
            continue
        got = {v: cells.get((r, 2)) for (r, c), v in cells.items() if c == 1}
        for k, v in want[s].items():
            if k not in got:
                return 'sheet %r has no %r' % (s, k)
            if differs(got[k], v):
                return '%s, %s: %r instead of %r' % (s, k, got[k], v)
    other = set(sheets) - set(want) - {'Panels'}
    return 'sheets %s' % sorted(other) if other else None


def write(path, name, rows, R, missing=None):
    "the workbook of a design: a column per panel, a row per ply of one half"
    cols = []
    for i, r in enumerate(rows):
        cols.append(r)
        if name == 'SST' and i < len(rows) - 1:       # not used by the script
            cols.append(R.choice([rows[i], rows[i + 1]]))
    if missing is not None:
        del cols[missing]
    elif name != 'SST' and R.random() < .5:
        R.shuffle(cols)
    wb = openpyxl.Workbook()
    names = [SHEET[name]] + R.sample(['SST-40-60', 'SST-80-120', 'other'],
                                     R.choice([0, 1, 2]))
    R.shuffle(names)
    wb.remove(wb.active)
    for x in names:
        ws = wb.create_sheet(x)
        mine = cols if x == SHEET[name] else [
            [R.choice(W.ANG12) for _ in r] for r in cols]
        ws.append(['sst_%2d' % (i + 1) for i in range(len(mine))])
        for k in range(len(mine[0])):
            ws.append([None if c[k] == -1 else c[k] for c in mine])
    wb.save(path)


class P22(Check):
    id = 'P22'
    technique = ('deterministic simulation of the creation of set-ups from '
                 'given designs on a failing disk, guideline oracle')
    note_text = ('Whether a design satisfies the guidelines is decided by the '
                 'independent definitions; designs within 1e-6 of the border '
                 'of the 10% region are left out.')
    rule = ('random designs that satisfy the guidelines, and designs derived '
            'from them by exchanging, turning, repeating or dropping plies, '
            'given to create_input_file_SST.py and _horseshoe2.py: cleanly, '
            'with the workbook failing, short, altered, truncated or without '
            'a laminate, with a disk fault while the set-up is saved (then '
            'repeated), or refused; non-trivial: a design that violates a '
            'guideline or a fault that struck')
    n_quick = 900
    n_thorough = 9000
    cpu = 90
    budget = {'quick': 150, 'thorough': 840}
    shim = True
    real = ['input-files/create_input_file_SST.py',
            'input-files/create_input_file_horseshoe2.py',
            'src/guidelines/one_stack.py and the guideline functions',
            'src/BELLA/save_set_up.py, format_pdl.py, panels.py, '
            'multipanels.py, constraints.py', 'src/divers/excel.py',
            'pandas', 'openpyxl']
    stub = ['disk: failing, short and altered calls through the libc seam',
            'the directory /BELLA/input-files', 'user at the prompt', 'clock',
            'src.CLA (absent from the repository)']
    assumptions = ['the guidelines are those written in the scripts',
                   'plies of thinner panels are plies of thicker panels',
                   'bits are flipped inside the contents of work sheets']

    def gen(self, R, tier):
        mode = R.choice(['clean']*3 + ['broken']*8 + [
            'errno', 'short', 'truncate', 'flip', 'transit', 'missing',
            'save', 'save', 'refuse'])
        name = R.choice(sorted(SCRIPTS))
        g = C
        if R.random() < .6:
            g = W.gen_constraints(R)
            if g['rule_10_percent'] and R.random() < .5:
                g.update(rule_10_Abdalla=True,
                         percent_Abdalla=R.choice([5, 10, 10]))
        make = gen_sst if name == 'SST' else gen_horseshoe
        rows = make(R, checked(name, g))
        while rows is None:
            g = C
            rows = make(R, checked(name, g))
        series = []
        if mode == 'broken':
            for _ in range(12):
                x = rows
                for _ in range(R.choice([1, 1, 1, 2])):
                    how = R.choice(WAYS[name])
                    x = only(R, x, checked(name, g)) if how == 'only' else \
                        damage(R, x, how, checked(name, g))
                if judge_design(name, x, g):
                    series.append(x)
            if series:
                rows = series.pop()
        c = dict(mode=mode, script=name, rows=rows, constraints=g,
                 series=series,
                 old=R.random() < .3,
                 retry=R.random() < .5, seed=R.randrange(1 << 30),
                 at=round(R.random(), 4), which=R.randrange(256))
        if mode == 'errno':
            c['fault'] = dict(kind='errno', at=0, err=R.choice(
                ['EIO', 'EIO', 'EINTR', 'EACCES']), ops=[R.choice(
                    ['read', 'read', 'read', 'open'])])
        if mode == 'short':
            c['fault'] = dict(kind='short', at=0, ops=['read'],
                              arg=R.choice([1, 10, 50, 90]))
        if mode == 'transit':
            c['fault'] = dict(kind='flip', at=0, ops=['read'],
                              arg=R.randrange(1 << 14))
        if mode == 'save':
            c['fault'] = R.choice([
                dict(kind='errno', err=R.choice(['EIO', 'ENOSPC', 'EDQUOT'])),
                dict(kind='errno', err='EIO', ops=[R.choice(
                    ['write', 'rename', 'fsync', 'open', 'close'])]),
                dict(kind='dead'), dict(kind='full')])
        return c

    def shrink(self, case):
        if case['mode'] not in ('clean', 'broken'):
            yield dict(case, mode='broken')
        if case['series']:
            yield dict(case, series=[])
            for x in case['series']:
                yield dict(case, rows=x, series=[])
        if case['old']:
            yield dict(case, old=False)
        if case['script'] == 'SST':
            rows = case['rows']
            for i in range(len(rows) - 1):             # fewer thicknesses
                if rows[i] != rows[i + 1]:
                    yield dict(case, rows=rows[:i] + [rows[i + 1]]
                               + rows[i + 1:])

    def run(self, case, out, scratch):
        clock.use(clock.SimClock())
        R = random.Random(case['seed'])
        name, mode, rows = case['script'], case['mode'], case['rows']
        top = os.path.realpath(scratch)
        inp, d = os.path.join(top, 'in'), os.path.join(top, 'd')
        os.mkdir(inp)
        os.mkdir(d)
        os.chdir(d)
        path = os.path.join(inp, 'SST.xlsx')
        out.event(core.canonical(rows), core.canonical(case['constraints']))
        c = case['constraints']
        bad = judge_design(name, rows, c)
        if bad is None:
            out.event('too close to tell')
            return
        missing = None
        if mode == 'missing':
            used = [i for i, r in enumerate(rows) if name == 'SST' or
                    2*len(laminate(r)) in PLIES]
            missing = R.choice(used)
            out.count('fault:missing laminate')
        write(path, name, rows, R, missing)
        data = open(path, 'rb').read()
        if mode == 'truncate':
            data = data[:int(case['at']*len(data))]
        if mode == 'flip':
            o, n = R.choice(self.spans(data, name))
            k = o + R.randrange(n)
            data = data[:k] + bytes([data[k] ^ 1 << R.randrange(8)]) \
                + data[k + 1:]
        if mode in ('truncate', 'flip'):
            with open(path, 'wb') as f:
                f.write(data)
            out.count('fault:' + {'truncate': 'truncated file',
                                  'flip': 'damaged sheet'}[mode])
        res = os.path.join(d, 'input_file_%s.xlsx' % SHEET[name])
        old = case['old'] or mode == 'refuse'
        if old:
            with open(res, 'wb') as f:
                f.write(b'older set-up')
        if mode == 'refuse':
            x = Creation(case, path, 'n').run()
            out.count('fault:consent refused')
            out.nontrivial = True
            if not x.asked:
                out.violate('consent', 'the user was not asked before an '
                            'older set-up is overwritten')
            elif fsim.snapshot(d) != {res: b'older set-up'}:
                out.violate('consent', 'an older set-up changed although the '
                            'user refused')
            return
        faults = []
        if mode in ('errno', 'short', 'transit', 'save'):
            trial = os.path.join(top, 'trial')
            os.mkdir(trial)
            os.chdir(trial)
            rec, _ = self.start(case, path, trial if mode == 'save' else inp)
            os.chdir(d)
            if mode == 'save':
                at = [int(case['at']*rec.count)]
            else:
                at = self.places(rec, case, data, name)
            if not at:
                out.event('no such call')
                return
            faults = [dict(case['fault'], at=at[case['which'] % len(at)])]
        rec, x = self.start(case, path, d if mode == 'save' else inp, faults)
        rec.note(out)
        struck = rec.struck or mode in ('truncate', 'flip', 'missing')
        out.nontrivial = struck or bool(bad)
        out.event(mode, name, bad, faults, type(x.error).__name__)
        if open(path, 'rb').read() != data:
            out.violate('inputs', 'the workbook of the design changed')
            return
        if old and not x.asked:
            out.violate('consent', 'the user was not asked before an older '
                        'set-up is overwritten')
            return
        may_fail = struck and mode != 'short'
        if bad:
            for more in [None] + case['series']:
                if more:                # the user changes the design
                    bad = judge_design(name, more, c)
                    write(path, name, more, R)
                    x = Creation(case, path).run()
                    out.event(core.canonical(more), type(x.error).__name__)
                out.count('designs that violate a guideline')
                for b in bad:
                    out.count('violated%s: %s' % (
                        ' only'*(len(bad) == 1), b))
                if x.error is None or os.path.exists(res) \
                        and open(res, 'rb').read() != b'older set-up':
                    out.violate('accepted', 'a set-up was made of a design '
                                'that violates: %s' % ', '.join(bad))
                    return
            return
        if x.error is not None and not may_fail:
            out.violate('refused', 'a design that satisfies the guidelines: '
                        '%s' % W.describe(x.error))
            return
        if x.error is None and mode == 'missing':
            out.violate('silent', 'a set-up without an error although a '
                        'laminate of the design is missing')
            return
        if self.judge(case, out, x, res) and mode == 'save' and \
                x.error is not None and case['retry']:
            y = Creation(case, path).run()
            if y.error is not None:
                out.violate('repeat', 'creating the set-up again after a '
                            'failure while saving: %s' % W.describe(y.error))
            elif self.judge(case, out, y, res):
                out.count('set-ups created again after a failure')

    @staticmethod
    def judge(case, out, x, res):
        try:
            data = open(res, 'rb').read()
        except OSError:
            data = None
        if data in (None, b'older set-up'):
            if x.error is None:
                out.violate('silent', 'the script ended without an error and '
                            'without a set-up')
            return x.error is not None
        try:
            view = book.read(data)
        except book.Unreadable as e:
            out.violate('unreadable', 'the set-up cannot be read: %s' % e)
            return False
        p, sst = problem(case['script'], case['rows'],
                         case['constraints'])
        bad = check_setup(view, p, sst, x.error is None)
        if x.error is None:
            out.count('set-ups compared')
            out.count('cells compared', sum(len(c) for _, c in view))
        if bad:
            out.violate('other set-up', bad)
            return False
        return True

    @staticmethod
    def start(case, path, watched, faults=()):
        x = Creation(case, path)
        with fsim.Recorder(watched, faults) as rec:
            x.run()
        return rec, x

    @staticmethod
    def spans(data, name):
        "contents of the work sheet of the design"
        wb = openpyxl.load_workbook(io.BytesIO(data),
                                    read_only=True)
        i = wb.sheetnames.index(SHEET[name])
        return [sheet_data_spans(data)[i]]

    def places(self, rec, case, data, name):
        "calls that the fault of a case can strike"
        kinds = [fsim.NAMES.index(x) for x in case['fault']['ops']]
        at = [i for i, o in enumerate(rec.ops) if o[0] in kinds]
        if case['mode'] == 'transit':
            spans = self.spans(data, name)
            at = [i for i in at if any(
                o <= rec.ops[i][3] and rec.ops[i][3] + rec.ops[i][4] <= o + n
                for o, n in spans)]
        return at
