"""P05: what the results workbook says, on a working disk and on a failing one"""
import math
import os

from .. import book, fsim, oracle, workload as W, world
from ..core import Check
from ..steps import Interrupt, Lines
from ..world import gen_world, outcome, simulate
from .runs import EXC, far, tried


# ------------------------------------------------------------ what is expected
def kv(**kw):
    return kw


def expected_setup(p, n_layouts):
    "sheet -> {key: value} of the sheets without header"
    c, q, o = p['constraints'], p['params'], p['objf']
    pc = {k: c.get('percent_' + k, 0) for k in ('0', '45', '90', '135',
                                                '45_135')}
    used = oracle.percentages(c)
    pc = {k: 100*used[k] for k in pc}
    angles = sorted(c['set_of_angles'])
    st = {
        'symmetry': c['sym'], 'balance': c['bal'],
        'out-of-plane orthotropy': c['oopo'],
        'damage tolerance': c['dam_tol'], 'dam_tol_rule': c['dam_tol_rule'],
        'covering': c['covering'] or c['dam_tol'],
        'n_covering': oracle.n_covering(c),
        '10% rule': c['rule_10_percent'],
        '10% rule applied on LPs': c['rule_10_percent'] and
        c['rule_10_Abdalla'],
        '10% rule applied on ply percentages': c['rule_10_percent'] and
        not c['rule_10_Abdalla'],
        'percentage limit when rule applied on LPs': c['percent_Abdalla']
        if c['rule_10_percent'] and c['rule_10_Abdalla'] else 0,
        'percent_0': pc['0'], 'percent_45': pc['45'], 'percent_90': pc['90'],
        'percent_-45': pc['135'], 'percent_+-45': pc['45_135'],
        'diso': c['diso'], 'delta_angle': c['delta_angle'] if c['diso']
        else 180, 'contig': c['contig'],
        'n_contig': c['n_contig'] if c['contig'] else 1e10,
        'fibre orientations': ' '.join(map(str, angles)),
        'number fibre orientations': len(angles),
        'ply drop spacing rule': c['pdl_spacing'],
        'minimum number of continuous plies between ply drops': c['min_drop']}
    m = W.material(p)
    m['density_area'] = m['density_area'] or 300.5       # the default
    nu21 = m['nu12']*m['E22']/m['E11']
    k = 1/(1 - m['nu12']*nu21)
    q11, q22, q12, q66 = k*m['E11'], k*m['E22'], k*m['nu12']*m['E22'], m['G12']
    mat = {'E11': m['E11'], 'E22': m['E22'], 'G12': m['G12'],
           'nu12': m['nu12'], 'nu21': nu21, 'areal density': m['density_area'],
           'volumic density': m['density_area']/m['ply_t'],
           'ply thickness': m['ply_t'], 'Q11': q11, 'Q12': q12, 'Q22': q22,
           'Q66': q66}
    mat.update(zip(('U1', 'U2', 'U3', 'U4', 'U5'), invariants(m)))
    par = {'number of initial ply drops': n_layouts,
           'minimum group size': q['group_size_min'],
           'maximum group size': q['group_size_max'],
           'input number of plies in reference panel': q['n_plies_ref_panel']}
    for key in ('time_limit_group_pdl', 'time_limit_all_pdls',
                'global_node_limit', 'global_node_limit_final',
                'local_node_limit', 'local_node_limit_final',
                'repair_membrane_switch', 'repair_flexural_switch', 'p_A',
                'n_D1', 'n_D2', 'n_D3', 'global_node_limit2',
                'local_node_limit2', 'global_node_limit3',
                'local_node_limit3'):
        par[key] = q[key]
    n = p['n_plies']
    area = [s or a*b for s, (a, b) in zip(p['areas'], p['lengths'])]
    mp = {'Number of panels': len(n), 'Number of plies max': max(n),
          'Area': sum(area),
          'Area of all patches': sum(a*b for a, b in zip(area, n)),
          'Weight': m['density_area']*sum(a*b for a, b in zip(area, n)),
          'Index of one thickest panel': n.index(max(n))}
    of = {'optimisation problem': 'LP matching'}
    for k, rule in (('coeff_diso', 'diso'), ('coeff_contig', 'contig'),
                    ('coeff_10', 'rule_10_percent'), ('coeff_bal_ipo', 'bal'),
                    ('coeff_oopo', 'oopo'), ('coeff_spacing', 'pdl_spacing')):
        of[k] = o[k] if c[rule] else 0
    return {'Constraints': st, 'Materials': mat, 'Parameters': par,
            'Multipanel': mp, 'Objective function': of}


def invariants(m):
    nu21 = m['nu12']*m['E22']/m['E11']
    k = 1/(1 - m['nu12']*nu21)
    q11, q22, q12, q66 = k*m['E11'], k*m['E22'], k*m['nu12']*m['E22'], m['G12']
    return ((3*q11 + 3*q22 + 2*q12 + 4*q66)/8, (q11 - q22)/2,
            (q11 + q22 - 2*q12 - 4*q66)/8, (q11 + q22 + 6*q12 - 4*q66)/8,
            (q11 + q22 - 2*q12 + 4*q66)/8)


def bending(m, lp, n=None):
    u1, u2, u3, u4, u5 = invariants(m)
    a, b, c, d = lp[8:12]
    k = 1 if n is None else (n*m['ply_t'])**3/12
    return [k*x for x in (u1 + u2*a + u3*b, u4 - u3*b, u1 - u2*a + u3*b,
                          u5 - u3*b, u2*c/2 + u3*d, u2*c/2 - u3*d)]


def buckling(m, lp, n, size, load):
    d11, d12, d22, d66, _, _ = bending(m, lp, n)
    best = math.inf
    for i in range(1, 11):
        for j in range(1, 11):
            x, y = (i/size[0])**2, (j/size[1])**2
            best = min(best, math.pi**2*(
                d11*x*x + 2*(d12 + 2*d66)*x*y + d22*y*y)
                / (x*abs(load[0]) + y*abs(load[1])))
    return best


def expected_panels(p):
    rows = []
    for i, n in enumerate(p['n_plies']):
        r = {'Panel ID': p['ids'][i], 'Number of plies': n,
             'Weighting in MP objective funtion': p['weightings'][i],
             'Area': p['areas'][i] or p['lengths'][i][0]*p['lengths'][i][1],
             'N_x': p['loads'][i][0], 'N_y': p['loads'][i][1],
             'Neighbour panel IDs': ' '.join(map(str, p['neighbours'][i]))}
        if all(p['lengths'][i]):
            r['Length_x'], r['Length_y'] = p['lengths'][i]
        t, w = oracle.effective_target(p, i), oracle.effective_weights(p, i)
        for k in range(12):
            r['lampam_target[%d]' % (k + 1)] = t[k]
            r['lampam_weightings[%d]' % (k + 1)] = w[k]
            r['lampam_weightings_ini[%d]' % (k + 1)] = \
                p['lampam_weights'][i][k]
        rows.append(r)
    return rows


def expected_results(p, d, raw, k, layout):
    "the block of rows of one tried layout"
    c, mat = p['constraints'], W.material(p)
    rows = []
    for i, n in enumerate(p['n_plies']):
        ss, sst = d['ss_tab'][k][i], d['sst_tab'][k][i]
        lp = oracle.lampam(ss)
        nd, nc = oracle.n_diso(ss, c), oracle.contig_count(ss, c)
        size = len(ss)
        d11, _, d22, _, d16, d26 = bending(mat, lp)
        t = oracle.effective_target(p, i)
        r = {'index panel': i + 1, 'n_plies': n,
             'obj_no_constraints': d['obj_no_constraints_tab'][k][i],
             'n_violations_diso': nd, 'n_violations_contig': nc,
             'ipo: |lampam[3]| + |lampam[4]|': abs(lp[2]) + abs(lp[3]),
             'oopo: |lampam[11]| + |lampam[12]|': abs(lp[10]) + abs(lp[11]),
             'percentage_0_plies': sst.count(0)/size,
             'percentage_90_plies': sst.count(90)/size,
             'percentage_+45_plies': sst.count(45)/size,
             'percentage_-45_plies': sst.count(-45)/size,
             'percentage_+-45_plies': (sst.count(45) + sst.count(-45))/size,
             'penalty_diso': nd/n if c['diso'] else 0,
             'penalty_contig': nc/n if c['contig'] else 0,
             'penalty_ipo': (abs(lp[2]) + abs(lp[3]))/2 if c['bal'] else 0,
             'penalty_oopo': (abs(lp[10]) + abs(lp[11]))/2 if c['oopo'] else 0,
             'gamma': abs(d16)/(d11**3*d22)**.25,
             'delta': abs(d26)/(d22**3*d11)**.25,
             'stacking sequences with ply drops included':
             ' '.join(map(str, sst)),
             'stacking sequences': ' '.join(map(str, ss))}
        x = oracle.penalty_10(ss, c)
        if x is not None:
            r['penalty_10'] = x
        for a in c['set_of_angles']:
            r['n_%dplies' % a] = sst.count(a)
        for j in range(12):
            r['lampam_error[%d]' % (j + 1)] = abs(t[j] - lp[j])
            r['lampam[%d]' % (j + 1)] = lp[j]
        if p['params']['save_buckling']:
            r['n_plies_'] = n
            r['lambda buckling'] = buckling(mat, lp, n, p['lengths'][i],
                                            p['loads'][i])
        if layout is not None:
            r['initial ply drop layout'] = [int(x) for x in layout[i]]
        rows.append(r)
    rows[0].update({
        'obj_constraints': d['obj_constraints_tab'][k],
        'n_obj_func_calls': float(raw.n_obj_func_calls_tab[k]),
        'penalty_spacing': d['penalty_spacing_tab'][k]})
    return rows


# --------------------------------------------------------------- reading it
def table(cells):
    "rows of a sheet with headers"
    if not cells:
        return [], []
    h = max(r for r, _ in cells)
    w = max(c for _, c in cells)
    head = {c: cells.get((1, c)) for c in range(1, w + 1)}
    rows = [{head[c]: cells.get((r, c)) for c in head}
            for r in range(2, h + 1)]
    return [x for x in head.values() if x is not None], rows


def blocks(cells):
    """the tables of sheet Results: each starts with a row of headers, which
    is any row that holds the text 'index panel'"""
    if not cells:
        return []
    h = max(r for r, _ in cells)
    w = max(c for _, c in cells)
    out, head = [], None
    for r in range(1, h + 1):
        row = [cells.get((r, c)) for c in range(1, w + 1)]
        if 'index panel' in row:
            head = row
            out.append([])
        elif head is None:
            return [[{'no header': row}]]
        elif any(x is not None for x in row):
            out[-1].append({a: b for a, b in zip(head, row) if a is not None})
    return out


def as_number(x):
    if isinstance(x, bool):
        return float(x)
    if isinstance(x, (int, float)):
        return float(x)
    return None


def differs(got, want, key=''):
    if isinstance(want, list):         # a ply-drop layout, written as numbers
        try:
            return [int(float(x)) for x in str(got).split()] != want
        except ValueError:
            return True
    if isinstance(want, str):
        return (got or '') != want if not isinstance(got, (int, float)) \
            else str(got) != want
    a, b = as_number(got), as_number(want)
    if a is None:
        if got is None and want is not None and b != b:
            return False
        return True
    return far(a, b, 1e-3 if key == 'penalty_10' else 1e-9)


def compare(rows, want, where):
    if len(rows) != len(want):
        return '%s has %d rows instead of %d' % (where, len(rows), len(want))
    for i, (a, b) in enumerate(zip(rows, want)):
        for k in b:
            if k not in a:
                return '%s has no column %r' % (where, k)
            if differs(a[k], b[k], k):
                return '%s, row %d, %s: %r instead of %r' % (
                    where, i + 1, k, a[k], b[k])
    return None


def check_book(view, case, w):
    "what is wrong with the workbook of a completed run"
    p, d = case['problem'], w.result
    sheets = dict(view)
    n_lay = len(d['obj_constraints_tab'])
    for name, want in expected_setup(p, n_lay).items():
        if name not in sheets:
            return 'setup: no sheet %r' % name
        got = {}
        cells = sheets[name]
        for (r, c), v in cells.items():
            if c == 1:
                got[v] = cells.get((r, 2))
        for k in want:
            if k not in got:
                return 'setup: sheet %r has no %r' % (name, k)
            if differs(got[k], want[k]):
                return 'setup: %s, %s: %r instead of %r' % (
                    name, k, got[k], want[k])
    if 'Panels' not in sheets:
        return 'setup: no sheet Panels'
    bad = compare(table(sheets['Panels'])[1], expected_panels(p),
                  'setup: Panels')
    if bad:
        return bad
    got = blocks(sheets.get('Results', {}))
    want = []
    st = oracle.Strip(p)
    for k in tried(d):
        lay = None
        if case['layouts'] is not None:
            lay = [case['layouts'][k][j] for j in st.of_panel]
        want.append(expected_results(p, d, w.raw, k, lay))
    if len(got) != len(want):
        return 'results: %d designs in sheet Results instead of %d' % (
            len(got), len(want))
    for k, a, b in zip(tried(d), got, want):
        bad = compare(a, b, 'results: design of layout %d' % k)
        if bad:
            return bad
    best = tried(d).index(d['best'])
    got = blocks(sheets.get('Best Result', {}))
    if len(got) != 1:
        return 'results: %d designs in sheet Best Result' % len(got)
    b = want[best]
    b[0]['time (s)'] = float(w.raw.time)
    bad = compare(got[0], b, 'results: best design')
    if bad:
        return bad
    # layouts of generated runs: at least the ply counts and drops agree
    if case['layouts'] is None:
        for k, a in zip(tried(d), blocks(sheets['Results'])):
            try:
                rows = [[int(float(x)) for x in str(
                    r['initial ply drop layout']).split()] for r in a]
            except (KeyError, ValueError) as e:
                return 'results: layout %d cannot be read (%r)' % (k, e)
            lay = [rows[i] for i in st.first]
            bad = oracle.check_layout(lay, st, p['constraints'])
            if bad:
                return 'results: layout %d saved: %s' % (k, bad[0])
            if any(rows[i] != lay[st.of_panel[i]] for i in range(len(rows))):
                return 'results: layout %d differs between panels of equal ' \
                    'thickness' % k
            x = oracle.spacing_penalty(lay, st, p['constraints'])
            if far(x, d['penalty_spacing_tab'][k]):
                return 'results: layout %d saved has penalty %g, not %g' % (
                    k, x, d['penalty_spacing_tab'][k])
    return None


def part_of(view, full):
    "problem when a workbook holds something that the full one does not"
    f = dict(full)
    for s, cells in view:
        if s not in f:
            return 'sheet %r' % s
        for k, v in cells.items():
            if not book.same(v, f[s].get(k)):
                return 'sheet %r cell %s: %r, finally %r' % (
                    s, k, v, f[s].get(k))
    for (a, _), (b, _) in zip(view, full):
        if a != b:
            return 'sheet %r in the place of %r' % (a, b)
    a = blocks(dict(view).get('Results', {}))
    b = blocks(f.get('Results', {}))
    for x, y in zip(a, b):
        if len(x) != len(y):
            return 'half a design in sheet Results'
    return None


def versions(case, w, before, rec, path):
    """contents of the results file after each file operation of a run:
    (distinct, in order)"""
    disk = fsim.Disk(before)
    last, out = None, []
    for o in rec.ops:
        disk.step(o)
        if o[0] not in (fsim.RENAME, fsim.UNLINK, fsim.OPEN, fsim.LINK,
                        fsim.CLOSE, fsim.FSYNC, fsim.TRUNC, fsim.WRITE):
            continue
        ino = disk.names.get(path)
        if ino is None:
            data = None
        elif o[0] == fsim.WRITE and disk.fd.get(o[1]) != ino:
            continue
        else:
            data = disk.content(ino)
        if data != last:
            out.append(data)
            last = data
    return out


class P05(Check):
    id = 'P05'
    technique = ('deterministic simulation of whole runs on a simulated disk '
                 'with I/O errors, kills and interruptions, recomputation '
                 'oracle for every saved value')
    note_text = ('Every set-up and result column is recomputed independently; '
                 'crash states are the file contents after each file call.')
    rule = ('random problems solved with saving; each third run watched '
            'version by version, each third struck by a disk fault, a kill or '
            'an interruption while saving and then repeated; non-trivial: at '
            'least two designs saved or a fault that struck')
    n_quick = 220
    n_thorough = 2600
    cpu = 90
    budget = {'quick': 150, 'thorough': 840}
    shim = True
    real = ['src/BELLA/save_set_up.py, save_result.py, optimiser.py and all '
            'they call', 'src/divers/excel.py', 'src/buckling/buckling.py',
            'pandas', 'openpyxl']
    stub = ['clock', 'random stream', 'user at the prompt',
            'the disk: libc calls recorded, replayed and struck by faults',
            'src.CLA (absent from the repository; stub from laminate theory)']
    assumptions = ['symmetric laminates of even ply counts',
                   'kills lose no data that was written (P01 covers power '
                   'loss)']

    def gen(self, R, tier):
        c = gen_world(R, tier, small=R.random() < .7)
        c['problem']['params']['save_buckling'] = R.random() < .4 \
            and all(map(all, c['problem']['lengths']))
        c['mode'] = R.choice(['full', 'full', 'watch', 'fault', 'interrupt'])
        c['existing'] = R.random() < .3
        c['at'] = round(R.random(), 4)
        if c['mode'] == 'fault':
            c['fault'] = R.choice([
                dict(kind='errno', err=R.choice(['EIO', 'ENOSPC', 'EACCES',
                                                 'EDQUOT'])),
                dict(kind='errno', err='EIO', ops=[R.choice([
                    'write', 'rename', 'fsync', 'open', 'close'])]),
                dict(kind='dead'), dict(kind='full')])
        if c['mode'] == 'interrupt':
            c['exc'] = R.choice(list(EXC))
        c['retry'] = R.random() < .6
        return c

    def shrink(self, case):
        if case['mode'] != 'full':
            yield dict(case, mode='full')
        if case['existing']:
            yield dict(case, existing=False)
        for c in world.shrink_world(case):
            yield c

    def run(self, case, out, scratch):
        d0 = os.path.join(scratch, 'clean')
        d0 = os.path.realpath(self.mkdir(d0, case))
        path = os.path.join(d0, 'r.xlsx')
        count = Counting()
        before = fsim.snapshot(d0)
        with fsim.Recorder(d0) as rec:
            w = simulate(case, d0, around=count)
        world.note(w, out)
        if outcome(w, out) != 'ok':
            if w.error is not None and case['mode'] != 'full':
                pass
            return
        files = fsim.snapshot(d0)
        if path not in files:
            out.violate('results: no file', 'no results file was saved')
            return
        try:
            view = book.read(files[path])
        except book.Unreadable as e:
            out.violate('unreadable', 'the results file cannot be read: %s'
                        % e)
            return
        if case['existing'] and w.asked != 1:
            out.violate('consent', 'the user was asked %d times' % w.asked)
        try:
            bad = check_book(view, case, w)
        except (KeyError, IndexError, TypeError, ValueError,
                ZeroDivisionError) as e:
            bad = 'results: the workbook cannot be judged (%s: %s)' % (
                type(e).__name__, e)
        out.count('workbooks compared')
        out.count('cells compared', sum(len(x) for _, x in view))
        out.event(w.result['obj_constraints_tab'], [
            (s, len(x)) for s, x in view])
        if bad:
            out.violate(bad.split(':')[0], bad)
            return
        other = sorted(set(files) - set(before) - {path}
                       - {x for x in files if 'layouts_' in x})
        if other:
            out.violate('left over', 'files left behind: %s' % [
                os.path.basename(x) for x in other])
        out.nontrivial = len(tried(w.result)) > 1
        if case['mode'] == 'full':
            return
        vs = versions(case, w, before, rec, path)
        views = []
        for k, v in enumerate(vs):
            if v is None:
                views.append(None)
                continue
            if v == before.get(path):
                views.append('old')
                continue
            try:
                views.append(book.read(v))
            except book.Unreadable as e:
                out.violate('unreadable', 'version %d of the results file '
                            'during the run cannot be read: %s' % (k, e))
                return
            bad = part_of(views[-1], view)
            if bad:
                out.violate('foreign', 'version %d of the results file '
                            'during the run holds more than the last: %s'
                            % (k, bad))
                return
        out.count('versions of the file judged', len(vs))
        seen = [len(x) for x in views if isinstance(x, list)]
        if seen != sorted(seen):
            out.violate('foreign', 'sheets vanish while saving: %s' % seen)
        if case['mode'] == 'watch':
            out.nontrivial = True
            return
        self.struck(case, out, scratch, w, rec, views, view, count)

    @staticmethod
    def mkdir(d, case):
        os.mkdir(d)
        if case['existing']:
            with open(os.path.join(d, 'r.xlsx'), 'wb') as f:
                f.write(b'an older file')
        return d

    def struck(self, case, out, scratch, w, rec, views, view, count):
        d1 = os.path.realpath(self.mkdir(os.path.join(scratch, 'hit'), case))
        path = os.path.join(d1, 'r.xlsx')
        before = fsim.snapshot(d1)
        hit = None
        if case['mode'] == 'fault':
            f = dict(case['fault'])
            first = self.first_save(rec)
            f['at'] = first + int(case['at']*max(1, rec.count - first))
            around = fsim.Recorder(d1, [f])
        else:
            if not count.n:
                return
            hit = Interrupt(EXC[case['exc']]('simulated'),
                            1 + int(case['at']*count.n))
            around = Lines(Saving(hit))
        x = simulate(case, d1, around=around)
        if hit is None:
            if not around.struck:
                return
            around.note(out)
        elif not hit.fired:
            return
        else:
            out.count('fault:' + case['exc'])
        out.nontrivial = True
        out.event('struck', W.describe(x.error) if x.error else 'completed')
        files = fsim.snapshot(d1)
        data = files.get(path)
        if data is None:
            got = None
        elif data == before.get(path):
            got = 'old'
        else:
            try:
                got = book.read(data)
            except book.Unreadable as e:
                out.violate('unreadable', 'after a failure while saving the '
                            'results file cannot be read: %s' % e)
                return
        known = [v for v in views if isinstance(v, list)]
        if x.error is None:
            if not isinstance(got, list) or book.diff(got, view):
                out.violate('silent', 'the run ended without an error but the '
                            'results file is not complete after a failure '
                            'while saving')
                return
        elif isinstance(got, list):
            if all(book.diff(got, v) for v in known):
                out.violate('foreign', 'after a failure while saving the '
                            'results file is none of the versions of a run '
                            'without failure: %s' % (part_of(got, view)
                                                     or 'other content'))
                return
        elif got == 'old' and case['mode'] == 'interrupt' and x.asked \
                and not before:
            out.violate('foreign', 'the old file is back')
        if not case['retry']:
            return
        # the disk works again: the same run on the same objects
        y = simulate(case, d1, setup=x.setup)
        if y.error is not None:
            out.violate('repeat', 'the run repeated after a failure while '
                        'saving ends with %s' % W.describe(y.error))
            return
        try:
            again = book.read_file(path)
        except (OSError, book.Unreadable) as e:
            out.violate('repeat', 'no readable results after the repeated '
                        'run: %s' % e)
            return
        out.count('runs repeated after a failure')
        d = book.diff(untimed(again), untimed(view))
        if d:
            out.violate('repeat', 'the run repeated after a failure while '
                        'saving saves: %s' % d)

    @staticmethod
    def first_save(rec):
        "number of the first file call after the reading of the layouts"
        k = 0
        for i, o in enumerate(rec.ops):
            if o[0] == fsim.OPEN and o[3] & os.O_CREAT:
                return i
        return k


def untimed(view):
    "without the duration of the run"
    out = []
    for s, cells in view:
        x = {k: v for k, v in cells.items() if v != 'time (s)'}
        if s == 'Best Result':
            col = [c for (r, c), v in cells.items() if v == 'time (s)']
            x = {(r, c): v for (r, c), v in x.items() if c not in col}
        out.append((s, x))
    return out


SAVING = ('divers/excel.py', 'BELLA/save_set_up.py', 'BELLA/save_result.py')


class Saving:
    "passes on only the lines executed while saving"

    def __init__(self, f):
        self.f = f

    def __call__(self, code, line):
        if code.co_filename.endswith(SAVING) and code.co_name != 'delete_file':
            self.f(code, line)


class Counting:
    "counts the lines executed while saving"

    def __init__(self):
        self.n = 0
        self.lines = Lines(Saving(self.count))

    def count(self, code, line):
        self.n += 1

    def __enter__(self):
        self.lines.__enter__()

    def __exit__(self, *a):
        return self.lines.__exit__(*a)
