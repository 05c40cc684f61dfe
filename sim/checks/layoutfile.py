"""P04: reading initial ply-drop layouts from workbooks"""
import io
import os
import random
import re
import zipfile

import numpy as np
import openpyxl

from .. import clock, fsim, oracle, workload as W
from ..core import Check
from ..layouts import gen_layout, write_layouts


def sheet_data_spans(data):
    "byte ranges of the compressed contents of the work sheets"
    out = []
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        for i in z.infolist():
            if i.filename.startswith('xl/worksheets/sheet'):
                o = i.header_offset
                n = int.from_bytes(data[o + 26:o + 28], 'little')
                e = int.from_bytes(data[o + 28:o + 30], 'little')
                out.append((o + 30 + n + e, i.compress_size))
    return out


class P04(Check):
    id = 'P04'
    technique = ('deterministic simulation of a failing disk under the '
                 'reader, seeded damage of the file')
    rule = ('random sets of 0-14 layouts in workbooks with shuffled and '
            'foreign sheets; read cleanly, with failing or short reads, '
            'truncated, with flipped bits, with foreign cells; or given to '
            'the optimiser with a wrong structure; non-trivial: at least two '
            'layouts stored, or a fault struck, or a misfit was offered')
    n_quick = 4000
    n_thorough = 30000
    cpu = 60
    shim = True
    real = ['src/BELLA/pdl_ini.py (reading and checks)', 'pandas', 'openpyxl',
            'zipfile', 'src/BELLA/optimiser.py (first steps)']
    stub = ['disk: failing, short and altered reads through the libc seam',
            'src.CLA (absent from the repository)']
    assumptions = ['layouts are stored in sheets pdl1, pdl2, ... without gaps',
                   'bits are flipped inside the contents of work sheets']

    def gen(self, R, tier):
        mode = R.choice(['clean', 'clean', 'errno', 'errno', 'short',
                         'truncate', 'flip', 'transit', 'cell', 'misfit',
                         'misfit', 'misfit'])
        p = W.gen_problem(R, base=R.choice([8, 10, 12]),
                          n_panels=R.choice([2, 2, 3]), steps=(0, 2, 4))
        p['constraints'].update(rule_10_percent=False, rule_10_Abdalla=False)
        st = oracle.Strip(p)
        n = R.choice([0, 1, 1, 2, 3, 5, 9, 10, 11, 14])
        if mode in ('cell', 'flip', 'misfit'):
            n = max(1, min(n, 5))
        if mode != 'clean':
            n = max(n, 1)
        lay = [gen_layout(R, st, p['constraints']) for _ in range(n)]
        c = dict(mode=mode, layouts=lay, problem=p, seed=R.randrange(1 << 30),
                 extra=R.sample(['Constraints', 'Parameters', 'pdl', 'pdlx',
                                 'PDL 1', 'Ply drop penalties'],
                                R.choice([0, 0, 1, 3])),
                 as_float=R.random() < .3, at=round(R.random(), 4),
                 which=R.randrange(64))
        if mode == 'errno':
            c['fault'] = dict(kind='errno', at=0, err=R.choice(
                ['EIO', 'EIO', 'EINTR', 'EACCES']), ops=[R.choice(
                    ['read', 'read', 'read', 'open'])])
        if mode == 'short':
            c['fault'] = dict(kind='short', at=0, ops=['read'],
                              arg=R.choice([1, 10, 50, 90]))
        if mode == 'transit':
            c['fault'] = dict(kind='flip', at=0, ops=['read'],
                              arg=R.randrange(1 << 14))
        if mode == 'cell':
            c['cell'] = R.choice(['', 'x', '#', 'one', None, '1 2', 0.5, -0.5,
                                  '-'])
        if mode == 'misfit':
            c['how'] = R.choice(['panel more', 'panel less', 'ply more',
                                 'ply less', 'swapped rows', 'ply less'])
        return c

    def shrink(self, case):
        lay = case['layouts']
        for i in range(len(lay)):
            if len(lay) > 1:
                yield dict(case, layouts=lay[:i] + lay[i + 1:])
        if case['extra']:
            yield dict(case, extra=[])
        if case['as_float']:
            yield dict(case, as_float=False)

    def run(self, case, out, scratch):
        clock.use(clock.SimClock())
        R = random.Random(case['seed'])
        path = os.path.join(os.path.realpath(scratch), 'layouts.xlsx')
        lay = case['layouts']
        mode = case['mode']
        if mode == 'misfit':
            return self.misfit(case, out, scratch, path, R)
        if mode == 'cell':
            lay = [[list(r) for r in x] for x in lay]
            k = case['which'] % len(lay)
            rows = lay[k]
            # inside, so that the table keeps its size
            i = R.randrange(len(rows))
            j = R.randrange(1, len(rows[0]) - 1)
            rows[i][j] = case['cell']
        data = write_layouts(lay, R, case['extra'], case['as_float'])
        whole = data
        if mode == 'truncate':
            data = data[:int(case['at']*len(data))]
        if mode == 'flip':
            o, n = R.choice(sheet_data_spans(data))
            k = o + R.randrange(n)
            data = data[:k] + bytes([data[k] ^ 1 << R.randrange(8)]) \
                + data[k + 1:]
        with open(path, 'wb') as f:
            f.write(data)
        faults = []
        if 'fault' in case:
            rec, _, _ = self.read(path, scratch)
            ops = [o[0] for o in rec.ops]
            kinds = [fsim.NAMES.index(x) for x in case['fault']['ops']]
            at = [i for i, o in enumerate(ops) if o in kinds]
            if mode == 'transit':
                # only reads of the contents of work sheets
                spans = sheet_data_spans(data)
                at = [i for i in at if any(
                    o <= rec.ops[i][3] and rec.ops[i][3] + rec.ops[i][4]
                    <= o + n for o, n in spans)]
            if not at:
                out.event('no such call')
                return
            faults = [dict(case['fault'], at=at[case['which'] % len(at)])]
        rec, got, err = self.read(path, scratch, faults)
        rec.note(out)
        if mode in ('truncate', 'flip', 'cell'):
            out.count('fault:' + {'truncate': 'truncated file', 'flip':
                                  'damaged sheet', 'cell': 'foreign cell'}[
                                      mode])
        struck = rec.struck or mode in ('truncate', 'flip', 'cell')
        out.nontrivial = struck or len(lay) > 1
        out.event(lay)
        out.event(mode, len(lay), 'layouts', 'fault', faults and faults[0],
                  'got', None if got is None else len(got),
                  type(err).__name__)
        if open(path, 'rb').read() != data:
            out.violate('file changed', 'reading changed the file')
            return
        want = [np.array(x).tolist() for x in case['layouts']]
        if mode == 'cell':
            if err is None:
                out.violate('silent', 'a cell %r instead of a number is read '
                            'as %r' % (case['cell'], got[
                                case['which'] % len(lay)][i][j]
                                if len(got) == len(lay) else
                                '%d layouts' % len(got)))
            return
        if err is not None:
            if not struck or mode == 'short':
                out.violate('error', 'reading %d layouts%s: %s' % (
                    len(lay), ' with a short read' if mode == 'short' else '',
                    W.describe(err)))
            return
        if got != want:
            what = '%d layouts instead of %d' % (len(got), len(want)) \
                if len(got) != len(want) else 'different layouts (%s)' % [
                    i + 1 for i in range(len(got)) if got[i] != want[i]]
            out.violate('silent' if struck else 'wrong', '%s: %s, no error '
                        'reported' % (mode, what))

    def read(self, path, scratch, faults=()):
        from src.BELLA.pdl_ini import read_pdls_excel
        got = err = None
        with fsim.Recorder(os.path.realpath(scratch), faults) as rec:
            with W.quiet():
                try:
                    got = [np.asarray(x).tolist()
                           for x in read_pdls_excel(path)]
                except Exception as e:
                    err = e
        return rec, got, err

    def misfit(self, case, out, scratch, path, R):
        p = case['problem']
        lay = [[list(r) for r in x] for x in case['layouts']]
        k = case['which'] % len(lay)
        x = lay[k]
        how = case['how']
        if how == 'panel more':
            x.insert(0, list(x[0]))
        elif how == 'panel less':
            del x[R.randrange(len(x) - 1)]
        elif how == 'ply more':
            rows = [r for r in x if -1 in r]
            r = R.choice(rows)
            i = R.choice([i for i, y in enumerate(r) if y == -1])
            r[i] = 0
        elif how == 'ply less':
            r = R.choice(x)
            i = R.choice([i for i, y in enumerate(r) if y != -1])
            r[i] = -1
        else:
            x.reverse()
        with open(path, 'wb') as f:
            f.write(write_layouts(lay, R, case['extra']))
        res = os.path.join(scratch, 'results.xlsx')
        err = None
        with W.quiet():
            s = W.build(p)
            try:
                W.optimise(s, res, path)
            except Exception as e:
                err = e
        out.count('fault:layout that does not fit (%s)' % how)
        out.nontrivial = True
        out.event(lay)
        out.event(how, 'layout', k + 1, 'of', len(lay), type(err).__name__)
        if err is None:
            out.violate('accepted', 'layout %d of %d with %s is accepted' % (
                k + 1, len(lay), how))
        elif os.path.exists(res):
            out.violate('results', 'a results file is left although the '
                        'layouts do not fit')
