"""P01, P02, P03: the results workbook under crashes, failing disks and users"""
import os
import random
import sys

from .. import book, clock, fsim, steps
from ..core import Check

WORDS = ['a', 'obj', 'penalty', 'stacking sequence', 'λ', 'Größe', '45 -45',
         '[0, 90]', 'True', '1e5', ' lead', 'x'*60, '0', '-1', "it's", 'a,b;c']
SHEETS = ['Results', 'Best Result', 'pdl1', 'Sheet 2', 'Überblick', 'x'*31,
          'Parameters']


def gen_value(R):
    k = R.randrange(9)
    if k == 0:
        return None
    if k == 1:
        return R.choice([True, False])
    if k in (2, 3):
        return R.choice([0, 1, -1, 7, 10**9, 2**40, R.randint(-999, 999)])
    if k in (4, 5, 6):
        return R.choice([0.5, -0.25, 1e-12, 3.14159265358979, 1.5e20,
                         round(R.uniform(-5, 5), 9)])
    return R.choice(WORDS)


def gen_table(R, small=False):
    nc = R.randint(1, 3 if small else 6)
    nr = R.choice([1, 1, 2, 3, 5] + ([] if small else [12, 40]))
    cols = R.sample([c + str(i) for c in ('c', 'λ', 'a b') for i in range(6)],
                    nc)
    rows = [[gen_value(R) for _ in range(nc)] for _ in range(nr)]
    while all(x is None for x in rows[-1]):
        # whether a sheet holds an empty last row is not defined
        rows[-1] = [gen_value(R) for _ in range(nc)]
    if R.random() < .05 and not small:
        rows[0][0] = 'long ' + 'text '*2000
    idx = list(range(nr)) if R.random() < .7 else \
        ['r%d' % i for i in range(nr)]
    return dict(columns=cols, rows=rows, index=idx)


def gen_op(R, sheets, n_files=1, small=False):
    if R.random() < .25:
        return dict(op='fit', file=R.randrange(n_files))
    o = dict(op='put', file=R.randrange(n_files), sheet=R.choice(sheets),
             table=gen_table(R, small), index=R.random() < .6,
             header=R.random() < .7)
    k = R.random()
    if k < .2:
        o['startrow'] = R.choice([0, 0, 1, 3, 10])
    elif k < .4:
        o['truncate'] = True
        o['startrow'] = R.choice([0, 0, 2])
    return o


def perform(op, names):
    "one operation of the code under test"
    from src.divers import excel
    import pandas as pd
    name = names[op['file']]
    if op['op'] == 'fit':
        excel.autofit_column_widths(name)
        return
    t = op['table']
    df = pd.DataFrame(t['rows'], columns=t['columns'], index=t['index'],
                      dtype=object)
    kw = {}
    if op.get('startrow') is not None:
        kw['startrow'] = op['startrow']
    if op.get('truncate'):
        kw['truncate_sheet'] = True
    excel.append_df_to_excel(name, df, op['sheet'], index=op['index'],
                             header=op['header'], **kw)


def model_step(op, models):
    if op['op'] == 'put':
        m = models[op['file']]
        m.put(op['sheet'], op['table'], op.get('startrow'),
              bool(op.get('truncate')), op['index'], op['header'])


def valid(ops):
    "drop refits of workbooks that do not exist yet"
    out, seen = [], set()
    for o in ops:
        if o['op'] == 'fit' and o['file'] not in seen:
            continue
        seen.add(o['file'])
        out.append(o)
    return out


def shrink_ops(case, key='ops'):
    ops = case[key]
    for i in range(len(ops)):
        c = dict(case)
        c[key] = valid(ops[:i] + ops[i + 1:])
        if 'target' in c:
            if c['target'] >= i and c['target'] > 0:
                c['target'] -= 1
        if c[key]:
            yield c
    for i, o in enumerate(ops):
        if o['op'] != 'put':
            continue
        t = o['table']
        if len(t['rows']) > 1:
            for keep in (t['rows'][:1], t['rows'][:len(t['rows'])//2]):
                t2 = dict(t, rows=keep, index=t['index'][:len(keep)])
                yield dict(case, **{key: ops[:i] + [dict(o, table=t2)]
                                    + ops[i + 1:]})
        if len(t['columns']) > 1:
            t2 = dict(t, columns=t['columns'][:1],
                      rows=[r[:1] for r in t['rows']])
            yield dict(case, **{key: ops[:i] + [dict(o, table=t2)]
                                + ops[i + 1:]})
        for k in ('startrow', 'truncate'):
            if o.get(k):
                o2 = dict(o)
                del o2[k]
                if k == 'startrow' and o.get('truncate'):
                    continue
                yield dict(case, **{key: ops[:i] + [o2] + ops[i + 1:]})


class View:
    "what a file holds, parsed once per contents"

    def __init__(self):
        self.cache = {}

    def __call__(self, data):
        if data is None:
            return None
        if data not in self.cache:
            try:
                self.cache[data] = book.read(data)
            except book.Unreadable as e:
                self.cache[data] = str(e)
        return self.cache[data]


def which(view, old, new):
    """'old', 'new' or a description of what is wrong"""
    if isinstance(view, str):
        return 'the file cannot be read (%s)' % view
    if view is None:
        return 'old' if old is None else 'the file is gone'
    if old is not None and book.diff(view, old) is None:
        return 'old'
    d = book.diff(view, new)
    if d is None:
        return 'new'
    return 'neither the old nor the new contents (%s)' % d


TABLES = ['materials', 'constraints', 'parameters', 'objective function',
          'multipanel', 'results', 'autofit']


class Tables:
    "the tables of a run, saved by the functions that a run uses"

    def __init__(self, seed, tables, scratch):
        from .. import workload as W, world
        R = random.Random(seed)
        while True:
            c = world.gen_world(R, 'quick', 'none', 'file', small=True,
                                n_panels=2, base=8)
            if world.feasible(c['problem']):
                break
        c['problem']['params'].update(save_buckling=False,
                                      group_size_min=2, group_size_max=100)
        c['stalls'] = {}
        c['layouts'] = c['layouts'][:2]
        self.s = W.build(c['problem'])
        w = world.simulate(c, scratch, setup=self.s, save=False,
                           name='none.xlsx')
        clock.use(clock.SimClock())
        if w.error is not None:
            raise w.error
        self.res = w.raw
        self.tables = tables

    def steps(self):
        from src.BELLA import save_set_up as S, save_result as Z
        from src.BELLA.format_pdl import extend_after_guide_based_blending
        from src.divers import excel
        s, r = self.s, self.res
        f = {
            'materials': lambda x: S.save_materials(x, s.mat),
            'constraints': lambda x: S.save_constraints_BELLA(
                x, s.constraints),
            'parameters': lambda x: S.save_parameters_BELLA(x, s.parameters),
            'objective function': lambda x: S.save_objective_function_BELLA(
                x, s.objf),
            'multipanel': lambda x: S.save_multipanel(
                x, s.multipanel, s.objf, mat=s.mat),
            'results': lambda x: Z.save_result_BELLAs(
                x, s.multipanel, s.constraints, s.parameters, s.objf,
                [None]*len(r.obj_constraints_tab), r, s.mat),
            'autofit': excel.autofit_column_widths}
        return [(t, f[t]) for t in self.tables]

    def __call__(self, path):
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            for _, g in self.steps():
                g(path)


def holds(view, part):
    "a difference when a workbook does not hold all of another"
    v = dict(view)
    for s, cells in part:
        if s not in v:
            return 'sheet %r is missing' % s
        for k, x in cells.items():
            if not book.same(v[s].get(k), x):
                return 'sheet %r cell %s: %r instead of %r' % (
                    s, k, v[s].get(k), x)
    return None


class P01(Check):
    id = 'P01'
    technique = ('deterministic simulation of the disk: seeded crash points, '
                 'power loss and injected I/O errors')
    rule = ('random histories of 1-5 saves and refits of a workbook; in each, '
            'every file-system call of every save is a kill point, a random '
            'sample of possible disks after power loss is drawn, or one save '
            'is struck by a disk fault; non-trivial: at least one crash '
            'state or one fault that actually struck inside a save')
    n_quick = 2400
    n_thorough = 6000
    shim = True
    real = ['src/divers/excel.py', 'src/BELLA/save_set_up.py',
            'src/BELLA/save_result.py', 'pandas', 'openpyxl', 'zipfile',
            'CPython']
    stub = ['the disk: libc file calls recorded and replayed on a model that '
            'loses unsynchronised data and metadata', 'clock']
    assumptions = ['metadata operations of the file system become durable in '
                   'order; data only by synchronising the file',
                   'renaming over an existing file is atomic']

    def gen(self, R, tier):
        mode = R.choice(['crash', 'crash', 'error', 'error', 'kill',
                         'break'])
        if R.random() < .15:
            return self.gen_tables(R)
        sheets = R.sample(SHEETS, R.randint(1, 3))
        n = R.randint(1, 4 if tier == 'quick' else 8)
        ops = valid([gen_op(R, sheets, 1, R.random() < .7)
                     for _ in range(n + 1)])
        if not ops:
            ops = [dict(op='put', file=0, sheet='Results', index=True,
                        header=True, table=gen_table(R, True))]
        c = dict(mode=mode, ops=ops, seed=R.randrange(1 << 30),
                 target=R.randrange(len(ops)), rel=R.random() < .3,
                 link=R.random() < .15, name=R.choice(['r.xlsx', 'a b.xlsx']))
        if mode == 'error':
            kind = R.choice(['errno']*5 + ['full', 'full', 'dead', 'short'])
            f = dict(kind=kind, at=round(R.random(), 4))
            if kind == 'errno':
                f['err'] = R.choice(['EIO', 'EIO', 'ENOSPC', 'EACCES', 'EINTR',
                                     'EROFS', 'EDQUOT'])
                if R.random() < .6:
                    f['ops'] = R.choice([['write'], ['rename'], ['fsync'],
                                         ['open'], ['close'], ['read'],
                                         ['unlink'], ['chmod'],
                                         ['truncate']])
                    f['at'] = round(R.random()*.8, 4) \
                        if f['ops'][0] in ('open', 'read', 'close') else 0
            elif kind == 'full':
                f['arg'] = R.choice([0, 100, 1000, 3000, 4096, 6000, 9000])
                f['at'] = 0
            elif kind == 'dead':
                f['err'] = 'EIO'
            else:
                f['arg'] = R.choice([1, 50, 90])
            c['fault'] = f
        else:
            c['at'] = round(R.random(), 4)
        if mode == 'break':
            c['exc'] = R.choice(['KeyboardInterrupt', 'KeyboardInterrupt',
                                 'MemoryError', 'SystemExit'])
        return c

    @staticmethod
    def gen_tables(R):
        "tables of a run saved with the functions that a run uses"
        t = R.sample(TABLES[:-1], R.choice([1, 2, 2, 3]))
        if R.random() < .5:
            t.append('autofit')
        old = R.sample(TABLES[:-1], R.choice([0, 1, 1, 2]))
        f = R.choice([
            None, dict(kind='errno', err=R.choice(['EIO', 'ENOSPC', 'EACCES',
                                                   'EDQUOT', 'EROFS'])),
            dict(kind='errno', err=R.choice(['EIO', 'ENOSPC']), ops=[R.choice(
                ['write', 'rename', 'open', 'fsync'])]),
            dict(kind='dead', err='EIO'), dict(kind='full', arg=R.choice(
                [0, 100, 3000, 6000]))])
        return dict(mode='tables', ops=[], tables=t, old=old, fault=f,
                    at=round(R.random(), 4), problem=R.randrange(40))

    def run_tables(self, case, out, scratch):
        d = os.path.realpath(os.path.join(scratch, 'd'))
        os.mkdir(d)
        path = os.path.join(d, 'r.xlsx')
        see = View()
        try:
            save = Tables(case['problem'], case['old'], scratch)
        except Exception as e:           # the matter of P16
            out.event('no design', type(e).__name__)
            return
        save(path)
        old = see(fsim.snapshot(d).get(path)) or []
        before = fsim.snapshot(d)
        save.tables = case['tables']
        with fsim.Recorder(d) as rec:
            save(path)
        new = see(fsim.snapshot(d).get(path))
        left = self.others(d, path, path, before)

        def judge(data, what, kind):
            v = see(data)
            bad = 'the file cannot be read (%s)' % v \
                if isinstance(v, str) else holds(v or [], old) \
                or holds(new, v or [])
            if bad:
                out.violate(kind, '%s while %s is saved: %s' % (
                    what, case['tables'], bad))
            return bad
        if judge(fsim.snapshot(d).get(path), 'without a fault', 'contents'):
            return
        if left:
            out.violate('left over', 'saving %s left %d more file(s) behind'
                        % (case['tables'], len(left)))
            return
        out.nontrivial = True
        disk = fsim.Disk(before)
        last = before.get(path)
        for k, o in enumerate(rec.ops):
            if o[0] in (fsim.READ, fsim.CLOSE):
                continue
            disk.step(o)
            cur = disk.content(disk.names[path]) if path in disk.names \
                else None
            out.count('crash states: kill')
            if cur != last:
                last = cur
                if judge(cur, 'process killed after call %d of %d'
                         % (k, len(rec.ops)), 'kill'):
                    return
        out.event(case['tables'], len(new), sum(len(x) for _, x in new))
        if not case['fault']:
            return
        fsim.restore(d, before)
        f = dict(case['fault'])
        if f.get('ops'):
            n = sum(fsim.NAMES[o[0]] in f['ops'] for o in rec.ops)
        else:
            n = rec.count
        f['at'] = 0 if f['kind'] == 'full' else int(case['at']*n)
        err = None
        with fsim.Recorder(d, [f]) as rec:
            try:
                save(path)
            except Exception as e:
                err = e
        rec.note(out)
        got = fsim.snapshot(d).get(path)
        text = '%s at call %d' % (f.get('err', f['kind']), f['at'])
        out.event(text, rec.struck, type(err).__name__)
        if err is None:
            bad = which(see(got), None, new)
            if bad != 'new':
                out.violate('silent failure', '%s while %s is saved: no error '
                            'reported, but %s' % (text, case['tables'], bad))
        elif not rec.struck:
            out.violate('save fails', 'no fault struck, but %r' % err)
        else:
            judge(got, text, 'contents lost')
            if f['kind'] != 'dead' and self.others(d, path, path, before):
                out.violate('left over', '%s: more file(s) left behind' % text)

    def shrink(self, case):
        if case['mode'] == 'tables':
            for k in ('tables', 'old'):
                for i in range(len(case[k])):
                    x = case[k][:i] + case[k][i + 1:]
                    if x or k == 'old':
                        yield dict(case, **{k: x})
            if case['fault']:
                yield dict(case, fault=None)
            return
        yield from shrink_ops(case)
        for k in ('rel', 'link'):
            if case.get(k):
                yield dict(case, **{k: False})
        if case['name'] != 'r.xlsx':
            yield dict(case, name='r.xlsx')

    def run(self, case, out, scratch):
        clock.use(clock.SimClock())
        random.seed(1)
        if case['mode'] == 'tables':
            self.run_tables(case, out, scratch)
            return
        R = random.Random(case['seed'])
        d = os.path.realpath(os.path.join(scratch, 'd'))
        os.mkdir(d)
        path = os.path.join(d, case['name'])
        store = path
        if case['link']:
            store = os.path.join(d, 'target.xlsx')
            os.symlink('target.xlsx', path)
        arg = path
        if case['rel']:
            os.chdir(d)
            arg = case['name']
        see = View()
        model = book.Model()
        old = None
        self.keep = (case['name'], 'target.xlsx')
        for i, op in enumerate(case['ops']):
            m2 = model.copy()
            model_step(op, [m2])
            new = m2.view()
            before = fsim.snapshot(d)
            hit = i == case['target']
            try:
                if hit and case['mode'] == 'error':
                    if not self.error(case, op, arg, d, store, before, old,
                                      new, see, out):
                        return
                elif hit and case['mode'] == 'break':
                    if not self.interrupt(case, op, arg, d, store, before,
                                          old, new, see, out):
                        return
                elif hit and case['mode'] == 'kill':
                    if not self.kill(case, op, arg, d, store, before, old,
                                     new, see, out):
                        return
                else:
                    if not self.crash(case, op, i, arg, d, store, before, old,
                                      new, see, out, R):
                        return
            except OSError as e:
                out.violate('save fails', 'operation %d (%s) without any '
                            'fault: %r' % (i, op['op'], e))
                return
            got = which(see(fsim.snapshot(d).get(store)), None, new)
            if got != 'new':
                out.violate('contents', 'after operation %d (%s): %s'
                            % (i, op['op'], got))
                return
            if case['link'] and not os.path.islink(path):
                out.violate('contents', 'operation %d replaced the link to '
                            'the workbook by a file' % i)
                return
            model, old = m2, new

    def others(self, d, store, path, before=()):
        "files that the operation left behind"
        ok = {store, path} | set(before)
        return sorted(os.path.join(d, n) for n in os.listdir(d)
                      if os.path.join(d, n) not in ok)

    def call(self, op, arg, d, faults=()):
        err = None
        with fsim.Recorder(d, faults) as rec:
            try:
                perform(op, [arg])
            except Exception as e:
                err = e
        return rec, err

    def crash(self, case, op, i, arg, d, store, before, old, new, see, out, R):
        rec, err = self.call(op, arg, d)
        for line in fsim.describe(rec.ops, self.keep):
            out.event(line)
        if err is not None:
            out.violate('save fails', 'operation %d (%s) without any fault: '
                        '%s: %s' % (i, op['op'], type(err).__name__, err))
            return False
        disk = fsim.Disk(before)
        last = before.get(store)
        # readers close their files when the memory is collected: these
        # calls are no part of the schedule
        steps = [o for o in rec.ops if o[0] not in (fsim.READ, fsim.CLOSE)]
        for k, o in enumerate(steps):
            disk.step(o)
            kind = fsim.NAMES[o[0]]
            R = random.Random('%d:%d:%d' % (case['seed'], i, k))
            cur = disk.content(disk.names[store]) \
                if store in disk.names else None
            out.count('crash states: kill')
            out.nontrivial = True
            if cur != last:
                last = cur
                got = which(see(cur), old, new)
                out.event('kill after', kind, got)
                if got not in ('old', 'new'):
                    out.violate('kill', 'process killed after %s (call %d of '
                                '%d) of operation %d (%s): %s'
                                % (kind, k, len(steps), i, op['op'], got))
                    return False
            if R.random()*len(steps) < 12*(3 if kind in (
                    'rename', 'fsync', 'unlink') else 1):
                for _ in range(3 if kind == 'rename' else 1):
                    files, how = disk.after_power_loss(R)
                    out.count('crash states: power loss')
                    got = which(see(files.get(store)), old, new)
                    out.event('power loss after', kind, how, got)
                    if got not in ('old', 'new'):
                        out.violate(
                            'power loss', 'power lost after %s (call %d of '
                            '%d) of operation %d (%s), unsynchronised data '
                            'kept: %s: %s' % (kind, k, len(steps), i,
                                              op['op'], how, got))
                        return False
        real = fsim.snapshot(d).get(store)
        cur = disk.content(disk.names[store]) if store in disk.names else None
        if cur != real:
            raise RuntimeError('disk model differs from the real file: %r %r'
                               % (cur and len(cur), real and len(real)))
        left = self.others(d, store, os.path.join(d, case['name']), before)
        if left:
            out.violate('left over', 'operation %d (%s) left %d more file(s) '
                        'behind' % (i, op['op'], len(left)))
            return False
        return True

    def kill(self, case, op, arg, d, store, before, old, new, see, out):
        "a real kill at one call, then the save is repeated"
        rec, err = self.call(op, arg, d)
        if err is not None:
            out.violate('save fails', 'without any fault: %r' % err)
            return False
        fsim.restore(d, before)
        self.relink(case, d)
        at = int(case['at']*rec.count)
        pid = os.fork()
        if pid == 0:
            with fsim.Recorder(d, [dict(at=at, kind='die')]):
                try:
                    perform(op, [arg])
                except BaseException:
                    os._exit(1)
            os._exit(0)
        _, st = os.waitpid(pid, 0)
        out.count('fault:process killed')
        out.nontrivial = True
        got = which(see(fsim.snapshot(d).get(store)), old, new)
        out.event('killed at', at, 'of', rec.count, got)
        if os.waitstatus_to_exitcode(st) != 77:
            out.event('ended with', os.waitstatus_to_exitcode(st))
        if got not in ('old', 'new'):
            out.violate('kill', 'process killed before call %d of %d of a '
                        'save: %s' % (at, rec.count, got))
            return False
        if got == 'old':
            rec, err = self.call(op, arg, d)
            if err is not None:
                out.violate('no recovery', 'after a kill at call %d of %d the '
                            'save cannot be repeated: %s: %s' % (
                                at, rec.count, type(err).__name__, err))
                return False
        return True

    def interrupt(self, case, op, arg, d, store, before, old, new, see, out):
        "an exception out of the libraries, then the save is repeated"
        for _ in range(2):                   # the first one fills caches
            with steps.Deep() as deep:
                perform(op, [arg])
            fsim.restore(d, before)
            self.relink(case, d)
        exc = {'KeyboardInterrupt': KeyboardInterrupt,
               'MemoryError': MemoryError, 'SystemExit': SystemExit}
        at = 1 + int(case['at']*deep.n)
        err = None
        with steps.Deep(exc[case['exc']], at) as deep:
            try:
                perform(op, [arg])
            except BaseException as e:
                err = e
        out.count('fault:%s in a save' % case['exc'])
        out.nontrivial |= deep.fired is not None
        got = which(see(fsim.snapshot(d).get(store)), old, new)
        text = '%s in function call %d (%s) of the libraries in a save' % (
            case['exc'], at, deep.fired)
        out.event(text, type(err).__name__, got)
        if deep.fired is None and err is not None:
            out.violate('save fails', 'without any fault: %r' % err)
            return False
        want = ('old', 'new') if err is not None else ('new',)
        if got not in want and not (old is not None
                                    and book.diff(old, new) is None):
            out.violate('interrupt', '%s: %s and the file holds: %s' % (
                text, 'no error reported' if err is None else 'it ends', got))
            return False
        if self.others(d, store, os.path.join(d, case['name']), before):
            out.violate('left over', '%s: more file(s) left behind' % text)
            return False
        if got == 'old' and err is not None:
            rec, err = self.call(op, arg, d)
            if err is not None:
                out.violate('no recovery', 'after %s the save cannot be '
                            'repeated: %s: %s' % (text, type(err).__name__,
                                                  err))
                return False
        return True

    def relink(self, case, d):
        p = os.path.join(d, case['name'])
        if case['link'] and not os.path.lexists(p):
            os.symlink('target.xlsx', p)

    def error(self, case, op, arg, d, store, before, old, new, see, out):
        f = dict(case['fault'])
        rec, err = self.call(op, arg, d)
        if err is not None:
            out.violate('save fails', 'without any fault: %r' % err)
            return False
        fsim.restore(d, before)
        self.relink(case, d)
        f['at'] = int(f['at']*rec.count)
        rec, err = self.call(op, arg, d, [f])
        rec.note(out)
        out.nontrivial |= rec.struck
        for line in fsim.describe(rec.ops, self.keep):
            out.event(line)
        text = '%s at call %d (%s) of a save' % (
            f.get('err', f['kind']), f['at'], ','.join(f.get('ops', ['any'])))
        got = which(see(fsim.snapshot(d).get(store)), old, new)
        out.event(text, 'raised' if err else 'returned', got)
        if not rec.struck:
            if err is not None:
                out.violate('save fails', '%s did not strike, but %r'
                            % (text, err))
                return False
        if err is None:
            if got != 'new' and not (got == 'old' and old is not None
                                     and book.diff(old, new) is None):
                out.violate('silent failure', '%s: no error reported, but the '
                            'file holds: %s' % (text, got))
                return False
        elif got != 'old' and not (got == 'new' and old is not None
                                   and book.diff(old, new) is None):
            out.violate('contents lost', '%s: an error is reported and the '
                        'file holds: %s' % (text, got))
            return False
        left = self.others(d, store, os.path.join(d, case['name']), before)
        if left and f['kind'] != 'dead' and f.get('ops') != ['unlink']:
            out.violate('left over', '%s: %d more file(s) left behind'
                        % (text, len(left)))
            return False
        for p in left:
            os.remove(p)
        if got == 'old' and not (err is None):
            rec, err = self.call(op, arg, d)
            if err is not None:
                out.violate('no recovery', 'after %s the save cannot be '
                            'repeated: %s: %s' % (text, type(err).__name__,
                                                  err))
                return False
        return True


class P02(Check):
    id = 'P02'
    technique = ('deterministic simulation: seeded histories with failing '
                 'saves against a reference model of the workbook')
    rule = ('random histories of 2-14 saves, appends, truncations and refits '
            'on one or two workbooks, with failing saves repeated in '
            'between, compared cell by cell with a reference model after '
            'each step; non-trivial: at least two saves')
    n_quick = 2000
    n_thorough = 6000
    shim = True
    real = P01.real
    stub = ['clock', 'faulty file-system calls']

    def gen(self, R, tier):
        if R.random() < .06:
            sheets = [x for x in SHEETS if x not in ('Results', 'Parameters',
                                                     'Best Result')]
            ops = []
            for _ in range(R.randint(2, 7)):
                if R.random() < .6:
                    ops.append(dict(op='save', name=R.choice(TABLES[:-1])))
                else:
                    ops.append(gen_op(R, sheets, 1, True))
            while ops and ops[0]['op'] == 'fit':
                del ops[0]
            return dict(ops=ops, tables=True, problem=R.randrange(40))
        nf = R.choice([1, 1, 2])
        sheets = R.sample(SHEETS, R.randint(1, 4))
        ops = valid([gen_op(R, sheets, nf, R.random() < .5)
                     for _ in range(R.randint(2, 9 if tier == 'quick'
                                              else 16))])
        faulty = R.random() < .5
        fl = []
        for o in ops:
            f = None
            if faulty and R.random() < .4:
                f = dict(kind='errno', err=R.choice(['EIO', 'ENOSPC',
                                                     'EACCES']),
                         at=R.randrange(1, 60))
            fl.append(f)
        return dict(ops=[dict(o, fault=f) for o, f in zip(ops, fl)],
                    n_files=nf, mode=R.choice([0o644, 0o664, 0o600, 0o640,
                                               0o666]))

    def shrink(self, case):
        if case.get('tables'):
            for i in range(len(case['ops'])):
                ops = case['ops'][:i] + case['ops'][i + 1:]
                if ops and ops[0]['op'] != 'fit':
                    yield dict(case, ops=ops)
            return
        yield from shrink_ops(case)
        for i, o in enumerate(case['ops']):
            if o.get('fault'):
                ops = list(case['ops'])
                ops[i] = dict(o, fault=None)
                yield dict(case, ops=ops)

    def run(self, case, out, scratch):
        clock.use(clock.SimClock())
        d = os.path.realpath(os.path.join(scratch, 'd'))
        os.mkdir(d)
        if case.get('tables'):
            self.tables(case, out, d, scratch)
            return
        names = [os.path.join(d, 'f%d.xlsx' % i)
                 for i in range(case['n_files'])]
        models = [book.Model() for _ in names]
        see = View()
        modes = {}
        for i, op in enumerate(case['ops']):
            out.nontrivial |= i >= 1
            name = names[op['file']]
            if name not in modes and os.path.exists(name):
                modes[name] = case.get('mode', 0o644)
                os.chmod(name, modes[name])
            if op.get('fault'):
                with fsim.Recorder(d, [op['fault']]) as rec:
                    err = None
                    try:
                        perform(op, names)
                    except Exception as e:
                        err = e
                rec.note(out)
                out.event(i, 'fault', rec.struck, type(err).__name__)
                if err is not None and not rec.struck:
                    out.violate('save fails', 'operation %d: %r' % (i, err))
                    return
                if err is None:
                    model_step(op, models)
                elif not self.compare(i, op, names, models, see, out,
                                      'after the failed '):
                    return
                else:
                    try:
                        perform(op, names)
                    except Exception as e:
                        out.violate('save fails', 'operation %d repeated '
                                    'after an error: %r' % (i, e))
                        return
                    model_step(op, models)
            else:
                try:
                    perform(op, names)
                except Exception as e:
                    out.violate('save fails', 'operation %d (%s): %s: %s' % (
                        i, op['op'], type(e).__name__, e))
                    return
                model_step(op, models)
            out.count('operations')
            if not self.compare(i, op, names, models, see, out, 'after '):
                return
            m = os.stat(name).st_mode & 0o7777
            if m != modes.get(name, m):
                out.violate('access rights', 'after operation %d (%s) the '
                            'access rights of the file are %o instead of %o'
                            % (i, op['op'], m, modes[name]))
                return

    @staticmethod
    def tables(case, out, d, scratch):
        "tables of a run saved between other tables"
        path = os.path.join(d, 'r.xlsx')
        try:
            save = Tables(case['problem'], [], scratch)
        except Exception as e:           # the matter of P16
            out.event('no design', type(e).__name__)
            return
        old, first = [], {}
        out.nontrivial = len(case['ops']) > 1
        for i, op in enumerate(case['ops']):
            what = op.get('name') or op['op']
            try:
                if op['op'] == 'save':
                    save.tables = [what]
                    save(path)
                else:
                    perform(op, [path])
                new = book.read_file(path)
            except Exception as e:
                out.violate('save fails', 'operation %d (%s): %s: %s' % (
                    i, what, type(e).__name__, e))
                return
            a, b = dict(old), dict(new)
            s = [x for x, _ in new]
            grown = [x for x in s if a.get(x) != b[x]]
            out.count('operations')
            out.event(i, what, grown)
            bad = None
            if s[:len(old)] != [x for x, _ in old] and not op.get('truncate'):
                bad = 'sheets %s instead of %s and more' % (
                    s, [x for x, _ in old])
            elif op['op'] == 'fit' and grown:
                bad = 'refitting changes %s' % grown
            elif op['op'] == 'put' and set(grown) - {op['sheet']}:
                bad = 'sheets %s change' % grown
            elif op['op'] == 'save':
                bad = holds(new, old)
                for x in grown:
                    h = max([r for r, _ in a.get(x, {})], default=0)
                    part = {(r - h, c): v for (r, c), v in b[x].items()
                            if r > h}
                    want = first.setdefault((what, x), part)
                    if part != want and not bad:
                        bad = 'the table saved below the first one in ' \
                            'sheet %r differs from it' % x
                if not bad and {x for w, x in first if w == what} != set(
                        grown):
                    bad = 'saved again in %s only' % grown
            if bad:
                out.violate('contents', 'operation %d (%s): %s' % (
                    i, what, bad))
                return
            old = new

    def compare(self, i, op, names, models, see, out, when):
        for n, m in zip(names, models):
            want = m.view()
            if not os.path.exists(n):
                if want:
                    out.violate('contents', '%soperation %d (%s): the file is '
                                'missing' % (when, i, op['op']))
                    return False
                continue
            with open(n, 'rb') as f:
                v = see(f.read())
            bad = 'unreadable: ' + v if isinstance(v, str) \
                else book.diff(v, want)
            out.event(i, op['op'], len(want), bad)
            if bad:
                out.violate('contents', '%soperation %d (%s %s): %s' % (
                    when, i, op['op'], {k: op[k] for k in (
                        'sheet', 'startrow', 'truncate', 'index', 'header')
                        if k in op}, bad))
                return False
        return True


class Keyboard:
    "standard input as a user: one answer, an interruption or nothing"

    def __init__(self, what, answer):
        self.what, self.answer, self.asked = what, answer, 0

    def readline(self, *a):
        self.asked += 1
        if self.what == 'interrupt':
            raise KeyboardInterrupt
        if self.what == 'broken':
            raise OSError(5, 'Input/output error')
        if self.what == 'eof' or self.asked > 5:
            return ''
        return self.answer + '\n'

    read = readline

    def fileno(self):
        raise OSError('no descriptor')

    def isatty(self):
        return False

    def __iter__(self):
        return self

    def __next__(self):
        x = self.readline()
        if not x:
            raise StopIteration
        return x

    def flush(self):
        pass
    errors = 'strict'
    encoding = 'utf-8'
    closed = False


YES = ['y', 'Y', 'yes', 'Yes', 'YES']
NO = ['n', 'N', 'no', 'No', 'NO', '', 'q', '0', '1', 'yn', 'ny', 'yellow',
      'not yes', 'Yesterday', 'maybe', 'cancel', 'nein', '?', 'overwrite',
      'true', 'True', 'no y', 'yesno']


class P03(Check):
    id = 'P03'
    technique = ('deterministic simulation of the user and the file system: '
                 'seeded answers, interruptions and failing deletions')
    rule = ('random existing or missing results files (workbooks, other '
            'bytes, empty, directory, link), answers, interruptions and '
            'faults of the deletion; by itself and as first step of a whole '
            'run; non-trivial: a file existed')
    n_quick = 4000
    n_thorough = 12000
    shim = True
    real = ['src/divers/excel.py', 'src/BELLA/optimiser.py (in a third of '
            'the runs)']
    stub = ['the user (standard input)', 'failing file-system calls', 'clock',
            'src.CLA']

    def gen(self, R, tier):
        user = R.choice(['yes', 'yes', 'no', 'no', 'no', 'no', 'eof',
                         'interrupt', 'broken'])
        return dict(user=user,
                    answer=R.choice(YES if user == 'yes' else NO),
                    exists=R.choice(['bytes', 'bytes', 'book', 'book', 'empty',
                                     'dir', 'link', 'no']),
                    rel=R.random() < .3, data=R.randrange(1 << 30),
                    unlink=R.choice([None, None, None, 'EIO', 'EACCES',
                                     'EBUSY', 'EROFS', 'EPERM']),
                    whole=R.random() < .35, name=R.choice(
                        ['r.xlsx', 'a b.xlsx', 'results', 'ü.xlsx']),
                    seed=R.randrange(1 << 30))

    def shrink(self, case):
        for k, v in (('rel', False), ('whole', False), ('unlink', None),
                     ('name', 'r.xlsx'), ('exists', 'bytes'), ('answer', 'n'),
                     ('answer', 'y')):
            if case[k] != v:
                if k == 'answer' and (case['user'] == 'yes') != (v == 'y'):
                    continue
                yield dict(case, **{k: v})

    def run(self, case, out, scratch):
        from src.divers import excel
        from .. import workload as W
        clk = clock.SimClock()
        clock.use(clk)
        d = os.path.realpath(os.path.join(scratch, 'd'))
        os.mkdir(d)
        path = os.path.join(d, case['name'])
        R = random.Random(case['data'])
        kind = case['exists']
        if kind == 'bytes':
            open(path, 'wb').write(R.randbytes(R.randint(1, 9000)))
        elif kind == 'empty':
            open(path, 'wb').close()
        elif kind == 'dir':
            os.mkdir(path)
            open(os.path.join(path, 'x'), 'wb').write(b'x')
        elif kind == 'link':
            open(os.path.join(d, 'target'), 'wb').write(b'target')
            os.symlink('target', path)
        elif kind == 'book':
            import openpyxl
            wb = openpyxl.Workbook()
            wb.active['A1'] = 'old'
            wb.save(path)
        open(os.path.join(d, 'other.xlsx'), 'wb').write(b'other')
        arg = path
        if case['rel']:
            os.chdir(d)
            arg = case['name']
        before = fsim.snapshot(d)
        names = sorted(os.listdir(d))
        faults = []
        if case['unlink']:
            faults = [dict(at=0, kind='errno', err=case['unlink'],
                           ops=['unlink', 'rename', 'truncate'])]
        setup = None
        if case['whole']:
            if not case['name'].endswith('.xlsx'):
                arg = arg + '.xlsx' if kind == 'no' else arg
            p = W.gen_problem(random.Random(case['seed']), rules='none',
                              n_panels=2, base=8, steps=(2,))
            p['params'].update(n_ini_ply_drops=1, time_limit_all_pdls=.05,
                               time_limit_group_pdl=.01, save_buckling=False)
            setup = W.build(p)
        kb = Keyboard('yes' if case['user'] in ('yes', 'no') else case['user'],
                      case['answer'])
        keep = sys.stdin
        sys.stdin = kb
        random.seed(case['seed'])
        state = random.getstate()
        reads = clk.reads
        err, result = None, None
        try:
            with fsim.Recorder(d, faults) as rec:
                with W.quiet():
                    try:
                        if setup:
                            result = W.optimise(setup, arg)
                        else:
                            excel.delete_file(arg)
                    except BaseException as e:
                        err = e
                        if type(e).__name__ == 'Hang':
                            raise
        finally:
            sys.stdin = keep
        rec.note(out)
        out.count('fault:user ' + case['user'])
        exists = kind != 'no'
        out.nontrivial = exists
        after = fsim.snapshot(d)
        out.event(case['user'], case['answer'], kind, 'asked', kb.asked,
                  'error', type(err).__name__, 'files', sorted(
                      os.path.basename(x) for x in after))
        consent = case['user'] == 'yes'

        def unchanged():
            return after == before and sorted(os.listdir(d)) == names
        others = {p: b for p, b in before.items() if p != path}
        if not setup and {p: b for p, b in after.items()
                          if p != path} != others or (setup and any(
                              after.get(p) != b for p, b in others.items())):
            out.violate('other file', 'a file other than the results file '
                        'changed')
            return
        if not exists:
            if kb.asked:
                out.violate('asked', 'the user is asked although there is no '
                            'file')
            elif err is not None and not (
                    setup and (rec.struck or W.stated_infeasible(err))):
                out.violate('error', 'without an existing file: %s' %
                            W.describe(err))
            return
        if kb.asked == 0:
            out.violate('not asked', 'an existing file was %s without asking'
                        % ('kept' if unchanged() else 'changed'))
            return
        if not consent:
            if err is None:
                out.violate('run goes on', 'the user (%s %r) did not agree, '
                            'but the run went on' % (case['user'],
                                                     case['answer']))
            elif not unchanged():
                out.violate('lost', 'the user (%s %r) did not agree, but the '
                            'files changed' % (case['user'], case['answer']))
            elif random.getstate() != state:
                out.violate('run goes on', 'design work was done although the '
                            'user (%s %r) did not agree' % (
                                case['user'], case['answer']))
            return
        if kind == 'dir' or rec.struck:
            if err is None and not setup:
                out.violate('silent failure', 'the file could not be deleted, '
                            'but no error was reported')
            elif err is None and setup and kind != 'dir' \
                    and case['unlink'] and not rec.struck:
                pass
            elif not setup and not unchanged():
                out.violate('lost', 'the deletion failed, but the files '
                            'changed')
            elif setup and err is not None and random.getstate() == state \
                    and not unchanged():
                out.violate('lost', 'the deletion failed, but the files '
                            'changed')
            elif setup and kind == 'dir' and not os.path.isfile(
                    os.path.join(path, 'x')):
                out.violate('lost', 'a directory was emptied')
            elif err is None or random.getstate() != state:
                if setup and (kind == 'dir' or rec.struck):
                    out.violate('run goes on', 'the deletion failed, but the '
                                'run went on')
            return
        if setup:
            if err is not None and not W.stated_infeasible(err) \
                    and case['name'].endswith('.xlsx'):
                out.violate('error', 'after the user agreed: %s'
                            % W.describe(err))
            return
        if err is not None:
            out.violate('error', 'after the user agreed: %s'
                        % W.describe(err))
        elif os.path.lexists(path):
            out.violate('kept', 'the user agreed, but the file is still there')
