"""One whole optimisation in the simulated world: clock, random stream, user,
disk contents and interruptions all decided by the case."""
import builtins
import os
import pickle
import sys
import tempfile

import numpy as np

from . import clock, core, oracle, workload as W
from .layouts import gen_layout, write_layouts
from .randoms import Stream, gen_stream


def gen_world(R, tier, rules=None, source=None, small=False, without=(),
              wide=None, **kw):
    "a problem and the world it is solved in"
    if small:
        kw.setdefault('base', R.choice([6, 8, 8, 10, 12]))
        kw.setdefault('n_panels', R.choice([2, 2, 3]))
        kw.setdefault('steps', (0, 2, 2, 4))
    else:
        kw.setdefault('base', R.choice([6, 8, 8, 10, 10, 12, 12, 14, 16, 20]))
        kw.setdefault('n_panels', R.choice([2, 2, 3, 3, 4, 5]))
    if wide is not None:
        pass
    elif R.random() >= (.15 if small else .3):
        wide = ()
    else:
        wide = [x for x in R.sample(W.WIDE, R.choice([1, 1, 2]))
                if x not in without
                and (not small or x not in ('many', 'thick'))]
        if 'parameters' in wide:         # their branching limits are costly
            wide = ['parameters']
            kw['n_panels'] = min(kw['n_panels'], 3)
    if os.environ.get('VERIF_WIDE'):     # for trying out one kind
        wide = os.environ['VERIF_WIDE'].split(',')
    while True:
        p = W.gen_problem(R, rules, wide, **kw)
        c = p['constraints']
        if feasible(p):
            break
    if c['rule_10_Abdalla'] and (small or wide or R.random() < .5):
        c.update(rule_10_Abdalla=False, percent_Abdalla=0)
    tick = R.choice([.001, .01])
    p['params'].update(
        n_ini_ply_drops=R.choice([1, 1, 2, 3]),
        time_limit_group_pdl=round(tick*R.choice([1.5, 4.5, 10.5]), 6),
        time_limit_all_pdls=round(tick*R.choice([5.5, 30.5, 80.5]), 6))
    stalls = {}
    for _ in range(R.choice([0, 0, 1, 2])):
        stalls[R.randrange(1, 60)] = round(tick*R.choice([2, 30, 1000]), 6)
    w = dict(problem=p, tick=tick, stalls=stalls, stream=gen_stream(R))
    w['layouts'] = None
    if source is None:
        source = R.choice(['search', 'file'])
    if source == 'file':
        w['layouts'] = gen_layouts(R, p, R.choice([1, 1, 2, 3]))
    return w


def feasible(p):
    """with six plies the 10% rule cannot be satisfied; it and damage tolerance
    need their fibre angles"""
    c = p['constraints']
    a = set(c['set_of_angles'])
    if c['rule_10_percent'] and (min(p['n_plies']) < 8
                                 or not a >= {0, 45, -45, 90}):
        return False
    return not c['dam_tol'] or a >= {45, -45}


def gen_layouts(R, p, n):
    st = oracle.Strip(p)
    out, seen = [], set()
    for _ in range(4*n):
        x = gen_layout(R, st, p['constraints'])
        if str(x) not in seen:
            seen.add(str(x))
            out.append(x)
        if len(out) == n:
            break
    return out


class KillClock(clock.SimClock):
    "raises an interruption at one of its readings"
    kill_at = None

    def read(self):
        t = super().read()
        if self.kill_at is not None and self.reads - 1 == self.kill_at:
            raise KeyboardInterrupt()
        return t


class World:
    "what one simulated run did"
    error = None
    result = None
    raw = None
    asked = 0


SAVERS = ('save_constraints_BELLA', 'save_materials', 'save_parameters_BELLA',
          'save_objective_function_BELLA', 'save_multipanel',
          'save_result_BELLAs', 'autofit_column_widths')


class NoSaving:
    "leaves out the writing of the results workbook"

    def __enter__(self):
        import src.BELLA.optimiser as o
        self.mod = o
        self.keep = {n: getattr(o, n) for n in SAVERS if hasattr(o, n)}
        for n in self.keep:
            setattr(o, n, lambda *a, **k: 0)

    def __exit__(self, *a):
        for n, f in self.keep.items():
            setattr(self.mod, n, f)


class Nothing:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def simulate(case, scratch, setup=None, name='r.xlsx', save=True, answer='y',
             kill_at=None, around=None, clk=None, stream=None, layouts=0,
             random_seed=None):
    """Runs the problem of a case.  `setup`: objects to use instead of new
    ones.  `around`: a context manager within which the optimiser runs."""
    p = case['problem']
    w = World()
    w.path = os.path.join(scratch, name)
    if layouts == 0:
        layouts = case['layouts']
    lay = None
    if layouts is not None:
        lay = os.path.join(scratch, 'layouts_%s' % name)
        with open(lay, 'wb') as f:
            f.write(write_layouts(layouts))
    if clk is None:
        clk = KillClock(case['tick'], case['stalls'])
        clk.kill_at = kill_at
    real_input = builtins.input

    def fake_input(prompt=''):
        w.asked += 1
        return answer
    builtins.input = fake_input
    clock.use(clk)
    w.clk = clk
    t0 = clk.now
    w.setup = setup
    # no ply drops at all: stdout is noisy, errors matter
    try:
        with W.quiet():
            if setup is None:
                w.setup = W.build(p)
            with Stream(p['random_seed'] if random_seed is None
                        else random_seed, stream or case['stream']), \
                    (Nothing() if save else NoSaving()), \
                    (around or Nothing()):
                w.raw = W.optimise(w.setup, w.path, lay)
    except core.Hang:
        raise
    except BaseException as e:
        w.error = e
    finally:
        clock.use(None)
        builtins.input = real_input
    w.time = clk.now - t0
    if w.error is None:
        try:
            w.result = W.result_dict(w.raw)
        except Exception as e:
            w.error = e
    return w


def note(w, out):
    for k, v in w.clk.fired.items():
        if v:
            out.count('fault:clock ' + k, v)
    out.sim_time += w.time
    out.count('clock readings', w.clk.reads)


def outcome(w, out):
    """common handling of how a run ended: 'ok', 'stated' or 'internal' (an
    internal error is a violation)"""
    if w.error is None:
        out.count('runs with a design')
        return 'ok'
    if W.stated_infeasible(w.error):
        out.count('stated: ' + str(w.error).strip().split('\n')[0][:50])
        out.event('stated', W.describe(w.error))
        return 'stated'
    out.violate('internal error', W.describe(w.error))
    return 'internal'


def summary(d):
    return dict(best=d['best'], obj=d['obj_constraints_tab'], sst=d['sst_tab'])


def in_fork(f):
    "the value of f() computed in a child process"
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                data = pickle.dumps(('ok', f()))
            except BaseException as e:
                data = pickle.dumps(('error', repr(e)))
            with os.fdopen(wr, 'wb') as h:
                h.write(data)
        except BaseException:
            code = 3
        os._exit(code)
    os.close(wr)
    with os.fdopen(r, 'rb') as h:
        data = h.read()
    os.waitpid(pid, 0)
    kind, x = pickle.loads(data)
    if kind == 'error':
        raise RuntimeError('in child: ' + x)
    return x


def equal(a, b):
    "equality in which NaN equals NaN"
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(equal, a, b))
    return type(a) == type(b) and a == b


def first_difference(a, b):
    for k in a:
        if not equal(a[k], b.get(k)):
            return '%s: %s instead of %s' % (k, str(a[k])[:150],
                                             str(b.get(k))[:150])
    return None


# ------------------------------------------------------------------ minimiser
def shrink_world(case):
    for c in shrink_any(case):
        if feasible(c['problem']):
            yield c


def shrink_any(case):
    from .checks.search import shrink_structure      # noqa: late import
    p = case['problem']
    if case['stalls']:
        yield dict(case, stalls={})
    if case['stream'] != 'plain':
        yield dict(case, stream='plain')
    if case['layouts'] is None:
        if p['params']['n_ini_ply_drops'] > 1:
            yield with_params(case, n_ini_ply_drops=1)
        yield from shrink_structure(case)
    else:
        n = len(case['layouts'])
        for i in range(n):
            if n > 1:
                yield dict(case, layouts=case['layouts'][:i]
                           + case['layouts'][i + 1:])
        # shorter structures: same structure with layouts made anew
        for c in shrink_structure(case):
            R = core.seed_rng('shrink', core.canonical(c['problem']['n_plies']))
            try:
                yield dict(c, layouts=gen_layouts(R, c['problem'], n))
            except Exception:
                pass
    c = p['constraints']
    for k in ('bal', 'oopo', 'diso', 'contig', 'rule_10_percent',
              'rule_10_Abdalla', 'pdl_spacing', 'dam_tol', 'covering'):
        if c[k]:
            d = dict(c, **{k: False})
            if k == 'dam_tol':
                d['dam_tol_rule'] = 0
            if k == 'covering':
                d['n_covering'] = 0
            if k == 'rule_10_percent':
                d.update(rule_10_Abdalla=False, percent_Abdalla=0)
            if k == 'rule_10_Abdalla':
                d['percent_Abdalla'] = 0
            yield dict(case, problem=dict(p, constraints=d))
    o = p['objf']
    for k in ('coeff_diso', 'coeff_contig', 'coeff_10', 'coeff_bal_ipo',
              'coeff_spacing'):
        if o[k]:
            yield dict(case, problem=dict(p, objf=dict(o, **{k: 0})))
    q = p['params']
    for k, v in (('save_success_rate', False), ('save_buckling', False),
                 ('repair_membrane_switch', False),
                 ('repair_flexural_switch', False), ('global_node_limit', 1),
                 ('global_node_limit_final', 1), ('local_node_limit_final', 1),
                 ('local_node_limit', 1), ('global_node_limit2', 1),
                 ('local_node_limit2', 1), ('global_node_limit3', 1),
                 ('local_node_limit3', 1)):
        if q[k] != v:
            yield with_params(case, **{k: v})
    k = len(p['n_plies'])
    if p['lampam_weights'] != [[1.]*12]*k:
        yield dict(case, problem=dict(p, lampam_weights=[[1.]*12]*k))


def with_params(case, **kw):
    p = case['problem']
    return dict(case, problem=dict(p, params=dict(p['params'], **kw)))


def report(w, saved=False):
    "JSON-able account of a run"
    from . import book
    import json
    if w.error is not None:
        return dict(error='%s: %s' % (type(w.error).__name__,
                                      ' '.join(str(w.error).split())),
                    at=W.describe(w.error), stated=W.stated_infeasible(w.error))
    d = dict(w.result)
    if saved:
        try:
            d['workbook'] = [[s, sorted([r, c, v] for (r, c), v in x.items())]
                             for s, x in book.read_file(w.path)]
        except (OSError, book.Unreadable) as e:
            d['workbook'] = 'unreadable: %s' % e
    return json.loads(json.dumps(d))


def untimed_report(d):
    "without what depends on the clock"
    if not isinstance(d.get('workbook'), list):
        return d
    out = []
    for s, cells in d['workbook']:
        if s == 'Best Result':
            cols = [c for r, c, v in cells if v == 'time (s)']
            cells = [x for x in cells if x[1] not in cols]
        if s == 'Parameters':
            rows = [r for r, c, v in cells if str(v).startswith('time_limit')]
            cells = [x for x in cells if x[0] not in rows]
        out.append([s, cells])
    return dict(d, workbook=out)
