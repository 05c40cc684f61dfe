"""Runs random problems with given ply-drop layouts (for demonstrations)."""
import os
import random

from . import oracle, workload as W
from .layouts import gen_layout, write_layouts

SAVERS = ('save_constraints_BELLA', 'save_materials', 'save_parameters_BELLA',
          'save_objective_function_BELLA', 'save_multipanel',
          'save_result_BELLAs', 'autofit_column_widths')


def problem(R, rules=None, **kw):
    "a random problem without the 10% rule of Abdalla"
    while True:
        p = W.gen_problem(R, rules, **kw)
        c = p['constraints']
        c.update(rule_10_Abdalla=False, percent_Abdalla=0)
        if min(p['n_plies']) >= 8 or not c['rule_10_percent']:
            return p


def layouts(R, p, n):
    out, seen = [], set()
    for _ in range(4*n):
        x = gen_layout(R, oracle.Strip(p), p['constraints'])
        if str(x) not in seen and len(out) < n:
            seen.add(str(x))
            out.append(x)
    return out


def run(p, layouts, save=False, setup=None, name='r.xlsx'):
    "the results of a run, or the exception it ended with"
    import src.BELLA.optimiser as o
    s = setup or W.build(p)
    if os.path.exists(name):
        os.remove(name)
    with open('layouts.xlsx', 'wb') as f:
        f.write(write_layouts(layouts))
    keep = {n: getattr(o, n) for n in SAVERS if hasattr(o, n)}
    if not save:
        for n in keep:
            setattr(o, n, lambda *a, **k: 0)
    random.seed(p['random_seed'])
    try:
        with W.quiet():
            return W.optimise(s, name, 'layouts.xlsx')
    except Exception as e:
        return e
    finally:
        for n, f in keep.items():
            setattr(o, n, f)
