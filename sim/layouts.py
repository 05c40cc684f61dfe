"""Valid ply-drop layouts and workbooks of them"""
import io

import openpyxl

from . import oracle


def gen_layout(R, strip, c):
    "a random valid layout of the strip panels, symmetric, as lists"
    n_max = strip.counts[-1]
    half = n_max//2
    m = oracle.n_covering(c) if c['covering'] or c['dam_tol'] else 0
    present = list(range(half))
    rows = []
    for n in reversed(strip.counts):
        free = [i for i in present if i >= m]
        drop = len(present) - n//2
        gone = set(R.sample(free, min(drop, len(free))))
        present = [i for i in present if i not in gone]
        k, row = 0, []
        for i in range(half):
            if i in present:
                row.append(k)
                k += 1
            else:
                row.append(-1)
        rows.append(row + row[::-1])
    return rows[::-1]


def write_layouts(layouts, R=None, extra=(), as_float=False):
    "bytes of a workbook with these layouts, sheets in random order"
    wb = openpyxl.Workbook()
    wb.remove(wb.active)
    names = ['pdl%d' % (i + 1) for i in range(len(layouts))] + list(extra)
    if R is not None:
        R.shuffle(names)
    for name in names:
        ws = wb.create_sheet(name)
        if name in extra:
            ws.append(['number of initial ply drops', 3])
            continue
        for row in layouts[int(name[3:]) - 1]:
            ws.append([float(x) if as_float and isinstance(x, int) else x
                       for x in row])
    if not names:
        wb.create_sheet('Sheet1')
    b = io.BytesIO()
    wb.save(b)
    return b.getvalue()
