"""Reading and writing workbooks independently of the code under test (plain
openpyxl), and the reference model of a workbook."""
import io
import math

import openpyxl


class Unreadable(Exception):
    pass


def norm(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, float)):
        if isinstance(v, float) and math.isnan(v):
            return None
        f = float(v)
        return int(f) if f == int(f) and abs(f) < 2**53 else f
    if v is None or v == '':
        return None
    return v


def read(data):
    """[(sheet name, {(row, column): value})] of the bytes of a workbook"""
    try:
        wb = openpyxl.load_workbook(io.BytesIO(data))
    except Exception as e:
        raise Unreadable('%s: %s' % (type(e).__name__, e))
    out = []
    for ws in wb.worksheets:
        cells = {}
        for row in ws.iter_rows():
            for c in row:
                v = norm(c.value)
                if v is not None:
                    cells[(c.row, c.column)] = v
        out.append((ws.title, cells))
    return out


def read_file(path):
    with open(path, 'rb') as f:
        return read(f.read())


class Model:
    "reference model of one workbook"

    def __init__(self):
        self.sheets = []          # names in order
        self.cells = {}
        self.height = {}

    def copy(self):
        m = Model()
        m.sheets = list(self.sheets)
        m.cells = {k: dict(v) for k, v in self.cells.items()}
        m.height = dict(self.height)
        return m

    def put(self, sheet, table, startrow=None, truncate=False, index=True,
            header=True):
        """table: {'columns': [...], 'index': [...], 'rows': [[...]]}"""
        if sheet not in self.cells:
            self.sheets.append(sheet)
            self.cells[sheet] = {}
            self.height[sheet] = 0
            base = 0 if startrow is None else startrow
        else:
            base = self.height[sheet] if startrow is None else startrow
            if truncate:
                self.cells[sheet] = {}
                self.height[sheet] = 0
        cells = self.cells[sheet]
        r = base + 1
        off = 1 if index else 0

        def setc(row, col, v):
            v = norm(v)
            if v is None:
                cells.pop((row, col), None)
            else:
                cells[(row, col)] = v
            self.height[sheet] = max(self.height[sheet], row)
        if header:
            for j, c in enumerate(table['columns']):
                setc(r, 1 + off + j, c)
            r += 1
        for i, row in enumerate(table['rows']):
            if index:
                setc(r, 1, table['index'][i])
            for j, v in enumerate(row):
                setc(r, 1 + off + j, v)
            r += 1

    def view(self):
        return [(s, dict(self.cells[s])) for s in self.sheets]


def diff(got, want):
    "first difference between two views, as text"
    a, b = [s for s, _ in got], [s for s, _ in want]
    if a != b:
        return 'sheets %r instead of %r' % (a, b)
    for (s, x), (_, y) in zip(got, want):
        for k in sorted(set(x) | set(y)):
            if not same(x.get(k), y.get(k)):
                return 'sheet %r cell %s: %r instead of %r' % (
                    s, k, x.get(k), y.get(k))
    return None


def same(x, y):
    if isinstance(x, bool) != isinstance(y, bool):
        return False
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return x == y or abs(x - y) <= 1e-14*max(abs(x), abs(y))
    return x == y
