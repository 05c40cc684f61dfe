"""Independent reference definitions used to judge what the real code returns.

Everything here is written from the definitions (laminate theory, the lay-up
guidelines as documented in the repository's docstrings and README), in plain
Python, without calling the code under test.
A "problem" is the JSON dictionary made by `workload.gen_problem`.
"""
import math

SET4 = {0, 45, -45, 90}


# ------------------------------------------------------------------ laminates
def lampam(ss):
    "the 12 lamination parameters of a stacking sequence (first ply at z=-1)"
    n = len(ss)
    out = [0.0]*12
    for k, a in enumerate(ss):
        lo, hi = 2.0*k/n - 1.0, 2.0*(k + 1)/n - 1.0
        t = math.radians(a)
        f = (math.cos(2*t), math.cos(4*t), math.sin(2*t), math.sin(4*t))
        w = ((hi - lo)/2, (hi**2 - lo**2)/2, (hi**3 - lo**3)/2)
        for b in range(3):
            for i in range(4):
                out[4*b + i] += w[b]*f[i]
    return out


def angle_gap(a, b):
    d = abs(a - b) % 180
    return min(d, 180 - d)


def inner_part(ss, c):
    "the plies the disorientation rule applies to"
    if c['dam_tol'] and c['dam_tol_rule'] in (2, 3):
        return ss[1:-1]
    return ss


def n_diso(ss, c):
    "number of adjacent pairs whose angle change exceeds the limit"
    lim = c['delta_angle'] if c['diso'] else 180
    s = inner_part(ss, c)
    return sum(angle_gap(a, b) > lim for a, b in zip(s, s[1:]))


def runs(ss):
    out = []
    for a in ss:
        if out and out[-1][0] == a:
            out[-1][1] += 1
        else:
            out.append([a, 1])
    return out


def contig_excess(ss, c):
    "number of windows of n_contig+1 identical plies"
    if not c['contig']:
        return 0
    return sum(max(0, n - c['n_contig']) for _, n in runs(ss))


def is_balanced(ss, c):
    return all(ss.count(a) == ss.count(-a) for a in set(ss) if a not in (0, 90))


def is_dam_tol(ss, c):
    if not c['dam_tol']:
        return True
    r = c['dam_tol_rule']
    s45 = (45, -45)
    if r == 1:
        return ss[0] in s45 and ss[-1] in s45
    ok = all(x in s45 for x in (ss[0], ss[1], ss[-1], ss[-2]))
    if r == 2:
        ok = ok and ss[0] == -ss[1] and ss[-1] == -ss[-2]
    return ok


def percentages(c):
    p = {k: c.get('percent_' + k, 0)/100.0
         for k in ('0', '45', '90', '135', '45_135')}
    if not c['rule_10_percent'] or c['rule_10_Abdalla']:
        return {k: 0 for k in p}
    # +-45 limits apply jointly unless one of them is more restrictive
    if p['45'] > p['45_135']/2 + 1e-15 or p['135'] > p['45_135']/2 + 1e-15:
        p['45_135'] = 0
    else:
        p['45'] = p['135'] = 0
    return p


def penalty_10(ss, c):
    if not c['rule_10_percent']:
        return 0.0
    if c['rule_10_Abdalla']:
        return None
    p = percentages(c)
    n = float(len(ss))
    f = {'0': ss.count(0)/n, '45': ss.count(45)/n, '90': ss.count(90)/n,
         '135': ss.count(-45)/n}
    f['45_135'] = f['45'] + f['135']
    return sum(max(0, p[k] - f[k]) for k in p)


def abdalla_region(ss, c):
    """(g1, g2): both non-negative inside the feasible region of the lamination
    parameters for the 10% rule of Abdalla"""
    lp = lampam(ss)
    k = 1 - 4*c['percent_Abdalla']/100.0
    return k*k + k*lp[1] - 2*lp[0]**2, k - lp[1]


def ten_percent(ss, c, tol=1e-12):
    if not c['rule_10_percent']:
        return True
    if c['rule_10_Abdalla']:
        g1, g2 = abdalla_region(ss, c)
        return g1 > -tol and g2 > -tol
    return penalty_10(ss, c) < tol


def guidelines(ss, c):
    "names of the lay-up guidelines violated by a complete stacking sequence"
    bad = []
    if c['sym'] and list(ss) != list(ss)[::-1]:
        bad.append('symmetry')
    if c['bal'] and not is_balanced(ss, c):
        bad.append('balance')
    if not is_dam_tol(ss, c):
        bad.append('damage tolerance')
    if c['diso'] and n_diso(ss, c):
        bad.append('disorientation')
    if c['contig'] and any(n > c['n_contig'] for _, n in runs(ss)):
        bad.append('contiguity')
    if not ten_percent(ss, c):
        bad.append('10% rule')
    return bad


# -------------------------------------------------------------- blending strip
class Strip:
    """The blending strip of a problem: one strip panel per distinct ply count,
    ordered by thickness."""

    def __init__(self, p):
        n = p['n_plies']
        self.counts = sorted(set(n))
        self.of_panel = [self.counts.index(x) for x in n]
        self.first = [n.index(x) for x in self.counts]
        self.weights = [sum(w for w, x in zip(p['weightings'], n) if x == y)
                        for y in self.counts]
        r = p['params']['n_plies_ref_panel']
        if r <= self.counts[0]:
            self.ref = 0
        elif r >= self.counts[-1]:
            self.ref = len(self.counts) - 1
        else:
            self.ref = next(i for i, x in enumerate(self.counts) if x >= r)
        # boundaries between the strip panels, with aggregated weights
        bw = boundary_weights(p)
        self.bweights = {}
        for (a, b), w in bw.items():
            i, j = sorted((self.of_panel[a], self.of_panel[b]))
            if i != j:
                self.bweights[(i, j)] = self.bweights.get((i, j), 0) + w


def boundaries(p):
    "panel boundaries as sorted pairs of panel indices"
    pos = {x: i for i, x in enumerate(p['ids'])}
    out = set()
    for i, neigh in enumerate(p['neighbours']):
        for x in neigh:
            out.add(tuple(sorted((i, pos[x]))))
    return sorted(out)


def boundary_weights(p):
    pos = {x: i for i, x in enumerate(p['ids'])}
    if p.get('boundary_weights') is None:
        return {b: 1 for b in boundaries(p)}
    w = {tuple(sorted((pos[a], pos[b]))): x for a, b, x in p['boundary_weights']}
    return {b: w[b] for b in boundaries(p)}


def effective_weights(p, i):
    "lamination-parameter weightings of panel i in the objective function"
    c = p['constraints']
    w = list(p['lampam_weights'][i])
    four = set(c['set_of_angles']) == SET4
    if c['sym']:
        for k in (4, 5, 6, 7):
            w[k] = 0.0
    if four:
        w[3] = w[7] = w[11] = 0.0
    if c['bal']:
        w[2] = w[3] = 0.0
    if c['oopo']:
        w[10] = w[11] = 0.0
    nz = [x for x in w if x != 0]
    mean = sum(nz)/len(nz)
    if c['oopo']:
        w[10] = mean*p['objf'].get('coeff_oopo', 1)
        if not four:
            w[11] = mean*p['objf'].get('coeff_oopo', 1)
    s = sum(w)
    return [x/s for x in w]


def effective_target(p, i):
    c = p['constraints']
    t = list(p['targets'][i])
    if c['sym']:
        for k in (4, 5, 6, 7):
            t[k] = 0.0
    if c['bal']:
        t[2] = t[3] = 0.0
    if c['oopo']:
        t[10] = t[11] = 0.0
    return t


def panel_objective(p, i, ss):
    lp = lampam(ss)
    w, t = effective_weights(p, i), effective_target(p, i)
    return sum(a*(x - y)**2 for a, x, y in zip(w, lp, t))


def total_objective(p, strip, strip_ss):
    """objective function of a design (stacking sequence per strip panel);
    None when it depends on the distance to the Abdalla region"""
    c, o = p['constraints'], p['objf']
    tot = 0.0
    for k, ss in enumerate(strip_ss):
        x = panel_objective(p, strip.first[k], ss)
        if c['diso']:
            x *= 1 + o.get('coeff_diso', 0)*n_diso(ss, c)/len(ss)
        if c['contig']:
            x *= 1 + o.get('coeff_contig', 0)*contig_count(ss, c)/len(ss)
        if c['rule_10_percent'] and o.get('coeff_10', 0):
            p10 = penalty_10(ss, c)
            if p10 is None:
                if not ten_percent(ss, c, -1e-9):
                    return None
                p10 = 0.0
            x *= 1 + o.get('coeff_10', 0)*p10
        tot += strip.weights[k]*x
    return tot


def contig_count(ss, c):
    """violations of the contiguity rule as counted in the objective: every
    window of n_contig+1 identical plies counts"""
    return contig_excess(inner_part(ss, c), c)


def spacing_penalty(layout, strip, c):
    """ply-drop spacing penalty of a strip layout (lists, -1 for a drop): per
    boundary, missing continuous plies between ply drops over the length"""
    if not c['pdl_spacing']:
        return 0.0
    tot = 0.0
    for (a, b), w in strip.bweights.items():
        la, lb = layout[a], layout[b]
        thick, thin = [], []
        for x, y in zip(la, lb):
            if x != -1 or y != -1:
                thick.append(x)
                thin.append(y)
        one = thick if -1 in thick else thin
        drops = [i for i, x in enumerate(one) if x == -1]
        miss = sum(max(0, c['min_drop'] - (j - i - 1))
                   for i, j in zip(drops, drops[1:]))
        tot += w*miss/len(one) if one else 0
    return tot


def check_layout(layout, strip, c):
    """problems of one strip ply-drop layout: list of strings"""
    bad = []
    n_max = strip.counts[-1]
    if len(layout) != len(strip.counts):
        return ['%d panels instead of %d' % (len(layout), len(strip.counts))]
    for k, row in enumerate(layout):
        if len(row) != n_max:
            return ['row %d of length %d instead of %d' % (k, len(row), n_max)]
        cover = sum(x != -1 for x in row)
        if cover != strip.counts[k]:
            bad.append('panel with %d plies covered by %d'
                       % (strip.counts[k], cover))
    if any(x == -1 for x in layout[-1]):
        bad.append('ply dropped in the thickest panel')
    for k in range(len(layout) - 1):
        for x, y in zip(layout[k], layout[k + 1]):
            if x != -1 and y == -1:
                bad.append('ply of panel %d dropped in the thicker panel %d'
                           % (k, k + 1))
                break
    for k, row in enumerate(layout):
        d = [x == -1 for x in row]
        if c['sym'] and d != d[::-1]:
            bad.append('ply drops of panel %d not symmetric' % k)
        if c['covering'] or c['dam_tol']:
            m = n_covering(c)
            if any(d[:m]) or any(d[len(d) - m:] if m else []):
                bad.append('covering ply of panel %d dropped' % k)
    return bad


def n_covering(c):
    n = c.get('n_covering', 0)
    if c['dam_tol']:
        n = max(n, 1) if c['dam_tol_rule'] == 1 else 2
    if c['covering'] or c['dam_tol']:
        return max(n, 1)
    return 0
