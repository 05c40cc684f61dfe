"""Stand-in for the package `src.CLA`, which the repository imports but does
not contain (upstream ships it elsewhere).  Written from classical lamination
theory: lamination parameters are normalised through-thickness integrals of
[cos 2t, cos 4t, sin 2t, sin 4t].  It is a STUB: every evidence file says so.
"""
import sys
import types
import numpy as np


def _trig(angles):
    a = np.deg2rad(np.asarray(angles, dtype=float))
    return np.stack([np.cos(2*a), np.cos(4*a), np.sin(2*a), np.sin(4*a)],
                    axis=-1)


def _weights(n):
    edges = (2.0 / n) * np.arange(n + 1) - 1.0
    bot, top = edges[:-1], edges[1:]
    return (top - bot) / 2, (top**2 - bot**2) / 2, (top**3 - bot**3) / 2


def _lampam(ss):
    ss = np.asarray(ss)
    if ss.ndim != 1:
        ss = ss.reshape(-1)
    n = ss.size
    if n == 0:
        return np.zeros((12,), float)
    w_a, w_b, w_d = _weights(n)
    trig = _trig(ss)
    return np.hstack((w_a @ trig, w_b @ trig, w_d @ trig))


def calc_lampam(ss, constraints=None):
    if isinstance(ss, list) or (
            isinstance(ss, np.ndarray) and ss.dtype == object):
        return np.array([_lampam(s) for s in ss])
    ss = np.asarray(ss)
    if ss.ndim == 2:
        return np.array([_lampam(s) for s in ss])
    return _lampam(ss)


def calc_lampam_2(ss):
    return calc_lampam(ss)


def calc_lampamA(ss, constraints=None):
    return _lampam(ss)[0:4]


def calc_lampamD(ss, constraints=None):
    return _lampam(ss)[8:12]


def calc_lampam_from_delta_lp_matrix(ss, constraints, delta_lampams):
    lampam = np.zeros((12,), float)
    for ind in range(delta_lampams.shape[0]):
        lampam += delta_lampams[ind, constraints.ind_angles_dict[ss[ind]]]
    return lampam


def _not_modelled(*args, **kwargs):
    raise NotImplementedError('not modelled by the CLA stub')


def _from_lampam(lampam, mat):
    l1, l2, l3, l4 = lampam
    one = np.array([
        [mat.U1 + mat.U2*l1 + mat.U3*l2, mat.U4 - mat.U3*l2,
         0.5*mat.U2*l3 + mat.U3*l4],
        [mat.U4 - mat.U3*l2, mat.U1 - mat.U2*l1 + mat.U3*l2,
         0.5*mat.U2*l3 - mat.U3*l4],
        [0.5*mat.U2*l3 + mat.U3*l4, 0.5*mat.U2*l3 - mat.U3*l4,
         mat.U5 - mat.U3*l2]])
    return one


def A_from_lampam(lampam, mat):
    return _from_lampam(lampam[0:4], mat)


def B_from_lampam(lampam, mat):
    return _from_lampam(lampam[4:8], mat) / 4 \
        - np.array([[mat.U1, mat.U4, 0], [mat.U4, mat.U1, 0],
                    [0, 0, mat.U5]]) / 4


def D_from_lampam(lampam, mat):
    return _from_lampam(lampam[8:12], mat) / 12


def install():
    """Registers the stub, unless the tree under test brings the real one."""
    import importlib.util
    try:
        if importlib.util.find_spec('src.CLA.lampam_functions') is not None:
            return False
    except (ImportError, AttributeError, ValueError):
        pass
    pkg = types.ModuleType('src.CLA')
    pkg.__path__ = []
    lf = types.ModuleType('src.CLA.lampam_functions')
    for f in (calc_lampam, calc_lampam_2, calc_lampam_from_delta_lp_matrix):
        setattr(lf, f.__name__, f)
    lf.calc_delta_lampam = _not_modelled
    lf.calc_delta_lampam_mp_3 = _not_modelled
    lp2 = types.ModuleType('src.CLA.lp_functions_2')
    lp2.calc_lampamA = calc_lampamA
    lp2.calc_lampamD = calc_lampamD
    abd = types.ModuleType('src.CLA.ABD')
    abd.A_from_lampam = A_from_lampam
    abd.B_from_lampam = B_from_lampam
    abd.D_from_lampam = D_from_lampam
    pkg.lampam_functions, pkg.lp_functions_2, pkg.ABD = lf, lp2, abd
    sys.modules['src.CLA'] = pkg
    sys.modules['src.CLA.lampam_functions'] = lf
    sys.modules['src.CLA.lp_functions_2'] = lp2
    sys.modules['src.CLA.ABD'] = abd
    return True
