"""Small force-constants objects with exact symmetries, shared by the checks.
Everything here is deterministic."""
import itertools

import numpy as np


def det_int(m):
    m = np.asarray(m)
    return int(round(np.linalg.det(m)))


def lattice_points(sc):
    """Cell origins inside the supercell spanned by the rows of sc, first one
    the zero vector, in lexicographic order of (z, y, x)-like enumeration."""
    sc = np.asarray(sc)
    n = abs(det_int(sc))
    inv = np.linalg.inv(sc.astype(float))
    lim = np.abs(sc).sum(axis=0).max() + 1
    out = []
    rng = range(-lim, lim + 1)
    for p in itertools.product(rng, rng, rng):
        f = np.array(p) @ inv
        if np.all(f > -1e-9) and np.all(f < 1 - 1e-9):
            out.append(p)
    out.sort(key=lambda p: (p != (0, 0, 0), p))
    assert len(out) == n, (out, n)
    return np.array(out, dtype=np.int32)


def reduce_key(p, sc, inv=None):
    """canonical representative of lattice vector p modulo the supercell"""
    inv = np.linalg.inv(np.asarray(sc, float)) if inv is None else inv
    f = np.asarray(p) @ inv
    f = f - np.floor(f + 1e-9)
    return tuple(np.rint(f @ np.asarray(sc, float)).astype(int))


CELLS = {
    'cubic': np.diag([4.0, 4.0, 4.0]),
    'ortho': np.diag([3.0, 4.1, 5.3]),
    'fcc': 2.7*np.array([[0., 1, 1], [1, 0, 1], [1, 1, 0]]),
    'hex': np.array([[3.1, 0, 0], [-1.55, 3.1*np.sqrt(3)/2, 0], [0, 0, 5.2]]),
    'tric': np.array([[3.7, 0.2, -0.3], [0.5, 4.2, 0.4], [-0.6, 0.3, 4.9]]),
    # left-handed
    'left': np.array([[0.5, 4.2, 0.4], [3.7, 0.2, -0.3], [-0.6, 0.3, 4.9]]),
    'bcc': 2.2*np.array([[-1., 1, 1], [1, -1, 1], [1, 1, -1]]),
}
BASES = {
    'one': (np.array([[0., 0, 0]]), ['Si']),
    'cscl': (np.array([[0., 0, 0], [.5, .5, .5]]), ['Cs', 'Cl']),
    'dia': (np.array([[0., 0, 0], [.25, .25, .25]]), ['Zn', 'S']),
    'gen2': (np.array([[0.07, 0.11, 0.93], [.41, .62, .27]]), ['Mg', 'O']),
    'out2': (np.array([[-0.1, 0.2, 1.1], [.5, 0., -.2]]), ['Mg', 'O']),
    'gen3': (np.array([[0., 0, 0], [.5, 0, .5], [.13, .52, .77]]),
             ['O', 'H', 'O']),
    'perov': (np.array([[0., 0, 0], [.5, .5, .5], [.5, .5, 0], [.5, 0, .5],
                        [0, .5, .5]]), ['Sr', 'Ti', 'O', 'O', 'O']),
}
MASS = dict(Si=28.0855, Cs=132.905, Cl=35.453, Zn=65.38, S=32.06, Mg=24.305,
            O=15.9994, H=1.00794, Sr=87.62, Ti=47.867, La=138.905, Al=26.98,
            Na=22.99, Nb=92.906)


def crystal(cell='cubic', basis='cscl', unit='angstrom', mass_unit='amu',
            scale=1.0):
    from euphonic import Crystal, ureg
    r, types = BASES[basis]
    return Crystal((CELLS[cell]*scale)*ureg('angstrom').to(unit), r.copy(),
                   np.array(types), np.array([MASS[t] for t in types])
                   * ureg('amu').to(mass_unit))


def raw_fc(basis, sc, seed=0, asr=None, onsite=0.5, decay=True, amp=0.05,
           origins=None):
    """(n_cells, 3n, 3n) symmetric force constants in hartree/bohr^2
    and the cell origins. asr: None (violated), 'exact'."""
    n = len(BASES[basis][0])
    origins = lattice_points(sc) if origins is None else origins
    nc = len(origins)
    inv = np.linalg.inv(np.asarray(sc, float))
    index = {reduce_key(p, sc, inv): k for k, p in enumerate(origins)}
    neg = [index[reduce_key(-p, sc, inv)] for p in origins]
    rng = np.random.default_rng(1000 + seed)
    # seed values by canonical lattice point so that they do not depend on
    # the order of the origins
    a = {}
    for key in sorted(index):
        a[key] = rng.uniform(-1, 1, (3*n, 3*n))
    fc = np.zeros((nc, 3*n, 3*n))
    for k, p in enumerate(origins):
        fc[k] = a[reduce_key(p, sc, inv)]*amp
        if decay and k:
            fc[k] /= 1 + 0.5*np.linalg.norm(p)
    fc = np.array([0.5*(fc[k] + fc[neg[k]].T) for k in range(nc)])
    i0 = index[(0, 0, 0)]
    fc[i0] += np.eye(3*n)*onsite*amp*4
    if asr == 'exact':
        fc = _exact_asr(fc, neg, i0, n, nc)
    return fc, origins


def _exact_asr(fc, neg, i0, n, nc):
    """project onto translational invariance + permutation symmetry"""
    fc = fc.copy()
    for _ in range(2000):
        tot = fc.reshape(nc, n, 3, n, 3).sum(axis=(0, 3))   # i,a,b
        if np.abs(tot).max() < 1e-17:
            break
        fc -= np.repeat(tot.reshape(n*3, 1, 3), n, axis=1).reshape(
            3*n, 3*n)[None]/(nc*n)
        fc = np.array([0.5*(fc[k] + fc[neg[k]].T) for k in range(nc)])
    assert np.abs(fc.reshape(nc, n, 3, n, 3).sum(axis=(0, 3))).max() < 1e-15
    return fc


def born_charges(basis, kind='aniso'):
    """charge-neutral Born charges and a dielectric tensor (atomic units)"""
    n = len(BASES[basis][0])
    rng = np.random.default_rng(77)
    if kind == 'iso':
        z = np.array([np.eye(3)*(1.4 if k % 2 else -1.4) for k in range(n)])
        eps = np.eye(3)*2.9
    else:
        z = rng.uniform(-.4, .4, (n, 3, 3)) + np.array(
            [np.eye(3)*(1.1 if k % 2 else -1.3) for k in range(n)])
        m = rng.uniform(-.3, .3, (3, 3))
        eps = np.diag([2.4, 3.1, 2.0]) + 0.5*(m + m.T)
    if n > 1:       # a single charged atom can only be a model
        z -= z.mean(axis=0)
    return z, eps


def force_constants(cell='cubic', basis='cscl', sc=((2, 0, 0), (0, 1, 0),
                                                    (0, 0, 1)),
                    seed=0, asr=None, born=None, onsite=0.5, origins=None,
                    unit='hartree/bohr**2', crys=None, decay=True, amp=0.05):
    from euphonic import ForceConstants, ureg
    sc = np.asarray(sc)
    fc, og = raw_fc(basis, sc, seed, asr, onsite, decay, amp, origins)
    crys = crystal(cell, basis) if crys is None else crys
    kw = {}
    if born:
        z, eps = born_charges(basis, born)
        kw = dict(born=z*ureg('e'),
                  dielectric=eps*ureg('e**2/(bohr*hartree)'))
    return ForceConstants(crys, fc*ureg('hartree/bohr**2').to(unit),
                          sc.copy(), og.copy(), **kw)
