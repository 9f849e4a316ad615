"""Boring reference models for lattice dynamics, written from the definitions
in the documentation; shares no code with euphonic."""
import itertools

import numpy as np

from euphonic import ureg


class Images:
    """minimum images of every (cell l, atom i in cell 0, atom j in cell l)"""

    def __init__(self, cell, sc, atom_r, origins, shells=3,
                 margin=0.02):
        sc = np.asarray(sc)
        n = len(atom_r)
        rng = range(-shells, shells + 1)
        frac = np.array(list(itertools.product(rng, rng, rng)))
        tr = frac @ sc
        self.reach = 0          # furthest supercell translation used
        self.lattice = []           # [l][i][j] -> (k,3) integer vectors
        self.clear = True           # no near-ties
        metric = cell @ cell.T
        for o in origins:
            row = []
            for i in range(n):
                r = []
                for j in range(n):
                    vec = tr + o
                    d = vec + atom_r[j] - atom_r[i]
                    d2 = np.einsum('ij,jk,ik->i', d, metric, d)
                    m = d2.min()
                    near = d2 <= m + 1e-7*(1 + m)
                    band = d2 <= m*(1 + margin) + margin
                    if band.sum() != near.sum():
                        self.clear = False
                    r.append(vec[near])
                    self.reach = max(self.reach, np.abs(frac[near]).max())
                row.append(r)
            self.lattice.append(row)
        self.n = n


def masses(crystal):
    return crystal.atom_mass.to('electron_mass').magnitude


def dyn(fc, q, images, phi=None, grad=False):
    """mass-weighted dynamical matrix at q [, dD/dq Cartesian in bohr]"""
    crys = fc.crystal
    n = crys.n_atoms
    phi = (fc.force_constants.to('hartree/bohr**2').magnitude
           if phi is None else phi)
    mass = masses(crys)
    cell = crys.cell_vectors.to('bohr').magnitude
    d = np.zeros((3*n, 3*n), complex)
    g = np.zeros((3*n, 3*n, 3), complex)
    for c in range(len(phi)):
        for i in range(n):
            for j in range(n):
                vec = images.lattice[c][i][j]
                ph = np.exp(2j*np.pi*(vec @ q))/len(vec)
                blk = phi[c, 3*i:3*i+3, 3*j:3*j+3]/np.sqrt(mass[i]*mass[j])
                d[3*i:3*i+3, 3*j:3*j+3] += blk*ph.sum()
                if grad:
                    g[3*i:3*i+3, 3*j:3*j+3] += blk[:, :, None]*(
                        1j*(ph[:, None]*(vec @ cell)).sum(axis=0))
    return (d, g) if grad else d


def freq(lam):
    """eigenvalues (hartree) -> signed frequencies in meV"""
    return np.sign(lam)*np.sqrt(np.abs(lam))*ureg('hartree').to(
        'meV').magnitude


def lam(freqs):
    """signed frequencies Quantity -> eigenvalues in hartree**2"""
    f = freqs.to('hartree').magnitude
    return np.sign(f)*f**2


def check_modes(ctx, d, lams, evecs, case, tol=1e-9, what='', scale=None):
    """eigenvalues ascending and exact, eigenvectors an orthonormal eigenbasis
    (evecs (3n, n, 3) or None); d the reference dynamical matrix"""
    scale = np.abs(d).max() + 1e-30 if scale is None else scale
    ev = np.linalg.eigvalsh(0.5*(d + d.conj().T))
    ok = ctx.check(
        lams.shape == ev.shape and np.all(np.isfinite(lams))
        and np.abs(lams - ev).max() <= tol*scale*len(ev),
        'frequencies wrong' + what, case,
        lambda: dict(got=freq(lams), expected=freq(ev)))
    if not ok or evecs is None:
        return ok
    m = len(ev)
    v = evecs.reshape(m, m)
    ctx.check(np.abs(v.conj() @ v.T - np.eye(m)).max() < 1e-9,
              'eigenvectors not orthonormal' + what, case)
    res = np.abs(d @ v.T - v.T*lams[None, :]).max()
    return ctx.check(res <= 10*tol*scale*m,
                     'not an eigenvector of the dynamical matrix' + what, case,
                     lambda: dict(residual=res, scale=scale))


class Dipole:
    """Long-range dipole-dipole dynamical matrix (not mass weighted, atomic
    units) as a plain reciprocal-space sum with a Gaussian cut-off so wide
    that no real-space sum is needed."""

    def __init__(self, cell, atom_r, born, eps, reach=7.2):
        self.cell, self.r, self.z, self.eps = cell, atom_r, born, eps
        self.recip = 2*np.pi*np.linalg.inv(cell).T
        self.vol = abs(np.linalg.det(cell))
        n = len(atom_r)
        # shortest interatomic distance in the metric of 1/eps
        inv = np.linalg.inv(eps)
        sh = np.array(list(itertools.product(range(-2, 3), repeat=3)))
        dmin = np.inf
        for i in range(n):
            for j in range(n):
                d = (sh + atom_r[i] - atom_r[j]) @ cell
                d2 = np.einsum('ij,jk,ik->i', d, inv, d)
                d2 = d2[d2 > 1e-6]
                dmin = min(dmin, d2.min())
        self.lmb = reach*0.66/np.sqrt(dmin)
        kmax = 2*self.lmb*5.2/np.sqrt(np.linalg.eigvalsh(eps).min())
        lim = np.ceil(kmax*np.linalg.norm(cell, axis=1)/(2*np.pi)).astype(int)
        g = np.array(list(itertools.product(
            *[range(-k - 1, k + 2) for k in lim])))
        gc = g @ self.recip
        keep = np.linalg.norm(gc, axis=1) <= kmax + np.linalg.norm(
            self.recip, axis=1).sum()
        self.g = g[keep]
        self.self_term = None
        c0 = self._sum(np.zeros(3))
        tot = np.einsum('iaj,kbm,ikjm->iab', born, born, c0)
        self.q0 = 0.5*(tot + tot.transpose(0, 2, 1))

    def _sum(self, q):
        k = (self.g + q) @ self.recip
        kek = np.einsum('ij,jk,ik->i', k, self.eps, k)
        ok = kek > 1e-12
        k, kek, g = k[ok], kek[ok], self.g[ok]
        w = np.exp(-kek/(4*self.lmb**2))/kek*4*np.pi/self.vol
        ph = np.exp(2j*np.pi*((g + q) @ self.r.T))      # (G, n)
        kk = k[:, :, None]*k[:, None, :]*w[:, None, None]
        return np.einsum('gi,gk,gab->ikab', ph, ph.conj(), kk, optimize=True)

    def __call__(self, q):
        q = np.asarray(q, float)
        c = self._sum(q)
        n = len(self.r)
        d = np.einsum('iaj,kbm,ikjm->ikab', self.z, self.z, c, optimize=True)
        for i in range(n):
            d[i, i] -= self.q0[i]
        return d.transpose(0, 2, 1, 3).reshape(3*n, 3*n)

    def nonanalytic(self, qdir):
        """limit of D(q) - D(0) for q = t*qdir, t -> 0"""
        k = np.asarray(qdir, float) @ self.recip
        den = k @ self.eps @ k
        n = len(self.r)
        if den < 1e-14:
            return np.zeros((3*n, 3*n))
        zk = (self.z @ k).reshape(3*n)
        return 4*np.pi/self.vol*np.outer(zk, zk)/den


def spacegroup(cell, r, types, tol=1e-6):
    """All (W, w) with integer rotations (column convention r' = W r + w) that
    preserve the metric and map the atoms onto themselves, and for each the
    list j with atom i -> j. Brute force, for lattices whose symmetry
    operations have entries in {-1, 0, 1}."""
    g = cell @ cell.T
    rows = np.array(list(itertools.product((-1, 0, 1), repeat=3)))
    # a_i' = sum_j W_ji a_j must keep lengths and angles: W^T G W = G
    lens = np.einsum('ij,jk,ik->i', rows, g, rows)
    cand = [rows[np.abs(lens - g[i, i]) < tol*g[i, i]] for i in range(3)]
    out = []
    types = list(types)
    r = np.asarray(r, float)
    for a in cand[0]:
        for b in cand[1]:
            for c in cand[2]:
                w = np.array([a, b, c]).T
                if abs(abs(np.linalg.det(w)) - 1) > .1 or np.abs(
                        w.T @ g @ w - g).max() > tol*np.abs(g).max():
                    continue
                seen = []
                for j in range(len(r)):
                    if types[j] != types[0]:
                        continue
                    t = r[j] - w @ r[0]
                    t = t - np.floor(t + 1e-9)
                    if any(np.abs(((t - s) + .5) % 1 - .5).max() < 1e-7
                           for s in seen):
                        continue
                    m = match(cell, r, types, w, t, tol)
                    if m is not None:
                        seen.append(t)
                        out.append((w, t, m))
    return out


def match(cell, r, types, w, t, tol):
    m = []
    for i in range(len(r)):
        d = (w @ r[i] + t) - r
        d = (d + .5) % 1 - .5
        dist = np.linalg.norm(d @ cell, axis=1)
        j = int(dist.argmin())
        if dist[j] > tol*np.abs(cell).max() or types[j] != types[i] or j in m:
            return None
        m.append(j)
    return m
