"""C02: acoustic sum rule corrections."""
import itertools
import warnings

import numpy as np

from mc import gen

TECHNIQUE = ('bounded-exhaustive enumeration of crystals x supercells x '
             'degree of sum-rule violation x options x q-points against a '
             'model of the documented correction')
NOTE = ('Every combination of the alphabet is executed in Python and C and '
        'compared with the corrected dynamical matrix built independently; '
        'force-constant values are fixed per configuration.')
RULE = ('one state per (crystal, supercell, FC kind, asr, engine, dipole) '
        'configuration; one transition per q-point result')
ASSUMPTIONS = ['acoustic eigenvectors not degenerate with other modes when '
               'the sum rule is broken',
               'the short-range reference sum is the one C01 checks']
SCS = {'p': np.eye(3, dtype=int), '211': np.diag([2, 1, 1]),
       '222': np.diag([2, 2, 2]), 'shear': np.array(
           [[1, 1, 0], [-1, 1, 0], [0, 0, 2]]), '123': np.diag([1, 2, 3]),
       'bcc': np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]])}
Q = np.array([[0, 0, 0], [.5, 0, 0], [.1, .2, .3], [.25, .5, .75],
              [1, 0, -1], [.01, 0, 0], [-.37, .2, 1.4]])
LARGE = {'663': np.diag([6, 6, 3]), '465': np.array(
    [[5, 0, 0], [0, 4, 0], [1, 0, 6]]), 'big': np.diag([5, 5, 5])}
KINDS = ('exact', 'near', 'far', 'shifted')


def units(tier):
    for cell in ('cubic', 'fcc', 'hex', 'tric', 'ortho'):
        for basis in ('one', 'cscl', 'gen2', 'gen3'):
            yield f'{cell}/{basis}', dict(cell=cell, basis=basis)
    # the supercell-relative indices are found in chunks of 100 cells
    for cell, basis, sc in (('cubic', 'one', '663'), ('ortho', 'one', '465'),
                            ('cubic', 'cscl', 'big')):
        yield f'{cell}/{basis}/{sc}', dict(cell=cell, basis=basis, large=sc)


def make(cell, basis, sc, kind, crys, origins, born):
    """Force constants whose sum-rule violation is known"""
    n = crys.n_atoms
    exact, og = gen.raw_fc(basis, sc, 5, 'exact', origins=origins)
    # make it stable enough for the optic modes to be well separated
    phi = exact.copy()
    cells = len(og)
    full = np.eye(3*n)
    for i, j in itertools.product(range(n), range(n)):
        full[3*i:3*i+3, 3*j:3*j+3] -= np.eye(3)/n
    phi[0] += 0.8*full
    if kind == 'near':
        pert, _ = gen.raw_fc(basis, sc, 9, None, 0.02, origins=origins)
        phi += pert*0.02
    elif kind == 'far':
        pert, _ = gen.raw_fc(basis, sc, 9, None, 0.5, origins=origins)
        phi = pert*3
    elif kind == 'shifted':
        phi[0] += np.diag(np.tile([.003, .005, .008], n))
    from euphonic import ForceConstants, ureg
    kw = {}
    if born:
        z, eps = gen.born_charges(basis, born)
        kw = dict(born=z*0.3*ureg('e'),
                  dielectric=eps*ureg('e**2/(bohr*hartree)'))
    return ForceConstants(crys, phi*ureg('hartree/bohr**2'), sc.copy(),
                          og.copy(), **kw), phi, og


def acoustic(mat, n):
    """(found, evals, evecs as columns, indices) or None near the threshold"""
    ev, vec = np.linalg.eigh(0.5*(mat + mat.conj().T))
    com = np.array([np.sum(np.abs(vec[:, k].reshape(n, 3).sum(axis=0))**2)
                    for k in range(len(ev))])
    if np.any(np.abs(com/n - 0.5) < 0.02):
        return None
    idx = np.argsort(com)[-3:]
    return (com > 0.5*n).sum() >= 3, ev, vec, idx


def reference_real(phi, og, sc, n):
    inv = np.linalg.inv(sc.astype(float))
    index = {gen.reduce_key(p, sc, inv): k for k, p in enumerate(og)}
    nc = len(og)
    big = np.zeros((nc, 3*n, nc, 3*n))
    for a in range(nc):
        for b in range(nc):
            big[a, :, b] = phi[index[gen.reduce_key(og[b] - og[a], sc, inv)]]
    big = big.reshape(nc*3*n, nc*3*n)
    ac = acoustic(big, nc*n)
    if ac is None:
        return None
    found, ev, vec, idx = ac
    if found:
        for k in idx:
            big -= ev[k]*np.outer(vec[:, k], vec[:, k].conj())
    big = big.reshape(nc, 3*n, nc, 3*n)
    return found, np.array([big[0, :, b] for b in range(nc)])


def run(ctx, cell, basis, large=None):
    from mc import ref
    crys = gen.crystal(cell, basis)
    n = crys.n_atoms
    bohr = crys.cell_vectors.to('bohr').magnitude
    sm = np.sqrt(np.repeat(ref.masses(crys), 3))
    weight = 1/np.outer(sm, sm)
    for scn, sc in (SCS.items() if large is None
                    else [(large, LARGE[large])]):
        og = gen.lattice_points(sc)
        for order in ('lex', 'reversed' if large is None else 'stride'):
            o = og.copy()
            if order == 'reversed':
                if len(o) < 3:
                    continue
                o[1:] = o[1:][::-1]
            elif order == 'stride':
                k = len(o) - 1
                step = next(x for x in (7, 11, 13, 17, 19) if k % x)
                o[1:] = o[1:][(np.arange(k)*step) % k]
            images = ref.Images(bohr, sc, crys.atom_r, o)
            if not images.clear or images.reach > 2:
                ctx.add('skipped')
                continue
            for kind, born in itertools.product(KINDS, (None, 'aniso')):
                if large and (born or kind not in ('near', 'exact')):
                    continue
                if born and (n < 2 or order != 'lex'):
                    continue
                explore(ctx, ref, cell, basis, scn, sc, o, order, kind, born,
                        crys, images, weight, n)


def explore(ctx, ref, cell, basis, scn, sc, o, order, kind, born, crys,
            images, weight, n):
    fc, phi, og = make(cell, basis, sc, kind, crys, o, born)
    plain = {}
    for eng in (True, False):
        plain[eng] = fc.calculate_qpoint_phonon_modes(
            Q, use_c=eng, n_threads=1, splitting=False)
    ds = [ref.dyn(fc, q, images) for q in Q]
    if born:
        # the long-range part is what C03 checks; take it from the Python
        # engine through its eigen-decomposition
        m = plain[False]
        lam = ref.lam(m.frequencies)
        ds = []
        for k in range(len(Q)):
            v = m.eigenvectors[k].reshape(3*n, 3*n)
            ds.append((v.T*lam[k]) @ v.conj())
    for asr in ('reciprocal', 'realspace'):
        if asr == 'reciprocal':
            ac = acoustic(ds[0]/weight, n)
            if ac is None:
                ctx.add('ambiguous')
                continue
            found, ev, vec, idx = ac
            corr = np.zeros((3*n, 3*n), complex)
            if found:
                for k in idx:
                    corr -= ev[k]*np.outer(vec[:, k], vec[:, k].conj())
            want = [d + corr*weight for d in ds]
        else:
            r = reference_real(phi, og, sc, n)
            if r is None:
                ctx.add('ambiguous')
                continue
            found, phi2 = r
            diff = [ref.dyn(fc, q, images, phi2) - ref.dyn(fc, q, images)
                    for q in Q]
            want = [d + x for d, x in zip(ds, diff)]
        for eng in (True, False):
            case = dict(cell=cell, basis=basis, sc=scn, order=order,
                        fc=kind, born=born, asr=asr, use_c=eng)
            ctx.case = case
            ctx.state(case)
            fc = make(cell, basis, sc, kind, crys, o, born)[0]
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                m = fc.calculate_qpoint_phonon_modes(
                    Q, asr=asr, use_c=eng, n_threads=1, splitting=False)
            ctx.transition(len(Q))
            lam = ref.lam(m.frequencies)
            msg = [str(x.message) for x in w
                   if 'acoustic' in str(x.message).lower()]
            if not found:
                ctx.check(bool(msg) and all('mode gradient' not in x
                                            for x in msg),
                          'no warning for unidentified acoustic modes', case)
                ctx.check(np.allclose(
                    m.frequencies.magnitude, plain[eng].frequencies.magnitude,
                    rtol=1e-10, atol=1e-8), 'changed although acoustic modes '
                    'were not found', case)
            else:
                ctx.check(not msg, 'unexpected warning', case, str(msg))
            ctx.outcome((kind, found, asr))
            # the real-space correction leaves 1e-8 of the smallest
            # eigenvalue in the acoustic modes; the Ewald sums are truncated
            scale = 0.1*weight.max()*(
                1 if asr == 'reciprocal' and not born else 50)
            for k, q in enumerate(Q):
                ref.check_modes(ctx, want[k], lam[k], m.eigenvectors[k],
                                dict(case, q=q), tol=3e-9, scale=scale)
            if found and not (born and asr == 'realspace'):
                z = np.sort(np.abs(lam[0]))[:3]
                ctx.check(np.all(z <= 1e-9*scale), 'acoustic modes not zero',
                          case, lambda: ref.freq(lam[0]))
                ctx.add('zeroed')
            if kind == 'exact' and not born:
                ctx.check(found, 'acoustic modes not found', case)
                ctx.check(np.abs(lam - ref.lam(plain[eng].frequencies)).max()
                          <= 1e-9*scale,
                          'sum-rule-obeying force constants were changed',
                          case)
            ctx.trace()
    ctx.sample(ctx.case)
