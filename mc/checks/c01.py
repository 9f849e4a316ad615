"""C01: Fourier interpolation equals the direct minimum-image sum."""
import itertools

import numpy as np

from mc import gen

TECHNIQUE = ('bounded-exhaustive enumeration of cells x supercells x cell '
             'orders x bases x q-points against a direct-summation model')
NOTE = ('Every combination of the stated alphabets executed on the real code '
        '(Python and C) and compared with an independent direct sum; force '
        'constant values are fixed per configuration, supercells are not '
        'strongly skewed.')
RULE = ('one state per (cell, basis, supercell, cell order, engine, '
        'force constants) configuration, one transition per q-point result')
ASSUMPTIONS = [
    'cell 0 of the force constants is the cell at the origin',
    'interatomic distances are either equal or differ by more than the '
    "code's Wigner-Seitz tolerance", 'minimum images at most two supercells away']

SCS = {
    'p': np.eye(3, dtype=int), '211': np.diag([2, 1, 1]),
    '222': np.diag([2, 2, 2]), '331': np.diag([3, 3, 1]),
    '123': np.diag([1, 2, 3]), '411': np.diag([4, 1, 1]),
    '322': np.diag([3, 2, 2]),
    'conv': np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]),
    'shear': np.array([[1, 1, 0], [-1, 1, 0], [0, 0, 2]]),
    'neg': np.array([[0, 2, 0], [2, 0, 0], [0, 0, 1]]),
    'low': np.array([[2, 0, 0], [1, 2, 0], [0, 0, 1]]),
    'rot': np.array([[0, 0, 2], [1, 0, 0], [0, 3, 0]]),
    'low3': np.array([[2, 0, 0], [0, 2, 0], [1, 1, 2]]),
    'bcc': np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]),
}
Q = np.array([
    [0, 0, 0], [.5, 0, 0], [0, .5, .5], [.5, .5, .5], [1/3, 1/3, 0],
    [.25, 0, .75], [.1, .2, .3], [-.1, -.2, -.3], [.37, -.21, .08],
    [1.1, -.8, 2.3], [1, 0, 0], [-2, 3, 1], [.5, 1.5, -.5],
    [1e-3, 0, 0], [.123, .456, .789], [-.877, 1.456, -3.211]])
ORDERS = ('lex', 'reversed', 'rotated', 'outside')


def order_origins(og, sc, kind):
    og = og.copy()
    if kind == 'reversed':
        og[1:] = og[1:][::-1]
    elif kind == 'rotated':
        og[1:] = np.roll(og[1:], 1, axis=0)
    elif kind == 'outside':
        t = [(0, 0, 0), (1, 0, 0), (0, -1, 0), (0, 0, 1), (-1, 1, 0)]
        for k in range(1, len(og)):
            og[k] += np.array(t[k % 5]) @ sc
    return og


def units(tier):
    for cell in gen.CELLS:
        for basis in ('one', 'cscl', 'dia', 'gen2', 'out2', 'gen3'):
            yield f'{cell}/{basis}', dict(cell=cell, basis=basis)


def run(ctx, cell, basis):
    from mc import ref
    crys = gen.crystal(cell, basis)
    bohr = crys.cell_vectors.to('bohr').magnitude
    skipped = 0
    for scn, sc in SCS.items():
        og = gen.lattice_points(sc)
        for kind in ORDERS:
            if len(og) < 3 and kind not in ('lex', 'outside'):
                continue
            if not ctx.thorough and len(og) > 8 and kind in (
                    'reversed', 'rotated'):
                continue
            o = order_origins(og, sc, kind)
            images = ref.Images(bohr, sc, crys.atom_r, o)
            if not images.clear or images.reach > 2:
                skipped += 1
                continue
            for seed in range(1 if not ctx.thorough else 4):
                fc = gen.force_constants(
                    cell, basis, sc, origins=o, seed=seed, crys=crys,
                    unit=('hartree/bohr**2', 'meV/angstrom**2')[seed % 2])
                ds = [ref.dyn(fc, q, images) for q in Q]
                for engine, red in itertools.product((True, False),
                                                     (True, False)):
                    case = dict(cell=cell, basis=basis, sc=sc, order=kind,
                                use_c=engine, reduce_qpts=red, seed=seed)
                    ctx.case = case
                    ctx.state(case)
                    m = fc.calculate_qpoint_phonon_modes(
                        Q, use_c=engine, reduce_qpts=red, n_threads=1)
                    f = fc.calculate_qpoint_frequencies(
                        Q, use_c=engine, reduce_qpts=red, n_threads=1)
                    ctx.transition(2*len(Q))
                    ctx.check(np.array_equal(m.qpts, Q)
                              and np.array_equal(f.qpts, Q),
                              'q-points changed', case)
                    ctx.check(np.allclose(
                        m.frequencies.magnitude, f.frequencies.magnitude,
                        rtol=1e-9, atol=1e-6),
                        'frequency-only result differs', case)
                    lams = ref.lam(m.frequencies)
                    for k, q in enumerate(Q):
                        if not ref.check_modes(
                                ctx, ds[k], lams[k], m.eigenvectors[k],
                                dict(case, q=q)):
                            break
                    ctx.outcome(np.round(lams[8], 12).tobytes())
                    ctx.trace()
                    # real force constants: D(-q) = conj(D(q))
                    ctx.check(np.allclose(lams[6], lams[7], rtol=1e-9,
                                          atol=1e-15),
                              'frequencies not even in q', case)
    ctx.add('skipped_near_ties', skipped)
    ctx.sample(case)
