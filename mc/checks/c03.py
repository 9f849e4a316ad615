"""C03: long-range dipole correction and LO-TO splitting."""
import itertools

import numpy as np

from mc import gen

TECHNIQUE = ('bounded-exhaustive enumeration of crystals x dielectric/Born '
             'types x Ewald parameters x q-points and directions against an '
             'independent reciprocal-space Ewald model')
NOTE = ('All combinations of the alphabet run on the real Python and C code; '
        'tensors are fixed examples (isotropic, and fully anisotropic with '
        'off-diagonal elements).')
RULE = ('one state per (crystal, supercell, tensors, Ewald parameter, engine) '
        'or (crystal, supercell, unit system) configuration')
ASSUMPTIONS = ['Born charges are charge neutral (except for the single-atom crystal)', 'Ewald parameter 0.25..3']
SCS = {'p': np.eye(3, dtype=int), '211': np.diag([2, 1, 1]),
       '221': np.diag([2, 2, 1]),
       'shear': np.array([[1, 1, 0], [-1, 1, 0], [0, 0, 1]]),
       'low': np.array([[2, 0, 0], [1, 1, 0], [0, 0, 1]]),
       'rot': np.array([[0, 0, 2], [1, 0, 0], [0, 1, 0]]),
       'bcc': np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]])}
Q = np.array([[.5, 0, 0], [.1, .2, .3], [.25, .5, .75], [0, 0, 1e-4],
              [.9, .1, -2.2], [1e-3, 1e-3, 0], [0, 0, 0], [1, -1, 0]])
DIRS = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, -2, .5],
                 [-1, 0, 0], [.3, .3, .3]])
CELLS = ('cubic', 'fcc', 'hex', 'tric', 'ortho', 'left')


def units(tier):
    for cell in CELLS:
        for basis in ('one', 'cscl', 'dia', 'gen2', 'out2', 'gen3'):
            for kind in ('iso', 'aniso'):
                if tier == 'quick' and kind == 'iso' and basis != 'cscl':
                    continue
                yield f'{cell}/{basis}/{kind}', dict(cell=cell, basis=basis,
                                                     kind=kind)


def run(ctx, cell, basis, kind):
    from euphonic import ForceConstants, ureg
    from mc import ref
    crys = gen.crystal(cell, basis)
    n = crys.n_atoms
    bohr = crys.cell_vectors.to('bohr').magnitude
    z, eps = gen.born_charges(basis, kind)
    dip = ref.Dipole(bohr, crys.atom_r, z, eps)
    sm = np.sqrt(np.repeat(ref.masses(crys), 3))
    weight = 1/np.outer(sm, sm)
    dd = {tuple(q): dip(q)*weight for q in Q}
    scale = 0.1*weight.max()

    # 1. absolute values, independence of the Ewald parameter
    for scn in ('p', '211', 'shear'):
        sc = SCS[scn]
        og = gen.lattice_points(sc)
        images = ref.Images(bohr, sc, crys.atom_r, og)
        if not images.clear or images.reach > 2:
            continue
        fc = gen.force_constants(cell, basis, sc, born=kind, asr='exact',
                                 crys=crys)
        want = [ref.dyn(fc, q, images) + dd[tuple(q)] for q in Q]
        gamma = ref.dyn(fc, np.zeros(3), images) + dip(np.zeros(3))*weight
        pars = (0.4, 1.0, 2.0) if not ctx.thorough else (
            0.25, 0.4, 0.7, 1.0, 1.4, 2.0, 3.0)
        for par, eng in itertools.product(pars, (True, False)):
            case = dict(cell=cell, basis=basis, tensors=kind, sc=scn,
                        dipole_parameter=par, use_c=eng)
            ctx.case = case
            ctx.state(case)
            m = fc.calculate_qpoint_phonon_modes(
                Q, dipole_parameter=par, use_c=eng, n_threads=1,
                splitting=False)
            ctx.transition(len(Q))
            lam = ref.lam(m.frequencies)
            for k, q in enumerate(Q):
                ref.check_modes(ctx, want[k], lam[k], m.eigenvectors[k],
                                dict(case, q=q), tol=1e-8, scale=scale)
            # dipole=False must leave it out altogether
            m0 = fc.calculate_qpoint_phonon_modes(
                Q[:3], dipole_parameter=par, use_c=eng, n_threads=1,
                dipole=False)
            for k in range(3):
                ref.check_modes(ctx, ref.dyn(fc, Q[k], images),
                                ref.lam(m0.frequencies)[k],
                                m0.eigenvectors[k], dict(case, dipole=False),
                                tol=1e-8, scale=scale)
            ctx.trace()
            ctx.outcome(np.round(lam, 14).tobytes())
            # 2. LO-TO splitting in every direction, any approach length,
            #    gamma first / last / interior
            for d, length in itertools.product(DIRS, (1e-3, .2, .45)):
                q = d*length
                paths = [np.array([[0, 0, 0], q]), np.array([-q, [0, 0, 0]])]
                if length == .2:
                    paths.append(np.array([[.4, .4, .1], [0, 0, 0],
                                           [0, 0, 0], q]))
                for p in paths:
                    gi = [k for k, x in enumerate(p) if not x.any()]
                    g = gi[-1]
                    r = fc.calculate_qpoint_phonon_modes(
                        p, dipole_parameter=par, use_c=eng, n_threads=1,
                        insert_gamma=False)
                    ctx.transition(len(p))
                    dm = gamma + dip.nonanalytic(d)*weight
                    ref.check_modes(ctx, dm, ref.lam(r.frequencies)[g],
                                    r.eigenvectors[g],
                                    dict(case, path=p, at=g), tol=1e-8,
                                    what=' at gamma', scale=scale)
                # the reference itself: the limit is the direct one
                lim = dip(d*1e-5)*weight
                ctx.check(np.abs(lim - dip(np.zeros(3))*weight
                                 - dip.nonanalytic(d)*weight).max()
                          < 1e-3*scale, 'reference model inconsistent', case)

    # 3. from_total_fc_with_dipole, in every unit system
    for scn, sc in SCS.items():
        for order in ('lex', 'reversed'):
            og = gen.lattice_points(sc)
            if order == 'reversed':
                if len(og) < 3:
                    continue
                og[1:] = og[1:][::-1]
            sr, _ = gen.raw_fc(basis, sc, 3, 'exact', origins=og)
            inv = np.linalg.inv(sc.astype(float))
            # commensurate q: rows of inv(sc) combinations
            qs = [np.array(m) @ inv.T for m in gen.lattice_points(sc.T)]
            tot = sr.astype(complex)
            for q in qs:
                dq = dip(q)
                for k, o in enumerate(og):
                    tot[k] += dq*np.exp(-2j*np.pi*(q @ o))/len(og)
            ctx.check(np.abs(tot.imag).max() < 1e-9, 'model', scn)
            tot = tot.real
            for uf, ub, ue, ul in (
                    ('hartree/bohr**2', 'e', 'e**2/(bohr*hartree)',
                     'angstrom'),
                    ('eV/angstrom**2', 'coulomb',
                     'e**2/(angstrom*eV)', 'bohr'),
                    ('meV/nm**2', 'e', 'coulomb**2/(nm*joule)', 'nm')):
                case = dict(cell=cell, basis=basis, tensors=kind, sc=scn,
                            order=order, units=(uf, ub, ue, ul))
                ctx.case = case
                ctx.state(case)
                cr = gen.crystal(cell, basis, unit=ul)
                fc = ForceConstants.from_total_fc_with_dipole(
                    cr, tot*ureg('hartree/bohr**2').to(uf), sc.copy(),
                    og.copy(), z*ureg('e').to(ub),
                    eps*ureg('e**2/(bohr*hartree)').to(ue))
                ctx.transition()
                got = fc.force_constants.to('hartree/bohr**2').magnitude
                ctx.check(str(fc.force_constants.units) == str(
                    ureg(uf).units), 'units changed', case)
                ctx.check(np.allclose(
                    fc.born.to('e').magnitude, z, rtol=1e-9)
                    and np.allclose(fc.dielectric.to(
                        'e**2/(bohr*hartree)').magnitude, eps, rtol=1e-9),
                    'Born charges or dielectric changed', case)
                ctx.check(np.abs(got - sr).max() < 1e-8,
                          'short-range force constants wrong', case,
                          lambda: np.abs(got - sr).max())
                # and the round trip through the interpolation
                m = fc.calculate_qpoint_frequencies(
                    np.array(qs), splitting=False, n_threads=1)
                for k, q in enumerate(qs):
                    dq = np.tensordot(np.exp(2j*np.pi*(og @ q)), tot,
                                      (0, 0))*weight
                    ref.check_modes(ctx, dq, ref.lam(m.frequencies)[k], None,
                                    dict(case, q=q), tol=1e-7, scale=scale)
                ctx.trace()
    ctx.sample(ctx.case)
