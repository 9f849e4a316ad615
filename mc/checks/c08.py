"""C08: mode gradients."""
import itertools

import numpy as np

from mc import gen

TECHNIQUE = ('bounded-exhaustive enumeration of systems x option products on '
             'the real code against the derivative of an independent '
             'dynamical-matrix model and against finite differences')
NOTE = ('Every option combination of the bound is executed; gradients of every '
        'returned point are compared with e+ (dD/dq) e / 2w of an independent '
        'model, summed over degenerate sets, and, without the dipole term, '
        'with central differences of the interpolated frequencies.')
RULE = ('one state per (system, q-list, asr, dipole, splitting, insert_gamma, '
        'reduce, output kind, engine, cell unit); a transition is one '
        'interpolation; one trace per returned q-point compared')
ASSUMPTIONS = ['gradients are documented as the derivative of the Fourier '
               'interpolated (short-range) part of the dynamical matrix',
               'imaginary and zero-frequency modes have no real derivative '
               'and are only checked to be aligned']
A = (.13, .21, -.34)
LISTS = {
    'mixed': [A, (0, 0, 0), (.5, 0, .5), (A[0] + 1, A[1] - 2, A[2] + 1),
              (.5, .5, .5), (-.27, .05, .41), A, (.3, 0, 0), (0, 0, 0)],
    'single': [(.21, -.37, .44)],
    'gammas': [(0, 0, 0), (.1, .1, 0), (0, 0, 0), (1, 0, 0), (0, .25, .5)],
    'syms': [(.25, .25, .25), (0, 0, .5), (0, .5, .5), (.5, .5, .5),
             (1/3, 1/3, 0), (0, 0, .2)],
}
D = np.diag
ND = [[1, 1, 0], [-1, 1, 0], [0, 0, 1]]
SYSTEMS = {
    'tric/gen2/212': dict(cell='tric', basis='gen2', sc=D([2, 1, 2]), seed=1),
    'hex/gen3/112': dict(cell='hex', basis='gen3', sc=D([1, 1, 2]), seed=2),
    'cubic/cscl/222': dict(cell='cubic', basis='cscl', sc=D([2, 2, 2]),
                           seed=3),
    'ortho/out2/nd': dict(cell='ortho', basis='out2', sc=ND, seed=4),
    'fcc/dia/221': dict(cell='fcc', basis='dia', sc=D([2, 2, 1]), seed=5),
    'ortho/one/311': dict(cell='ortho', basis='one', sc=D([3, 1, 1]), seed=6),
    'sym': dict(cell='cubic', basis='one', sc=D([3, 3, 3]), seed=7),
}


def units(tier):
    for s in SYSTEMS:
        for lst in LISTS:
            for born in (None, 'aniso'):
                if s == 'sym' and born:
                    continue
                yield f'{s}/{lst}/{born}', dict(system=s, lst=lst, born=born)


def isotropic(fc):
    """cubic-symmetric nearest-neighbour force constants: exact degeneracies
    along high-symmetry lines"""
    from euphonic import ForceConstants, ureg
    o = gen.lattice_points(D([3, 3, 3]))
    phi = np.zeros((27, 3, 3))
    for k, p in enumerate(o):
        q = (p + 1) % 3 - 1
        if np.abs(q).sum() == 1:
            phi[k] = -.01*np.outer(q, q) - .003*(np.eye(3) - np.outer(q, q))
    phi[0] = -phi.sum(axis=0)
    return ForceConstants(fc.crystal, phi*ureg('hartree/bohr**2'),
                          D([3, 3, 3]), o)


def build(system, asr, born):
    kw = dict(SYSTEMS[system])
    # exact: the realspace correction must then be the identity
    fc = gen.force_constants(asr='exact' if asr == 'exact' else None,
                             born=born, onsite=1.5, **kw)
    return isotropic(fc) if system == 'sym' else fc


def sets(lams, scale):
    """index ranges of degenerate sets of ascending eigenvalues"""
    tol = 1e-6*scale
    cut = np.where(np.diff(lams) > tol)[0] + 1
    return np.split(np.arange(len(lams)), cut), tol


def run(ctx, system, lst, born):
    from euphonic import ureg
    from mc import ref
    q = np.array(LISTS[lst], float)
    for exact in (True, False):
        fc = build(system, 'exact' if exact else None, born)
        cell = fc.crystal.cell_vectors.to('bohr').magnitude
        im = ref.Images(cell, fc.sc_matrix, fc.crystal.atom_r,
                        fc.cell_origins)
        assert im.clear and im.reach <= 2
        base = (np.abs(fc.force_constants.to('hartree/bohr**2').magnitude
                       ).max()/ref.masses(fc.crystal).min())
        mem = {}

        def dd(x):
            k = tuple(x)
            if k not in mem:
                mem[k] = ref.dyn(fc, np.asarray(x), im, grad=True)[1]
            return mem[k]
        for asr, spl, ins, red, kind, eng, unit in itertools.product(
                (None, 'realspace', 'reciprocal'), (True, False),
                (False, True), (True, False), ('modes', 'freqs'),
                ('c', 'c3', 'py'), ('angstrom', 'bohr')):
            if born is None and (spl or ins):
                continue
            if not spl and ins:
                continue
            if unit == 'bohr' and not (red and kind == 'modes'
                                       and eng != 'c3'):
                continue
            if not ctx.thorough and eng == 'py' and not red:
                continue
            case = dict(system=system, qpts=lst, exact=exact, asr=asr,
                        born=born, splitting=spl, insert_gamma=ins,
                        reduce=red, kind=kind, engine=eng, cell_unit=unit)
            ctx.case = case
            ctx.state(tuple(case.values()))
            fc.crystal.cell_vectors_unit = unit
            f = (fc.calculate_qpoint_phonon_modes if kind == 'modes'
                 else fc.calculate_qpoint_frequencies)
            opts = dict(asr=asr, splitting=spl, insert_gamma=ins,
                        reduce_qpts=red, use_c=eng != 'py',
                        n_threads=3 if eng == 'c3' else 1)
            r, g = f(q, return_mode_gradients=True, **opts)
            plain = f(q, **opts)
            ctx.transition(2)
            ctx.check(
                r.qpts.shape == plain.qpts.shape
                and np.array_equal(r.qpts, plain.qpts)
                and np.array_equal(r.weights, plain.weights),
                'q-points or weights differ when gradients are requested',
                case)
            scale = np.abs(r.frequencies.magnitude).max()
            ctx.check(np.abs((r.frequencies - plain.frequencies).magnitude
                             ).max() < 1e-7*scale,
                      'frequencies differ when gradients are requested', case)
            ok = ctx.check(
                g.magnitude.shape == r.frequencies.shape + (3,)
                and g.check('[energy]*[length]')
                and str((1*g.units/r.frequencies.units
                         / fc.crystal.cell_vectors.units).to(
                             'dimensionless').magnitude) == '1.0',
                'shape or unit of the gradients', case,
                lambda: (g.magnitude.shape, str(g.units)))
            if not ok:
                continue
            got = g.to('hartree*bohr').magnitude
            lams = ref.lam(r.frequencies)
            # modes in a frequencies-only result are compared with the
            # eigenvectors of the same calculation with eigenvectors
            m = r if kind == 'modes' else fc.calculate_qpoint_phonon_modes(
                q, **opts)
            model = exact or asr != 'realspace'
            if model:
                for k in range(len(r.qpts)):
                    v = m.eigenvectors[k].reshape(len(lams[k]), -1)
                    d = dd(r.qpts[k])
                    num = np.einsum('ma,abx,mb->mx', v.conj(), d, v).real
                    compare(ctx, got[k], num, lams[k], case, k,
                            max(np.abs(d).max(), base))
                    ctx.trace()
            if born is None and eng == 'c' and red:
                finite(ctx, fc, r, got, lams, opts, case, cell, base)
            ctx.outcome(got.round(6).tobytes())
        fc.crystal.cell_vectors_unit = 'angstrom'
    ctx.sample(ctx.case)


def compare(ctx, got, num, lams, case, k, dscale):
    """sums over degenerate sets of 2*w*gradient against d(lambda)"""
    groups, tol = sets(lams, dscale)
    w = np.sign(lams)*np.sqrt(np.abs(lams))
    for s in groups:
        if lams[s].min() < 1e3*tol:
            continue
        a = (2*w[s][:, None]*got[s]).sum(axis=0)
        b = num[s].sum(axis=0)
        if not ctx.check(np.abs(a - b).max() <= 1e-6*dscale*len(s),
                         'gradient is not the derivative', case,
                         lambda: dict(index=k, modes=s, got=a, expected=b)):
            return


def finite(ctx, fc, r, got, lams, opts, case, cell, base):
    from mc import ref
    h = 2e-4                                    # 1/bohr
    o = dict(opts, splitting=False, insert_gamma=False)
    disp = np.concatenate([np.eye(3)*h, -np.eye(3)*h]) @ cell.T/(2*np.pi)
    qs = (r.qpts[:, None] + disp[None]).reshape(-1, 3)
    f = ref.lam(fc.calculate_qpoint_frequencies(qs, **o).frequencies)
    ctx.transition()
    f = f.reshape(len(r.qpts), 6, -1)
    num = (f[:, :3] - f[:, 3:])/(2*h)           # (q, xyz, mode)
    for k in range(len(r.qpts)):
        groups, tol = sets(lams[k], base)
        w = np.sign(lams[k])*np.sqrt(np.abs(lams[k]))
        scale = base*np.abs(cell).max()
        for s in groups:
            if lams[k][s].min() < 1e3*tol:
                continue
            # the finite difference must not mix with a close neighbour
            gap = min([abs(x - y) for x in lams[k][s]
                       for y in np.delete(lams[k], s)] or [1])
            if gap < 5e-3*scale/np.abs(cell).max():
                continue
            a = (2*w[s][:, None]*got[k][s]).sum(axis=0)
            b = num[k][:, s].sum(axis=1)
            if not ctx.check(np.abs(a - b).max() <= 2e-5*scale*len(s),
                             'gradient differs from finite differences', case,
                             lambda: dict(index=k, modes=s, got=a,
                                          expected=b)):
                return
        ctx.trace()
