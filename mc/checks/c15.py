"""C15: structure factors and Debye-Waller factors."""
import itertools
import json
import os
import shutil
import tempfile

import numpy as np

from mc import gen

TECHNIQUE = ('bounded-exhaustive enumeration of crystals x q-points in several '
             'zones x gauges x scattering-length specifications x '
             'temperatures x cut-offs x units on the real code, against the '
             'one-phonon formula evaluated on an independent dynamical '
             'matrix')
NOTE = ('Intensities are compared per set of degenerate modes, so the model '
        'is independent of eigenvectors; Debye-Waller tensors are compared '
        'with an explicit sum and with brute-force space-group averaging.')
RULE = ('one state per configuration; a transition is one structure factor '
        'or Debye-Waller evaluation')
ASSUMPTIONS = ['modes of zero frequency have no finite structure factor and '
               'are not compared', 'hbar = 1 atomic units constants of CODATA '
               'as in pint']

SYSTEMS = {
    'one': dict(cell='fcc', basis='one', sc=np.diag([2, 2, 1]), seed=1),
    'dia': dict(cell='fcc', basis='dia', sc=np.diag([2, 1, 1]), seed=2,
                asr='exact'),
    'out2': dict(cell='tric', basis='out2', sc=np.diag([1, 2, 1]), seed=3),
    'gen3': dict(cell='hex', basis='gen3', sc=np.diag([1, 1, 2]), seed=4,
                 asr='exact'),
    'deg': dict(cell='cubic', basis='cscl', sc=np.eye(3, dtype=int), seed=5),
    'imag': dict(cell='ortho', basis='gen2', sc=np.diag([2, 1, 1]), seed=6,
                 onsite=.02),
}
QS = np.array([[.13, .21, -.34], [.5, 0, 0], [.5, .5, .5], [.25, -.25, 0],
               [0., 0., 0.]])
GS = np.array([[0, 0, 0], [1, 0, 0], [-2, 1, 3], [0, -1, 0]])
LENGTHS = {'Si': 4.1491, 'Zn': 5.680, 'S': 2.847, 'Mg': 5.375, 'O': 5.803,
           'H': -3.7390, 'Cs': 5.42, 'Cl': 9.5770}
TEMPS = {'0 K': (0., 'K'), '5 K': (5., 'K'), '300 K': (300., 'K'),
         '20 C': (20., 'degC')}


def units(tier):
    for s in SYSTEMS:
        yield f'sf/{s}', dict(mode='sf', system=s)
        yield f'dw/{s}', dict(mode='dw', system=s)
        yield f'sfdw/{s}', dict(mode='sfdw', system=s)
    yield 'synthetic', dict(mode='synthetic', system='gen3')
    yield 'chunks', dict(mode='chunks', system='one')
    yield 'reject', dict(mode='reject', system='dia')


def run(ctx, mode, system):
    globals()[mode](ctx, system)


class Model:
    def __init__(self, system):
        from mc import ref
        self.fc = fc = gen.force_constants(**SYSTEMS[system])
        if system == 'deg':
            # isotropic springs: threefold degenerate modes everywhere
            from euphonic import ForceConstants, ureg
            k = np.kron(np.array([[2., -1], [-1, 3]]), np.eye(3))*.05
            fc = self.fc = ForceConstants(
                fc.crystal, k[None]*ureg('hartree/bohr**2'), fc.sc_matrix,
                fc.cell_origins)
        crys = fc.crystal
        self.cell = crys.cell_vectors.to('bohr').magnitude
        self.im = ref.Images(self.cell, fc.sc_matrix, crys.atom_r,
                             fc.cell_origins)
        self.recip = 2*np.pi*np.linalg.inv(self.cell).T
        self.mass = ref.masses(crys)
        self.ref = ref
        self.cache = {}

    def modes(self, q):
        key = tuple(np.round(q - np.floor(q), 9))
        if key not in self.cache:
            d = self.ref.dyn(self.fc, np.asarray(q), self.im)
            lam, v = np.linalg.eigh(0.5*(d + d.conj().T))
            self.cache[key] = lam, v
        return self.cache[key]

    def intensity(self, q, b, dw=None):
        """(lam, groups, total intensity*omega of each group in bohr^2 Ha)"""
        lam, v = self.modes(q)
        crys = self.fc.crystal
        k = q @ self.recip
        w = []
        for i in range(crys.n_atoms):
            damp = 1. if dw is None else np.exp(-(k @ dw[i] @ k))
            w.append(b[i]/np.sqrt(self.mass[i])*damp
                     * np.exp(2j*np.pi*(q @ crys.atom_r[i]))*k)
        amp = np.abs(v.conj().T @ np.concatenate(w))**2/(2*crys.n_atoms)
        return lam, group(lam), amp


def group(lam):
    """index ranges of equal eigenvalues"""
    tol = 1e-9*np.abs(lam).max()
    cuts = [0] + [i for i in range(1, len(lam))
                  if lam[i] - lam[i-1] > tol] + [len(lam)]
    return list(zip(cuts[:-1], cuts[1:]))


def lengths(crys):
    from euphonic import Quantity
    fm = Quantity(1., 'fm').to('bohr').magnitude
    return np.array([LENGTHS[s] for s in crys.atom_type])*fm


def compare(ctx, m, sf, qs, b, case, dw=None):
    ctx.trace()
    om = sf.frequencies.to('hartree').magnitude
    s = sf.structure_factors.to('bohr**2').magnitude
    if not ctx.check(s.shape == om.shape and len(s) == len(qs)
                     and np.array_equal(sf.qpts, qs),
                     'structure factor shape or q-points wrong', case):
        return
    for i, q in enumerate(qs):
        lam, groups, amp = m.intensity(q, b, dw)
        big = np.abs(lam).max()
        scale = amp.max()/np.sqrt(big) + 1e-30
        for lo, hi in groups:
            if abs(lam[lo]) < 1e-8*big:
                continue
            # all modes of a group have the same frequency
            e = amp[lo:hi].sum()/np.sqrt(abs(lam[lo]))
            g = s[i, lo:hi].sum()
            tol = 1e-7*max(scale, e)
            if not ctx.check(
                    abs(g - e) <= tol and np.allclose(
                        om[i, lo:hi], np.sign(lam[lo])*np.sqrt(abs(lam[lo])),
                        rtol=1e-6), 'structure factor of a set of degenerate '
                    'modes differs from the one-phonon formula', case,
                    lambda: dict(qpt=q, modes=(lo, hi), got=g, expected=e)):
                return
    ctx.outcome(np.round(np.log10(s + 1e-12), 4).tobytes())


def gauges(qpm):
    """same modes with other phases / another basis of degenerate spaces"""
    from euphonic import QpointPhononModes
    out = {'as is': qpm}
    n = qpm.eigenvectors.shape[1]
    ph = np.exp(1j*(np.arange(n)[None]*1.1 + np.arange(len(qpm.qpts))[:, None]
                    + .3))
    out['phases'] = qpm.eigenvectors*ph[:, :, None, None]
    rot = qpm.eigenvectors.copy()
    f = qpm.frequencies.magnitude
    for i in range(len(f)):
        for lo, hi in group(np.sign(f[i])*f[i]**2):
            k = hi - lo
            if k > 1:
                a = np.arange(k*k).reshape(k, k)
                u = np.linalg.qr(np.sin(a*a + 1.) + 1j*np.cos(a*1.7))[0]
                rot[i, lo:hi] = np.einsum('ij,jkl->ikl', u, rot[i, lo:hi])
    out['rotated'] = rot
    for k in ('phases', 'rotated'):
        out[k] = QpointPhononModes(qpm.crystal, qpm.qpts, qpm.frequencies,
                                   out[k], qpm.weights)
    return out


def qlist():
    return np.array([q + g for q in QS for g in GS])


def specs(crys, tmp):
    """equivalent scattering length specifications"""
    from euphonic import Quantity
    d = {s: Quantity(LENGTHS[s], 'fm') for s in LENGTHS}
    path = os.path.join(tmp, 'b.json')
    with open(path, 'w') as f:
        json.dump(dict(physical_property=dict(coherent_scattering_length=dict(
            __units__='angstrom', **{k: v*1e-5 for k, v in LENGTHS.items()}
            ))), f)
    return {'Sears1992': 'Sears1992', 'fm': d,
            'bohr': {k: v.to('bohr') for k, v in d.items()},
            'complex': {k: Quantity(v.magnitude + 0j, 'fm')
                        for k, v in d.items()},
            'file': path}


def sf(ctx, system):
    m = Model(system)
    qs = qlist()
    crys = m.fc.crystal
    tmp = tempfile.mkdtemp()
    try:
        base = m.fc.calculate_qpoint_phonon_modes(
            qs, weights=np.arange(1., len(qs) + 1), n_threads=1)
        sp = specs(crys, tmp)
        for (gname, qpm), (sname, spec), fu, cu, mu in itertools.product(
                gauges(base).items(), sp.items(), ('meV', 'THz', '1/cm'),
                ('angstrom', 'bohr', 'nm'), ('amu', 'kg')):
            case = dict(system=system, gauge=gname, lengths=sname,
                        freq_unit=fu, cell_unit=cu, mass_unit=mu)
            ctx.state(tuple(case.values()))
            ctx.case = case
            qpm.frequencies_unit = fu
            qpm.crystal.cell_vectors_unit = cu
            qpm.crystal.atom_mass_unit = mu
            keep = qpm.eigenvectors.copy()
            r = qpm.calculate_structure_factor(scattering_lengths=spec)
            ctx.transition()
            compare(ctx, m, r, qs, lengths(crys), case)
            ctx.check(np.array_equal(r.weights, qpm.weights),
                      'weights of the structure factor wrong', case)
            ctx.check(r.temperature is None, 'temperature invented', case)
            ctx.check(str(r.frequencies.units) == str(qpm.frequencies.units)
                      and np.array_equal(keep, qpm.eigenvectors),
                      'frequency unit or input changed', case)
        # scattering lengths that are complex, negative and zero
        from euphonic import Quantity
        qpm.crystal.cell_vectors_unit = 'angstrom'
        for t in itertools.product((0., -3.2, 2.5 - 1.5j),
                                   repeat=len(set(crys.atom_type))):
            b = dict(zip(sorted(set(crys.atom_type)), t))
            case = dict(system=system, lengths=t)
            r = qpm.calculate_structure_factor(
                {k: Quantity(v, 'fm') for k, v in b.items()})
            ctx.transition()
            ctx.state((system, str(t)))
            fm = Quantity(1., 'fm').to('bohr').magnitude
            compare(ctx, m, r, qs,
                    np.array([b[s] for s in crys.atom_type])*fm, case)
        # any subset/permutation of the q-points gives the same rows
        full = qpm.calculate_structure_factor(sp['fm'])
        for sel in ([3], [5, 2, 5], list(range(len(qs)))[::-1]):
            q2 = m.fc.calculate_qpoint_phonon_modes(qs[sel], n_threads=1)
            r = q2.calculate_structure_factor(sp['fm'])
            ctx.transition(2)
            compare(ctx, m, r, qs[sel], lengths(crys),
                    dict(system=system, select=sel))
        ctx.sample(case)
    finally:
        shutil.rmtree(tmp)


def bose(om, t):
    """coth(om/2kT); om in hartree, t in K"""
    if t == 0:
        return 1.
    from euphonic import ureg
    kb = ureg('boltzmann_constant').to('hartree/K').magnitude
    return 1/np.tanh(om/(2*kb*t))


def dw_model(qpm, t, fmin):
    """explicit sum over q-points and modes, bohr^2"""
    mass = qpm.crystal.atom_mass.to('electron_mass').magnitude
    om = qpm.frequencies.to('hartree').magnitude
    n = qpm.crystal.n_atoms
    out = np.zeros((n, 3, 3))
    for i in range(len(om)):
        for j in range(om.shape[1]):
            if om[i, j] < fmin:
                continue
            f = qpm.weights[i]*bose(om[i, j], t)/om[i, j]
            for k in range(n):
                e = qpm.eigenvectors[i, j, k]
                out[k] += f/(4*mass[k])*np.real(np.outer(e, e.conj()))
    return out/qpm.weights.sum()


def symmetrise(crys, w):
    from mc import ref
    cell = crys.cell_vectors.to('bohr').magnitude
    ops = ref.spacegroup(cell, crys.atom_r, crys.atom_type)
    out = np.zeros(w.shape)
    for rot, _, to in ops:
        # Cartesian rotation: r_cart = cell^T r_frac
        rc = cell.T @ rot @ np.linalg.inv(cell.T)
        for i, j in enumerate(to):
            out[j] += rc @ w[i] @ rc.T
    return out/len(ops), len(ops)


def dw(ctx, system):
    from euphonic import Quantity
    m = Model(system)
    grid = np.array(list(itertools.product((0., 1/3, -1/3), (0., .5),
                                           (.1, .45))))[:9]
    grid[0] = 0.
    weightings = {'default': None, 'unnorm': np.arange(1., 10.),
                  'zero': np.array([0., 1, 0, 2, 0, 0, 3, 1, 1])}
    for wname, w in weightings.items():
        qpm = m.fc.calculate_qpoint_phonon_modes(grid, weights=w, n_threads=1)
        om = np.sort(qpm.frequencies.to('meV').magnitude.ravel())
        pos = om[om > .05]
        gap = np.diff(pos)
        k = int(gap[:len(gap)//2 + 1].argmax())
        mins = {'default': None, 'none': .02, 'mid': (pos[k] + pos[k+1])/2}
        alone = [i for i in range(1, len(pos) - 1)
                 if min(gap[i-1], gap[i]) > 1e-4]
        if alone:
            mins['on'] = pos[alone[len(alone)//2]]
        for tname, mname, sym, cu in itertools.product(
                TEMPS, mins, (False, True), ('angstrom', 'bohr')):
            if cu == 'bohr' and mname in ('mid', 'none'):
                continue
            case = dict(system=system, weights=wname, temperature=tname,
                        frequency_min=mname, symmetrise=sym, unit=cu)
            ctx.state(tuple(case.values()))
            ctx.case = case
            qpm.crystal.cell_vectors_unit = cu
            kw = {}
            fmin = Quantity(.01, 'meV')
            if mins[mname] is not None:
                fmin = Quantity(mins[mname], 'meV')
                if mname == 'mid':
                    fmin = fmin.to('THz')
                kw['frequency_min'] = fmin
            t = Quantity(*TEMPS[tname])
            keep = qpm.frequencies.magnitude.copy()
            r = qpm.calculate_debye_waller(t, symmetrise=sym, **kw)
            ctx.transition()
            e = dw_model(qpm, t.to('K').magnitude,
                         fmin.to('hartree').magnitude*(1 - (
                             1e-9 if mname == 'on' else 0)))
            alt = e if mname != 'on' else dw_model(
                qpm, t.to('K').magnitude, fmin.to('hartree').magnitude*(
                    1 + 1e-9))
            if sym:
                e, nops = symmetrise(qpm.crystal, e)
                alt, _ = symmetrise(qpm.crystal, alt)
            got = r.debye_waller.to('bohr**2').magnitude
            ctx.trace()
            ctx.check(got.shape == e.shape and (
                np.abs(got - e).max() <= 1e-8*np.abs(e).max()
                or np.abs(got - alt).max() <= 1e-8*np.abs(e).max()),
                'Debye-Waller tensor is not the weighted thermal average',
                case, lambda: dict(got=got, expected=e))
            ctx.check(abs(r.temperature.to('K').magnitude
                          - t.to('K').magnitude) < 1e-9
                      and np.array_equal(keep, qpm.frequencies.magnitude),
                      'temperature wrong or input changed', case)
            ctx.outcome(np.round(got, 7).tobytes())
    ctx.sample(case)


def sfdw(ctx, system):
    """structure factor with Debye-Waller factor"""
    from euphonic import DebyeWaller, Quantity, Crystal
    m = Model(system)
    qs = qlist()[:12]
    crys = m.fc.crystal
    qpm = m.fc.calculate_qpoint_phonon_modes(qs, n_threads=1)
    n = crys.n_atoms
    k = np.arange(n*9.).reshape(n, 3, 3)
    general = .02*(np.sin(k) + np.sin(k).transpose(0, 2, 1)) + .1*np.eye(3)
    tensors = {'zero': np.zeros((n, 3, 3)), 'iso': np.array(
        [np.eye(3)*.05*(i + 1) for i in range(n)]), 'general': general}
    for (name, w), (tname, tq), cu, du, fu in itertools.product(
            tensors.items(), TEMPS.items(), ('angstrom', 'bohr'),
            ('bohr**2', 'angstrom**2', 'pm**2'), ('meV', 'THz')):
        case = dict(system=system, dw=name, temperature=tname, cell_unit=cu,
                    dw_unit=du, freq_unit=fu)
        ctx.state(tuple(case.values()))
        ctx.case = case
        qpm.crystal.cell_vectors_unit = cu
        qpm.frequencies_unit = fu
        t = Quantity(*tq)
        # the crystal of the Debye-Waller object may use other units
        d = DebyeWaller(Crystal(
            crys.cell_vectors.to('nm'), crys.atom_r, crys.atom_type,
            crys.atom_mass), Quantity(w, 'bohr**2').to(du), t)
        r = qpm.calculate_structure_factor(dw=d)
        ctx.transition()
        compare(ctx, m, r, qs, lengths(crys), case, w)
        ctx.check(r.temperature is not None and abs(
            r.temperature.to('K').magnitude - t.to('K').magnitude) < 1e-9,
            'temperature of the Debye-Waller factor lost', case)
        ctx.check(np.allclose(d.debye_waller.to('bohr**2').magnitude, w,
                              atol=1e-14), 'Debye-Waller object changed',
                  case)
    ctx.sample(case)


def synthetic(ctx, system):
    """frequencies at and around the cut-off, zero and negative included:
    every assignment of a position to three of the modes"""
    from euphonic import Quantity, QpointPhononModes
    m = Model(system)
    crys = m.fc.crystal
    q = np.array([[.1, .2, .3], [.4, 0., 0.]])
    base = m.fc.calculate_qpoint_phonon_modes(q, n_threads=1)
    alphabet = (0., -0., -3., 1e-5, .999, 1., 1.001, 20.)
    for t in itertools.product(alphabet, repeat=3):
        f = base.frequencies.to('meV').magnitude.copy() + 5
        f[0, :3] = t
        f[1, 1] = t[0]
        qpm = QpointPhononModes(crys, q, Quantity(f, 'meV'),
                                base.eigenvectors, np.array([.25, .75]))
        for tname, fmin in itertools.product(('0 K', '300 K'), (.5, 1., 2.)):
            case = dict(frequencies=t, temperature=tname, frequency_min=fmin)
            ctx.state((t, tname, fmin))
            ctx.case = case
            tq = Quantity(*TEMPS[tname])
            r = qpm.calculate_debye_waller(
                tq, frequency_min=Quantity(fmin, 'meV'), symmetrise=False)
            ctx.transition()
            ctx.trace()
            e = dw_model(qpm, tq.to('K').magnitude,
                         Quantity(fmin, 'meV').to('hartree').magnitude)
            got = r.debye_waller.to('bohr**2').magnitude
            ctx.check(np.allclose(got, e, rtol=1e-8, atol=1e-14),
                      'Debye-Waller tensor includes excluded frequencies or '
                      'misses others', case,
                      lambda: dict(got=got, expected=e))
            ctx.outcome(np.round(got, 9).tobytes())
    ctx.sample(case)


def chunks(ctx, system):
    """long q-point lists"""
    from euphonic import Quantity, QpointPhononModes
    m = Model(system)
    for n in (1, 2, 999, 1000, 1001, 1999, 2000, 2001, 2003):
        i = np.arange(n)
        q = np.stack([(i*.137) % 1, (i*.411) % 1, (i*.733) % 1], axis=1)
        qpm = m.fc.calculate_qpoint_phonon_modes(
            q, weights=1. + i % 7, n_threads=2)
        freqs = np.sort(qpm.frequencies.to('meV').magnitude.ravel())
        # cut-offs which exclude no mode, a third of the modes, all but a few
        # modes: which modes of a q-point are excluded is different everywhere
        for fmin in (.01, *(.5*(freqs[k] + freqs[k + 1]) for k in
                            (len(freqs)//3, len(freqs) - 3))):
            for temp in (100., 0.):
                r = qpm.calculate_debye_waller(
                    Quantity(temp, 'K'), symmetrise=False,
                    frequency_min=Quantity(fmin, 'meV'))
                ctx.transition()
                ctx.trace()
                ctx.state((n, fmin, temp))
                e = dw_model(qpm, temp,
                             Quantity(fmin, 'meV').to('hartree').magnitude)
                got = r.debye_waller.to('bohr**2').magnitude
                ctx.check(np.allclose(got, e, rtol=1e-9, atol=1e-14),
                          'Debye-Waller tensor of a long q-point list wrong',
                          dict(n_qpts=n, frequency_min=fmin, temperature=temp),
                          lambda: dict(got=got, expected=e))
                ctx.outcome(np.round(got, 9).tobytes())
    ctx.sample(dict(n_qpts=n))


def reject(ctx, system):
    from euphonic import Quantity, DebyeWaller
    m = Model(system)
    qpm = m.fc.calculate_qpoint_phonon_modes(QS, n_threads=1)
    other = gen.crystal('cubic', 'gen3')
    bad = {'type': dict(scattering_lengths=3), 'collection': dict(
        scattering_lengths='BlueBook'), 'missing': dict(
        scattering_lengths={'Zn': Quantity(1., 'fm')}), 'dimension': dict(
        scattering_lengths={s: Quantity(1., 'fm**2') for s in LENGTHS}),
        'atoms': dict(dw=DebyeWaller(other, Quantity(np.zeros((3, 3, 3)),
                                                     'bohr**2'),
                                     Quantity(3., 'K')))}
    for name, kw in bad.items():
        ctx.transition()
        ctx.state(name)
        try:
            qpm.calculate_structure_factor(**kw)
        except Exception:
            ctx.outcome(name)
            continue
        ctx.fail('invalid argument accepted', dict(argument=name), '')
