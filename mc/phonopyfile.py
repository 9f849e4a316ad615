"""Writers of Phonopy files (phonopy.yaml, FORCE_CONSTANTS, BORN,
mesh/band/qpoints.yaml and their HDF5 forms), from the Phonopy documentation:
(a_s b_s c_s) = (a_u b_u c_u) M_s and (a_p b_p c_p) = (a_u b_u c_u) M_p with
lattice vectors as columns. Shares no code with euphonic."""
import itertools

import numpy as np

# name in the file -> (pint string, length unit)
FC_UNITS = {'eV/Angstrom^2': 'eV/angstrom**2', 'eV/angstrom^2': 'eV/angstrom**2',
            'Ry/au^2': 'Ry/bohr**2', 'mRy/au^2': '1e-3*Ry/bohr**2',
            'hartree/au^2': 'hartree/bohr**2',
            'eV/Angstrom.au': 'eV/(angstrom*bohr)',
            'hartree/Angstrom.au': 'hartree/(angstrom*bohr)'}


def conversion(unit, dimension_of):
    """number of `unit` in one `dimension_of` (both pint strings)"""
    from euphonic import ureg
    return float(ureg(dimension_of).to_base_units().magnitude
                 / ureg(unit).to_base_units().magnitude)


class Model:
    """A crystal with its force constants and its Phonopy description.
    lp: primitive lattice (rows, angstrom); r: positions of the primitive
    atoms; sc: rows of the supercell in primitive vectors; mp: primitive
    matrix or None; order: order of the atoms of the supercell."""

    def __init__(self, lp, r, types, masses, sc, mp, phi, origins,
                 order='grouped', ms=None):
        self.lp, self.r, self.types = lp, np.asarray(r, float), list(types)
        self.masses, self.sc = list(masses), np.asarray(sc)
        self.phi, self.origins = phi, np.asarray(origins)
        self.mp = None if mp is None else np.asarray(mp, float)
        inv = (np.eye(3) if mp is None else np.linalg.inv(self.mp))
        self.lu = inv.T @ lp                    # L_p = M_p^T L_u
        ls = self.sc @ lp
        self.ls = ls
        ms = (ls @ np.linalg.inv(self.lu)).T    # L_s = M_s^T L_u
        self.ms = np.rint(ms).astype(int)
        assert np.allclose(self.ms, ms, atol=1e-9)
        atoms = [(j, k) for j in range(len(r)) for k in range(len(origins))]
        if order == 'shifted':
            # the first atom of every group is not in the first cell
            nc = len(origins)
            atoms = [(j, (k + j + 1) % nc) for j, k in atoms]
        elif order == 'reversed':
            atoms = [(j, len(origins) - 1 - k) for j, k in atoms]
        elif order == 'mixed':
            atoms = [(j, k) for k in range(len(origins))
                     for j in range(len(r))]
        self.atoms = atoms
        inv_s = np.linalg.inv(self.sc.astype(float))
        self.spos = []
        for j, k in atoms:
            s = (self.r[j] + self.origins[k]) @ inv_s
            self.spos.append(s - np.floor(s + 1e-12))
        self.p2s = [next(a for a, (j, _) in enumerate(atoms) if j == i)
                    for i in range(len(r))]
        index = {self._key(o): k for k, o in enumerate(self.origins)}
        n = len(r)
        full = np.zeros((len(atoms), len(atoms), 3, 3))
        for a, (i, m) in enumerate(atoms):
            for b, (j, k) in enumerate(atoms):
                c = index[self._key(self.origins[k] - self.origins[m])]
                full[a, b] = phi[c, 3*i:3*i+3, 3*j:3*j+3]
        self.full = full
        self.compact = full[self.p2s]

    def _key(self, p):
        f = np.asarray(p) @ np.linalg.inv(self.sc.astype(float))
        f = f - np.floor(f + 1e-9)
        return tuple(np.rint(f @ self.sc).astype(int))


def row(v, fmt='%22.15f'):
    return '[ ' + ', '.join(fmt % x for x in v) + ' ]'


def matrix(name, m, indent='', fmt='%18.15f'):
    return [f'{indent}{name}:'] + [f'{indent}- {row(v, fmt)}' for v in m]


def cell_lines(name, lattice, pos, types, masses, reduced=None):
    out = [f'{name}:', '  lattice:']
    out += [f'  - {row(v)} # {x}' for v, x in zip(lattice, 'abc')]
    out.append('  points:')
    for i, (p, t, m) in enumerate(zip(pos, types, masses)):
        out += [f'  - symbol: {t:<2s} # {i+1}', f'    coordinates: {row(p)}',
                f'    mass: {m:.9f}']
        if reduced is not None:
            out.append(f'    reduced_to: {reduced[i]}')
    return out


def fc_lines(fc):
    out = ['force_constants:', '  format: "%s"' % (
        'full' if fc.shape[0] == fc.shape[1] else 'compact'),
        f'  shape: [ {fc.shape[0]}, {fc.shape[1]} ]', '  elements:']
    for i, j in itertools.product(*map(range, fc.shape[:2])):
        out.append(f'  - # ({i+1}, {j+1})')
        out += [f'    - {row(v, "%21.18f")}' for v in fc[i, j]]
    return out


def summary(m, fc=None, unit='eV/Angstrom^2', length='Angstrom', born=None,
            eps=None, factor=None, new_nac=False, units=True,
            file_r=None, primitive=True, file_mp=None):
    """text of phonopy.yaml. fc in file units; lattice converted to length"""
    ln = conversion('bohr' if length == 'au' else 'angstrom', 'angstrom')
    out = ['phonopy:', '  version: 2.6.1',
           '  frequency_unit_conversion_factor: 15.633302']
    if factor is not None and not new_nac:
        out.append(f'  nac_unit_conversion_factor: {factor!r}')
    out += ['  symmetry_tolerance: 1.00000e-05', '']
    if units:
        out += ['physical_unit:', '  atomic_mass: "AMU"',
                f'  length: "{length}"', f'  force_constants: "{unit}"', '']
    out += matrix('supercell_matrix', m.ms, fmt='%3d')
    if m.mp is not None:
        out += matrix('primitive_matrix',
                      m.mp if file_mp is None else file_mp)
    r = m.r if file_r is None else file_r
    out += cell_lines('primitive_cell', m.lp*ln, r, m.types, m.masses)
    out += cell_lines('supercell', m.ls*ln, m.spos,
                      [m.types[j] for j, _ in m.atoms],
                      [m.masses[j] for j, _ in m.atoms],
                      [m.p2s[j] + 1 for j, _ in m.atoms])
    pad = '  ' if new_nac else ''
    if new_nac and (born is not None or factor is not None):
        out.append('nac:')
        if factor is not None:
            out.append(f'  unit_conversion_factor: {factor!r}')
    if born is not None:
        out.append(pad + 'born_effective_charge:')
        for k, z in enumerate(born):
            out.append(f'{pad}- # {k+1}')
            out += [f'{pad}  - {row(v)}' for v in z]
        out.append(pad + 'dielectric_constant:')
        out += [f'{pad}  - {row(v)}' for v in eps]
    if fc is not None:
        out += fc_lines(fc)
    return '\n'.join(out) + '\n'


def force_constants_text(fc, single=False):
    out = ['%4d' % fc.shape[0] if single else '%4d %4d' % fc.shape[:2]]
    for i, j in itertools.product(*map(range, fc.shape[:2])):
        out.append(f'{i+1} {j+1}')
        out += [' '.join('%22.18f' % x for x in v) for v in fc[i, j]]
    return '\n'.join(out) + '\n'


def born_text(born, eps, factor=None, comment=False, blank=False):
    out = [] if factor is None else [repr(factor)]
    if comment:
        out.append('# epsilon and Z* of atoms')
    out += [' '.join('%.15f' % x for x in np.ravel(t))
            for t in [eps] + list(born)]
    if blank:
        out[-len(born):-len(born)] = ['', '  \t ']
    return '\n'.join(out) + '\n' + ('   \n\n' if blank else '')


def force_constants_hdf5(path, fc, p2s, unit):
    import h5py
    with h5py.File(path, 'w') as f:
        f['force_constants'] = fc
        f['p2s_map'] = np.array(p2s, dtype='i4')
        f.create_dataset('physical_unit', (1,), dtype='S13')
        f['physical_unit'][0] = np.bytes_(unit[:13])


# ------------------------------------------------------------------ modes
# evecs[q, mode, atom, xyz] complex

def modes_yaml(kind, lp, r, types, masses, qpts, freqs, evecs=None,
               weights=None, crystal=True):
    out = [f'nqpoint: {len(qpts)}', f'natom: {len(r)}']
    if crystal:
        out.append('lattice:')
        out += [f'- {row(v)}' for v in lp]
        out.append('points:')
        for i, (p, t, m) in enumerate(zip(r, types, masses)):
            out += [f'- symbol: {t:<2s} # {i+1}', f'  coordinates: {row(p)}',
                    f'  mass: {m:.9f}']
    out += ['', 'phonon:']
    for k, q in enumerate(qpts):
        out.append('- q-position: ' + row(q, '%19.16f'))
        if kind == 'mesh':
            out.append(f'  weight: {weights[k]}')
        if kind == 'band':
            out.append('  distance:    0.0000000')
        out.append('  band:')
        for b in range(len(freqs[k])):
            out += [f'  - # {b+1}', f'    frequency: {freqs[k][b]:20.14f}']
            if evecs is not None:
                out.append('    eigenvector:')
                for a in range(len(r)):
                    out.append(f'    - # atom {a+1}')
                    out += ['      - [ %19.16f, %19.16f ]' % (z.real, z.imag)
                            for z in evecs[k][b][a]]
        out.append('')
    return '\n'.join(out) + '\n'


def modes_hdf5(path, kind, qpts, freqs, evecs=None, weights=None, npath=1):
    """Phonopy stores the eigenvectors as columns in all three files"""
    import h5py
    qpts, freqs = np.array(qpts), np.array(freqs)
    nq, nb = freqs.shape
    ev = None
    if evecs is not None:
        ev = np.array(evecs).reshape(nq, nb, nb).transpose(0, 2, 1)
    with h5py.File(path, 'w') as f:
        if kind == 'band':
            assert nq % npath == 0
            f['path'] = qpts.reshape(npath, -1, 3)
            f['frequency'] = freqs.reshape(npath, -1, nb)
            f['distance'] = np.zeros((npath, nq//npath))
            if ev is not None:
                f['eigenvector'] = ev.reshape(npath, -1, nb, nb)
        else:
            f['qpoint'] = qpts
            f['frequency'] = freqs
            if ev is not None:
                f['eigenvector'] = ev
            if kind == 'mesh':
                f['mesh'] = np.array([1, 1, nq], dtype='i4')
                f['weight'] = np.array(weights, dtype='i4')
