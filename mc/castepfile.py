"""Writers (and an independent decoder) for the CASTEP file formats, written
from the format of CASTEP's own output; shared by C23 and C25."""
import struct

import numpy as np


def det(*key):
    """a deterministic generator for a case"""
    import zlib
    return np.random.default_rng(zlib.crc32(repr(key).encode()))


# ------------------------------------------------------------------ .phonon

def crystal_lines(c):
    out = [' Unit cell vectors (A)\n']
    for v in c['cell']:
        out.append(' %11.6f %11.6f %11.6f\n' % tuple(v))
    out.append(' Fractional Co-ordinates\n')
    for i, (r, t, m) in enumerate(zip(c['r'], c['types'], c['masses'])):
        out.append(' %5d  %11.6f %11.6f %11.6f   %-8s %9.6f\n' % (
            i + 1, *r, t, m))
    return out


def make_crystal(n, types, seed=0):
    g = det('crystal', n, tuple(types), seed)
    masses = {}
    for t in types:
        masses.setdefault(t, round(float(g.uniform(1, 200)), 6))
    return dict(cell=np.round(g.uniform(-2, 2, (3, 3)) + 5*np.eye(3), 6),
                r=np.round(g.uniform(-.3, 1.2, (n, 3)), 6),
                types=list(types), masses=[masses[t] for t in types])


def make_block(n, qid, seed, direction=None, q=None, weight=None):
    g = det('block', n, qid, seed, direction)
    m = 3*n
    return dict(
        id=qid, q=np.round(g.uniform(-.5, .5, 3), 6) if q is None
        else np.array(q, float),
        weight=round(float(g.uniform(.01, 1)), 10) if weight is None
        else weight,
        direction=direction,
        freqs=np.round(np.sort(g.uniform(-80, 900, m)), 6),
        ir=np.round(g.uniform(0, 3, m), 7), raman=np.round(
            g.uniform(0, 50, m), 7),
        grads=np.round(g.uniform(0, 300, m), 7),
        evecs=np.round(g.uniform(-1, 1, (m, n, 3)), 12)
        + 1j*np.round(g.uniform(-1, 1, (m, n, 3)), 12))


def phonon_text(c, blocks, n_wave=None, columns='', header=True):
    """columns: '', 'ir' or 'ir+raman'"""
    n = len(c['types'])
    ids = {b['id'] for b in blocks}
    out = [' BEGIN header\n', ' Number of ions         %d\n' % n,
           ' Number of branches     %d\n' % (3*n),
           ' Number of wavevectors  %d\n' % (len(ids) if n_wave is None
                                            else n_wave)]
    if header:
        out.append(' Frequencies in         cm-1\n')
        if columns:
            out.append(' IR intensities in      (D/A)**2/amu\n')
        if 'raman' in columns or not columns:
            out.append(' Raman activities in    A**4 amu**(-1)\n')
    out += crystal_lines(c) + [' END header\n']
    for b in blocks:
        line = '     q-pt=%5d %11.6f %10.6f %10.6f    %14.10f' % (
            b['id'], *b['q'], b['weight'])
        if b['direction'] is not None:
            line += '  %10.6f%10.6f%10.6f' % tuple(b['direction'])
        out.append(line + '\n')
        for i, f in enumerate(b['freqs']):
            line = '  %6d %15.6f' % (i + 1, f)
            if columns:
                line += ' %20.7f' % b['ir'][i]
            if 'raman' in columns:
                line += ' %20.7f' % b['raman'][i]
            out.append(line.ljust(80) + '\n')
        out += ['                        Phonon Eigenvectors\n',
                'Mode Ion                X                                   '
                'Y                                   Z\n']
        for i in range(3*n):
            for k in range(n):
                e = b['evecs'][i, k]
                out.append('%4d %3d %15.12f %15.12f    %15.12f %15.12f    '
                           '%15.12f %15.12f\n' % (
                               i + 1, k + 1, e[0].real, e[0].imag, e[1].real,
                               e[1].imag, e[2].real, e[2].imag))
    return ''.join(out)


def phonon_dos_text(c, blocks, bins, dos):
    """dos: (n_species + 1, n_bins)"""
    n = len(c['types'])
    species = list(dict.fromkeys(c['types']))
    out = [' BEGIN header\n', '  Number of ions             %4d\n' % n,
           '  Number of species          %4d\n' % len(species),
           '  Number of branches         %4d\n' % (3*n),
           '  Number of bins in DOS     %5d\n' % len(bins)]
    out += crystal_lines(c) + [' END header\n',
                               ' BEGIN GRADIENTS   n   f   |Grad_q f|\n']
    for b in blocks:
        out.append('     q-pt=%5d %11.6f %10.6f %10.6f    %14.10f\n' % (
            b['id'], *b['q'], b['weight']))
        for i, f in enumerate(b['freqs']):
            out.append(('  %6d %15.6f %20.7f' % (i + 1, f, b['grads'][i])
                        ).ljust(80) + '\n')
    out.append(' END GRADIENTS\n')
    out.append(' BEGIN DOS   Freq (cm-1)  g(f)   '
               + ''.join('%-10s' % s for s in species) + '\n')
    for k, x in enumerate(bins):
        out.append('%8.1f' % x + ''.join('%11.6f' % d for d in dos[:, k])
                   + '\n')
    out.append('  END DOS\n')
    return ''.join(out)


# -------------------------------------------------------------- .castep_bin

def rec(data):
    if isinstance(data, str):
        data = data.encode()
    return struct.pack('>i', len(data)) + data + struct.pack('>i', len(data))


def ints(a):
    return np.asarray(a, '>i4').ravel().tobytes()


def floats(a):
    return np.asarray(a, '>f8').ravel().tobytes()


def cell_records(cell, species, extra=True):
    """species: list of (symbol, mass (m_e), positions (k,3)); cell in bohr,
    rows the vectors"""
    nmax = max(len(p) for _, _, p in species)
    pos = np.zeros((len(species), nmax, 3))
    for i, (_, _, p) in enumerate(species):
        pos[i, :len(p)] = p
    h = lambda s: s.ljust(256)
    out = [h('BEGIN_UNIT_CELL'),
           h('CELL%REAL_LATTICE'), floats(np.asarray(cell).T)]
    if extra:
        out += [h('CELL%RECIP_LATTICE'), floats(np.linalg.inv(cell)),
                h('CELL%VOLUME'), floats([abs(np.linalg.det(cell))])]
    out += [h('CELL%NUM_SPECIES'), ints([len(species)]),
            h('CELL%NUM_IONS'), ints([sum(len(p) for _, _, p in species)]),
            h('CELL%MAX_IONS_IN_SPECIES'), ints([nmax]),
            h('CELL_VERSION_NUMBER'), floats([17.0]),
            h('CELL%NUM_IONS_IN_SPECIES'), ints([len(p)
                                                 for _, _, p in species]),
            h('CELL%IONIC_POSITIONS'), floats(pos)]
    if extra:
        out += [h('CELL%IONIC_VELOCITIES'), floats(pos*0),
                h('CELL%IONIC_CHARGE'), floats(range(len(species)))]
    out += [h('CELL%SPECIES_MASS'), floats([m for _, m, _ in species]),
            h('CELL%SPECIES_SYMBOL'), ''.join(s.ljust(8)
                                              for s, _, _ in species)]
    if extra:
        out += [h('CELL%SPECIES_POT'), ''.ljust(128*len(species))]
    return out + [h('END_UNIT_CELL')]


def castep_bin(cell, species, sc_matrix, fc, origins, born=None, eps=None,
               version='20.100', second_cell=None, extra=True, order='fbd',
               row=0):
    """fc: (n_cells, 3n, 3n) hartree/bohr**2; born (n,3,3), eps (3,3);
    returns a list of records"""
    h = lambda s: s.ljust(30)
    out = ['CASTEP_BIN', h('BEGIN_PARAMETERS_DUMP'), version.ljust(10)]
    if extra:
        out += [h('BEGIN_GENERAL'), 'seed'.ljust(256), ''.ljust(80), ints([3]),
                h('END_GENERAL')]
    out += [h('END_PARAMETERS_DUMP')]
    out += cell_records(cell, species, extra)
    if extra:
        out += ['BEGIN_CELL_GLOBAL'.ljust(256), ints(range(7)),
                'END_CELL_GLOBAL'.ljust(256)]
    if second_cell is not None:
        out += cell_records(*second_cell, extra)
    if extra:
        out += ['E_FERMI'.ljust(10), floats([.3]), b'']
    for k in order:
        if k == 'f' and fc is not None:
            out += ['FORCE_CON'.ljust(10), ints(np.asarray(sc_matrix).T),
                    floats(np.asarray(fc).transpose(0, 2, 1)), ints(origins),
                    ints([row])]
        elif k == 'b' and born is not None:
            out += ['BORN_CHGS'.ljust(10), floats(born)]
        elif k == 'd' and eps is not None:
            out += ['DIELECTRIC'.ljust(10), floats(np.asarray(eps).T)]
        elif k == 'x':
            out += ['FINE_FREQ'.ljust(10), floats(range(40))]
    return out + ['END'.ljust(10)]


def pack(records):
    return b''.join(rec(r) for r in records)


def unpack(data):
    out, pos = [], 0
    while pos < len(data):
        n, = struct.unpack('>i', data[pos:pos + 4])
        out.append(data[pos + 4:pos + 4 + n])
        assert data[pos + 4 + n:pos + 8 + n] == data[pos:pos + 4]
        pos += 8 + n
    return out


def decode(data):
    """expected contents of a .castep_bin file, in atomic units"""
    rs = unpack(data)
    key = [r.strip() if len(r) in (10, 30, 256) else None for r in rs]

    def after(name, k=1, dt='>f8', last=False):
        i = key.index(name)
        return np.frombuffer(rs[i + k], dt)
    n_sp = after(b'CELL%NUM_SPECIES', 1, '>i4')[0]
    counts = after(b'CELL%NUM_IONS_IN_SPECIES', 1, '>i4')
    n = int(counts.sum())
    pos = after(b'CELL%IONIC_POSITIONS').reshape(n_sp, -1, 3)
    sym = rs[key.index(b'CELL%SPECIES_SYMBOL') + 1]
    mass = after(b'CELL%SPECIES_MASS')
    out = dict(n=n, cell=after(b'CELL%REAL_LATTICE').reshape(3, 3).T,
               r=np.concatenate([pos[s, :counts[s]] for s in range(n_sp)]),
               types=[sym[8*s:8*s + 8].strip().decode()
                      for s in range(n_sp) for _ in range(counts[s])],
               masses=[mass[s] for s in range(n_sp)
                       for _ in range(counts[s])])
    if b'FORCE_CON' in key:
        out['sc'] = after(b'FORCE_CON', 1, '>i4').reshape(3, 3).T
        nc = abs(int(round(np.linalg.det(out['sc']))))
        f = after(b'FORCE_CON', 2).reshape(nc, 3*n, 3*n)
        out['fc'] = np.array([x.T for x in f])
        out['origins'] = after(b'FORCE_CON', 3, '>i4').reshape(nc, 3)
    if b'BORN_CHGS' in key:
        out['born'] = after(b'BORN_CHGS').reshape(n, 3, 3)
    if b'DIELECTRIC' in key:
        out['eps'] = after(b'DIELECTRIC').reshape(3, 3).T
    return out
