"""C23: CASTEP readers."""
import glob
import itertools
import os
import tempfile

import numpy as np

from mc import castepfile as cf
from mc import gen

TECHNIQUE = ('bounded-exhaustive enumeration of file layouts, each written by '
             'an independent writer and read by the real code; the writer is '
             'bound to the format by decoding the real CASTEP files of the '
             'repository with it')
NOTE = ('Every layout up to the bound (atoms, species, q-points, split gamma '
        'blocks in every position, optional columns, sections and records) is '
        'read through the public constructors and every number compared.')
RULE = ('one state per file and reader option; a transition is one read of a '
        'file, a trace one file compared in full')
ASSUMPTIONS = [
    'the fixed-width number formats are those of CASTEP output (the sample '
    'files of the repository); overflowed fields (asterisks) are excluded',
    'the orientation of the Born charge and dielectric records is the one the '
    'repository documents by its own reference data',
    'when both charges and dielectric are not present the reader may refuse '
    'the file or leave the dipole data out']
DATA = '/repo/tests_and_analysis/test/data/castep_files'
GAMMA = (0., 0., 0.)
D1, D2, D3 = (1., 0., 0.), (.5, .5, 0.), (0., -.25, .333333)


def units(tier):
    top = 3 if tier == 'quick' else 4
    for n in range(1, top + 1):
        for cols in ('', 'ir', 'ir+raman'):
            yield f'phonon/{n}/{cols}', dict(part='phonon', n=n, cols=cols)
    yield 'phonon/loto', dict(part='loto')
    yield 'phonon/species', dict(part='species')
    yield 'phonon/large', dict(part='large')
    for n in range(1, top + 1):
        yield f'dos/{n}', dict(part='dos', n=n)
    for n in range(1, top + 1):
        yield f'bin/{n}', dict(part='bin', n=n)
    yield 'bin/versions', dict(part='versions')
    yield 'bin/records', dict(part='records')
    for f in sorted(glob.glob(DATA + '/*/*.castep_bin')):
        if os.path.getsize(f) < 1.2e6 or tier != 'quick':
            yield 'real/' + os.path.basename(f), dict(part='real', path=f)
    for f in sorted(glob.glob(DATA + '/*/*.phonon')):
        if os.path.getsize(f) < 3e5 or tier != 'quick':
            yield 'real/' + os.path.basename(f), dict(part='realtext', path=f)


def run(ctx, part, **kw):
    with tempfile.TemporaryDirectory() as d:
        globals()['part_' + part](ctx, d, **kw)


# ------------------------------------------------------------ phonon files

def compare_crystal(ctx, crys, c, case, cell_unit='angstrom',
                    mass_unit='amu', wrap=False, tol=1e-10):
    r = np.array(c['r'])
    r = r - np.floor(r) if wrap else r
    ctx.check(crys.n_atoms == len(c['types']), 'wrong number of atoms', case)
    ctx.check(np.allclose(crys.cell_vectors.to(cell_unit).magnitude,
                          c['cell'], tol, 1e-12), 'wrong cell vectors', case,
              lambda: dict(got=crys.cell_vectors))
    ctx.check(crys.atom_r.shape == r.shape
              and np.allclose(crys.atom_r, r, 0, 1e-12),
              'wrong atom positions', case,
              lambda: dict(got=crys.atom_r, expected=r))
    ctx.check(list(map(str, crys.atom_type)) == list(c['types']),
              'wrong species', case, lambda: dict(got=list(crys.atom_type)))
    ctx.check(np.allclose(crys.atom_mass.to(mass_unit).magnitude,
                          c['masses'], tol, 0), 'wrong masses', case,
              lambda: dict(got=crys.atom_mass, expected=c['masses']))


def expected_weights(blocks, average, prefer):
    w = np.array([b['weight'] for b in blocks])
    # runs of the same id
    i = 0
    while i < len(blocks):
        j = i
        while j + 1 < len(blocks) and blocks[j + 1]['id'] == blocks[i]['id']:
            j += 1
        idx = list(range(i, j + 1))
        if len(idx) > 1:
            split = [k for k in idx if blocks[k]['direction'] is not None]
            plain = [k for k in idx if blocks[k]['direction'] is None]
            if prefer and split and plain:
                if len(plain) > 1:
                    return None
                w[split] = 0
            elif average:
                w[idx] /= len(idx)
        i = j + 1
    return w


def read_phonon(ctx, d, c, blocks, case, cols='', n_wave=None,
                options=((True, False),)):
    from euphonic import QpointFrequencies, QpointPhononModes
    path = os.path.join(d, 'x.phonon')
    with open(path, 'w') as f:
        f.write(cf.phonon_text(c, blocks, n_wave, cols))
    for average, prefer in options:
        for cls in (QpointPhononModes, QpointFrequencies):
            cs = dict(case, average_repeat_points=average,
                      prefer_non_loto=prefer, cls=cls.__name__)
            ctx.state(cs)
            ctx.transition()
            w = expected_weights(blocks, average, prefer)
            if w is None:
                try:
                    cls.from_castep(path, average_repeat_points=average,
                                    prefer_non_loto=prefer)
                    ctx.fail('ambiguous blocks accepted', cs, '')
                except ValueError:
                    pass
                continue
            obj = ctx.call(cs, cls.from_castep, path,
                           average_repeat_points=average,
                           prefer_non_loto=prefer)
            if obj is ctx.FAILED:
                continue
            ctx.trace()
            compare_crystal(ctx, obj.crystal, c, cs)
            if not ctx.check(obj.n_qpts == len(blocks)
                             and obj.qpts.shape == (len(blocks), 3),
                             'wrong number of q-points', cs,
                             lambda: dict(got=obj.n_qpts)):
                continue
            ctx.check(np.array_equal(obj.qpts, [b['q'] for b in blocks]),
                      'wrong q-points', cs, lambda: dict(
                          got=obj.qpts, expected=[b['q'] for b in blocks]))
            ctx.check(np.allclose(obj.weights, w, 1e-12, 0),
                      'wrong weights', cs,
                      lambda: dict(got=obj.weights, expected=w))
            ctx.check(str(obj.frequencies.units) == 'millielectron_volt',
                      'frequencies not in meV', cs)
            f = obj.frequencies.to('1/cm').magnitude
            e = np.array([b['freqs'] for b in blocks])
            ctx.check(f.shape == e.shape and np.allclose(f, e, 1e-10, 1e-10),
                      'wrong frequencies', cs, lambda: dict(
                          got=f[:2, :4], expected=e[:2, :4]))
            if cls is QpointPhononModes:
                v = np.array([b['evecs'] for b in blocks])
                ctx.check(obj.eigenvectors.shape == v.shape
                          and np.array_equal(obj.eigenvectors, v),
                          'wrong eigenvectors', cs, lambda: dict(
                              shape=obj.eigenvectors.shape))


OPTIONS = tuple(itertools.product((True, False), (True, False)))


def part_phonon(ctx, d, n, cols):
    types = [('O', 'Si', 'O', 'H')[i] for i in range(n)]
    c = cf.make_crystal(n, types)
    top = 4 if ctx.thorough else 3
    kinds = {'p': None, 'd': D1, 'e': D2, 's': None}
    # a word: p a point with a new id, then blocks repeating the last id:
    # d, e with a direction, s without
    for m in range(1, top + 1):
        for w in itertools.product('pDdes', repeat=m):
            if w[0] in 'des':
                continue
            blocks, qid = [], 0
            for k, x in enumerate(w):
                if x in 'pD':
                    qid += 1
                    q = None if x == 'p' else GAMMA
                    last = cf.make_block(n, qid, k, D3 if x == 'D' else None,
                                         q)
                    blocks.append(last)
                else:
                    blocks.append(cf.make_block(
                        n, qid, k, kinds[x], last['q'], last['weight']))
            read_phonon(ctx, d, c, blocks, dict(n=n, cols=cols, blocks=w),
                        cols, options=OPTIONS)
    # ids that are not consecutive, repeated later, large; header count
    for ids in ((1, 1, 1), (7, 3, 5), (1, 2, 1), (1, 2, 2, 1), (1, 1, 2, 2),
                (99999, 12345, 1), (1, 2, 2, 2)):
        blocks = [cf.make_block(n, i, k) for k, i in enumerate(ids)]
        read_phonon(ctx, d, c, blocks, dict(n=n, cols=cols, ids=ids), cols,
                    options=OPTIONS)


def part_loto(ctx, d):
    """gamma split into k directions, plain block anywhere, other points
    around it; n_wave counts q-points"""
    n = 2
    c = cf.make_crystal(n, ['Zn', 'S'])
    dirs = (D1, D2, D3)
    for k, plain, before, after in itertools.product(
            range(0, 4), (-1, 0, 1, 2, 3), (0, 1, 2), (0, 1, 2)):
        if plain > k:
            continue
        seq = list(dirs[:k])
        if plain >= 0:
            seq.insert(plain, None)
        if not seq:
            continue
        blocks = [cf.make_block(n, i + 1, 'b') for i in range(before)]
        gid = before + 1
        blocks += [cf.make_block(n, gid, i, s, GAMMA, .3)
                   for i, s in enumerate(seq)]
        blocks += [cf.make_block(n, gid + 1 + i, 'a') for i in range(after)]
        for cols in ('', 'ir', 'ir+raman'):
            read_phonon(ctx, d, c, blocks, dict(
                directions=k, plain=plain, before=before, after=after,
                cols=cols), cols, options=OPTIONS)


def part_species(ctx, d):
    for n in range(1, 4):
        for types in itertools.product(('O', 'Si', 'H:D', 'X'), repeat=n):
            c = cf.make_crystal(n, types)
            read_phonon(ctx, d, c, [cf.make_block(n, 1, 0)],
                        dict(types=types))


def part_large(ctx, d):
    """wide fields"""
    for n, nq in ((12, 2), (35, 1), (2, 120)):
        types = ['Si']*(n//2) + ['O']*(n - n//2)
        c = cf.make_crystal(n, types)
        blocks = [cf.make_block(n, i + 1, i) for i in range(nq)]
        read_phonon(ctx, d, c, blocks, dict(n=n, nq=nq), 'ir')
    n = 1
    c = cf.make_crystal(1, ['H'])
    for q in itertools.product((-.5, 0., 1.25, -10.333333, 123.000001),
                               repeat=3):
        b = cf.make_block(1, 1, 0, None, q)
        b['freqs'] = np.array([-12345.678901, -0., 4800.5])
        b['weight'] = 1.
        read_phonon(ctx, d, c, [b, cf.make_block(1, 2, 1)], dict(q=q))


def part_dos(ctx, d, n):
    from euphonic import Spectrum1D, Spectrum1DCollection
    from euphonic.readers.castep import read_phonon_dos_data
    path = os.path.join(d, 'x.phonon_dos')
    for types in itertools.product(('O', 'Si', 'H'), repeat=n):
        # the columns are in order of species in the atom list
        if any(types[i] != types[i - 1] and types[i] in types[:i]
               for i in range(1, n)):
            continue
        for nq, bins in itertools.product(
                (1, 2, 3), ([0., 1.], [-20., -19., -18.], [0., 2.5, 5., 7.5],
                            list(np.arange(-5., 5.)))):
            c = cf.make_crystal(n, types)
            blocks = [cf.make_block(n, i + 1, i) for i in range(nq)]
            species = list(dict.fromkeys(types))
            dos = np.round(cf.det('dos', n, types, nq).uniform(
                0, 3, (len(species) + 1, len(bins))), 6)
            dos[1:, 0] = 0.
            case = dict(types=types, nq=nq, bins=bins)
            ctx.state(case)
            with open(path, 'w') as f:
                f.write(cf.phonon_dos_text(c, blocks, bins, dos))
            coll = ctx.call(case, Spectrum1DCollection.from_castep_phonon_dos,
                            path)
            ctx.transition()
            mev = _mev()
            if coll is not ctx.FAILED:
                ctx.trace()
                ctx.check(coll.y_data.shape == dos.shape and np.allclose(
                    coll.y_data.to('1/meV').magnitude, dos/mev, 1e-9, 1e-14),
                    'wrong DOS collection', case, lambda: dict(
                        got=coll.y_data.magnitude*mev, expected=dos))
                ctx.check(np.allclose(coll.x_data.to('meV').magnitude,
                                      np.array(bins)*mev, 1e-9, 1e-12),
                          'wrong DOS bins', case)
                ctx.check([s.metadata.get('species') for s in coll]
                          == [None] + species and
                          [s.metadata.get('label') for s in coll]
                          == ['Total'] + species,
                          'wrong species of the DOS', case,
                          lambda: dict(got=coll.metadata))
            for i, s in enumerate([None] + species):
                one = ctx.call(case, Spectrum1D.from_castep_phonon_dos, path,
                               *([s] if s else []))
                ctx.transition()
                if one is ctx.FAILED:
                    continue
                ctx.check(np.allclose(one.y_data.to('1/meV').magnitude,
                                      dos[i]/mev, 1e-9, 1e-14)
                          and np.allclose(one.x_data.to('meV').magnitude,
                                          np.array(bins)*mev, 1e-9, 1e-12),
                          'wrong DOS', case, lambda: dict(species=s))
                ctx.check(one.metadata.get('species') == s,
                          'wrong species of a single DOS', case)
            for cu, fu in (('angstrom', 'meV'), ('bohr', 'THz'),
                           ('nm', '1/cm')):
                if n > 2 and cu != 'bohr':
                    continue
                r = ctx.call(case, read_phonon_dos_data, path,
                             cell_vectors_unit=cu, frequencies_unit=fu)
                ctx.transition()
                if r is ctx.FAILED:
                    continue
                from euphonic import Crystal, ureg
                compare_crystal(ctx, Crystal.from_dict(r['crystal']), c, case)
                ctx.check(np.array_equal(r['qpts'], [b['q'] for b in blocks])
                          and np.allclose(r['weights'],
                                          [b['weight'] for b in blocks],
                                          1e-12, 0),
                          'wrong q-points in the DOS file', case)
                fq = (r['frequencies']*ureg(r['frequencies_unit'])).to(
                    '1/cm').magnitude
                ctx.check(np.allclose(fq, [b['freqs'] for b in blocks], 1e-9),
                          'wrong frequencies in the DOS file', case)
                eu, lu = r['mode_gradients_unit'].split('*')
                g = (r['mode_gradients']*ureg(eu).to('1/cm').magnitude
                     * ureg(lu).to('angstrom').magnitude)
                ctx.check(np.shape(g) == (nq, 3*n) and np.allclose(
                    g, [b['grads'] for b in blocks], 1e-9),
                    'wrong mode gradients', case)
                b = (r['dos_bins']*ureg(r['dos_bins_unit'])).to(
                    '1/cm').magnitude
                ctx.check(np.allclose(b, bins, 1e-9, 1e-9),
                          'wrong DOS bins in the DOS file', case,
                          lambda: dict(unit=fu))
                per = ureg(fu).to('1/cm').magnitude
                ctx.check(r['dos_unit'] == f'1/{fu}'
                          and list(r['dos']) == ['Total'] + species
                          and all(np.allclose(r['dos'][k]/per, dos[i], 1e-9,
                                              1e-12)
                                  for i, k in enumerate(['Total'] + species)),
                          'wrong DOS in the DOS file', case,
                          lambda: dict(unit=fu))


def _mev():
    from euphonic import ureg
    return ureg('1/cm').to('meV').magnitude


# ------------------------------------------------------------- castep_bin

def compare_fc(ctx, fc, e, case):
    compare_crystal(ctx, fc.crystal, e, case, 'bohr', 'm_e', wrap=True,
                    tol=1e-9)
    ctx.check(np.array_equal(fc.sc_matrix, e['sc']), 'wrong supercell matrix',
              case, lambda: dict(got=fc.sc_matrix, expected=e['sc']))
    ctx.check(np.array_equal(fc.cell_origins, e['origins']),
              'wrong cell origins', case)
    got = fc.force_constants.to('hartree/bohr**2').magnitude
    ctx.check(got.shape == e['fc'].shape and np.allclose(
        got, e['fc'], 1e-12, 0), 'wrong force constants', case)
    if 'born' in e and 'eps' in e:
        ctx.check(fc.born is not None and fc.dielectric is not None
                  and np.allclose(fc.born.to('e').magnitude, e['born'],
                                  1e-12, 0)
                  and np.allclose(fc.dielectric.to(
                      'e**2/(bohr*hartree)').magnitude, e['eps'], 1e-9, 0),
                  'wrong Born charges or dielectric tensor', case)
    elif 'born' not in e and 'eps' not in e:
        ctx.check(fc.born is None and fc.dielectric is None,
                  'dipole data made up', case)


SCS = {'111': np.eye(3, dtype=int), '211': np.diag([2, 1, 1]),
       '132': np.diag([1, 3, 2]),
       'skew': np.array([[1, 1, 0], [-1, 1, 0], [0, 0, 1]]),
       'asym': np.array([[2, 1, 0], [0, 1, 0], [0, 1, 1]]),
       'neg': np.array([[0, 1, 0], [1, 0, 0], [0, 0, 2]])}


def compositions(n):
    for k in range(1, n + 1):
        for cut in itertools.combinations(range(1, n), k - 1):
            e = (0,) + cut + (n,)
            yield [e[i + 1] - e[i] for i in range(k)]


def read_bin(ctx, path, records, case, refuse=False):
    from euphonic import ForceConstants
    data = cf.pack(records)
    with open(path, 'wb') as f:
        f.write(data)
    ctx.state(case)
    ctx.transition()
    e = cf.decode(data)
    if 'fc' not in e or ('born' in e) != ('eps' in e) or refuse:
        try:
            fc = ForceConstants.from_castep(path)
        except Exception as err:
            if 'fc' not in e:
                ctx.check(isinstance(err, RuntimeError),
                          'missing force constants reported as '
                          + type(err).__name__, case, str(err))
            return
        ctx.check('fc' in e and not refuse, 'file accepted', case)
        if 'fc' in e:
            compare_fc(ctx, fc, e, case)
            ctx.check(fc.born is None and fc.dielectric is None,
                      'half of the dipole data used', case)
        return
    fc = ctx.call(case, ForceConstants.from_castep, path)
    if fc is ctx.FAILED:
        return
    ctx.trace()
    compare_fc(ctx, fc, e, case)


def content(n, comp, sc, seed):
    g = cf.det('bin', n, tuple(comp), seed)
    names = ['Si', 'O', 'H', 'Mg']
    species = [(names[i], float(g.uniform(1e3, 1e5)),
                g.uniform(-1.2, 1.7, (k, 3))) for i, k in enumerate(comp)]
    cell = g.uniform(-2, 2, (3, 3)) + 8*np.eye(3)
    og = gen.lattice_points(sc)
    fc = g.uniform(-1, 1, (len(og), 3*n, 3*n))
    return cell, species, fc, og, g.uniform(-3, 3, (n, 3, 3)), g.uniform(
        1, 3, (3, 3))


def part_bin(ctx, d, n):
    path = os.path.join(d, 'x.castep_bin')
    for comp in compositions(n):
        for sc, dip, second, order in itertools.product(
                SCS, ('none', 'both', 'born', 'eps'), (False, True),
                ('fbd', 'bdf', 'xfxdxb', 'dfb')):
            cell, species, fc, og, born, eps = content(n, comp, SCS[sc], 0)
            born = born if dip in ('both', 'born') else None
            eps = eps if dip in ('both', 'eps') else None
            cell2, species2 = content(n, comp, SCS[sc], 1)[:2]
            read_bin(ctx, path, cf.castep_bin(
                cell, species, SCS[sc], fc, og, born, eps,
                second_cell=(cell2, species2) if second else None,
                order=order), dict(n=n, species=comp, sc=sc, dipole=dip,
                                   second_cell=second, order=order))


def part_versions(ctx, d):
    path = os.path.join(d, 'x.castep_bin')
    sc = SCS['211']
    cell, species, fc, og, born, eps = content(2, [1, 1], sc, 0)
    for v, ok in (('17.1', True), ('17.100', True), ('17.21', True),
                  ('18.1', True), ('19.11', True), ('20.100', True),
                  ('21.1.1', True), ('23.1', True), ('100.0', True),
                  ('16.11', False), ('9.2', False), ('8.0', False),
                  ('5.5', False), ('17.0', False), ('2.0', False)):
        for dip in (True, False):
            read_bin(ctx, path, cf.castep_bin(
                cell, species, sc, fc, og, born if dip else None,
                eps if dip else None, version=v),
                dict(version=v, dipole=dip), refuse=not ok)


def part_records(ctx, d):
    """unrelated records between any two records of the top level; no force
    constants"""
    path = os.path.join(d, 'x.castep_bin')
    sc = SCS['asym']
    cell, species, fc, og, born, eps = content(3, [2, 1], sc, 0)
    base = cf.castep_bin(cell, species, sc, fc, og, born, eps, extra=True,
                         order='xfxbxdx')
    junk = [[b''], [b'\x00'], [cf.ints([5])], ['PHONON'.ljust(10),
            cf.floats(range(9))], ['BEGIN_BS'.ljust(30)],
            [cf.floats([1.5])], ['CELL%NUM_IONS'.ljust(256), cf.ints([9])]]
    heads = {i for i, r in enumerate(base) if isinstance(r, str)
             and not r.startswith('CELL') and r.strip() not in (
                 'BEGIN_UNIT_CELL', 'CELL_VERSION_NUMBER', '', 'seed',
                 '20.100', 'END_UNIT_CELL', 'CASTEP_BIN')
             and len(r) in (10, 30, 256) and i > 2}
    for i, j in itertools.product(sorted(heads), range(len(junk))):
        rs = base[:i] + junk[j] + base[i:]
        if j == 6:
            # only outside the unit cell section, found later by decode
            e = cf.decode(cf.pack(base))
        read_bin(ctx, path, rs, dict(junk=j, before=i, record=base[i]))
    for dip in (True, False):
        read_bin(ctx, path, cf.castep_bin(
            cell, species, sc, None, None, born if dip else None,
            eps if dip else None), dict(force_constants=False, dipole=dip))
    # no optional records at all
    read_bin(ctx, path, cf.castep_bin(cell, species, sc, fc, og, extra=False),
             dict(extra=False))
    from euphonic.readers.castep import read_interpolation_data
    from euphonic import ForceConstants
    with open(path, 'wb') as f:
        f.write(cf.pack(base))
    e = cf.decode(cf.pack(base))
    for cu, mu, fu, bu, du in itertools.product(
            ('angstrom', 'bohr'), ('amu', 'kg'),
            ('hartree/bohr**2', 'eV/angstrom**2'), ('e', 'C'),
            ('(e**2)/(bohr*hartree)', 'e**2/(angstrom*eV)')):
        case = dict(units=[cu, mu, fu, bu, du])
        ctx.state(case)
        r = ctx.call(case, read_interpolation_data, path, cu, mu, fu, bu, du)
        ctx.transition()
        if r is not ctx.FAILED:
            fc_ = ctx.call(case, ForceConstants.from_dict, r)
            if fc_ is not ctx.FAILED:
                compare_fc(ctx, fc_, e, case)


# -------------------------------------------------------------- real files

def part_real(ctx, d, path):
    from euphonic import ForceConstants
    case = dict(file=os.path.basename(path))
    with open(path, 'rb') as f:
        data = f.read()
    e = cf.decode(data)
    ctx.state(case)
    if 'fc' not in e:
        try:
            ForceConstants.from_castep(path)
            ctx.fail('file without force constants accepted', case, '')
        except RuntimeError:
            pass
        return
    fc = ctx.call(case, ForceConstants.from_castep, path)
    ctx.transition()
    if fc is not ctx.FAILED:
        compare_fc(ctx, fc, e, case)
        ctx.trace()
    # the writer reproduces the records it knows of the real file
    groups = {}
    for t, m, r in zip(e['types'], e['masses'], e['r']):
        groups.setdefault(t, (t, m, []))[2].append(r)
    mine = cf.castep_bin(e['cell'], [(t, m, np.array(p)) for t, m, p in
                                     groups.values()], e['sc'], e['fc'],
                         e['origins'], e.get('born'), e.get('eps'))
    real = cf.unpack(data)
    keys = [r.strip() for r in real]
    mk = [(r if isinstance(r, bytes) else r.encode()) for r in mine]
    for i, r in enumerate(mk):
        k = r.strip()
        if k in (b'FORCE_CON', b'BORN_CHGS', b'DIELECTRIC',
                 b'CELL%REAL_LATTICE', b'CELL%NUM_IONS',
                 b'CELL%SPECIES_MASS', b'CELL%SPECIES_SYMBOL',
                 b'CELL%IONIC_POSITIONS', b'CELL%NUM_IONS_IN_SPECIES'):
            j = keys.index(k)
            assert len(real[j]) == len(mk[i]), k
            for s in range(1, 4 if k == b'FORCE_CON' else 2):
                assert real[j + s] == mk[i + s], (k, s)


def part_realtext(ctx, d, path):
    """the text of a real .phonon file is read number by number"""
    from euphonic import QpointPhononModes
    case = dict(file=os.path.basename(path))
    lines = open(path).read().split('\n')
    n = int(lines[1].split()[-1])
    i = next(k for k, l in enumerate(lines) if 'Unit cell' in l)
    cell = [[float(x) for x in l.split()] for l in lines[i + 1:i + 4]]
    at = [l.split() for l in lines[i + 5:i + 5 + n]]
    c = dict(cell=np.array(cell), r=np.array([[float(x) for x in a[1:4]]
                                              for a in at]),
             types=[a[4] for a in at], masses=[float(a[5]) for a in at])
    i += 6 + n
    blocks = []
    while i < len(lines) and 'q-pt' in lines[i]:
        v = lines[i].split('=')[1].split()
        b = dict(id=int(v[0]), q=np.array([float(x) for x in v[1:4]]),
                 weight=float(v[4]),
                 direction=[float(x) for x in v[5:8]] or None)
        b['freqs'] = np.array([float(l.split()[1])
                               for l in lines[i + 1:i + 1 + 3*n]])
        i += 3 + 3*n
        e = np.array([[float(x) for x in l.split()[2:]]
                      for l in lines[i:i + 3*n*n]])
        b['evecs'] = (e[:, ::2] + 1j*e[:, 1::2]).reshape(3*n, n, 3)
        i += 3*n*n
        blocks.append(b)
    ctx.state(case)
    for average, prefer in OPTIONS:
        obj = ctx.call(case, QpointPhononModes.from_castep, path, average,
                       prefer)
        ctx.transition()
        if obj is ctx.FAILED:
            continue
        ctx.trace()
        compare_crystal(ctx, obj.crystal, c, case)
        w = expected_weights(blocks, average, prefer)
        ctx.check(np.array_equal(obj.qpts, [b['q'] for b in blocks])
                  and np.allclose(obj.weights, w, 1e-12, 0)
                  and np.allclose(obj.frequencies.to('1/cm').magnitude,
                                  [b['freqs'] for b in blocks], 1e-10, 1e-10)
                  and np.array_equal(obj.eigenvectors,
                                     [b['evecs'] for b in blocks]),
                  'real file read wrongly', case)
