"""C24: Phonopy readers."""
import contextlib
import glob
import io
import itertools
import os
import tempfile

import numpy as np

from mc import gen
from mc import phonopyfile as pf

TECHNIQUE = ('bounded-exhaustive enumeration of Phonopy file sets, each '
             'written by an independent writer and read by the real code; the '
             'writer is bound to the format by the real Phonopy files of the '
             'repository')
NOTE = ('Every combination of container, geometry (primitive and supercell '
        'matrices, also non-symmetric), atom order, NAC source and unit up to '
        'the bound is read through the public constructors; the object must '
        'give the dynamical matrix of the model the files were written from.')
RULE = ('one state per file set and reader option; a transition is one read, a '
        'trace one file set compared in full')
ASSUMPTIONS = [
    'lattice convention (a_s b_s c_s) = (a_u b_u c_u) M_s, with the vectors as '
    'columns, as documented by Phonopy and confirmed for the primitive matrix '
    'by the files of the repository',
    'the p2s atom is the first of its group in the supercell']
DATA = '/repo/tests_and_analysis/test/data/phonopy_files'
I3 = np.eye(3)
FCC = np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]])
BCC = np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]])
OBV = np.array([[2, -1, -1], [1, 1, -2], [1, 1, 1]])/3.

# cell, basis, supercell rows in primitive vectors, primitive matrix
GEOMS = {
    'plain': ('tric', 'gen2', ((2, 0, 0), (0, 1, 0), (0, 0, 1)), None),
    'ident': ('ortho', 'gen2', ((1, 0, 0), (0, 2, 0), (0, 0, 2)), I3),
    'one': ('hex', 'one', ((2, 0, 0), (0, 2, 0), (0, 0, 1)), None),
    'fcc1': ('fcc', 'dia', ((-1, 1, 1), (1, -1, 1), (1, 1, -1)), FCC),
    'bcc1': ('bcc', 'one', ((0, 1, 1), (1, 0, 1), (1, 1, 0)), BCC),
    'skew': ('tric', 'gen2', ((1, 1, 0), (0, 2, 0), (0, 0, 1)), None),
    'skew3': ('ortho', 'gen3', ((1, 0, 1), (0, 1, 0), (-1, 0, 1)), I3),
    'cyc': ('tric', 'gen2', ((0, 2, 0), (0, 0, 1), (1, 0, 0)), None),
    'out': ('tric', 'out2', ((2, 0, 0), (0, 1, 0), (0, 0, 1)), None),
    'obv': ('tric', 'gen2', ((1, -1, 0), (0, 1, -1), (1, 1, 1)), OBV),
    'left': ('left', 'gen2', ((1, 0, 0), (1, 3, 0), (0, 0, 1)), None),
    'obv2': ('hex', 'gen2', ((1, -1, 0), (0, 2, -2), (1, 1, 1)), OBV),
}
ORDERS = ('grouped', 'shifted', 'reversed', 'mixed')
BOX = (('inline', 'compact'), ('inline', 'full'), ('text', 'compact'),
       ('text', 'full'), ('text1', 'full'), ('hdf5', 'compact'),
       ('hdf5', 'full'), ('hd5', 'compact'), ('h5', 'full'),
       ('asked', 'compact'), ('askedtext', 'full'))
NACS = ('old', 'new', 'file', 'file+yamlfactor', 'file+comment', 'file+blank',
        'yaml+file')
QS = [(0, 0, 0), (.5, 0, 0), (.13, -.41, .27), (1/3, 1/3, 0), (1.2, .4, -.7)]


def units(tier):
    for g in GEOMS:
        yield f'fc/{g}', dict(part='fc', geom=g)
    for g in ('plain', 'fcc1', 'skew', 'out'):
        yield f'nac/{g}', dict(part='nac', geom=g)
    yield 'units', dict(part='units')
    for b, k in itertools.product(('one', 'gen2', 'gen3', 'out2'),
                                  ('mesh', 'band', 'qpoints')):
        yield f'modes/{b}/{k}', dict(part='modes', basis=b, kind=k)
    yield 'errors', dict(part='errors')
    for f in sorted(glob.glob(DATA + '/**/*.yaml', recursive=True)):
        if os.path.getsize(f) < 3e6 or tier != 'quick':
            yield 'real/' + os.path.relpath(f, DATA), dict(part='real', path=f)
    for k in ('mesh', 'band', 'qpoints'):
        yield f'realmodes/{k}', dict(part='realmodes', kind=k)
    if tier != 'quick':
        for g, h in itertools.product(GEOMS, (1, 2)):
            yield f'fc/{g}/{h}', dict(part='fc', geom=g, seed=h)


def run(ctx, part, **kw):
    with tempfile.TemporaryDirectory() as d:
        with contextlib.redirect_stdout(io.StringIO()):
            globals()['part_' + part](ctx, d, **kw)


def model(geom, order='grouped', seed=0, asr=None):
    cell, basis, sc, mp = GEOMS[geom]
    r, types = gen.BASES[basis]
    phi, og = gen.raw_fc(basis, sc, seed=seed, asr=asr)
    return pf.Model(gen.CELLS[cell], r, types, [gen.MASS[t] for t in types],
                    sc, mp, phi, og, order)


def truth(m):
    """force constants of the model built without the reader (hartree/bohr^2),
    atoms at the positions of the model"""
    from euphonic import Crystal, ForceConstants, ureg
    crys = Crystal(m.lp*ureg('angstrom'), m.r.copy(), np.array(m.types),
                   np.array(m.masses)*ureg('amu'))
    return ForceConstants(crys, m.phi*ureg('hartree/bohr**2'), m.sc.copy(),
                          m.origins.astype(np.int32).copy())


def atom_gauge(d, r, q):
    n = len(r)
    ph = np.exp(2j*np.pi*(np.asarray(r) @ np.asarray(q, float)))
    p = np.repeat(ph, 3)
    return p.conj()[:, None]*d*p[None, :]


def dyn_of(modes, k):
    """dynamical matrix in the atom gauge from the modes"""
    w = modes.frequencies[k].to('hartree').magnitude
    e = modes.eigenvectors[k].reshape(len(w), -1)
    d = np.einsum('m,ma,mb->ab', np.sign(w)*w**2, e, e.conj())
    return atom_gauge(d, modes.crystal.atom_r, modes.qpts[k])


def model_dyn(ctx, m):
    from mc import ref
    fc = truth(m)
    im = ref.Images(fc.crystal.cell_vectors.to('bohr').magnitude, m.sc, m.r,
                    m.origins, margin=1e-3)
    assert im.clear and im.reach < 3
    return [atom_gauge(ref.dyn(fc, np.array(q, float), im), m.r, q)
            for q in QS]


def check_crystal(ctx, crys, m, case):
    r = m.r - np.floor(m.r)
    ctx.check(list(map(str, crys.atom_type)) == m.types, 'wrong species', case)
    ctx.check(np.allclose(crys.cell_vectors.to('angstrom').magnitude, m.lp,
                          1e-9, 1e-12), 'wrong cell vectors', case,
              lambda: dict(got=crys.cell_vectors))
    d = crys.atom_r - r
    ctx.check(crys.atom_r.shape == r.shape
              and np.abs(d - np.rint(d)).max() < 1e-10,
              'wrong atom positions', case, lambda: dict(got=crys.atom_r))
    ctx.check(np.allclose(crys.atom_mass.to('amu').magnitude, m.masses, 1e-9),
              'wrong masses', case, lambda: dict(got=crys.atom_mass))


def check_fc(ctx, fc, m, dyns, case):
    check_crystal(ctx, fc.crystal, m, case)
    got = ctx.call(case, fc.calculate_qpoint_phonon_modes, np.array(QS, float),
                   use_c=False)
    if got is ctx.FAILED:
        return
    scale = max(np.abs(d).max() for d in dyns)
    for k, q in enumerate(QS):
        err = np.abs(dyn_of(got, k) - dyns[k]).max()/scale
        ctx.check(err < 1e-8, 'the force constants read do not give the '
                  'dynamical matrix of the model', case,
                  lambda: dict(q=q, error=err))
    ctx.trace()


def write_fc(d, m, box, shape, unit='eV/Angstrom^2', **kw):
    """the files of one container; returns reader keywords"""
    fc = (m.full if shape == 'full' else m.compact)*pf.conversion(
        pf.FC_UNITS[unit], 'hartree/bohr**2')
    inline = box == 'inline'
    with open(d + '/phonopy.yaml', 'w') as f:
        f.write(pf.summary(m, fc if inline else None, unit, **kw))
    opts = dict(path=d)
    if box in ('text', 'text1', 'askedtext'):
        name = 'fc.hdf5.txt' if box == 'askedtext' else 'FORCE_CONSTANTS'
        with open(d + '/' + name, 'w') as f:
            f.write(pf.force_constants_text(fc, box == 'text1'))
        if box == 'askedtext':
            opts.update(fc_name=name, fc_format='phonopy')
    elif not inline:
        name = 'mydata.fc' if box == 'asked' else 'force_constants.' + box
        pf.force_constants_hdf5(d + '/' + name, fc, m.p2s, 'eV/angstrom^2')
        opts['fc_name'] = name
        if box == 'asked':
            opts['fc_format'] = 'hdf5'
    return opts


def part_fc(ctx, d, geom, seed=0):
    from euphonic import ForceConstants
    for order in ORDERS:
        m = model(geom, order, seed)
        dyns = model_dyn(ctx, m)
        first = None
        for box, shape in BOX:
            if ctx.thorough is False and order not in ('grouped', 'shifted') \
                    and box not in ('inline', 'text'):
                continue
            case = dict(geometry=geom, order=order, container=box, form=shape)
            opts = write_fc(d, m, box, shape)
            ctx.state((geom, order, box, shape))
            fc = ctx.call(case, ForceConstants.from_phonopy, **opts)
            ctx.transition()
            if fc is ctx.FAILED:
                continue
            check_fc(ctx, fc, m, dyns, case)
            if first is None:
                first = fc
            same = (np.allclose(fc.force_constants.magnitude,
                                first.force_constants.magnitude, 0, 1e-12)
                    and np.array_equal(fc.cell_origins, first.cell_origins)
                    and np.array_equal(fc.sc_matrix, first.sc_matrix))
            ctx.check(same, 'equivalent files give different objects', case)
        # atoms of the primitive cell written in other cells
        if order in ('grouped', 'shifted'):
            n = len(m.r)
            for k in range(min(n, 2)):
                for sh in ((1, 0, 0), (0, -1, 0), (0, 1, 2)):
                    r = m.r.copy()
                    r[k] += sh
                    case = dict(geometry=geom, order=order, atom=k, shift=sh)
                    ctx.state((geom, order, 'moved', k, sh))
                    opts = write_fc(d, m, 'inline', 'compact', file_r=r)
                    fc = ctx.call(case, ForceConstants.from_phonopy, **opts)
                    ctx.transition()
                    if fc is not ctx.FAILED:
                        check_fc(ctx, fc, m, dyns, case)
        # the primitive matrix written with fewer digits, rounded either way
        if order == 'grouped' and m.mp is not None:
            for digits, how in itertools.product(
                    (14, 12, 10, 8), (np.floor, np.ceil, np.trunc, np.rint)):
                mp = how(m.mp*10.**digits)/10.**digits
                case = dict(geometry=geom, digits=digits, rounding=how.__name__)
                ctx.state((geom, 'digits', digits, how.__name__))
                opts = write_fc(d, m, 'inline', 'compact', file_mp=mp)
                fc = ctx.call(case, ForceConstants.from_phonopy, **opts)
                ctx.transition()
                if fc is not ctx.FAILED:
                    check_fc(ctx, fc, m, dyns, case)


def dielectric_in_file(eps_au, factor, unit, length):
    """Phonopy: factor converts e^2/length^3 /eps to force constants"""
    one = pf.conversion(pf.FC_UNITS[unit] + '*' + (
        'bohr' if length == 'au' else 'angstrom') + '**3', 'hartree*bohr')
    return eps_au*factor/one, one


def part_nac(ctx, d, geom):
    from euphonic import ForceConstants, ureg
    m = model(geom)
    cell, basis, sc, mp = GEOMS[geom]
    z, eps = gen.born_charges(basis, 'aniso')
    # Phonopy contracts q with the first index of a tensor (the direction of
    # the field), the reference (and CASTEP's files) with the second
    zf = z.transpose(0, 2, 1)
    base = truth(m)
    crys = base.crystal
    want = ForceConstants.from_total_fc_with_dipole(
        crys, base.force_constants, m.sc.copy(),
        m.origins.astype(np.int32).copy(), z*ureg('e'),
        eps*ureg('e**2/(bohr*hartree)'))
    qs = np.array([q for q in QS if any(q)])
    ref_modes = want.calculate_qpoint_phonon_modes(qs, use_c=False)
    total = model_dyn(ctx, m)
    comm = [k for k, q in enumerate(QS) if any(q) and np.allclose(
        np.asarray(m.sc) @ np.array(q), np.rint(np.asarray(m.sc) @ q),
        atol=1e-9)]
    for unit, length in (('eV/Angstrom^2', 'Angstrom'), ('Ry/au^2', 'au'),
                         ('eV/Angstrom.au', 'au'), ('hartree/au^2', 'au')):
        _, one = dielectric_in_file(eps, 1., unit, length)
        for factor, nac in itertools.product((round(one, 9), 3.25), NACS):
            case = dict(geometry=geom, unit=unit, nac=nac, factor=factor)
            ctx.state((geom, unit, factor, nac))
            fe, _ = dielectric_in_file(eps, factor, unit, length)
            kw = {}
            opts = {}
            if nac in ('old', 'new'):
                kw = dict(born=zf, eps=fe, factor=factor, new_nac=nac == 'new')
            elif nac == 'yaml+file':
                # complete data in the summary: no need to read BORN
                kw = dict(born=zf, eps=fe, factor=factor)
                opts['born_name'] = 'BORN'
            else:
                opts['born_name'] = 'BORN'
                if nac == 'file+yamlfactor':
                    kw = dict(factor=factor)
            if 'file' in nac:
                with open(d + '/BORN', 'w') as f:
                    f.write(pf.born_text(
                        zf, fe, None if nac == 'file+yamlfactor' else factor,
                        nac == 'file+comment', nac == 'file+blank'))
            o = write_fc(d, m, 'inline', 'compact', unit, length=length, **kw)
            fc = ctx.call(case, ForceConstants.from_phonopy, **o, **opts)
            ctx.transition()
            if fc is ctx.FAILED:
                continue
            check_crystal(ctx, fc.crystal, m, case)
            ctx.check(fc.born is not None and np.allclose(
                fc.born.to('e').magnitude, z, 0, 1e-9), 'wrong Born charges',
                case, lambda: dict(got=fc.born))
            ctx.check(fc.dielectric is not None and np.allclose(
                fc.dielectric.to('e**2/(bohr*hartree)').magnitude, eps, 1e-7),
                'wrong dielectric tensor', case,
                lambda: dict(got=fc.dielectric, expected=eps))
            if fc.born is None:
                continue
            got = ctx.call(case, fc.calculate_qpoint_phonon_modes, qs,
                           use_c=False)
            if got is ctx.FAILED:
                continue
            for k in range(len(qs)):
                a, b = dyn_of(got, k), dyn_of(ref_modes, k)
                ctx.check(np.abs(a-b).max() < 1e-5*np.abs(b).max(),
                          'the polar force constants read do not give the '
                          'modes of the model', case,
                          lambda: dict(q=qs[k], error=np.abs(a-b).max()))
            for k in comm:
                i = [tuple(q) for q in qs].index(QS[k])
                a, b = dyn_of(got, i), total[k]
                ctx.check(np.abs(a-b).max() < 1e-4*np.abs(b).max(),
                          'at a commensurate q-point the total force constants '
                          'of the file are not recovered', case,
                          lambda: dict(q=QS[k], error=np.abs(a-b).max()))
            ctx.trace()


def part_units(ctx, d):
    from euphonic import ForceConstants
    m = model('plain', 'shifted')
    dyns = model_dyn(ctx, m)
    for unit, length, (box, shape) in itertools.product(
            pf.FC_UNITS, ('Angstrom', 'angstrom', 'au'), BOX[:6]):
        case = dict(unit=unit, length=length, container=box)
        ctx.state((unit, length, box, shape))
        fc = ctx.call(case, ForceConstants.from_phonopy,
                      **write_fc(d, m, box, shape, unit, length=length))
        ctx.transition()
        if fc is not ctx.FAILED:
            check_fc(ctx, fc, m, dyns, case)
    # no units in the file: eV, angstrom
    for box, shape in BOX[:6]:
        case = dict(unit='none', container=box)
        ctx.state(('none', box, shape))
        fc = ctx.call(case, ForceConstants.from_phonopy,
                      **write_fc(d, m, box, shape, units=False))
        ctx.transition()
        if fc is not ctx.FAILED:
            check_fc(ctx, fc, m, dyns, case)


# ------------------------------------------------------------------ modes

def file_modes(basis, qs, seed=0):
    """frequencies (THz) and eigenvectors (atom gauge) of a model"""
    from euphonic import ureg
    from mc import ref
    sc = ((2, 0, 0), (0, 1, 0), (0, 0, 1))
    r, types = gen.BASES[basis]
    phi, og = gen.raw_fc(basis, sc, seed=seed)
    m = pf.Model(gen.CELLS['tric'], r, types, [gen.MASS[t] for t in types],
                 sc, None, phi, og)
    fc = truth(m)
    im = ref.Images(fc.crystal.cell_vectors.to('bohr').magnitude, m.sc, m.r,
                    m.origins, margin=1e-3)
    thz = float(ureg('hartree').to('THz').magnitude)
    ds, fr, ev = [], [], []
    for q in qs:
        dm = atom_gauge(ref.dyn(fc, np.array(q, float), im), m.r, q)
        lam, vec = np.linalg.eigh(dm)
        ds.append(dm)
        fr.append(np.sign(lam)*np.sqrt(np.abs(lam))*thz)
        ev.append(vec.T.reshape(len(lam), len(r), 3))
    return m, ds, np.array(fr), np.array(ev)


def check_modes(ctx, got, m, ds, qs, fr, weights, case, file_r, evecs=True,
                key=None):
    crys = got.crystal
    thz = got.frequencies.to('THz').magnitude
    ctx.check(got.qpts.shape == (len(qs), 3)
              and np.allclose(got.qpts, qs, 0, 1e-12), 'wrong q-points', case,
              lambda: dict(got=got.qpts))
    ctx.check(thz.shape == fr.shape and np.allclose(thz, fr, 1e-9, 1e-9),
              'wrong frequencies', case, lambda: dict(got=thz, expected=fr))
    w = (np.full(len(qs), 1/len(qs)) if weights is None
         else np.array(weights)/sum(weights))
    ctx.check(got.weights.shape == w.shape
              and np.allclose(got.weights, w, 0, 1e-12), 'wrong weights', case,
              lambda: dict(got=got.weights, expected=w))
    if not hasattr(got, 'eigenvectors'):
        ctx.check(np.allclose(crys.cell_vectors.to('angstrom').magnitude,
                              m.lp, 1e-9, 1e-12), 'wrong cell vectors', case)
        return
    check_crystal(ctx, crys, m, case)
    for k in range(len(qs)):
        e = got.eigenvectors[k].reshape(len(fr[k]), -1)
        d = atom_gauge(ds[k], -np.asarray(crys.atom_r), qs[k])
        lam = np.einsum('ma,ab,mb->m', e.conj(), d, e).real
        res = np.abs(d @ e.T - e.T*lam[None, :]).max()/np.abs(d).max()
        norm = np.abs(e.conj() @ e.T - np.eye(len(e))).max()
        ok = (norm < 1e-8 and res < 1e-8
              and np.allclose(lam, np.sort(lam), 0, 1e-9*np.abs(d).max()))
        bad = None
        if not ok and key:
            # the listed reading: rows and columns of the file exchanged
            raw = key(k, np.asarray(crys.atom_r))
            if np.allclose(np.abs(np.einsum('ma,ma->m', e.conj(), raw)), 1,
                           atol=1e-7):
                bad = 'hdf5-rows-read-as-modes'
        ctx.check(ok, 'the eigenvectors read are not those of the file', case,
                  lambda: dict(q=qs[k], residual=res, norm=norm), key=bad)
    ctx.trace()


def part_modes(ctx, d, basis, kind):
    from euphonic import QpointFrequencies, QpointPhononModes
    allq = [(0., 0., 0.), (.5, 0., 0.), (.13, -.41, .27), (1/3, 1/3, 0.)]
    sets = [[0], [2], [0, 1], [2, 2], [1, 2, 3], [3, 2, 1, 0]]
    for qi in sets:
        qs = [allq[i] for i in qi]
        m, ds, fr, ev = file_modes(basis, qs, seed=len(qi))
        # reducible points of a mesh: all different, or all the same
        wts = (None if kind != 'mesh' else [4]*len(qs) if qi == [3, 2, 1, 0]
               else [1 + 2*k for k in range(len(qs))])
        with open(d + '/phonopy.yaml', 'w') as f:
            f.write(pf.summary(m))
        with open(d + '/au.yaml', 'w') as f:
            f.write(pf.summary(m, unit='Ry/au^2', length='au'))
        for has in (True, False):
            e = ev if has else None
            boxes = []
            for crystal in (True, False):
                if kind == 'qpoints' and crystal:
                    continue
                name = f'{kind}.yaml' if crystal else f'{kind}2.yaml'
                text = pf.modes_yaml(kind, m.lp, m.r, m.types, m.masses, qs,
                                     fr, e, wts, crystal)
                with open(f'{d}/{name}', 'w') as f:
                    f.write(text)
                none = dict(summary_name='absent.yaml')
                boxes.append(('yaml', name, none if crystal else {}))
                if not crystal:
                    boxes.append(('yaml', name, dict(summary_name='au.yaml')))
                for ext in ('yml', 'yl'):
                    other = name[:-4] + ext
                    with open(f'{d}/{other}', 'w') as f:
                        f.write(text)
                    boxes.append(('yaml', other,
                                  {} if not crystal else none))
                with open(f'{d}/{name}.data', 'w') as f:
                    f.write(text)
                boxes.append(('yaml', f'{name}.data',
                              dict(phonon_format='yaml')))
            for ext in ('hdf5', 'hd5', 'h5', 'out'):
                for npath in ((1, 2) if kind == 'band' and len(qs) % 2 == 0
                              else (1,)):
                    name = f'{kind}_{npath}.{ext}'
                    pf.modes_hdf5(f'{d}/{name}', kind, qs, fr, e, wts, npath)
                    o = dict(phonon_format='hdf5') if ext == 'out' else {}
                    boxes.append(('hdf5', name, o))
                    if ext == 'hdf5':
                        boxes.append(('hdf5', name,
                                      dict(summary_name='au.yaml')))
            for form, name, opts in boxes:
                for cls in (QpointPhononModes, QpointFrequencies):
                    case = dict(basis=basis, kind=kind, qpts=qs, file=name,
                                eigenvectors=has, cls=cls.__name__,
                                options=opts)
                    ctx.state((basis, kind, tuple(qi), has, name,
                               cls.__name__, str(opts)))
                    ctx.transition()
                    if not has and cls is QpointPhononModes:
                        try:
                            cls.from_phonopy(d, phonon_name=name, **opts)
                            ctx.fail('modes without eigenvectors are accepted',
                                     case)
                        except RuntimeError:
                            pass
                        continue
                    got = ctx.call(case, cls.from_phonopy, d, phonon_name=name,
                                   **opts)
                    if got is ctx.FAILED:
                        continue

                    def rows(k, r):
                        nb = fr.shape[1]
                        raw = ev[k].reshape(nb, nb).T      # rows of the file
                        ph = np.repeat(np.exp(2j*np.pi*(r @ np.array(qs[k]))),
                                       3)
                        return raw*ph
                    check_modes(ctx, got, m, ds, qs, fr, wts, case, m.r,
                                key=rows if form == 'hdf5' and kind != 'band'
                                else None)


# ------------------------------------------------------------------ errors

def refused(ctx, case, f, **kw):
    ctx.state(str(case))
    ctx.transition()
    try:
        got = f(**kw)
    except Exception:
        ctx.trace()
        return
    ctx.fail('inconsistent files are accepted', case, dict(got=repr(got)[:80]))


def part_errors(ctx, d):
    from euphonic import ForceConstants, QpointPhononModes, QpointFrequencies
    m = model('plain')
    other = model('ident')
    read = ForceConstants.from_phonopy
    z, eps = gen.born_charges('gen2', 'aniso')
    for box, shape in BOX[2:]:
        # force constants of another crystal
        opts = write_fc(d, other, box, shape)
        with open(d + '/phonopy.yaml', 'w') as f:
            f.write(pf.summary(m))
        refused(ctx, dict(what='incommensurate force constants', box=box,
                          form=shape), read, **opts)
    opts = write_fc(d, m, 'text', 'compact')
    for name in ('no_such_file', 'no_such.hdf5'):
        refused(ctx, dict(what='missing file', name=name), read, path=d,
                fc_name=name)
    for fmt in ('', 'df', 'h', 'json', 'castep', 'yaml'):
        refused(ctx, dict(what='unknown format', fmt=fmt), read, path=d,
                fc_format=fmt)
    # polar data of which the unit is not known, or the wrong number of atoms
    for new in (False, True):
        write_fc(d, m, 'inline', 'compact', born=z, eps=eps, new_nac=new)
        refused(ctx, dict(what='no NAC factor', new=new), read, path=d)
    write_fc(d, m, 'inline', 'compact')
    with open(d + '/BORN', 'w') as f:
        f.write(pf.born_text(z, eps))
    refused(ctx, dict(what='no NAC factor', new='BORN'), read, path=d,
            born_name='BORN')
    for zz in (z[:1], np.concatenate([z, z])):
        with open(d + '/BORN', 'w') as f:
            f.write(pf.born_text(zz, eps, 14.4))
        refused(ctx, dict(what='BORN of another crystal', n=len(zz)), read,
                path=d, born_name='BORN')
    m1, ds, fr, ev = file_modes('gen3', [(0, 0, 0), (.1, .2, .3)])
    for kind, box, cls in itertools.product(
            ('mesh', 'band', 'qpoints'), ('yaml', 'hdf5'),
            (QpointPhononModes, QpointFrequencies)):
        name = f'{kind}.{box}'
        if box == 'yaml':
            with open(f'{d}/{name}', 'w') as f:
                f.write(pf.modes_yaml(kind, m1.lp, m1.r, m1.types, m1.masses,
                                      [(0, 0, 0), (.1, .2, .3)], fr, ev,
                                      [1, 2], False))
        else:
            pf.modes_hdf5(f'{d}/{name}', kind, [(0, 0, 0), (.1, .2, .3)], fr,
                          ev, [1, 2])
        refused(ctx, dict(what='summary of another crystal', file=name,
                          cls=cls.__name__), cls.from_phonopy, path=d,
                phonon_name=name)
        for fmt in ('', 'df', 'json'):
            refused(ctx, dict(what='unknown phonon format', file=name, fmt=fmt,
                              cls=cls.__name__), cls.from_phonopy, path=d,
                    phonon_name=name, phonon_format=fmt)


# -------------------------------------------------------- binding to reality

def load(path):
    import yaml
    loader = getattr(yaml, 'CSafeLoader', yaml.SafeLoader)
    with open(path) as f:
        return yaml.load(f, Loader=loader)


def part_real(ctx, d, path):
    y = load(path)
    case = dict(file=os.path.relpath(path, DATA))
    ctx.state(path)
    if 'supercell' not in y:
        return
    lat = {k: np.array(y[k]['lattice']) for k in
           ('primitive_cell', 'unit_cell', 'supercell') if k in y}
    ms = np.array(y['supercell_matrix'], float)
    ctx.check(np.allclose(lat['supercell'], ms.T @ lat['unit_cell'],
                          atol=1e-6), 'the convention of the writer for the '
              'supercell matrix is not that of the file', case)
    mp = np.array(y.get('primitive_matrix', np.eye(3)))
    ctx.check(np.allclose(lat['primitive_cell'], mp.T @ lat['unit_cell'],
                          atol=1e-6), 'the convention of the writer for the '
              'primitive matrix is not that of the file', case)
    if 'force_constants' not in y or y['force_constants']['shape'][1] > 128:
        return
    # decode the file, write it again with the writer in every container, and
    # the objects must be equal to that of the real file
    from euphonic import ForceConstants
    pts = y['primitive_cell']['points']
    spts = y['supercell']['points']
    r = np.array([p['coordinates'] for p in pts])
    sr = np.array([p['coordinates'] for p in spts])
    to = [p['reduced_to'] - 1 for p in spts]
    p2s = sorted(set(to))
    nac = 'nac' in y
    factor = (y['nac'] if nac else y['phonopy']).get(
        'unit_conversion_factor' if nac else 'nac_unit_conversion_factor')
    src = y['nac'] if nac else y
    born, eps = src.get('born_effective_charge'), src.get('dielectric_constant')
    if born is not None and factor is None:
        born = eps = None
    shape = y['force_constants']['shape']
    fc = np.array(y['force_constants']['elements']).reshape(*shape, 3, 3)
    m = pf.Model.__new__(pf.Model)
    m.lp, m.ls, m.r = lat['primitive_cell'], lat['supercell'], r
    m.types = [p['symbol'] for p in pts]
    m.masses = [p['mass'] for p in pts]
    m.ms, m.mp = np.array(y['supercell_matrix']), y.get('primitive_matrix')
    m.spos, m.p2s = sr, p2s
    m.atoms = [(p2s.index(t), 0) for t in to]
    pu = y.get('physical_unit', {})
    kw = dict(unit=pu.get('force_constants', 'eV/Angstrom^2'),
              length=pu.get('length', 'Angstrom'))
    try:
        want = ForceConstants.from_phonopy(
            os.path.dirname(path), summary_name=os.path.basename(path))
    except KeyError:
        return      # no factor
    ctx.transition()
    # the lattice in the file is in file units already
    ln = pf.conversion('bohr' if kw['length'] == 'au' else 'angstrom',
                       'angstrom')
    m.lp, m.ls = m.lp/ln, m.ls/ln
    for box in ('inline', 'text', 'hdf5'):
        for new in (False, True):
            with open(d + '/phonopy.yaml', 'w') as f:
                f.write(pf.summary(m, fc if box == 'inline' else None,
                                   born=born, eps=eps, factor=factor,
                                   new_nac=new, **kw))
            with open(d + '/FORCE_CONSTANTS', 'w') as f:
                f.write(pf.force_constants_text(fc))
            pf.force_constants_hdf5(d + '/fc.hdf5', fc, p2s, 'eV')
            o = dict(fc_name='fc.hdf5') if box == 'hdf5' else {}
            c = dict(case, container=box, new_nac=new)
            got = ctx.call(c, ForceConstants.from_phonopy, d, **o)
            ctx.transition()
            if got is ctx.FAILED:
                continue
            a, b = got.force_constants.magnitude, want.force_constants.magnitude
            ctx.check(a.shape == b.shape and np.allclose(
                a, b, 0, 1e-11*np.abs(b).max())
                and np.array_equal(got.cell_origins, want.cell_origins),
                'rewriting a real file changes what is read', c)
            ctx.check((got.born is None) == (want.born is None), 'rewriting a '
                      'real file changes the polar data', c)
            if got.born is not None and want.born is not None:
                ctx.check(np.allclose(got.born.magnitude, want.born.magnitude)
                          and np.allclose(got.dielectric.magnitude,
                                          want.dielectric.magnitude),
                          'rewriting a real file changes the polar data', c)
            ctx.trace()


def part_realmodes(ctx, d, kind):
    """the yaml and hdf5 files of one calculation agree with the layout the
    writer uses (columns)"""
    import h5py
    base = f'{DATA}/NaCl/{kind}/{kind}'
    y = load(base + '.yaml')
    ye = np.array([[b['eigenvector'] for b in p['band']] for p in y['phonon']])
    nb = ye.shape[1]
    ye = (ye[..., 0] + 1j*ye[..., 1]).reshape(-1, nb, nb)
    yq = np.array([p['q-position'] for p in y['phonon']])
    yf = np.array([[b['frequency'] for b in p['band']] for p in y['phonon']])
    with h5py.File(base + '.hdf5') as h:
        he = h['eigenvector'][()].reshape(-1, nb, nb)
        hq = h['path' if kind == 'band' else 'qpoint'][()].reshape(-1, 3)
        hf = h['frequency'][()].reshape(-1, nb)
    for k, q in enumerate(yq):
        hit = np.where(np.abs(hq - q).max(axis=1) < 1e-6)[0]
        ctx.state((kind, k))
        if not len(hit):
            continue
        case = dict(kind=kind, qpt=q)
        # q-points at the ends of two segments occur twice
        dy = np.einsum('m,ma,mb->ab', yf[k], ye[k], ye[k].conj())
        ok = False
        for j in hit:
            dh = np.einsum('m,am,bm->ab', hf[j], he[j], he[j].conj())
            ok |= (np.allclose(yf[k], hf[j], atol=1e-5)
                   and np.allclose(dy, dh, atol=1e-3))
        ctx.check(ok, 'the writer does not store the eigenvectors as the '
                  'files of the repository do', case)
        ctx.trace()
