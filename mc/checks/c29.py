"""C29: Brille interpolation."""
import contextlib
import copy
import io
import itertools
import warnings

import numpy as np

from mc import gen

TECHNIQUE = ('bounded-exhaustive enumeration of crystals x grid kinds x grid '
             'sizes x calculation options, and of all operations of the point '
             'group x reciprocal lattice vectors x list layouts for the '
             'queries, on the real code')
NOTE = ('Brille itself is a third-party library which does not interpolate '
        'exactly at its own grid points on every grid: the comparison with '
        'Fourier interpolation is made at the vertices of those grids (cubic '
        'crystals, trellis and mesh) where it does, and the contents of the '
        'grid and the conversion of the results are compared on all grids.')
RULE = ('one state per (crystal, grid kind, sizing, options) or (crystal, '
        'grid, operation, lattice vector, layout); one transition per q-point '
        'compared')
ASSUMPTIONS = ['Brille interpolates exactly at the vertices of trellis and '
               'mesh grids of primitive cubic crystals']
GRIDS = ('trellis', 'mesh', 'nest')
# crystals whose force constants have the symmetry of the crystal
SYMMETRIC = (('cubic', 'one'), ('cubic', 'cscl'), ('cubic', 'perov'))
ANY = (('cubic', 'cscl'), ('fcc', 'dia'), ('hex', 'gen2'), ('tric', 'gen3'),
       ('ortho', 'one'))
OPTIONS = [dict(), None, dict(use_c=False), dict(use_c=True, n_threads=1),
           dict(asr='reciprocal'), dict(asr='realspace', use_c=True),
           dict(dipole=False), dict(splitting=False),
           dict(dipole_parameter=.7), dict(insert_gamma=True),
           dict(reduce_qpts=True), dict(insert_gamma=True, reduce_qpts=True,
                                        asr='reciprocal', dipole=False)]


def units(tier):
    for cell, basis in ANY:
        for g in GRIDS:
            yield f'fill/{cell}/{basis}/{g}', dict(
                mode='fill', cell=cell, basis=basis, grid=g)
    for cell, basis in SYMMETRIC:
        for g in GRIDS[:2]:
            for npts in (10, 40) + ((120,) if tier == 'thorough' else ()):
                yield f'exact/{cell}/{basis}/{g}/{npts}', dict(
                    mode='exact', cell=cell, basis=basis, grid=g, npts=npts)
    for g in GRIDS:
        yield f'query/{g}', dict(mode='query', grid=g)
        yield f'sizes/{g}', dict(mode='sizes', grid=g)
    yield 'reject', dict(mode='reject')


def run(ctx, mode, **kwargs):
    warnings.simplefilter('ignore')
    globals()[mode](ctx, **kwargs)


def build(fc, *args, **kwargs):
    from euphonic.brille import BrilleInterpolator
    with contextlib.redirect_stdout(io.StringIO()):
        return BrilleInterpolator.from_force_constants(fc, *args, **kwargs)


def central(cell, basis, size=4, reach=4.6):
    """force constants of springs which depend on the distance only"""
    from euphonic import ForceConstants, ureg
    c = gen.crystal(cell, basis)
    n = c.n_atoms
    sc = np.diag([size]*3)
    cv = c.cell_vectors.to('angstrom').magnitude
    og = gen.lattice_points(sc)
    inv = np.linalg.inv(sc.astype(float))
    idx = {gen.reduce_key(p, sc, inv): k for k, p in enumerate(og)}
    fc = np.zeros((len(og), 3*n, 3*n))
    i0 = idx[(0, 0, 0)]
    for i, j in itertools.product(range(n), repeat=2):
        for r in itertools.product(range(-2, 3), repeat=3):
            d = (c.atom_r[j] + r - c.atom_r[i]) @ cv
            length = np.linalg.norm(d)
            if not 1e-6 < length < reach:
                continue
            u = d/length
            k = -(.2*np.exp(-length/2)*np.outer(u, u)
                  + .01*np.exp(-length/3)*np.eye(3))
            fc[idx[gen.reduce_key(np.array(r), sc, inv)],
               3*i:3*i+3, 3*j:3*j+3] += k
            fc[i0, 3*i:3*i+3, 3*i:3*i+3] -= k
    return ForceConstants(c, fc*ureg('hartree/bohr**2'), sc, og)


def hartree(m):
    return m.frequencies.to('hartree').magnitude


def fill(ctx, cell, basis, grid):
    """the grid holds the result of Fourier interpolation with the options"""
    import brille as br
    vol = br.BrillouinZone(br.Lattice(
        gen.crystal(cell, basis).cell_vectors.to('angstrom').magnitude)
    ).ir_polyhedron.volume
    sizes = [dict(grid_npts=20), dict(grid_density=25/vol),
             dict(grid_kwargs={
                 'trellis': dict(node_volume_fraction=vol/20,
                                 always_triangulate=False),
                 'mesh': dict(max_size=vol/10, max_points=25),
                 'nest': dict(number_density=15)}[grid])]
    for born in ((None, 'aniso') if basis != 'one' else (None,)):
        fc = gen.force_constants(cell, basis, sc=np.diag([2, 1, 2]), born=born)
        bare = fc.to_dict()
        for size, opts in itertools.product(sizes, OPTIONS):
            if (not ctx.thorough and 'grid_npts' not in size
                    and opts not in (OPTIONS[1], OPTIONS[-1])):
                continue
            case = dict(cell=cell, basis=basis, grid=grid, size=size,
                        options=opts, born=born)
            ctx.case = case
            ctx.state(case)
            size = copy.deepcopy(size)
            given = copy.deepcopy(opts)
            ret = ctx.call(case, build, fc, grid, interpolation_kwargs=given,
                           **size)
            if ret is ctx.FAILED:
                continue
            ctx.trace()
            ctx.check(given == opts, "the caller's options were changed",
                      case, given)
            ctx.check(size == case['size'], "the caller's grid arguments were "
                      'changed', case, size)
            q = ret._grid.rlu
            use = {k: v for k, v in (opts or {}).items()
                   if k not in ('insert_gamma', 'reduce_qpts')}
            # dict(opts) of a fresh object: no state shared with the grid's
            fresh = type(fc).from_dict(bare)
            want = fresh.calculate_qpoint_phonon_modes(
                q, **dict(use, reduce_qpts=False))
            n = fc.crystal.n_atoms
            ctx.transition(len(q))
            f = ret._grid.values
            v = ret._grid.vectors
            if not ctx.check(f.shape == (len(q), 3*n, 1)
                             and v.shape == (len(q), 3*n, 3*n),
                             'shape of the grid data', case,
                             [f.shape, v.shape]):
                continue
            got = f[..., 0]*np.abs(f[..., 0])
            ref = hartree(want)*np.abs(hartree(want))
            ctx.check(np.allclose(got, ref, rtol=1e-9,
                                  atol=1e-10*np.abs(ref).max()),
                      'grid frequencies are not those of the force '
                      'constants', case, lambda: dict(
                          diff=np.abs(f[..., 0] - hartree(want)).max()))
            # gauge-independent: the dynamical matrix made of the modes
            lam = np.sign(hartree(want))*hartree(want)**2
            a = np.einsum('qmi,qm,qmj->qij', v, lam, v.conj())
            w = want.eigenvectors.reshape(len(q), 3*n, 3*n)
            b = np.einsum('qmi,qm,qmj->qij', w, lam, w.conj())
            ctx.check(np.abs(a - b).max() <= 1e-9*np.abs(b).max(),
                      'grid eigenvectors are not those of the force constants',
                      case, lambda: np.abs(a - b).max())
            ctx.outcome((len(q), np.round(f.ravel()[:5], 8).tobytes()))
            ctx.check(ret.crystal is fc.crystal
                      or str(ret.crystal.to_dict())
                      == str(fc.crystal.to_dict()),
                      'crystal of the interpolator', case)
        after = fc.to_dict()
        ctx.check(all(np.array_equal(after[k], bare[k]) for k in
                      ('force_constants', 'cell_origins', 'sc_matrix')),
                  'force constants were changed', case)
    ctx.sample(ctx.case)


def operations():
    """the 48 operations of the cubic point group on reciprocal space"""
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            m = np.zeros((3, 3))
            m[range(3), p] = s
            yield m


def exact(ctx, cell, basis, grid, npts):
    """interpolation at every image of the grid points"""
    from mc import ref
    fc = central(cell, basis, 3 if basis == 'perov' else 4)
    interp = build(fc, grid, grid_npts=npts)
    q0 = interp._grid.rlu
    n3 = 3*fc.crystal.n_atoms
    shifts = ((0, 0, 0), (1, 0, 0), (0, -2, 1), (-1, -1, -1), (3, 2, -1))
    for k, m in enumerate(operations()):
        g = np.array(shifts[k % len(shifts)])
        for shift in (np.zeros(3), g) if g.any() else (g,):
            q = q0 @ m + shift
            case = dict(cell=cell, basis=basis, grid=grid, npts=npts,
                        operation=m, shift=shift)
            ctx.case = case
            ctx.state(case)
            got = ctx.call(case, interp.calculate_qpoint_phonon_modes, q,
                           useparallel=False)
            if got is ctx.FAILED:
                continue
            ctx.trace()
            ctx.transition(len(q))
            want = fc.calculate_qpoint_phonon_modes(q, n_threads=1)
            f = np.sort(got.frequencies.to('meV').magnitude, axis=1)
            e = want.frequencies.to('meV').magnitude
            ctx.check(np.allclose(f, e, rtol=1e-7, atol=1e-4),
                      'frequencies differ from Fourier interpolation at an '
                      'image of a grid point', case,
                      lambda: dict(diff=np.abs(f - e).max()))
            ctx.check(np.array_equal(got.qpts, q), 'q-points changed', case)
            lam = ref.lam(want.frequencies)
            v = want.eigenvectors.reshape(len(q), n3, n3)
            d = np.einsum('qmi,qm,qmj->qij', v, lam, v.conj())
            w = got.eigenvectors.reshape(len(q), n3, n3)
            r = (np.einsum('qij,qmj->qmi', d, w.conj())
                 - ref.lam(got.frequencies)[:, :, None]*w.conj())
            r2 = (np.einsum('qij,qmj->qmi', d, w)
                  - ref.lam(got.frequencies)[:, :, None]*w)
            del r
            # D is defined by the modes of the same q-point, so this holds in
            # any gauge and for degenerate modes
            ctx.check(np.abs(r2).max() <= 1e-8*np.abs(lam).max(),
                      'eigenvectors differ from Fourier interpolation at an '
                      'image of a grid point', case,
                      lambda: dict(residual=np.abs(r2).max()
                                   / np.abs(lam).max()))
            norm = np.einsum('qmi,qni->qmn', w.conj(), w)
            ctx.check(np.abs(norm - np.eye(n3)).max() < 1e-8,
                      'eigenvectors not orthonormal', case)
            ctx.outcome((k, bool(g.any()), len(q)))
    ctx.sample(ctx.case)


def query(ctx, grid):
    """every arrangement of a q-point list gives the values of Brille's own
    interpolation, in euphonic's units and shapes"""
    for cell, basis in (('tric', 'gen3'), ('hex', 'gen2'), ('cubic', 'one')):
        fc = gen.force_constants(cell, basis, sc=np.diag([2, 1, 1]))
        interp = build(fc, grid, grid_npts=20)
        pool = np.array([[0, 0, 0], [.1, .2, .3], [-.37, .25, 1.4],
                         [.5, 0, 0]])
        n = fc.crystal.n_atoms
        single = {}
        for i, x in enumerate(pool):
            val, vec = interp._grid.ir_interpolate_at(
                np.ascontiguousarray(x[None]), useparallel=False)
            single[i] = (np.array(val).reshape(3*n)*27211.386245988,
                         np.array(vec).reshape(3*n, n, 3))
        for length in (1, 2, 3) if ctx.thorough else (1, 2):
            for idx in itertools.product(range(4), repeat=length):
                base = pool[list(idx)]
                layouts = dict(
                    c=base.copy(), fortran=np.asfortranarray(base),
                    strided=np.repeat(base, 2, axis=0)[::2],
                    reversed=base[::-1].copy()[::-1])
                for lay, q in layouts.items():
                    for kw in ({}, dict(useparallel=False),
                               dict(useparallel=True, threads=2)):
                        case = dict(cell=cell, basis=basis, grid=grid, q=idx,
                                    layout=lay, kwargs=kw)
                        ctx.case = case
                        ctx.state(case)
                        given = q.copy()
                        for freq_only in (False, True):
                            fun = (interp.calculate_qpoint_frequencies
                                   if freq_only else
                                   interp.calculate_qpoint_phonon_modes)
                            m = ctx.call(case, fun, q, **kw)
                            if m is ctx.FAILED:
                                continue
                            ctx.trace()
                            ctx.transition(length)
                            f = m.frequencies
                            ctx.check(str(f.units) == 'millielectron_volt',
                                      'unit of the frequencies', case,
                                      str(f.units))
                            ctx.check(np.array_equal(m.qpts, given)
                                      and np.array_equal(q, given),
                                      'q-points changed', case)
                            e = np.array([single[i][0] for i in idx])
                            ctx.check(np.allclose(
                                f.to('meV').magnitude, e, rtol=1e-8,
                                atol=1e-9), 'frequencies are not those of '
                                'the grid', case, lambda: dict(
                                    got=f.magnitude, expected=e))
                            ctx.check(np.allclose(m.weights, 1/length),
                                      'weights', case, m.weights)
                            if freq_only:
                                ctx.check(type(m).__name__
                                          == 'QpointFrequencies', 'type', case)
                                continue
                            ev = np.array([single[i][1] for i in idx])
                            ctx.check(np.allclose(m.eigenvectors, ev,
                                                  atol=1e-10),
                                      'eigenvectors are not those of the '
                                      'grid', case)
                        ctx.outcome(idx)
    ctx.sample(ctx.case)


def sizes(ctx, grid):
    """a density is a number of points per volume; the number of points grows
    with the number asked for; explicit arguments have priority"""
    import brille as br
    for cell, basis in ANY:
        fc = gen.force_constants(cell, basis, sc=np.eye(3, dtype=int))
        counts = []
        probe = build(fc, grid, grid_npts=10)
        vol = probe._grid.BrillouinZone.ir_polyhedron.volume
        for npts in (5, 10, 40, 160, 480):
            case = dict(cell=cell, basis=basis, grid=grid, npts=npts)
            ctx.case = case
            ctx.state(case)
            a = ctx.call(case, build, fc, grid, grid_npts=npts)
            if a is ctx.FAILED:
                return
            counts.append(len(a._grid.rlu))
            ctx.transition()
            ctx.trace()
            b = build(fc, grid, grid_npts=3,
                      grid_density=(npts + .5)/vol if grid != 'trellis'
                      else npts/vol)
            same = a._grid.rlu.shape == b._grid.rlu.shape
            if grid != 'mesh':
                # (the maximum size of the cells of a mesh given a density is
                # that of the density, without the volume)
                ctx.check(same and np.allclose(a._grid.rlu, b._grid.rlu),
                          'a density does not give the number of points per '
                          'volume', case, lambda: [len(a._grid.rlu),
                                                   len(b._grid.rlu)])
            for kw in (dict(grid_npts=npts), dict(grid_density=npts/vol)
                       ) if npts < 20 or ctx.thorough else ():
                explicit = {
                    'trellis': dict(node_volume_fraction=.02),
                    'mesh': dict(max_size=.1, max_points=12),
                    'nest': dict(number_density=9)}[grid]
                c = build(fc, grid, grid_kwargs=dict(explicit), **kw)
                d = build(fc, grid, grid_kwargs=dict(explicit))
                ctx.check(np.array_equal(c._grid.rlu, d._grid.rlu),
                          'explicit grid arguments do not have priority', case)
            ctx.outcome(counts[-1])
            cls = {'trellis': br.BZTrellisQdc, 'mesh': br.BZMeshQdc,
                   'nest': br.BZNestQdc}[grid]
            ctx.check(isinstance(a._grid, cls), 'kind of grid', case,
                      str(type(a._grid)))
        ctx.check(all(x <= y for x, y in zip(counts, counts[1:]))
                  and counts[-1] > counts[0], 'the number of points does not '
                  'grow with the number asked for', case, counts)
        ctx.check(120 <= counts[-1] <= 480*12, 'number of points far from '
                  'that asked for', case, counts)
    ctx.sample(ctx.case)


def reject(ctx):
    """unfilled grids, grids of other crystals, unknown kinds"""
    from euphonic.brille import BrilleInterpolator
    fcs = {k: gen.force_constants(*k, sc=np.eye(3, dtype=int)) for k in ANY}
    for (ka, a), (kb, b), g in itertools.product(fcs.items(), fcs.items(),
                                                 GRIDS):
        case = dict(grid_of=ka, crystal=kb, grid=g)
        ctx.case = case
        ctx.state(case)
        ctx.transition()
        ctx.trace()
        grid = build(a, g, grid_npts=10)._grid
        ok = a.crystal.n_atoms == b.crystal.n_atoms
        try:
            BrilleInterpolator(b.crystal, grid)
            got = True
        except ValueError:
            got = False
        ctx.check(got == ok, 'grid with another number of modes accepted'
                  if got else 'proper grid rejected', case)
        ctx.outcome(ok)
    fc = fcs['cubic', 'cscl']
    for bad in ('', 'Trellis', 'box', 'trellis '):
        case = dict(grid_type=bad)
        ctx.state(case)
        try:
            build(fc, bad, grid_npts=10)
            ctx.fail('unknown kind of grid accepted', case)
        except ValueError:
            pass
    grid = build(fc, 'trellis', grid_npts=10)._grid
    for name, args in dict(
            no_crystal=(fc, grid), no_grid=(fc.crystal, fc),
            nothing=(fc.crystal, None), swapped=(grid, fc.crystal)).items():
        case = dict(arguments=name)
        ctx.state(case)
        ctx.transition()
        try:
            BrilleInterpolator(*args)
            ctx.fail('wrong type accepted', case)
        except TypeError:
            pass
    import brille as br
    for g, kw in (('BZTrellisQdc', dict(node_volume_fraction=.05)),
                  ('BZMeshQdc', dict(max_size=.1, max_points=20)),
                  ('BZNestQdc', dict(number_density=10))):
        lat = br.Lattice(fc.crystal.cell_vectors.to('angstrom').magnitude)
        empty = getattr(br, g)(br.BrillouinZone(lat), **kw)
        case = dict(unfilled=g)
        ctx.state(case)
        ctx.transition()
        try:
            BrilleInterpolator(fc.crystal, empty)
            ctx.fail('a grid that has not been filled is accepted', case)
        except ValueError:
            pass
    ctx.sample(case)
