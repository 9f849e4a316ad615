"""C22: crystal geometry."""
import itertools

import numpy as np

from mc import gen

TECHNIQUE = ('bounded-exhaustive enumeration of crystals (cells x bases x atom '
             'orders x lattice shifts x units x histories of reassignment) on '
             'the real code against brute-force geometry')
NOTE = ('Every crystal of the alphabet is compared with the definitions; the '
        'symmetry operations are compared, as a set, with all operations '
        'found by trying every integer matrix with entries -1, 0, 1.')
RULE = ('one state per (crystal, history, query); a transition is one query '
        'of the implementation')
ASSUMPTIONS = [
    'structures are exactly symmetric, or distorted by much less or much more '
    'than the tolerance',
    'all symmetry operations of the cells used have entries -1, 0, 1']

UNITS = ('angstrom', 'bohr', 'nm')
MASS_UNITS = ('amu', 'kg', 'm_e')
BASES = dict(gen.BASES)
BASES['two-equal'] = (np.array([[0., 0, 0], [.5, .5, .5]]), ['Si', 'Si'])
BASES['dia-equal'] = (np.array([[.1, .1, .1], [.35, .35, .35]]), ['C', 'C'])
BASES['graph'] = (np.array([[1/3, 2/3, .25], [2/3, 1/3, .75]]), ['N', 'N'])
BASES['wurtz'] = (np.array([[1/3, 2/3, 0], [2/3, 1/3, .5], [1/3, 2/3, .38],
                            [2/3, 1/3, .88]]), ['Zn', 'Zn', 'O', 'O'])
BASES['fcc4'] = (np.array([[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]]),
                 ['Al', 'Al', 'Al', 'Al'])
BASES['mixed4'] = (np.array([[0, 0, 0], [0, .5, .5], [.5, 0, .5],
                             [.5, .5, 0]]), ['Al', 'Na', 'Al', 'Na'])
MASS = dict(gen.MASS, C=12.011, N=14.007)


def units(tier):
    for c, b in itertools.product(gen.CELLS, BASES):
        yield f'{c}/{b}', dict(part='geometry', cell=c, basis=b)
    for c in gen.CELLS:
        yield f'history/{c}', dict(part='history', cell=c)
    yield 'tolerance', dict(part='tolerance')
    yield 'species', dict(part='species')


def run(ctx, part, **kw):
    globals()['part_' + part](ctx, **kw)


def _ref():
    from mc import ref
    return ref


def build(lat, r, types, unit='angstrom', mass_unit='amu'):
    from euphonic import Crystal, ureg
    return Crystal(lat*ureg('angstrom').to(unit), np.array(r, float),
                   np.array(types), np.array([MASS.get(t, 10.)
                                              for t in types])
                   * ureg('amu').to(mass_unit))


def metric(ctx, crys, lat, unit, case):
    """lattice, reciprocal lattice and volume; lat in angstrom"""
    from euphonic import ureg
    b = ctx.call(case, crys.reciprocal_cell)
    ctx.transition()
    if b is not ctx.FAILED:
        ctx.check(b.shape == (3, 3) and b.check('1/[length]'),
                  'reciprocal cell has the wrong shape or unit', case)
        prod = lat @ b.to('1/angstrom').magnitude.T
        ctx.check(np.abs(prod - 2*np.pi*np.eye(3)).max() < 1e-10,
                  'a_i . b_j is not 2 pi delta_ij', case,
                  lambda: dict(got=prod/2/np.pi))
    v = ctx.call(case, crys.cell_volume)
    ctx.transition()
    if v is not ctx.FAILED:
        ctx.check(np.ndim(v.magnitude) == 0 and v.check('[length]**3'),
                  'cell volume has the wrong shape or unit', case)
        ev = abs(np.linalg.det(lat))
        ctx.check(abs(v.to('angstrom**3').magnitude - ev) < 1e-10*ev,
                  'cell volume is not |a.(b x c)|', case,
                  lambda: dict(got=v, expected=ev))
    cv = crys.cell_vectors
    ctx.check(np.allclose(cv.to('angstrom').magnitude, lat, 1e-12, 1e-12)
              and str(cv.units) == str(ureg(unit).units),
              'cell vectors are not what was given', case)


def species(ctx, crys, types, case):
    got = ctx.call(case, crys.get_species_idx)
    ctx.transition()
    if got is ctx.FAILED:
        return
    order = list(dict.fromkeys(types))
    ctx.check([str(k) for k in got] == order,
              'species are not in order of first appearance', case,
              lambda: dict(got=list(got)))
    ctx.check(all(np.array_equal(got[k], [i for i, t in enumerate(types)
                                          if t == k])
                  for k in got),
              'species indices are not the atoms of that species', case,
              lambda: dict(got={k: list(v) for k, v in got.items()}))


def spglib_cell(ctx, crys, lat, r, types, case):
    c = ctx.call(case, crys.to_spglib_cell)
    ctx.transition()
    if c is ctx.FAILED:
        return
    ctx.check(np.allclose(c[0], lat, 1e-12, 1e-12) and np.array_equal(
        np.array(c[1], float).reshape(-1, 3), r),
        'spglib cell is not the lattice in angstrom and the positions', case)
    ctx.check(len(c[2]) == len(types) and all(
        (c[2][i] == c[2][j]) == (types[i] == types[j])
        for i in range(len(types)) for j in range(len(types))),
        'spglib species numbers do not separate the species', case,
        lambda: dict(got=c[2], types=types))


def symmetry(ctx, crys, lat, r, types, case, tol=None, expect='exact'):
    """tol in angstrom"""
    from euphonic import Quantity
    args = () if tol is None else (tol,)
    got = ctx.call(case, crys.get_symmetry_equivalent_atoms, *args)
    ctx.transition()
    if got is ctx.FAILED:
        return None
    rot, trans, eq = got
    n, m = len(rot), len(types)
    if not ctx.check(rot.shape == (n, 3, 3) and trans.shape == (n, 3)
                     and eq.shape == (n, m) and n >= 1
                     and np.issubdtype(eq.dtype, np.integer),
                     'symmetry arrays have the wrong shape', case):
        return None
    tola = 1e-5 if tol is None else tol.to('angstrom').magnitude
    seen = set()
    for s in range(n):
        ok = sorted(eq[s].tolist()) == list(range(m))
        if not ctx.check(ok, 'equivalent atoms are not a permutation', case,
                         lambda: dict(op=s, got=eq[s])):
            continue
        for i in range(m):
            j = int(eq[s, i])
            ctx.check(types[i] == types[j],
                      'an atom is mapped onto another species', case)
            d = rot[s] @ r[i] + trans[s] - r[j]
            d = (d - np.rint(d)) @ lat
            ctx.check(np.linalg.norm(d) < tola*1.001 + 1e-9,
                      'symmetry operation does not map the atom onto its '
                      'equivalent', case,
                      lambda: dict(op=s, rotation=rot[s],
                                   translation=trans[s], atom=i, to=j))
        if expect == 'exact':
            t = trans[s] - np.floor(trans[s] + 1e-6)
            seen.add((tuple(rot[s].ravel().tolist()),
                      tuple(np.rint(t*1e4).astype(int) % 10000)))
    if expect == 'exact':
        full = set()
        for w, t, perm in _ref().spacegroup(lat, r, types):
            t = t - np.floor(t + 1e-6)
            full.add((tuple(w.ravel().tolist()),
                      tuple(np.rint(t*1e4).astype(int) % 10000)))
        ctx.check(len(seen) == n, 'a symmetry operation is repeated', case)
        ctx.check(seen == full, 'not the symmetry operations of the crystal',
                  case, lambda: dict(missing=sorted(full - seen)[:3],
                                     extra=sorted(seen - full)[:3],
                                     n=n, expected=len(full)))
    return n


SHIFTS = ([0, 0, 0], [1, -2, 3], [-1, 0, 1])


def part_geometry(ctx, cell, basis):
    lat0 = gen.CELLS[cell]
    r0, t0 = BASES[basis]
    n = len(t0)
    perms = list(itertools.permutations(range(n)))
    if n > 4 and not ctx.thorough:
        perms = [p for p in perms if p[0] != 0 or p == tuple(range(n))][::11]
    if n > 3 and not ctx.thorough:
        perms = perms[::3]
    for perm, (si, shift), unit, origin in itertools.product(
            perms, enumerate(SHIFTS), UNITS, (0, 1)):
        if not ctx.thorough and (perm != perms[0] and unit != UNITS[si]):
            continue
        r = r0[list(perm)].copy()
        types = [t0[i] for i in perm]
        # a different shift for every other atom, and a different origin
        r[::2] += shift
        r += origin*np.array([.137, .25, -.41])
        case = dict(cell=cell, basis=basis, order=perm, shift=shift,
                    unit=unit, origin=origin)
        ctx.state(case)
        crys = ctx.call(case, build, lat0, r, types, unit, MASS_UNITS[si])
        if crys is ctx.FAILED:
            continue
        metric(ctx, crys, lat0, unit, case)
        species(ctx, crys, types, case)
        spglib_cell(ctx, crys, lat0, r, types, case)
        k = symmetry(ctx, crys, lat0, r, types, case)
        ctx.outcome((cell, basis, k))
        ctx.check(np.array_equal(crys.atom_r, r)
                  and list(crys.atom_type) == types,
                  'a query modified the crystal', case)
        ctx.trace()
    # scaled cells: the metric is homogeneous
    for scale, unit in itertools.product((1e-3, .5, 7., 1e4), UNITS):
        case = dict(cell=cell, basis=basis, scale=scale, unit=unit)
        ctx.state(case)
        crys = build(lat0*scale, r0, t0, unit)
        metric(ctx, crys, lat0*scale, unit, case)


OPS = ('unit:bohr', 'unit:nm', 'unit:angstrom', 'cell', 'cell-bohr', 'cell2',
       'move', 'swap', 'mass', 'copy')


def part_history(ctx, cell):
    """all sequences of reassignments, then every query"""
    import copy
    from euphonic import Crystal, ureg
    other = {'cell': gen.CELLS['tric'], 'cell-bohr': gen.CELLS['left'],
             'cell2': gen.CELLS['fcc']*1.7}
    depth = 4 if ctx.thorough else 3
    for n in range(depth + 1):
        for seq in itertools.product(OPS, repeat=n):
            lat, r, types = (gen.CELLS[cell], BASES['gen3'][0].copy(),
                             list(BASES['gen3'][1]))
            unit = 'angstrom'
            crys = build(lat, r, types)
            case = dict(cell=cell, history=seq)
            ctx.case = case
            for op in seq:
                if op.startswith('unit'):
                    unit = op[5:]
                    crys.cell_vectors_unit = unit
                elif op.startswith('cell'):
                    lat = other[op]
                    unit = 'bohr' if op == 'cell-bohr' else 'nm'
                    crys.cell_vectors = lat*ureg('angstrom').to(unit)
                elif op == 'move':
                    r = r + np.array([.2, -.7, 1.3])
                    crys.atom_r = r.copy()
                elif op == 'swap':
                    r, types = r[::-1].copy(), types[::-1]
                    r[0] += .01
                    crys.atom_r = r.copy()
                    crys.atom_type = np.array(types)
                elif op == 'mass':
                    crys.atom_mass = crys.atom_mass.to('kg')
                elif op == 'copy':
                    crys = Crystal.from_dict(crys.to_dict())
                ctx.transition()
            ctx.state(case)
            metric(ctx, crys, lat, unit, case)
            species(ctx, crys, types, case)
            spglib_cell(ctx, crys, lat, r, types, case)
            ctx.trace()
            if n < depth:
                symmetry(ctx, crys, lat, r, types, case)


def part_tolerance(ctx):
    from euphonic import Quantity
    r0, types = BASES['perov']
    lat = gen.CELLS['cubic']
    full = len(_ref().spacegroup(lat, r0, types))
    for atom, axis, unit, tu in itertools.product(range(5), range(3), UNITS,
                                                  UNITS):
        for disp, tol in itertools.product((1e-7, 3e-5, 3e-4, .01, .2),
                                           (1e-5, 1e-3, .1)):
            if not (disp < tol/20 or disp > tol*20):
                continue
            r = r0.copy()
            r[atom, axis] += disp/4.
            case = dict(atom=atom, axis=axis, unit=unit, tol_unit=tu,
                        displacement=disp, tol=tol)
            ctx.state(case)
            crys = build(lat, r, types, unit)
            n = symmetry(ctx, crys, lat, r, types, case,
                         Quantity(tol, 'angstrom').to(tu), expect=None)
            if n is None:
                continue
            if disp < tol:
                ctx.check(n == full, 'operations lost to a distortion below '
                          'the tolerance', case, lambda: dict(got=n))
            else:
                e = len(_ref().spacegroup(lat, r, types))
                ctx.check(n == e, 'wrong number of operations for a '
                          'distortion above the tolerance', case,
                          lambda: dict(got=n, expected=e))
    # near the tolerance the result is up to spglib, but not to the unit
    for ratio, tol, atom in itertools.product(
            (.2, .3, .45, .6, .8, .95, 1.1, 1.3, 1.7, 2.3, 3.1, 4.2, 6, 9, 13),
            (1e-4, 1e-2), range(2)):
        r = r0.copy()
        r[atom, 2] += ratio*tol/4.
        crys = build(lat, r, types, UNITS[0])
        got = {}
        for tu in UNITS:
            case = dict(atom=atom, displacement=ratio*tol, tol=tol,
                        tol_unit=tu)
            ctx.state(case)
            ctx.transition()
            try:
                s = crys.get_symmetry_equivalent_atoms(
                    Quantity(tol, 'angstrom').to(tu))
                got[tu] = [np.sort(x, 0).tolist() for x in s[::2]]
            except RuntimeError:
                got[tu] = None
        ctx.trace()
        ctx.check(all(g == got[UNITS[0]] for g in got.values()),
                  'the unit of the tolerance matters', case,
                  lambda: {k: v and len(v[0]) for k, v in got.items()})


def part_species(ctx):
    """all words over an alphabet of names, also names that sort or prefix
    one another"""
    names = ('O', 'Na', 'N', 'H', 'O1')
    top = 5 if ctx.thorough else 4
    lat = gen.CELLS['tric']
    for n in range(0, top + 1):
        for w in itertools.product(names, repeat=n):
            r = np.linspace(0, .8, 3*n).reshape(n, 3) if n else \
                np.zeros((0, 3))
            case = dict(types=w)
            ctx.state(case)
            from euphonic import Crystal, Quantity
            crys = ctx.call(case, build, lat, r, list(w)) if n else \
                ctx.call(case, Crystal.from_cell_vectors,
                         Quantity(lat, 'angstrom'))
            if crys is ctx.FAILED:
                continue
            ctx.check(crys.n_atoms == n, 'wrong number of atoms', case)
            species(ctx, crys, list(w), case)
            spglib_cell(ctx, crys, lat, r, list(w), case)
            if not n:
                metric(ctx, crys, lat, 'angstrom', case)
