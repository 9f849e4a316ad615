"""C21: reciprocal-space grids and paths."""
import itertools
from fractions import Fraction

import numpy as np

from mc import gen

TECHNIQUE = ('bounded-exhaustive enumeration of grid dimensions, spacings and '
             'q-point sequences (de Bruijn paths covering every window of '
             'points) on the real code')
NOTE = ('All grids up to the bound are compared with the exact rational '
        'definition; every pair and triple of q-points of an alphabet occurs '
        'on a path whose distances and labels are compared with the '
        'Cartesian definition.')
RULE = ('one state per (grid), (cell, unit, spacing) or (cell, path); a '
        'transition is one step between successive q-points or one grid '
        'direction checked')
ASSUMPTIONS = [
    'two q-points nearer than 0.001 (sum over fractional components) to '
    'differing by a reciprocal lattice vector are not enumerated, except '
    'exactly, since the tolerance of the jump rule is not documented',
    'a spacing that divides a reciprocal vector into a whole number of parts '
    'up to rounding may give that number or one more',
    'a straight reversal of direction may or may not be labelled; symmetry '
    'names are checked for cells in the standard primitive setting and '
    'points that are listed special points up to a reciprocal lattice vector']

UNITS = ('angstrom', 'bohr', 'nm')


def units(tier):
    n = 6 if tier == 'quick' else 12
    for h in range(1, n + 1):
        yield f'mp/{h}', dict(part='mp', h=h, n=n)
    yield 'mp/long', dict(part='mplong')
    for c in gen.CELLS:
        yield f'spacing/{c}', dict(part='spacing', cell=c)
    for c in gen.CELLS:
        yield f'abscissa/{c}', dict(part='abscissa', cell=c)
    for c in STD:
        yield f'labels/{c}', dict(part='labels', cell=c)
    yield 'labels/none', dict(part='labels', cell=None)
    for c in STD:
        yield f'names/{c}', dict(part='names', cell=c)
    for c in OTHER:
        yield f'names/{c}', dict(part='names', cell=c)


def run(ctx, part, **kw):
    globals()['part_' + part](ctx, **kw)


# ------------------------------------------------------------------ grids

def check_grid(ctx, grid, as_type):
    from euphonic.util import mp_grid
    case = dict(grid=grid, type=as_type)
    arg = {'tuple': tuple, 'list': list, 'array': np.array}[as_type](grid)
    q = ctx.call(case, mp_grid, arg)
    ctx.state(case)
    if q is ctx.FAILED:
        return
    n = int(np.prod(grid))
    if not ctx.check(isinstance(q, np.ndarray) and q.shape == (n, 3)
                     and q.dtype == np.float64,
                     'Monkhorst-Pack grid has the wrong shape', case,
                     lambda: dict(shape=np.shape(q))):
        return
    # u_r = (2r - q - 1)/(2q): integer numerators after multiplying by 2q
    num = q*2*np.array(grid)
    rint = np.rint(num).astype(int)
    ctx.transition(3)
    ctx.check(np.abs(num - rint).max() < 1e-12, 'grid point off the grid',
              case)
    idx = (rint + np.array(grid) + 1)
    ok = np.all(idx % 2 == 0)
    idx = idx//2
    ok = ok and np.all(idx >= 1) and np.all(idx <= np.array(grid))
    ctx.check(ok, 'grid point not of the form (2r-n-1)/2n', case)
    flat = np.ravel_multi_index((idx - 1).T, grid) if ok else []
    ctx.check(len(set(np.asarray(flat).tolist())) == n,
              'grid does not contain each point exactly once', case)
    # a Monkhorst-Pack set is its own inverse
    s = set(map(tuple, rint))
    ctx.check(all((-a, -b, -c) in s for a, b, c in s),
              'grid is not symmetric under inversion', case)


def part_mp(ctx, h, n):
    for k, l in itertools.product(range(1, n + 1), repeat=2):
        for t in ('tuple', 'list', 'array'):
            check_grid(ctx, (h, k, l), t)


def part_mplong(ctx):
    top = 400 if ctx.thorough else 130
    for m in range(7, top):
        for g in ((m, 1, 1), (1, m, 1), (1, 1, m), (2, m, 1), (1, 2, m),
                  (m, 1, 3)):
            check_grid(ctx, g, 'tuple')
    for g in itertools.permutations((5, 9, 16)):
        check_grid(ctx, g, 'tuple')
    for g in itertools.permutations((3, 13, 32)):
        check_grid(ctx, g, 'tuple')


# ---------------------------------------------------------------- spacing

def part_spacing(ctx, cell):
    from euphonic import ureg, Quantity
    from euphonic.util import mp_grid
    lat0 = gen.CELLS[cell]
    top = 24 if ctx.thorough else 9
    for scale, unit in itertools.product((1., 2.37, 11.), UNITS):
        crys = gen.crystal(cell, 'one', unit, scale=scale)
        recip = 2*np.pi*np.linalg.inv(lat0*scale).T         # 1/angstrom
        norm = np.linalg.norm(recip, axis=1)
        sp = set(np.round(np.geomspace(.02, 9., 23 if not ctx.thorough
                                       else 90), 7))
        for i, k in itertools.product(range(3), range(1, top)):
            for f in (1 - 1e-6, 1., 1 + 1e-6):
                sp.add(float(norm[i]/k*f))
        for s, su in itertools.product(sorted(sp), UNITS + ('bohr ',)):
            su = su.strip()
            q = (s*ureg('1/angstrom')).to('1/' + su)
            case = dict(cell=cell, scale=scale, unit=unit, spacing=s,
                        spacing_unit=su)
            spec = ctx.call(case, crys.get_mp_grid_spec, q)
            ctx.state(case)
            if spec is ctx.FAILED:
                continue
            if not ctx.check(
                    len(spec) == 3 and all(
                        isinstance(x, (int, np.integer)) and x >= 1
                        for x in spec),
                    'grid specification is not three positive integers', case,
                    lambda: dict(got=spec)):
                continue
            for i in range(3):
                ctx.transition()
                step = norm[i]/spec[i]
                ctx.check(step <= s*(1 + 1e-9),
                          'grid is coarser than the requested spacing', case,
                          lambda: dict(axis=i, got=spec, step=step))
                coarser = norm[i]/(spec[i] - 1) if spec[i] > 1 else np.inf
                ctx.check(coarser > s*(1 - 1e-9),
                          'grid is finer than needed', case,
                          lambda: dict(axis=i, got=spec, step=step,
                                       coarser=coarser))
        # the grid made from it: neighbours (also across the cell edge)
        for s in (.31, .9, 2.3):
            case = dict(cell=cell, scale=scale, unit=unit, spacing=s,
                        what='combined')
            spec = ctx.call(case, crys.get_mp_grid_spec,
                            Quantity(s, '1/angstrom'))
            if spec is ctx.FAILED or np.prod(spec) > 4000:
                continue
            q = mp_grid(spec)
            ctx.state(case)
            for i in range(3):
                vals = np.unique(np.round(q[:, i], 12))
                d = np.diff(np.append(vals, vals[0] + 1))
                ctx.transition(len(d))
                ctx.check(d.max()*norm[i] <= s*(1 + 1e-9),
                          'neighbouring grid points are too far apart', case)
        default = ctx.call(dict(cell=cell, scale=scale, what='default'),
                           crys.get_mp_grid_spec)
        explicit = crys.get_mp_grid_spec(Quantity(.1, '1/angstrom'))
        ctx.check(default == explicit, 'default spacing is not 0.1 1/angstrom',
                  dict(cell=cell, scale=scale), dict(got=default))


# --------------------------------------------------------------- abscissa

F = Fraction
ALPHA = [
    (F(0), F(0), F(0)), (F(1), F(0), F(-1)),
    (F(1, 2), F(0), F(0)), (F(1, 2), F(1, 2), F(0)),
    (F(-1, 2), F(1, 2), F(1)),
    (F(1, 3), F(1, 3), F(1, 2)), (F(13, 100), F(-27, 100), F(41, 100)),
    (F(113, 100), F(-227, 100), F(41, 100)),
    (F(131, 1000), F(-27, 100), F(412, 1000)),
    (F(1, 10000), F(0), F(0)), (F(3), F(2), F(1)),
    (F(-1, 3), F(2, 3), F(1, 4)),
]


def de_bruijn(k, n):
    """cyclic sequence over range(k) in which every word of length n occurs,
    opened into a path"""
    a, seq = [0]*k*n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


def step(recip, a, b):
    d = [y - x for x, y in zip(a, b)]
    if all(x.denominator == 1 for x in d):
        return 0.
    rem = sum(abs(x - round(x)) for x in d)
    tot = sum(abs(x) for x in d)
    assert not (rem < F(2, 1000) and tot > F(1, 1000)), (a, b)
    return float(np.linalg.norm(np.array([float(x) for x in d]) @ recip))


def usable(word):
    """no pair within the tolerance band of the jump rule"""
    for a, b in zip(word[:-1], word[1:]):
        d = [y - x for x, y in zip(a, b)]
        rem = sum(abs(x - round(x)) for x in d)
        tot = sum(abs(x) for x in d)
        if rem and rem < F(2, 1000) and tot > F(5, 10000):
            return False
    return True


def paths(thorough):
    alpha = ALPHA
    order = 3
    if not thorough:
        alpha = ALPHA[:8]
    yield 'order3', [alpha[i] for i in de_bruijn(len(alpha), order)]
    yield 'order2', [ALPHA[i] for i in de_bruijn(len(ALPHA), 2)]
    for n in (1, 2, 3):
        for w in itertools.product(ALPHA[:4] + ALPHA[6:8], repeat=n):
            yield f'short{n}', list(w)
    # finely interpolated segments, with and without jumps
    for m in (3, 50, 701):
        out = []
        for a, b in ((0, 2), (2, 3), (7, 1), (1, 5), (5, 0)):
            out += [tuple(x + (y - x)*F(i, m) for x, y in
                          zip(ALPHA[a], ALPHA[b])) for i in range(m + 1)]
        if m < 500:
            yield f'fine{m}', out
        else:
            yield f'fine{m}', out[:m + 1]


def part_abscissa(ctx, cell):
    from euphonic import QpointFrequencies, ureg, Crystal
    lat = gen.CELLS[cell]
    recip = 2*np.pi*np.linalg.inv(lat).T
    # several objects for the long paths, one unit for the short
    for name, path in paths(ctx.thorough):
        # drop the points that would land in the tolerance band
        keep = [path[0]]
        for p in path[1:]:
            if usable([keep[-1], p]):
                keep.append(p)
        dist = np.concatenate([[0.], np.cumsum(
            [step(recip, a, b) for a, b in zip(keep[:-1], keep[1:])])])
        q = np.array([[float(x) for x in p] for p in keep])
        short = name.startswith('short')
        unit_list = UNITS[:1] if short else UNITS
        # an empty crystal or one atom: labels are not the point here
        for unit in unit_list:
            crys = gen.crystal(cell, 'one', unit)
            f = np.arange(3.*len(q)).reshape(-1, 3)
            obj = QpointFrequencies(crys, q.copy(), f*ureg('meV'))
            got = {}
            case = dict(cell=cell, path=name, unit=unit,
                        n=len(q), q=q.tolist() if short else 'see paths()')
            disp = ctx.call(case, obj.get_dispersion)
            if disp is not ctx.FAILED:
                got['dispersion'] = disp
            if not short or len(q) == 2:
                m = ctx.call(case, obj.calculate_dos_map,
                             np.linspace(-1, 5, 4)*ureg('meV'))
                if m is not ctx.FAILED:
                    got['dos map'] = m
            ctx.state(case)
            for what, spec in got.items():
                x = spec.x_data
                ctx.check(x.check('1/[length]'),
                          f'{what} distances are not in 1/length', case)
                ctx.check(str(x.units) == str(ureg('1/' + unit).units),
                          f'{what} distances are not in 1/cell unit', case,
                          lambda: dict(got=str(x.units)))
                xm = x.to('1/angstrom').magnitude
                ctx.transition(len(xm))
                if not ctx.check(len(xm) in (len(dist), len(dist) + 1)
                                 if what == 'dos map' else
                                 len(xm) == len(dist),
                                 f'{what} has the wrong number of distances',
                                 case, lambda: dict(got=len(xm))):
                    continue
                if len(xm) != len(dist):
                    continue
                tol = 1e-8*(1 + dist[-1])
                bad = np.where(~(np.abs(xm - dist) < tol))[0]
                ctx.check(len(bad) == 0,
                          f'{what} distances are not the accumulated '
                          'Cartesian distances', case,
                          lambda: dict(i=int(bad[0]),
                                       q=q[max(bad[0] - 1, 0):bad[0] + 1],
                                       got=xm[bad[0]], expected=dist[bad[0]]))
                ctx.check(np.all(np.diff(xm) >= 0),
                          f'{what} distances decrease', case)
                if what == 'dispersion':
                    ctx.check(np.allclose(spec.y_data.to('meV').magnitude, f.T,
                                          1e-12),
                              'dispersion branches differ from the '
                              'frequencies', case)
            ctx.check(np.array_equal(obj.qpts, q)
                      and np.allclose(obj.frequencies.magnitude, f, 1e-12),
                      'the path was modified', case)


# ----------------------------------------------------------------- labels
# cells in the standard primitive setting of SeeK-path (checked at run time)
A = 4.1
STD = {
    'cubic': np.diag([A, A, A]),
    'fcc': A/2*np.array([[0., 1, 1], [1, 0, 1], [1, 1, 0]]),
    'bcc': A/2*np.array([[-1., 1, 1], [1, -1, 1], [1, 1, -1]]),
    'tetra': np.diag([A, A, 5.3]),
    'ortho': np.diag([3.2, 4.1, 5.3]),
    'hex': np.array([[3.1, 0, 0], [-1.55, 3.1*np.sqrt(3)/2, 0], [0, 0, 5.2]]),
}


# other settings of the same lattices
OTHER = {
    'fcc-conventional': (np.diag([A, A, A]), [[0., 0, 0], [0, .5, .5],
                                              [.5, 0, .5], [.5, .5, 0]]),
    'bcc-conventional': (np.diag([A, A, A]), [[0., 0, 0], [.5, .5, .5]]),
    'tetra-long-first': (np.diag([5.3, A, A]), [[0., 0, 0]]),
    'ortho-swapped': (np.diag([5.3, 4.1, 3.2]), [[0., 0, 0]]),
}
GRID = (0., .25, 1/3, .375, .5, .625, 2/3, .75)


def part_names(ctx, cell):
    """a symmetry name is only given to a point equivalent by symmetry to the
    point of that name"""
    import seekpath
    import warnings
    from euphonic import Crystal, ureg
    from euphonic.util import get_qpoint_labels
    from mc import ref
    lat, r = ((STD[cell], [[0., 0, 0]]) if cell in STD else OTHER[cell])
    crys = Crystal(lat*ureg('angstrom'), np.array(r),
                   np.array(['Si']*len(r)), np.full(len(r), 28.)*ureg('amu'))
    sp = crys.to_spglib_cell()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        pts = seekpath.get_path_orig_cell(sp)['point_coords']
        prim = seekpath.get_path(sp)['point_coords']
    rots = np.array([w for w, _, _ in ref.spacegroup(lat, r, ['Si']*len(r))])
    rots = np.unique(np.concatenate([rots, -rots]), axis=0)
    # one lattice point per primitive cell: names repeat with the primitive
    # reciprocal lattice
    trans = np.array(r)

    def same(a, b):
        d = b - np.einsum('i,nij->nj', a, rots)
        d = d - np.rint(d)
        return bool(np.any(np.abs(d).max(axis=1) < 1e-5))

    def same_full(a, b):
        # q and q+G are one point only for primitive G (G.t integer)
        g = itertools.product((-2, -1, 0, 1, 2), repeat=3)
        full = np.einsum('i,nij->nj', a, rots)
        for t in g if len(trans) > 1 else ():
            d = b + np.array(t) - full
            ok = np.abs(d).max(axis=1) < 1e-5
            if ok.any():
                if np.abs(trans @ np.array(t) - np.rint(
                        trans @ np.array(t))).max() < 1e-9:
                    return True
        return same(a, b) if len(trans) == 1 else False
    for q in itertools.product(GRID, repeat=3):
        q = np.array(q)
        for shift in ((0, 0, 0), (1, 0, -2)):
            qq = q + shift
            case = dict(cell=cell, q=qq.tolist())
            ctx.state(case)
            got = ctx.call(case, get_qpoint_labels, qq[None], sp)
            if got is ctx.FAILED:
                continue
            ctx.transition()
            lab = got[0][1]
            ctx.outcome((cell, lab))
            if lab == '' or lab.startswith('['):
                continue
            lab = 'GAMMA' if lab == label_text('GAMMA') else lab
            if not ctx.check(lab in pts, 'unknown symmetry name', case,
                             lambda: dict(got=lab)):
                continue
            good = same_full(np.array(pts[lab]), qq)
            if good:
                continue
            # what the code is known to do: look the coordinates up in the
            # list for the standard primitive cell, in cyclic order
            rolled = any(equal_mod(np.roll(qq, k), prim[lab], 2e-5)
                         for k in range(3))
            key = None
            if rolled:
                key = ('label-nonstandard-cell' if cell in OTHER else
                       'label-rolled-coordinates')
            ctx.fail('symmetry name of a point that is not equivalent', case,
                     dict(got=lab, named_point=pts[lab]), key=key)


def label_text(name):
    return r'$\Gamma$' if name == 'GAMMA' else name


def equal_mod(a, b, tol=1e-9):
    d = np.asarray(a, float) - np.asarray(b, float)
    return np.abs(d - np.rint(d)).max() < tol


def part_labels(ctx, cell):
    import seekpath
    from euphonic import Crystal, QpointFrequencies, ureg
    from euphonic.util import get_qpoint_labels
    if cell is None:
        pts = {a + ' ' + b + ' ' + c: (va, vb, vc)
               for (a, va), (b, vb), (c, vc) in itertools.product(
                   [('0', 0.), ('1/4', .25), ('3/4', .75), ('1/2', .5),
                    ('1/3', 1/3), ('2/3', 2/3), ('3/8', .375),
                    ('5/8', .625)], repeat=3)}
        names = list(pts) if ctx.thorough else list(pts)[::17]
        names = names[:40]
        sp = None
        crys = None
    else:
        crys = Crystal(STD[cell]*ureg('angstrom'), np.zeros((1, 3)),
                       np.array(['Si']), np.array([28.])*ureg('amu'))
        sp = crys.to_spglib_cell()
        path = seekpath.get_path(sp)
        if np.abs(path['primitive_lattice'] - STD[cell]).max() > 1e-8:
            ctx.outcome('not in the standard setting')
            ctx.cap('label cell not standard: ' + cell)
            return
        pts = path['point_coords']
        names = list(pts)
    # alphabet: every special point, its translate, noise and a generic point
    base = [(n, np.array(pts[n], float)) for n in names]
    shifts = [np.zeros(3), np.array([1., -2, 0]), np.array([0., 1, -1]),
              np.array([-3e-17, 0, 2e-17])]
    seq = de_bruijn(len(base), 2)
    for si, shift in enumerate(shifts):
        for m in (1, 4):
            qs, expect = [], []
            for a, b in zip(seq[:-1], seq[1:]):
                if a == b:
                    continue
                for k in range(m):
                    qs.append(base[a][1] + (base[b][1] - base[a][1])*k/m
                              + shift)
            qs.append(base[seq[-1]][1] + shift)
            qs = np.array(qs)
            judge(ctx, cell, sp, crys, qs, base, f'shift{si}/m{m}')
    # each point alone, in pairs (first and last are always labelled) and
    # repeated in the middle
    for (n, p), (si, shift) in itertools.product(base, enumerate(shifts)):
        g = np.array([.11, .07, -.13])
        for what, qs in (('alone', [p]), ('pair', [p, g]), ('pair2', [g, p]),
                         ('repeat', [g, p, p, 2*p - g]),
                         ('straight', [g, p, 2*p - g]),
                         ('corner', [g, p, p + (.3, .1, .2)])):
            qs = np.array(qs) + shift
            judge(ctx, cell, sp, crys, qs, base, f'{n}/{what}/shift{si}')


def judge(ctx, cell, sp, crys, qs, base, what):
    from euphonic import QpointFrequencies, ureg
    from euphonic.util import get_qpoint_labels
    case = dict(cell=cell, path=what, n=len(qs),
                q=qs.tolist() if len(qs) < 6 else '')
    got = ctx.call(case, get_qpoint_labels, qs.copy(), sp)
    ctx.state(case)
    if got is ctx.FAILED:
        return
    idx = [i for i, _ in got]
    ctx.check(idx == sorted(set(idx)) and all(0 <= i < len(qs) for i in idx),
              'label indices are not increasing q-point indices', case,
              lambda: dict(got=got))
    lab = dict(got)
    any_name = any(
        equal_mod(qs[i], p) for i in lab for _, p in base)
    for i in range(len(qs)):
        ctx.transition()
        must = i in (0, len(qs) - 1)
        may = must
        if not must:
            a, b = qs[i] - qs[i - 1], qs[i + 1] - qs[i]
            na, nb = np.linalg.norm(a), np.linalg.norm(b)
            if na and nb:
                c = a @ b/na/nb
                if c < 1 - 1e-9:
                    may = True
                    # (a straight reversal may go unlabelled)
                    must = -1 + 1e-9 < c < 1 - 1e-3 and na*nb > 1e-3
            if np.array_equal(qs[i], np.rint(qs[i])):
                must = may = True
            elif np.abs(qs[i] - np.rint(qs[i])).max() < 1e-12:
                may = True
            if nb == 0:
                must = may = True
            if na == 0:
                may = True
        ctx.check(not (must and i not in lab),
                  'turning, gamma or repeated point not labelled', case,
                  lambda: dict(i=i, q=qs[max(i-1, 0):i+2], got=got[:8]))
        ctx.check(not (i in lab and not may),
                  'label on a point where the path goes straight on', case,
                  lambda: dict(i=i, q=qs[max(i-1, 0):i+2], got=got[:8]))
        if i not in lab:
            continue
        name = [n for n, p in base if equal_mod(qs[i], p)]
        if name:
            ctx.check(lab[i] == label_text(name[0]),
                      'special point has the wrong label', case,
                      lambda: dict(i=i, q=qs[i], got=lab[i],
                                   expected=label_text(name[0])))
        elif not any_name and lab[i].startswith('['):
            v = np.array(lab[i].strip('[]').split(), float)
            ctx.check(np.abs(v - qs[i]).max() < 6e-3,
                      'coordinate label is not the coordinates', case,
                      lambda: dict(i=i, q=qs[i], got=lab[i]))
    if crys is not None and len(qs) < 6:
        from euphonic import Spectrum2D
        obj = QpointFrequencies(crys, qs.copy(),
                                np.ones((len(qs), 3))*ureg('meV'))
        for f, s in (('dispersion', obj.get_dispersion()),
                     ('dos map', obj.calculate_dos_map(
                         np.linspace(0, 2, 3)*ureg('meV')))):
            ctx.transition()
            ctx.check(s.x_tick_labels == got,
                      f'{f} tick labels differ from the labels of its path',
                      case, lambda: dict(got=s.x_tick_labels, expected=got))
