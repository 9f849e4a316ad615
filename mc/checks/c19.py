"""C19: kinematic constraints mask exactly the unreachable region."""
import functools
import itertools
import math

import numpy as np

TECHNIQUE = ('exhaustive enumeration of (bins, incident or final energy, '
             'pairs of angles, units) on the real code against the '
             'momentum-conservation triangle evaluated for every cell')
NOTE = ('Each cell of each map is classified from the definition Q = k_i - '
        'k_f with the scattering angle anywhere in the range; the mask must '
        'be exactly the unreachable cells.')
RULE = ('one state per (axes, energy, geometry, angle pair, units); a '
        'transition is one call, a trace is one classified map')
ASSUMPTIONS = ['a cell is reachable if any |Q| of its bin is, at the energy '
               'of the bin centre; cells within 1e-9 of the limit may be '
               'either way', 'the extent of a bin given by its centre is '
               'that of get_bin_edges()',
               'the order of the two angles does not matter and angles '
               'outside 0-180 are taken modulo the rotation']
# exact constants (CODATA 2018/22 differ by 1e-10)
HBAR = 1.054571817e-34
MN = 1.67492749804e-27
MEV = 1.602176634e-22
C = HBAR**2/(2*MN)/MEV*1e20        # meV angstrom^2


@functools.lru_cache(None)
def factor(a, b):
    from euphonic import Quantity
    return Quantity(1., a).to(b).magnitude


def q(x, base, unit):
    from euphonic import Quantity
    x = np.asarray(x, float) if np.ndim(x) else float(x)
    return Quantity(x if unit == base else x*factor(base, unit), unit)


def cos_range(angles):
    lo, hi = min(angles), max(angles)
    v = [math.cos(math.radians(a)) for a in (lo, hi)]
    for k in range(math.ceil(lo/180 - 1e-12), math.floor(hi/180 + 1e-12) + 1):
        v.append(1. if k % 2 == 0 else -1.)
    return min(v), max(v)


def reachable(edges, centres, energy, geometry, angles):
    """+1 reachable, -1 unreachable, 0 on the limit"""
    cmin, cmax = cos_range(angles)
    out = np.zeros((len(edges) - 1, len(centres)), int)
    for j, w in enumerate(centres):
        ei, ef = (energy, energy - w) if geometry == 'e_i' else (
            energy + w, energy)
        tol = 1e-9*(abs(ei) + abs(ef))
        if min(ei, ef) < -tol:
            out[:, j] = -1
            continue
        if min(ei, ef) < tol:
            out[:, j] = 0       # on the limit of energy conservation
            continue
        ki, kf = math.sqrt(ei/C), math.sqrt(ef/C)
        lo = math.sqrt(max((ki - kf)**2 + 2*ki*kf*(1 - cmax), 0.))
        hi = math.sqrt(max((ki + kf)**2 - 2*ki*kf*(1 + cmin), 0.))
        # rounding of Q^2 near zero
        t = 1e-9*(ki + kf)
        tlo = max(t, (math.sqrt(lo*lo + 1e-14*(ki + kf)**2) - lo))
        for i in range(len(edges) - 1):
            a, b = sorted(edges[i:i+2])
            if b < lo - tlo or a > hi + t:
                out[i, j] = -1
            elif b < lo + tlo or a > hi - t:
                out[i, j] = 0
            else:
                out[i, j] = 1
    return out


def spectrum(x, y, nx, ny):
    from euphonic import Quantity
    from euphonic.spectra import Spectrum2D
    z = 1. + np.arange(nx*ny).reshape(nx, ny)
    z[0, 0] = -0.5
    return Spectrum2D(x, y, Quantity(z, 'mbarn/meV'), [(0, 'A')],
                      {'note': 'n', 'k': 3})


def judge(ctx, o, geometry, energy, angles, edges, centres, case, given=None,
          arg=None):
    """edges, centres in 1/angstrom, meV"""
    from euphonic.spectra import apply_kinematic_constraints
    before = o.to_dict()
    kw = {geometry: q(energy, 'meV', 'meV') if given is None else given}
    if angles is not None:
        kw['angle_range'] = angles if arg is None else arg
    r = apply_kinematic_constraints(o, **kw)
    ctx.transition()
    after, got = o.to_dict(), r.to_dict()
    ctx.check(same(before, after), 'the input changed', case)
    ctx.check(same(before, got, 'z_data') and type(r) is type(o),
              'axes, units or metadata of the result differ', case)
    want = reachable(edges, centres, energy, geometry, angles or (0, 180))
    masked = np.isnan(got['z_data'])
    ctx.trace()
    ctx.add('cells', want.size)
    bad = (masked & (want == 1)) | (~masked & (want == -1))
    ctx.check(masked.shape == want.shape and not bad.any(),
              'wrong cells masked', case,
              lambda: dict(cell=np.argwhere(bad)[:3],
                           masked=masked[tuple(np.argwhere(bad)[0])],
                           want=want[tuple(np.argwhere(bad)[0])]))
    ctx.check(np.array_equal(got['z_data'][~masked],
                             before['z_data'][~masked]),
              'values of reachable cells changed', case)
    ctx.outcome(masked.tobytes())


def same(a, b, skip=None):
    return set(a) == set(b) and all(
        (np.array_equal(a[k], b[k]) if isinstance(a[k], np.ndarray)
         else a[k] == b[k]) for k in a if k != skip)


XS = {'even': np.linspace(0, 9, 31), 'fine': np.linspace(0, 2.5, 41),
      'uneven': np.array([0., .1, .5, 1., 3., 3.2, 5., 8., 8.1, 12.]),
      'far': np.linspace(2., 7., 9)}
YS = {'loss': np.linspace(0, 40, 21), 'both': np.linspace(-40, 40, 33),
      'elastic': np.linspace(-2., 2., 42),
      'uneven': np.array([-60., -20, -1, 1, 2, 19, 21, 70.])}
ENERGY = (.5, 2.5, 20., 81.8)
ANGLES = (-390, -360, -270, -200, -180, -135, -90, -60, -1, 0, 5, 45, 90,
          135, 179, 180, 200, 270, 300, 360, 400, 540, 720)


def units(tier):
    for g in ('e_i', 'e_f'):
        for x in XS:
            yield f'angles/{g}/{x}', dict(mode='angles', geometry=g, x=x)
            yield f'axes/{g}/{x}', dict(mode='axes', geometry=g, x=x)
        yield f'elastic/{g}', dict(mode='elastic', geometry=g, x='even')
    yield 'errors', dict(mode='errors', geometry='e_i', x='even')


def run(ctx, mode, geometry, x):
    globals()[mode](ctx, geometry, x)


def angles(ctx, geometry, x):
    """all pairs of angles"""
    for y in ('both',) if not ctx.thorough else YS:
        o = spectrum(q(XS[x], '1/angstrom', '1/angstrom'),
                     q(YS[y], 'meV', 'meV'), len(XS[x]) - 1, len(YS[y]) - 1)
        c = (YS[y][1:] + YS[y][:-1])/2
        for pair, e in itertools.product(
                itertools.product(ANGLES, repeat=2),
                ENERGY if ctx.thorough else (2.5, 20.)):
            case = dict(geometry=geometry, x=x, y=y, energy=e, angles=pair)
            ctx.case = case
            ctx.state(tuple(case.values()))
            arg = pair if pair[0] < 0 else (
                list(pair) if pair[1] < 100 else np.array(pair, float))
            judge(ctx, o, geometry, e, pair, XS[x], c, case, arg=arg)
    ctx.sample(case)


def axes(ctx, geometry, x):
    """edges or centres, units, directions"""
    xe = XS[x]
    for y, e, cx, cy, dx, dy, (xu, yu, eu), ang in itertools.product(
            YS, ENERGY, (False, True), (False, True), (False, True),
            (False, True), (('1/angstrom', 'meV', 'meV'),
                            ('1/bohr', '1/cm', 'meV'),
                            ('1/nm', 'THz', '1/cm'),
                            ('1/angstrom', 'J', 'THz')),
            (None, (10, 120))):
        if not ctx.thorough and (dx or dy) and xu == '1/nm':
            continue
        ye = YS[y]
        case = dict(geometry=geometry, x=x, y=y, energy=e, centres=(cx, cy),
                    decreasing=(dx, dy), units=(xu, yu, eu), angles=ang)
        ctx.case = case
        ctx.state(tuple(map(str, case.values())))
        xs = (xe[1:] + xe[:-1])/2 if cx else xe
        ys = (ye[1:] + ye[:-1])/2 if cy else ye
        nx, ny = len(xe) - 1, len(ye) - 1
        xs = xs[::-1].copy() if dx else xs
        ys = ys[::-1].copy() if dy else ys
        o = spectrum(q(xs, '1/angstrom', xu), q(ys, 'meV', yu), nx, ny)
        edges = xs if not cx else np.concatenate((
            xs[:1], (xs[1:] + xs[:-1])/2, xs[-1:]))
        cen = ys if cy else (ys[1:] + ys[:-1])/2
        judge(ctx, o, geometry, e, ang, edges, cen, case,
              q(e, 'meV', eu))
    ctx.sample(case)


def elastic(ctx, geometry, x):
    """energy transfers within rounding of zero and of the limit"""
    from euphonic import Quantity
    small = [0.] + [s*10.**-k for k in range(1, 18) for s in (1, -1, 3.7,
                                                              -3.7)]
    xe = XS[x]
    n = 60 if ctx.thorough else 25
    for e in np.arange(1, n)*.5:
        for ang in (None, (0, 30), (30, 150), (180, 180), (0, 0)):
            cen = np.array(sorted(small + [v*e for v in small]))
            case = dict(geometry=geometry, energy=e, angles=ang)
            ctx.case = case
            ctx.state(tuple(case.values()))
            o = spectrum(Quantity(xe, '1/angstrom'), Quantity(cen, 'meV'),
                         len(xe) - 1, len(cen))
            judge(ctx, o, geometry, e, ang, xe, cen, case)
        # centres that are rounded edges
        for half, m, unit in itertools.product(
                (5., 3.3, 7.7, .7), (21, 67, 155), ('meV', 'THz', '1/cm')):
            ye = np.linspace(-half, half, m + 1)
            case = dict(geometry=geometry, energy=e, range=half, bins=m,
                        unit=unit)
            ctx.case = case
            ctx.state(tuple(case.values()))
            o = spectrum(Quantity(xe, '1/angstrom'), q(ye, 'meV', unit),
                         len(xe) - 1, m)
            judge(ctx, o, geometry, e, None, xe, (ye[1:] + ye[:-1])/2, case)
    ctx.sample(case)


def errors(ctx, geometry, x):
    """contradictory energies and wrong axes"""
    from euphonic import Quantity
    from euphonic.spectra import apply_kinematic_constraints
    e = Quantity(20., 'meV')
    for xu, yu in itertools.product(
            ('1/angstrom', '1/bohr', 'angstrom', 'dimensionless', 'meV',
             'kg'),
            ('meV', '1/cm', 'THz', 'angstrom**2', 'dimensionless', 'K',
             'amu')):
        for kw in ({}, dict(e_i=e), dict(e_f=e), dict(e_i=e, e_f=e)):
            case = dict(x_unit=xu, y_unit=yu, given=sorted(kw))
            ctx.case = case
            ctx.state(tuple(map(str, case.values())))
            o = spectrum(Quantity(XS['even'], xu), Quantity(YS['loss'], yu),
                         30, 20)
            ctx.transition()
            good = (xu in ('1/angstrom', '1/bohr') and len(kw) == 1
                    and yu in ('meV', '1/cm', 'THz'))
            try:
                apply_kinematic_constraints(o, **kw)
                ok = True
            except ValueError:
                ok = False
            ctx.check(ok == good, 'accepted' if ok else 'refused',
                      case)
    ctx.sample(case)
