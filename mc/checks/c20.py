"""C20: sphere sampling and powder averaging."""
import contextlib
import functools
import io
import itertools
import math
import os
import re

import numpy as np

from mc import gen

TECHNIQUE = ('exhaustive enumeration of sampling schemes x numbers of points '
             'x jitter and of powder averages (crystals x moduli x units x '
             'schemes x options) on the real code, against the documented '
             'point formulas and against the mean over the recorded q-points')
NOTE = ('Every point count up to the bound is generated for every scheme; '
        'for averages a recording ForceConstants captures the q-points that '
        'were really sampled.')
RULE = ('one state per (scheme, points, jitter, seed) or (crystal, |q|, unit, '
        'scheme, points, options); a transition is one sampling or average')
ASSUMPTIONS = ['npts >= 1, "spherical-polar-improved" >= 6 (documented error '
               'below)', 'jitter and random points are checked for a fixed '
               'set of seeds of the numpy generator',
               'averages are arithmetic means over the sampled points with '
               'equal weights']
PHI = (1 + 5**.5)/2
SCHEMES = ('golden', 'sphere-projected-grid', 'spherical-polar-grid',
           'spherical-polar-improved', 'random-sphere')
FINDING = 'polar-grid-not-even-in-z'


def documented_count(scheme, n):
    if 'grid' in scheme:
        return 2*math.ceil(math.sqrt(n/2) - 1e-12)**2
    return n


def points(scheme, n, jitter=False, cartesian=True):
    import euphonic.sampling as s
    if scheme == 'golden':
        g = s.golden_sphere(n, cartesian=cartesian, jitter=jitter)
    elif scheme == 'sphere-projected-grid':
        g = s.sphere_from_square_grid(*n, cartesian=cartesian, jitter=jitter)
    elif scheme == 'spherical-polar-grid':
        g = s.spherical_polar_grid(*n, cartesian=cartesian, jitter=jitter)
    elif scheme == 'spherical-polar-improved':
        g = s.spherical_polar_improved(n, cartesian=cartesian, jitter=jitter)
    else:
        g = s.random_sphere(n, cartesian=cartesian)
    return np.array(list(g), float).reshape(-1, 3)


def polar(p):
    """z in -1..1 and phi/2pi in 0..1"""
    return p[:, 2], (np.arctan2(p[:, 1], p[:, 0])/(2*np.pi)) % 1


def expected(scheme, n):
    """documented points as (z, phi/2pi), None if only the rings are"""
    if scheme == 'golden':
        i = np.arange(n)
        return 2*(i + .5)/n - 1, (i/PHI) % 1
    a, b = n
    if scheme == 'sphere-projected-grid':      # rows y, columns x
        x, y = np.meshgrid((np.arange(b) + .5)/b, (np.arange(a) + .5)/a)
        return 2*x.ravel() - 1, y.ravel()
    ph, th = np.meshgrid(np.arange(a)/a - .5, (np.arange(b) + .5)/b*np.pi)
    return np.cos(th.ravel()), ph.ravel() % 1


def same_points(p, z, f):
    s = np.sqrt(np.maximum(1 - z*z, 0))
    w = np.stack([s*np.cos(2*np.pi*f), s*np.sin(2*np.pi*f), z], 1)
    if p.shape != w.shape:
        return False
    key = lambda v: np.lexsort(np.round(v, 6).T + 0.)
    p, w = p[key(p)], w[key(w)]
    return np.allclose(p, w, atol=1e-9)


def harmonics(p):
    n = len(p)
    return (np.abs(p.mean(0)).max(),
            np.abs(p.T@p/n - np.eye(3)/3).max())


def units(tier):
    for s in SCHEMES:
        yield f'points/{s}', dict(mode='plain', scheme=s)
        yield f'jitter/{s}', dict(mode='jittered', scheme=s)
        for c in ('tric', 'hex', 'left'):
            yield f'average/{s}/{c}', dict(mode='average', scheme=s, cell=c)
    yield 'options', dict(mode='options', scheme='golden')
    yield 'squares', dict(mode='squares', scheme='')


def run(ctx, mode, **kw):
    os.environ['EUPHONIC_NUM_THREADS'] = '1'
    with contextlib.redirect_stdout(io.StringIO()):
        globals()[mode](ctx, **kw)


def sizes(ctx, scheme):
    if 'grid' in scheme:
        m = 24 if ctx.thorough else 14
        return itertools.product(range(1, m), repeat=2)
    if 'improved' in scheme:
        return range(1, 4001 if ctx.thorough else 801)
    return range(1, 3001 if ctx.thorough else 401)


def plain(ctx, scheme):
    for n in sizes(ctx, scheme):
        case = dict(scheme=scheme, npts=n)
        ctx.case = case
        ctx.state((scheme, n))
        if scheme == 'random-sphere':
            np.random.seed(7)
        ctx.transition()
        try:
            p = points(scheme, n)
        except ValueError:
            ctx.check('improved' in scheme and n < 6, 'refused', case)
            continue
        ctx.trace()
        total = n if np.ndim(n) == 0 else n[0]*n[1]
        ctx.check('improved' not in scheme or n >= 6,
                  'too few points accepted', case)
        if not ctx.check(p.shape == (total, 3), 'number of points', case,
                         p.shape):
            continue
        if not ctx.check(np.allclose((p**2).sum(1), 1, atol=1e-12)
                         and np.all(np.isfinite(p)),
                         'points are not on the unit sphere', case):
            continue
        if scheme == 'random-sphere':
            np.random.seed(7)
            if n in (400, 3000):
                h = harmonics(p)
                ctx.check(max(h) < 5/math.sqrt(n), 'not random on the sphere',
                          case, h)
            again = points(scheme, n)
            np.random.seed(7)
        else:
            again = points(scheme, n)
        ctx.check(np.array_equal(p, again), 'not reproducible', case)
        if scheme != 'random-sphere' and total > 1:
            d = np.round(p, 9) + 0.
            ctx.check(len(np.unique(d, axis=0)) == total,
                      'points are repeated', case)
        # spherical coordinates describe the same points
        if total < 200:
            s = points(scheme, n, cartesian=False)
            c = np.stack([s[:, 0]*np.sin(s[:, 2])*np.cos(s[:, 1]),
                          s[:, 0]*np.sin(s[:, 2])*np.sin(s[:, 1]),
                          s[:, 0]*np.cos(s[:, 2])], 1)
            ctx.check(np.allclose(c, p, atol=1e-9) if scheme != SCHEMES[4]
                      else np.allclose((c**2).sum(1), 1),
                      'spherical coordinates differ', case)
        h = harmonics(p)
        if scheme in SCHEMES[:3]:
            ctx.check(same_points(p, *expected(scheme, n)),
                      'points are not the documented ones', case,
                      lambda: p[:6])
        if scheme == 'golden':
            ctx.check(max(h) <= 1.05*n**-.75, 'points are not even', case, h)
        elif scheme == 'sphere-projected-grid':
            if n[0] > 2:
                ctx.check(max(h) < .34/n[1]**2 + 1e-9, 'points are not even',
                          case, h)
        elif scheme == 'spherical-polar-grid':
            if n[0] > 2 and n[1] > 3 and h[1] > 1.5/n[1]:
                ctx.fail('the plain polar grid is not even in z', case, h,
                         key=FINDING)
        elif 'improved' in scheme:
            ctx.check(max(h) <= 2./n, 'points are not even', case, h)
            rings(ctx, p, n, case)
        if total < 50:
            ctx.outcome(np.round(p, 7).tobytes())
    ctx.sample(case)


def rings(ctx, p, n, case):
    """rings evenly spaced in theta, points shared by circumference, evenly
    along the ring"""
    m = int(math.sqrt(math.pi/4*n))
    z, f = polar(p)
    th = np.arccos(np.clip(z, -1, 1))/np.pi*m - .5
    k = np.round(th).astype(int)
    if not ctx.check(np.abs(th - k).max() < 1e-6 and k.min() >= 0
                     and k.max() < m, 'rings', case):
        return
    share = np.sin((np.arange(m) + .5)/m*np.pi)
    share *= n/share.sum()
    count = np.bincount(k, minlength=m)
    ctx.check(np.abs(count - share).max() <= 1.6, 'points are not shared '
              'between the rings by circumference', case, count)
    for j in range(m):
        g = np.sort(f[k == j])
        if len(g) > 1:
            gap = np.diff(np.concatenate((g, g[:1] + 1)))
            ctx.check(np.abs(gap*len(g) - 1).max() < 1e-5,
                      'ring is not even', case, gap)


def jittered(ctx, scheme):
    """every point stays in its cell, and moves"""
    if scheme == 'random-sphere':
        # a large sample
        for seed in range(4):
            np.random.seed(seed)
            p = points(scheme, 20000)
            ctx.transition()
            ctx.state((scheme, seed))
            h = harmonics(p)
            ctx.check(max(h) < 5/math.sqrt(20000) and h[0] > 0,
                      'not random on the sphere', dict(seed=seed), h)
            z, f = polar(p)
            for v in ((z + 1)/2, f):
                c = np.histogram(v, bins=20, range=(0, 1))[0]
                ctx.check(np.abs(c - 1000).max() < 6*31, 'not uniform',
                          dict(seed=seed), c)
            q = points(scheme, 20000)
            ctx.check(not np.array_equal(p, q), 'repeats', dict(seed=seed))
        return
    ns = ([(a, b) for a in range(1, 9) for b in range(1, 9)]
          if 'grid' in scheme else range(6, 120))
    for n in ns:
        for seed in range(3):
            case = dict(scheme=scheme, npts=n, seed=seed)
            ctx.case = case
            ctx.state(tuple(map(str, case.values())))
            base = points(scheme, n)
            np.random.seed(seed)
            p = points(scheme, n, jitter=True)
            ctx.transition()
            ctx.trace()
            ctx.check(p.shape == base.shape and np.allclose(
                (p**2).sum(1), 1, atol=1e-12) and np.all(np.isfinite(p)),
                'jittered points are not on the sphere or not as many', case)
            if p.shape != base.shape:
                continue
            (z0, f0), (z, f) = polar(base), polar(p)
            df = np.abs((f - f0 + .5) % 1 - .5)
            if scheme == 'golden':
                x, x0 = (z + 1)/2, (z0 + 1)/2
                dx = np.abs((x - x0 + .5) % 1 - .5)
                bad = (dx > .5/math.sqrt(n) + 1e-9) | (
                    df > .5/math.sqrt(n) + 1e-9)
            elif scheme == 'sphere-projected-grid':
                dx = np.abs(z - z0)/2
                bad = (dx > .5/n[1] + 1e-9) | (df > .5/n[0] + 1e-9)
            else:
                m = n[1] if 'grid' in scheme else int(math.sqrt(
                    math.pi/4*n))
                dx = np.abs(np.arccos(np.clip(z, -1, 1))
                            - np.arccos(np.clip(z0, -1, 1)))/np.pi
                k = np.round(np.arccos(z0)/np.pi*m - .5).astype(int)
                cnt = (np.full(len(z), n[0]) if 'grid' in scheme
                       else np.bincount(k)[k])
                bad = (dx > .5/m + 1e-7) | (df > .5/cnt + 1e-7)
            ctx.check(not bad.any(), 'a point left its cell', case,
                      lambda: np.argwhere(bad)[:5])
            if len(z) > 12:
                ctx.check((df > 1e-9).mean() > .8 and (dx > 1e-9).mean() > .8
                          and df.max() > .3*np.median(df)
                          and len(np.unique(np.round(df, 10))) > len(z)/2,
                          'points are not displaced independently', case)
                side = (f - f0 + .5) % 1 - .5
                ctx.check(len(z) < 40 or (side > 0).any() and (side < 0).any(),
                          'points are displaced to one side', case)
            np.random.seed(seed)
            ctx.check(np.array_equal(p, points(scheme, n, jitter=True)),
                      'not reproducible with the same seed', case)
    ctx.sample(case)


def squares(ctx, scheme):
    """the square and cube samplings underneath"""
    import euphonic.sampling as s
    for n, off in itertools.product(range(1, 300), (True, False)):
        ctx.state(('golden', n, off))
        p = np.array(list(s.golden_square(n, offset=off)))
        i = np.arange(n)
        w = np.stack([i/n + (.5/n if off else 0), (i/PHI) % 1], 1)
        ctx.transition()
        d = np.abs((p - w + .5) % 1 - .5)
        ctx.check(p.shape == w.shape and d.max() < 1e-9
                  and p.min() >= 0 and p.max() < 1, 'golden_square',
                  dict(npts=n, offset=off))
    for a, b, off in itertools.product(range(1, 12), range(1, 12),
                                       (True, False)):
        ctx.state(('regular', a, b, off))
        p = np.array(list(s.regular_square(a, b, offset=off)))
        o = .5 if off else 0.
        w = np.array([((i + o)/b, (j + o)/a) for i in range(b)
                      for j in range(a)])
        ctx.transition()
        ctx.check(p.shape == w.shape and np.allclose(p, w, atol=1e-12),
                  'regular_square', dict(rows=a, cols=b, offset=off))
    for n, order in itertools.product(range(1, 400, 3), range(1, 6)):
        ctx.state(('recurrence', n, order))
        p = np.array(list(s.recurrence_sequence(n, order=order)))
        x = 1.5
        for _ in range(200):
            x = (1 + x)**(1/(order + 1))
        w = np.arange(n)[:, None]*x**-np.arange(1., order + 1)
        ctx.transition()
        d = np.abs((p - w + .5) % 1 - .5)
        ctx.check(p.shape == (n, order) and d.max() < 1e-6*n
                  and p.min() >= 0 and p.max() < 1, 'recurrence_sequence',
                  dict(npts=n, order=order))


# -- averages

@functools.lru_cache(None)
def recording_class():
    from euphonic import ForceConstants

    class Recorder(ForceConstants):
        def _note(self, name, qpts, a, k):
            if self.depth == 0:
                self.log.append((name, np.array(qpts, float).copy(), a, k))
            self.depth += 1
            try:
                return getattr(ForceConstants, name)(self, qpts, *a, **k)
            finally:
                self.depth -= 1

        def calculate_qpoint_frequencies(self, qpts, *a, **k):
            return self._note('calculate_qpoint_frequencies', qpts, a, k)

        def calculate_qpoint_phonon_modes(self, qpts, *a, **k):
            return self._note('calculate_qpoint_phonon_modes', qpts, a, k)
    return Recorder


@functools.lru_cache(None)
def material(cell, unit='angstrom'):
    fc = gen.force_constants(cell, 'gen2', np.eye(3, dtype=int), asr='exact')
    if unit != 'angstrom':
        fc.crystal.cell_vectors_unit = unit
    rec = fc
    rec.__class__ = recording_class()
    rec.log, rec.depth = [], 0
    return rec


def plain_modes(fc, q, **k):
    fc.depth += 1
    try:
        return fc.calculate_qpoint_phonon_modes(q, **k)
    finally:
        fc.depth -= 1


def sampled(ctx, fc, scheme, n, jitter, radius, case, extra=0):
    """the recorded q-points, checked to be on the sphere"""
    logs = fc.log
    ctx.check(len(logs) == 1 + extra, 'number of interpolations', case,
              [x[0] for x in logs])
    q = logs[-1][1]
    cart = q@(2*np.pi*np.linalg.inv(
        fc.crystal.cell_vectors.to('angstrom').magnitude).T)
    ctx.check(q.shape == (documented_count(scheme, n), 3)
              and np.allclose(np.linalg.norm(cart, axis=1), radius,
                              rtol=1e-9, atol=1e-12),
              'sampled points are not on the sphere or not as many', case,
              lambda: dict(shape=q.shape, r=np.linalg.norm(cart, axis=1)[:5],
                           radius=radius))
    if not jitter and scheme != 'random-sphere':
        k = math.ceil(math.sqrt(n/2) - 1e-12)
        want = points(scheme, (2*k, k) if 'grid' in scheme else n)*radius
        key = lambda v: np.lexsort(np.round(v, 7).T + 0.)
        ctx.check(cart.shape == want.shape and np.allclose(
            cart[key(cart)], want[key(want)], atol=1e-8),
            'sampled points are not those of the scheme', case)
    return q


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(
        a, b, rtol=1e-7, atol=1e-9*max(np.abs(b).max(), 1e-300))


def average(ctx, scheme, cell):
    """DOS, PDOS and structure factor are means over the sampled points"""
    from euphonic import Quantity
    from euphonic.powder import (sample_sphere_dos, sample_sphere_pdos,
                                 sample_sphere_structure_factor)
    ns = (1, 2, 5, 6, 7, 13, 50, 216) if ctx.thorough else (1, 2, 6, 7, 32)
    for n, r, (qu, cu), jitter, what in itertools.product(
            ns, (0., .3, 2.7), (('1/angstrom', 'angstrom'),
                                ('1/bohr', 'angstrom'), ('1/nm', 'bohr')),
            (False, True), ('dos', 'pdos', 'sf')):
        if 'improved' in scheme and n < 6:
            continue
        if not ctx.thorough and (jitter and qu == '1/bohr'
                                 or not jitter and qu == '1/nm' and n == 2):
            continue
        for own in (False, True):
            case = dict(scheme=scheme, cell=cell, npts=n, modulus=r, unit=qu,
                        cell_unit=cu, jitter=jitter, what=what,
                        default_bins=not own)
            ctx.case = case
            ctx.state(tuple(case.values()))
            fc = material(cell, cu)
            fc.log.clear()
            mod = Quantity(r*Quantity(1., '1/angstrom').to(qu).magnitude, qu)
            kw = dict(sampling=scheme, npts=n, jitter=jitter)
            bins = Quantity(np.linspace(-5., 60., 14), 'meV')
            if own:
                kw['energy_bins'] = bins
            np.random.seed(n)
            f = dict(dos=sample_sphere_dos, pdos=sample_sphere_pdos,
                     sf=sample_sphere_structure_factor)[what]
            if what == 'sf':
                kw['temperature'] = None
            try:
                got = f(fc, mod, **kw)
            except Exception as e:
                if r == 0 and what == 'sf':
                    continue
                raise
            ctx.transition()
            ctx.trace()
            q = sampled(ctx, fc, scheme, n, jitter, r, case)
            m = plain_modes(fc, q)
            if not own:
                fmax = m.frequencies.to('meV').magnitude.max()
                bins = Quantity(np.linspace(0, 1.05*fmax, 1001), 'meV')
                x = got.x_data.to('meV').magnitude
                if not ctx.check(close(x, bins.magnitude), 'default bins',
                                 case, lambda: (x[0], x[-1], len(x))):
                    continue
                bins = got.x_data
            if what == 'dos':
                y, w = got, m.calculate_dos(bins)
                fr = m.frequencies.to(bins.units).magnitude
                hist = np.histogram(fr, bins=bins.magnitude)[0]
                hist = hist/np.diff(bins.magnitude)/len(q)*3/fr.shape[1]
                ctx.check(not own or close(
                    y.y_data.to(1/bins.units).magnitude, hist),
                    'average is not the mean of the densities', case)
            elif what == 'pdos':
                y, w = got, m.calculate_pdos(bins)
                ctx.check(y.metadata == w.metadata, 'metadata', case)
            else:
                y = got
                w = m.calculate_structure_factor(
                    scattering_lengths='Sears1992').calculate_1d_average(bins)
            ctx.check(np.array_equal(y.x_data.to(bins.units).magnitude,
                                     bins.magnitude)
                      and close(y.y_data.to(w.y_data.units).magnitude,
                                w.y_data.magnitude),
                      'average is not the mean over the sampled points', case)
            ctx.outcome(np.round(y.y_data.magnitude, 6).tobytes())
    ctx.sample(case)


def options(ctx, scheme):
    """Debye-Waller, weightings, interpolation arguments, names"""
    from euphonic import Quantity
    from euphonic.powder import (sample_sphere_dos, sample_sphere_pdos,
                                 sample_sphere_structure_factor)
    from euphonic.util import mp_grid
    fc = material('tric')
    mod = Quantity(1.1, '1/angstrom')
    bins = Quantity(np.linspace(-5., 60., 14), 'meV')
    for name in SCHEMES:
        for v in (name, name.upper(), name.title()):
            case = dict(name=v)
            ctx.state(('name', v))
            fc.log.clear()
            np.random.seed(1)
            sample_sphere_dos(fc, mod, sampling=v, npts=8, energy_bins=bins)
            ctx.transition()
            sampled(ctx, fc, name, 8, False, 1.1, case)
    for v in ('gold', '', 'grid'):
        ctx.transition()
        try:
            sample_sphere_dos(fc, mod, sampling=v, npts=8)
        except ValueError:
            continue
        ctx.fail('unknown scheme accepted', v, '')
    for name, n in itertools.product(SCHEMES, range(6, 60)):
        case = dict(name=name, npts=n)
        ctx.state(('rounding', name, n))
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            fc.log.clear()
            sample_sphere_dos(fc, mod, sampling=name, npts=n,
                              energy_bins=bins)
        ctx.transition()
        m = re.search(r'rounding up to (\d+)', out.getvalue())
        ctx.check(m is None or int(m[1]) == len(fc.log[0][1]),
                  'the number of points printed is not the number used', case,
                  out.getvalue)
    for args in itertools.product((None, 'realspace', 'reciprocal'),
                                  (True, False)):
        kw = dict(asr=args[0], use_c=args[1])
        for f, own in ((sample_sphere_dos, {}), (sample_sphere_pdos, {}),
                       (sample_sphere_structure_factor,
                        dict(temperature=Quantity(50., 'K'),
                             dw_spacing=Quantity(1., '1/angstrom')))):
            fc.log.clear()
            f(fc, mod, npts=7, energy_bins=bins, **own, **kw)
            ctx.transition()
            ctx.state((f.__name__, args))
            ctx.check(all({k: x[3].get(k) for k in kw} == kw
                          for x in fc.log), 'interpolation arguments',
                      dict(function=f.__name__, **kw))
    fc.log.clear()
    # neutron weighting
    sect = {'Mg': Quantity(3., 'barn'), 'O': Quantity(7000., 'mbarn')}
    for w, cs in itertools.product(
            (None, 'coherent', 'incoherent', 'coherent-plus-incoherent'),
            ('BlueBook', sect)):
        kw = dict(weighting=w, cross_sections=cs)
        case = {k: str(v) for k, v in kw.items()}
        ctx.state(tuple(case.values()))
        fc.log.clear()
        got = sample_sphere_pdos(fc, mod, npts=9, energy_bins=bins, **kw)
        ctx.transition()
        q = sampled(ctx, fc, 'golden', 9, False, 1.1, case)
        want = plain_modes(fc, q).calculate_pdos(bins, **kw)
        ctx.trace()
        ctx.check(got.metadata == want.metadata and close(
            got.y_data.to(want.y_data.units).magnitude,
            want.y_data.magnitude), 'weighted average', case)
    # Debye-Waller
    lengths = {'Mg': Quantity(5.375, 'fm'), 'O': Quantity(.58, 'angstrom')}
    spacings = (.6, 1.)
    for t, sp, b, dwkind in itertools.product(
            (None, 5., 300.), spacings, ('Sears1992', lengths),
            ('none', 'same', 'other')):
        case = dict(temperature=t, spacing=sp, lengths=str(b)[:9], dw=dwkind)
        ctx.case = case
        ctx.state(tuple(case.values()))
        fc.log.clear()
        kw = dict(temperature=None if t is None else Quantity(t, 'K'),
                  dw_spacing=Quantity(sp, '1/angstrom'))

        def make_dw(temp, spacing):
            g = mp_grid(fc.crystal.get_mp_grid_spec(
                Quantity(spacing, '1/angstrom')))
            return plain_modes(fc, g).calculate_debye_waller(
                Quantity(temp, 'K'))
        dw = None
        if dwkind == 'same':
            kw['dw'] = dw = make_dw(300. if t is None else t, .8)
        elif dwkind == 'other':
            kw['dw'] = dw = make_dw(77., .8)
        try:
            got = sample_sphere_structure_factor(
                fc, mod, npts=9, energy_bins=bins, scattering_lengths=b, **kw)
            ok = True
        except ValueError:
            ok = False
        ctx.transition()
        clash = dwkind == 'other' and t is not None
        if not ctx.check(ok != clash, 'accepted' if ok else 'refused', case) \
                or not ok:
            continue
        if dw is None and t is not None:
            dw = make_dw(t, sp)
        q = sampled(ctx, fc, 'golden', 9, False, 1.1, case,
                    int(t is not None and dwkind == 'none'))
        want = plain_modes(fc, q).calculate_structure_factor(
            scattering_lengths=b, dw=dw).calculate_1d_average(bins)
        ctx.trace()
        ctx.check(close(got.y_data.to(want.y_data.units).magnitude,
                        want.y_data.magnitude), 'average with Debye-Waller '
                  'factor', case)
        if t and dwkind == 'none':
            bare = plain_modes(fc, q).calculate_structure_factor(
                scattering_lengths=b).calculate_1d_average(bins)
            ctx.check(not close(bare.y_data.to(want.y_data.units).magnitude,
                                want.y_data.magnitude),
                      'vacuous: no Debye-Waller effect', case)
    ctx.sample(case)
