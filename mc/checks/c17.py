"""C17: fixed-width broadening is a unit-independent convolution."""
import copy
import functools
import itertools
import math
import warnings

import numpy as np

TECHNIQUE = ('exhaustive enumeration of axes (length, edges or centres, '
             'direction, step, unit) x kernel x width x impulse position, of '
             'all small data vectors, and of all gap patterns up to a '
             'length, on the real code against the matrix of the kernel')
NOTE = ('The response to an impulse at every position determines the whole '
        'linear map; it is compared with the sampled kernel of the given '
        'FWHM. Linearity is then checked for every vector over a small '
        'alphabet.')
RULE = ('one state per (axis, kernel, width, units); a transition is one '
        'broadening')
ASSUMPTIONS = ['widths are positive',
               'the kernel is sampled at the bin centres; Gaussian tails '
               'beyond 4 sigma may be cut (5e-4 of the peak)',
               'the Lorentzian is normalised over at least the span of the '
               'data on either side of the peak',
               'a spectrum with a single bin cannot be broadened (error)',
               'gaps equal to 1e-6 are even, different by 1e-4 are uneven']
FINDING = 'lorentz-width-n-over-n-1'
STEP = .5      # meV, 1/angstrom
AX = {'y1': ('meV', 'THz', '1/cm', 'J', 'hartree'),
      'q': ('1/angstrom', '1/bohr', '1/m')}


@functools.lru_cache(None)
def factor(a, b):
    from euphonic import Quantity
    return Quantity(1., a).to(b).magnitude


def gauss(n, ratio):
    s = ratio/(2*math.sqrt(2*math.log(2)))
    k = np.arange(n)
    big = np.arange(1, int(20*s) + 30)
    norm = 1 + 2*np.sum(np.exp(-.5*(big/s)**2))
    return np.exp(-.5*(k/s)**2)/norm


def lorentz(n, ratio):
    """shape relative to the peak and allowed range of the peak"""
    a = ratio/2
    k = np.arange(n)
    g = a*a/(k*k + a*a)
    least = g[0] + 2*g[1:].sum()
    full = math.pi*a/math.tanh(math.pi*a)
    return g, 1/full, 1/least


def response_error(n, shape, ratio, r):
    """r[i, j]: response at j to an impulse at i.  None if right"""
    if r.shape != (n, n) or not np.all(np.isfinite(r)):
        return 'shape or not finite'
    d = np.abs(np.arange(n)[:, None] - np.arange(n)[None])
    # translation invariance and symmetry
    by = [r[d == k] for k in range(n)]
    for k, v in enumerate(by):
        if np.ptp(v) > 1e-9*np.abs(r).max():
            return f'not a symmetric convolution at distance {k}'
    got = np.array([v[0] for v in by])
    if shape == 'gauss':
        g = gauss(n, ratio)
        if np.abs(got - g).max() > 5e-4*g[0]:
            return f'kernel {got} expected {g}'
        # integral of a peak whose kernel is inside the data
        inside = 4*ratio/2.35482 + 1
        for i in range(n):
            if i >= inside and n - 1 - i >= inside:
                if abs(r[i].sum() - 1) > 2e-4:
                    return f'integral {r[i].sum()}'
        return None
    for finding, a in ((False, ratio), (True, ratio*n/(n - 1))):
        g, lo, hi = lorentz(n, a)
        if (np.abs(got/got[0] - g).max() < 1e-7
                and lo*(1 - 1e-7) <= got[0] <= hi*(1 + 1e-7)):
            return FINDING if finding else None
    return f'kernel {got/got[0]} expected {lorentz(n, ratio)[0]}, {got[0]}'


def axis(n, edge, gaps=None, down=False, offset=0., step=STEP):
    m = n + 1 if edge else n
    x = offset + step*np.concatenate(([0.], np.cumsum(
        np.ones(m - 1) if gaps is None else np.asarray(gaps, float))))
    return x[::-1].copy() if down else x


def quantity(x, base, unit):
    from euphonic import Quantity
    return Quantity(x if base == unit else x*factor(base, unit), unit)


META = {'a': 1, 'b': 'two'}


def make(kind, x, data, y=None, unit='1/meV'):
    from euphonic import Quantity
    from euphonic.spectra import (Spectrum1D, Spectrum1DCollection,
                                  Spectrum2D)
    ticks = [(0, 'A'), (1, 'B')]
    if kind == '1D':
        return Spectrum1D(x, Quantity(data, unit), ticks, dict(META))
    if kind == 'coll':
        return Spectrum1DCollection(
            x, Quantity(data, unit), ticks, metadata=dict(META, line_data=[
                {'i': i} for i in range(len(data))]))
    return Spectrum2D(x, y, Quantity(data, unit), ticks, dict(META))


def snapshot(o):
    d = o.to_dict()
    return copy.deepcopy({k: d[k] for k in d})


def equal_dict(a, b, skip=()):
    if set(a) != set(b):
        return False
    for k in a:
        if k in skip:
            continue
        if isinstance(a[k], np.ndarray):
            if not (a[k].shape == b[k].shape and np.array_equal(a[k], b[k])):
                return False
        elif a[k] != b[k]:
            return False
    return True


def broaden(ctx, o, case, *args, **kw):
    """broaden and check everything except the values"""
    before = snapshot(o)
    new = o.broaden(*args, **kw)
    ctx.transition()
    data = 'z_data' if 'z_data' in before else 'y_data'
    after, got = snapshot(o), snapshot(new)
    ctx.check(equal_dict(before, after), 'the input changed', case)
    ctx.check(type(new) is type(o) and new is not o
              and equal_dict(before, got, (data,)),
              'axes, units or metadata of the result differ', case,
              lambda: dict(before=before, after=got))
    ctx.check(not any(np.shares_memory(getattr(o, f'_{k}_data'),
                                       getattr(new, f'_{k}_data'))
                      for k in 'xyz' if hasattr(o, f'_{k}_data')),
              'the result shares data with the input', case)
    return got[data]


def units(tier):
    for kind in ('1D', 'coll', '2Dx', '2Dy'):
        for shape in ('gauss', 'lorentz'):
            yield f'kernel/{kind}/{shape}', dict(mode='kernel', kind=kind,
                                                 shape=shape)
    for shape in ('gauss', 'lorentz'):
        yield f'both/{shape}', dict(mode='both', kind='2D', shape=shape)
        yield f'linear/{shape}', dict(mode='linear', kind='', shape=shape)
        yield f'unit/{shape}', dict(mode='unit', kind='', shape=shape)
        yield f'uneven/{shape}', dict(mode='uneven', kind='', shape=shape)


def run(ctx, mode, kind, shape):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()[mode](ctx, kind, shape)


def matrix(ctx, kind, x, n, shape, width, case):
    """responses to all impulses"""
    eye = np.eye(n)
    if kind == '1D':
        return np.array([broaden(ctx, make('1D', x, e), case, width,
                                 shape=shape) for e in eye])
    if kind == 'coll':
        return broaden(ctx, make('coll', x, eye), case, width, shape=shape)
    from euphonic import Quantity
    m = 3
    out = []
    # other axis uneven and of another length: it must not matter
    if kind == '2Dx':
        other = Quantity(np.array([0., 1., 5.]), 'meV')
        for i in range(n):
            z = np.zeros((n, m))
            z[i] = [1, 10, 100]
            r = broaden(ctx, make('2D', x, z, other, '1/meV'), case,
                        x_width=width, shape=shape)
            out.append(r[:, 0])
            ctx.check(np.allclose(r/[1, 10, 100], r[:, :1], rtol=1e-9,
                                  atol=1e-12),
                      'rows of the other axis are mixed', case, lambda: r)
    else:
        other = Quantity(np.array([0., 1., 5.]), '1/angstrom')
        for i in range(n):
            z = np.zeros((m, n))
            z[:, i] = [1, 10, 100]
            r = broaden(ctx, make('2D', other, z, x, '1/meV'), case,
                        y_width=width, shape=shape)
            out.append(r[0])
            ctx.check(np.allclose(r/[[1], [10], [100]], r[:1], rtol=1e-9,
                                  atol=1e-12),
                      'rows of the other axis are mixed', case, lambda: r)
    return np.array(out)


def verdict(ctx, n, shape, ratio, r, case):
    err = response_error(n, shape, ratio, np.asarray(r))
    ctx.trace()
    if err == FINDING:
        ctx.fail('Lorentzian width', case,
                 'FWHM is n/(n-1) times the requested', key=FINDING)
    elif err:
        ctx.fail('response is not the kernel of that width', case, err)
    ctx.outcome(np.round(r, 7).tobytes())


def kernel(ctx, kind, shape):
    ns = range(2, 41) if ctx.thorough else (2, 3, 4, 5, 6, 9, 16, 41)
    ratios = (.1, .3, .6, 1., 1.5, 2.2, 3., 5., 8., 17., 60.)
    base = '1/angstrom' if kind == '2Dx' else 'meV'
    for n, edge, down, offset in itertools.product(
            ns, (True, False), (False, True), (0., -3.3, 1e3)):
        if offset == 1e3 and (down or n not in (5, 16)):
            continue
        if kind[:2] == '2D' and n > 20 and offset:
            continue
        for ratio in ratios:
            case = dict(kind=kind, shape=shape, bins=n, edges=edge,
                        decreasing=down, offset=offset, fwhm_in_bins=ratio)
            ctx.case = case
            ctx.state(tuple(case.values()))
            x = quantity(axis(n, edge, down=down, offset=offset), base, base)
            w = quantity(ratio*STEP, base, base)
            verdict(ctx, n, shape, ratio,
                    matrix(ctx, kind, x, n, shape, w, case), case)
    ctx.sample(case)


def unit(ctx, kind, shape):
    """all combinations of axis, width and data unit"""
    n = 7
    for kind in ('1D', 'coll', '2Dx', '2Dy'):
        us = AX['q' if kind == '2Dx' else 'y1']
        base = us[0]
        for au, wu, edge, down, ratio in itertools.product(
                us, us, (True, False), (False, True), (.4, 1.3, 4.)):
            case = dict(kind=kind, shape=shape, axis_unit=au, width_unit=wu,
                        edges=edge, decreasing=down, fwhm_in_bins=ratio)
            ctx.case = case
            ctx.state(tuple(case.values()))
            x = quantity(axis(n, edge, down=down), base, au)
            w = quantity(ratio*STEP, base, wu)
            verdict(ctx, n, shape, ratio,
                    matrix(ctx, kind, x, n, shape, w, case), case)
    # data units, and units changed after construction
    for au, du, new in itertools.product(
            AX['y1'], ('1/meV', '1/J', 'mbarn/meV', 'dimensionless'),
            AX['y1']):
        case = dict(shape=shape, axis_unit=au, data_unit=du, new_unit=new)
        ctx.case = case
        ctx.state(tuple(case.values()))
        o = make('coll', quantity(axis(n, True), 'meV', au), np.eye(n),
                 unit=du)
        o.x_data_unit = new
        verdict(ctx, n, shape, 2., broaden(
            ctx, o, case, quantity(2*STEP, 'meV', au), shape=shape), case)
    ctx.sample(case)


def both(ctx, kind, shape):
    """both axes at once: the product of the two kernels"""
    sizes = (2, 3, 4, 7)
    for nx, ny, ex, ey, dx, dy in itertools.product(
            sizes, sizes, (True, False), (True, False), (False, True),
            (False, True)):
        x = quantity(axis(nx, ex, down=dx), '1/angstrom', '1/angstrom')
        y = quantity(axis(ny, ey, down=dy), 'meV', 'meV')
        for rx, ry in ((.7, 3.), (4., 1.), (1.4, 1.4)):
            case = dict(shape=shape, nx=nx, ny=ny, edges=(ex, ey),
                        decreasing=(dx, dy), fwhm_in_bins=(rx, ry))
            ctx.case = case
            ctx.state(tuple(case.values()))
            w = dict(x_width=quantity(rx*STEP, '1/angstrom', '1/bohr'),
                     y_width=quantity(ry*STEP, 'meV', '1/cm'))
            # response to a corner impulse in each corner determines all
            for i, j in ((0, 0), (nx - 1, 0), (0, ny - 1), (nx//2, ny//2)):
                z = np.zeros((nx, ny))
                z[i, j] = 1.
                r = broaden(ctx, make('2D', x, z, y), case, shape=shape, **w)
                ctx.trace()
                if shape == 'gauss':
                    kx, ky = gauss(nx, rx), gauss(ny, ry)
                    want = np.outer(kx[np.abs(np.arange(nx) - i)],
                                    ky[np.abs(np.arange(ny) - j)])
                    ctx.check(r.shape == want.shape and np.abs(
                        r - want).max() < 1.5e-3*want.max(),
                        'response is not the product of the kernels', case,
                        lambda: dict(got=r, want=want))
                else:
                    one = broaden(ctx, make('2D', x, z, y), case, w['x_width'],
                                  shape=shape)
                    two = broaden(ctx, make('2D', x, z, y), case,
                                  y_width=w['y_width'], shape=shape)
                    want = np.outer(one[:, j], two[i])
                    ctx.check(r.shape == want.shape and np.allclose(
                        r, want, rtol=1e-9, atol=1e-12),
                        'response is not the product of the kernels', case,
                        lambda: dict(got=r, want=want))
    ctx.sample(case)


def linear(ctx, kind, shape):
    """every vector over a small alphabet is the sum of its impulses"""
    n = 6 if ctx.thorough else 5
    for edge, ratio in itertools.product((True, False), (.5, 1.7, 6.)):
        x = quantity(axis(n, edge), 'meV', 'meV')
        w = quantity(ratio*STEP, 'meV', 'meV')
        case = dict(shape=shape, edges=edge, fwhm_in_bins=ratio)
        ctx.case = case
        vec = np.array(list(itertools.product((-1.5, 0., 1., 1e3),
                                              repeat=n)))
        m = broaden(ctx, make('coll', x, np.eye(n)), case, w, shape=shape)
        ctx.check(np.allclose(m, matrix(ctx, '1D', x, n, shape, w, case),
                              rtol=1e-12, atol=1e-15),
                  'a collection is not broadened line by line', case)
        r = broaden(ctx, make('coll', x, vec), case, w, shape=shape)
        for v, got in zip(vec, r):
            ctx.state((edge, ratio, tuple(v)))
            ctx.trace()
            ctx.check(np.allclose(got, v@m, rtol=1e-9,
                                  atol=1e-11*np.abs(v).max()),
                      'broadening is not linear', dict(case, data=v),
                      lambda: dict(got=got, want=v@m))
    # options
    from euphonic import Quantity
    bad = [dict(shape='box'), dict(shape='Gauss'), dict(method='fft'),
           dict(shape='lorentz', method='other'), dict(shape='')]
    y = quantity(axis(n, True), 'meV', 'meV')
    for k in ('1D', 'coll', '2D'):
        o = make(k, y, np.ones(n) if k == '1D' else np.ones((n, n)), y)
        for kw in bad:
            case = dict(kind=k, **kw)
            ctx.state(tuple(case.items()))
            ctx.transition()
            try:
                o.broaden(w, **kw)
            except ValueError:
                continue
            ctx.fail('invalid option accepted', case, '')
        for width in (Quantity(1., 'kg'), Quantity(1., 'dimensionless')):
            case = dict(kind=k, width=str(width))
            ctx.state(tuple(case.items()))
            ctx.transition()
            try:
                r = o.broaden(width, shape=shape)
            except Exception:
                continue
            ctx.fail('a width of another dimension is accepted', case,
                     snapshot(r))
        # a width object is a quantity or a function
        if k != '2D':
            ctx.transition()
            try:
                o.broaden(.5)
                ctx.fail('a bare number is accepted as width', k, '')
            except TypeError:
                pass
        else:
            r = broaden(ctx, o, k)
            ctx.check(np.array_equal(r, np.ones((n, n))),
                      'no widths: data changed', k)


def uneven(ctx, kind, shape):
    """all gap patterns"""
    from euphonic import Quantity
    gaps = (1., 2., 1 + 1e-6, 1 + 2e-4)
    longest = 6 if ctx.thorough else 4
    for m in range(1, longest + 1):
        for g in itertools.product(gaps, repeat=m):
            big = max(g)/min(g) - 1
            even = big < 3e-6
            for edge, au, down in itertools.product(
                    (True, False), ('meV', 'J'), (False, True)):
                n = m if edge else m + 1
                if n < 2:
                    continue
                x = quantity(axis(n, edge, g, down), 'meV', au)
                w = quantity(1., 'meV', 'meV')
                for k in ('1D', 'coll', '2Dx', '2Dy'):
                    if k[:2] == '2D' and au == 'J' and m > 3:
                        continue
                    case = dict(shape=shape, kind=k, gaps=g, edges=edge,
                                unit=au, decreasing=down)
                    ctx.case = case
                    ctx.state(tuple(case.values()))
                    other = Quantity(np.array([0., 1., 5., 6.]), 'dimensionless')
                    if k[:2] != '2D':
                        o = make(k, x, np.ones(n) if k == '1D'
                                 else np.ones((2, n)))
                        args = dict(x_width=w)
                    elif k == '2Dx':
                        o = make('2D', x, np.ones((n, 3)), other)
                        args = dict(x_width=w)
                    else:
                        o = make('2D', other, np.ones((3, n)), x)
                        args = dict(y_width=w)
                    try:
                        r = broaden(ctx, o, case, shape=shape, **args)
                        ok = True
                    except ValueError:
                        ok = False
                    ctx.trace()
                    ctx.check(ok == even, 'uneven bins accepted' if ok else
                              'even bins rejected', case)
                    with warnings.catch_warnings(record=True) as log:
                        warnings.simplefilter('always')
                        r2 = broaden(ctx, o, case, shape=shape,
                                     method='convolve', **args)
                    ctx.check(even or log, 'no warning for uneven bins', case)
                    ctx.check(np.all(np.isfinite(r2)) and (
                        not ok or np.array_equal(r, r2)),
                        'method="convolve" differs', case)
    ctx.sample(case)
