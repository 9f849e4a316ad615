"""C18: variable-width and adaptive broadening."""
import functools
import itertools
import math
import warnings

import numpy as np

from mc.checks.c17 import broaden, make, quantity

TECHNIQUE = ('exhaustive enumeration of impulse positions x assignments of '
             'widths to positions x kernels x conventions x error targets x '
             'units on the real code, against the exact kernel of each '
             'contribution within the stated error')
NOTE = ('The broadened impulses at every position are compared with the '
        'exact kernel of the width belonging to that position; the area of '
        'the difference must not exceed the requested error. Adaptive DOS: '
        'all assignments of widths to modes against the sum of kernels.')
RULE = ('one state per (bins, positions, widths, kernel, options); a '
        'transition is one broadening or DOS')
ASSUMPTIONS = [
    'contributions are binned before they are broadened in the fast method; '
    'contributions outside the bins may be dropped there',
    'the kernel may be cut beyond half of the range of the bins',
    'the lower limit may apply to the width as given by the function or to '
    'the width after conversion to a standard deviation',
    'the achieved error may exceed the requested one by 15% (10% of a fit) '
    'and the "cubic" fit is not used below 0.003',
    'widths are at least about a bin, or raised to the lower limit',
    'DOS mode widths are standard deviations',
    'Spectrum1D data on bin centres is refused by an AssertionError']
TOFWHM = 2*math.sqrt(2*math.log(2))
D = .5
MARGIN = 1.15


@functools.lru_cache(None)
def factor(a, b):
    from euphonic import Quantity
    return Quantity(1., a).to(b).magnitude


def pdf(shape, x, w):
    """w: sigma or FWHM"""
    if shape == 'gauss':
        return np.exp(-.5*(x/w)**2)/(w*math.sqrt(2*math.pi))
    return w/(2*math.pi*(x*x + w*w/4))


def mismatch(shape, got, i, width, err, d=D):
    """got: response to an impulse of unit area in bin i"""
    n = len(got)
    if not np.all(np.isfinite(got)):
        return 'not finite'
    k = np.arange(n) - i
    want = pdf(shape, k*d, width)
    near = np.abs(k) <= (n - 1)//2
    area = np.abs(got - want)[near].sum()*d
    tol = err*MARGIN + 1e-7
    if area > tol:
        return f'differs from the kernel of width {width} by {area} > {err}'
    # normalisation: far more accurate than the shape for a Gaussian
    if shape == 'gauss' and np.all(near) and 6*width < d*min(i, n - 1 - i):
        if abs(got.sum()*d - 1) > 1e-4:
            return f'area {got.sum()*d}'
    far = ~near
    if np.any(got[far] < -tol/d) or np.any(
            got[far] > want[far]*(1 + tol) + tol/d):
        return 'wrong far from the peak'
    return None


def units(tier):
    for shape in ('gauss', 'lorentz'):
        for err in (.04, .01, .001):
            yield f'assign/{shape}/{err}', dict(
                mode='assign', shape=shape, err=err, fit='cheby-log')
        yield f'smooth/{shape}', dict(mode='smooth', shape=shape, err=.01,
                                      fit='cheby-log')
        yield f'sparse/{shape}', dict(mode='sparse', shape=shape, err=.01,
                                      fit='cheby-log')
        yield f'two-d/{shape}', dict(mode='two_d', shape=shape, err=.01,
                                     fit='cheby-log')
    yield 'assign/gauss/cubic', dict(mode='assign', shape='gauss', err=.01,
                                     fit='cubic')
    yield 'smooth/gauss/cubic', dict(mode='smooth', shape='gauss', err=.02,
                                     fit='cubic')
    for m in ('reference', 'fast'):
        yield f'dos/{m}', dict(mode='dos', shape=m, err=.01,
                               fit='cheby-log')
    yield 'dosunits', dict(mode='dosunits', shape='', err=.01,
                           fit='cheby-log')
    yield 'pdos', dict(mode='pdos', shape='', err=.01, fit='cheby-log')
    yield 'gradients', dict(mode='gradients', shape='', err=0, fit='')


def run(ctx, mode, shape, err, fit):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()[mode](ctx, shape, err, fit)


def table(widths, centres, xunit, wunit, log=None):
    """width function given by a table at the bin centres"""
    from euphonic import Quantity
    c = np.asarray(centres)*factor('meV', xunit)
    w = np.asarray(widths)*factor('meV', wunit)

    def f(x):
        m = x.to(xunit).magnitude
        if log is not None:
            log.append(m)
        return Quantity(w[np.argmin(np.abs(
            np.asarray(m)[..., None] - c), axis=-1)], wunit)
    return f


def judge(ctx, shape, r, sig, lim, err, case, idx=None):
    """r[i]: responses; sig[i]: width (sigma or FWHM of a Lorentzian) before
    the lower limit; lim: tuple of limits of which any may apply"""
    first = None
    for low in lim:
        bad = None
        for i in range(len(r)):
            bad = mismatch(shape, r[i], i if idx is None else idx[i],
                           max(sig[i], low), err)
            if bad:
                bad = dict(impulse=i, width=sig[i], why=bad)
                break
        ctx.trace()
        if bad is None:
            return
        first = first or bad
    ctx.fail('a contribution is not spread by the kernel of its width', case,
             first)


def limits(shape, conv, low):
    """possible lower limits on sigma (FWHM for a Lorentzian)"""
    if shape == 'gauss' and conv == 'fwhm':
        return (low, low/TOFWHM)
    return (low,)


def assign(ctx, shape, err, fit):
    """all assignments of widths to positions"""
    n = 6 if ctx.thorough else 5
    alphabet = (1.2, 2.7, 4.) if shape == 'gauss' else (2., 4.1, 9.)
    cen = (np.arange(n) + .5)*D
    x = quantity(np.arange(n + 1)*D, 'meV', 'meV')
    o = make('coll', x, np.eye(n)/D)
    single = [make('1D', x, e/D) for e in np.eye(n)]
    conv = 'std' if shape == 'gauss' else 'fwhm'
    for w in itertools.product(alphabet, repeat=n):
        case = dict(kernel=shape, error=err, fit=fit, widths_in_bins=w)
        ctx.case = case
        ctx.state(tuple(case.values()))
        sig = np.array(w)*D
        r = broaden(ctx, o, case, table(sig, cen, 'meV', 'meV'),
                    shape=shape, width_convention=conv, width_fit=fit,
                    width_interpolation_error=err)
        judge(ctx, shape, r, sig, limits(shape, conv, D), err, case)
        if w[0] != w[1] and w[1] == w[2]:
            i = sum(map(int, w)) % n
            one = broaden(ctx, single[i], case,
                          table(sig, cen, 'meV', 'meV'), shape=shape,
                          width_convention=conv, width_fit=fit,
                          width_interpolation_error=err)
            ctx.check(np.allclose(one, r[i], rtol=1e-9, atol=1e-12),
                      'a collection differs from its spectra', case)
            # linear
            v = np.array([1., -2., 0., 5., 1e3, .1])[:n]
            tot = broaden(ctx, make('1D', x, v/D), case,
                          table(sig, cen, 'meV', 'meV'), shape=shape,
                          width_convention=conv, width_fit=fit,
                          width_interpolation_error=err)
            ctx.check(np.allclose(tot, v@r, rtol=1e-7, atol=1e-7),
                      'broadening is not linear', case)
        ctx.outcome(np.round(r, 7).tobytes())
    ctx.sample(case)


FUNCS = {
    'constant': lambda u: 3. + 0*u,
    'narrow': lambda u: .2 + 0*u,
    'rising': lambda u: 1.2 + 5*u,
    'falling': lambda u: 6.3 - 5*u,
    'hill': lambda u: 1.1 + 20*u*(1 - u),
    'step': lambda u: np.where(u < .5, 1.3, 5.),
    'outlier': lambda u: np.where(np.abs(u - .3) < .02, 1.1, 9.),
    'powers': lambda u: 1.2*2**(3*u),
}


def smooth(ctx, shape, err, fit):
    """smooth width functions; all conventions, limits, units, errors"""
    ns = (24, 25, 60) if not ctx.thorough else (12, 13, 24, 25, 60, 61, 200)
    errs = (err,) if not ctx.thorough else (.003, .01, .03, .04)
    for n, fname, conv, low, (xu, wu), e, down in itertools.product(
            ns, FUNCS, ('std', 'fwhm'), (None, 0., 2.5),
            (('meV', 'meV'), ('1/cm', 'THz'), ('J', 'meV'), ('meV', 'J')),
            errs, (False,)):
        if n != 24 and xu != 'meV' or low and xu == '1/cm':
            continue
        if not ctx.thorough and (n != 24 and low == 0. or conv == 'std'
                                 and wu == 'J'):
            continue
        case = dict(kernel=shape, bins=n, function=fname, convention=conv,
                    limit=low, unit=xu, width_unit=wu, error=e, fit=fit)
        ctx.case = case
        ctx.state(tuple(case.values()))
        lowest = 1. if low is None else low
        cen = (np.arange(n) + .5)*D
        sig = FUNCS[fname]((np.arange(n) + .5)/n)*D
        given = sig*TOFWHM if (shape == 'gauss' and conv == 'fwhm') else sig
        if low == 0. and fname == 'narrow':
            continue
        kw = {} if low is None else dict(
            width_lower_limit=quantity(low*D, 'meV', wu))
        x = quantity(np.arange(n + 1)*D - 3., 'meV', xu)
        # every position, in spectra of a few separated impulses
        pos = list(range(n)) if n < 30 else list(range(0, n, 7)) + [n - 1]
        o = make('coll', x, np.eye(n)[pos]/D, unit='1/meV')
        f = table(given, cen - 3., xu, wu)
        try:
            r = broaden(ctx, o, case, f, shape=shape, width_convention=conv,
                        width_interpolation_error=e, width_fit=fit, **kw)
        except ValueError:
            ctx.check(shape == 'lorentz' and conv == 'std',
                      'refused', case)
            continue
        if not ctx.check(shape != 'lorentz' or conv != 'std',
                         'standard deviation of a Lorentzian accepted',
                         case):
            continue
        judge(ctx, shape, r, sig[pos], limits(shape, conv, lowest*D), e, case,
              pos)
        ctx.outcome(np.round(r, 6).tobytes())
    # invalid options
    o = make('1D', quantity(np.arange(13)*D, 'meV', 'meV'), np.ones(12))
    f = table(np.ones(12)*3*D, (np.arange(12) + .5)*D, 'meV', 'meV')
    for kw in (dict(width_convention='hwhm'), dict(width_convention=''),
               dict(width_interpolation_error=1e-5),
               dict(width_interpolation_error=.5), dict(width_fit='other'),
               dict(shape='lorentz', width_fit='cubic'),
               dict(shape='lorentz', width_interpolation_error=.1)):
        kw = dict(dict(shape=shape), **kw)
        ctx.transition()
        ctx.state(('invalid', shape, tuple(kw.items())))
        try:
            o.broaden(f, **kw)
        except ValueError:
            continue
        ctx.fail('invalid option accepted', kw, '')
    # uneven bins
    for gaps in itertools.product((1., 2., 1.001), repeat=4):
        x = quantity(np.cumsum((0.,) + gaps)*D, 'meV', 'meV')
        ctx.transition()
        ctx.state(('uneven', shape, gaps))
        even = max(gaps) == min(gaps)
        for kind, z in (('1D', np.ones(4)), ('coll', np.ones((2, 4)))):
            try:
                make(kind, x, z).broaden(f, shape=shape)
                ok = True
            except (AssertionError, ValueError):
                ok = False
            ctx.check(ok == even, 'uneven bins accepted' if ok
                      else 'even bins refused', dict(gaps=gaps, kind=kind))
    ctx.sample(case)


def sparse(ctx, shape, err, fit):
    """variable_width_broadening of contributions at any positions"""
    from euphonic import Quantity
    from euphonic.broadening import (variable_width_broadening,
                                     width_interpolated_broadening)
    conv = 'std' if shape == 'gauss' else 'fwhm'
    for n in (8, 9):
        edges = np.arange(n + 1)*D
        spots = sorted(set(np.arange(0, n + .1, .25)*D))
        spots += [-.1, n*D + .1]
        for p in spots:
            for ws, wt, (bu, xu, wu) in itertools.product(
                    ((1.3, 4.), (4., 1.3), (2., 2.), (1.2, 1.9)),
                    (None, 'mbarn'), (('meV', 'meV', 'meV'),
                                      ('THz', 'meV', '1/cm'))):
                case = dict(kernel=shape, bins=n, at=p, widths=ws, unit=bu,
                            x_unit=xu, weight_unit=wt)
                ctx.case = case
                ctx.state(tuple(map(str, case.values())))
                # second contribution far away with zero or some weight
                xs = np.array([p, 2.3*D])
                sig = np.array(ws)*D
                b = quantity(edges, 'meV', bu)
                xq = quantity(xs, 'meV', xu)
                f = table(sig, xs, xu, wu) if xs[0] != xs[1] else None
                if f is None:
                    continue
                i = int(np.floor(p/D))
                inside = 0 <= p <= n*D
                i = min(i, n - 1)
                cand = [i] if bu == 'meV' or p/D % 1 else [i, i - 1]
                out = []
                for wgt in ([1., 0.], [0., 1.], [2., -3.]):
                    wq = np.array(wgt) if wt is None else Quantity(
                        np.array(wgt), wt)
                    lens = []
                    for how in ('function', 'widths'):
                        if how == 'function':
                            r = variable_width_broadening(
                                b, xq, f, wq, width_lower_limit=quantity(
                                    -1., 'meV', 'meV'),
                                width_convention=conv, adaptive_error=err,
                                shape=shape, fit=fit)
                        else:
                            r = width_interpolated_broadening(
                                b, xq, quantity(sig, 'meV', wu),
                                np.array(wgt), err, shape=shape, fit=fit)
                        ctx.transition()
                        lens.append(r.to(
                            f'1/({bu})' if wt is None or how == 'widths'
                            else f'{wt}/({bu})').magnitude
                            / factor(bu, 'meV'))
                    ctx.check(np.allclose(lens[0], lens[1], rtol=1e-9,
                                          atol=1e-12),
                              'widths and width function differ', case,
                              lambda: lens)
                    out.append(lens[0])
                ctx.check(np.allclose(out[2], 2*out[0] - 3*out[1],
                                      rtol=1e-8, atol=1e-9),
                          'not linear in the weights', case)
                if not inside:
                    far = pdf(shape, (np.arange(n) + .5)*D - p, sig[0])
                    ctx.check(np.all(np.abs(out[0]) <= far + err),
                              'contribution outside the bins', case,
                              lambda: out[0])
                else:
                    bad = [mismatch(shape, out[0], k, sig[0], err)
                           for k in cand if k >= 0]
                    ctx.check(None in bad, 'a contribution is not spread by '
                              'the kernel of its width', case, bad)
                bad = mismatch(shape, out[1], 2, sig[1], err)
                ctx.check(bad is None, 'a contribution is not spread by the '
                          'kernel of its width', case, bad)
                ctx.trace(3)
                ctx.outcome(np.round(out, 6).tobytes())
    ctx.sample(case)


def two_d(ctx, shape, err, fit):
    """each axis of a 2D spectrum on its own"""
    from euphonic import Quantity
    conv = 'std' if shape == 'gauss' else 'fwhm'
    kw = dict(shape=shape, width_convention=conv, width_fit=fit,
              width_interpolation_error=err)
    for n, m, ex, ey, ax in itertools.product(
            (8, 9), (3, 4), (True, False), (True, False), 'xy'):
        for w, au in itertools.product(
                itertools.product((1.3, 3.5), repeat=3),
                ('meV', '1/cm', 'J')):
            if not ctx.thorough and (
                    (au != 'meV' and w != (1.3, 3.5, 3.5))
                    or (m == 4 and w[0] == w[1])
                    or (m == 4 and ex != ey)):
                continue
            sig = np.resize(w, n)*D
            lo = 0. if (ex if ax == 'x' else ey) else D/2
            cen = np.arange(n)*D + lo if not (
                ex if ax == 'x' else ey) else (np.arange(n) + .5)*D
            case = dict(kernel=shape, bins=n, other=m, axis=ax,
                        edges=(ex, ey), widths=w, unit=au)
            ctx.case = case
            ctx.state(tuple(map(str, case.values())))
            edge = ex if ax == 'x' else ey
            long = quantity(np.arange(n + 1)*D if edge else cen, 'meV', au)
            short = Quantity(np.arange(m + (ey if ax == 'x' else ex))*1.,
                             'dimensionless')
            f = table(sig, cen, au, 'meV')
            for i in range(n):
                z = np.zeros((n, m))
                z[i] = np.arange(m) - 1.
                zz, x, y = (z, long, short) if ax == 'x' else (
                    z.T, short, long)
                o = make('2D', x, zz/D, y)
                r = broaden(ctx, o, case, **{f'{ax}_width': f}, **kw)
                r = r if ax == 'x' else r.T
                ctx.check(np.allclose(r, np.outer(r[:, 0], 1. - np.arange(m)),
                                      rtol=1e-9, atol=1e-9),
                          'rows of the other axis are mixed', case)
                bad = [mismatch(shape, -r[:, 0], i, max(sig[i], low), err)
                       for low in limits(shape, conv, D)]
                ctx.trace()
                ctx.check(None in bad, 'a contribution is not spread by the '
                          'kernel of its width', dict(case, impulse=i), bad)
                if i == 2 and w[0] != w[1]:
                    # together with a fixed width on the other axis
                    fixed = Quantity(1.5, 'dimensionless')
                    other = 'y' if ax == 'x' else 'x'
                    b = broaden(ctx, o, case, **{
                        f'{ax}_width': f, f'{other}_width': fixed}, **kw)
                    c = o.broaden(**{f'{other}_width': fixed}, shape=shape)
                    c = broaden(ctx, c, case, **{f'{ax}_width': f}, **kw)
                    ctx.check(np.allclose(b, c, rtol=1e-9, atol=1e-9),
                              'fixed and variable widths together differ '
                              'from one after the other', case)
            ctx.outcome(np.round(r, 6).tobytes())
    ctx.sample(case)


# -- adaptive DOS

def modes(freqs, weights=None, unit='meV', cls='QpointFrequencies'):
    import euphonic
    from euphonic import Crystal, Quantity
    n = freqs.shape[1]//3
    c = Crystal(Quantity(np.diag([4., 5., 6.]), 'angstrom'),
                np.array([[0., 0, 0], [.5, .4, .3]])[:n],
                np.array(['Na', 'Cl'])[:n],
                Quantity(np.array([23., 35.5])[:n], 'amu'))
    q = np.array([[.1*i, .2, -.3*i] for i in range(len(freqs))])
    args = [c, q, quantity(freqs, 'meV', unit)]
    if cls == 'QpointPhononModes':
        v = np.zeros((len(freqs), 3*n, n, 3), complex)
        a = np.array([[3., 4j], [4., -3j]])/5 if n == 2 else np.eye(1)
        for j in range(3*n):
            v[:, j, :, j % 3] = a[j//3]
        args.append(v)
    return getattr(euphonic, cls)(*args, weights=weights)


def direct(edges, freqs, widths, low, weights, mw, binned):
    cen = (edges[1:] + edges[:-1])/2
    y = np.zeros(len(cen))
    for q in range(len(freqs)):
        for f, s, w in zip(freqs[q], widths[q], mw[q]):
            if binned:
                i = int(np.floor((f - edges[0])/(edges[1] - edges[0])))
                if not 0 <= i < len(cen):
                    continue
                f = cen[i]
            y += pdf('gauss', cen - f, max(s, low))*w*weights[q]
    return y/np.sum(weights)


def dos(ctx, method, err, fit):
    """all assignments of three frequencies and widths to the modes"""
    n = 41
    edges = np.arange(n + 1)*D
    pool = (.1, 1., 2.3)
    # the last ones are outside, the tails of some of them are not
    spots = ((4.3, 10.1, 13.9, 40.) if method == 'fast'
             else (4.3, 13.9, 23.3, -2.7))
    for fr, ws, low, wt in itertools.product(
            itertools.permutations(spots, 3),
            itertools.product(pool, repeat=3), (.01, .6, 1.5),
            ((1., 1.), (.2, 3.), (1., 0.))):
        fr = (fr, fr[1:] + fr[:1])
        wds = (ws, ws[::-1])
        if method == 'fast':
            low = max(low, .45)       # no less than a bin
        case = dict(method=method, frequencies=fr, widths=wds, minimum=low,
                    weights=wt)
        if not ctx.thorough and (low == .6 and wt[1] != 3.
                                or fr[0][0] > fr[0][2] and low == 1.5):
            continue
        ctx.case = case
        ctx.state(tuple(case.values()))
        f = np.array(fr)
        o = modes(f, np.array(wt))
        before = broaden_free(o)
        w = quantity(np.array(wds), 'meV', 'meV')
        kw = dict(mode_widths=w, mode_widths_min=quantity(low, 'meV', 'meV'))
        b = quantity(edges, 'meV', 'meV')
        if method == 'fast':
            kw.update(adaptive_method='fast', adaptive_error=err,
                      adaptive_error_fit=fit)
        s = o.calculate_dos(b, **kw)
        ctx.transition()
        ctx.trace()
        y = s.y_data.to('1/meV').magnitude
        judge_dos(ctx, y, edges, f, np.array(wds), low, wt,
                  np.ones((2, 3)), method, err, case)
        ctx.check(np.array_equal(w.magnitude, np.array(wds))
                  and broaden_free(o) == before
                  and np.array_equal(s.x_data.magnitude, edges),
                  'arguments or object changed, or wrong bins', case)
        ctx.outcome(np.round(y, 7).tobytes())
        if method == 'reference' and wt[1]:
            m = o.calculate_dos_map(b, **kw)
            ctx.transition()
            z = m.z_data.to('1/meV').magnitude
            for i in range(2):
                judge_dos(ctx, z[i], edges, f[i:i + 1],
                          np.array(wds)[i:i + 1], low, (1.,),
                          np.ones((1, 3)), method, err,
                          dict(case, map_row=i))
    for bad in ('other', '', 'Reference'):
        ctx.transition()
        try:
            o.calculate_dos(b, mode_widths=w, adaptive_method=bad)
            ctx.fail('invalid adaptive_method accepted', bad, '')
        except ValueError:
            pass
    ctx.sample(case)


def broaden_free(o):
    d = o.to_dict()
    return repr({k: (v.tobytes() if isinstance(v, np.ndarray) else v)
                 for k, v in d.items() if k != 'crystal'})


def judge_dos(ctx, y, edges, f, wds, low, wt, mw, method, err, case):
    want = direct(edges, f, wds, low, wt, mw, method == 'fast')
    d = edges[1] - edges[0]
    if method == 'reference':
        ok = y.shape == want.shape and np.allclose(
            y, want, rtol=1e-9, atol=1e-12)
    else:
        # outside contributions may be dropped or kept; kernels may be cut
        scale = (np.abs(mw)*np.array(wt)[:, None]).sum()/np.sum(wt)
        want2 = direct(edges, f, wds, low, wt, mw, False)
        ok = (y.shape == want.shape and np.all(np.isfinite(y))
              and np.abs(y - want).sum()*d <= scale*err*MARGIN + 1e-6)
        del want2
    ctx.check(ok, 'adaptive DOS is not the sum of the kernels', case,
              lambda: dict(got=y, want=want))


def dosunits(ctx, shape, err, fit):
    n = 24
    edges = np.arange(n + 1)*D
    f = np.array([[3.1, 4.2, 8.8, 6.1, 7.7, 5.2]])
    w = np.array([[.6, 1.1, 1.9, .5, .9, .7]])
    us = ('meV', 'THz', '1/cm', 'hartree', 'J')
    for fu, bu, wu, mu, method in itertools.product(
            us, us, us, ('meV', '1/cm'), ('reference', 'fast')):
        case = dict(freq_unit=fu, bin_unit=bu, width_unit=wu, min_unit=mu,
                    method=method)
        ctx.case = case
        ctx.state(tuple(case.values()))
        o = modes(f, unit=fu)
        s = o.calculate_dos(
            quantity(edges, 'meV', bu), mode_widths=quantity(w, 'meV', wu),
            mode_widths_min=quantity(.65, 'meV', mu), adaptive_method=method,
            adaptive_error=err, adaptive_error_fit=fit)
        ctx.transition()
        ctx.trace()
        y = (s.y_data.magnitude/factor('meV', bu)**-1
             if s.y_data.units == 1/s.x_data.units
             else s.y_data.to('1/meV', 'reciprocal_spectroscopy').magnitude)
        judge_dos(ctx, y, edges, f, w, .65, (1.,), np.full((1, 6), .5),
                  method, err, case)
    ctx.sample(case)


def pdos(ctx, shape, err, fit):
    """partial DOS: each mode contributes its share to each species"""
    n = 24
    edges = np.arange(n + 1)*D
    b = quantity(edges, 'meV', 'meV')
    share = {'Na': np.array([.36]*3 + [.64]*3)*2/2,
             'Cl': np.array([.64]*3 + [.36]*3)*2/2}
    pool = (.6, 1.4)
    for ws, wt in itertools.product(itertools.product(pool, repeat=6),
                                    ((1., 1.), (.2, 3.))):
        f = np.array([[3.1, 4.2, 8.8, 6.1, 7.7, 5.2],
                      [2.1, 6.2, 4.8, 8.1, 3.7, 7.2]])
        w = np.array([ws, ws[::-1]])
        for method in ('reference', 'fast'):
            case = dict(widths=ws, weights=wt, method=method)
            ctx.case = case
            ctx.state(tuple(case.values()))
            o = modes(f, np.array(wt), cls='QpointPhononModes')
            kw = dict(mode_widths=quantity(w, 'meV', 'meV'),
                      adaptive_method=method)
            if method == 'fast':
                kw.update(adaptive_error=err, adaptive_error_fit=fit)
            total = o.calculate_dos(b, **kw)
            parts = o.calculate_pdos(b, **kw)
            ctx.transition(2)
            got = {}
            for i in range(len(parts)):
                got[parts[i].metadata.get('species')] = parts[
                    i].y_data.to('1/meV').magnitude
            if not ctx.check(set(got) == {'Na', 'Cl'}, 'species', case):
                continue
            for sp, y in got.items():
                # PDOS is per atom of the whole crystal
                judge_pdos(ctx, y, edges, f, w, wt, share[sp], method, err,
                           dict(case, species=sp))
            ctx.trace()
            ctx.check(np.allclose(sum(got.values()),
                                  total.y_data.to('1/meV').magnitude,
                                  rtol=1e-9, atol=1e-12),
                      'partial DOS do not add up to the total', case)
    ctx.sample(case)


def judge_pdos(ctx, y, edges, f, w, wt, sh, method, err, case):
    mw = np.array([sh*.5, sh*.5])
    judge_dos(ctx, y, edges, f, w, .01, wt, mw, method, err, case)


def gradients(ctx, shape, err, fit):
    """widths estimated from gradients"""
    from euphonic import Quantity
    from euphonic.util import mode_gradients_to_widths
    cells = (np.diag([4., 5., 6.]), np.array([[3., 1, 0], [0, 4, 1],
                                              [-1, 0, 5.]]),
             np.array([[0., 3, 3], [3, 0, 3], [3, 3, 0]]),
             -np.diag([4., 5., 6.]))
    for cell, nq, nm, cu, gu, vec in itertools.product(
            cells, (1, 2, 8, 27), (3, 6), ('angstrom', 'bohr', 'nm'),
            ('meV*angstrom', 'hartree*bohr', 'meV*bohr', 'J*m'),
            (True, False)):
        case = dict(cell=cell, n_q=nq, n_modes=nm, cell_unit=cu,
                    gradient_unit=gu, vector=vec)
        ctx.case = case
        ctx.state(repr(case))
        g = np.sin(np.arange(nq*nm*3) + 1.).reshape(nq, nm, 3)*7
        norm = np.sqrt((g**2).sum(-1))
        c = Quantity(cell*factor('angstrom', cu), cu)
        q = Quantity(g if vec else norm, gu)
        before = q.magnitude.copy()
        r = mode_gradients_to_widths(q, c)
        ctx.transition()
        ctx.trace()
        # everything in gradient unit / angstrom
        length = abs(np.linalg.det(cell))
        e, l = gu.split('*')
        want = (2/np.cbrt(nq*length)*norm*factor(e, 'meV')
                * factor(l, 'angstrom'))
        ctx.check(r.shape == (nq, nm)
                  and np.allclose(r.to('meV').magnitude, want, rtol=1e-9)
                  and np.array_equal(q.magnitude, before),
                  'widths from gradients', case,
                  lambda: dict(got=r.to('meV').magnitude, want=want))
    for s in ((4,), (2, 3, 2), (2, 3, 3, 3)):
        ctx.transition()
        try:
            mode_gradients_to_widths(Quantity(np.ones(s), 'meV*angstrom'), c)
            ctx.fail('wrong shape accepted', s, '')
        except ValueError:
            pass
    ctx.sample(case)
