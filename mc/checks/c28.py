"""C28: plots show exactly the data of the spectrum."""
import itertools
import warnings

import numpy as np

TECHNIQUE = ('bounded-exhaustive enumeration of spectra (every pattern of '
             'repeated x-values, points/edges, panels, labels) and plot '
             'options on the real plotting code with a headless backend')
NOTE = ('The artists of every figure are read back and compared with the '
        'spectra they were made from.')
RULE = ('one state per (spectra, options); a transition is one line segment, '
        'image, tick label or axis limit checked')
ASSUMPTIONS = [
    'artists are drawn by matplotlib as it documents',
    'a one-point panel has no width to be shown to scale']

STEPS = (1., .25, 2., .5, 1.5)


def units(tier):
    n = 5 if tier == 'quick' else 6
    for k in range(1, n + 1):
        yield f'lines/{k}', dict(part='lines', n=k)
    for k in (1, 2, 3):
        for first in (None, 'a', ''):
            yield f'labels/{k}/{first}', dict(part='labels', n=k, first=first)
    for k in range(4):
        yield f'panels/{k}', dict(part='panels', first=k)
    for k in range(4 if tier == 'thorough' else 3):
        yield f'panels2d/{k}', dict(part='panels2d', first=k)
    yield 'options', dict(part='options')
    yield 'ticks', dict(part='ticks')
    for k in range(4):
        yield f'image/{k}', dict(part='image', k=k)
    yield 'split', dict(part='split')
    yield 'refused', dict(part='refused')


def run(ctx, part, **kw):
    import matplotlib
    matplotlib.use('Agg')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['part_' + part](ctx, **kw)


def unit(u):
    from euphonic import ureg
    return ureg(u)


def xs(pattern):
    """x-values: step 0 where pattern has 0"""
    x = [.5]
    for k, p in enumerate(pattern):
        x.append(x[-1] + p*STEPS[k % 5])
    return np.array(x)


def ys(lines, n, seed=0):
    return np.random.default_rng(100*lines + n + seed).uniform(-3, 9,
                                                               (lines, n))


def make_1d(x, y, labels=None, ticks=None, xu='1/angstrom', yu='meV',
            single=False, metadata=None):
    from euphonic import Spectrum1D, Spectrum1DCollection
    if single:
        meta = dict(metadata or {})
        if labels and labels[0] is not None:
            meta['label'] = labels[0]
        return Spectrum1D(x*unit(xu), y[0]*unit(yu), x_tick_labels=ticks,
                          metadata=meta)
    meta = dict(metadata or {})
    if labels is not None:
        meta['line_data'] = [{} if s is None else {'label': s}
                             for s in labels]
    return Spectrum1DCollection(x*unit(xu), y*unit(yu), x_tick_labels=ticks,
                                metadata=meta)


def frozen(s):
    return repr([(k, v.tolist() if isinstance(v, np.ndarray) else v)
                 for k, v in sorted(s.to_dict().items())])


def close(a, b, tol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol/10,
                                              equal_nan=True)


def panels_of(fig):
    return [a for a in fig.axes if a.get_frame_on()]


def frame_of(fig):
    out = [a for a in fig.axes if not a.get_frame_on()]
    return out[0] if out else None


def lines_of(s):
    from euphonic import Spectrum1D
    y = s.y_data.magnitude
    return y[None] if isinstance(s, Spectrum1D) else y


def centres(x, n):
    return (x[1:] + x[:-1])/2 if len(x) == n + 1 else x


def check_lines(ctx, case, ax, s, first=0):
    """the lines on ax from index first are those of s; returns the next"""
    x = s.x_data.magnitude
    y = lines_of(s)
    n = y.shape[1]
    xc = centres(x, n)
    if len(x) == n:
        cut = [k + 1 for k in range(n - 1) if x[k] == x[k + 1]]
    else:
        cut = None                      # bins: no rule for empty ones
    at = first
    colours = []
    for row in y:
        gx, gy, cols, marks = [], [], set(), []
        while len(gx) < n and at < len(ax.lines):
            ln = ax.lines[at]
            at += 1
            marks.append(len(gx))
            gx.extend(ln.get_xdata())
            gy.extend(ln.get_ydata())
            cols.add(ln.get_color())
        ctx.transition(len(marks))
        if not (close(gx, xc) and close(gy, row)):
            ctx.fail('a line does not show its data', case,
                     dict(x=list(map(float, gx)), y=list(map(float, gy))))
            return at
        if cut is not None and marks[1:] != cut:
            ctx.fail('line not interrupted exactly at repeated x-values',
                     case, dict(at=marks, want=cut))
        ctx.check(len(cols) == 1, 'segments of one line differ in colour',
                  case, sorted(cols))
        colours.append(min(cols))
    return at


def legend_of(ax):
    h, t = ax.get_legend_handles_labels()
    return t


def part_lines(ctx, n):
    """every pattern of repeated x-values"""
    import matplotlib.pyplot as plt
    from euphonic.plot import plot_1d, plot_1d_to_axis
    for pattern, sign in itertools.product(
            itertools.product((0, 1), repeat=n - 1), (1, -1)):
        x = sign*xs(pattern)
        for lines, single in ((1, True), (1, False), (2, False), (3, False)):
            if sign < 0 and lines == 3:
                continue
            for edges in (False, True):
                if edges:
                    xx = np.append(x, x[-1] + .7*sign)
                else:
                    xx = x
                s = make_1d(xx, ys(lines, n), single=single)
                keep = frozen(s)
                for how in ('figure', 'axis', 'again'):
                    case = dict(x=xx.tolist(), lines=lines, single=single,
                                edges=edges, how=how)
                    plt.close('all')
                    if how == 'figure':
                        fig = ctx.call(case, plot_1d, s)
                        if fig is ctx.FAILED:
                            continue
                        ax, = panels_of(fig)
                        first = 0
                    else:
                        fig, ax = plt.subplots()
                        ret = ctx.call(case, plot_1d_to_axis, s, ax)
                        if ret is ctx.FAILED:
                            continue
                        first = 0
                        if how == 'again':
                            first = len(ax.lines)
                            ctx.call(case, plot_1d_to_axis, s, ax)
                    ctx.state((tuple(xx), lines, single, how))
                    end = check_lines(ctx, case, ax, s, first)
                    ctx.check(end == len(ax.lines), 'additional lines', case,
                              [end, len(ax.lines)])
                    lo, hi = ax.get_xlim()
                    if xx.max() > xx.min():
                        ctx.check(close([lo, hi], [xx.min(), xx.max()]),
                                  'x-axis range', case, [lo, hi])
                    ctx.check(legend_of(ax) == [], 'labels from nowhere',
                              case, legend_of(ax))
                    ctx.check(frozen(s) == keep, 'plotting changed the '
                              'spectrum', case, '')
    ctx.trace()
    plt.close('all')


def part_labels(ctx, n, first):
    import matplotlib.pyplot as plt
    from euphonic.plot import plot_1d, plot_1d_to_axis
    choices = (None, 'a', '')
    for lines in (1, 2, 3):
        for meta in itertools.product(choices, repeat=lines):
            if (lines, meta[0]) != (n, first):
                continue
            args = [None] + [list(c) for c in itertools.product(
                ('b', '', 'c'), repeat=lines)]
            if lines == 1:
                args.append('b')
            for count, arg in enumerate(args):
                for pattern in ((1, 1), (0, 1), (1, 0, 1)):
                    if lines == 3 and not ctx.thorough and len(
                            pattern) != 2 + count % 2:
                        continue
                    x = xs(pattern)
                    s = make_1d(x, ys(lines, len(x)), labels=meta)
                    keep = frozen(s)
                    case = dict(meta=list(meta), labels=arg,
                                pattern=list(pattern))
                    plt.close('all')
                    fig = ctx.call(case, plot_1d, s, labels=arg)
                    if fig is ctx.FAILED:
                        continue
                    ctx.state((meta, str(arg), pattern))
                    ax, = panels_of(fig)
                    check_lines(ctx, case, ax, s)
                    want = meta if arg is None else (
                        [arg] if isinstance(arg, str) else arg)
                    want = [w for w in want if w]
                    got = legend_of(ax)
                    ctx.transition()
                    ctx.check(got == want, 'legend labels', case, got)
                    leg = ax.get_legend()
                    ctx.check((leg is not None) == bool(want),
                              'legend shown', case, '')
                    if leg is not None:
                        ctx.check([t.get_text() for t in leg.get_texts()]
                                  == want, 'legend texts', case, '')
                        # each handle has the colour of its line
                        per = len(ax.lines)//lines
                        src = meta if arg is None else (
                            [arg] if isinstance(arg, str) else arg)
                        cols = [ax.lines[i*per].get_color()
                                for i, w in enumerate(src) if w]
                        got = [h.get_color() for h in leg.get_lines()]
                        ctx.check(got == cols, 'legend colours', case, got)
                    ctx.check(frozen(s) == keep,
                              'plotting changed the spectrum', case, '')
                # wrong number of labels
    for lines, bad in itertools.product((n,), range(5)):
        if bad == lines:
            continue
        x = xs((1, 1))
        s = make_1d(x, ys(lines, 3))
        fig, ax = plt.subplots()
        ctx.state(('wrong', lines, bad))
        try:
            plot_1d_to_axis(s, ax, labels=['q']*bad)
        except ValueError:
            continue
        ctx.fail('wrong number of labels accepted', dict(lines=lines,
                                                         labels=bad), '')
    plt.close('all')
    ctx.trace()


TICKS = (None, [], [(0, 'A')], [(0, 'A'), (-1, 'long label name')],
         [(0, r'$\Gamma$'), (1, 'X'), (-1, 'Y')])


def ticks_for(t, n):
    return None if t is None else list({i % n: s for i, s in t}.items())


def check_ticks(ctx, case, ax, s):
    want = s.x_tick_labels
    if want is None:
        return
    x = s.x_data.magnitude
    got = [(float(a), b.get_text()) for a, b in zip(ax.get_xticks(),
                                                    ax.get_xticklabels())]
    want = [(float(x[i]), t) for i, t in want]
    ctx.transition(len(want))
    ctx.check(len(got) == len(want) and all(
        close(a, c) and b == d for (a, b), (c, d) in zip(got, want)),
        'tick labels', case, dict(got=got, want=want))


def check_widths(ctx, case, axes, spans):
    if min(spans) <= 0:
        return
    w = np.array([a.get_position().width for a in axes])
    ctx.check(np.allclose(w/w.sum(), np.array(spans)/sum(spans), rtol=1e-9),
              'panels are not drawn to the same scale', case, w.tolist())
    x0 = [a.get_position().x0 for a in axes]
    ctx.check(x0 == sorted(x0), 'order of panels', case, x0)


def part_panels(ctx, first):
    """one subplot per spectrum"""
    import matplotlib.pyplot as plt
    from euphonic.plot import plot_1d
    shapes = [(1, 1), (1, 0, 1), (1,), ()]
    for k in (1, 2, 3):
        for pats in itertools.product(shapes, repeat=k):
            if pats[0] != shapes[first]:
                continue
            for t in TICKS:
                for lines, single in ((1, True), (2, False)):
                    for seq in (list, tuple):
                        if seq is tuple and k == 3 and not ctx.thorough:
                            continue
                        ss = []
                        for j, p in enumerate(pats):
                            x = xs(p) + 10*j
                            ss.append(make_1d(
                                x, ys(lines, len(x), j), single=single,
                                ticks=ticks_for(t, len(x)),
                                labels=['u', 'v'][:lines]))
                        keep = [frozen(s) for s in ss]
                        case = dict(panels=[list(p) for p in pats], ticks=t,
                                    lines=lines)
                        plt.close('all')
                        fig = ctx.call(case, plot_1d, seq(ss), ymin=-5,
                                       ymax=11, title='t', xlabel='x',
                                       ylabel='y')
                        if fig is ctx.FAILED:
                            continue
                        ctx.state((pats, str(t), lines, seq.__name__))
                        axes = panels_of(fig)
                        if len(axes) != k:
                            ctx.fail('number of panels', case, len(axes))
                            continue
                        for ax, s in zip(axes, ss):
                            check_lines(ctx, case, ax, s)
                            check_ticks(ctx, case, ax, s)
                            x = s.x_data.magnitude
                            if x.max() > x.min():
                                ctx.check(close(ax.get_xlim(),
                                                [x.min(), x.max()]),
                                          'x-axis range', case, '')
                            ctx.check(close(ax.get_ylim(), [-5, 11]),
                                      'y limits', case, ax.get_ylim())
                        check_widths(ctx, case, axes, [np.ptp(
                            s.x_data.magnitude) for s in ss])
                        f = frame_of(fig)
                        ctx.check((f.get_xlabel(), f.get_ylabel(),
                                   fig._suptitle.get_text())
                                  == ('x', 'y', 't'), 'texts', case, '')
                        ctx.check([frozen(s) for s in ss] == keep,
                                  'plotting changed the spectrum', case, '')
                        ctx.check(legend_of(axes[0]) == ['u', 'v'][:lines],
                                  'legend', case, legend_of(axes[0]))
    plt.close('all')
    ctx.trace()


def part_options(ctx):
    """limits and line properties"""
    import matplotlib.pyplot as plt
    from euphonic.plot import plot_1d
    values = [None, -7., 0., 2.5, 20.]
    kws = [{}, {'linewidth': 3.5}, {'linestyle': '--', 'color': 'red'},
           {'marker': 'o', 'alpha': .5}, {'label': 'own'}]
    for lo, hi in itertools.product(values, repeat=2):
        if lo is not None and hi is not None and lo >= hi:
            continue
        for kw in kws:
            for yu in ('meV', '1/cm', 'THz'):
                for panels in (1, 2):
                    ss = [make_1d(xs((1, 0, 1)), ys(2, 4, j), yu=yu)
                          for j in range(panels)]
                    case = dict(ymin=lo, ymax=hi, kw=kw, panels=panels)
                    plt.close('all')
                    fig = ctx.call(case, plot_1d, ss, ymin=lo, ymax=hi, **kw)
                    if fig is ctx.FAILED:
                        continue
                    ctx.state((lo, hi, str(kw), yu, panels))
                    ymax = max(s.y_data.magnitude.max() for s in ss)
                    ymin = min(s.y_data.magnitude.min() for s in ss)
                    for ax, s in zip(panels_of(fig), ss):
                        check_lines(ctx, case, ax, s)
                        a, b = ax.get_ylim()
                        ctx.transition(2)
                        ctx.check(a == lo if lo is not None else True,
                                  'ymin', case, a)
                        ctx.check(b == hi if hi is not None else True,
                                  'ymax', case, b)
                        if lo is None and (hi is None or hi > ymin):
                            ctx.check(a <= ymin, 'data below the axis', case,
                                      a)
                        if hi is None and (lo is None or lo < ymax):
                            ctx.check(b >= ymax, 'data above the axis', case,
                                      b)
                        for k, v in kw.items():
                            if k == 'label':
                                continue
                            ctx.check(all(getattr(ln, 'get_' + k)() == v
                                          for ln in ax.lines),
                                      f'line property {k}', case, '')
    plt.close('all')
    ctx.trace()


def part_ticks(ctx):
    """every subset of labelled points"""
    import matplotlib.pyplot as plt
    from euphonic import Spectrum2D
    from euphonic.plot import plot_1d, plot_2d
    names = ['A', 'B1', r'$\Gamma$', 'a long label', 'E']
    for n in range(1, 6):
        for pattern in itertools.product((0, 1), repeat=n - 1):
            x = xs(pattern)
            for mask in itertools.product((0, 1), repeat=n):
                # points drawn at the same place have the same name
                t = [(i, names[list(x).index(x[i])]) for i in range(n)
                     if mask[i]]
                s = make_1d(x, ys(2, n), ticks=t)
                todo = [(plot_1d, s)]
                if all(pattern) and n > 1:
                    for e in (0, 1):
                        xe = np.append(x, x[-1] + 1) if e else x
                        todo.append((plot_2d, Spectrum2D(
                            xe*unit('1/angstrom'), np.arange(3.)*unit('meV'),
                            ys(n, 2)*unit('dimensionless'),
                            x_tick_labels=t)))
                for f, s in todo:
                    case = dict(x=x.tolist(), ticks=t, how=f.__name__)
                    plt.close('all')
                    fig = ctx.call(case, f, s)
                    if fig is ctx.FAILED:
                        continue
                    ctx.state((tuple(x), mask, f.__name__,
                               len(s.x_data)))
                    check_ticks(ctx, case, panels_of(fig)[0], s)
    plt.close('all')
    ctx.trace()


# ------------------------------------------------------------------------ 2D

def make_2d(x, y, z, ticks=None, xu='1/angstrom', yu='meV', zu='mbarn/meV'):
    from euphonic import Spectrum2D
    return Spectrum2D(x*unit(xu), y*unit(yu), z*unit(zu), x_tick_labels=ticks)


def edges_for(x, n):
    """bin edges: half way, and no further than the first and last point"""
    if len(x) == n + 1:
        return x
    mid = (x[1:] + x[:-1])/2
    return np.concatenate(([x[0]], mid, [x[-1]]))


def check_image(ctx, case, ax, s, factor=1.):
    # matplotlib keeps image coordinates in single precision
    im = ax.images[0]
    z = s.z_data.magnitude*factor
    got = np.ma.filled(im.get_array().astype(float), np.nan)
    x, y = s.x_data.magnitude, s.y_data.magnitude
    ctx.transition(3)
    ctx.check(close(got, z.T), 'the image does not show its data', case,
              got.tolist())
    ctx.check(close(im._Ax, centres(x, z.shape[0]), 1e-6)
              and close(im._Ay, centres(y, z.shape[1]), 1e-6),
              'the image is not at its coordinates', case,
              [im._Ax.tolist(), im._Ay.tolist()])
    ex, ey = edges_for(x, z.shape[0]), edges_for(y, z.shape[1])
    ctx.check(close(ax.get_xlim(), [ex.min(), ex.max()])
              and close(ax.get_ylim(), [ey.min(), ey.max()], 1e-6),
              'axis range', case, [ax.get_xlim(), ax.get_ylim()])
    ctx.check(len(ax.images) == 1, 'number of images', case, len(ax.images))
    return im


def part_image(ctx, k):
    import matplotlib.pyplot as plt
    from matplotlib.colors import Normalize
    from euphonic.plot import plot_2d, plot_2d_to_axis
    nx, ny = [(2, 2), (3, 4), (4, 1), (1, 3)][k]
    x = np.cumsum([.3] + [STEPS[i] for i in range(nx)])
    y = np.cumsum([-1.] + [STEPS[(i + 2) % 5] for i in range(ny)])
    for ex, ey in itertools.product((0, 1), repeat=2):
        if (nx == 1 and not ex) or (ny == 1 and not ey):
            continue
        for values in ('any', 'nan', 'negative', 'constant', 'zero'):
            z = ys(nx, ny)
            if values == 'nan':
                z[0, 0] = np.nan
            elif values == 'negative':
                z = -abs(z)
            elif values == 'constant':
                z = 0*z + 2
            elif values == 'zero':
                z = 0*z
            s = make_2d(x[:nx + ex], y[:ny + ey], z)
            keep = frozen(s)
            for vmin, vmax in itertools.product((None, 0, -2., 3.5),
                                                (None, 0, 3.5, 8.)):
                lo = np.nanmin(z) if vmin is None else vmin
                hi = np.nanmax(z) if vmax is None else vmax
                for cmap in (None, 'bone'):
                    case = dict(shape=[nx, ny], edges=[ex, ey],
                                values=values, vmin=vmin, vmax=vmax,
                                cmap=cmap)
                    plt.close('all')
                    fig = ctx.call(case, plot_2d, s, vmin=vmin, vmax=vmax,
                                   cmap=cmap, title='t', xlabel='x',
                                   ylabel='y')
                    if fig is ctx.FAILED:
                        continue
                    ctx.state((nx, ny, ex, ey, values, vmin, vmax, cmap))
                    ax, = panels_of(fig)
                    im = check_image(ctx, case, ax, s)
                    ctx.check(close(im.get_clim(), [lo, hi]), 'colour limits',
                              case, im.get_clim())
                    if cmap:
                        ctx.check(im.get_cmap().name == cmap, 'colour map',
                                  case, im.get_cmap().name)
                    f = frame_of(fig)
                    ctx.check((f.get_xlabel(), f.get_ylabel(),
                               fig._suptitle.get_text()) == ('x', 'y', 't'),
                              'texts', case, '')
            for interp, norm in itertools.product(
                    ('nearest', 'bilinear'), (None, Normalize(-1, 4))):
                case = dict(shape=[nx, ny], edges=[ex, ey], values=values,
                            interpolation=interp, norm=norm is not None)
                plt.close('all')
                fig, ax = plt.subplots()
                im = ctx.call(case, plot_2d_to_axis, s, ax,
                              interpolation=interp, norm=norm)
                if im is ctx.FAILED:
                    continue
                ctx.state((nx, ny, ex, ey, values, interp, norm is None))
                check_image(ctx, case, ax, s)
                ctx.check(im is ax.images[0], 'returned image', case, '')
                ctx.check(im.get_interpolation() == interp, 'interpolation',
                          case, im.get_interpolation())
                if norm is not None:
                    ctx.check(im.norm is norm, 'norm', case, '')
            ctx.check(frozen(s) == keep, 'plotting changed the spectrum',
                      dict(values=values), '')
    plt.close('all')
    ctx.trace()


def part_panels2d(ctx, first):
    """several maps: one colour scale, one energy axis"""
    import matplotlib.pyplot as plt
    from euphonic import ureg
    from euphonic.plot import plot_2d
    for k in (1, 2, 3):
        for nxs in itertools.product((2, 1, 3, 4)[
                :4 if ctx.thorough else 3], repeat=k):
            if nxs[0] != (2, 1, 3, 4)[first]:
                continue
            for zus in itertools.product(('mbarn/meV', 'barn/meV'),
                                         repeat=k):
                for edges in (0, 1):
                    if not edges and 1 in nxs:
                        continue
                    for t in TICKS:
                        if len(set(zus)) > 1 and t is not None:
                            continue
                        if k == 3 and t is not TICKS[sum(nxs) % 5] \
                                and not ctx.thorough:
                            continue
                        ss = []
                        for j, nx in enumerate(nxs):
                            x = 7*j + np.arange(nx + edges)*(1. + j)
                            ss.append(make_2d(
                                x, np.arange(4.), ys(nx, 3, j), zu=zus[j],
                                ticks=ticks_for(t, len(x))))
                        keep = [frozen(s) for s in ss]
                        case = dict(nx=list(nxs), units=list(zus),
                                    edges=edges, ticks=t)
                        mixed = len(set(zus)) > 1
                        plt.close('all')
                        if mixed:
                            try:
                                fig = plot_2d(ss)
                            except ValueError:
                                ctx.state((nxs, zus, edges, str(t)))
                                continue
                        else:
                            fig = ctx.call(case, plot_2d, ss)
                            if fig is ctx.FAILED:
                                continue
                        ctx.state((nxs, zus, edges, str(t)))
                        axes = panels_of(fig)
                        if len(axes) != k:
                            ctx.fail('number of panels', case, len(axes))
                            continue
                        # every image on the scale of the colour limits
                        fac = [ureg(zu).to(zus[0]).magnitude for zu in zus]
                        allz = np.concatenate([
                            f*s.z_data.magnitude.ravel()
                            for f, s in zip(fac, ss)])
                        clims = []
                        for ax, s, f in zip(axes, ss, fac):
                            # relative to the limits it is drawn with
                            im = ax.images[0]
                            lo, hi = im.get_clim()
                            got = (im.get_array() - lo)/(hi - lo)
                            want = (f*s.z_data.magnitude.T - allz.min())/(
                                allz.max() - allz.min())
                            ctx.transition()
                            ctx.check(close(got, want), 'the colours do not '
                                      'show the intensities', case,
                                      im.get_clim())
                            if not mixed:
                                check_image(ctx, case, ax, s)
                            check_ticks(ctx, case, ax, s)
                        spans = [s.x_data.magnitude[-1]
                                 - s.x_data.magnitude[0] for s in ss]
                        check_widths(ctx, case, axes, spans)
                        ctx.check([frozen(s) for s in ss] == keep,
                                  'plotting changed the spectrum', case, '')
    plt.close('all')
    ctx.trace()


def part_split(ctx):
    """everything that split() returns can be drawn, and shows the whole"""
    import matplotlib.pyplot as plt
    from euphonic import Spectrum2D
    from euphonic.plot import plot_1d, plot_2d
    n = 5
    x = xs((1,)*(n - 1))
    for k in range(3):
        for idx in itertools.combinations(range(1, n), k):
            for t in TICKS:
                s = make_1d(x, ys(2, n), ticks=ticks_for(t, n))
                s2 = Spectrum2D(x*unit('1/angstrom'),
                                np.arange(4.)*unit('meV'),
                                ys(n, 3)*unit('mbarn'),
                                x_tick_labels=ticks_for(t, n))
                for what, f in ((s, plot_1d), (s2, plot_2d)):
                    case = dict(indices=list(idx), ticks=t, how=f.__name__)
                    if f is plot_2d and any(
                            b - a < 2 for a, b in zip((0,) + idx,
                                                      idx + (n,))):
                        continue        # maps of one point have no width
                    plt.close('all')
                    parts = what.split(indices=list(idx))
                    fig = ctx.call(case, f, parts)
                    if fig is ctx.FAILED:
                        continue
                    ctx.state((idx, str(t), f.__name__))
                    axes = panels_of(fig)
                    if len(axes) != len(parts):
                        ctx.fail('number of panels', case, len(axes))
                        continue
                    for ax, p in zip(axes, parts):
                        check_ticks(ctx, case, ax, p)
                        if f is plot_1d:
                            check_lines(ctx, case, ax, p)
                        else:
                            check_image(ctx, case, ax, p)
    plt.close('all')
    ctx.trace()


def part_refused(ctx):
    """panels in different units are refused (their axes are shared)"""
    import matplotlib.pyplot as plt
    from euphonic.plot import plot_1d, plot_2d, plot_1d_to_axis
    xus, yus = ('1/angstrom', '1/bohr'), ('meV', 'THz', 'hartree')
    x = np.arange(4.)
    for (xa, ya), (xb, yb), k in itertools.product(
            itertools.product(xus, yus), itertools.product(xus, yus),
            (1, 2)):
        a = make_1d(x, ys(2, 4), xu=xa, yu=ya)
        b = make_1d(x, ys(2, 4), xu=xb, yu=yb)
        ss = [a]*k + [b]
        case = dict(a=[xa, ya], b=[xb, yb], k=k)
        ctx.state(('1d', xa, ya, xb, yb, k))
        ctx.transition()
        try:
            plot_1d(ss)
            ok = True
        except ValueError:
            ok = False
        ctx.check(ok == ((xa, ya) == (xb, yb)), 'units of the panels', case,
                  ok)
        z = ys(4, 4)
        a2 = make_2d(x, x, z, xu=xa, yu=ya)
        b2 = make_2d(x, x, z, xu=xb, yu=yb)
        case = dict(a=[xa, ya], b=[xb, yb], k=k, map=True)
        ctx.state(('2d', xa, ya, xb, yb, k))
        plt.close('all')
        try:
            fig = plot_2d([a2]*k + [b2])
        except ValueError:
            ctx.check((xa, ya) != (xb, yb), 'refused', case, '')
            continue
        # otherwise all panels must be drawn in one unit: y is shared
        axes = panels_of(fig)
        im = axes[-1].images[0]
        ctx.check(close(im._Ay, b2.y_data.to(ya).magnitude, 1e-6)
                  and close(im._Ax, b2.x_data.to(xa).magnitude, 1e-6)
                  and close(im._Ax[[0, -1]], axes[-1].get_xlim(), 1e-6),
                  'panels share an axis but not its unit', case,
                  [im._Ax.tolist(), im._Ay.tolist()])
        ya_range = [min(0, b2.y_data.to(ya).magnitude.min()),
                    max(3, b2.y_data.to(ya).magnitude.max())]
        ctx.check(close(axes[-1].get_ylim(), ya_range, 1e-6),
                  'a panel is cut off by the shared axis', case,
                  [axes[-1].get_ylim(), ya_range])
        spans = [3.]*k + [np.ptp(b2.x_data.to(xa).magnitude)]
        check_widths(ctx, case, axes, spans)
    for bad in (3, 'x', None, np.arange(3), [1, 2]):
        fig, ax = plt.subplots()
        ctx.state(('bad', str(bad)))
        try:
            plot_1d_to_axis(bad, ax)
        except TypeError:
            continue
        ctx.fail('not a spectrum', dict(what=str(bad)), '')
    plt.close('all')
    ctx.trace()
