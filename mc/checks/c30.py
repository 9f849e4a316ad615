"""C30: the tools which tune calculations (dipole parameter, Brille grids)."""
import contextlib
import io
import itertools
import os
import re
import shutil
import tempfile
import time
import warnings

import numpy as np

from mc import cover

TECHNIQUE = ('exhaustive enumeration of the histories of a controlled clock '
             '(every assignment of durations to the timed calls) and of option '
             'combinations (every combination of the values of any 3 options, '
             'thorough: any 4) on the real command line entry points, compared '
             'with independently written library calls')
NOTE = ('The optimiser runs with a clock that only advances inside the timed '
        'calls, by each possible duration in turn; the convergence tool runs '
        'with the real Brille and every line of every figure is read back.')
RULE = ('one state per (options, history of the clock) or per option '
        'combination; a transition is one timed call or one compared line')
ASSUMPTIONS = ['time is read from the standard time module',
               'the frequencies of the q-points used for the comparison are '
               'non-zero except at gamma']
UNIT_TIMEOUT = {'quick': 400, 'thorough': 3000}
T = {'quick': 3, 'thorough': 4}
E = {None: 1., 'meV': 1., '1/cm': 8., 'THz': .25}
CONV = dict(
    input=['fc', 'fcborn', 'fctric'], unit=[None, '1/cm', 'THz'],
    npts=['4', '7'], grids=[('--brille-npts', '20'),
                            ('--brille-npts', '15', '40'),
                            ('--brille-npts-density', '25'),
                            ('--brille-npts-density', '40', '20', '50')],
    kind=[None, 'trellis', 'mesh', 'nest'], n=[None, '1', '3'],
    ebins=[None, '20'], emin=[None, -2., 0., 3.], emax=[None, 14.],
    eb=[None, (1.5,), (1.2, .05)], shape=[None, 'lorentz'],
    asr=[None, '', 'realspace'], dipole=[None, '0.7'],
    c=[None, '--use-c', '--disable-c'], threads=[None, '1', '2'])
PARTS = 8


def units(tier):
    more = 1 if tier == 'quick' else 6
    for k in range(PARTS*more):
        yield f'convergence/{k}', dict(part='convergence', k=k, of=PARTS*more)
    for k in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        yield f'clock/{k}', dict(part='clock', k=k)
    yield 'optimise', dict(part='optimise')
    yield 'invalid', dict(part='invalid')


def run(ctx, part, **kw):
    import matplotlib
    matplotlib.use('Agg')
    d = tempfile.mkdtemp(prefix='c30')
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            globals()['part_' + part](ctx, d, **kw)
    finally:
        shutil.rmtree(d)


def inputs(d):
    from mc.checks import c27
    with contextlib.redirect_stdout(io.StringIO()):
        paths, _ = c27.write_inputs(d)
    return paths


# --------------------------------------------------------- dipole parameter

CLOCKS = ('time', 'perf_counter', 'monotonic', 'process_time', 'thread_time',
          'time_ns', 'perf_counter_ns', 'monotonic_ns', 'process_time_ns',
          'thread_time_ns')


@contextlib.contextmanager
def controlled(durations, calls, work=False):
    """a clock that advances by the given durations inside the calculations"""
    from euphonic import ForceConstants
    from euphonic.cli import optimise_dipole_parameter as tool
    now, named = [1000.], {}
    real = ForceConstants.calculate_qpoint_phonon_modes
    kept = {c: getattr(time, c) for c in CLOCKS}
    # clocks imported by name
    for k, v in list(vars(tool).items()):
        for c in CLOCKS:
            if v is kept[c]:
                named[k] = v
                setattr(tool, k, lambda c=c: getattr(time, c)())
    todo = iter(durations)

    def calculate(self, qpts, *args, **kwargs):
        calls.append((np.array(qpts), args, kwargs))
        out = real(self, qpts, *args, **kwargs) if work else None
        now[0] += next(todo)
        return out
    for c in CLOCKS:
        setattr(time, c, (lambda: int(round(now[0]*1e9))) if c[-3:] == '_ns'
                else (lambda: now[0]))
    ForceConstants.calculate_qpoint_phonon_modes = calculate
    try:
        yield
    finally:
        ForceConstants.calculate_qpoint_phonon_modes = real
        for c, f in kept.items():
            setattr(time, c, f)
        for c, f in named.items():
            setattr(tool, c, f)


def steps(lo, hi, step):
    """lo, lo + step ... up to and including hi"""
    out = []
    k = 0
    while lo + k*step <= hi + 1e-9*max(1, abs(hi)):
        out.append(lo + k*step)
        k += 1
    return out


def part_clock(ctx, d, k):
    """every history of the clock for k parameters"""
    from euphonic.cli import optimise_dipole_parameter as tool
    path = inputs(d)['fcborn']
    values = (.5, 2., 8.) if k < 4 else (.5, 2.)
    for durations in itertools.product(values, repeat=2*k):
        if k == 3 and not ctx.thorough and len(set(durations[::2])) > 2:
            continue
        case = dict(parameters=k, durations=durations)
        ctx.case = case
        ctx.state(durations)
        n = 4
        calls = []
        with controlled(durations, calls), contextlib.redirect_stdout(
                io.StringIO()):
            ret = ctx.call(case, tool.calculate_optimum_dipole_parameter, path,
                           dipole_parameter_min=.5,
                           dipole_parameter_max=.5 + .25*(k - 1),
                           dipole_parameter_step=.25, n=n)
        if ret is ctx.FAILED:
            continue
        ctx.transition(2*k)
        ctx.trace()
        if not ctx.check(len(calls) == 2*k and len(ret) == 6,
                         'number of timed calculations', case, len(calls)):
            continue
        want = steps(.5, .5 + .25*(k - 1), .25)
        first, second = durations[::2], durations[1::2]
        # the n q-points are timed by the second of each pair of calls
        per = [t/n for t in second]
        opt, t_opt, per_opt, tested, t_init, t_per = ret
        ctx.check(np.allclose(tested, want), 'parameters tested', case, tested)
        ctx.check(np.allclose(t_init, first), 'times of the initialisation',
                  case, t_init)
        ctx.check(np.allclose(t_per, per), 'times per q-point', case, t_per)
        i = [j for j in range(k) if np.isclose(want[j], opt)]
        ctx.check(len(i) == 1 and np.isclose(per[i[0]], min(per))
                  and np.isclose(per_opt, per[i[0]])
                  and np.isclose(t_opt, first[i[0]]),
                  'the parameter suggested is not the fastest per q-point, or '
                  'its times are those of another', case,
                  lambda: [opt, t_opt, per_opt])
        ctx.outcome((tuple(i), second))
    ctx.sample(ctx.case)


def part_optimise(ctx, d):
    """options of the optimiser; its report"""
    from euphonic.cli import optimise_dipole_parameter as tool
    paths = inputs(d)
    ranges = [(None, None, None), ('0.5', '1', '0.25'), ('0.3', '0.9', '0.2'),
              ('0.25', '0.25', '0.1'), ('1', '2', '0.4'), ('0.1', '0.7', '0.1')]
    opts = dict(input=['fcborn', 'fc', 'fctric'], range=ranges,
                n=[None, '1', '3'], asr=[None, '', 'realspace'],
                c=[None, '--use-c', '--disable-c'], threads=[None, '1', '2'])
    for o in cover.rows(opts, 3):
        a = [paths[o['input']]]
        for flag, x in zip(('min', 'max', 'step'), o['range']):
            a += [f'--dipole-parameter-{flag}', x] if x else []
        a += ['-n', o['n']] if o['n'] else []
        a += ['--asr'] + [o['asr']]*bool(o['asr']) \
            if o['asr'] is not None else []
        a += [o['c']] if o['c'] else []
        a += ['--n-threads', o['threads']] if o['threads'] else []
        case = dict(argv=[os.path.basename(a[0])] + a[1:])
        ctx.case = case
        ctx.state(tuple(case['argv']))
        lo, hi, step = [float(x) if x else y for x, y in zip(
            o['range'], (.25, 1.5, .25))]
        want = steps(lo, hi, step)
        durations = [[.25, 1., .5, 2.][(j*j + len(want)) % 4] + .01*j
                     for j in range(2*len(want))]
        calls = []
        text = io.StringIO()
        # the calculations are only made in the small cases
        work = o['n'] in ('1', '3') and len(want) < 5
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            with controlled(durations, calls, work), \
                    contextlib.redirect_stdout(text):
                ok = ctx.call(case, tool.main, a)
        ctx.trace()
        if ok is ctx.FAILED:
            continue
        ctx.check(any('born' in str(x.message).lower() for x in w)
                  == (o['input'] != 'fcborn'),
                  'warning about missing Born charges', case)
        n = int(o['n'] or 500)
        if not ctx.check(len(calls) == 2*len(want),
                         'number of timed calculations', case, len(calls)):
            continue
        asr = 'reciprocal' if o['asr'] == '' else o['asr']
        for j, (q, args, kw) in enumerate(calls):
            ctx.transition()
            kw = dict(kw)
            ctx.check(len(q) == (1 if j % 2 == 0 else n),
                      'number of q-points timed', case, len(q))
            ctx.check(np.isclose(kw.get('dipole_parameter', -1), want[j//2]),
                      'dipole parameter of a timed calculation', case, kw)
            ctx.check(kw.get('asr') == asr, 'asr', case, kw)
            ctx.check(kw.get('use_c') == {None: None, '--use-c': True,
                                          '--disable-c': False}[o['c']],
                      'use of C', case, kw)
            ctx.check(kw.get('n_threads') == (
                int(o['threads']) if o['threads'] else None), 'threads', case,
                kw)
            if j % 2:
                ctx.check(len(np.unique(q, axis=0)) == n
                          or kw.get('reduce_qpts', True) is False,
                          'equal q-points are only calculated once', case)
        per = [t/n for t in durations[1::2]]
        best = int(np.argmin(per))
        # report
        lines = text.getvalue()
        nums = [[float(x) for x in re.findall(r'[-+]?\d+\.\d+', ln)]
                for ln in lines.split('\n')]
        got = [x for ln in nums for x in ln]
        exp = []
        for p, t, s in zip(want, durations[::2], per):
            exp += [p, t, s*1000]
        exp += [want[best], durations[2*best], per[best]*1000]
        ctx.check(len(got) == len(exp) and np.allclose(got, exp, rtol=0,
                                                       atol=.00501),
                  'report of the times', case,
                  lambda: dict(got=got, expected=exp))
        ctx.outcome((best, len(want)))
    ctx.sample(ctx.case)


# -------------------------------------------------------------- convergence

def conv_argv(o, paths):
    e = E[o['unit']]
    a = [paths[o['input']], '--npts', o['npts'], *o['grids']]
    if o['unit']:
        a += ['--energy-unit', o['unit']]
    if o['kind']:
        a += ['--brille-grid-type', o['kind']]
    a += ['-n', o['n']] if o['n'] else []
    a += ['--ebins', o['ebins']] if o['ebins'] else []
    for k in ('emin', 'emax'):
        if o[k] is not None:
            a += [f'--e-{k[1:]}={o[k]*e:.6g}']
    if o['eb']:
        a += ['--energy-broadening'] + [f'{x*e**(1 - k):.9g}'
                                        for k, x in enumerate(o['eb'])]
    a += ['--shape', o['shape']] if o['shape'] else []
    a += ['--asr'] + [o['asr']]*bool(o['asr']) if o['asr'] is not None else []
    a += ['--dipole-parameter', o['dipole']] if o['dipole'] else []
    a += [o['c']] if o['c'] else []
    return a + (['--n-threads', o['threads']] if o['threads'] else [])


def recurrence(n):
    """quasirandom points: multiples of powers of the inverse of the plastic
    number of order 3 (Roberts)"""
    g = 1.
    for _ in range(200):
        g = (1 + g)**(1/4)
    a = np.array([1/g, 1/g**2, 1/g**3])
    return (np.arange(n)[:, None]*a) % 1


def lines_of(ax):
    return [tuple(np.array(x, float) for x in (
        ln.get_data_3d() if hasattr(ln, 'get_data_3d') else ln.get_data()))
        for ln in ax.lines]


def part_convergence(ctx, d, k, of):
    import matplotlib.pyplot as plt
    from euphonic import ForceConstants, Spectrum1D, ureg
    from euphonic.brille import BrilleInterpolator
    from euphonic.cli import brille_convergence as tool
    paths = inputs(d)
    rows = cover.rows(CONV, T['thorough' if ctx.thorough else 'quick'])
    make = BrilleInterpolator.from_force_constants
    made = []

    def record(cls, *args, **kwargs):
        out = make(*args, **kwargs)
        made.append((out, args, dict(kwargs)))
        return out
    BrilleInterpolator.from_force_constants = classmethod(record)
    show, plt.show = plt.show, lambda *a, **k: None
    for i, o in enumerate(rows):
        if i % of != k:
            continue
        argv = conv_argv(o, paths)
        case = dict(argv=[os.path.basename(argv[0])] + argv[1:])
        ctx.case = case
        ctx.state(tuple(case['argv']))
        made.clear()
        plt.close('all')
        with contextlib.redirect_stdout(io.StringIO()):
            if ctx.call(case, tool.main, argv) is ctx.FAILED:
                continue
        ctx.trace()
        figs = [plt.figure(j) for j in plt.get_fignums()]
        unit = o['unit'] or 'meV'
        asr = 'reciprocal' if o['asr'] == '' else o['asr']
        calc = dict(asr=asr)
        if o['dipole']:
            calc['dipole_parameter'] = float(o['dipole'])
        if o['c']:
            calc['use_c'] = o['c'] == '--use-c'
        if o['threads']:
            calc['n_threads'] = int(o['threads'])
        fc = ForceConstants.from_json_file(argv[0])
        q = recurrence(int(o['npts']))
        modes = fc.calculate_qpoint_phonon_modes(q, **calc)
        modes.frequencies_unit = unit
        sizes = [int(x) for x in o['grids'][1:]]
        n = int(o['n'] or 0)
        if not ctx.check(len(made) == len(sizes) and len(figs) == 3 + n,
                         'number of grids or figures', case,
                         [len(made), len(figs)]):
            continue
        # the grids
        key = 'grid_density' if 'density' in o['grids'][0] else 'grid_npts'
        for (interp, args, kw), size in zip(made, sizes):
            with contextlib.redirect_stdout(io.StringIO()):
                same = make(fc, grid_type=o['kind'] or 'trellis',
                            interpolation_kwargs=calc, **{key: size})
            ok = (type(interp._grid) is type(same._grid)
                  and np.array_equal(interp._grid.rlu, same._grid.rlu)
                  and np.allclose(interp._grid.values, same._grid.values,
                                  rtol=1e-9, atol=1e-12))
            ctx.check(ok, 'grid is not the one asked for', case, lambda: [
                len(interp._grid.rlu), len(same._grid.rlu)])
        th = {} if not o['threads'] else dict(
            useparallel=int(o['threads']) > 1, threads=int(o['threads']))
        inter = []
        for interp, _, _ in made:
            m = interp.calculate_qpoint_phonon_modes(q, **th)
            m.frequencies_unit = unit
            inter.append(m)
        # bins: those of the figure, checked for the range
        e = E[o['unit']]
        nb = int(o['ebins'] or 200)
        avg = lines_of(figs[2].axes[0])
        centres = avg[0][0]
        f = modes.frequencies.magnitude
        if not ctx.check(len(centres) == nb, 'number of bins', case,
                         len(centres)):
            continue
        width = (centres[-1] - centres[0])/(nb - 1)
        edges = np.linspace(centres[0] - width/2, centres[-1] + width/2,
                            nb + 1)
        if o['emin'] is not None:
            ctx.check(abs(edges[0] - o['emin']*e) < 1e-5*e, 'start of the '
                      'energy range', case, edges[0])
        if o['emax'] is not None:
            ctx.check(abs(edges[-1] - o['emax']*e) < 1e-5*e, 'end of the '
                      'energy range', case, edges[-1])
        else:
            ctx.check(edges[-1] >= f.max(), 'energy range too short', case,
                      edges[-1])
        bins = edges*ureg(unit)
        sf = modes.calculate_structure_factor()
        isf = [m.calculate_structure_factor() for m in inter]

        def widths():
            c = [x*e**(1 - j) for j, x in enumerate(o['eb'])]
            if len(c) == 1:
                return c[0]*ureg(unit)
            return lambda x: sum(a*x.to(unit).magnitude**j
                                 for j, a in enumerate(c))*ureg(unit)

        def average(s):
            out = s.calculate_1d_average(bins)
            if o['eb']:
                out = out.broaden(widths(), shape=o['shape'] or 'gauss')
            return out.y_data.magnitude

        def sqw(s):
            out = s.calculate_sqw_map(bins)
            if o['eb']:
                out = out.broaden(y_width=widths(), shape=o['shape']
                                  or 'gauss')
            return out.z_data.magnitude
        flat = f.flatten()
        want = [[(flat, (m.frequencies.magnitude - f).flatten())
                 for m in inter]]
        s0 = sf.structure_factors.magnitude
        want.append([(flat, s0.flatten(),
                      (s.structure_factors.magnitude - s0).flatten())
                     for s in isf])
        a0, ai = average(sf), [average(s) for s in isf]
        want.append([[(centres, a0)] + [(centres, a) for a in ai],
                     [(centres, a - a0) for a in ai]])
        if n:
            m0, mi = sqw(sf), [sqw(s) for s in isf]
            for j in range(1, n + 1):
                want.append([[(centres, m0[j])] + [(centres, a[j])
                                                   for a in mi],
                             [(centres, a[j] - m0[j]) for a in mi]])
        good = True
        for nf, (fig, w) in enumerate(zip(figs, want)):
            axes = [a for a in fig.axes if a.lines]
            for ax, ws in zip(axes, w if nf > 1 else [w]):
                got = lines_of(ax)
                ctx.transition(len(ws))
                good &= ctx.check(
                    len(axes) == (2 if nf > 1 else 1)
                    and len(got) == len(ws), 'number of lines', case,
                    lambda: [nf, len(got), len(ws)])
                for g, x in zip(got, ws):
                    for u, v in zip(g, x):
                        tol = 1e-7*max(np.nanmax(np.abs(v), initial=0),
                                       np.nanmax(np.abs(f)) if nf == 0
                                       else 1e-10)
                        if nf > 1 and v is not centres:
                            # differences of spectra: of the spectra's scale
                            tol = max(tol, 1e-6*np.abs(w[0][0][1]).max())
                        elif nf == 1:
                            tol = max(tol, 1e-6*np.abs(s0).max())
                        good &= ctx.check(
                            u.shape == v.shape and np.allclose(
                                u, v, rtol=0, atol=tol, equal_nan=True),
                            'line of a figure is not that of the library',
                            case, lambda: dict(figure=nf, got=u, expected=v))
            if nf > 2:
                title = fig._suptitle.get_text()
                ctx.check(str(np.round(q[nf - 2], 4)) in title,
                          'q-point of the title', case, title)
        # legends: number of points (density) of each grid
        labels = [f'{len(m[0]._grid.rlu)} (' for m in made]
        for nf, fig in enumerate(figs):
            ax = [a for a in fig.axes if a.lines][0]
            leg = ax.get_legend()
            texts = [t.get_text() for t in leg.get_texts()]
            ctx.check(len(texts) == len(labels) and all(
                t.startswith(x) for t, x in zip(texts, labels)),
                'legend', case, lambda: [nf, texts, labels])
        ctx.outcome((o['kind'], len(sizes), n, good))
    plt.show = show
    BrilleInterpolator.from_force_constants = make
    ctx.sample(ctx.case)


def part_invalid(ctx, d):
    """what these tools must refuse"""
    import matplotlib.pyplot as plt
    from euphonic.cli import brille_convergence, optimise_dipole_parameter
    paths = inputs(d)
    plt.show = lambda *a, **k: None
    tools = {'convergence': (brille_convergence.main,
                             ['--npts', '3', '--brille-npts', '10']),
             'optimise': (optimise_dipole_parameter.main, ['-n', '1'])}
    bad = {'convergence': [['--brille-grid-type', 'box'], ['--shape', 'box'],
                           ['--npts', 'x'], ['--brille-npts', '1.5'],
                           ['--asr', 'none'], ['--energy-unit', 'kg'],
                           ['--use-c', '--disable-c'], ['--nonsense']],
           'optimise': [['--asr', 'none'], ['-n', 'x'],
                        ['--dipole-parameter-min', 'a'],
                        ['--use-c', '--disable-c'], ['--nonsense']]}
    for name, (main, base) in tools.items():
        todo = [(paths['fcborn'], b, False) for b in bad[name]]
        todo += [(paths[p], [], False) for p in ('modes', 'freqs', 'phonon')]
        todo += [(os.path.join(d, 'absent.json'), [], False)]
        todo += [(paths['fcborn'], [], True)]
        for path, extra, ok in todo:
            case = dict(tool=name, file=os.path.basename(path), options=extra)
            ctx.case = case
            ctx.state((name, case['file'], tuple(extra)))
            ctx.transition()
            ctx.trace()
            try:
                with contextlib.redirect_stdout(io.StringIO()), \
                        contextlib.redirect_stderr(io.StringIO()):
                    main([path] + base + extra)
                got = True
            except (Exception, SystemExit):
                got = False
            ctx.check(got == ok, 'accepted' if got else 'refused', case)
            ctx.outcome((name, got))
    ctx.sample(ctx.case)
