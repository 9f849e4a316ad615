"""C27: the command-line tools against the library."""
import contextlib
import functools
import io
import itertools
import json
import os
import shutil
import sys
import tempfile
import warnings

import numpy as np

from mc import cover, gen
from mc import castepfile as cf

TECHNIQUE = ('enumeration of option combinations (every combination of the '
             'values of any 3 options, thorough: any 4) on the real command '
             'line entry points, compared with independently written sequences '
             'of library calls')
NOTE = ('Each tool is run through its main() with a headless backend; the '
        'saved .json and the figure are compared with what the documented '
        'library calls give for the same options.')
RULE = ('one state per (tool, option values); a transition is one comparison '
        'of a spectrum, a line, an image or a tick label')
ASSUMPTIONS = [
    'the default energy range is an implementation detail, but must cover '
    'the frequencies of the modes used for it',
    'options that do not concern the kind of input given may be ignored',
    'seekpath gives the band path']
UNIT_TIMEOUT = {'quick': 300, 'thorough': 3000}
T = {'quick': 3, 'thorough': 4}

E = {None: 1., '1/cm': 8., 'THz': .25, 'eV': 1e-3}      # per meV, about
INPUTS = ('fc', 'fcborn', 'fctric', 'modes', 'freqs', 'phonon')

DISPERSION = dict(
    input=INPUTS, unit=[None, '1/cm', 'THz'],
    asr=[None, '', 'realspace'], reorder=[0, 1], qspacing=['0.1', '0.35', '2'],
    length=[None, 'bohr', 'nm'], emin=[None, -3., 0., 2.], emax=[None, 14.],
    btol=[None, '2'], c=[None, '--use-c', '--disable-c'], threads=[None, '2'],
    dipole=[None, '0.7'], text=[0, 1])
DOS = dict(
    input=INPUTS, unit=[None, '1/cm', 'THz'],
    grid=[(1, 2, 2), ('0.9', None), ('0.5', 'bohr')], ebins=[None, '30'],
    emin=[None, -2., 0., 3.], emax=[None, 14.],
    adaptive=[None, (), ('--adaptive-method', 'fast'),
              ('--adaptive-method', 'fast', '--adaptive-error', '0.05',
               '--adaptive-fit', 'cheby-log')],
    ascale=[None, '1.7'], eb=[None, (1.5,), (1.2, .05)],
    inst=[None, (1.1,), (1.4, .04)], shape=[None, 'lorentz'],
    weighting=[None, 'coherent-dos', 'incoherent-dos',
               'coherent-plus-incoherent-dos'],
    pdos=[None, (), 'second', 'both'], scale=[None, '2.5'],
    asr=[None, 'reciprocal'])
INTENSITY = dict(
    input=INPUTS, unit=[None, '1/cm', 'THz'], weighting=[None, 'coherent'],
    temperature=[None, '0', '300'], grid=[None, (2, 1, 2), ('0.9',)],
    qspacing=['0.1', '0.4', '1.5'], length=[None, 'bohr'], qb=[None, '0.2'],
    eb=[None, (1.5,), (1.2, .05)], shape=[None, 'lorentz'],
    ebins=[None, '25'], emin=[None, -2., 0., 3.], emax=[None, 14.],
    scale=[None, '-3'], btol=[None, '2'], v=[0, 1, 2], asr=[None, 'realspace'])
POWDER = dict(
    input=['fc', 'fcborn', 'fctric', 'modes'], unit=[None, '1/cm', 'THz'],
    weighting=[None, 'coherent-dos', 'incoherent-dos',
               'coherent-plus-incoherent-dos', 'coherent'],
    pdos=[None, 'second'], temperature=[None, '300'],
    grid=[None, (2, 1, 2), ('0.9',)],
    q=[('0', '2', '0.4'), ('0.5', '1.7', '0.25')], length=[None, 'bohr'],
    npts=[('--npts', '7'), ('--npts-density', '4', '--npts-min', '3',
                            '--npts-max', '9')],
    sampling=[None, 'sphere-projected-grid', 'spherical-polar-grid',
              'spherical-polar-improved', 'random-sphere'],
    jitter=[0, 1], qb=[None, (.3,), (.2, .05)],
    eb=[None, (1.5,), (1.2, .05)], shape=[None, 'lorentz'],
    ebins=[None, '20'], emin=[None, -2., 0., 3.], emax=[None, 14.],
    kinematic=[None, ('--e-i', 11.), ('--e-f', 4.)],
    angle=[None, ('10', '130')], scale=[None, '0.5'], widgets=[0, 1],
    asr=[None, 'realspace'], threads=[None, '1', '2'],
    brille=[None, ('trellis', None), ('mesh', None), ('nest', 'density')])
TOOLS = dict(dispersion=DISPERSION, dos=DOS, intensity=INTENSITY,
             powder=POWDER)
PARTS = dict(dispersion=8, dos=12, intensity=10, powder=12)


def units(tier):
    more = 1 if tier == 'quick' else 4
    for tool in TOOLS:
        for k in range(PARTS[tool]*more):
            yield f'{tool}/{k}', dict(part='tool', tool=tool, k=k,
                                      of=PARTS[tool]*more)
    yield 'load', dict(part='load')
    for kind in ('fc', 'modes', 'castep'):
        yield f'load_{kind}', dict(part='load_' + kind)
    yield 'invalid', dict(part='invalid')
    yield 'sampling', dict(part='sampling')
    for scale in ('1', '1e-4'):
        yield f'widgets/{scale}', dict(part='widgets', scale=scale)
    for tool in TOOLS:
        yield f'style/{tool}', dict(part='style', tool=tool)


def run(ctx, part, **kw):
    import matplotlib
    matplotlib.use('Agg')
    d = tempfile.mkdtemp(prefix='c27')
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            globals()['part_' + part](ctx, d, **kw)
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ running

def main_of(tool):
    import importlib
    name = dict(dispersion='dispersion', dos='dos',
                intensity='intensity_map', powder='powder_map',
                sampling='show_sampling')[tool]
    return importlib.import_module('euphonic.cli.' + name).main


def run_cli(tool, argv):
    """('ok', figure) or ('error', exception)"""
    import matplotlib.pyplot as plt
    plt.close('all')
    show, plt.show = plt.show, lambda *a, **k: None
    try:
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            main_of(tool)(list(argv))
        return 'ok', plt.gcf()
    except (Exception, SystemExit) as e:
        return 'error', e
    finally:
        plt.show = show


def spectrum_json(path):
    with open(path) as f:
        return json.load(f)


@functools.lru_cache(None)
def source(name):
    from euphonic import QpointFrequencies
    if name == 'fc':
        return gen.force_constants('fcc', 'dia', np.eye(3, dtype=int)*2,
                                   seed=3, asr='exact', onsite=.25, amp=.02)
    if name == 'fcborn':
        return gen.force_constants('cubic', 'cscl', np.diag([2, 1, 1]),
                                   seed=5, asr='exact', born='iso')
    if name == 'fctric':
        return gen.force_constants('tric', 'gen2', np.diag([1, 2, 1]), seed=4,
                                   onsite=.3)
    modes = source('fctric').calculate_qpoint_phonon_modes(mode_qpts())
    modes.weights = np.linspace(1., 2., len(modes.qpts))/len(modes.qpts)
    if name == 'modes':
        return modes
    return QpointFrequencies(modes.crystal, modes.qpts, modes.frequencies,
                             modes.weights)


def mode_qpts():
    seg = [np.linspace(a, b, n, endpoint=False) for a, b, n in (
        ((0, 0, 0), (.5, 0, 0), 6), ((.5, 0, 0), (.5, .5, 0), 5))]
    return np.concatenate(seg + [np.linspace((.5, .5, 0), (.5, .5, .1), 2),
                                 np.linspace((-.3, -.4, -.5), (0, 0, .5), 5)])


FILE = dict(fc='fc.json', fcborn='fcborn.json', fctric='fctric.json',
            modes='modes.json', freqs='freqs.json', phonon='x.phonon')


def write_inputs(d):
    """name -> (path, object the library reads from it)"""
    from euphonic import (ForceConstants, QpointFrequencies,
                          QpointPhononModes)
    out = {}
    with contextlib.redirect_stdout(io.StringIO()):
        for name in INPUTS:
            path = os.path.join(d, FILE[name])
            if name == 'phonon':
                c = cf.make_crystal(2, ['Si', 'O'], 3)
                blocks = []
                for k, q in enumerate(mode_qpts()):
                    b = cf.make_block(2, k + 1, 5, q=np.round(q, 6),
                                      weight=round(1/len(mode_qpts()), 6))
                    b['freqs'] = np.round(np.abs(b['freqs'])/8, 6)
                    blocks.append(b)
                with open(path, 'w') as f:
                    f.write(cf.phonon_text(c, blocks))
            else:
                source(name).to_json_file(path)
    out.update({k: (os.path.join(d, FILE[k]), k) for k in INPUTS})
    classes = dict(fc=ForceConstants, fcborn=ForceConstants,
                   fctric=ForceConstants, modes=QpointPhononModes,
                   freqs=QpointFrequencies)

    def read(name, eigenvectors=True):
        path = out[name][0]
        if name == 'phonon':
            return (QpointPhononModes if eigenvectors
                    else QpointFrequencies).from_castep(path)
        return classes[name].from_json_file(path)
    return {k: v[0] for k, v in out.items()}, read


class Reject(Exception):
    """the tool must refuse these options"""


# ------------------------------------------------------------ option strings

def esc(o, x):
    return f'{x*E[o["unit"]]:.9g}'


def val(o, x):
    return float(esc(o, x))


def common_args(o):
    a = []
    if o['unit']:
        a += ['--energy-unit', o['unit']]
    for key, flag in (('emin', '--e-min'), ('emax', '--e-max')):
        if o.get(key) is not None:
            a += [f'{flag}={esc(o, o[key])}']
    if o.get('asr') is not None:
        a += ['--asr'] + ([o['asr']] if o['asr'] else [])
    if o.get('ebins'):
        a += ['--ebins', o['ebins']]
    if o.get('eb'):
        a += ['--energy-broadening'] + poly(o, o['eb'])
    if o.get('inst'):
        a += ['--instrument-broadening'] + poly(o, o['inst'])
    if o.get('shape'):
        a += ['--shape', o['shape']]
    if o.get('scale'):
        a += [f'--scale={o["scale"]}']
    if o.get('weighting'):
        a += ['--weighting', o['weighting']]
    if o.get('temperature'):
        a += ['--temperature', o['temperature']]
    if o.get('btol'):
        a += ['--btol', o['btol']]
    if o.get('length'):
        a += ['--length-unit', o['length']]
    if o.get('qspacing'):
        a += ['--q-spacing', o['qspacing']]
    return a


def poly(o, c):
    """coefficients in the energy unit, giving about the same width"""
    return [f'{x*E[o["unit"]]**(1 - k):.9g}' for k, x in enumerate(c)]


def energy_width(o, c, unit):
    from euphonic import ureg
    c = [float(x) for x in poly(o, c)]
    if len(c) == 1:
        return c[0]*ureg(unit)

    def width(x):
        x = x.to(unit).magnitude
        return sum(k*x**n for n, k in enumerate(c))*ureg(unit)
    return width


def calc_kwargs(o):
    asr = o.get('asr')
    kw = dict(asr='reciprocal' if asr == '' else asr)
    if o.get('dipole'):
        kw['dipole_parameter'] = float(o['dipole'])
    if o.get('c'):
        kw['use_c'] = o['c'] == '--use-c'
    if o.get('threads'):
        kw['n_threads'] = int(o['threads'])
    return kw


def band_path(fc, o, gamma_twice):
    """q-points, labels at each, indices where a new panel starts"""
    import seekpath
    from euphonic import ureg
    spacing = (float(o['qspacing'])/ureg(o['length'] or 'angstrom')).to(
        '1/angstrom').magnitude
    path = seekpath.get_explicit_k_path(fc.crystal.to_spglib_cell(),
                                        reference_distance=spacing)
    qpts, labels, breaks = [], [], []
    kpts, names = path['explicit_kpoints_rel'], path['explicit_kpoints_labels']
    last = None
    starts = {a for a, b in path['explicit_segments']}
    ends = {b - 1 for a, b in path['explicit_segments']}
    n = len(kpts)
    for i in range(n):
        if i in starts and i - 1 in ends and i not in ends and i > 0:
            breaks.append(len(qpts))
        qpts.append(kpts[i])
        labels.append(names[i])
        if gamma_twice and names[i] == 'GAMMA' and 0 < i < n - 1:
            qpts.append(kpts[i])
            labels.append(names[i])
        last = names[i]
    return np.array(qpts), labels, breaks


def labelled(labels):
    return [(i, r'$\Gamma$' if x == 'GAMMA' else x)
            for i, x in enumerate(labels) if x]


def modes_unit(o):
    return o['unit'] or 'meV'


# ----------------------------------------------------------------- references

def ref_dispersion(o, read, saved):
    from euphonic import ForceConstants, QpointFrequencies
    data = read(o['input'], bool(o['reorder']))
    if o['reorder'] and type(data) is QpointFrequencies:
        raise Reject
    ticks = None
    if isinstance(data, ForceConstants):
        qpts, labels, breaks = band_path(data, o, True)
        data = data.calculate_qpoint_phonon_modes(
            qpts, reduce_qpts=False, **calc_kwargs(o))
        ticks = labelled(labels)
        split = dict(indices=breaks)
    else:
        split = dict(btol=float(o['btol'] or 10))
    data.frequencies_unit = modes_unit(o)
    if o['reorder']:
        data.reorder_frequencies()
    sp = data.get_dispersion()
    if ticks:
        sp.x_tick_labels = ticks
    return sp, sp.split(**split)


def grid_of(crystal, grid, length):
    from euphonic import ureg
    if grid is None:
        grid = ('0.1',)
    if isinstance(grid[0], int):
        return grid
    return crystal.get_mp_grid_spec(float(grid[0])/ureg(length or 'angstrom'))


def saved_bins(o, saved, axis, freqs, room=True):
    """the energy bins that the tool chose, if they are acceptable"""
    from euphonic import ureg
    unit = modes_unit(o)
    bins = np.array(saved[axis])
    if str(ureg(saved[axis + '_unit']).units) != str(ureg(unit).units):
        raise Mismatch(f'energy unit {saved[axis + "_unit"]}')
    n = int(o['ebins'] or 200)
    if len(bins) != n + 1:
        raise Mismatch(f'{len(bins) - 1} energy bins, not {n}')
    if not np.allclose(np.diff(bins), (bins[-1] - bins[0])/n, rtol=1e-6):
        raise Mismatch('uneven energy bins')
    f = freqs.to(unit).magnitude
    if o['emin'] is not None:
        if not np.isclose(bins[0], val(o, o['emin']), rtol=1e-9):
            raise Mismatch(f'first bin {bins[0]}')
    elif bins[0] > min(f.min(), 0) + 1e-12:
        raise Mismatch(f'default range starts at {bins[0]}')
    top = o['emax']
    if top is None and o.get('kinematic') and o['kinematic'][0] == '--e-i':
        top = o['kinematic'][1]
    if top is not None:
        if not np.isclose(bins[-1], val(o, top), rtol=1e-9):
            raise Mismatch(f'last bin {bins[-1]}')
    elif bins[-1] < f.max():
        raise Mismatch(f'default range ends at {bins[-1]}')
    return bins*ureg(unit)


class Mismatch(Exception):
    pass


FWHM = 2*np.sqrt(2*np.log(2))


def species_of(crystal):
    return [str(t) for t in dict.fromkeys(crystal.atom_type)]


def pdos_choice(o, crystal):
    if o['pdos'] in (None, ()):
        return o['pdos']
    s = species_of(crystal)
    return (s[1],) if o['pdos'] == 'second' else tuple(s[::-1])


def pdos_rows(pdos, crystal, choice):
    """list of (label, Spectrum1D-like y Quantity)"""
    y = pdos.y_data
    species = [m['species'] for m in pdos.metadata['line_data']]
    total = y.sum(axis=0)
    rows = [('Total', total)] if choice in (None, ()) else []
    if choice is not None:
        for s in choice or dict.fromkeys(species):
            if s in species:
                k = [i for i, t in enumerate(species) if t == s]
                rows.append((s, y[k].sum(axis=0)))
    return rows


def ref_dos(o, read, saved):
    from euphonic import (ForceConstants, QpointFrequencies, Spectrum1D, ureg)
    from euphonic.util import mp_grid, mode_gradients_to_widths
    plain = o['weighting'] is None and o['pdos'] is None
    data = read(o['input'], not plain)
    if not plain and type(data) is QpointFrequencies:
        raise Reject
    adaptive = o['adaptive'] is not None
    if adaptive and not isinstance(data, ForceConstants):
        raise Reject
    scale, inst = o['ascale'], o['inst']
    if o['eb']:
        if adaptive and len(o['eb']) == 1:
            if scale is not None:
                raise Reject
            scale = poly(o, o['eb'])[0]
        else:
            if inst is not None:
                raise Reject
            inst = o['eb']
    unit = modes_unit(o)
    gauss = o['shape'] is None
    width = None if inst is None else energy_width(o, inst, unit)
    kw = {}
    opts = dict(zip(o['adaptive'][::2], o['adaptive'][1::2])) \
        if adaptive else {}
    error = float(opts.get('--adaptive-error', 0.01))
    if isinstance(data, ForceConstants):
        g = o['grid']
        q = mp_grid(grid_of(data.crystal, g, None if isinstance(g[0], int)
                            else g[1]))
        if adaptive:
            modes, grads = data.calculate_qpoint_phonon_modes(
                q, return_mode_gradients=True, **calc_kwargs(o))
            w = mode_gradients_to_widths(grads, data.crystal.cell_vectors)
            if scale is not None:
                w = w*float(scale)
            if inst is not None and gauss:
                i = width(modes.frequencies) if callable(width) else width
                i = (i + 0*i).to('meV').magnitude/FWHM
                w = np.sqrt(w.to('meV').magnitude**2 + i**2)*ureg('meV')
            kw = dict(mode_widths=w, adaptive_method=opts.get(
                '--adaptive-method', 'reference'), adaptive_error=error,
                adaptive_error_fit=opts.get('--adaptive-fit', 'cubic'))
        else:
            modes = data.calculate_qpoint_phonon_modes(q, **calc_kwargs(o))
    else:
        modes = data
    modes.frequencies_unit = unit
    bins = saved_bins(o, saved, 'x_data', modes.frequencies)
    if plain:
        rows = [(None, modes.calculate_dos(bins, **kw).y_data)]
    else:
        weighting = None if o['weighting'] is None else o['weighting'][:-4]
        pdos = modes.calculate_pdos(bins, weighting=weighting, **kw)
        rows = pdos_rows(pdos, modes.crystal, pdos_choice(o, modes.crystal))
        if o['pdos'] is None:
            rows = [(None, rows[0][1])]
    out = []
    for label, y in rows:
        s = Spectrum1D(bins, y)
        if inst is not None and not (adaptive and gauss):
            if callable(width):
                s = s.broaden(width, shape=o['shape'] or 'gauss',
                              method='convolve',
                              width_interpolation_error=error,
                              width_fit='cheby-log')
            else:
                s = s.broaden(width, shape=o['shape'] or 'gauss')
        y = s.y_data*float(o['scale'] or 1)
        out.append((label, y))
    return bins, out


def debye_waller(fc, o, calc=None):
    from euphonic import ureg
    from euphonic.util import mp_grid
    if o['temperature'] is None:
        return None
    q = mp_grid(grid_of(fc.crystal, o['grid'], o['length']))
    return fc.calculate_qpoint_phonon_modes(
        q, **(calc_kwargs(o) if calc is None else calc)).calculate_debye_waller(
        float(o['temperature'])*ureg('K'))


def ref_intensity(o, read, saved):
    from euphonic import ForceConstants, QpointFrequencies, ureg
    from euphonic.util import get_qpoint_labels
    coherent = o['weighting'] == 'coherent'
    data = read(o['input'], coherent)
    if coherent and type(data) is QpointFrequencies:
        raise Reject
    fc = isinstance(data, ForceConstants)
    if coherent and o['temperature'] is not None and not fc:
        raise Reject
    if fc:
        qpts, labels, breaks = band_path(data, o, False)
        modes = data.calculate_qpoint_phonon_modes(
            qpts, reduce_qpts=False, **calc_kwargs(o))
        ticks = labelled(labels)
        split = dict(indices=breaks)
    else:
        modes = data
        ticks = get_qpoint_labels(modes.qpts,
                                  cell=modes.crystal.to_spglib_cell())
        split = dict(btol=float(o['btol'] or 10))
    unit = modes_unit(o)
    modes.frequencies_unit = unit
    bins = saved_bins(o, saved, 'y_data', modes.frequencies)
    if coherent:
        dw = debye_waller(data, o)
        sp = modes.calculate_structure_factor(dw=dw).calculate_sqw_map(bins)
    else:
        sp = modes.calculate_dos_map(bins)
    if o['qb'] or o['eb']:
        rec = 1/ureg(o['length'] or 'angstrom')
        sp = sp.broaden(
            x_width=float(o['qb'])*rec if o['qb'] else None,
            y_width=energy_width(o, o['eb'], unit) if o['eb'] else None,
            shape=o['shape'] or 'gauss', method='convolve')
    sp.x_tick_labels = ticks
    sp = sp*float(o['scale'] or 1)
    return sp, sp.split(**split)


def ref_powder(o, read, saved):
    from math import ceil
    from euphonic import ForceConstants, Spectrum2D, ureg
    from euphonic.powder import (sample_sphere_dos, sample_sphere_pdos,
                                 sample_sphere_structure_factor)
    from euphonic.spectra import apply_kinematic_constraints
    fc = read(o['input'])
    if not isinstance(fc, ForceConstants):
        raise Reject
    coherent = o['weighting'] == 'coherent'
    if coherent and o['pdos'] is not None:
        raise Reject
    calc = calc_kwargs(o)
    if o['brille']:
        from euphonic.brille import BrilleInterpolator
        kind, size = o['brille']
        fc = BrilleInterpolator.from_force_constants(
            fc, grid_type=kind, interpolation_kwargs=calc,
            **({'grid_density': 30} if size else {'grid_npts': 25}))
        threads = calc.get('n_threads')
        calc = {} if threads is None else dict(useparallel=threads > 1,
                                               threads=threads)
    rec = 1/ureg(o['length'] or 'angstrom')
    lo, hi, step = map(float, o['q'])
    n = ceil((hi - lo)/step)
    edges = np.linspace(lo, hi, n + 1)
    unit = modes_unit(o)
    top = fc.calculate_qpoint_frequencies(np.array([[0, 0, .5]]),
                                          **calc).frequencies
    bins = saved_bins(o, saved, 'y_data', top)
    dw = debye_waller(fc, o, calc) if coherent else None
    opts = dict(zip(o['npts'][::2], o['npts'][1::2]))
    rows = []
    for a, b in zip(edges[:-1], edges[1:]):
        q = (a + b)/2
        if '--npts' in opts:
            npts = int(opts['--npts'])
        else:
            npts = ceil(float(opts['--npts-density'])*q**2)
            npts = max(int(opts['--npts-min']),
                       min(int(opts['--npts-max']), npts))
        kw = dict(npts=npts, sampling=o['sampling'] or 'golden',
                  jitter=bool(o['jitter']), energy_bins=bins,
                  **calc)
        if coherent:
            t = None if o['temperature'] is None else float(
                o['temperature'])*ureg('K')
            s = sample_sphere_structure_factor(fc, q*rec, dw=dw,
                                               temperature=t, **kw).y_data
        elif o['weighting'] is None and o['pdos'] is None:
            s = sample_sphere_dos(fc, q*rec, **kw).y_data
        else:
            p = sample_sphere_pdos(fc, q*rec, weighting=None
                                   if o['weighting'] is None
                                   else o['weighting'][:-4], **kw)
            choice = pdos_choice(o, fc.crystal)
            s = pdos_rows(p, fc.crystal, choice)[0][1]
        rows.append(s)
    z = np.array([r.to(rows[0].units).magnitude for r in rows])*rows[0].units
    sp = Spectrum2D(edges*rec.units if hasattr(rec, 'units') else edges*rec,
                    bins, z)
    if o['qb'] or o['eb']:
        sp = sp.broaden(
            x_width=length_width(o['qb'], rec) if o['qb'] else None,
            y_width=energy_width(o, o['eb'], unit) if o['eb'] else None,
            shape=o['shape'] or 'gauss')
    if o['kinematic']:
        flag, e = o['kinematic']
        kw = {flag.strip('-').replace('-', '_'): val(o, e)*ureg(unit)}
        sp = apply_kinematic_constraints(
            sp, angle_range=tuple(map(float, o['angle'] or (0, 180))), **kw)
    return sp*float(o['scale'] or 1), None


def length_width(c, rec):
    if len(c) == 1:
        return c[0]*rec

    def width(x):
        x = x.to(rec.units).magnitude
        return sum(k*x**n for n, k in enumerate(c))*rec.units
    return width


# ------------------------------------------------------------------ arguments

def argv_for(tool, o, paths, jsonfile, crystal):
    a = [paths[o['input']]] + common_args(o)
    if tool == 'dispersion':
        a += ['--reorder']*o['reorder']
        a += [o['c']] if o['c'] else []
        a += ['--n-threads', o['threads']] if o['threads'] else []
        a += ['--dipole-parameter', o['dipole']] if o['dipole'] else []
        if o['text']:
            a += ['--title', 'T t', '--x-label', 'X x', '--ylabel', 'Y y']
    if tool == 'dos':
        g = o['grid']
        if isinstance(g[0], int):
            a += ['--grid'] + [str(x) for x in g]
        else:
            a += ['--grid-spacing', g[0]] + (
                ['--length-unit', g[1]] if g[1] else [])
        if o['adaptive'] is not None:
            a += ['--adaptive', *o['adaptive']]
        if o['ascale']:
            a += ['--adaptive-scale', o['ascale']]
    elif o.get('grid'):
        if isinstance(o['grid'][0], int):
            a += ['--grid'] + [str(x) for x in o['grid']]
        else:
            a += ['--grid-spacing', o['grid'][0]]
    if o.get('pdos') is not None:
        a += ['--pdos', *pdos_choice(o, crystal)]
    if tool == 'intensity':
        a += ['--q-broadening', o['qb']] if o['qb'] else []
        a += ([], ['--vmin', '0.1', '--vmax', '7'], ['--vmin', '0'])[o['v']]
    if tool == 'powder':
        a += ['--n-threads', o['threads']] if o['threads'] else []
        if o['brille']:
            a += ['--use-brille', '--brille-grid-type', o['brille'][0]] + (
                ['--brille-npts-density', '30'] if o['brille'][1] else
                ['--brille-npts', '25'])
        a += ['--q-min', o['q'][0], '--q-max', o['q'][1], '--q-spacing',
              o['q'][2]]
        a += list(o['npts'])
        a += ['--sampling', o['sampling']] if o['sampling'] else []
        a += ['--jitter']*o['jitter']
        a += ['--q-broadening'] + [str(x) for x in o['qb']] \
            if o['qb'] else []
        if o['kinematic']:
            a += [o['kinematic'][0], esc(o, o['kinematic'][1])]
        a += ['--angle-range', *o['angle']] if o['angle'] else []
        a += ['--no-widgets']*(1 - o['widgets'])
    return a + ['--save-json', jsonfile]


def valid(tool, o):
    """leave out what would only repeat a case, or is impossible to compare"""
    if tool == 'dos' and o['adaptive'] is None and o['ascale']:
        return False            # no meaning without --adaptive
    if tool == 'powder' and not o['kinematic'] and o['angle']:
        return False
    return True


# --------------------------------------------------------------- comparison

def close(a, b, tol=1e-9, atol=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    scale = np.nanmax(np.abs(b)) if np.isfinite(b).any() else 0
    return np.allclose(a, b, rtol=tol, atol=tol*scale + (atol or 0),
                       equal_nan=True)


def same_unit(a, b):
    from euphonic import ureg
    return np.isclose(ureg(a).to(b).magnitude, 1, rtol=1e-12)


DEFAULTS = (('asr', None), ('dipole_parameter', 1.), ('use_c', None),
            ('n_threads', None))


def share_grids():
    """Trellis grids made twice from the same data may differ (Brille): the
    tool and the reference get the same one if they ask for the same one"""
    import inspect
    from euphonic.brille import BrilleInterpolator
    make = BrilleInterpolator.from_force_constants
    sig = inspect.signature(make)
    made = {}

    def shared(cls, *args, **kwargs):
        b = sig.bind(*args, **kwargs)
        b.apply_defaults()
        fc = b.arguments['force_constants']
        key = (fc.force_constants.magnitude.tobytes(),
               fc.crystal.cell_vectors.magnitude.tobytes(),
               repr(sorted((k, v if not isinstance(v, dict) else
                            sorted(x for x in v.items() if x not in DEFAULTS))
                           for k, v in b.arguments.items()
                           if k != 'force_constants')))
        if key not in made:
            made[key] = make(*args, **kwargs)
        return made[key]
    BrilleInterpolator.from_force_constants = classmethod(shared)


def part_tool(ctx, d, tool, k, of):
    paths, read = write_inputs(d)
    if tool == 'powder':
        share_grids()
    rows = cover.rows(TOOLS[tool], T['thorough' if ctx.thorough else 'quick'])
    for i, o in enumerate(rows):
        if i % of != k or not valid(tool, o):
            continue
        one(ctx, d, tool, o, paths, read)


def one(ctx, d, tool, o, paths, read):
    jsonfile = os.path.join(d, 'out.json')
    if os.path.exists(jsonfile):
        os.remove(jsonfile)
    crystal = read(o['input']).crystal
    argv = argv_for(tool, o, paths, jsonfile, crystal)
    case = dict(tool=tool, argv=[os.path.basename(argv[0])] + argv[1:-2])
    ctx.state((tool, tuple(case['argv'])))
    np.random.seed(1)
    status, fig = run_cli(tool, argv)
    saved = spectrum_json(jsonfile) if os.path.exists(jsonfile) else None
    np.random.seed(1)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            want = globals()['ref_' + tool](
                o, read, saved) if saved is not None else None
            if saved is None:
                probe(tool, o, read)
    except Mismatch as e:
        ctx.fail('energy bins are not those asked for', case, str(e))
        return 0
    except Reject:
        ctx.trace()
        ctx.check(status == 'error' and saved is None,
                  'options that exclude each other were accepted', case,
                  status)
        ctx.outcome((tool, 'rejected'))
        return 0
    except Exception as e:
        # the library refuses: so must the tool
        ctx.trace()
        ctx.check(status == 'error',
                  'the library call is refused but the tool goes on', case,
                  repr(e))
        ctx.outcome((tool, 'refused', type(e).__name__))
        return 0
    if status == 'error':
        ctx.fail('the tool fails where the library calls succeed', case,
                 repr(fig))
        return 0
    ctx.trace()
    ctx.outcome((tool, 'ok'))
    globals()['compare_' + tool](ctx, case, o, saved, want, fig)
    return 1


def probe(tool, o, read):
    """no output was written: do the library calls succeed at all?"""
    unit = modes_unit(o)
    n = int(o['ebins'] or 200) if 'ebins' in o else 0
    lo = val(o, o['emin'] if o['emin'] is not None else -50)
    top = o['emax']
    if top is None and o.get('kinematic') and o['kinematic'][0] == '--e-i':
        top = o['kinematic'][1]
    hi = val(o, top if top is not None else 500)
    bins = np.linspace(lo, hi, n + 1).tolist()
    saved = {f'{x}_data': bins for x in 'xy'}
    saved.update({f'{x}_data_unit': unit for x in 'xy'})
    globals()['ref_' + tool](o, read, saved)


def figure_axes(fig):
    """the panels, without the invisible axes that carry the labels"""
    return [a for a in fig.axes if a.lines or a.images]


def label_axes(fig):
    return [a for a in fig.axes if not a.lines and not a.images
            and not a.get_frame_on()]


def check_ticks(ctx, case, ax, sp):
    if sp.x_tick_labels is None:
        return
    x = sp.x_data.magnitude
    want = [(x[i], t) for i, t in sp.x_tick_labels]
    got = list(zip(ax.get_xticks(), [t.get_text()
                                     for t in ax.get_xticklabels()]))
    ctx.transition(len(want))
    ctx.check(len(got) == len(want) and all(
        abs(a - b) < 1e-9*(1 + abs(b)) and s == t
        for (a, s), (b, t) in zip(got, want)),
        'tick labels are not at their q-points', case,
        dict(got=got, want=want))


def check_text(ctx, case, o, fig, x, y):
    want = dict(title='', x=x, y=y)
    if o.get('text'):
        want = dict(title='T t', x='X x', y='Y y')
    got = dict(title=fig._suptitle.get_text() if fig._suptitle else '',
               x=label_axes(fig)[0].get_xlabel(),
               y=label_axes(fig)[0].get_ylabel())
    for k in want:
        if want[k] is not None:
            ctx.check(got[k] == want[k], f'{k} text of the figure', case, got)


def compare_dispersion(ctx, case, o, saved, want, fig):
    sp, panels = want
    ctx.transition(3)
    ctx.check(close(saved['x_data'], sp.x_data.magnitude)
              and same_unit(saved['x_data_unit'], sp.x_data.units),
              'saved path distances', case, '')
    ctx.check(close(saved['y_data'], sp.y_data.magnitude, 1e-7)
              and same_unit(saved['y_data_unit'], sp.y_data.units),
              'saved bands are not those of the library', case, '')
    ticks = [(int(i), s) for i, s in saved.get('x_tick_labels') or []]
    ctx.check(ticks == [(int(i), s) for i, s in sp.x_tick_labels or []],
              'saved tick labels', case,
              dict(got=ticks, want=sp.x_tick_labels))
    axes = figure_axes(fig)
    if len(axes) != len(panels):
        ctx.fail('number of panels', case, [len(axes), len(panels)])
        return
    for ax, p in zip(axes, panels):
        # lines are cut at repeated q-points: glue them together
        y = p.y_data.magnitude
        n = len(y)
        lines = [(ln.get_xdata(), ln.get_ydata()) for ln in ax.lines]
        if not lines or len(lines) % n:
            ctx.fail('number of lines', case, [len(lines), n])
            return
        per = len(lines)//n
        for b in range(n):
            gx = np.concatenate([g[0] for g in lines[b*per:(b + 1)*per]])
            gy = np.concatenate([g[1] for g in lines[b*per:(b + 1)*per]])
            ctx.transition()
            if not (close(gx, p.x_data.magnitude) and close(gy, y[b], 1e-7)):
                ctx.fail('a plotted band is not that of the library', case,
                         dict(band=b))
                return
        check_ticks(ctx, case, ax, p)
        lo, hi = ax.get_ylim()
        if o['emin'] is not None:
            ctx.check(np.isclose(lo, val(o, o['emin'])), '--e-min', case, lo)
        if o['emax'] is not None:
            ctx.check(np.isclose(hi, val(o, o['emax'])), '--e-max', case, hi)
    check_text(ctx, case, o, fig, None, None)


def compare_dos(ctx, case, o, saved, want, fig):
    bins, rows = want
    y = np.array([r.magnitude for _, r in rows])
    got = np.atleast_2d(np.array(saved['y_data']))
    ctx.transition(3)
    ctx.check(close(got, y, 1e-7) and same_unit(
        saved['y_data_unit'], rows[0][1].units),
        'saved DOS is not that of the library', case,
        float(np.abs(got - y).max()/np.abs(y).max())
        if got.shape == y.shape else [got.shape, y.shape])
    meta = saved.get('metadata', {})
    if rows[0][0] is not None:
        if 'line_data' in meta:
            labels = [{**meta, **m}.get('label') for m in meta['line_data']]
        else:
            labels = [meta.get('label')]
        ctx.check(labels == [r[0] for r in rows], 'line labels', case,
                  labels)
    ax, = figure_axes(fig)
    mid = (bins[1:] + bins[:-1]).magnitude/2
    ok = len(ax.lines) == len(rows) and all(
        close(ln.get_xdata(), mid) and close(ln.get_ydata(), r, 1e-7)
        and (rows[0][0] is None or ln.get_label() == label)
        for ln, r, (label, _) in zip(ax.lines, y, rows))
    ctx.check(ok, 'plotted DOS is not that of the library', case,
              [len(ax.lines), len(rows)])
    ctx.check(ax.get_ylim()[0] == 0, 'DOS axis does not start at 0', case,
              ax.get_ylim())


def check_image(ctx, case, ax, p):
    image = ax.images[0]
    arr = np.ma.filled(image.get_array().astype(float), np.nan)
    ctx.transition(1)
    ctx.check(close(arr, p.z_data.magnitude.T, 1e-7),
              'the image is not the intensity of the library', case, '')
    x = p.get_bin_edges('x').magnitude
    y = p.get_bin_edges('y').magnitude
    xlim = ax.get_xlim()
    # (matplotlib cannot draw an axis of no length: a single q-point)
    ok = (close(xlim, [x[0], x[-1]]) if x[0] < x[-1]
          else xlim[0] <= x[0] <= xlim[1])
    ctx.check(ok and close(ax.get_ylim(), [y[0], y[-1]]), 'axis range', case,
              [xlim, ax.get_ylim()])
    return image


def compare_map(ctx, case, saved, sp):
    ctx.transition(3)
    ctx.check(close(saved['x_data'], sp.x_data.magnitude)
              and same_unit(saved['x_data_unit'], sp.x_data.units)
              and close(saved['y_data'], sp.y_data.magnitude)
              and same_unit(saved['y_data_unit'], sp.y_data.units),
              'saved axes', case, '')
    z = np.array([[np.nan if v is None else v for v in r]
                  for r in saved['z_data']], float)
    ctx.check(close(z, sp.z_data.magnitude, 1e-7)
              and same_unit(saved['z_data_unit'], sp.z_data.units),
              'saved intensities are not those of the library', case,
              float(np.nanmax(np.abs(z - sp.z_data.magnitude))
                    / np.nanmax(np.abs(sp.z_data.magnitude)))
              if z.shape == sp.z_data.shape else [z.shape, sp.z_data.shape])


def compare_intensity(ctx, case, o, saved, want, fig):
    sp, panels = want
    compare_map(ctx, case, saved, sp)
    ticks = [(int(i), s) for i, s in saved.get('x_tick_labels') or []]
    ctx.check(ticks == [(int(i), s) for i, s in sp.x_tick_labels],
              'saved tick labels', case,
              dict(got=ticks, want=sp.x_tick_labels))
    axes = figure_axes(fig)
    if len(axes) != len(panels):
        ctx.fail('number of panels', case, [len(axes), len(panels)])
        return
    lims = [np.nanmin(sp.z_data.magnitude), np.nanmax(sp.z_data.magnitude)]
    zs = np.concatenate([p.z_data.magnitude.ravel() for p in panels])
    lims = [np.nanmin(zs), np.nanmax(zs)]
    if o['v']:
        lims = [.1, 7] if o['v'] == 1 else [0, lims[1]]
    for ax, p in zip(axes, panels):
        image = check_image(ctx, case, ax, p)
        ctx.check(close(image.get_clim(), lims, 1e-7), 'colour limits', case,
                  [image.get_clim(), lims])
        check_ticks(ctx, case, ax, p)


def compare_powder(ctx, case, o, saved, want, fig):
    sp, _ = want
    compare_map(ctx, case, saved, sp)
    check_image(ctx, case, figure_axes(fig)[0], sp)


# -------------------------------------------------------------------- loading

def part_load(ctx, d):
    """every kind of file gives the object its class reads from it"""
    from euphonic import (ForceConstants, QpointFrequencies,
                          QpointPhononModes, Spectrum1D, ureg)
    from euphonic.cli.utils import load_data_from_file
    from mc import phonopyfile as pf
    paths, read = write_inputs(d)
    cases = [(paths[n], eig, read(n, eig)) for n in INPUTS
             for eig in (True, False)]
    modes = read('modes')
    only = QpointFrequencies(modes.crystal, modes.qpts, modes.frequencies,
                             modes.weights)
    cases = [(p, e, only if p.endswith('modes.json') and not e else x)
             for p, e, x in cases]
    for path, eig, want in cases:
        for as_type in (str, __import__('pathlib').Path):
            case = dict(file=os.path.basename(path), eigenvectors=eig)
            with contextlib.redirect_stdout(io.StringIO()):
                got = ctx.call(case, load_data_from_file, as_type(path),
                               frequencies_only=not eig)
            if got is ctx.FAILED:
                continue
            ctx.state((os.path.basename(path), eig, as_type.__name__))
            ctx.transition()
            ctx.trace()
            if type(got) is not type(want):
                ctx.fail('kind of object', case, type(got).__name__)
                continue
            a, b = got.to_dict(), want.to_dict()
            ctx.check(same(a, b), 'not the content of the file', case, '')
    # something else
    Spectrum1D(np.arange(3)*ureg('meV'), np.arange(3)/ureg('meV')
               ).to_json_file(os.path.join(d, 'spectrum.json'))
    for name in ('spectrum.json', 'none.phonon', 'x.txt', 'x'):
        path = os.path.join(d, name)
        if name[0] == 'x':
            open(path, 'w').close()
        ctx.state(name)
        try:
            load_data_from_file(path)
        except Exception:
            ctx.trace()
            continue
        ctx.fail('a file without phonon data was loaded', dict(file=name), '')


def loaded(ctx, case, path, want, **kw):
    """load_data_from_file gives the object want() gives, or refuses if want
    is None"""
    from euphonic.cli.utils import load_data_from_file
    ctx.transition()
    with contextlib.redirect_stdout(io.StringIO()):
        if want is None:
            try:
                load_data_from_file(path, **kw)
            except Exception:
                return
            ctx.fail('a file that lacks its companion was loaded', case, '')
            return
        got = ctx.call(case, load_data_from_file, path, **kw)
        want = ctx.call(case, want)
    if got is ctx.FAILED or want is ctx.FAILED:
        return
    ctx.trace()
    if type(got) is not type(want):
        ctx.fail('kind of object', case, type(got).__name__)
        return
    ctx.check(same(got.to_dict(), want.to_dict()),
              'not the content of the file', case, '')


def elsewhere(d, files):
    """a working directory with (misleading) files, and the way back"""
    os.makedirs(d, exist_ok=True)
    for name, text in files.items():
        with open(os.path.join(d, name), 'w') as f:
            f.write(text)

    @contextlib.contextmanager
    def there():
        back = os.getcwd()
        os.chdir(d)
        try:
            yield
        finally:
            os.chdir(back)
    return there


def part_load_fc(ctx, d):
    """force constants of Phonopy, in every set of files a tool accepts: what
    lies beside the named file is read, what lies elsewhere is not"""
    from euphonic import ForceConstants
    from mc import phonopyfile as pf
    from mc.checks import c24
    m = c24.model('plain')
    n = len(m.types)
    z = np.random.default_rng(4).uniform(-2, 2, (n, 3, 3))
    born = pf.born_text(z, np.diag([2., 3., 4.]), 14.4)
    other = pf.born_text(2*z, np.diag([5., 5., 4.]), 14.4)
    for box, nac, file_, name, cwd in itertools.product(
            ('inline', 'text', 'hdf5'), (0, 1), (0, 1),
            ('phonopy.yaml', 'mine.yaml', 'force_constants.hdf5'),
            ('empty', 'other', 'here')):
        if name.endswith('hdf5') and box != 'hdf5':
            continue
        w = os.path.join(d, 'w')
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        kw = dict(born=z/3, eps=np.diag([2.5, 3., 4.]), factor=14.4,
                  new_nac=True) if nac else {}
        c24.write_fc(w, m, box, 'compact', **kw)
        summary = 'phonopy.yaml'
        if name == 'mine.yaml':
            summary = name
            os.rename(w + '/phonopy.yaml', w + '/' + name)
        if file_:
            with open(w + '/BORN', 'w') as f:
                f.write(born)
        there = elsewhere(w if cwd == 'here' else os.path.join(d, cwd),
                          dict(BORN=other, FORCE_CONSTANTS='')
                          if cwd == 'other' else {})
        case = dict(box=box, nac=nac, BORN=file_, file=name, cwd=cwd)
        ctx.state(tuple(case.values()))
        opts = dict(summary_name=summary)
        if box == 'hdf5':
            opts['fc_name'] = 'force_constants.hdf5'
        if file_:
            opts['born_name'] = 'BORN'
        with there():
            for p in ([name, './' + name] if cwd == 'here' else
                      [os.path.join(w, name), os.path.relpath(
                          os.path.join(w, name))]):
                for only in (False, True):
                    loaded(ctx, dict(case, path=p), p, lambda:
                           ForceConstants.from_phonopy(path=w, **opts),
                           frequencies_only=only)
            if name.endswith('hdf5'):
                os.rename(w + '/phonopy.yaml', w + '/moved.yaml')
                loaded(ctx, dict(case, summary='none'),
                       os.path.join(w, name), None)


def part_load_modes(ctx, d):
    """modes of Phonopy"""
    from euphonic import QpointFrequencies, QpointPhononModes
    from mc import phonopyfile as pf
    from mc.checks import c24
    qs = [(0., 0., 0.), (.5, 0., 0.), (.13, -.41, .27)]
    for basis, kind in itertools.product(
            ('one', 'gen2'), ('mesh', 'band', 'qpoints')):
        m, ds, fr, ev = c24.file_modes(basis, qs)
        wts = [1, 2, 5] if kind == 'mesh' else None
        with open(d + '/phonopy.yaml', 'w') as f:
            f.write(pf.summary(m))
        for has in (True, False):
            for ext in ('yaml', 'hdf5'):
                name = f'{kind}.{ext}'
                path = os.path.join(d, name)
                if ext == 'yaml':
                    with open(path, 'w') as f:
                        f.write(pf.modes_yaml(
                            kind, m.lp, m.r, m.types, m.masses, qs, fr,
                            ev if has else None, wts, kind != 'qpoints'))
                else:
                    pf.modes_hdf5(path, kind, qs, fr, ev if has else None,
                                  wts, 1)
                for only in (True, False):
                    case = dict(basis=basis, file=name, eigenvectors=has,
                                frequencies_only=only)
                    ctx.state(tuple(case.values()))
                    cls = (QpointPhononModes if has and not only
                           else QpointFrequencies)
                    loaded(ctx, case, path, lambda: cls.from_phonopy(
                        path=d, phonon_name=name), frequencies_only=only)


def part_load_castep(ctx, d):
    from euphonic import ForceConstants
    found = 0
    for root, _, names in sorted(os.walk(
            '/repo/tests_and_analysis/test/data/castep_files')):
        for name in sorted(names):
            if not name.endswith(('.castep_bin', '.check')) or (
                    os.path.getsize(os.path.join(root, name)) > 3e6):
                continue
            src = os.path.join(root, name)
            try:
                want = ForceConstants.from_castep(src)
            except Exception:
                continue
            found += 1
            for to in ('.castep_bin', '.check'):
                path = os.path.join(d, 'x' + to)
                shutil.copyfile(src, path)
                for only in (True, False):
                    case = dict(file=name, suffix=to, frequencies_only=only)
                    ctx.state(tuple(case.values()))
                    loaded(ctx, case, path, lambda: want,
                           frequencies_only=only)
    ctx.add('castep_files', found)


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(
            same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        if a.dtype.kind not in 'fc':
            return np.array_equal(a, b)
        return a.shape == np.shape(b) and np.allclose(a, b, rtol=1e-13,
                                                      atol=1e-15)
    return a == b


# -------------------------------------------------------------------- invalid

def part_invalid(ctx, d):
    """excluded combinations: an error, and no file written"""
    paths, read = write_inputs(d)
    fc, modes, freqs = paths['fc'], paths['modes'], paths['freqs']
    small = ['--grid', '1', '1', '1']
    bad = [
        ('dispersion', [freqs, '--reorder']),
        ('dispersion', [fc, '--use-c', '--disable-c']),
        ('dispersion', [fc, '--asr', 'both']),
        ('dispersion', [fc, '--length-unit', 'nonsense']),
        ('dispersion', [fc, '--energy-unit', 'kg', '--q-spacing', '1']),
        ('dispersion', [fc, '--energy-unit', 'nonsense', '--q-spacing',
                        '1']),
        ('dispersion', []),
        ('dos', [freqs, '--pdos']),
        ('dos', [freqs, '--weighting', 'coherent-dos']),
        ('dos', [freqs, '--adaptive']), ('dos', [modes, '--adaptive']),
        ('dos', [fc, '--adaptive', '--eb', '1', '--adaptive-scale', '2']
         + small),
        ('dos', [fc, '--eb', '1', '--instrument-broadening', '2'] + small),
        ('dos', [fc, '--adaptive', '--eb', '1', '.1',
                 '--instrument-broadening', '2'] + small),
        ('dos', [fc, '--grid', '2', '2', '2', '--grid-spacing', '.3']),
        ('dos', [modes, '--e-min', '5', '--e-max', '5']),
        ('dos', [modes, '--e-min', '5', '--e-max', '4']),
        ('dos', [modes, '--weighting', 'coherent']),
        ('dos', [modes, '--pdos', 'Xx']),
        ('dos', [modes, '--energy-unit', 'K/s']),
        ('intensity', [freqs, '--weighting', 'coherent']),
        ('intensity', [modes, '--weighting', 'coherent', '--temperature',
                       '300']),
        ('intensity', [freqs, '--weighting', 'coherent-dos']),
        ('intensity', [modes, '--e-min', '5', '--e-max', '4']),
        ('intensity', [modes, '--q-broadening', '1', '2']),
        ('powder', [modes]), ('powder', [freqs]),
        ('powder', [fc, '--pdos', 'Zn', '--weighting', 'coherent']),
        ('powder', [fc, '--npts', '4', '--npts-density', '4']),
        ('powder', [fc, '--e-i', '4', '--e-f', '4']),
        ('powder', [fc, '--pdos', 'Zn', 'S']),
        ('powder', [fc, '--npts', '4', '--e-min', '5', '--e-max', '4',
                    '--q-spacing', '1']),
        ('powder', [fc, '--npts', '4', '--pdos', 'Xx', '--q-spacing', '1']),
    ]
    for tool, argv in bad:
        out = os.path.join(d, 'bad.json')
        case = dict(tool=tool, argv=[os.path.basename(a) for a in argv])
        status, e = run_cli(tool, argv + ['--save-json', out])
        ctx.state((tool, tuple(argv)))
        ctx.transition()
        ctx.trace()
        ctx.outcome((tool, type(e).__name__))
        ctx.check(status == 'error', 'accepted', case, '')
        ctx.check(not os.path.exists(out), 'output was written', case, '')
        if os.path.exists(out):
            os.remove(out)


def part_sampling(ctx, d):
    """show-sampling draws the points of the sampling function"""
    from euphonic import sampling as s
    top = int(60 if ctx.thorough else 20)

    def square(n):
        k = 1
        while k*k < n:
            k += 1
        return k

    def polar(n):
        k = 1
        while 2*k*k < n:
            k += 1
        return k
    kinds = {
        'golden-square': lambda n, j: s.golden_square(n, jitter=j),
        'regular-square': lambda n, j: s.regular_square(
            square(n), square(n), jitter=j),
        'recurrence-square': lambda n, j: s.recurrence_sequence(n, order=2),
        'golden-sphere': lambda n, j: s.golden_sphere(n, jitter=j),
        'sphere-from-square-grid': lambda n, j: s.sphere_from_square_grid(
            2*polar(n), polar(n), jitter=j),
        'spherical-polar-grid': lambda n, j: s.spherical_polar_grid(
            2*polar(n), polar(n), jitter=j),
        'spherical-polar-improved': lambda n, j: s.spherical_polar_improved(
            n, jitter=j),
        'random-sphere': lambda n, j: s.random_sphere(n),
        'recurrence-cube': lambda n, j: s.recurrence_sequence(n, order=3)}
    for kind, f in kinds.items():
        for n in range(1, top, 1 if ctx.thorough else 4):
            for j in (False, True):
                case = dict(kind=kind, n=n, jitter=j)
                np.random.seed(3)
                try:
                    want = np.array(list(f(n, j)), float)
                except Exception as e:
                    want = e
                np.random.seed(3)
                status, fig = run_cli('sampling', [str(n), kind]
                                      + ['--jitter']*j)
                ctx.state((kind, n, j))
                ctx.transition()
                ctx.trace()
                if isinstance(want, Exception) or len(want) == 0:
                    continue
                if status != 'ok':
                    ctx.fail('exception', case, repr(fig))
                    continue
                c = fig.axes[0].collections[0]
                got = np.array(c._offsets3d).T if want.shape[1] == 3 \
                    else np.array(c.get_offsets())
                ctx.check(close(got, want), 'other points are drawn', case,
                          '')


# --------------------------------------------------------------------- style

def part_widgets(ctx, d, scale):
    """every sequence of limits typed into the boxes of the powder map: the
    colours span the last minimum and the last maximum, of this image only"""
    import matplotlib.pyplot as plt
    import matplotlib.widgets as mw
    paths, read = write_inputs(d)
    depth = 3 if ctx.thorough else 2
    typed = [(k, t) for k in (0, 1) for t in ('0', '2e-5', '7.5')]
    made, seen = [], []
    real_box, real_show = mw.TextBox, plt.show

    class Box(real_box):
        def __init__(self, ax, label, *a, **kw):
            super().__init__(ax, label, *a, **kw)
            made.append(self)

    def show(*a, **kw):
        fig = plt.gcf()
        axes = figure_axes(fig)
        ims = [im for ax in axes for im in ax.images]
        seen.append(len(ims))
        case = dict(scale=scale)
        if len(made) != 2 or len(ims) != 1:
            ctx.fail('boxes or images', case, [len(made), len(ims)])
            return
        im, = ims
        start = im.get_clim()
        z = im.get_array().copy()
        labels = [b.label.get_text() for b in made]
        lo = [k for k in (0, 1) if 'min' in labels[k].lower()]
        hi = [k for k in (0, 1) if 'max' in labels[k].lower()]
        ctx.check(len(lo) == 1 and len(hi) == 1 and lo != hi,
                  'labels of the boxes', case, labels)
        box = [made[lo[0]], made[hi[0]]] if lo and hi else made
        for k in (0, 1):
            want = start[k]
            got = float(box[k].text)
            # printed with at least one significant digit
            ctx.check(abs(got - want) <= max(.006*abs(want), .0051 if
                                             start[1] >= .1 else 0),
                      'the boxes do not show the limits', case,
                      [box[k].text, want])
        ctx.check(not set(made[0].ax.get_position().get_points().ravel())
                  == set(made[1].ax.get_position().get_points().ravel()),
                  'the boxes lie on each other', case, '')
        for n in range(1, depth + 1):
            for seq in itertools.product(typed, repeat=n):
                im.set_clim(*start)
                for b in box:
                    b.text_disp.set_text('')
                want = list(start)
                for k, t in seq:
                    if not (want[1 - k] - float(t))*(1 - 2*k) >= 0:
                        continue    # Matplotlib cannot draw min > max
                    want[k] = float(t)
                    box[k].set_val(t)
                    ctx.transition()
                ctx.state((scale, seq))
                ctx.check(np.allclose(im.get_clim(), want, 1e-12),
                          'the limits typed do not reach the colours',
                          dict(case, typed=seq),
                          lambda: dict(got=im.get_clim(), want=want))
        ctx.check(np.array_equal(im.get_array(), z), 'data of the image',
                  case, '')
        ctx.trace()

    argv = [paths['fc'], '--npts', '5', '--q-spacing', '1', '--scale', scale]
    for extra in ([], ['--vmin', '0', '--vmax', '3'], ['--no-widgets']):
        del made[:], seen[:]
        mw.TextBox, plt.show = Box, show
        try:
            if extra == ['--no-widgets']:
                plt.show = lambda *a, **kw: seen.append(1)
            plt.close('all')
            with contextlib.redirect_stdout(io.StringIO()):
                main_of('powder')(argv + extra)
        except Exception as e:
            ctx.fail('exception', dict(scale=scale, extra=extra), repr(e))
            continue
        finally:
            mw.TextBox, plt.show = real_box, real_show
        if extra == ['--no-widgets']:
            ctx.check(not made, 'boxes without being asked for',
                      dict(scale=scale), len(made))
        ctx.check(seen == [1], 'shown other than once',
                  dict(scale=scale, extra=extra), seen)


STYLE = dict(
    figsize=[None, ('12', '9', None), ('5', '4', 'inches')],
    font=[None, '7'], line=[None, '2.5'], cmap=[None, 'bone'],
    base=[0, 1], style=[None, ('grayscale',), ('file',)], save=[0, 1])


def part_style(ctx, d, tool):
    """style options reach the figure and change no data"""
    import matplotlib
    from euphonic.styles import base_style
    paths, read = write_inputs(d)
    own = os.path.join(d, 'own.mplstyle')
    with open(own, 'w') as f:
        f.write('axes.titlesize: 23\nlines.linewidth: 4.25\n'
                'image.cmap: hot\nfigure.figsize: 3, 2\n')
    plain = os.path.join(d, 'plain.json')
    base = [paths['fc'] if tool == 'powder' else paths['modes']] + dict(
        powder=['--npts', '5', '--q-spacing', '1']).get(tool, [])
    run_cli(tool, base + ['--save-json', plain])
    plain = spectrum_json(plain)
    before = dict(matplotlib.rcParams)
    default_style = dict(matplotlib.rcParamsDefault)
    base_params = matplotlib.rc_params_from_file(
        str(base_style), use_default_template=False)
    seen = {}
    for o in cover.rows(STYLE, 4 if ctx.thorough else 3):
        a = []
        size = None
        if o['figsize']:
            w, h, u = o['figsize']
            a += ['--figsize', w, h] + (['--fig-size-unit', u] if u else [])
            size = np.array([float(w), float(h)])/(1 if u else 2.54)
        if o['font']:
            a += ['--font-size', o['font']]
        line = None
        if o['line'] and tool in ('dos', 'dispersion'):
            a += ['--line-width', o['line']]
            line = float(o['line'])
        cmap = None
        if o['cmap'] and tool in ('intensity', 'powder'):
            a += ['--cmap', o['cmap']]
            cmap = o['cmap']
        a += ['--no-base-style']*o['base']
        if o['style']:
            files = [own if x == 'file' else x for x in o['style']]
            a += ['--style', *files]
            if o['style'] == ('file',):
                size = np.array([3., 2]) if size is None else size
                line = line or 4.25
                cmap = cmap or 'hot'
            else:
                cmap = cmap or 'gray'
        png = os.path.join(d, 'fig.png')
        if os.path.exists(png):
            os.remove(png)
        a += ['-s', png] if o['save'] else []
        out = os.path.join(d, 'style.json')
        case = dict(tool=tool, argv=[os.path.basename(x) for x in a])
        status, fig = run_cli(tool, base + a + ['--save-json', out])
        ctx.state((tool, tuple(case['argv'])))
        ctx.trace()
        if status == 'error':
            ctx.fail('exception', case, repr(fig))
            continue
        ctx.transition(4)
        ctx.check(os.path.exists(png) == bool(o['save']), 'saved plot', case,
                  '')
        ctx.check(spectrum_json(out) == plain, 'a style changes the data',
                  case, '')
        if size is not None:
            ctx.check(np.allclose(fig.get_size_inches(), size),
                      'figure size', case, fig.get_size_inches().tolist())
        ax = figure_axes(fig)[0]
        if tool in ('dos', 'dispersion'):
            if line is not None:
                ctx.check(all(ln.get_linewidth() == line
                              for ln in ax.lines), 'line width', case,
                          ax.lines[0].get_linewidth())
        elif cmap is not None:
            ctx.check(ax.images[0].get_cmap().name == cmap, 'colour map',
                      case, ax.images[0].get_cmap().name)
        grid = [g.get_visible() for a in figure_axes(fig)
                for g in a.xaxis.get_gridlines()]
        ctx.check(any(grid) != bool(o['base']), 'default formatting', case,
                  dict(grid=any(grid)))
        if line is None and tool in ('dos', 'dispersion'):
            want = dict(default_style, **({} if o['base'] else base_params))
            ctx.check(all(ln.get_linewidth() == want['lines.linewidth']
                          for ln in ax.lines), 'default line width', case,
                      ax.lines[0].get_linewidth())
        if o['font'] and 'grayscale' not in (o['style'] or ()):
            label = label_axes(fig)[0].yaxis.label
            seen.setdefault((o['base'], o['style']), set()).add(
                (o['font'], label.get_fontsize()))
        after = dict(matplotlib.rcParams)
        ctx.check(all(after[k] == before[k] for k in before
                      if k != 'backend'), 'the style outlives the tool',
                  case, [k for k in before if after[k] != before[k]][:4])
    for k, v in seen.items():
        ctx.check(len({x for _, x in v}) == 1, 'font size', dict(
            tool=tool, options=list(map(str, k))), sorted(map(str, v)))
