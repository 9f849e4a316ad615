"""C14: a density of states counts every mode once with its weight."""
import collections
import functools
import itertools
import os
import shutil
import tempfile

import numpy as np

TECHNIQUE = ('exhaustive enumeration of all assignments of modes to bin '
             'positions (inside, on an edge, outside) x weights x bins x '
             'units x weightings on the real code, against a model that '
             'counts in exact positions')
NOTE = ('Every assignment of the modes of a q-point to the position alphabet, '
        'all pairs of q-points over a smaller one; the model adds weights '
        'per bin and never compares floating point frequencies.')
RULE = ('one state per (bins, mode positions, weights, units, weighting); a '
        'transition is one DOS evaluation')
ASSUMPTIONS = ['bins are increasing energies; a mode exactly on an edge '
               'belongs to the bin above it, one on the last edge to none; '
               'when bins are in another unit than the frequencies either '
               'neighbouring bin of an edge is accepted',
               'zero bin widths are not bins']

# bins as multiples of 1/8 so that positions are exact in floating point
BINS = {'even': (0, 8, 16, 24), 'uneven': (1, 3, 19, 20),
        'neg': (-16, -4, 0, 24), 'one': (2, 10)}
WEIGHTS = {'one': (1.,), 'ones': (1., 1., 1.), 'default': None, 'unnorm': (3., .5, 2.),
           'zero': (0., 1., .25), 'tiny': (1e-9, 3e-9, 2e-9)}
UNITS = ('meV', 'THz', '1/cm', 'hartree', 'eV')
XS = {'dict': {'Na': (2., 'barn'), 'Cl': (7., 'fm**2')},
      'ones': {'Na': (1., 'mbarn'), 'Cl': (1., 'mbarn')}}


@functools.lru_cache(None)
def factor(a, b):
    from euphonic import Quantity
    return Quantity(1., a).to(b).magnitude


def positions(bins):
    """name -> (value, index of the bin or None, index if edges may go
    either way)"""
    b = BINS[bins]
    out = {'below': (b[0] - 5, None, None), 'above': (b[-1] + 7, None, None)}
    for i, e in enumerate(b):
        up = i if i < len(b) - 1 else None
        down = i - 1 if i else None
        out[f'e{i}'] = (e, up, down)
    for i in range(len(b) - 1):
        out[f'm{i}'] = ((b[i] + b[i+1])/2, i, i)
    return out


def crystal(n_atoms):
    from euphonic import Crystal, Quantity
    r = np.array([[0., 0, 0], [.5, .4, .3]])[:n_atoms]
    return Crystal(Quantity(np.diag([4., 5., 6.]), 'angstrom'), r,
                   np.array(['Na', 'Cl'])[:n_atoms],
                   Quantity(np.array([23., 35.5])[:n_atoms], 'amu'))


def eigenvectors(n_q, n_atoms, kind):
    """complex orthonormal eigenvectors with distinct weights per atom"""
    n = 3*n_atoms
    out = np.zeros((n_q, n, n), complex)
    for q in range(n_q):
        if kind == 'pure':
            out[q] = np.eye(n)[(np.arange(n)*5 + q) % n]
        else:
            k = np.arange(n)
            m = (np.sin(1.3*k[:, None] + k[None]**2 + q)
                 + 1j*np.cos(k[:, None]*2.1 - .7*k[None] + .4*q))
            out[q] = np.linalg.qr(m)[0]
    return out.reshape(n_q, n, n_atoms, 3)


def build(freqs, weights, unit, n_atoms, kind='mixed', only_freq=False):
    from euphonic import Quantity, QpointFrequencies, QpointPhononModes
    n_q = len(freqs)
    q = np.array([[.1*i, .2, -.3*i] for i in range(n_q)])
    w = None if weights is None else np.array(weights[:n_q], float)
    f = Quantity(np.array(freqs, float)/8, unit)
    if only_freq:
        return QpointFrequencies(crystal(n_atoms), q, f, weights=w)
    return QpointPhononModes(crystal(n_atoms), q, f,
                             eigenvectors(n_q, n_atoms, kind), weights=w)


def histogram(pos, names, contrib, widths, other):
    """(low, high) bounds of the expected histogram: equal unless a mode
    is on an edge and bins are in another unit. contrib broadcast (q, m)"""
    n = len(widths)
    sure = np.zeros(n)
    maybe = []
    for (i, row) in enumerate(names):
        for j, p in enumerate(row):
            _, up, down = pos[p]
            c = contrib[i][j]
            if not other or up == down:
                if up is not None:
                    sure[up] += c
            else:
                maybe.append((c, [k for k in (up, down)], ))
    return sure, maybe


def agree(got, sure, maybe, widths):
    """exact when nothing is ambiguous; otherwise some resolution of the
    ambiguous modes must explain the result"""
    scale = np.abs(sure).max(initial=0) + sum(abs(c) for c, _ in maybe)
    tol = 1e-9*max(scale, 1e-300)
    res = got*widths - sure
    options = [sorted(set(k), key=str) for _, k in maybe]
    for pick in itertools.product(*options):
        r = res.copy()
        for (c, _), k in zip(maybe, pick):
            if k is not None:
                r[k] -= c
        if np.abs(r).max(initial=0) <= tol:
            return True
    return False


def units(tier):
    for b in BINS:
        names = list(positions(b))
        for k in range(3):
            yield f'one/{b}/{k}', dict(mode='one', bins=b, part=k)
    for b in BINS:
        yield f'two/{b}', dict(mode='two', bins=b, part=0)
        yield f'pdos/{b}', dict(mode='pdos', bins=b, part=0)
    yield 'map', dict(mode='qmap', bins='uneven', part=0)
    yield 'reference', dict(mode='reference', bins='even', part=0)


def run(ctx, mode, bins, part):
    globals()[mode](ctx, bins, part)


def dos_of(ctx, obj, bins, bunit, unit):
    from euphonic import Quantity
    from euphonic.spectra import Spectrum1D
    edges = np.array(BINS[bins])/8
    eb = Quantity(edges*factor(unit, bunit) if bunit != unit else edges,
                  bunit)
    before = eb.magnitude.copy()
    d = obj.calculate_dos(eb)
    ctx.transition()
    ok = (type(d) is Spectrum1D and d.y_data.shape == (len(edges) - 1,)
          and np.array_equal(d.x_data.magnitude, before)
          and str(d.x_data.units) == str(eb.units)
          and np.array_equal(eb.magnitude, before))
    return d, eb, ok


def compare(ctx, obj, bins, bunit, unit, pos, rows, w, case):
    d, eb, ok = dos_of(ctx, obj, bins, bunit, unit)
    if not ctx.check(ok, 'DOS axis or shape wrong', case):
        return
    w = np.ones(len(rows)) if w is None else np.array(w[:len(rows)])
    n_m = len(rows[0])
    contrib = np.repeat((w/w.sum()*3/n_m)[:, None], n_m, axis=1)
    widths = np.diff(eb.magnitude)
    sure, maybe = histogram(pos, rows, contrib, widths, bunit != unit)
    y = d.y_data.to(f'1/({bunit})', 'reciprocal_spectroscopy').magnitude
    ctx.check(agree(y, sure, maybe, widths),
              'DOS is not the weighted count of modes', case,
              lambda: dict(got=y*widths, expected=sure, ambiguous=maybe))
    ctx.trace()
    ctx.outcome(np.round(y*widths, 9).tobytes())


def one(ctx, bins, part):
    """one q-point, three or six modes, every assignment"""
    pos = positions(bins)
    names = list(pos)
    for t in itertools.combinations_with_replacement(names, 3):
        # order of the modes does not matter to the model; rotate it
        rows = [t[part:] + t[:part]]
        for unit in (UNITS if ctx.thorough else UNITS[:2]):
            for bunit in {unit, UNITS[(UNITS.index(unit) + 2) % 5]}:
                case = dict(bins=bins, modes=rows[0], unit=unit, bunit=bunit)
                ctx.state(tuple(case.values()))
                ctx.case = case
                w = ('one', 'default', 'tiny')[part]
                o = build([[pos[p][0] for p in rows[0]]],
                          WEIGHTS[w], unit, 1, only_freq=part == 1)
                compare(ctx, o, bins, bunit, unit, pos, rows, WEIGHTS[w],
                        case)
    # more modes than three per atom, or fewer: still normalised to 3
    for k in (1, 2, 5):
        for t in itertools.combinations_with_replacement(names[::2], k):
            case = dict(bins=bins, modes=t, n_modes=k)
            o = build([[pos[p][0] for p in t]], None, 'meV', 1,
                      only_freq=True)
            compare(ctx, o, bins, 'meV', 'meV', pos, [t], None, case)
    ctx.sample(dict(bins=bins, positions={k: v[0]/8 for k, v in pos.items()}))


def two(ctx, bins, part):
    """two or three q-points with weights"""
    pos = positions(bins)
    names = list(pos)
    few = [names[0], names[2], names[3], names[-1]]
    converted = collections.Counter()
    for n_q in (2, 3):
        alphabet = (names if ctx.thorough else few + ['above']) \
            if n_q == 2 else few[1:3] + [names[-1]]
        triples = list(itertools.combinations_with_replacement(alphabet, 3))
        if n_q == 3 or (ctx.thorough and len(triples) > 60):
            triples = triples[::3]
        for rows in itertools.product(triples, repeat=n_q):
            for wname, w in WEIGHTS.items():
                if w is not None and len(w) < n_q:
                    continue
                case = dict(bins=bins, modes=rows, weights=wname)
                if not ctx.state((bins, rows, wname)):
                    continue
                ctx.case = case
                o = build([[pos[p][0] for p in r] for r in rows], w, 'meV',
                          1, only_freq=True)
                compare(ctx, o, bins, 'meV', 'meV', pos, rows, w, case)
                converted[n_q, wname] += 1
                if converted[n_q, wname] <= 12:
                    conversions(ctx, o, w, case)
    ctx.sample(ctx.case)


def conversions(ctx, o, w, case):
    """the frequencies of modes and of structure factors are those modes with
    the same weights"""
    from euphonic import Quantity, QpointPhononModes, StructureFactor
    for kind, c in (
            ('modes', QpointPhononModes(
                o.crystal, o.qpts, o.frequencies,
                eigenvectors(o.n_qpts, 1, 'mixed'), weights=o.weights)),
            ('structure factor', StructureFactor(
                o.crystal, o.qpts, o.frequencies,
                Quantity(np.ones((o.n_qpts, 3)), 'mbarn'),
                weights=o.weights))):
        f = c.to_qpoint_frequencies()
        ctx.transition()
        ctx.check(np.array_equal(f.weights, o.weights)
                  and np.array_equal(f.qpts, o.qpts)
                  and np.allclose(f.frequencies.to('meV').magnitude,
                                  o.frequencies.to('meV').magnitude, 1e-12, 0)
                  and f.n_qpts == o.n_qpts, 'conversion changes the modes or '
                  'their weights', dict(of=kind, **case),
                  lambda: (f.weights, o.weights))


def cross_section(xs, weighting):
    """what the documentation says is used, per species in mbarn; an
    independent reading of the data file for names"""
    if isinstance(xs, dict):
        return {k: v.to('mbarn').magnitude for k, v in xs.items()}
    if weighting is None:
        return None
    import json
    import euphonic
    path = {'BlueBook': os.path.join(os.path.dirname(euphonic.__file__),
                                     'data', 'bluebook.json')}.get(xs, xs)
    props = json.load(open(path))['physical_property']
    out = {}
    for s in ('Na', 'Cl'):
        out[s] = 0.
        for k in ('coherent', 'incoherent'):
            if k in weighting.split('-plus-'):
                t = props[f'{k}_cross_section']
                out[s] += factor(t['__units__'], 'mbarn')*t[s]
    return out


def pdos(ctx, bins, part):
    from euphonic import Quantity
    pos = positions(bins)
    names = list(pos)
    inside = [n for n in names if n[0] in 'em']
    edges = np.array(BINS[bins])/8
    widths = np.diff(edges)
    tmp = tempfile.mkdtemp()
    try:
        import json
        custom = os.path.join(tmp, 'custom.json')
        with open(custom, 'w') as f:
            json.dump(dict(physical_property=dict(
                coherent_cross_section=dict(__units__='barn', Na=3, Cl=.5),
                incoherent_cross_section=dict(__units__='fm^2', Na=0,
                                              Cl=11.))), f)
        sets = [(None, 'BlueBook'), ('coherent', 'BlueBook'),
                ('incoherent', 'BlueBook'),
                ('coherent-plus-incoherent', 'BlueBook'),
                ('coherent', custom), ('incoherent', custom),
                ('coherent-plus-incoherent', custom)]
        for x in XS.values():
            sets += [(wt, {k: Quantity(*v) for k, v in x.items()})
                     for wt in (None, 'coherent')]
        alphabet = inside if ctx.thorough else inside[::2] + ['below']
        for t in itertools.product(alphabet, repeat=2):
            # six modes at two q-points: two free positions, others spread
            rows = [t + tuple(names[(i + len(t)) % len(names)]
                              for i in range(4)),
                    tuple(names[(2*i + 1) % len(names)] for i in range(6))]
            for wname, kind, (wt, xs), bunit in itertools.product(
                    ('default', 'unnorm', 'zero'), ('mixed', 'pure'), sets,
                    ('meV', 'THz')):
                xname = ('dict' if isinstance(xs, dict)
                         else os.path.basename(xs))
                case = dict(bins=bins, modes=rows, weights=wname, evecs=kind,
                            weighting=wt, cross_sections=xname, bunit=bunit)
                if bunit == 'THz' and (kind == 'pure' or wname != 'unnorm'):
                    continue
                if not ctx.thorough and kind == 'pure' and xname != 'dict':
                    continue
                ctx.state(tuple(map(str, case.values())))
                ctx.case = case
                w = WEIGHTS[wname]
                o = build([[pos[p][0] for p in r] for r in rows], w, 'meV',
                          2, kind)
                keep = o.eigenvectors.copy()
                eb = edges*(factor('meV', bunit) if bunit != 'meV' else 1)
                c = o.calculate_pdos(Quantity(eb, bunit), weighting=wt,
                                     cross_sections=xs)
                ctx.transition()
                check_pdos(ctx, c, o, pos, rows, w, xs, wt, eb, bunit, case)
                ctx.check(np.array_equal(keep, o.eigenvectors),
                          'eigenvectors modified', case)
        bad_inputs(ctx, o, Quantity(edges, 'meV'))
        ctx.sample(case)
    finally:
        shutil.rmtree(tmp)


def check_pdos(ctx, c, o, pos, rows, w, xs, wt, eb, bunit, case):
    ctx.trace()
    lines = c.metadata.get('line_data')
    meta = [{**{k: v for k, v in c.metadata.items() if k != 'line_data'},
             **ln} for ln in (lines or [])]
    if not ctx.check(
            len(c) == 2 and len(meta) == 2
            and [m.get('species') for m in meta] == ['Na', 'Cl']
            and [m.get('index') for m in meta] == [0, 1]
            and (wt is None or all(m.get('weighting') == wt for m in meta)),
            'PDOS metadata wrong', case, lambda: c.metadata):
        return
    w = np.ones(2) if w is None else np.array(w[:2])
    w = w/w.sum()
    cs = cross_section(xs, wt)
    mass = dict(Na=23., Cl=35.5)
    dim = f'1/({bunit})' if cs is None else f'mbarn/({bunit})'
    y = c.y_data.to(dim, 'reciprocal_spectroscopy').magnitude
    widths = np.diff(eb)
    other = bunit != 'meV'
    for k, s in enumerate(('Na', 'Cl')):
        e2 = (np.abs(o.eigenvectors[:, :, k])**2).sum(-1)
        contrib = w[:, None]*e2/2
        if cs is not None:
            contrib = contrib*cs[s]*29.25/mass[s]
        sure, maybe = histogram(pos, rows, contrib, widths, other)
        if not ctx.check(agree(y[k], sure, maybe[:8], widths)
                         if len(maybe) <= 8 else
                         within(y[k], sure, maybe, widths),
                         'PDOS of an atom is not its weighted count', case,
                         lambda: dict(atom=k, got=y[k]*widths,
                                      expected=sure, ambiguous=maybe)):
            return
    if cs is None and not other:
        d = o.calculate_dos(type(c.x_data)(eb, bunit))
        ctx.transition()
        t = c.sum().y_data.to(dim).magnitude
        ctx.check(np.allclose(t, d.y_data.to(dim).magnitude, rtol=1e-9,
                              atol=1e-12), 'PDOS do not add up to the DOS',
                  case)
    ctx.outcome(np.round(y, 8).tobytes())


def within(got, sure, maybe, widths):
    hi = sure.copy()
    for c, ks in maybe:
        for k in ks:
            if k is not None:
                hi[k] += c
    t = 1e-9*(hi.max() + 1e-300)
    g = got*widths
    return np.all(g >= sure - t) and np.all(g <= hi + t)


def bad_inputs(ctx, o, eb):
    from euphonic import Quantity
    calls = {
        'weighting': dict(weighting='coherant'),
        'collection': dict(weighting='coherent', cross_sections='Sears1992'),
        'missing': dict(weighting='coherent', cross_sections={
            'Na': Quantity(1., 'barn')}),
        'dimension': dict(weighting='coherent', cross_sections={
            'Na': Quantity(1., 'fm'), 'Cl': Quantity(1., 'fm')}),
        'second dimension': dict(weighting='coherent', cross_sections={
            'Na': Quantity(1., 'barn'), 'Cl': Quantity(1., 'fm')}),
        'type': dict(cross_sections=3),
        'method': dict(mode_widths=o.frequencies, adaptive_method='quick')}
    for name, kw in calls.items():
        try:
            o.calculate_pdos(eb, **kw)
            ctx.fail('invalid argument accepted', dict(argument=name), kw)
        except Exception:
            pass
        ctx.transition()


def qmap(ctx, bins, part):
    """DOS map: one DOS per q-point, whatever the weights"""
    from euphonic import Quantity
    from euphonic.spectra import Spectrum2D
    for b in BINS:
        pos = positions(b)
        names = list(pos)
        edges = np.array(BINS[b])/8
        for t in itertools.product(names, repeat=2):
            rows = [(t[0], names[3], t[1]), (t[1], t[1], names[-1]),
                    (names[0], t[0], names[2])]
            for wname, w in WEIGHTS.items():
                if wname == 'one':
                    continue
                case = dict(bins=b, modes=rows, weights=wname)
                ctx.state((b, rows, wname))
                ctx.case = case
                o = build([[pos[p][0] for p in r] for r in rows], w, 'meV',
                          1, only_freq=wname != 'unnorm')
                m = o.calculate_dos_map(Quantity(edges, 'meV'))
                ctx.transition()
                ctx.trace()
                if not ctx.check(
                        type(m) is Spectrum2D
                        and m.z_data.shape == (3, len(edges) - 1)
                        and np.array_equal(m.y_data.magnitude, edges),
                        'DOS map shape or axis wrong', case):
                    continue
                q = o.qpts @ np.diag([1/4, 1/5, 1/6])*2*np.pi
                x = np.append(0, np.cumsum(np.linalg.norm(np.diff(
                    q, axis=0), axis=1)))
                ctx.check(np.allclose(
                    m.x_data.to('1/angstrom').magnitude, x),
                    'DOS map q-axis wrong', case)
                z = m.z_data.to('1/meV').magnitude*np.diff(edges)
                e = np.zeros(z.shape)
                for i, r in enumerate(rows):
                    for p in r:
                        if pos[p][1] is not None:
                            e[i, pos[p][1]] += 1
                ctx.check(np.allclose(z, e, atol=1e-9), 'DOS map row is not '
                          'the DOS of its q-point', case,
                          lambda: dict(got=z, expected=e))
                ctx.outcome(z.round(6).tobytes())
    ctx.sample(case)


def reference(ctx, bins, part):
    """every element of every property of the reference data"""
    import json
    import euphonic
    from euphonic.util import get_reference_data
    base = os.path.join(os.path.dirname(euphonic.__file__), 'data')
    for coll, file in (('BlueBook', 'bluebook.json'),
                       ('Sears1992', 'sears-1992.json')):
        props = json.load(open(os.path.join(base, file)))['physical_property']
        for p, table in props.items():
            d = get_reference_data(coll, p)
            ctx.transition()
            exp = {}
            for k, v in table.items():
                if isinstance(v, dict):
                    v = complex(v['real'], v['imag'])
                if isinstance(v, (int, float, complex)):
                    exp[k] = v
            ctx.state((coll, p))
            ctx.trace()
            ctx.check(set(d) == set(exp) and all(
                abs(d[k].to(table['__units__']).magnitude - exp[k])
                <= 1e-12*abs(exp[k]) for k in d),
                'reference data not as in the file', dict(coll=coll, prop=p),
                lambda: sorted(set(d) ^ set(exp)))
            ctx.outcome((coll, p, len(d)))
    for args in (('Nothing', 'coherent_cross_section'),
                 ('BlueBook', 'coherent_scattering_length')):
        try:
            get_reference_data(*args)
            ctx.fail('unknown reference data accepted', dict(args=args), '')
        except ValueError:
            pass
