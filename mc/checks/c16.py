"""C16: scattering maps conserve intensity and obey detailed balance."""
import functools
import itertools

import numpy as np

TECHNIQUE = ('exhaustive enumeration of all assignments of mode energies to '
             'bin positions on both energy-transfer sides x temperatures x '
             'weights x bins x units on the real code, against a model that '
             'places populations at exact positions')
NOTE = ('The model places sf(1+n) at +E and sf n at -E for every mode of '
        'every q-point; each returned map row and 1-D average is compared '
        'bin by bin as integrated intensity.')
RULE = ('one state per (bins, mode positions, temperature, units, options); '
        'a transition is one map or average')
ASSUMPTIONS = ['a mode exactly on a bin edge belongs to the bin above; with '
               'bins in another unit than the frequencies either side is '
               'accepted', 'modes of zero frequency have infinite population '
               'and are not considered', 'an imaginary mode is placed at its '
               'negative frequency, its population is that of the modulus',
               'without any temperature no population can be applied: the '
               'bare intensity on both sides (or an error) is accepted']
BINS = {'loss': (0, 8, 16, 24), 'both': (-24, -8, 0, 8, 24),
        'uneven': (-20, -3, 1, 2, 17), 'gain': (-24, -16, -2),
        'one': (4, 12)}
TEMPS = {'none': None, '0 K': (0., 'K'), '1 K': (1., 'K'),
         '300 K': (300., 'K'), '27 C': (27., 'degC')}
KB = 0.08617333262145      # meV/K (exact SI definition)


@functools.lru_cache(None)
def factor(a, b):
    from euphonic import Quantity
    return Quantity(1., a).to(b).magnitude


def positions(bins):
    """energies (in units of 1/8 meV) with different places in the bins"""
    b = BINS[bins]
    e = set()
    for x in b:
        if x:
            e.add(abs(x))
    for lo, hi in zip(b[:-1], b[1:]):
        m = (lo + hi)/2
        if m:
            e.add(abs(m) + .25)
    e |= {30, .5}
    return sorted(e)


def place(bins, x, other):
    """possible bins (None outside) of energy x"""
    b = BINS[bins]
    def idx(side):
        for i in range(len(b) - 1):
            if (b[i] <= x < b[i+1]) if side else (b[i] < x <= b[i+1]):
                return i
        return None
    up, down = idx(True), idx(False)
    return [up] if not other else sorted({up, down}, key=str)


def population(e, t):
    """Planck distribution of energy e/8 meV"""
    if t is None:
        return None
    temp = t[0] + (273.15 if t[1] == 'degC' else 0)
    if temp == 0:
        return 0.
    x = abs(e)/8/(KB*temp)
    return 0. if x > 700 else 1/np.expm1(x)


def crystal(n):
    from euphonic import Crystal, Quantity
    return Crystal(Quantity(np.diag([4., 5., 6.]), 'angstrom'),
                   np.array([[0., 0, 0], [.5, .4, .3]])[:n],
                   np.array(['Na', 'Cl'])[:n],
                   Quantity(np.array([23., 35.5])[:n], 'amu'))


def build(rows, sf, stored, unit='meV', weights=None, sfunit='mbarn'):
    from euphonic import Quantity, StructureFactor
    n_q = len(rows)
    q = np.array([[.1*i, .2, -.3*i] for i in range(n_q)])
    f = np.array(rows, float)/8
    f = f if unit == 'meV' else f*factor('meV', unit)
    return StructureFactor(
        crystal(f.shape[1]//3), q, Quantity(f, unit),
        Quantity(np.array(sf, float)*factor('mbarn', sfunit), sfunit),
        weights=weights,
        temperature=None if stored is None else Quantity(*stored))


def expected(bins, row, sf, t, other):
    n = len(BINS[bins]) - 1
    sure, maybe = np.zeros(n), []
    for e, s in zip(row, sf):
        p = population(e, t)
        for x, amount in ((e, s if p is None else s*(1 + p)),
                          (-e, s if p is None else s*p)):
            k = place(bins, x, other)
            if len(k) == 1:
                if k[0] is not None:
                    sure[k[0]] += amount
            else:
                maybe.append((amount, k))
    return sure, maybe


def agree(got, sure, maybe, tol=1e-8):
    scale = np.abs(sure).max(initial=0) + sum(abs(a) for a, _ in maybe)
    res = got - sure
    if not np.all(np.isfinite(res)):
        return False
    small = [m for m in maybe if abs(m[0]) <= tol*scale]
    maybe = [m for m in maybe if abs(m[0]) > tol*scale]
    for pick in itertools.product(*[k for _, k in maybe]):
        r = res.copy()
        for (a, _), k in zip(maybe, pick):
            if k is not None:
                r[k] -= a
        if np.abs(r).max(initial=0) <= (tol*(1 + len(small)))*max(
                scale, 1e-300):
            return True
    return False


def units(tier):
    for b in BINS:
        for t in TEMPS:
            yield f'map/{b}/{t}', dict(mode='single', bins=b, temp=t)
        yield f'average/{b}', dict(mode='average', bins=b, temp='300 K')
        yield f'units/{b}', dict(mode='unit', bins=b, temp='300 K')
    yield 'options', dict(mode='options', bins='both', temp='300 K')


def run(ctx, mode, bins, temp):
    globals()[mode](ctx, bins, temp)


def mapcheck(ctx, o, rows, sf, bins, t, eb, bunit, sfunit, case, **kw):
    from euphonic.spectra import Spectrum2D
    before = eb.magnitude.copy()
    m = o.calculate_sqw_map(eb, **kw)
    ctx.transition()
    ctx.trace()
    if not ctx.check(
            type(m) is Spectrum2D
            and m.z_data.shape == (len(rows), len(before) - 1)
            and np.array_equal(m.y_data.magnitude, before)
            and np.array_equal(eb.magnitude, before)
            and m.x_data.shape[0] in (len(rows), len(rows) + 1),
            'map shape or axis wrong', case):
        return
    z = m.z_data.to(f'mbarn/({bunit})', 'reciprocal_spectroscopy').magnitude
    z = z*np.diff(before)
    for i, (row, s) in enumerate(zip(rows, sf)):
        sure, maybe = expected(bins, row, s, t, bunit != 'meV')
        if not ctx.check(agree(z[i], sure, maybe),
                         'intensity of a q-point is not placed once per mode '
                         'with its population', case,
                         lambda: dict(qpt=i, got=z[i], expected=sure,
                                      ambiguous=maybe)):
            return
    ctx.outcome(np.round(z, 7).tobytes())


def edges(bins, unit):
    from euphonic import Quantity
    e = np.array(BINS[bins])/8
    return Quantity(e if unit == 'meV' else e*factor('meV', unit), unit)


def single(ctx, bins, temp):
    """all assignments of three modes"""
    t = TEMPS[temp]
    e = positions(bins)
    e = e + [-e[len(e)//2], -e[1]]          # imaginary modes
    eb = edges(bins, 'meV')
    sf = [[1., 10., 100.], [3., .5, 7.]]
    for row in itertools.combinations_with_replacement(e, 3):
        rows = [list(row), list(row[1:] + row[:1])]
        for how in ('stored', 'given', 'both'):
            if t is None and how != 'stored':
                continue
            case = dict(bins=bins, modes=row, temperature=temp, how=how)
            if not ctx.thorough and how == 'both' and row[0] != e[0]:
                continue
            ctx.state(tuple(case.values()))
            ctx.case = case
            o = build(rows, sf, t if how != 'given' else None)
            kw = {}
            if how != 'stored':
                from euphonic import Quantity
                kw['temperature'] = Quantity(*t)
            if t is None:
                try:
                    mapcheck(ctx, o, rows, sf, bins, None, eb, 'meV', 'mbarn',
                             case, **kw)
                except Exception as err:
                    if 'emperature' not in str(err):
                        raise
                    ctx.transition()
            else:
                mapcheck(ctx, o, rows, sf, bins, t, eb, 'meV', 'mbarn', case,
                         **kw)
            ctx.check(o.temperature is None if (how == 'given' or t is None)
                      else True, 'temperature stored by the calculation',
                      case)
        case = dict(bins=bins, modes=row, temperature=temp, how='no bose')
        ctx.state(tuple(case.values()))
        mapcheck(ctx, build(rows, sf, t), rows, sf, bins, None, eb, 'meV',
                 'mbarn', case, calc_bose=False)
    ctx.sample(case)


def unit(ctx, bins, temp):
    """units of frequencies, bins and intensities; six modes"""
    e = positions(bins)
    sf = [[1., 3., 9., .3, 2., 5.]]
    for a, b in itertools.combinations_with_replacement(e, 2):
        rows = [[a, b, e[0], e[-1], e[len(e)//2], a]]
        for fu, bu, su in itertools.product(
                ('meV', 'THz', '1/cm'), ('meV', 'THz', '1/cm', 'hartree'),
                ('mbarn', 'bohr**2', 'angstrom**2')):
            case = dict(bins=bins, modes=rows[0], freq_unit=fu, bin_unit=bu,
                        unit=su)
            ctx.state(tuple(map(str, case.values())))
            ctx.case = case
            o = build(rows, sf, TEMPS[temp], fu, sfunit=su)
            eb = edges(bins, bu)
            # frequencies in another unit: edges are approximate
            m = o.calculate_sqw_map(eb)
            ctx.transition()
            ctx.trace()
            z = m.z_data.to(f'mbarn/({bu})',
                            'reciprocal_spectroscopy').magnitude
            z = (z*np.diff(eb.magnitude))[0]
            sure, maybe = expected(bins, rows[0], sf[0], TEMPS[temp],
                                   fu != 'meV' or bu != 'meV')
            ctx.check(agree(z, sure, maybe, 1e-6), 'intensity depends on '
                      'units', case, lambda: dict(got=z, expected=sure,
                                                  ambiguous=maybe))
            ctx.check(m.y_data_unit == bu or str(m.y_data.units) == str(
                eb.units), 'bins returned in another unit', case)
            ctx.outcome(np.round(z, 5).tobytes())
    ctx.sample(case)


def average(ctx, bins, temp):
    """1-D averages: weighted mean over q-points"""
    from euphonic import Quantity
    from euphonic.spectra import Spectrum1D
    e = positions(bins)
    eb = edges(bins, 'meV')
    sf = np.array([[1., 2., 4.], [9., 5., 3.], [.1, 11., 6.]])
    few = e[::2] if not ctx.thorough else e
    weights = {'default': None, 'unnorm': np.array([3., .5, 2.]),
               'zero': np.array([0., 1., 2.]),
               'ints': np.array([1, 2, 4])}
    for t3 in itertools.product(few, repeat=3):
        rows = [[t3[0], e[0], e[1]], [t3[1], t3[0], e[-1]],
                [t3[2], t3[1], t3[1]]]
        for (wn, w), how, tn in itertools.product(
                weights.items(), ('own', 'argument', 'override'),
                ('0 K', '300 K', 'no bose')):
            if wn == 'default' and how != 'own':
                continue
            case = dict(bins=bins, modes=rows, weights=wn, how=how, temp=tn)
            if not ctx.state((bins, t3, wn, how, tn)):
                continue
            ctx.case = case
            o = build(rows, sf, TEMPS.get(tn, TEMPS['1 K']), weights=(
                w if how == 'own' else np.array([5., 1, 1])
                if how == 'override' else None))
            kw = dict(calc_bose=tn != 'no bose')
            if how != 'own':
                kw['weights'] = w
            keep = None if w is None else w.copy()
            d = o.calculate_1d_average(eb, **kw)
            ctx.transition()
            ctx.trace()
            ww = np.ones(3) if w is None else np.array(w, float)
            ww = ww/ww.sum()
            exp = np.zeros(len(BINS[bins]) - 1)
            for i in range(3):
                exp += ww[i]*expected(bins, rows[i], sf[i],
                                      TEMPS.get(tn), False)[0]
            ok = type(d) is Spectrum1D and d.y_data.shape == exp.shape
            y = d.y_data.to('mbarn/meV').magnitude*np.diff(eb.magnitude)
            ctx.check(ok and agree(y, exp, []), '1-D average is not the '
                      'weighted mean over q-points', case,
                      lambda: dict(got=y, expected=exp))
            ctx.check(keep is None or np.array_equal(keep, w),
                      'weights modified', case)
            ctx.outcome(np.round(y, 7).tobytes())
    ctx.sample(case)


def options(ctx, bins, temp):
    """temperature conflicts"""
    from euphonic import Quantity
    rows, sf = [[3., 7., 20.]], [[1., 2., 3.]]
    eb = edges(bins, 'meV')
    for (a, ta), (b, tb) in itertools.product(TEMPS.items(), repeat=2):
        if tb is None:
            continue
        case = dict(stored=a, given=b)
        ctx.state((a, b))
        ctx.case = case
        o = build(rows, sf, ta)
        conflict = ta is not None and a != b
        for f in (o.calculate_sqw_map, o.calculate_1d_average):
            try:
                f(eb, temperature=Quantity(*tb))
                raised = False
            except ValueError:
                raised = True
            ctx.transition()
            if {a, b} <= {'300 K', '27 C'} and a != b:
                continue        # 300.15 K: within or outside tolerance
            ctx.check(raised == conflict, 'conflicting temperatures '
                      'accepted' if conflict else 'temperature rejected',
                      case)
        if not conflict:
            mapcheck(ctx, o, rows, sf, bins, tb, eb, 'meV', 'mbarn', case,
                     temperature=Quantity(*tb))
    for bad in (np.ones(2), np.zeros(1), np.ones((2, 2))):
        try:
            build(rows, sf, None).calculate_1d_average(eb, weights=bad)
            ctx.fail('invalid weights accepted', dict(weights=bad), '')
        except Exception:
            ctx.transition()
