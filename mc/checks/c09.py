"""C09: values never change when their units are changed."""
import copy
import itertools

import numpy as np

from mc import gen

TECHNIQUE = ('bounded-exhaustive enumeration of histories of unit changes, '
             'reads, sets and rejected operations on the real objects against '
             'a model holding SI numbers, and of unit products for every '
             'computation')
NOTE = ('Every history up to the bound is executed on the real objects and '
        'after each step every quantity is compared with the model; every '
        'unit combination of the alphabet is used for every computation.')
RULE = ('one state per history prefix and per (computation, unit combination); '
        'a transition is one operation on the implementation')
ASSUMPTIONS = ['energy, frequency and wavenumber (and, for frequencies and '
               'spectra, wavelength) are one dimension for Euphonic (its unit '
               'registry enables the spectroscopy context)',
               'conversion factors of the model come from CODATA values, '
               'compared to a relative 2e-7']
# SI factors, written out (CODATA 2018)
HA, BOHR, ME, AMU = 4.3597447222071e-18, 5.29177210903e-11, 9.1093837015e-31, \
    1.66053906660e-27
EV, HP, CL = 1.602176634e-19, 6.62607015e-34, 299792458.
E2 = EV**2/(4*np.pi*8.8541878128e-12)       # e**2 in J m (Gaussian units)
F = {
    'J': 1., 'meV': EV*1e-3, 'eV': EV, 'hartree': HA, 'THz': HP*1e12,
    '1/cm': HP*CL*100, 'Ry': HA/2,
    'm': 1., 'bohr': BOHR, 'angstrom': 1e-10, 'nm': 1e-9,
    'kg': 1., 'amu': AMU, 'electron_mass': ME,
    'hartree/bohr**2': HA/BOHR**2, 'meV/angstrom**2': EV*1e-3/1e-20,
    'eV/nm**2': EV/1e-18, 'e': EV, 'C': 1.,
    'bohr**2': BOHR**2, 'angstrom**2': 1e-20, 'mbarn': 1e-31, 'm**2': 1.,
    'hartree*bohr': HA*BOHR,
    '1/angstrom': 1e10, '1/bohr': 1/BOHR, '1/nm': 1e9,
    '1/meV': 1e3/EV, '1/hartree': 1/HA, '1/THz': 1e-12/HP,
    'cm': 1/(HP*CL*100), 'mbarn/meV': 1e-31/(EV*1e-3),
    'bohr**2/hartree': BOHR**2/HA, 'angstrom**2/eV': 1e-20/EV,
    'e**2/(bohr*hartree)': EV**2/(BOHR*HA),
    'e**2/(angstrom*eV)': EV**2/(1e-10*EV),
}
ENERGY = ('meV', 'hartree', 'THz', '1/cm', 'J')
DIM = {
    'energy': (ENERGY, ('K', 'kg', '1/meV', 'bohr**2', 'nonsense')),
    # spectrum axes: a period counts as an energy
    'axis': (ENERGY, ('K', 'kg', 'bohr**2', 'nonsense')),
    'wave': (('1/angstrom', '1/bohr', '1/nm'), ('K', 'amu', 'nonsense')),
    'length': (('angstrom', 'bohr', 'nm', 'm'),
               ('K', 'amu', '1/meV', 'bohr**2', 'nonsense')),
    'mass': (('amu', 'kg', 'electron_mass'), ('meV', 'bohr', 'nonsense')),
    'fc': (('hartree/bohr**2', 'meV/angstrom**2', 'eV/nm**2'),
           ('meV', 'bohr', 'nonsense')),
    'charge': (('e', 'C'), ('meV', 'bohr', 'nonsense')),
    'eps': (('e**2/(bohr*hartree)', 'e**2/(angstrom*eV)'), ('e', 'meV')),
    'area': (('angstrom**2', 'bohr**2', 'mbarn', 'm**2'),
             ('angstrom', 'K', 'nonsense')),
    'dos': (('1/meV', '1/hartree', '1/THz', 'cm'), ('K', 'mbarn')),
    'sqw': (('mbarn/meV', 'bohr**2/hartree', 'angstrom**2/eV'),
            ('meV', 'K')),
    'temp': (('K', 'mK', 'degC', 'degF'), ('meV', 'bohr', 'nonsense')),
}


def si(value, unit, dim):
    v = np.asarray(value, float)
    if dim == 'temp':
        return {'K': v, 'mK': v*1e-3, 'degC': v + 273.15,
                'degF': (v + 459.67)/1.8}[unit]
    if dim == 'energy' and unit in ('angstrom', 'nm'):
        return HP*CL/(v*F[unit])
    return v*F[unit]


def unsi(value, unit, dim):
    v = np.asarray(value, float)
    if dim == 'temp':
        return {'K': v, 'mK': v*1e3, 'degC': v - 273.15,
                'degF': v*1.8 - 459.67}[unit]
    if dim == 'energy' and unit in ('angstrom', 'nm'):
        return HP*CL/(v*F[unit])
    return v/F[unit]


def dos_objects():
    from euphonic import ureg, Quantity
    from euphonic.spectra import (Spectrum1D, Spectrum1DCollection,
                                  Spectrum2D, Spectrum2DCollection)
    x = np.array([1., 2, 4, 5])
    y = np.array([3., 1, 2])
    return {
        'Spectrum1D': (lambda: Spectrum1D(
            x*ureg('meV'), Quantity(y, '1/meV')),
            {'x_data': ('axis', x, 'meV'), 'y_data': ('dos', y, '1/meV')}),
        'Spectrum1DCollection': (lambda: Spectrum1DCollection(
            x*ureg('1/cm'), Quantity(np.array([y, 2*y]), 'mbarn/meV')),
            {'x_data': ('axis', x, '1/cm'),
             'y_data': ('sqw', np.array([y, 2*y]), 'mbarn/meV')}),
        'Spectrum2D': (lambda: Spectrum2D(
            x*ureg('1/angstrom'), x*2*ureg('meV'),
            np.outer(y, y)*ureg('mbarn/meV')),
            {'x_data': ('wave', x, '1/angstrom'),
             'y_data': ('axis', x*2, 'meV'),
             'z_data': ('sqw', np.outer(y, y), 'mbarn/meV')}),
        'Spectrum2DCollection': (lambda: Spectrum2DCollection(
            x*ureg('1/bohr'), x*2*ureg('THz'),
            np.array([np.outer(y, y)])*ureg('1/meV')),
            {'x_data': ('wave', x, '1/bohr'),
             'y_data': ('axis', x*2, 'THz'),
             'z_data': ('dos', np.array([np.outer(y, y)]), '1/meV')}),
    }


def objects():
    from euphonic import (Crystal, DebyeWaller, ForceConstants, Quantity,
                          QpointFrequencies, QpointPhononModes,
                          StructureFactor, ureg)
    r = np.array([[0., 0, 0], [.5, .5, .5]])
    t = np.array(['Na', 'Cl'])
    cv = gen.CELLS['tric']
    m = np.array([22.99, 35.45])

    def crys():
        return Crystal(cv*ureg('angstrom'), r.copy(), t.copy(), m*ureg('amu'))
    q = np.array([[.1, .2, .3], [.5, 0, 0]])
    f = np.array([[1., 2, 3, 4, 5, 6], [2, 3, 4, 5, 6, 7]])
    ev = np.zeros((2, 6, 2, 3), complex)
    ev.reshape(2, 6, 6)[:] = np.eye(6)
    sc = np.diag([2, 1, 1])
    phi, og = gen.raw_fc('cscl', sc, 1)
    z = gen.born_charges('cscl')
    wdw = np.random.default_rng(1).uniform(.1, 1, (2, 3, 3))
    sf = f[::-1]*2
    fr = {'frequencies': ('energy', f, 'meV')}
    out = {
        'Crystal': (crys, {'cell_vectors': ('length', cv, 'angstrom'),
                           'atom_mass': ('mass', m, 'amu')}),
        'QpointFrequencies': (lambda: QpointFrequencies(
            crys(), q.copy(), f*ureg('meV')), fr),
        'QpointPhononModes': (lambda: QpointPhononModes(
            crys(), q.copy(), f*ureg('THz'), ev.copy()),
            {'frequencies': ('energy', f, 'THz')}),
        'StructureFactor': (lambda: StructureFactor(
            crys(), q.copy(), f*ureg('meV'), sf*ureg('mbarn'),
            temperature=Quantity(20., 'degC')),
            dict(fr, structure_factors=('area', sf, 'mbarn'),
                 temperature=('temp', 20., 'degC'))),
        'DebyeWaller': (lambda: DebyeWaller(
            crys(), wdw*ureg('angstrom**2'), Quantity(5., 'K')),
            {'debye_waller': ('area', wdw, 'angstrom**2'),
             'temperature': ('temp', 5., 'K')}),
        'ForceConstants': (lambda: ForceConstants(
            crys(), phi*ureg('hartree/bohr**2'), sc.copy(), og.copy(),
            born=z[0]*ureg('e'),
            dielectric=z[1]*ureg('e**2/(bohr*hartree)')),
            {'force_constants': ('fc', phi, 'hartree/bohr**2'),
             'born': ('charge', z[0], 'e'),
             'dielectric': ('eps', z[1], 'e**2/(bohr*hartree)')}),
    }
    out.update(dos_objects())
    return out


def ops(attrs, name):
    out = []
    for a in ([name] if name else attrs):
        good, bad = DIM[attrs[a][0]]
        if attrs[a][0] == 'energy' and a == 'frequencies':
            good = good + ('angstrom',)
        out += [('unit', a, u) for u in good]
        out += [('set', a, u) for u in good]
        out += [('bad', a, u) for u in bad]
        out += [('badset', a, u) for u in bad if u != 'nonsense']
    return out


def units(tier):
    for n, (_, attrs) in objects().items():
        yield f'pairs/{n}', dict(name=n, attr=None)
        for a in attrs:
            yield f'triples/{n}/{a}', dict(name=n, attr=a)
    for n in COMPUTE:
        yield f'compute/{n}', dict(name=n, attr='compute')


def run(ctx, name, attr):
    if attr == 'compute':
        return compute(ctx, name)
    build, attrs = objects()[name]
    depth = 3 if attr else 2
    if ctx.thorough:
        depth += 1
    for seq in itertools.product(ops(attrs, attr), repeat=depth):
        # a rejected operation leaves the state: only needed before the last
        if any(o[0][:3] == 'bad' for o in seq[:-2]):
            continue
        history(ctx, name, build, attrs, seq)
    ctx.sample(ctx.case)


def history(ctx, name, build, attrs, seq):
    from euphonic import ureg, Quantity
    o = build()
    model = {a: (si(v, u, d), u) for a, (d, v, u) in attrs.items()}
    for k, (op, a, u) in enumerate(seq):
        case = dict(object=name, history=seq[:k+1])
        ctx.case = case
        if not ctx.state((name,) + seq[:k+1]) and k < len(seq) - 1:
            check = False
        else:
            check = True
        d = attrs[a][0]
        ctx.transition()
        try:
            if op in ('unit', 'bad'):
                setattr(o, a + '_unit', u)
            else:
                dim = d if op == 'set' else None
                v = np.asarray(model[a][0])*1.25
                v = unsi(v, u, dim) if dim else v
                val = Quantity(v if v.shape else float(v), u)
                setattr(o, a, val)
            raised = None
        except Exception as e:
            raised = e
        if op[:3] == 'bad':
            if not ctx.check(raised is not None,
                             'wrong unit accepted', case):
                return
        else:
            if not ctx.check(raised is None, 'valid unit rejected', case,
                             lambda: repr(raised)):
                return
            s = model[a][0]*(1.25 if op == 'set' else 1)
            model[a] = (s, u)
        if check and not compare(ctx, o, model, attrs, case):
            return
    ctx.trace()
    ctx.outcome(tuple((x[0], x[2]) for x in seq))


def compare(ctx, o, model, attrs, case):
    from euphonic import ureg
    for a, (s, u) in model.items():
        try:
            q = getattr(o, a)
        except Exception as e:
            ctx.fail('quantity cannot be read', case, f'{a}: {e!r}')
            return False
        ok = (q.units == ureg.Unit(u)
              and ureg.Unit(getattr(o, a + '_unit')) == ureg.Unit(u))
        if not ctx.check(ok, 'unit of a quantity wrong', case,
                         lambda: (a, str(q.units), u)):
            return False
        exp = unsi(s, u, attrs[a][0])
        tol = 2e-7*max(np.abs(exp).max(), 1e-300)
        if not ctx.check(
                np.shape(q.magnitude) == np.shape(exp)
                and np.abs(q.magnitude - exp).max() <= tol,
                'value wrong after unit changes', case,
                lambda: (a, q.magnitude, exp)):
            return False
    return True


# ---------------------------------------------------------------- results

def phys(x, targets):
    """numbers of a result in given units"""
    from euphonic import Quantity
    out = []
    for k, t in targets.items():
        v = getattr(x, k) if k else x
        if t[:6] == 'mbarn/':
            # area per energy: also area*length, area*time
            v, t = v/Quantity(1, 'mbarn'), '1' + t[5:]
        out.append(np.asarray(v.to(t, 'reciprocal_spectroscopy').magnitude))
    return out


S1 = {'x_data': 'meV', 'y_data': 'mbarn/meV'}
D1 = {'x_data': 'meV', 'y_data': '1/meV'}
M2 = {'x_data': '1/angstrom', 'y_data': 'meV', 'z_data': 'mbarn/meV'}
MD = {'x_data': '1/angstrom', 'y_data': 'meV', 'z_data': '1/meV'}
LAT = {'cell_vectors': ('angstrom', 'bohr', 'm'),
       'atom_mass': ('amu', 'electron_mass')}


def fc_object():
    return gen.force_constants('hex', 'gen2', np.diag([2, 1, 1]), seed=1,
                               asr='exact', born='aniso', onsite=1.5)


Q = np.array([[.1, .2, .3], [0, 0, 0.], [.5, 0, 0], [.3, -.4, .1]])


def compute_fc():
    def modes(o, e):
        m, g = o.calculate_qpoint_phonon_modes(
            Q, asr='reciprocal', n_threads=1, use_c=e,
            return_mode_gradients=True)
        return phys(m, {'frequencies': 'meV'}) + [
            g.to('meV*angstrom').magnitude]

    def widths(o, e):
        from euphonic.util import mode_gradients_to_widths
        f, g = o.calculate_qpoint_frequencies(
            Q, n_threads=1, use_c=e, return_mode_gradients=True)
        w = mode_gradients_to_widths(g, o.crystal.cell_vectors)
        return [w.to('meV').magnitude]

    def crys(o, e):
        from euphonic import ureg
        c = o.crystal
        return [c.reciprocal_cell().to('1/angstrom').magnitude,
                c.cell_volume().to('angstrom**3').magnitude,
                np.array(c.get_mp_grid_spec((.3 if e else 3)*ureg(
                    '1/angstrom' if e else '1/nm'))),
                c.to_spglib_cell()[0]]
    return (fc_object, {
        'force_constants': ('hartree/bohr**2', 'meV/angstrom**2'),
        'born': ('e', 'C'),
        'dielectric': ('e**2/(bohr*hartree)', 'e**2/(angstrom*eV)')}, LAT,
        {'modes': (modes, (True, False)), 'widths': (widths, (True, False)),
         'crystal': (crys, (True, False))})


def modes_object():
    from euphonic import QpointPhononModes
    q = np.array([[.1, .2, .3], [.4, 0, 0.], [.5, 0, 0], [.3, -.4, .1]])
    m = fc_object().calculate_qpoint_phonon_modes(
        q, dipole=False, n_threads=1, weights=np.array([1., 2, 3, 1.5]))
    return m


TEMPS = ('K', 'mK', 'degC', 'degF')
BINS = ('meV', 'THz', '1/cm', 'hartree', 'J')


def compute_modes():
    from euphonic import ureg, Quantity
    edges = np.array([0., 11, 25, 40, 51, 73, 99, 130])

    def bins(u):
        return Quantity(unsi(si(edges, 'meV', 'energy'), u, 'energy'), u)
    dbins = [(b, None) for b in BINS]

    def dos(o, p):
        return phys(o.calculate_dos(bins(p[0])), D1)

    def adapt(o, p):
        w = Quantity(unsi(si(np.full(o.frequencies.shape, 4.), 'meV',
                             'energy'), p[1], 'energy'), p[1])
        r = []
        for method in ('reference', 'fast'):
            r += phys(o.calculate_dos(
                bins(p[0]), mode_widths=w, adaptive_method=method), D1)
        return r

    def dosmap(o, p):
        return phys(o.calculate_dos_map(bins(p[0])), MD)

    def pdos(o, p):
        r = []
        for w in (None, 'coherent', 'coherent-plus-incoherent'):
            d = o.calculate_pdos(bins(p[0]), weighting=w)
            r += phys(d, S1 if w else D1)
        return r

    def disp(o, p):
        d = o.get_dispersion()
        return phys(d, {'x_data': '1/angstrom', 'y_data': 'meV'}) + [
            np.array([k for k, _ in d.x_tick_labels]),
            np.array([sum(map(ord, t)) for _, t in d.x_tick_labels])]

    def dw(o, p):
        t = Quantity(float(unsi(300., p[0], 'temp')), p[0])
        f = Quantity(float(unsi(si(20., 'meV', 'energy'), p[1], 'energy')),
                     p[1])
        return phys(o.calculate_debye_waller(t, frequency_min=f),
                    {'debye_waller': 'angstrom**2', 'temperature': 'K'})

    def sf(o, p):
        from euphonic import DebyeWaller
        t = Quantity(float(unsi(300., p[0], 'temp')), p[0])
        d = o.calculate_debye_waller(t)
        d.debye_waller_unit = p[1]
        sl = {'Mg': Quantity(5.375, 'fm').to(p[2]),
              'O': Quantity(5.803, 'fm')}
        s = o.calculate_structure_factor(sl, dw=d)
        return phys(s, {'structure_factors': 'mbarn', 'frequencies': 'meV',
                        'temperature': 'K'})

    def sqw(o, p):
        s = o.calculate_structure_factor()
        s.structure_factors_unit = p[2]
        s.frequencies_unit = p[1]
        r = []

        def calc(**kw):
            out = phys(s.calculate_sqw_map(bins(p[0]), **kw), M2)
            out += phys(s.calculate_1d_average(bins(p[0]), **kw), S1)
            return out + phys(s.calculate_dos(bins(p[0])), D1)

        # the temperature may come from the argument or from the object, in
        # any unit of each: all of them for one combination of the others
        r = []
        if p == ('meV', 'meV', 'mbarn') and str(
                o.crystal.cell_vectors_unit) == 'angstrom' and str(
                o.crystal.atom_mass_unit) in ('unified_atomic_mass_unit',
                                              'amu'):
            given, shown = (None,) + TEMPS, (None, 'K', 'mK', 'degC')
        else:
            given, shown = (None, 'degC'), (None, 'mK')
        for g, t, u in itertools.product(given, given, shown):
            if (t is None and (g is None or u)):
                continue
            if t:
                s.temperature = Quantity(float(unsi(300., t, 'temp')), t)
                if u:
                    s.temperature_unit = u
            else:
                s._temperature = None
                s.temperature_unit = 'K'
            got = calc(**({} if g is None else {'temperature': Quantity(
                float(unsi(300., g, 'temp')), g)}))
            r = r or got
            if not all(np.allclose(x, y, rtol=1e-7, equal_nan=True, atol=0)
                       for x, y in zip(got, r)):
                raise ValueError('intensities depend on the unit of the '
                                 f'temperature: {g} {t} {u}')
        return r
    return (modes_object, {'frequencies': ('meV', 'THz', '1/cm', 'hartree')},
            LAT, {
        'dos': (dos, dbins),
        'adaptive': (adapt, [(b, u) for b in BINS
                             for u in ('meV', '1/cm', 'hartree')]),
        'dosmap': (dosmap, dbins), 'pdos': (pdos, dbins),
        'dispersion': (disp, [()]),
        'dw': (dw, list(itertools.product(('K', 'degC', 'degF'),
                                          ('meV', '1/cm', 'J')))),
        'sf': (sf, list(itertools.product(
            ('K', 'degC'), ('angstrom**2', 'bohr**2'),
            ('fm', 'bohr', 'angstrom')))),
        'sqw': (sqw, list(itertools.product(
            ('meV', 'THz', '1/cm', 'J'), ('meV', '1/cm'),
            ('mbarn', 'bohr**2', 'm**2'))))})


def spec_ops(kind):
    from euphonic import Quantity, ureg
    dat = {'1': 'y_data', '2': 'z_data'}[kind[8]]
    xs = {'x_data': 'meV'} if kind[8] == '1' else {
        'x_data': '1/angstrom', 'y_data': 'meV'}
    tgt = dict(xs, **{dat: 'mbarn/meV'})

    def w(v, u, p):
        d = 'energy' if u == 'meV' else 'wave'
        return Quantity(float(unsi(si(v, u, d), p, d)), p)

    def bw(o, p):
        if kind[8] == '1':
            return phys(o.broaden(w(2., 'meV', p), shape='lorentz'), tgt) + \
                phys(o.broaden(w(2., 'meV', p)), tgt)
        return phys(o.broaden(y_width=w(2., 'meV', p)), tgt)

    def bx(o, p):
        return phys(o.broaden(x_width=w(.2, '1/angstrom', p)), tgt)

    def var(o, p):
        def f(e):
            return (0.2*e.to('meV') + 1.*ureg('meV')).to(p)
        if kind[8] == '1':
            return phys(o.broaden(f), tgt)
        return phys(o.broaden(y_width=f), tgt)

    def bins(o, p):
        r = []
        for a, t in xs.items():
            kw = dict(bin_ax=a[0]) if kind[8] == '2' else {}
            for g in (o.get_bin_edges, o.get_bin_centres, o.get_bin_widths):
                r.append(g(**kw).to(t).magnitude)
        return r

    def each(f):
        def g(o, p):
            r = f(o)
            return [y for x in (r if isinstance(r, list) else [r])
                    for y in phys(x, tgt)]
        return g

    def kin(o, p):
        from euphonic.spectra import apply_kinematic_constraints
        return phys(apply_kinematic_constraints(
            o, e_i=w(9., 'meV', p), angle_range=(5, 120)), tgt)
    out = {'bins': (bins, [0]), 'split': (each(lambda o: o.split(
        indices=[1])), [0]), 'mul': (each(lambda o: o*3.), [0]),
        'copy': (each(lambda o: o.copy()), [0])}
    if kind in ('Spectrum1D', 'Spectrum1DCollection', 'Spectrum2D'):
        out['broaden'] = (bw, ENERGY)
        out['variable'] = (var, ('meV', 'THz', '1/cm'))
    if kind == 'Spectrum2D':
        out['broadenx'] = (bx, ('1/angstrom', '1/bohr'))
        out['kinematic'] = (kin, ENERGY)
    if kind[8] == '1' or 'Coll' in kind:
        out['add'] = (each(lambda o: o + o), [0])
    if 'Coll' in kind:
        out['sum'] = (each(lambda o: o.sum()), [0])
        out['group'] = (each(lambda o: o.group_by('n')), [0])
        out['item'] = (each(lambda o: [o[1], o[1:], o[[1, 0]]]), [0])
        out['list'] = (each(lambda o: type(o).from_spectra(list(o))), [0])
    return out


def compute_spec(kind):
    def make():
        from euphonic import ureg
        import euphonic.spectra as s
        e = np.arange(0., 13, 2)
        x = np.arange(.2, 2.2, .3)
        n = len(e) - 1
        y = (np.arange(n*n*3) % 7 + 1.).reshape(3, n, n)
        kw = dict(metadata={'line_data': [{'n': 1}, {'n': 2}, {'n': 1}]}) \
            if 'Coll' in kind else {}
        d = ureg('mbarn/meV')
        if kind == 'Spectrum1D':
            return s.Spectrum1D(e*ureg('meV'), y[0, 0]*d)
        if kind == 'Spectrum1DCollection':
            return s.Spectrum1DCollection(e*ureg('meV'), y[:, 0]*d, **kw)
        if kind == 'Spectrum2D':
            return s.Spectrum2D(x*ureg('1/angstrom'), e*ureg('meV'), y[0]*d)
        return s.Spectrum2DCollection(x*ureg('1/angstrom'), e*ureg('meV'),
                                      y*d, **kw)
    u = {'x_data': ENERGY if kind[8] == '1' else ('1/angstrom', '1/bohr'),
         ('y_data' if kind[8] == '1' else 'z_data'):
         ('mbarn/meV', 'bohr**2/hartree', 'angstrom**2/eV')}
    if kind[8] == '2':
        u['y_data'] = ENERGY
    return make, u, {}, spec_ops(kind)


COMPUTE = {'fc': compute_fc, 'modes': compute_modes}
for _k in ('Spectrum1D', 'Spectrum1DCollection', 'Spectrum2D',
           'Spectrum2DCollection'):
    COMPUTE[_k] = (lambda k=_k: compute_spec(k))


def compute(ctx, name):
    make, attrs, cattrs, comp = COMPUTE[name]()
    base = {}
    keys = list(attrs) + list(cattrs)
    for combo in itertools.product(*attrs.values(), *cattrs.values()):
        o = make()
        for k, u in zip(keys, combo):
            if k in attrs:
                setattr(o, k + '_unit', u)
            else:
                setattr(o.crystal, k + '_unit', u)
        for op, (f, params) in comp.items():
            for p in params:
                case = dict(object=name, units=combo, op=op, argument=p)
                ctx.case = case
                ctx.state((name, combo, op, p))
                try:
                    r = f(copy.deepcopy(o) if name in ('modes', 'fc') else o,
                          p)
                except Exception as e:
                    ctx.fail('computation fails in these units', case,
                             repr(e))
                    continue
                ctx.transition()
                ref = base.setdefault(op, r)
                for a, b in zip(r, ref):
                    a, b = np.asarray(a), np.asarray(b)
                    ok = (a.shape == b.shape and np.array_equal(
                        np.isnan(a), np.isnan(b)) and np.all(
                        np.abs(np.nan_to_num(a - b)) <= 1e-6*max(
                            np.abs(np.nan_to_num(b)).max(initial=0), 1e-12)))
                    if not ctx.check(ok, 'result depends on the units', case,
                                     lambda: dict(got=a, expected=b)):
                        break
                ctx.trace()
    ctx.outcome(name)
    ctx.sample(ctx.case)
