"""C07: results do not depend on call history; inputs are never modified."""
import copy
import itertools
import os
import tempfile

import numpy as np

from mc import gen

TECHNIQUE = ('stateless model checking: every operation history up to the '
             'depth bound on one shared object, each result compared with a '
             'freshly built object in the model state')
NOTE = ('Histories of public operations and attribute assignments run on the '
        'real objects; the model state is the set of current attribute '
        'values.')
RULE = ('one state per (object, history prefix); a transition is one '
        'operation of a history')
ASSUMPTIONS = ['constructor arguments are not modified by the user '
               'afterwards']


# ---------------------------------------------------------------- utilities
def canon(x):
    """plain comparable form of a result"""
    from euphonic import (Crystal, DebyeWaller, ForceConstants, Quantity,
                          QpointFrequencies)
    from euphonic.spectra import Spectrum
    if isinstance(x, Quantity):
        return ('Q', np.array(x.magnitude), str(x.units))
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, (list, tuple)):
        return [canon(i) for i in x]
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in x.items()}
    if isinstance(x, Spectrum):
        out = dict(cls=type(x).__name__, meta=canon(x.metadata),
                   ticks=canon(x.x_tick_labels))
        for a in ('x_data', 'y_data', 'z_data'):
            if hasattr(x, a):
                out[a] = canon(getattr(x, a))
        return out
    if isinstance(x, (Crystal, ForceConstants, QpointFrequencies,
                      DebyeWaller)):
        out = dict(cls=type(x).__name__)
        for a in ('crystal', 'cell_vectors', 'atom_r', 'atom_type',
                  'atom_mass', 'force_constants', 'sc_matrix', 'cell_origins',
                  'born', 'dielectric', 'qpts', 'weights', 'frequencies',
                  'eigenvectors', 'structure_factors', 'temperature',
                  'debye_waller'):
            if hasattr(x, a):
                out[a] = canon(getattr(x, a))
        return out
    return x


def same(a, b, tol=1e-9, path=''):
    """None, or where and how a and b differ"""
    if type(a) is not type(b) and not (np.isscalar(a) and np.isscalar(b)):
        return f'{path}: {type(a)} / {type(b)}'
    if isinstance(a, dict):
        if a.keys() != b.keys():
            return f'{path}: keys {sorted(a)} / {sorted(b)}'
        for k in a:
            r = same(a[k], b[k], tol, path + '.' + k)
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f'{path}: length {len(a)} / {len(b)}'
        for k, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, tol, f'{path}[{k}]')
            if r:
                return r
        return None
    if isinstance(a, np.ndarray) or isinstance(a, (float, complex)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return f'{path}: shape {a.shape} / {b.shape}'
        if a.dtype.kind in 'US':
            return None if np.array_equal(a, b) else f'{path}: {a} / {b}'
        if tol == 0:
            ok = np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')
        else:
            fin = np.abs(b[np.isfinite(b)])
            ok = np.allclose(a, b, rtol=tol, equal_nan=True,
                             atol=tol*(fin.max() if fin.size else 0))
        return None if ok else f'{path}: {str(a)[:150]} / {str(b)[:150]}'
    return None if a == b else f'{path}: {a!r} / {b!r}'


# ------------------------------------------------------ objects under test
class Fc:
    """ForceConstants; data: plain attribute values"""
    Q = np.array([(0., 0, 0), (.25, .5, 0), (.1, .2, .3), (-.75, .5, 1)])

    def __init__(self, use_c=True):
        self.use_c = use_c

    def data(self):
        fc = gen.force_constants('hex', 'gen2', np.diag([2, 1, 1]), seed=1,
                                 born='aniso', asr=None)
        return self.read(fc)

    def read(self, fc):
        d = {a: copy.deepcopy(getattr(fc, a)) for a in (
            'force_constants', 'sc_matrix', 'cell_origins', 'born',
            'dielectric')}
        d.update({a: copy.deepcopy(getattr(fc.crystal, a)) for a in (
            'cell_vectors', 'atom_r', 'atom_type', 'atom_mass')})
        return d

    def build(self, d):
        from euphonic import Crystal, ForceConstants
        d = copy.deepcopy(d)
        c = Crystal(d['cell_vectors'], d['atom_r'], d['atom_type'],
                    d['atom_mass'])
        return ForceConstants(c, d['force_constants'], d['sc_matrix'],
                              d['cell_origins'], d['born'], d['dielectric'])

    def compute(self):
        def modes(**kw):
            def f(o):
                q = self.Q.copy()
                w = np.arange(1., 5)
                r = o.calculate_qpoint_frequencies(
                    q, weights=w, use_c=self.use_c, n_threads=1, **kw)
                assert np.array_equal(q, self.Q), 'qpts modified'
                assert np.array_equal(w, np.arange(1., 5)), 'weights modified'
                return r
            return f

        def vecs(o):
            m = o.calculate_qpoint_phonon_modes(
                self.Q[2:], use_c=self.use_c, n_threads=1, asr='reciprocal')
            e = m.eigenvectors.reshape(2, 6, 6)
            f = m._frequencies
            return [np.einsum('qia,qi,qib->qab', e, np.sign(f)*f**2,
                              e.conj()), m.frequencies]
        return {
            'freqs': modes(), 'realspace': modes(asr='realspace'),
            'vecs-recip': vecs, 'ewald': modes(dipole_parameter=0.7),
            'nodipole': modes(dipole=False, insert_gamma=True),
            'grad': modes(return_mode_gradients=True),
            'to_dict': lambda o: o.to_dict(),
        }

    def mutate(self):
        from euphonic import Crystal, ureg

        def attr(name, f, crystal=False):
            def m(o, d):
                d[name] = f(d)
                setattr(o.crystal if crystal else o, name,
                        copy.deepcopy(d[name]))
            return m

        def unit(name, u, crystal=False):
            def m(o, d):
                d[name] = d[name].to(u)
                setattr(o.crystal if crystal else o, name + '_unit', u)
            return m

        def crystal(o, d):
            d['atom_r'] = d['atom_r'][::-1].copy() + .03
            d['cell_vectors'] = d['cell_vectors']*1.05
            o.crystal = Crystal(d['cell_vectors'], d['atom_r'],
                                d['atom_type'], d['atom_mass'])

        def origins(o, d):
            d['cell_origins'] = np.array([[0, 0, 0], [3, 0, 0]], np.int32)
            o.cell_origins = d['cell_origins'].copy()

        def sc(o, d):
            d['sc_matrix'] = np.array([[1, 0, 0], [0, 2, 0], [0, 0, 1]])
            d['cell_origins'] = np.array([[0, 0, 0], [0, 1, 0]], np.int32)
            o.sc_matrix = d['sc_matrix'].copy()
            o.cell_origins = d['cell_origins'].copy()
        return {
            'set_fc': attr('force_constants',
                           lambda d: d['force_constants']*np.float64(1.25)),
            'set_born': attr('born', lambda d: d['born']*0.5),
            'set_diel': attr('dielectric', lambda d: d['dielectric']*1.5),
            'set_cell': attr('cell_vectors', lambda d: (
                d['cell_vectors'].to('bohr')*1.1), True),
            'set_r': attr('atom_r', lambda d: d['atom_r']*0.9 + .02, True),
            'set_mass': attr('atom_mass', lambda d: d['atom_mass']*2, True),
            'set_crystal': crystal, 'set_origins': origins, 'set_sc': sc,
            'u_fc': unit('force_constants', 'meV/angstrom**2'),
            'u_cell': unit('cell_vectors', 'nm', True),
            'u_mass': unit('atom_mass', 'electron_mass', True),
        }


class Modes:
    def data(self):
        fc = gen.force_constants('hex', 'gen2', np.diag([2, 1, 1]), seed=1,
                                 asr='exact', onsite=1.5)
        q = np.array([(.05, .05, 0.), (.1, .1, 0.), (.15, .15, 0),
                      (.2, .2, 0), (.25, .25, 0), (.25, .3, .1)])
        m = fc.calculate_qpoint_phonon_modes(q, weights=np.arange(1., 7),
                                             n_threads=1)
        return self.read(m)

    def read(self, m):
        d = {a: copy.deepcopy(getattr(m, a)) for a in (
            'qpts', 'frequencies', 'eigenvectors', 'weights')}
        d.update({a: copy.deepcopy(getattr(m.crystal, a)) for a in (
            'cell_vectors', 'atom_r', 'atom_type', 'atom_mass')})
        return d

    def build(self, d, shared=False):
        from euphonic import Crystal, QpointPhononModes
        if not shared:
            d = copy.deepcopy(d)
        c = Crystal(d['cell_vectors'], d['atom_r'], d['atom_type'],
                    d['atom_mass'])
        return QpointPhononModes(c, d['qpts'], d['frequencies'],
                                 d['eigenvectors'], d['weights'])

    def compute(self):
        from euphonic import ureg
        bins = np.linspace(0, 120, 7)*ureg('meV')
        widths = np.full((6, 6), 3.)*ureg('meV')
        t = 300*ureg('K')

        def dos(o):
            b = bins.copy()
            r = o.calculate_dos(b, mode_widths=widths.copy())
            assert np.array_equal(b.magnitude, bins.magnitude)
            return r

        def sf(o):
            dw = o.calculate_debye_waller(t)
            d0 = canon(dw)
            r = o.calculate_structure_factor(dw=dw)
            assert same(canon(dw), d0, 0) is None, 'dw modified'
            return r

        def maps(o):
            s = o.calculate_structure_factor()
            s0 = canon(s)
            r = [s.calculate_sqw_map(bins, temperature=t),
                 s.calculate_1d_average(bins, temperature=t),
                 s.calculate_dos(bins), s.get_dispersion()]
            assert same(canon(s), s0, 0) is None, 'sf modified'
            return r
        return {
            'dos': dos, 'dosmap': lambda o: o.calculate_dos_map(bins),
            'pdos': lambda o: o.calculate_pdos(bins, weighting='coherent'),
            'disp': lambda o: o.get_dispersion(),
            'dw': lambda o: o.calculate_debye_waller(t),
            'sf': sf, 'maps': maps, 'dict': lambda o: o.to_dict(),
            'qf': lambda o: o.to_qpoint_frequencies(),
        }

    def mutate(self):
        from euphonic import ureg

        def attr(name, f, crystal=False):
            def m(o, d):
                d[name] = f(d)
                setattr(o.crystal if crystal else o, name,
                        copy.deepcopy(d[name]))
            return m

        def unit(name, u, crystal=False):
            def m(o, d):
                d[name] = d[name].to(u)
                setattr(o.crystal if crystal else o, name + '_unit', u)
            return m

        def reorder(o, d):
            o.reorder_frequencies()
            fresh = self.build(d)
            fresh.reorder_frequencies()
            d.update(self.read(fresh))
        return {
            'reorder': reorder,
            'set_f': attr('frequencies', lambda d: d['frequencies']*1.25),
            'set_w': attr('weights', lambda d: d['weights'][::-1]*2),
            'set_cell': attr('cell_vectors',
                             lambda d: d['cell_vectors']*1.1, True),
            'u_f': unit('frequencies', 'hartree'),
            'u_thz': unit('frequencies', '1/cm'),
            'u_cell': unit('cell_vectors', 'bohr', True),
        }


class Spec:
    """spectra; every result is corrupted after it has been compared"""

    def __init__(self, kind):
        self.kind = kind

    def data(self):
        from euphonic import ureg
        x = np.arange(8. - (self.kind[0] == '2'))*0.5*ureg('1/angstrom')
        m = {'label': 'a', 'n': 3}
        t = [(0, 'A'), (3, 'B'), (6, 'C')]
        y = np.array([1., 5, 2, 0, 3, 7, 2])
        e = np.arange(5.)*2*ureg('meV')
        z = np.outer(y, [1., 3, 2, 4])
        ld = {'label': 'a', 'line_data': [{'n': 1}, {'n': 2}, {'n': 1}]}
        return {
            '1d': dict(x_data=x, y_data=y*ureg('mbarn/meV'), ticks=t, meta=m),
            '1dc': dict(x_data=x, y_data=np.array([y, y[::-1], y*2])
                        * ureg('mbarn/meV'), ticks=t, meta=ld),
            '2d': dict(x_data=x, y_data=e, z_data=z*ureg('mbarn/meV'),
                       ticks=t, meta=m),
            '2dc': dict(x_data=x, y_data=e, z_data=np.array([z, z*2, z*3])
                        * ureg('mbarn/meV'), ticks=t, meta=ld),
        }[self.kind]

    def cls(self):
        from euphonic.spectra import (Spectrum1D, Spectrum1DCollection,
                                      Spectrum2D, Spectrum2DCollection)
        return {'1d': Spectrum1D, '1dc': Spectrum1DCollection,
                '2d': Spectrum2D, '2dc': Spectrum2DCollection}[self.kind]

    def build(self, d):
        d = copy.deepcopy(d)
        kw = {a: d[a] for a in ('x_data', 'y_data', 'z_data') if a in d}
        return self.cls()(x_tick_labels=d['ticks'], metadata=d['meta'], **kw)

    def read(self, s):
        d = {a: copy.deepcopy(getattr(s, a)) for a in (
            'x_data', 'y_data', 'z_data') if hasattr(s, a)}
        d.update(ticks=copy.deepcopy(s.x_tick_labels),
                 meta=copy.deepcopy(s.metadata))
        return d

    def compute(self):
        from euphonic import ureg
        w = 0.8*ureg('1/angstrom')
        out = {'copy': lambda o: o.copy(), 'dict': lambda o: o.to_dict(),
               'mul': lambda o: o*2.5,
               'split': lambda o: o.split(indices=[2, 5]),
               'tol': lambda o: o.split(btol=1.5)}
        if self.kind in ('1d', '1dc', '2d'):
            out['broaden'] = lambda o: o.broaden(w)
            out['variable'] = lambda o: o.broaden(
                lambda x: 0.2*x + w.to(x.units))
        if self.kind in ('1d', '1dc'):
            out['add'] = lambda o: o + o
            out['text'] = text
        if self.kind == '2d':
            from euphonic.spectra import apply_kinematic_constraints
            out['none'] = lambda o: o.broaden()
            out['y'] = lambda o: o.broaden(y_width=3*ureg('meV'))
            out['kin'] = lambda o: apply_kinematic_constraints(
                o, e_i=9*ureg('meV'))
        if self.kind in ('1dc', '2dc'):
            cls = self.cls()
            out.update({
                'item': lambda o: o[1], 'slice': lambda o: o[0:2],
                'list': lambda o: o[[2, 0]], 'sum': lambda o: o.sum(),
                'group': lambda o: o.group_by('n'),
                'select': lambda o: o.select(n=1),
                'iter': lambda o: list(o),
                'again': lambda o: cls.from_spectra(list(o)),
                'cat': lambda o: o + o})
        out['bins'] = lambda o: [o.get_bin_edges(), o.get_bin_centres()]
        if self.kind[0] == '2':
            out['biny'] = lambda o: [o.get_bin_edges(bin_ax='y'),
                                     o.get_bin_centres(bin_ax='y'),
                                     o.get_bin_widths(bin_ax='y')]
        return out

    def mutate(self):
        from euphonic import ureg
        dat = 'z_data' if self.kind[0] == '2' else 'y_data'

        def imul(o, d):
            q = o
            q *= 0.5
            assert q is o
            d[dat] = d[dat]*0.5

        def setd(o, d):
            d[dat] = d[dat] + 1*d[dat].units
            setattr(o, dat, copy.deepcopy(d[dat]))

        def unit(name, u):
            def m(o, d):
                d[name] = d[name].to(u)
                setattr(o, name + '_unit', u)
            return m

        def meta(o, d):
            d['meta'] = dict(d['meta'], extra='x')
            o.metadata = copy.deepcopy(d['meta'])

        def ticks(o, d):
            d['ticks'] = [(1, 'Z')]
            o.x_tick_labels = [(1, 'Z')]
        return {'imul': imul, 'set': setd, 'meta': meta, 'ticks': ticks,
                'u_x': unit('x_data', '1/bohr'),
                'u_d': unit(dat, 'bohr**2/hartree')}


def text(o):
    d = tempfile.mkdtemp()
    p = os.path.join(d, 'x')
    try:
        o.to_text_file(p)
        with open(p) as f:
            lines = f.read().splitlines()
        return [[x for x in lines if x[:1] == '#'],
                np.array([[float(v) for v in x.split()] for x in lines
                          if x[:1] != '#'])]
    finally:
        if os.path.exists(p):
            os.remove(p)
        os.rmdir(d)


def corrupt(r):
    """modify a returned spectrum or dictionary in every public way"""
    from euphonic.spectra import Spectrum
    if isinstance(r, (list, tuple)):
        for x in r:
            corrupt(x)
    elif isinstance(r, Spectrum):
        r *= -3.
        r.metadata['evil'] = 1
        for x in r.metadata.get('line_data', []):
            x['evil'] = 2
        if r.x_tick_labels:
            r.x_tick_labels.append((1, 'evil'))
        r.x_data_unit = '1/mm'
        for a in ('x_data', 'y_data', 'z_data'):
            if hasattr(r, a):
                getattr(r, a).magnitude[...] = -77.
                setattr(r, a, getattr(r, a)*5)
    elif isinstance(r, dict):
        for k, v in list(r.items()):
            if isinstance(v, np.ndarray) and v.dtype.kind in 'fci':
                v[...] = -5
            elif isinstance(v, (dict, list)):
                corrupt(v)
        r['evil'] = 3


SUBJECTS = {'fc-c': (Fc, True), 'fc-py': (Fc, False), 'modes': (Modes,),
            '1d': (Spec, '1d'), '1dc': (Spec, '1dc'), '2d': (Spec, '2d'),
            '2dc': (Spec, '2dc')}


def make(name):
    c, *a = SUBJECTS[name]
    return c(*a)


def units(tier):
    for s in SUBJECTS:
        x = make(s)
        for op in list(x.compute()) + list(x.mutate()):
            yield f'{s}/{op}', dict(subject=s, first=op)
    yield 'shared/reorder', dict(subject='shared', first='')
    yield 'brille', dict(subject='brille', first='')


def depth(subject, thorough):
    if subject.startswith('fc') or subject == 'modes':
        return 4 if thorough else 3
    return 4 if thorough else 3


def run(ctx, subject, first):
    if subject == 'shared':
        return shared(ctx)
    if subject == 'brille':
        return brille(ctx)
    s = make(subject)
    comp, mut = s.compute(), s.mutate()
    ops = list(comp) + list(mut)
    oracle = {}
    n = depth(subject, ctx.thorough)
    if subject == 'fc-py' and not ctx.thorough:
        ops = ['freqs', 'realspace', 'vecs-recip', 'ewald', 'set_fc',
               'set_born', 'set_diel', 'set_cell', 'set_r', 'set_sc']
        if first not in ops:
            ops = ['freqs', 'realspace', 'vecs-recip', 'ewald']
    for rest in itertools.product(ops, repeat=n - 1):
        seq = (first,) + rest
        if seq[-1] in mut and n > 2 and subject != 'modes':
            continue        # nothing is observed after the last operation
        if (not ctx.thorough and not isinstance(s, Fc)
                and all(x in comp for x in seq)):
            # without a mutation: all pairs only
            if rest[1:] != (ops[0],):
                continue
            seq = seq[:2]
        history(ctx, s, comp, mut, seq, oracle, subject)
    ctx.sample(ctx.case)


def history(ctx, s, comp, mut, seq, oracle, subject):
    d = s.data() if 'base' not in oracle else oracle['base']
    oracle.setdefault('base', copy.deepcopy(d))
    d = copy.deepcopy(d)
    o = s.build(d)
    key = ()
    for k, op in enumerate(seq):
        case = dict(subject=subject, history=seq[:k+1])
        ctx.case = case
        ctx.state(seq[:k+1])
        ctx.transition()
        if op in mut:
            mut[op](o, d)
            key += (op,)
        else:
            r = comp[op](o)
            got = canon(r)
            if (key, op) not in oracle:
                oracle[key, op] = canon(comp[op](s.build(d)))
            diff = same(got, oracle[key, op])
            if not ctx.check(diff is None, 'result depends on the history',
                             case, diff):
                return
            if subject in ('1d', '1dc', '2d', '2dc'):
                corrupt(r)
            elif isinstance(r, dict):
                corrupt(r)
        if ('obj', key) not in oracle:
            oracle['obj', key] = canon(s.build(d))
        diff = same(canon(o), oracle['obj', key], 1e-12)
        if not ctx.check(diff is None, 'object changed', case, diff):
            return
    ctx.trace()
    ctx.outcome((seq[-1], key))


def shared(ctx):
    """operations documented to act on one object leave arrays the user
    passed in, and other objects built from them, alone"""
    s = Modes()
    for unit, flag in itertools.product(('hartree', 'meV', '1/cm'),
                                        (True, False)):
        d = s.data()
        d['frequencies'] = d['frequencies'].to(unit)
        before = copy.deepcopy(d)
        a, b = s.build(d, True), s.build(d, True)
        case = dict(unit=unit, reorder_gamma=flag)
        ctx.case = case
        ctx.state(case)
        b0 = canon(b)
        qf = a.to_qpoint_frequencies()
        q0 = canon(qf)
        a.reorder_frequencies(reorder_gamma=flag)
        ctx.transition()
        for k in d:
            ctx.check(same(canon(d[k]), canon(before[k]), 0) is None,
                      f'reorder_frequencies changed the array passed as {k}',
                      case)
        ctx.check(same(canon(b), b0, 0) is None, 'another object built from '
                  'the same arrays changed', case)
        ctx.check(same(canon(qf), q0, 0) is None, 'QpointFrequencies changed '
                  'by reordering its source', case)
        ctx.trace()


def brille(ctx):
    import contextlib
    import io
    try:
        from euphonic.brille import BrilleInterpolator
    except ModuleNotFoundError:
        return
    fc = gen.force_constants('cubic', 'cscl', np.diag([1, 1, 1]), seed=1,
                             asr='exact')
    before = canon(fc)
    for kw in ({}, {'asr': 'realspace'}, {'use_c': False},
               {'reduce_qpts': True}):
        k0 = dict(kw)
        ctx.state(kw.items())
        with contextlib.redirect_stdout(io.StringIO()):
            b = BrilleInterpolator.from_force_constants(
                fc, grid_npts=10, interpolation_kwargs=kw)
        ctx.transition()
        ctx.check(kw == k0, 'interpolation_kwargs modified', k0, kw)
        ctx.check(same(canon(fc), before, 0) is None,
                  'force constants modified', k0)
        q = np.array([[.1, .2, .3], [.4, .1, 0]])
        q0 = q.copy()
        opts = dict(useparallel=False)
        r1 = canon(b.calculate_qpoint_phonon_modes(q, **opts))
        r2 = canon(b.calculate_qpoint_phonon_modes(q, **opts))
        ctx.transition(2)
        ctx.check(same(r1, r2) is None, 'interpolation not repeatable', k0)
        ctx.check(np.array_equal(q, q0), 'q-points modified', k0)
        ctx.trace()
