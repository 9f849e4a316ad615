"""C10: serialisation round trips are lossless."""
import copy
import itertools
import json
import os
import tempfile

import numpy as np

from mc import gen

TECHNIQUE = ('bounded-exhaustive exploration of write/read/unit-change '
             'histories on the real objects, every state compared with a '
             'model holding the constructor data')
NOTE = ('Every class, every combination of optional parts, units, dtypes and '
        'memory layouts of the alphabet; every history of channels up to the '
        'bound; the written form itself is parsed and compared.')
RULE = ('one state per (object variant, channel history prefix); a transition '
        'is one write+read or unit change on the implementation')
ASSUMPTIONS = ['metadata hold the documented types (str, int, and LineData)',
               'floating point values may differ by 1e-12 relative after a '
               'unit conversion']

CV = gen.CELLS['tric']


# ------------------------------------------------------------- variants
def layouts(a):
    """the same array in several memory layouts and dtypes"""
    out = {'C': np.ascontiguousarray(a)}
    if a.ndim > 1:
        out['F'] = np.asfortranarray(a)
    big = np.zeros(a.shape + (2,), a.dtype)
    big[..., 0] = a
    out['strided'] = big[..., 0]
    out['reversed'] = a[::-1].copy()[::-1]
    return out


def crystals():
    from euphonic import Crystal, ureg
    out = {}
    for n in (0, 1, 3):
        for lu, mu in itertools.product(('angstrom', 'bohr', 'nm'),
                                        ('amu', 'kg', 'electron_mass')):
            for lay in ('C', 'F'):
                r = np.arange(3.*n).reshape(n, 3)/7 - .2
                m = np.array([22.99, 35.45, 1/3])[:n]
                t = np.array(['Na', 'Cl', 'H'])[:n]
                out[f'{n}-{lu}-{mu}-{lay}'] = (
                    lambda r=r, m=m, t=t, lu=lu, mu=mu, lay=lay: Crystal(
                        layouts(CV)[lay]*ureg('angstrom').to(lu),
                        layouts(r)[lay], t.copy(), m*ureg('amu').to(mu)))
    return out


def crys(n=2, lu='angstrom'):
    from euphonic import Crystal, ureg
    r = np.array([[0., 0, 0], [.5, .5, .5]])[:n]
    return Crystal(CV*ureg('angstrom').to(lu), r,
                   np.array(['Na', 'Cl'])[:n],
                   np.array([22.99, 35.45])[:n]*ureg('amu'))


def modes_arrays(nq):
    rng = np.random.default_rng(nq)
    q = rng.uniform(-1, 1, (nq, 3))
    f = rng.uniform(-1, 9, (nq, 6))
    ev = rng.normal(size=(nq, 6, 2, 3)) + 1j*rng.normal(size=(nq, 6, 2, 3))
    w = rng.uniform(size=nq)
    return q, f, ev, w


def q_objects(kind):
    from euphonic import (Quantity, QpointFrequencies, QpointPhononModes,
                          StructureFactor, ureg)
    out = {}
    for nq, wt, u, lay in itertools.product(
            (1, 2), (None, 'w', 'int'), ('meV', 'THz', '1/cm'),
            ('C', 'F', 'strided', 'reversed')):
        q, f, ev, w = modes_arrays(nq)
        w = {None: None, 'w': w, 'int': np.arange(nq) + 1}[wt]

        def base(q=q, f=f, w=w, u=u, lay=lay):
            return ((crys(), layouts(q)[lay], layouts(f)[lay]*ureg(u)),
                    None if w is None else layouts(w).get(lay, w))
        tag = f'{nq}-{wt}-{u}-{lay}'
        if kind == 'QpointFrequencies':
            out[tag] = lambda b=base: QpointFrequencies(*b()[0], b()[1])
        elif kind == 'QpointPhononModes':
            for et in ('complex128', 'complex64', 'real', 'imaginary'):
                if et != 'complex128' and u != 'meV':
                    continue
                # complex data which happen to have no imaginary or real part
                vecs = (ev.real + 0j if et == 'real' else ev.imag*1j
                        if et == 'imaginary' else ev.astype(et))
                out[tag + '-' + et] = (
                    lambda b=base, ev=vecs, lay=lay: QpointPhononModes(
                        *b()[0], layouts(ev)[lay], b()[1]))
        else:
            for t, su in itertools.product(
                    (None, (5., 'K'), (0, 'K'), (20., 'degC'), (40, 'degF')),
                    ('mbarn', 'bohr**2')):
                if lay in ('strided', 'reversed') and t and t[1] != 'K':
                    continue
                out[f'{tag}-{t}-{su}'] = (
                    lambda b=base, f=f, t=t, su=su, lay=lay: StructureFactor(
                        *b()[0], layouts(f**2)[lay]*ureg(su), b()[1],
                        None if t is None else Quantity(*t)))
    return out


def dw_objects():
    from euphonic import DebyeWaller, Quantity, ureg
    w = np.random.default_rng(3).uniform(size=(2, 3, 3))
    return {f'{u}-{t}-{lay}': (lambda u=u, t=t, lay=lay: DebyeWaller(
        crys(), layouts(w)[lay]*ureg(u), Quantity(*t)))
        for u in ('angstrom**2', 'bohr**2')
        for t in ((5., 'K'), (0., 'K'), (7, 'K'), (20., 'degC'),
                  (np.float64(3), 'K'))
        for lay in ('C', 'F', 'strided')}


def fc_objects():
    from euphonic import ForceConstants, ureg
    out = {}
    sc = np.array([[1, 1, 0], [-1, 1, 0], [0, 0, 1]])
    phi, og = gen.raw_fc('cscl', sc, 1)
    z, eps = gen.born_charges('cscl')
    for u, nac, lay, it in itertools.product(
            ('hartree/bohr**2', 'meV/angstrom**2'), (0, 1), ('C', 'F'),
            ('int32', 'int64')):
        def build(u=u, nac=nac, lay=lay, it=it):
            kw = {}
            if nac:
                kw = dict(born=layouts(z)[lay]*ureg('e'),
                          dielectric=layouts(eps)[lay]*ureg(
                              'e**2/(bohr*hartree)').to(
                                  'e**2/(bohr*hartree)' if u[0] == 'h'
                                  else 'e**2/(angstrom*eV)'))
            return ForceConstants(
                crys(), layouts(phi)[lay]*ureg('hartree/bohr**2').to(u),
                layouts(sc.astype(it))[lay], layouts(og.astype(it))[lay],
                **kw)
        out[f'{u}-{nac}-{lay}-{it}'] = build
    return out


TICKS = (None, [], [(0, 'a')], [(0, '$\\Gamma$'), (2, '')],
         [(np.int64(1), 'x')])
META = (None, {}, {'label': 'é "q"\n', 'n': 3}, {'a': {'b': 1}},
        {'scat_law': 'coherent', 'unicode': 'Γ→X', '__x__': 0})


def spectra(kind):
    from euphonic import ureg
    from euphonic import spectra as sp
    cls = getattr(sp, kind)
    out = {}
    two = '2D' in kind
    coll = 'Collection' in kind
    for nx, edge, edge2, tick, meta, u, lay, special in itertools.product(
            (1, 3), (0, 1), (0, 1) if two else (0,), range(len(TICKS)),
            range(len(META)), (0, 1), ('C', 'F'), ('', 'nan', 'int')):
        # pairwise reduction: special values and layouts with few labels
        if (special or lay != 'C') and (tick > 1 or meta not in (0, 2)):
            continue
        lines = [None]
        if coll:
            lines = [None, 0, 1, 2]
        for line in lines:
            if line and (tick > 1 or lay != 'C' or special):
                continue
            n = 2
            ny = 2
            x = np.arange(nx + edge)*1.7 + .3
            y = np.arange(ny + edge2)*.9 - .3
            shape = ((n,) if coll else ()) + ((nx, ny) if two else (nx,))
            d = np.random.default_rng(5).normal(size=shape)
            if special == 'nan':
                d.flat[0] = np.nan
                d.flat[-1] = np.inf
            if special == 'int':
                d = np.round(d*9).astype(int)
                x = np.arange(nx + edge) + 1
            md = copy.deepcopy(META[meta])
            if line is not None:
                md = md or {}
                md['line_data'] = [[{}, {}],
                                   [{'label': 'a'}, {'label': 'b', 'i': 2}],
                                   [{'label': 'Γ', 'index': 0}, {}]][line]
            xu = ('meV', '1/cm')[u] if not two else ('1/angstrom',
                                                     '1/bohr')[u]
            du = ('1/meV', 'mbarn/meV')[u]

            def build(x=x, y=y, d=d, md=md, tick=tick, xu=xu, du=du, lay=lay,
                      u=u):
                ax = [x*ureg(xu)]
                if two:
                    ax.append(y*ureg(('meV', 'THz')[u]))
                return cls(*ax, layouts(d).get(lay, d)*ureg(du),
                           x_tick_labels=copy.deepcopy(TICKS[tick]),
                           metadata=copy.deepcopy(md))
            out[f'{nx}{edge}{edge2}-{tick}{meta}{u}{lay}{special}-{line}'
                ] = build
    return out


def results():
    """objects made by the library itself"""
    from euphonic import Quantity, ureg
    fc = gen.force_constants('hex', 'gen2', np.diag([2, 1, 1]), seed=1,
                             asr='exact', born='aniso', onsite=1.5)
    q = np.array([[0, 0, 0.], [.1, 0, 0], [.5, 0, 0], [.5, .5, 0],
                  [0, 0, 0], [0, 0, .5]])
    out = {}
    for use_c in (True, False):
        m = fc.calculate_qpoint_phonon_modes(q, use_c=use_c, n_threads=1,
                                             asr='realspace')
        out[f'modes{use_c}'] = m
        out[f'sliced{use_c}'] = fc.calculate_qpoint_phonon_modes(
            q[::2], use_c=use_c, n_threads=1, splitting=True,
            insert_gamma=True)
        out[f'freqs{use_c}'] = fc.calculate_qpoint_frequencies(
            q, use_c=use_c, n_threads=1)
    m = out['modesTrue']
    re = copy.deepcopy(m)
    re.reorder_frequencies()
    out['reordered'] = re
    m2 = fc.calculate_qpoint_phonon_modes(q[1:4], n_threads=1)
    dw = m2.calculate_debye_waller(Quantity(20., 'K'))
    out['dw'] = dw
    b = np.arange(0, 200, 10)*ureg('meV')
    for t in (None, dw):
        sf = m2.calculate_structure_factor(dw=t)
        out[f'sf{t is None}'] = sf
        out[f'sqw{t is None}'] = sf.calculate_sqw_map(
            b, temperature=Quantity(20, 'K'))
        out[f'av{t is None}'] = sf.calculate_1d_average(b)
        out[f'disp{t is None}'] = sf.get_dispersion()
    out['dos'] = m2.calculate_dos(b)
    out['dosmap'] = m2.calculate_dos_map(b)
    out['pdos'] = m2.calculate_pdos(b)
    out['pdosw'] = m2.calculate_pdos(b, weighting='coherent')
    for k in ('pdos', 'pdosw'):
        out[k + 'g'] = out[k].group_by('species')
        out[k + 's'] = out[k].select(species='Mg')
        out[k + 't'] = out[k].sum()
        out[k + '0'] = out[k][0]
        out[k + 'sl'] = out[k][0:1]
    out['disp'] = m.get_dispersion()
    out['split'] = m.get_dispersion().split()[0]
    out['qf'] = m.to_qpoint_frequencies()
    out['broad'] = out['dos'].broaden(3*ureg('meV'))
    out['add'] = out['dos'] + out['dos']
    from euphonic.powder import (sample_sphere_dos, sample_sphere_pdos,
                                 sample_sphere_structure_factor)
    qm = 1.2*ureg('1/angstrom')
    out['pd'] = sample_sphere_dos(fc, qm, npts=4, energy_bins=b)
    out['pp'] = sample_sphere_pdos(fc, qm, npts=4, energy_bins=b)
    out['ps'] = sample_sphere_structure_factor(
        fc, qm, dw=dw, temperature=Quantity(20, 'K'), npts=4, energy_bins=b)
    out['fc'] = fc
    return {k: (lambda v=v: copy.deepcopy(v)) for k, v in out.items()}


def variants(kind):
    if kind == 'Crystal':
        return crystals()
    if kind in ('QpointFrequencies', 'QpointPhononModes', 'StructureFactor'):
        return q_objects(kind)
    if kind == 'DebyeWaller':
        return dw_objects()
    if kind == 'ForceConstants':
        return fc_objects()
    if kind == 'results':
        return results()
    return spectra(kind)


# ------------------------------------------------------------ the model
QUANT = {
    'Crystal': ('cell_vectors', 'atom_mass'),
    'QpointFrequencies': ('frequencies',),
    'QpointPhononModes': ('frequencies',),
    'StructureFactor': ('frequencies', 'structure_factors', 'temperature'),
    'DebyeWaller': ('debye_waller', 'temperature'),
    'ForceConstants': ('force_constants', 'born', 'dielectric'),
    'Spectrum1D': ('x_data', 'y_data'),
    'Spectrum1DCollection': ('x_data', 'y_data'),
    'Spectrum2D': ('x_data', 'y_data', 'z_data'),
    'Spectrum2DCollection': ('x_data', 'y_data', 'z_data'),
}
PLAIN = {
    'Crystal': ('n_atoms', 'atom_r', 'atom_type'),
    'QpointFrequencies': ('crystal', 'qpts', 'weights', 'n_qpts'),
    'QpointPhononModes': ('crystal', 'qpts', 'weights', 'n_qpts',
                          'eigenvectors'),
    'StructureFactor': ('crystal', 'qpts', 'weights', 'n_qpts'),
    'DebyeWaller': ('crystal',),
    'ForceConstants': ('crystal', 'sc_matrix', 'cell_origins',
                       'n_cells_in_sc'),
}
ALT = {'meV': 'THz', 'THz': '1/cm', '1/cm': 'meV', 'angstrom': 'bohr',
       'bohr': 'nm', 'nm': 'angstrom', 'amu': 'kg', 'kg': 'electron_mass',
       'electron_mass': 'amu', 'mbarn': 'angstrom**2',
       'bohr**2': 'mbarn', 'angstrom**2': 'bohr**2', 'K': 'degC',
       'degC': 'K', 'degF': 'K', 'hartree/bohr**2': 'meV/angstrom**2',
       'meV/angstrom**2': 'hartree/bohr**2',
       'e**2/(bohr*hartree)': 'e**2/(angstrom*eV)',
       'e**2/(angstrom*eV)': 'e**2/(bohr*hartree)', 'e': 'coulomb',
       '1/angstrom': '1/bohr', '1/bohr': '1/angstrom', '1/meV': '1/THz'}


def describe(o):
    """plain nested data: (value, unit) for quantities"""
    k = type(o).__name__
    out = {'class': k}
    for a in QUANT[k]:
        v = getattr(o, a)
        out[a] = None if v is None else (
            copy.deepcopy(v.magnitude), v.units,
            v._REGISTRY.Unit(getattr(o, a + '_unit')))
    for a in PLAIN.get(k, ('x_tick_labels', 'metadata')):
        v = getattr(o, a)
        out[a] = describe(v) if a == 'crystal' else copy.deepcopy(v)
    return out


def diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return f'{path}: keys {list(a)} / {list(b)}'
        for k in a:
            r = diff(a[k], b[k], f'{path}.{k}')
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return f'{path}: {a!r} / {b!r}'
        for k, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, f'{path}[{k}]')
            if r:
                return r
        return None
    num = (int, float, complex, np.number, np.ndarray)
    if isinstance(a, num) and isinstance(b, num) and not isinstance(
            a, bool):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return f'{path}: shape {x.shape} / {y.shape}'
        if isinstance(a, np.ndarray) != isinstance(b, np.ndarray) and x.ndim:
            return f'{path}: {type(a)} / {type(b)}'
        if x.dtype.kind == 'U' or y.dtype.kind == 'U':
            ok = x.dtype.kind == y.dtype.kind and np.all(x == y)
        else:
            ok = (np.iscomplexobj(x) == np.iscomplexobj(y)
                  and np.allclose(x, y, rtol=1e-12, atol=0, equal_nan=True))
        return None if ok else f'{path}: {x!r} / {y!r}'
    if a != b or (type(a) is not type(b)
                  and not (isinstance(a, str) and isinstance(b, str))):
        return f'{path}: {a!r} / {b!r}'
    return None


def leaves(x):
    if isinstance(x, dict):
        for v in x.values():
            yield from leaves(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from leaves(v)
    else:
        yield x


def scribble(x):
    """change every mutable part of a dictionary"""
    if isinstance(x, dict):
        for v in list(x.values()):
            scribble(v)
        x['scribble'] = 1
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        x.append('scribble')
    elif isinstance(x, np.ndarray) and x.size and x.flags.writeable:
        x[...] = 'zz' if x.dtype.kind == 'U' else x*0 + 7


def plain(dsc):
    """what the documented dictionary form of a description is"""
    out = {}
    for a, v in dsc.items():
        if a == 'class' or v is None:
            continue
        if a == 'metadata' and not v:
            continue
        if a == 'crystal':
            out[a] = plain(v)
        elif isinstance(v, tuple):
            out[a] = v[0]
            out[a + '_unit'] = v[1]
        else:
            out[a] = v
    return out


def diff_json(exp, got, path=''):
    from euphonic import ureg
    for k, v in exp.items():
        if k not in got:
            return f'{path}.{k} missing'
        g = got[k]
        if k.endswith('_unit'):
            if not isinstance(g, str) or ureg.Unit(g) != v:
                return f'{path}.{k}: {g!r} / {v}'
        elif k == 'metadata' or k == 'x_tick_labels':
            e = json.loads(json.dumps(v))
            if e != json.loads(json.dumps(g)):
                return f'{path}.{k}: {g!r} / {v!r}'
        elif isinstance(v, dict):
            r = diff_json(v, g, path + '.' + k)
            if r:
                return r
        else:
            v = np.asarray(v)
            g = np.asarray(g)
            if k == 'eigenvectors' and g.ndim == v.ndim + 1:
                g = g[..., 0] + 1j*g[..., 1]
            if v.dtype.kind == 'U':
                ok = v.shape == g.shape and np.all(v == g)
            else:
                ok = v.size == g.size == 0 or v.shape == g.shape and \
                    np.allclose(v, g, rtol=1e-12, atol=0, equal_nan=True)
            if not ok:
                return f'{path}.{k}: {g!r} / {v!r}'
    return None


# ---------------------------------------------------------------- running
KINDS = tuple(QUANT) + ('results',)


def units(tier):
    for k in KINDS:
        n = 1 if k in ('Crystal', 'DebyeWaller', 'ForceConstants',
                       'results', 'QpointFrequencies') else 4
        for part in range(n):
            yield f'{k}/{part}', dict(kind=k, part=part, n=n)
    yield 'text', dict(kind='text', part=0, n=1)
    yield 'optional', dict(kind='optional', part=0, n=1)


def run(ctx, kind, part, n):
    if kind == 'text':
        return text(ctx)
    if kind == 'optional':
        return optional(ctx)
    depth = 3 if ctx.thorough else 2
    with tempfile.TemporaryDirectory() as tmp:
        null = os.open(os.devnull, os.O_WRONLY)
        saved = os.dup(1)
        import sys
        sys.stdout.flush()
        os.dup2(null, 1)
        try:
            for i, (tag, build) in enumerate(variants(kind).items()):
                if i % n != part:
                    continue
                for seq in itertools.product('DJU', repeat=depth):
                    if seq[-1] == 'U':
                        continue
                    history(ctx, kind, tag, build, seq, tmp)
        finally:
            sys.stdout.flush()
            os.dup2(saved, 1)
            os.close(saved)
            os.close(null)
    ctx.sample(ctx.case)


def history(ctx, kind, tag, build, seq, tmp):
    o = build()
    model = describe(o)
    for k, op in enumerate(seq):
        case = dict(kind=kind, variant=tag, history=''.join(seq[:k+1]))
        ctx.case = case
        fresh = ctx.state((kind, tag) + seq[:k+1])
        ctx.transition()
        if op == 'U':
            for a in QUANT[type(o).__name__]:
                if model[a] is None:
                    continue
                for name, alt in ALT.items():
                    if model[a][1] == model[a][1]._REGISTRY.Unit(name):
                        setattr(o, a + '_unit', alt)
                        break
            model = describe(o)
            continue
        cls = type(o)
        try:
            if op == 'D':
                d = o.to_dict()
                new = cls.from_dict(d)
            else:
                path = os.path.join(tmp, 'x.json')
                o.to_json_file(path)
                with open(path) as f:
                    d = json.load(f)
                new = cls.from_json_file(path)
        except Exception as e:
            import traceback
            ctx.fail('round trip raised', case, traceback.format_exc()[-900:])
            return
        if fresh:
            r = diff(model, describe(o))
            if not ctx.check(r is None, 'serialisation modified the object',
                             case, r):
                return
            r = diff_json(plain(model), d)
            if not ctx.check(r is None, 'written form differs from the data',
                             case, r):
                return
            if op == 'J' and not ctx.check(
                    d.get('__euphonic_class__') == cls.__name__,
                    'class not recorded', case):
                return
        r = diff(model, describe(new))
        if not ctx.check(r is None and type(new) is cls,
                         'round trip changed the object', case, r):
            return
        if fresh and op == 'D':
            scribble(d)
            r = diff(model, describe(o))
            if not ctx.check(r is None, 'dictionary aliases the object', case,
                             r):
                return
            r = diff(model, describe(new))
            if not ctx.check(r is None, 'object aliases its dictionary', case,
                             r):
                return
        o = new
    ctx.trace()
    ctx.outcome((kind, tag))


def optional(ctx):
    """dictionaries with every subset of the optional keys removed"""
    from euphonic import spectra as sp
    import euphonic
    opt = {'QpointFrequencies': ('weights',),
           'QpointPhononModes': ('weights',),
           'StructureFactor': ('weights', 'temperature'),
           'ForceConstants': (('born', 'dielectric'),),
           'Spectrum1D': ('x_tick_labels', 'metadata'),
           'Spectrum1DCollection': ('x_tick_labels', 'metadata'),
           'Spectrum2D': ('x_tick_labels', 'metadata'),
           'Spectrum2DCollection': ('x_tick_labels', 'metadata')}
    for kind, keys in opt.items():
        cls = getattr(euphonic, kind, None) or getattr(sp, kind)
        for tag, build in list(variants(kind).items())[::7]:
            for n in range(len(keys) + 1):
                for drop in itertools.combinations(keys, n):
                    case = dict(kind=kind, variant=tag, dropped=drop)
                    ctx.case = case
                    ctx.state((kind, tag, drop))
                    ctx.transition()
                    o = build()
                    d = o.to_dict()
                    exp = describe(o)
                    for k in [x for y in drop
                              for x in ([y] if isinstance(y, str) else y)]:
                        d.pop(k, None)
                        d.pop(k + '_unit', None)
                        exp[k] = {
                            'weights': lambda: np.full(
                                o.n_qpts, 1/o.n_qpts),
                            'metadata': dict}.get(k, lambda: None)()
                    before = copy.deepcopy(d)
                    try:
                        new = cls.from_dict(d)
                    except Exception as e:
                        ctx.fail('optional key required', case, repr(e))
                        continue
                    r = diff(exp, describe(new))
                    ctx.check(r is None, 'optional key default wrong', case,
                              r)
                    r = diff(before, d)
                    ctx.check(r is None, 'from_dict modified its argument',
                              case, r)
                    ctx.trace()


TEXT_ALT = {'meV': 'THz', '1/cm': 'meV', '1/meV': '1/eV',
            'mb/meV': 'nm**2/eV', 'mbarn/meV': 'nm**2/eV'}


def text(ctx):
    """to_text_file: the columns and header describe the spectrum"""
    from euphonic import ureg
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'x.txt')
        for kind in ('Spectrum1D', 'Spectrum1DCollection'):
            for tag, build in variants(kind).items():
                for fmt, tol in ((None, 1e-15), ('%.4f', 1e-4),
                                 (['%.3e', '%.9f', '%.9f'], 1e-2),
                                 ('other units', 1e-15)):
                    o = build()
                    if fmt == 'other units':
                        fmt = None
                        for a in ('x_data_unit', 'y_data_unit'):
                            u = f'{ureg.Unit(getattr(o, a)):~}'
                            u = u.replace(' ', '')
                            if u in TEXT_ALT:
                                setattr(o, a, TEXT_ALT[u])
                                ctx.transition()
                    if isinstance(fmt, list) and kind == 'Spectrum1D':
                        fmt = fmt[:2]
                    case = dict(kind=kind, variant=tag, fmt=fmt)
                    ctx.case = case
                    if not ctx.state((kind, tag, str(fmt), o.x_data_unit)):
                        continue
                    if any(isinstance(v, dict) for v in o.metadata.values()):
                        continue        # not a documented metadata value
                    ctx.transition()
                    before = describe(o)
                    try:
                        o.to_text_file(path, fmt)
                    except Exception as e:
                        ctx.fail('to_text_file raised', case, repr(e))
                        continue
                    r = diff(before, describe(o))
                    ctx.check(r is None, 'to_text_file changed the spectrum',
                              case, r)
                    got = np.loadtxt(path, ndmin=2)
                    x = o.x_data.magnitude
                    y = np.atleast_2d(o.y_data.magnitude)
                    if len(x) == y.shape[1] + 1:
                        x = (x[1:] + x[:-1])/2
                    exp = np.vstack([x, y]).T
                    ok = got.shape == exp.shape and np.allclose(
                        got, exp, rtol=max(tol, 1e-12), atol=tol,
                        equal_nan=True)
                    ctx.check(ok, 'text columns differ from the data', case,
                              lambda: (got, exp))
                    with open(path) as f:
                        head = [ln[1:].strip() for ln in f
                                if ln.startswith('#')]
                    meta = copy.deepcopy(o.metadata)
                    lines = meta.pop('line_data', None)
                    if kind == 'Spectrum1D':
                        lines = [o.metadata]
                        common = [o.metadata, {}]
                    text_ = '\n'.join(head)
                    ok = (f'x_data in ({o.x_data.units})' in head
                          and f'y_data in ({o.y_data.units})' in head)
                    ctx.check(ok, 'units not in header', case, text_)
                    # every metadata value appears in the header
                    for v in leaves(o.metadata):
                        s = json.dumps(v)
                        ctx.check(s in text_, 'metadata lost', case,
                                  lambda: (s, text_))
                    ctx.trace()
