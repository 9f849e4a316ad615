"""C11: inconsistent data is rejected at construction."""
import itertools

import numpy as np

TECHNIQUE = ('exhaustive enumeration of the product of shapes, types and '
             'units of constructor arguments on the real constructors, '
             'against a model predicate of the documented shapes')
NOTE = ('Full product of the shape alphabets of all arguments of a class, '
        'every single and pairwise wrong type, every wrong unit; accepted '
        'objects are read back attribute by attribute.')
RULE = ('one state per combination of argument shapes/types/units; a '
        'transition is one construction')
ASSUMPTIONS = ['scalar arguments are given as scalars',
               'energy, length and inverse time are interconvertible by '
               'design (spectroscopy context)',
               'lists without q-points are not data',
               'Born charges need a dielectric tensor (a dielectric tensor '
               'alone is data)']
WRONG = ('nonsense', None, [1, 2], 3.5, {'a': 1})


class Spec:
    """one class: arguments with their kind, unit, shapes and the predicate"""
    def __init__(self, name, args, ok, build=None, module='euphonic'):
        self.name, self.args, self.ok, self.module = name, args, ok, module


def A(kind, unit, shapes, optional=False, dtype=float):
    return dict(kind=kind, unit=unit, shapes=shapes, optional=optional,
                dtype=dtype)


def fill(shape, dtype, k=0):
    n = int(np.prod(shape)) if shape else 1
    if dtype is str:
        return np.array((['Na', 'Cl', 'O', 'H']*(n//4 + 1))[:n]).reshape(shape)
    a = (np.arange(n) % 7 + 1 + k).reshape(shape)
    if dtype is int:
        return a.astype(np.int32)
    if dtype is complex:
        return a*(1 + .5j)
    return a*1.25


def specs():
    def crystal_ok(s):
        n = s['atom_r'][0] if len(s['atom_r']) == 2 else None
        return (s['cell_vectors'] == (3, 3) and n is not None
                and s['atom_r'] == (n, 3) and s['atom_type'] == (n,)
                and s['atom_mass'] == (n,))

    def q_ok(s, nat=None, ev=False, sf=False):
        if len(s['qpts']) != 2 or s['qpts'][1] != 3:
            return False
        n = s['qpts'][0]
        f = s['frequencies']
        if len(f) != 2 or f[0] != n:
            return False
        if nat and f[1] != 3*nat:
            return False
        if ev and s['eigenvectors'] != (n, 3*nat, nat, 3):
            return False
        if sf and s['structure_factors'] != (n, 3*nat):
            return False
        return s['weights'] is None or s['weights'] == (n,)

    def fc_ok(s, nat, det):
        return (s['sc_matrix'] == (3, 3)
                and s['force_constants'] == (det, 3*nat, 3*nat)
                and s['cell_origins'] == (det, 3)
                and s['born'] in (None, (nat, 3, 3))
                and s['dielectric'] in (None, (3, 3))
                and (s['born'] is None or s['dielectric'] is not None))

    def s1_ok(s):
        n = s['y_data']
        return len(n) == 1 and s['x_data'] in ((n[0],), (n[0] + 1,))

    def s1c_ok(s):
        n = s['y_data']
        return len(n) == 2 and s['x_data'] in ((n[1],), (n[1] + 1,))

    def s2_ok(s, lead=0):
        z = s['z_data']
        if len(z) != 2 + lead:
            return False
        nx, ny = z[-2:]
        return (s['x_data'] in ((nx,), (nx + 1,))
                and s['y_data'] in ((ny,), (ny + 1,)))

    qs = ((2, 3), (3, 3), (1, 3), (2, 2), (3,), (2, 3, 1), (6, 3))
    fs = ((2, 6), (3, 6), (2, 3), (1, 6), (6, 2), (2, 6, 1), (6,), (2, 5),
          (6, 6))
    ws = (None, (2,), (3,), (1,), (2, 1), (1, 2), (), (6,))
    fq = A('Q', 'meV', fs)
    out = {
        'Crystal': Spec('Crystal', {
            'cell_vectors': A('Q', 'angstrom', ((3, 3), (2, 3), (3, 2), (9,),
                                                (3,), (3, 3, 1), ())),
            'atom_r': A('A', None, ((2, 3), (1, 3), (3, 3), (2, 2), (6,),
                                    (2,), (3, 2), (2, 3, 1))),
            'atom_type': A('A', None, ((2,), (1,), (3,), (2, 1), (1, 2), ()),
                           dtype=str),
            'atom_mass': A('Q', 'amu', ((2,), (1,), (3,), (2, 1), (1, 2),
                                        ())),
        }, crystal_ok),
        'QpointFrequencies': Spec('QpointFrequencies', {
            'crystal': A('crystal', 2, (None,)),
            'qpts': A('A', None, qs), 'frequencies': fq,
            'weights': A('A', None, ws, True)}, q_ok),
        'DebyeWaller': Spec('DebyeWaller', {
            'crystal': A('crystal', 2, (None,)),
            'debye_waller': A('Q', 'angstrom**2', (
                (2, 3, 3), (1, 3, 3), (3, 3, 3), (3, 3), (2, 9), (2, 3),
                (2, 3, 2), (2, 2, 3), (3, 3, 2), (6, 3), (2, 3, 3, 1), ())),
            'temperature': A('Q', 'K', ((),))},
            lambda s: s['debye_waller'] == (2, 3, 3)),
        'Spectrum1D': Spec('Spectrum1D', {
            'x_data': A('Q', 'meV', tuple((n,) for n in range(1, 7)) + (
                (), (2, 2), (1, 3), (3, 1))),
            'y_data': A('Q', '1/meV', tuple((n,) for n in range(1, 7)) + (
                (), (2, 2), (1, 3), (3, 1))),
            'x_tick_labels': A('ticks', None, (None,), True),
            'metadata': A('meta', None, (None,), True)}, s1_ok,
            module='euphonic.spectra'),
        'Spectrum1DCollection': Spec('Spectrum1DCollection', {
            'x_data': A('Q', 'meV', tuple((n,) for n in range(1, 6)) + (
                (), (2, 2), (1, 3), (3, 1))),
            'y_data': A('Q', '1/meV', tuple(
                itertools.product(range(1, 5), repeat=2)) + (
                (), (3,), (2, 2, 2), (1, 3, 1))),
            'x_tick_labels': A('ticks', None, (None,), True),
            'metadata': A('meta', None, (None,), True)}, s1c_ok,
            module='euphonic.spectra'),
    }
    ax = ((1,), (2,), (3,), (4,), (), (2, 2), (3, 1))
    out['Spectrum2D'] = Spec('Spectrum2D', {
        'x_data': A('Q', '1/angstrom', ax), 'y_data': A('Q', 'meV', ax),
        'z_data': A('Q', 'mbarn/meV', tuple(
            itertools.product(range(1, 4), repeat=2)) + (
            (), (2,), (3,), (2, 2, 2), (2, 3, 1))),
        'x_tick_labels': A('ticks', None, (None,), True),
        'metadata': A('meta', None, (None,), True)}, s2_ok,
        module='euphonic.spectra')
    out['Spectrum2DCollection'] = Spec('Spectrum2DCollection', {
        'x_data': A('Q', '1/angstrom', ax), 'y_data': A('Q', 'meV', ax),
        'z_data': A('Q', 'mbarn/meV', tuple(
            itertools.product(range(1, 4), repeat=3)) + (
            (), (2,), (2, 2), (2, 3), (2, 2, 2, 2), (2, 3, 1, 1))),
        'x_tick_labels': A('ticks', None, (None,), True),
        'metadata': A('meta', None, (None,), True)},
        lambda s: s2_ok(s, 1), module='euphonic.spectra')
    for nat in (1, 2):
        out[f'QpointPhononModes/{nat}'] = Spec('QpointPhononModes', {
            'crystal': A('crystal', nat, (None,)),
            'qpts': A('A', None, qs[:6]), 'frequencies': fq,
            'eigenvectors': A('A', None, (
                (2, 6, 2, 3), (2, 3, 1, 3), (3, 6, 2, 3), (2, 6, 6),
                (2, 6, 3, 2), (2, 3, 2, 3), (2, 6, 2, 2), (12, 2, 3),
                (1, 6, 2, 3), (2, 6, 1, 3), (6, 2, 2, 3),
                (2, 6, 2, 3, 1)), dtype=complex),
            'weights': A('A', None, ws[:6], True)},
            lambda s, nat=nat: q_ok(s, nat, ev=True))
        out[f'StructureFactor/{nat}'] = Spec('StructureFactor', {
            'crystal': A('crystal', nat, (None,)),
            'qpts': A('A', None, qs), 'frequencies': fq,
            'structure_factors': A('Q', 'mbarn', fs + ((1, 2, 6), ())),
            'weights': A('A', None, ws, True),
            'temperature': A('Q', 'K', ((), None), True)},
            lambda s, nat=nat: q_ok(s, nat, sf=True))
        for det in (1, 2):
            n3 = 3*nat
            out[f'ForceConstants/{nat}/{det}'] = Spec('ForceConstants', {
                'crystal': A('crystal', nat, (None,)),
                'force_constants': A('Q', 'hartree/bohr**2', (
                    (det, n3, n3), (det + 1, n3, n3), (n3, n3),
                    (det, n3, n3 + 3), (det, n3 + 3, n3), (det*n3, n3),
                    (det, nat, n3, 3), (det, n3, n3, 1), (3 - det, n3, n3))),
                'sc_matrix': A(f'sc{det}', None, (
                    (3, 3), (2, 2), (3,), (9,), (1, 3, 3)), dtype=int),
                'cell_origins': A('A', None, (
                    (det, 3), (det + 1, 3), (det, 2), (3 - det, 3),
                    (det*3,), (3, det + 3), (det, 3, 1)), dtype=int),
                'born': A('Q', 'e', (
                    None, (nat, 3, 3), (nat + 1, 3, 3), (3, 3), (nat, 9),
                    (nat, 3, 2), (nat, 3, 3, 1)), True),
                'dielectric': A('Q', 'e**2/(bohr*hartree)', (
                    None, (3, 3), (3,), (1, 3, 3), (3, 2)), True)},
                lambda s, nat=nat, det=det: fc_ok(s, nat, det))
    return out


def value(name, arg, shape, unit=None):
    from euphonic import Quantity
    kind = arg['kind']
    if kind == 'crystal':
        from mc import gen
        return gen.crystal('tric', {1: 'one', 2: 'cscl'}[arg['unit']])
    if kind in ('ticks', 'meta'):
        return None
    if kind[:2] == 'sc':
        a = np.diag([1, 1, int(kind[2])]) if shape == (3, 3) else fill(
            shape, int)
        return a
    if shape is None:
        return None
    a = fill(shape, arg['dtype'])
    if kind == 'Q':
        return Quantity(a if shape else float(a), unit or arg['unit'])
    return a


def wrong_units(u):
    return [w for w in ('kg', 'K', 'e', 'barn**3', 'meV/angstrom**2',
                        'angstrom', 'meV', 'dimensionless')
            if not compatible(w, u)]


CLASS = {}


def compatible(a, b):
    """units Euphonic converts into one another; energy, length, inverse time
    and inverse length are one family"""
    from euphonic import ureg
    if ureg.Unit(a).dimensionality == ureg.Unit(b).dimensionality:
        return True
    fam = [ureg.Unit(u).dimensionality for u in ('meV', 'angstrom', 'THz',
                                                 '1/angstrom')]
    return (ureg.Unit(a).dimensionality in fam
            and ureg.Unit(b).dimensionality in fam)


def cls_of(spec):
    import importlib
    return getattr(importlib.import_module(spec.module), spec.name)


def units(tier):
    for k in specs():
        yield f'shapes/{k}', dict(key=k, mode='shapes')
        yield f'types/{k}', dict(key=k, mode='types')
    for k in ('Spectrum1D', 'Spectrum1DCollection', 'Spectrum2D',
              'Spectrum2DCollection'):
        yield f'labels/{k}', dict(key=k, mode='labels')
    yield 'dict', dict(key='', mode='dict')


def try_build(cls, kw):
    try:
        return cls(**kw), None
    except Exception as e:
        return None, e


def good(spec):
    """a consistent assignment of shapes"""
    names = list(spec.args)
    for combo in itertools.product(*[spec.args[n]['shapes'] for n in names]):
        s = dict(zip(names, combo))
        if spec.ok(s):
            yield s


def run(ctx, key, mode):
    sp = specs()
    if mode == 'dict':
        return dicts(ctx, sp)
    spec = sp[key]
    cls = cls_of(spec)
    names = list(spec.args)
    if mode == 'labels':
        return labels(ctx, spec, cls)
    if mode == 'shapes':
        vals = {n: {s: value(n, a, s) for s in a['shapes']}
                for n, a in spec.args.items()}
        accepted = 0
        for combo in itertools.product(
                *[spec.args[n]['shapes'] for n in names]):
            s = dict(zip(names, combo))
            case = {'class': key, 'shapes': {k: v for k, v in s.items()
                                             if spec.args[k]['kind'] not in
                                             ('crystal', 'ticks', 'meta')}}
            ctx.case = case
            ctx.state((key, combo))
            ctx.transition()
            kw = {n: vals[n][s[n]] for n in names}
            obj, err = try_build(cls, kw)
            if spec.ok(s):
                accepted += 1
                if ctx.check(obj is not None, 'consistent data rejected',
                             case, lambda: repr(err)):
                    read_back(ctx, spec, obj, kw, case)
                    ctx.trace()
            else:
                ctx.check(obj is None, 'inconsistent data accepted', case)
        ctx.outcome((key, accepted))
        ctx.add('accepted', accepted)
        ctx.sample({'class': key, 'accepted': accepted})
        return
    # wrong types (single and pairwise) and wrong units, from every
    # consistent assignment (a few)
    for s in list(good(spec))[:4]:
        base = {n: value(n, spec.args[n], s[n]) for n in names}
        bad = {}
        for n in names:
            a = spec.args[n]
            opts = []
            for w in WRONG:
                if w is None and a['optional']:
                    continue
                if isinstance(w, list) and a['kind'] == 'ticks':
                    pass        # a list, but not of (int, str)
                if isinstance(w, dict) and a['kind'] == 'meta':
                    continue
                opts.append(w)
            if a['kind'] == 'Q' and base[n] is not None:
                opts.append(np.asarray(base[n].magnitude))
                opts.append(np.asarray(base[n].magnitude).tolist())
            elif a['kind'] == 'A' and base[n] is not None:
                opts.append(base[n].tolist())
                from euphonic import Quantity
                if a['dtype'] is not str:
                    opts.append(Quantity(base[n], 'meV'))
            bad[n] = opts
        for r in (1, 2):
            for pick in itertools.combinations(names, r):
                for combo in itertools.product(*[bad[n] for n in pick]):
                    kw = dict(base, **dict(zip(pick, combo)))
                    case = {'class': key, 'wrong': {
                        n: repr(v)[:60] for n, v in zip(pick, combo)}}
                    ctx.case = case
                    ctx.state((key, repr(s), repr(case)))
                    ctx.transition()
                    obj, err = try_build(cls, kw)
                    ctx.check(obj is None, 'wrong type accepted', case)
        for n in names:
            a = spec.args[n]
            if a['kind'] != 'Q' or base[n] is None or (
                    'Spectrum' in spec.name):
                continue
            for w in wrong_units(a['unit']):
                from euphonic import Quantity
                kw = dict(base, **{n: Quantity(base[n].magnitude, w)})
                case = {'class': key, 'argument': n, 'unit': w}
                ctx.case = case
                ctx.state((key, n, w))
                ctx.transition()
                obj, err = try_build(cls, kw)
                ctx.check(obj is None, 'wrong unit accepted', case)
    ctx.sample({'class': key})


def read_back(ctx, spec, obj, kw, case):
    """what was given is what the object holds"""
    for n, v in kw.items():
        got = getattr(obj, n)
        if v is None:
            if n == 'metadata':
                ok = got == {}
            elif n == 'weights':
                m = len(kw['qpts'])
                ok = np.allclose(got, 1/m) and got.shape == (m,)
            else:
                ok = got is None
        elif spec.args[n]['kind'] == 'Q':
            ok = (np.shape(got.magnitude) == np.shape(v.magnitude)
                  and np.allclose(got.magnitude, v.magnitude, rtol=1e-12)
                  and got.units == v.units)
        elif spec.args[n]['kind'] == 'crystal':
            ok = got.n_atoms == v.n_atoms
        else:
            ok = np.array_equal(got, v)
        if not ctx.check(ok, 'object differs from its data', case,
                         lambda: (n, got, v)):
            return
    for attr, n in (('n_qpts', 'qpts'), ('n_cells_in_sc', 'cell_origins'),
                    ('n_atoms', 'atom_r')):
        if n in kw:
            ctx.check(getattr(obj, attr) == len(kw[n]), 'count wrong', case,
                      lambda: (attr, getattr(obj, attr)))


def labels(ctx, spec, cls):
    """tick labels and metadata"""
    s = [s for s in good(spec) if all(
        v is None or len(v) == 1 or v[0] >= 2 for v in s.values())][0]
    names = list(spec.args)
    base = {n: value(n, spec.args[n], s[n]) for n in names}
    ticks_ok = ([], [(0, 'a')], [(np.int32(0), 'a'), (1, '')],
                [(1, 'b'), (0, 'a')])
    ticks_bad = ([0], [(0,)], [('a', 0)], [(0, 'a', 'b')], [(0.5, 'a')],
                 [(0, 1)], [[0, 'a']], ['ab'], [None], [(0, 'a'), 1],
                 'ab', 5, {'a': 1})
    for t in ticks_ok + ticks_bad:
        case = {'class': spec.name, 'ticks': repr(t)}
        ctx.case = case
        ctx.state(repr(case))
        ctx.transition()
        obj, err = try_build(cls, dict(base, x_tick_labels=t))
        if t in ticks_ok:
            ok = obj is not None and [
                (int(i), l) for i, l in t] == obj.x_tick_labels
            ctx.check(ok, 'valid tick labels rejected or changed', case,
                      lambda: repr(err))
        else:
            ctx.check(obj is None, 'malformed tick labels accepted', case)
    coll = 'Collection' in spec.name
    n = s['z_data' if '2D' in spec.name else 'y_data'][0]
    metas = [({}, 1), ({'a': 'b', 'c': 3}, 1)]
    if coll:
        for k in range(0, n + 3):
            metas.append(({'line_data': [{'i': j} for j in range(k)]},
                          k == n))
            metas.append(({'x': 1, 'line_data': [{} for j in range(k)]},
                          k == n))
    for md, ok in metas:
        case = {'class': spec.name, 'metadata': repr(md), 'n': n}
        ctx.case = case
        ctx.state(repr(case))
        ctx.transition()
        obj, err = try_build(cls, dict(base, metadata=md))
        if ok:
            ctx.check(obj is not None and obj.metadata == md,
                      'valid metadata rejected or changed', case,
                      lambda: repr(err))
        else:
            ctx.check(obj is None, 'line_data of the wrong length accepted',
                      case)
    ctx.trace()
    ctx.sample({'class': spec.name})


def dicts(ctx, sp):
    """a dictionary without a required key, or with one array cut, is
    rejected"""
    for key, spec in sp.items():
        cls = cls_of(spec)
        s = next(good(spec))
        for s in list(good(spec))[:6:5]:
            kw = {n: value(n, spec.args[n], s[n]) for n in spec.args}
            obj = cls(**kw)
            d = obj.to_dict()
            for k, v in d.items():
                opt = spec.args.get(k.replace('_unit', ''), {}).get(
                    'optional', k in ('n_atoms', 'n_qpts', 'n_cells_in_sc'))
                if not opt or k.endswith('_unit'):
                    case = {'class': key, 'missing': k}
                    ctx.case = case
                    ctx.state((key, 'missing', k))
                    ctx.transition()
                    e = dict(d)
                    e.pop(k)
                    try:
                        cls.from_dict(e)
                        ok = False
                    except Exception:
                        ok = True
                    ctx.check(ok, 'missing key accepted', case)
                if isinstance(v, np.ndarray) and v.ndim:
                    for ax in range(v.ndim):
                        if v.shape[ax] == 1:
                            continue
                        e = dict(d)
                        e[k] = np.delete(v, -1, axis=ax)
                        shp = {n: (None if kw[n] is None else
                                   np.shape(getattr(kw[n], 'magnitude',
                                                    kw[n])))
                               for n in kw if spec.args[n]['kind']
                               not in ('crystal', 'ticks', 'meta')}
                        shp[k] = e[k].shape
                        case = {'class': key, 'cut': k, 'axis': ax}
                        ctx.case = case
                        ctx.state((key, 'cut', k, ax))
                        ctx.transition()
                        try:
                            new = cls.from_dict(e)
                        except Exception:
                            new = None
                        if k == 'sc_matrix':
                            ok = new is None
                        else:
                            ok = (new is not None) == bool(spec.ok(shp))
                        ctx.check(ok, 'cut array accepted', case)
            ctx.trace()
