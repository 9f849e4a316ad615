"""C04: the C extension and the Python implementation agree."""
import itertools
import warnings

import numpy as np

from mc import gen

TECHNIQUE = ('bounded-exhaustive differential enumeration: full product of '
             'options, q-lists, systems, and array layouts, C against Python')
NOTE = ('Every point of the product is executed with both implementations; '
        'the extension is compiled from the current sources.')
RULE = ('one state per (system, q-list, option set) or (system, array, '
        'layout, option set); a transition is one pair of executions')
ASSUMPTIONS = ['numpy arrays as input', 'one OpenMP thread (C05 covers more)']
SYSTEMS = {
    'polar': dict(cell='fcc', basis='dia', sc=np.diag([2, 1, 1]),
                  born='aniso', asr='exact'),
    'polar3': dict(cell='tric', basis='gen3', sc=np.diag([1, 1, 1]),
                   born='aniso', asr='exact'),
    'apolar': dict(cell='hex', basis='gen2',
                   sc=np.array([[1, 1, 0], [-1, 1, 0], [0, 0, 2]])),
    'one': dict(cell='bcc', basis='one', sc=np.diag([2, 2, 2])),
}
G, A, B, N = (0., 0., 0.), (.1, .2, -.3), (.5, 0., .75), (1., 0., -1.)
H = (.5, .5, .5)
LISTS = {
    'gamma': [G], 'single': [A], 'path': [A, G, B], 'gg': [A, G, G, B],
    'first': [G, A, A, B], 'last': [A, H, B, G], 'zones': [A, N, B, G, H],
    'far': [(3.1, -2.8, .7), (.1, .2, -.3), (-.9, 1.2, 2.7)],
}
LAYOUTS = ('F', 'strided', 'reversed', 'readonly', 'bigendian', 'narrow',
           'wide', 'view', 'integer')
ARRAYS = ('force_constants', 'cell_origins', 'sc_matrix', 'born',
          'dielectric', 'cell_vectors', 'atom_r', 'atom_mass', 'qpts',
          'weights', 'all')


def units(tier):
    for s in SYSTEMS:
        for q in LISTS:
            yield f'{s}/{q}', dict(what='options', system=s, q=q)
    for s in ('polar', 'polar3', 'apolar'):
        for a in ARRAYS:
            yield f'layout/{s}/{a}', dict(what='layout', system=s, q=a)


def call(fc, q, o, use_c):
    o = dict(o)
    vecs = o.pop('vecs')
    if o['weights'] is True:
        o['weights'] = np.arange(1., len(q) + 1)/7
    f = (fc.calculate_qpoint_phonon_modes if vecs
         else fc.calculate_qpoint_frequencies)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            r = f(np.array(q), use_c=use_c, n_threads=1, **o)
        except Exception as e:
            return dict(error=type(e).__name__)
    g = None
    if o.get('return_mode_gradients'):
        r, g = r
    out = dict(qpts=r.qpts, freq=r.frequencies, weights=r.weights,
               warn=sorted({str(x.category) for x in w
                            if 'mode gradients' not in str(x.message)
                            and 'coustic' not in str(x.message)}))
    if g is not None:
        out['grad'] = g
    if vecs:
        out['vecs'] = r.eigenvectors
    return out


def groups(lam, tol):
    out, start = [], 0
    for k in range(1, len(lam) + 1):
        if k == len(lam) or lam[k] - lam[k-1] > tol:
            out.append((start, k))
            start = k
    return out


def compare(ctx, a, b, case, scale, fcmp=1e-9):
    from mc import ref
    if 'error' in a or 'error' in b:
        return ctx.check(a.get('error') == b.get('error'),
                         'one engine raises', case, (a.get('error'),
                                                     b.get('error')))
    ctx.check(a['warn'] == b['warn'], 'warnings differ', case,
              (a['warn'], b['warn']))
    for k in ('qpts', 'weights'):
        ctx.check(np.array_equal(a[k], b[k]), k + ' differ', case,
                  (a[k], b[k]))
    la, lb = ref.lam(a['freq']), ref.lam(b['freq'])
    if not ctx.check(la.shape == lb.shape and np.abs(
            la - lb).max() <= fcmp*scale and np.all(np.isfinite(la)),
            'frequencies differ', case,
            lambda: (a['freq'].magnitude, b['freq'].magnitude)):
        return False
    for q in range(len(la)):
        for s, e in groups(lb[q], 1e-5*scale):
            if 'vecs' in a:
                va = a['vecs'][q, s:e].reshape(e - s, -1)
                vb = b['vecs'][q, s:e].reshape(e - s, -1)
                pa, pb = va.T @ va.conj(), vb.T @ vb.conj()
                if not ctx.check(np.abs(pa - pb).max() < 1e-3,
                                 'eigenvectors differ', case,
                                 lambda: dict(q=q, modes=(s, e),
                                              diff=np.abs(pa - pb).max())):
                    return False
            if 'grad' in a and lb[q, s] > 1e-4*scale:
                ga = a['grad'].magnitude[q, s:e].sum(axis=0)
                gb = b['grad'].to(a['grad'].units).magnitude[q, s:e].sum(
                    axis=0)
                ok = np.abs(ga - gb).max() <= 1e-5*(
                    1 + np.abs(a['grad'].magnitude[q, s:e]).max())
                if not ctx.check(ok, 'gradients differ', case,
                                 lambda: (q, s, e, ga, gb)):
                    return False
    return True


def options():
    for asr, dip, spl, ins, red, grad, wt, vecs in itertools.product(
            (None, 'reciprocal', 'realspace'), (True, False), (True, False),
            (True, False), (True, False), (True, False), (None, True),
            (True, False)):
        yield dict(asr=asr, dipole=dip, splitting=spl, insert_gamma=ins,
                   reduce_qpts=red, return_mode_gradients=grad, weights=wt,
                   vecs=vecs)


def run(ctx, what, system, q):
    if what == 'options':
        s = SYSTEMS[system]
        fc = gen.force_constants(seed=2, **s)
        scale = 0.1/fc.crystal.atom_mass.to('electron_mass').magnitude.min()
        for o in options():
            if system in ('apolar', 'one') and (
                    not o['dipole'] or not o['splitting']) and not ctx.thorough:
                continue
            case = dict(system=system, qpts=LISTS[q], options=o)
            ctx.case = case
            ctx.state(case)
            a = call(fc, LISTS[q], o, True)
            b = call(fc, LISTS[q], o, False)
            ctx.transition()
            compare(ctx, a, b, case, scale)
            ctx.trace()
            ctx.outcome((len(a['freq']), np.round(
                a['freq'].magnitude, 6).tobytes()))
    else:
        layout(ctx, system, q)
    ctx.sample(ctx.case)


def relayout(a, kind):
    """same values, other memory layout; None if it cannot hold them"""
    a = np.asarray(a)
    if kind == 'F':
        return np.asfortranarray(a)
    if kind == 'strided':
        big = np.full(tuple(2*n for n in a.shape), 77, dtype=a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if kind == 'reversed':
        sl = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[sl])[sl]
    if kind == 'readonly':
        b = a.copy()
        b.flags.writeable = False
        return b
    if kind == 'bigendian':
        return a.astype(a.dtype.newbyteorder('>'))
    if kind == 'narrow':
        b = a.astype(np.int32 if a.dtype.kind == 'i' else np.float32)
        return b if np.array_equal(b, a) else None
    if kind == 'wide':
        return a.astype(np.int64) if a.dtype.kind == 'i' else None
    if kind == 'view':
        big = np.full((3,) + a.shape, 13, dtype=a.dtype)
        big[1] = a
        return big[1]
    if kind == 'integer':
        if a.dtype.kind == 'i':
            return a.astype(np.int16)
        b = np.rint(a).astype(int)
        return b if np.array_equal(b, a) else None


def layout(ctx, system, array):
    from euphonic import Crystal, ForceConstants, ureg
    s = dict(SYSTEMS[system])
    born = s.get('born')
    # values that every layout can hold exactly
    sc = np.asarray(s['sc'])
    cell = np.round(gen.CELLS[s['cell']]*2)/2
    r, types = gen.BASES[s['basis']]
    grid = 8
    for ints in (False, True):
        data = dict(
            cell_vectors=np.round(cell) if ints else cell,
            atom_r=(np.round(r*grid)/grid),
            atom_mass=np.array([np.round(gen.MASS[t]) for t in types]),
            sc_matrix=sc.astype(np.int64),
            qpts=np.array([(.125, .25, -.375), (0, 0, 0), (.5, 0, .75),
                           (1, 0, 0), (1.125, .25, -.375)]),
            weights=np.array([1., 2., 1., 3., 5.]))
        if ints:
            data['qpts'] = np.array([(1, 0, 0), (0, 0, 0), (0, 2, 1)], float)
            data['weights'] = data['weights'][:3]
            data['atom_r'] = data['atom_r']*0 + (np.arange(
                len(r))*0.25)[:, None]
        fc, og = gen.raw_fc(s['basis'], sc, 4, s.get('asr'))
        data['force_constants'] = np.round(fc*2**16)/2**16
        data['cell_origins'] = og.astype(np.int64)
        if born:
            z, eps = gen.born_charges(s['basis'], born)
            z = np.round(z*64)/64
            z[-1] -= z.sum(axis=0)
            data['born'] = z if not ints else np.rint(z)
            if ints:
                data['born'][-1] -= data['born'].sum(axis=0)
            data['dielectric'] = (np.round(eps*64)/64 if not ints
                                  else np.diag([2., 3., 2.]))

        def build(d):
            crys = Crystal(d['cell_vectors']*ureg('bohr'), d['atom_r'],
                           np.array(types), d['atom_mass']*ureg('amu'))
            kw = {}
            if born:
                kw = dict(born=d['born']*ureg('e'),
                          dielectric=d['dielectric']
                          * ureg('e**2/(bohr*hartree)'))
            return ForceConstants(
                crys, d['force_constants']*ureg('hartree/bohr**2'),
                d['sc_matrix'], d['cell_origins'], **kw)

        scale = 0.1/(data['atom_mass'].min()*1822.9)
        opts = [dict(asr=asr, dipole=d, splitting=d, insert_gamma=True,
                     reduce_qpts=red, return_mode_gradients=True, vecs=True)
                for asr in (None, 'reciprocal', 'realspace')
                for d in (True, False) for red in (True, False)]
        want = []
        for o in opts:
            want.append(call(build(data), data['qpts'],
                             dict(o, weights=data['weights']), False))
            ctx.check('error' not in want[-1], 'reference raises', o)
        for kind in LAYOUTS:
            d = dict(data)
            changed = 0
            for k in (data if array == 'all' else (array,)):
                if k not in data:
                    continue
                v = relayout(data[k], kind)
                if v is not None:
                    d[k] = v
                    changed += 1
            if not changed:
                continue
            for use_c in (True, False):
                # the same object is used twice: layouts must also survive
                # being cached
                fc = build(d)
                for k, o in enumerate(opts):
                    case = dict(system=system, array=array, layout=kind,
                                integer_values=ints, use_c=use_c, options=o)
                    ctx.case = case
                    ctx.state(case)
                    got = call(fc, d['qpts'], dict(o, weights=d['weights']),
                               use_c)
                    ctx.transition()
                    compare(ctx, got, want[k], case, scale,
                            1e-8 if kind != 'narrow' else 1e-5)
                    ctx.trace()
                    ctx.outcome((k, len(got['freq'])))
                for key in d:
                    ctx.check(np.array_equal(d[key], data[key]),
                              f'input array {key} modified', case)
