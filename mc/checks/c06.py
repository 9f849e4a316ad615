"""C06: results follow the q-point list."""
import itertools

import numpy as np

from mc import gen

TECHNIQUE = ('bounded-exhaustive enumeration of q-point lists x options on the '
             'real code against a point-by-point reference model')
NOTE = ('Every list up to the bound is interpolated by the real code and every '
        'returned point compared with an independent dynamical matrix.')
RULE = ('one state per (system, q-list, splitting, insert_gamma, reduce, '
        'weights, engine); a transition is one interpolation')
ASSUMPTIONS = ['a gamma point with no neighbour but gamma points has no '
               'documented direction: any neighbour direction or none is '
               'accepted for it']
A = (.13, .21, -.34)
ALPHA = {'G': (0., 0., 0.), 'N': (1., 0., -1.), 'e': (1e-16, 0., 0.),
         'A': A, 'T': (A[0] + 1, A[1] - 2, A[2] + 1),
         'B': (.5, 0., .75), 'H': (.5, .5, .5), 'h': (-.5, 1.5, .5)}
SYSTEMS = {
    'polar': dict(cell='hex', basis='gen2', sc=np.diag([2, 1, 1]),
                  born='aniso', asr='exact', seed=3),
    'apolar': dict(cell='ortho', basis='gen2', sc=np.diag([2, 1, 1]), seed=4),
}


def units(tier):
    for s in SYSTEMS:
        for a, b in itertools.product(ALPHA, ALPHA):
            yield f'{s}/{a}{b}', dict(system=s, first=a, second=b)
        yield f'{s}/short', dict(system=s, first='', second='')


def lists(first, second, thorough):
    if not first:
        for n in (1, 2):
            for t in itertools.product(ALPHA, repeat=n):
                yield t
        return
    head = (first, second)
    for t in ALPHA:
        yield head + (t,)
    for letters, quick, deep in (('GNATB', 2, 2), ('GAB', 3, 4)):
        if set(head) <= set(letters):
            for n in range(2, (deep if thorough else quick) + 1):
                for t in itertools.product(letters, repeat=n):
                    yield head + t
    if thorough:
        for t in itertools.product(ALPHA, repeat=2):
            yield head + t


class Model:
    def __init__(self, fc):
        from mc import ref
        self.ref, self.fc = ref, fc
        crys = fc.crystal
        cell = crys.cell_vectors.to('bohr').magnitude
        self.im = ref.Images(cell, fc.sc_matrix, crys.atom_r, fc.cell_origins)
        assert self.im.clear and self.im.reach <= 2
        self.mw = np.sqrt(np.repeat(ref.masses(crys), 3))
        self.dip = None
        if fc.born is not None:
            self.dip = ref.Dipole(
                cell, crys.atom_r, fc.born.to('e').magnitude,
                fc.dielectric.to('e**2/(bohr*hartree)').magnitude)
        self.cache = {}

    def d(self, q, qdir=None):
        """expected dynamical matrix and eigenvalues"""
        q = tuple(np.round(np.asarray(q) - np.rint(q), 12) + 0.)
        key = (q, None if qdir is None else tuple(np.round(qdir, 12)))
        if key not in self.cache:
            d = self.ref.dyn(self.fc, np.array(q), self.im)
            if self.dip is not None:
                d = d + self.dip(q)/np.outer(self.mw, self.mw)
                if qdir is not None:
                    d = d + self.dip.nonanalytic(qdir)/np.outer(
                        self.mw, self.mw)
            d = 0.5*(d + d.conj().T)
            self.cache[key] = (d, np.linalg.eigvalsh(d))
        return self.cache[key]


def gamma(name):
    return name in 'GNe'


def expected(names, weights, splitting, insert):
    """list of (name, weight, [acceptable directions]): the next point that
    isn't gamma, otherwise the previous one"""
    w = list(weights) if weights is not None else [None]*len(names)
    seq = []
    for k, (a, wt) in enumerate(zip(names, w)):
        if splitting and insert and gamma(a) and 0 < k < len(names) - 1:
            wt = None if wt is None else wt/2
            seq += [(a, wt)]*2
        else:
            seq.append((a, wt))
    out = []
    for k, (a, wt) in enumerate(seq):
        if not (splitting and gamma(a)):
            out.append((a, wt, [None]))
            continue
        near = [seq[i][0] for i in (k + 1, k - 1) if 0 <= i < len(seq)]
        dirs = [(np.array(ALPHA[b]) - ALPHA[a])*(1 if i == 0 else -1)
                for i, b in enumerate(near)]
        proper = [d for d, b in zip(dirs, near) if not gamma(b)]
        if proper:
            out.append((a, wt, proper[:1]))
        else:
            out.append((a, wt, dirs + [None]))
    return out


def run(ctx, system, first, second):
    from mc import ref
    fc = gen.force_constants(**SYSTEMS[system])
    model = Model(fc)
    polar = fc.born is not None
    for names in lists(first, second, ctx.thorough):
        q = np.array([ALPHA[a] for a in names])
        orig = q.copy()
        for spl, ins, red, wt, eng in itertools.product(
                (True, False), (True, False), (True, False),
                (False, True), ('c', 'py', 'c-freq')):
            if not ctx.thorough and len(names) > 3 and (
                    eng == 'py' or not wt or not spl and ins):
                continue
            case = dict(system=system, qpts=''.join(names), splitting=spl,
                        insert_gamma=ins, reduce_qpts=red, weights=wt,
                        engine=eng)
            ctx.case = case
            ctx.state(tuple(case.values()))
            w = np.arange(1., len(q) + 1)**2/8 if wt else None
            f = (fc.calculate_qpoint_frequencies if eng == 'c-freq'
                 else fc.calculate_qpoint_phonon_modes)
            r = f(q, weights=w, splitting=spl, insert_gamma=ins,
                  reduce_qpts=red, use_c=eng != 'py', n_threads=1)
            ctx.transition()
            check(ctx, r, expected(names, w, spl and polar, ins), model, case,
                  wt)
            ctx.check(np.array_equal(q, orig), 'q-points modified', case)
            ctx.trace()
            ctx.outcome(r.frequencies.magnitude.round(4).tobytes())
    ctx.sample(ctx.case)


def check(ctx, r, exp, model, case, wt):
    from mc import ref
    names = [e[0] for e in exp]
    if not ctx.check(
            r.qpts.shape == (len(exp), 3) and np.array_equal(
                r.qpts, np.array([ALPHA[a] for a in names])),
            'returned q-points wrong', case,
            lambda: dict(got=r.qpts, expected=names)):
        return
    we = (np.array([e[1] for e in exp]) if wt
          else np.full(len(exp), 1/len(exp)))
    ctx.check(np.allclose(r.weights, we, rtol=1e-12, atol=0),
              'weights wrong', case, lambda: (r.weights, we))
    lams = ref.lam(r.frequencies)
    if not ctx.check(lams.shape[0] == len(exp), 'number of points', case):
        return
    ev = getattr(r, 'eigenvectors', None)
    for k, (a, _, dirs) in enumerate(exp):
        best = None
        for x in dirs:
            d, lam = model.d(ALPHA[a], x)
            err = np.abs(lams[k] - lam).max()
            if best is None or not err >= best[0]:
                best = (err, d, lam)
        err, d, lam = best
        tol = 1e-8*np.abs(d).max()
        if not ctx.check(err <= tol, 'frequencies do not belong to the '
                         'q-point', case,
                         lambda: dict(index=k, point=a, dirs=dirs,
                                      got=r.frequencies[k].magnitude,
                                      expected=ref.freq(lam))):
            return
        if ev is not None:
            v = ev[k].reshape(len(lam), -1)
            res = np.abs(d @ v.T - v.T*lam[None]).max()
            if not ctx.check(
                    res <= 30*tol and np.abs(
                        v.conj() @ v.T - np.eye(len(lam))).max() < 1e-8,
                    'eigenvectors do not belong to the q-point', case,
                    lambda: dict(index=k, point=a, residual=res)):
                return
