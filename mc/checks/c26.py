"""C26: reordering frequencies by mode."""
import itertools

import numpy as np

TECHNIQUE = ('bounded-exhaustive enumeration of the permutations of the modes '
             'at every q-point of short paths of known continuous '
             'eigenvectors, on the real code')
NOTE = ('Every combination of mode orders at the q-points of a path is fed to '
        'reorder_frequencies; the branches are known, so that both the '
        'permutation and the continuity of each index are decided exactly.')
RULE = ('one state per (path, branch frames, order of the modes at each '
        'q-point, reorder_gamma); a transition is one step between successive '
        'q-points')
ASSUMPTIONS = [
    'the eigenvectors of one branch at successive q-points overlap more than '
    'those of different branches',
    'at steps after a change of direction, into or out of a jump, and next to '
    'gamma with reorder_gamma=False, indices need only continue when the '
    'modes come in the same order at both q-points']

N = 5


def line(start, step, n):
    return [np.array(start) + k*np.array(step) for k in range(n)]


PATHS = {
    # name: (q-points, index of the q-point after a jump)
    'straight': (line((.1, .13, .2), (.05, 0, .02), N), None),
    'diagonal': (line((-.3, -.3, -.3), (.11, .11, .11), N), None),
    'corner': (line((.1, .1, .2), (.05, 0, 0), 3)
               + line((.2, .15, .2), (0, .05, 0), 2), None),
    'jump': (line((.1, .1, .2), (.1, 0, 0), 3)
             + line((.4, .4, .1), (0, .1, .05), 2), 3),
    'equivalent': (line((.3, 0, .2), (.1, 0, 0), 3)
                   + line((-.5, .1, .2), (0, .1, 0), 2), None),
    'gamma': (line((-.2, 0, 0), (.1, 0, 0), N), None),
    'gamma-equivalent': (line((.7, 1, 2), (.1, 0, 0), N), None),
    'from-gamma': (line((0, 0, 0), (.1, 0, 0), N), None),
    'to-gamma': (line((-.4, 0, 0), (.1, 0, 0), N), None),
    'gamma-ends': ([np.zeros(3), np.array([.5, 0, 0]), np.array([1., 0, 0])],
                   None),
    'gamma-corner': (line((.2, 0, 0), (-.1, 0, 0), 3)
                     + line((0, .1, 0), (0, .1, 0), 2), None),
    'twice-gamma': (line((-.1, 0, 0), (.1, 0, 0), 2)
                    + line((0, 0, 0), (.1, 0, 0), 3), None),
    'repeated': (line((.1, .1, .1), (.1, 0, 0), 2)
                 + line((.2, .1, .1), (.1, 0, 0), 3), None),
    'reversal': (line((.1, .1, .1), (.1, 0, 0), 3)
                 + line((.2, .1, .1), (-.1, 0, 0), 2), None),
    'one': (line((.1, .2, .3), (0, 0, 0), 1), None),
    'two': (line((.1, .2, .3), (.1, 0, 0), 2), None),
}
FRAMES = ('axes', 'rotating', 'complex')


def units(tier):
    for p in PATHS:
        for f in FRAMES:
            yield f'follow/{p}/{f}', dict(part='follow', path=p, frame=f)
    for f in FRAMES:
        yield f'six/{f}', dict(part='six', frame=f)
    for n in range(1, 5 if tier == 'quick' else 6):
        yield f'any/{n}', dict(part='any', n=n)
    yield 'derived', dict(part='derived')
    for k in range(4):
        yield f'model/{k}', dict(part='model', k=k)


def run(ctx, part, **kw):
    globals()['part_' + part](ctx, **kw)


def make(n_atoms, qpts, freqs, evecs, weights=None):
    from euphonic import Crystal, QpointPhononModes, ureg
    crystal = Crystal(np.diag([3., 4, 5])*ureg('angstrom'),
                      np.array([[0., 0, 0], [.4, .5, .6]])[:n_atoms],
                      np.array(['Mg', 'O'])[:n_atoms],
                      np.array([24.3, 16.])[:n_atoms]*ureg('amu'))
    return QpointPhononModes(crystal, np.array(qpts), freqs*ureg('meV'),
                             evecs, weights)


def skew(n, seed):
    g = np.random.default_rng(seed)
    a = g.normal(size=(n, n)) + 1j*g.normal(size=(n, n))
    return a - a.conj().T


def frames(kind, n, steps, jump):
    """(steps, n branch, n component): orthonormal, following continuously"""
    out = []
    for k in range(steps):
        if kind == 'axes':
            f = np.eye(n, dtype=complex)
        elif kind == 'rotating':
            f = np.eye(n, dtype=complex)
            for i in range(n - 1):
                t = .2*k*(-1)**i
                r = np.eye(n)
                r[i:i + 2, i:i + 2] = [[np.cos(t), np.sin(t)],
                                       [-np.sin(t), np.cos(t)]]
                f = f @ r
        else:
            w, v = np.linalg.eigh(1j*skew(n, 5))
            w = w/np.abs(w).max()
            f = (v*np.exp(1j*.25*k*w)) @ v.conj().T
            w, v = np.linalg.eigh(1j*skew(n, 6))
            f = f @ v                   # common unitary start
        if jump is not None and k >= jump:
            f = np.roll(f, 1, axis=1)   # another place: other polarisations
        out.append(f)
    return np.array(out)


def branch_freqs(n, steps):
    """every value different; branches cross"""
    k = np.arange(steps)[:, None]
    b = np.arange(n)[None]
    return 5. + 3*b + (-1.)**b*2.1*k + .01*b*k


def is_gamma(q):
    return np.all(np.abs(q - np.rint(q)) < 1e-12)


def turned(a, b, c):
    return np.linalg.norm(np.cross(b - a, c - b)) > 1e-9


def decide(ctx, case, qpts, freqs, frame, orders, phases, reorder_gamma,
           n_atoms):
    n = 3*n_atoms
    L = len(qpts)
    rows = np.arange(L)[:, None]
    order = np.array(orders)
    raw_f = freqs[rows, order]
    raw_e = (frame[rows, order]*phases[:, :, None]).reshape(
        L, n, n_atoms, 3)
    keep_f, keep_e = raw_f.copy(), raw_e.copy()
    m = make(n_atoms, qpts, raw_f, raw_e)
    ret = ctx.call(case, m.reorder_frequencies, reorder_gamma=reorder_gamma)
    if ret is ctx.FAILED:
        return
    ctx.state((case['path'], case['frame'], tuple(map(tuple, orders)),
               reorder_gamma))
    ctx.transition(L - 1)
    f = m.frequencies.to('meV').magnitude
    e = m.eigenvectors
    if not (np.array_equal(raw_f, keep_f) and np.array_equal(raw_e, keep_e)):
        ctx.fail('the caller\'s arrays were changed', case, '')
    if f.shape != raw_f.shape or e.shape != raw_e.shape:
        ctx.fail('shape changed', case, [f.shape, e.shape])
        return
    # which branch is at each index
    dist = np.abs(f[:, :, None] - freqs[:, None, :])
    got = dist.argmin(axis=2)
    if dist.min(axis=2).max() > 1e-9 or np.any(
            np.sort(got, axis=1) != np.arange(n)):
        ctx.fail('frequencies at a q-point are not those put in', case,
                 f.tolist())
        return
    inv = np.argsort(order, axis=1)
    want_e = raw_e[rows, inv[rows, got]]
    if not np.array_equal(e, want_e):
        ctx.fail('eigenvectors do not belong to their frequencies', case, '')
        return
    if not np.array_equal(got[0], order[0]):
        ctx.fail('the first q-point was reordered', case, got[0].tolist())
    for i in range(1, L):
        same = np.array_equal(order[i], order[i - 1])
        smooth = i == 1 or not turned(qpts[i - 2], qpts[i - 1], qpts[i])
        if case.get('jump') == i:
            smooth = False
        if not reorder_gamma and (is_gamma(qpts[i]) or is_gamma(qpts[i - 1])):
            smooth = False
        if (smooth or same) and not np.array_equal(got[i], got[i - 1]):
            ctx.fail('a branch changed its index', case,
                     dict(step=i, got=got.tolist()))
            return


PHASES = np.exp(2j*np.pi*np.array([0, .5, .25, .137, .81, .62, .33]))


def phases_for(L, n, k):
    return PHASES[(np.arange(L*n)*(k % 6 + 1) + k) % 7].reshape(L, n)


def part_follow(ctx, path, frame):
    qpts, jump = PATHS[path]
    L = len(qpts)
    fr = frames(frame, 3, L, jump)
    freqs = branch_freqs(3, L)
    perms = list(itertools.permutations(range(3)))
    gammas = (True, False) if any(is_gamma(q) for q in qpts) else (
        True, False) if ctx.thorough else (True,)
    free = L if ctx.thorough else min(L, 4)
    fixed = [perms[0]]*(L - free)
    for k, orders in enumerate(itertools.product(perms, repeat=free)):
        if L > free:
            # quick: the first q-point keeps its order
            orders = tuple(fixed) + orders
        for rg in gammas:
            case = dict(path=path, frame=frame, orders=[list(o) for o in
                                                        orders],
                        reorder_gamma=rg, jump=jump)
            decide(ctx, case, qpts, freqs, fr, orders,
                   phases_for(L, 3, k), rg, 1)
    ctx.trace()


def part_six(ctx, frame):
    qpts = line((.1, .13, .2), (.05, 0, .02), 3)
    fr = frames(frame, 6, 3, None)
    freqs = branch_freqs(6, 3)
    ident = tuple(range(6))
    for k, o in enumerate(itertools.permutations(range(6))):
        last = [ident, ident[::-1], o, o[::-1]]
        if ctx.thorough:
            last += [p for p in itertools.permutations(range(6))
                     if sum(a != b for a, b in zip(p, o)) == 2]
        for p in last:
            for first in (ident, o) if ctx.thorough else (ident,):
                case = dict(path='six', frame=frame,
                            orders=[list(first), list(o), list(p)])
                decide(ctx, case, qpts, freqs, fr, (first, o, p),
                       phases_for(3, 6, k), True, 2)
    ctx.trace()


# --------------------------------------------------- arbitrary eigenvectors

def any_frames():
    n = 3
    dft = np.exp(2j*np.pi*np.outer(range(n), range(n))/n)/np.sqrt(n)
    w, v = np.linalg.eigh(1j*skew(n, 11))
    return {'axes': np.eye(n, dtype=complex),
            'cyclic': np.roll(np.eye(n, dtype=complex), 1, axis=0),
            'equal-overlaps': dft,
            'unitary': v,
            'same-thrice': np.tile(v[:1], (3, 1)),
            'zero': np.zeros((n, n), complex),
            'huge': 1e200*np.eye(n, dtype=complex)}


def part_any(ctx, n):
    """whatever the eigenvectors: only a permutation at each q-point"""
    fr = any_frames()
    for names in itertools.product(fr, repeat=n):
        for path in ('straight', 'gamma', 'corner'):
            qpts = PATHS[path][0][1:1 + n]
            for rg in (True, False):
                case = dict(frames=list(names), path=path, reorder_gamma=rg)
                freqs = branch_freqs(3, n)
                evecs = np.array([fr[k] for k in names]).reshape(n, 3, 1, 3)
                m = make(1, qpts, freqs.copy(), evecs.copy(),
                         np.arange(1., n + 1))
                if ctx.call(case, m.reorder_frequencies,
                            reorder_gamma=rg) is ctx.FAILED:
                    continue
                ctx.state((names, path, rg))
                ctx.transition(n)
                f = m.frequencies.to('meV').magnitude
                at = np.abs(f[:, :, None] - freqs[:, None]).argmin(axis=2)
                ok = (np.array_equal(np.sort(at, axis=1),
                                     np.tile(range(3), (n, 1)))
                      and np.allclose(np.take_along_axis(freqs, at, 1), f,
                                      rtol=1e-12, atol=0)
                      and np.array_equal(
                          m.eigenvectors,
                          evecs[np.arange(n)[:, None], at])
                      and np.array_equal(m.qpts, np.array(qpts))
                      and np.allclose(m.weights, np.arange(1., n + 1)))
                ctx.check(ok, 'not a permutation of the modes', case,
                          at.tolist())
    ctx.trace()


# --------------------------------------------------------- derived quantities

def part_derived(ctx):
    """what is calculated per q-point or over the modes does not change"""
    from euphonic import ureg
    qpts, _ = PATHS['straight']
    L = len(qpts)
    fr = frames('complex', 6, L, None)
    freqs = branch_freqs(6, L)
    swaps = [o for o in itertools.permutations(range(6))
             if sum(a != b for a, b in enumerate(o)) == 2]
    g = np.random.default_rng(3)
    bins = np.arange(0, 40, .7)*ureg('meV')
    for k, (a, b) in enumerate(itertools.product(swaps, repeat=2)):
        order = np.array([range(6), a, b, a[::-1], b[::-1]])
        rows = np.arange(L)[:, None]
        w = g.uniform(.2, 1, L)

        def build():
            return make(2, qpts, freqs[rows, order],
                        fr[rows, order].reshape(L, 6, 2, 3), w)
        old, new = build(), build()
        case = dict(orders=order.tolist())
        if ctx.call(case, new.reorder_frequencies) is ctx.FAILED:
            continue
        ctx.state(tuple(map(tuple, order.tolist())))
        ctx.transition(L)
        if np.array_equal(new.frequencies.magnitude,
                          old.frequencies.magnitude):
            ctx.fail('nothing was reordered', case, '')
            continue
        for what in ('sf', 'dw', 'dos', 'pdos', 'dispersion'):
            if what == 'sf':
                got = []
                for m in (old, new):
                    s = m.calculate_structure_factor()
                    f = s.frequencies.to('meV').magnitude
                    o = np.argsort(f, axis=1)
                    got.append(np.concatenate((
                        np.take_along_axis(f, o, 1), np.take_along_axis(
                            s.structure_factors.to('mbarn').magnitude, o, 1)),
                        1))
            elif what == 'dw':
                got = [m.calculate_debye_waller(
                    300*ureg('K'), symmetrise=False
                    ).debye_waller.to('angstrom**2').magnitude
                    for m in (old, new)]
            elif what == 'dos':
                got = [m.calculate_dos(bins).y_data.magnitude
                       for m in (old, new)]
            elif what == 'pdos':
                got = [m.calculate_pdos(bins).y_data.magnitude
                       for m in (old, new)]
            else:
                d = [m.get_dispersion() for m in (old, new)]
                got = [np.sort(x.y_data.to('meV').magnitude, axis=0)
                       for x in d]
                same = (np.array_equal(d[0].x_data.magnitude,
                                       d[1].x_data.magnitude)
                        and d[0].x_tick_labels == d[1].x_tick_labels)
                ctx.check(same, 'the path changed', case, '')
                ctx.check(np.allclose(
                    d[1].y_data.to('meV').magnitude.T,
                    new.frequencies.to('meV').magnitude, rtol=1e-12),
                    'lines are not the reordered modes', case, '')
            scale = np.abs(got[0]).max()
            ctx.check(np.allclose(*got, rtol=1e-9, atol=1e-10*scale),
                      f'{what} changed', case,
                      float(np.abs(got[0] - got[1]).max()))
    ctx.trace()


# ---------------------------------------------------------- a solvable model

LINES = [((.05, 0, 0), (.45, 0, 0)), ((.05, .11, .02), (.47, .43, .31)),
         ((-.4, .1, .07), (.4, .1, .07)), ((.03, .03, .03), (.49, .49, .49)),
         ((.02, .2, .41), (.98, .2, .41))]
SPRINGS = [np.array(s, float) for s in (
    [[4, 1, 2], [1, 3, .5], [.7, 2, 5]],
    [[1, 0, 0], [0, 2, 0], [0, 0, 3]],
    [[3, .2, 1], [.9, 2.5, .3], [2, 1.5, 1.1]],
    [[5, .1, .1], [1, 1, 1], [.1, .1, 5]])]


def part_model(ctx, k):
    """one atom, springs along the axes: omega_a^2 = sum_d k_ad (2-2cos q_d);
    the branches are the axes and cross"""
    from euphonic import Crystal, ForceConstants, ureg
    ks = SPRINGS[k]
    sc = 3
    origins = np.array(list(itertools.product(range(sc), repeat=3)))
    fc = np.zeros((len(origins), 3, 3))
    for a in range(3):
        for d in range(3):
            step = np.eye(3, dtype=int)[d]
            for o, r in enumerate(origins):
                if np.array_equal(r, 0*r):
                    fc[o, a, a] += 2*ks[a, d]
                if np.array_equal(r, step) or np.array_equal(r,
                                                             -step % sc):
                    fc[o, a, a] -= ks[a, d]
    crystal = Crystal(np.diag([3., 3.1, 3.3])*ureg('angstrom'),
                      np.zeros((1, 3)), np.array(['Si']),
                      np.array([28.])*ureg('amu'))
    obj = ForceConstants(crystal, fc*.01*ureg('hartree/bohr**2'),
                         np.diag([sc]*3), origins)
    seen = 0
    for (start, end) in LINES:
        for n in range(8, 40, 8 if not ctx.thorough else 1):
            t = np.linspace(0, 1, n)[:, None]
            q = (1 - t)*np.array(start) + t*np.array(end)
            w2 = (2 - 2*np.cos(2*np.pi*q)) @ ks.T*.01
            true = np.sqrt(w2/(28*ureg('amu').to(
                'electron_mass').magnitude))*ureg('hartree').to(
                    'meV').magnitude
            gap = np.abs(true[:, [0, 1, 2]] - true[:, [1, 2, 0]]).min()
            if gap < 1e-6*true.max():
                continue                # degenerate: branches not defined
            case = dict(springs=k, line=[start, end], n=n)
            m = ctx.call(case, obj.calculate_qpoint_phonon_modes, q)
            if m is ctx.FAILED:
                continue
            if ctx.call(case, m.reorder_frequencies) is ctx.FAILED:
                continue
            seen += 1
            ctx.state((k, start, end, n))
            ctx.transition(n)
            f = m.frequencies.to('meV').magnitude
            first = np.argsort(true[0])
            ctx.check(np.allclose(f, true[:, first], rtol=1e-6,
                                  atol=1e-6*true.max()),
                      'an index does not follow its branch', case,
                      float(np.abs(f - true[:, first]).max()))
    ctx.check(seen > 3, 'no case without degeneracy', dict(springs=k), seen)
    ctx.trace()
