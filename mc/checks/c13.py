"""C13: axes and data stay consistent under split, bins and arithmetic."""
import copy
import functools
import itertools

import numpy as np

TECHNIQUE = ('exhaustive enumeration of axes, cut sets and histories of '
             'split / scale / add / unit-change operations on real spectra, '
             'in lock-step with a model that is a list of (interval, value) '
             'pairs')
NOTE = ('Every set of cut points of every spectrum of the alphabet, every '
        'history up to the bound; the model keeps for each value the place '
        'it belongs to.')
RULE = ('one state per (spectrum, history prefix); a transition is one '
        'operation on the implementation')
ASSUMPTIONS = ['cut points are strictly increasing and inside the data',
               'axes of centres: outer bins are half bins, as documented']

KINDS = ('Spectrum1D', 'Spectrum1DCollection', 'Spectrum2D',
         'Spectrum2DCollection')
# axis shapes: gaps between successive points
GAPS = {'even': (1,)*6, 'uneven': (1, 2, .5, 3, 1, 4),
        'jump': (1, 1, 40, 1, 1, 1), 'two': (1, 30, 1, 1, 30, 1),
        'repeat': (1, 0, 1, 1, 0, 1), 'down': (-1, -2, -1, -1, -3, -1)}
UX = {'1D': ('meV', 'THz'), '2D': ('1/angstrom', '1/bohr')}
UD = {'1D': ('1/meV', '1/THz'), '2D': ('mbarn/meV', 'bohr**2/meV')}


@functools.lru_cache(None)
def factor(base, unit):
    from euphonic import Quantity
    return Quantity(1., base).to(unit, 'reciprocal_spectroscopy').magnitude


@functools.lru_cache(None)
def unit_of(name):
    from euphonic import ureg
    return ureg.Unit(name)


def eq(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and (a.size == 0 or np.allclose(
        a, b, rtol=1e-10, atol=1e-10*max(1e-300, np.abs(b).max())))


class Model:
    def __init__(self, kind, x, y, d, ticks, meta, edge, u):
        self.__dict__.update(kind=kind, x=x, y=y, d=d, ticks=ticks,
                             meta=meta, edge=edge, u=u, cut=False)

    def but(self, **kw):
        new = copy.copy(self)
        new.__dict__.update(kw)
        return new

    @property
    def dim(self):
        return '2D' if '2D' in self.kind else '1D'

    @property
    def nx(self):
        return self.d.shape[-2 if self.dim == '2D' else -1]


def make(kind, n, gaps, edge, ticks, yedge=0):
    from euphonic import ureg
    from euphonic import spectra as sp
    dim = '2D' if '2D' in kind else '1D'
    g = GAPS[gaps]
    x = .25 + np.concatenate([[0.], np.cumsum(g)])[:n + edge]
    if gaps == 'down':
        x = x + 30
    y = np.array([0., 1, 3])[:2 + yedge] if dim == '2D' else None
    shape = ((2,) if 'Coll' in kind else ()) + (
        (n, 2) if dim == '2D' else (n,))
    d = np.arange(1., np.prod(shape) + 1).reshape(shape)**2
    meta = {'a': 'b'}
    if 'Coll' in kind:
        meta['line_data'] = [{'i': 0}, {'i': 1}]
    m = Model(kind, x, y, d, ticks, meta, edge, 0)
    ax = [x*ureg(UX[dim][0])] + ([y*ureg('meV')] if dim == '2D' else [])
    o = getattr(sp, kind)(*ax, d*ureg(UD[dim][0]),
                          x_tick_labels=copy.copy(ticks),
                          metadata=copy.deepcopy(meta))
    return o, m


def compare(o, m):
    if type(o).__name__ != m.kind:
        return f'type {type(o).__name__}'
    dn = 'z_data' if m.dim == '2D' else 'y_data'
    got = [('x', o.x_data, m.x, UX[m.dim]), (dn, getattr(o, dn), m.d,
                                             UD[m.dim])]
    if m.dim == '2D':
        got.append(('y', o.y_data, m.y, ('meV', 'meV')))
    for name, g, e, us in got:
        if g.units != unit_of(us[m.u]):
            return f'{name} unit {g.units}'
        if not eq(g.magnitude, e*factor(us[0], us[m.u])):
            return f'{name}: {g.magnitude} / {e*factor(us[0], us[m.u])}'
    if o.x_tick_labels != m.ticks:
        return f'ticks {o.x_tick_labels} / {m.ticks}'
    if o.metadata != m.meta:
        return f'metadata {o.metadata} / {m.meta}'
    return None


def split_model(m, cuts):
    out = []
    ends = [0] + list(cuts) + [m.nx]
    for a, b in zip(ends[:-1], ends[1:]):
        last = b == m.nx
        x = m.x[a:b + m.edge]
        d = m.d[..., a:b, :] if m.dim == '2D' else m.d[..., a:b]
        t = None if m.ticks is None else [
            (i - a, s) for i, s in m.ticks if i >= a and (i < b or last)]
        out.append(m.but(x=x, d=d, ticks=t, cut=not last))
    return out


def bins_model(v, n):
    """edges, centres as documented"""
    v = np.asarray(v)
    if len(v) == n + 1:
        return v, (v[1:] + v[:-1])/2
    return np.concatenate([v[:1], (v[1:] + v[:-1])/2, v[-1:]]), v


def check_bins(o, m):
    for ax in ('x', 'y')[:2 if m.dim == '2D' else 1]:
        v = m.x if ax == 'x' else m.y
        f = factor(UX[m.dim][0], UX[m.dim][m.u]) if ax == 'x' else 1
        n = m.nx if ax == 'x' else m.d.shape[-1]
        e, c = bins_model(v*f, n)
        a = () if m.dim == '1D' else (ax,)
        ge, gc, gw = (o.get_bin_edges(*a), o.get_bin_centres(*a),
                      o.get_bin_widths(*a))
        u = unit_of(UX[m.dim][m.u] if ax == 'x' else 'meV')
        for name, g, x in (('edges', ge, e), ('centres', gc, c),
                           ('widths', gw, np.diff(e))):
            if g.units != u or not eq(g.magnitude, x):
                return f'{ax} {name}: {g} / {x}'
        # mutual consistency
        s = np.sign(np.diff(e)).sum() or 1
        s = 1 if s > 0 else -1
        ge, gc = ge.magnitude*s, gc.magnitude*s
        tol = 1e-9*np.abs(ge).max()
        if not (np.all(np.diff(ge) >= -tol)
                and np.all(ge[:-1] <= gc + tol)
                and np.all(gc <= ge[1:] + tol)):
            return f'{ax} edges and centres inconsistent'
        w = np.diff(e)
        even = np.all(np.isclose(w, w[0], rtol=1e-5, atol=0))
        near = np.all(np.isclose(w, w[0], rtol=1e-3, atol=0)) != even
        try:
            o.assert_regular_bins(*a)
            ok = True
        except AssertionError:
            ok = False
        if ok != even and not near:
            return f'{ax} assert_regular_bins {ok}'
    return None


OPS = ('split', 'mul', 'imul', 'mul0', 'neg', 'unit', 'copy', 'add', 'sub',
       'dict')


def apply(op, o, m):
    """(list of (thunk result, model)) for an operation"""
    if op == 'mul':
        return [(o*2.5, m.but(d=m.d*2.5))]
    if op == 'imul':
        new = o.copy()
        new *= np.float64(4)
        return [(new, m.but(d=m.d*4))]
    if op == 'mul0':
        return [(o*0, m.but(d=m.d*0))]
    if op == 'neg':
        return [(o*-1, m.but(d=-m.d))]
    if op == 'unit':
        new = o.copy()
        new.x_data_unit = UX[m.dim][1 - m.u]
        setattr(new, ('z' if m.dim == '2D' else 'y') + '_data_unit',
                UD[m.dim][1 - m.u])
        return [(new, m.but(u=1 - m.u))]
    if op == 'copy':
        return [(o.copy(), m)]
    if op == 'dict':
        return [(type(o).from_dict(o.to_dict()), m)]
    if op == 'add' and m.kind == 'Spectrum1D':
        return [(o + o, m.but(d=m.d*2))]
    if op == 'sub' and m.kind == 'Spectrum1D':
        return [((o*3 + o*-1)*.5, m)]
    if op == 'sub' and 'Coll' in m.kind:
        one = 'Spectrum2D' if m.dim == '2D' else 'Spectrum1D'
        return [(o.sum(), m.but(kind=one, d=m.d.sum(axis=0),
                                meta={'a': 'b'}))]
    if op == 'split':
        out = []
        for r in range(1, m.nx):
            for cuts in itertools.combinations(range(1, m.nx), r):
                got = o.split(indices=list(cuts))
                exp = split_model(m, cuts)
                if len(got) != len(exp):
                    raise ValueError(f'{len(got)} pieces for cuts {cuts}')
                out += list(zip(got, exp))
        return out
    return []


def units(tier):
    for k in KINDS:
        for g in GAPS:
            yield f'{k}/{g}', dict(kind=k, gaps=g)
    yield 'jumps', dict(kind='', gaps='')
    yield 'sums', dict(kind='', gaps='sums')


def run(ctx, kind, gaps):
    if gaps == 'sums':
        return sums(ctx)
    if not kind:
        return jumps(ctx)
    depth = 3 if ctx.thorough else 2
    for n, edge, yedge in itertools.product(
            (1, 2, 3, 5), (0, 1), (0, 1) if '2D' in kind else (0,)):
        ts = [None, [(0, 'a'), (n - 1, 'z')]]
        if ctx.thorough or n == 3:
            ts.append([(i, str(i)) for i in range(n + edge)])
            ts.append([(n - 1, 'z'), (0, 'b'), (0, 'a'), (0, 'a')])
        for ticks in ts:
            o, m = make(kind, n, gaps, edge, ticks, yedge)
            base = dict(kind=kind, gaps=gaps, n=n, edge=edge, yedge=yedge,
                        ticks=ticks)
            explore(ctx, o, m, base, (), depth if n < 5 else depth - 1)
    ctx.sample(base)


def explore(ctx, o, m, base, hist, depth):
    if depth == 0:
        return
    for op in OPS:
        h = hist + (op,)
        case = dict(base, history=h)
        ctx.case = case
        ctx.state((repr(base), h))
        ctx.transition()
        try:
            res = apply(op, o, m)
        except Exception as e:
            ctx.fail('operation raised', case, repr(e))
            continue
        for k, (g, e) in enumerate(res):
            r = compare(g, e) or check_bins(g, e)
            if (r and op == 'split' and e.edge and e.cut
                    and compare(g, e.but(x=e.x[:-1], edge=0)) is None):
                # the piece is intact but for its right-most bin edge
                ctx.fail('right bin edge of a piece lost', dict(
                    case, piece=k), r, key='split-drops-right-edge')
                e = e.but(x=e.x[:-1], edge=0)
                r = check_bins(g, e)
            if not ctx.check(r is None, 'operation gives wrong spectrum',
                             dict(case, piece=k), r):
                break
            ctx.trace()
            if k in (0, len(res) - 1) or ctx.thorough and k % 3 == 1:
                explore(ctx, g, e, base, h + (k,), depth - 1)
        ctx.outcome((op, len(res)))
        r = compare(o, m)
        if not ctx.check(r is None, 'operand changed', case, r):
            return


def jumps(ctx):
    """automatic split: cut exactly where a gap exceeds btol median gaps"""
    for kind in KINDS:
        for g in itertools.product((1., 2., 30.), repeat=5):
            GAPS['_'] = g
            for btol in (None, 1.5, 10., 29., 50.):
                o, m = make(kind, 6, '_', 0, [(2, 'x')])
                med = np.median(g)
                cuts = [i + 1 for i, v in enumerate(g)
                        if v/med > (10. if btol is None else btol)]
                case = dict(kind=kind, gaps=g, btol=btol)
                ctx.case = case
                ctx.state(repr(case))
                ctx.transition()
                got = o.split() if btol is None else o.split(btol=btol)
                exp = split_model(m, cuts)
                if not ctx.check(len(got) == len(exp), 'wrong pieces', case,
                                 lambda: (len(got), cuts)):
                    continue
                for a, b in zip(got, exp):
                    r = compare(a, b)
                    if not ctx.check(r is None, 'wrong piece', case, r):
                        break
                ctx.trace()
                ctx.outcome(tuple(cuts))
        o, m = make(kind, 6, '_', 0, None)
        try:
            o.split(indices=[1], btol=3.)
            ok = False
        except ValueError:
            ok = True
        ctx.check(ok, 'contradictory arguments accepted', dict(kind=kind))
    ctx.sample(case)


def sums(ctx):
    """sums of two spectra with different data and units"""
    from euphonic import Quantity, ureg
    from euphonic.spectra import Spectrum1D
    for n, edge, k1, k2, u in itertools.product(
            (1, 2, 4), (0, 1), (-2, 0, 1.5), (1, -1, 0), (0, 1)):
        o, m = make('Spectrum1D', n, 'uneven', edge, None)
        p = o*k2
        o = o*k1
        if u:
            for s in (o, p):
                s.x_data_unit = UX['1D'][1]
                s.y_data_unit = UD['1D'][1]
            m = m.but(u=1)
        case = dict(n=n, edge=edge, factors=(k1, k2), unit=u)
        ctx.case = case
        ctx.state(repr(case))
        for op, exp in ((lambda: o + p, k1 + k2), (lambda: p + o, k1 + k2),
                        (lambda: o + p*-1, k1 - k2),
                        (lambda: (o + p) + o, 2*k1 + k2)):
            ctx.transition()
            r = compare(op(), m.but(d=m.d*exp))
            ctx.check(r is None, 'sum wrong', case, r)
            r = compare(o, m.but(d=m.d*k1)) or compare(p, m.but(d=m.d*k2))
            ctx.check(r is None, 'operand changed', case, r)
            ctx.trace()
    ctx.sample(case)
