"""C12: spectrum collections behave as lists of spectra with metadata."""
import copy
import functools
import itertools

import numpy as np

TECHNIQUE = ('bounded-exhaustive enumeration of operation histories on real '
             'collections run in lock-step with a model that is a plain list '
             'of (values, metadata) pairs')
NOTE = ('All assignments of metadata from an alphabet to three members, both '
        'collection classes, bin edges and centres, every history of '
        'operations up to the bound; the whole collection is compared with '
        'the list after every operation.')
RULE = ('one state per (initial collection, operation history); a transition '
        'is one operation on the implementation')
ASSUMPTIONS = ['slices ending at or beyond the end, and empty selections, may '
               'be rejected with an error instead of clipped',
               'no metadata key is both common and per-line',
               'the order of a selection of several values is by value, then '
               'by position']

ALPHA = ({}, {'s': 'A'}, {'s': 'B'}, {'s': 'A', 'i': 1},
         {'s': 'B', 'i': '1', 'w': 'c'}, {'i': 0, 'w': 'c'})
SMALL = ((1, 2, 1), (3, 4, 1), (0, 0, 0), (4, 4, 4), (3, 3, 4), (2, 5, 0),
         (1, 1, 4))


# ------------------------------------------------------------------ model
class Model:
    """a list of items; axes as SI-like base numbers with a display unit"""
    def __init__(self, items, x, y, ticks, units):
        self.items, self.x, self.y = items, x, y
        self.ticks, self.units = ticks, units

    def with_items(self, items):
        return Model(items, self.x, self.y, self.ticks, self.units)


def common(mds):
    out = dict(mds[0])
    for m in mds[1:]:
        out = {k: v for k, v in out.items() if k in m and m[k] == v}
    return out


def group(items, keys):
    groups = {}
    for d, m in items:
        groups.setdefault(tuple(m.get(k) for k in keys), []).append((d, m))
    return [(sum(d for d, _ in g), common([m for _, m in g]))
            for g in groups.values()]


def select(items, kw):
    vals = [v if isinstance(v, (list, tuple)) else [v] for v in kw.values()]
    out = []
    for combo in itertools.product(*vals):
        want = dict(zip(kw, combo))
        out += [(d, m) for d, m in items
                if all(k in m and m[k] == v for k, v in want.items())]
    return out


INDEX = ([0], [2, 0], (1,), np.array([1, 1]), np.array([-1, 0]), [-2])
SLICES = (slice(1, None), slice(None, -1), slice(None, None, 2),
          slice(None, None, -1), slice(-2, None), slice(0, 1), slice(0, 2),
          slice(-1, 0, -1), slice(-3, -1), slice(None), slice(0, 3),
          slice(1, 9), slice(2, 1))
SELECT = (dict(s='A'), dict(s=['A', 'B']), dict(s=['B', 'A']),
          dict(s='A', i=1), dict(s=('A', 'B'), i=[1, 0]), dict(w='c'),
          dict(i=0), dict(i=['1', 1]), dict(zzz=1), dict(w=['x', 'c'], s=['B']))
GROUP = (('s',), ('i',), ('s', 'i'), ('i', 's'), ('zzz',), ('w', 's'))
OTHER = ('copy', 'mul', 'unit', 'rebuild', 'dict', 'double', 'append',
         'prepend', 'fbroaden', 'cbroaden', 'setdata')


def all_ops():
    return ([('index', i) for i in range(len(INDEX))]
            + [('slice', i) for i in range(len(SLICES))]
            + [('select', i) for i in range(len(SELECT))]
            + [('group', i) for i in range(len(GROUP))]
            + [(o, 0) for o in OTHER])


# ------------------------------------------------------------ construction
UNITS = {'1D': (('meV', 'THz'), ('1/meV', '1/THz')),
         '2D': (('1/angstrom', '1/bohr'), ('mbarn/meV', 'bohr**2/meV'))}


def make(kind, md, edge, how, ticks, nx=3):
    from euphonic import ureg
    from euphonic import spectra as sp
    x = np.array([1., 2, 3, 4])[:nx + edge]
    y = np.array([0., 1, 2])[:2 + edge] if kind == '2D' else None
    items = []
    rng = np.random.default_rng(3)
    for k, i in enumerate(md):
        shape = (nx,) if kind == '1D' else (nx, 2)
        items.append((np.round(rng.uniform(-9, 9, shape)), dict(ALPHA[i])))
    ux, ud = UNITS[kind][0][0], UNITS[kind][1][0]
    m = Model(items, x, y, ticks, [ux, 'meV', ud])
    one = sp.Spectrum1D if kind == '1D' else sp.Spectrum2D
    many = (sp.Spectrum1DCollection if kind == '1D'
            else sp.Spectrum2DCollection)
    ax = [x*ureg(ux)] + ([y*ureg('meV')] if kind == '2D' else [])
    if how == 'spectra':
        c = many.from_spectra([
            one(*copy.deepcopy(ax), d*ureg(ud),
                x_tick_labels=copy.copy(ticks), metadata=dict(mm))
            for d, mm in items])
    else:
        if how == 'lines':
            meta = {'line_data': [dict(mm) for _, mm in items]}
        else:
            top = common([mm for _, mm in items])
            meta = dict(top)
            lines = [{k: v for k, v in mm.items() if k not in top}
                     for _, mm in items]
            if any(lines):
                meta['line_data'] = lines
        c = many(*ax, np.array([d for d, _ in items])*ureg(ud),
                 x_tick_labels=copy.copy(ticks), metadata=meta)
    return c, m, one, many


# -------------------------------------------------------------- operations
FORBID = object()


def apply(op, arg, c, m, one, many):
    """-> (thunk for the implementation, new model or FORBID, may_raise)"""
    from euphonic import ureg
    items = m.items
    if op == 'index':
        idx = INDEX[arg]
        try:
            new = [items[i] for i in idx]
        except IndexError:
            return (lambda: c[idx]), FORBID, True
        return (lambda: c[idx]), m.with_items(new), False
    if op == 'slice':
        s = SLICES[arg]
        new = items[s]
        may = (not new) or (s.stop is not None and s.stop >= len(items))
        return (lambda: c[s]), m.with_items(new), may
    if op == 'select':
        kw = SELECT[arg]
        new = select(items, kw)
        return ((lambda: c.select(**kw)),
                m.with_items(new) if new else FORBID, not new)
    if op == 'group':
        keys = GROUP[arg]
        return ((lambda: c.group_by(*keys)),
                m.with_items(group(items, keys)), False)
    if op == 'copy':
        return c.copy, m, False
    if op == 'mul':
        return (lambda: c*-2.5), m.with_items(
            [(d*-2.5, mm) for d, mm in items]), False
    if op == 'setdata':
        def f():
            name = 'y_data' if many.__name__ == 'Spectrum1DCollection' \
                else 'z_data'
            new = c.copy()
            setattr(new, name, getattr(new, name)*3)
            return new
        return f, m.with_items([(d*3, mm) for d, mm in items]), False
    if op == 'unit':
        kind = '1D' if m.y is None else '2D'

        def f():
            new = c.copy()
            new.x_data_unit = UNITS[kind][0][1]
            setattr(new, ('y' if kind == '1D' else 'z') + '_data_unit',
                    UNITS[kind][1][1])
            return new
        new = m.with_items(items)
        new.units = [UNITS[kind][0][1], 'meV', UNITS[kind][1][1]]
        return f, new, False
    if op == 'rebuild':
        return (lambda: many.from_spectra(list(c))), m, False
    if op == 'dict':
        return (lambda: many.from_dict(c.to_dict())), m, False
    if op == 'double':
        return (lambda: c + c), m.with_items(items*2), False
    if op == 'append':
        return (lambda: c + c[[0]]), m.with_items(items + items[:1]), False
    if op == 'prepend':
        return ((lambda: c[[-1]] + c),
                m.with_items(items[-1:] + items), False)
    if op in ('fbroaden', 'cbroaden'):
        if m.y is not None or (
                op == 'cbroaden' and len(m.x) == len(items[0][0])):
            return None, FORBID, True
        w = 1.3*ureg('meV')
        width = w if op == 'fbroaden' else (lambda x: x.to('meV')*0.1 + w)
        new = []
        for d, mm in items:
            s = one(m.x*ureg(UNITS['1D'][0][0]), d*ureg(UNITS['1D'][1][0]),
                    metadata=dict(mm)).broaden(width)
            new.append((s.y_data.magnitude, mm))
        return (lambda: c.broaden(width)), m.with_items(new), False
    raise AssertionError(op)


# -------------------------------------------------------------- comparison
@functools.lru_cache(None)
def factor(base, unit):
    from euphonic import Quantity
    return Quantity(1., base).to(unit, 'reciprocal_spectroscopy').magnitude


@functools.lru_cache(None)
def unit_of(name):
    from euphonic import ureg
    return ureg.Unit(name)


def conv(v, base, unit):
    """number of `base` units expressed in `unit`"""
    return np.asarray(v)*factor(base, unit)


def eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return (a.shape == b.shape
            and np.allclose(a, b, rtol=1e-9,
                            atol=1e-9*max(1e-300, np.abs(b).max())))


def compare_item(s, d, mm, m, one, kind):
    if type(s) is not one:
        return f'member is a {type(s).__name__}'
    if not isinstance(s.metadata, dict) or s.metadata != mm:
        return f'metadata {s.metadata} / {mm}'
    if (s.x_tick_labels or None) != (m.ticks or None):
        return f'tick labels {s.x_tick_labels} / {m.ticks}'
    base = [UNITS[kind][0][0], 'meV', UNITS[kind][1][0]]
    got = [s.x_data] + ([s.y_data, s.z_data] if kind == '2D' else [s.y_data])
    exp = [(m.x, 0)] + ([(m.y, 1), (d, 2)] if kind == '2D' else [(d, 2)])
    for g, (e, k) in zip(got, exp):
        if g.units != unit_of(m.units[k]):
            return f'unit {g.units} / {m.units[k]}'
        if not eq(g.magnitude, conv(e, base[k], m.units[k])):
            return f'values {g} / {conv(e, base[k], m.units[k])}'
    return None


def compare(c, m, one, many, kind, full=False):
    if type(c) is not many:
        return f'type {type(c).__name__}'
    n = len(m.items)
    if len(c) != n:
        return f'length {len(c)} / {n}'
    seen = list(c)
    if len(seen) != n:
        return f'iteration gives {len(seen)} / {n}'
    mds = list(c.iter_metadata())
    if mds != [mm for _, mm in m.items]:
        return f'iter_metadata {mds}'
    lines = c.metadata.get('line_data')
    if lines is not None and len(lines) != n:
        return 'line_data of the wrong length'
    for i, (d, mm) in enumerate(m.items):
        r = compare_item(seen[i], d, mm, m, one, kind)
        if r:
            return f'member {i}: {r}'
        if not full:
            continue
        for j in (i, i - n, np.int64(i)):
            r = compare_item(c[j], d, mm, m, one, kind)
            if r:
                return f'member {j}: {r}'
    for bad in (n, -n - 1) if full else ():
        try:
            c[bad]
            return f'index {bad} accepted'
        except IndexError:
            pass
    for bad in ([True]*n, (False,)*n, [0., 1.]) if full else ():
        try:
            c[bad]
            return f'index {bad} accepted'
        except TypeError:
            pass
    s = c.sum()
    r = compare_item(s, sum(d for d, _ in m.items),
                     common([mm for _, mm in m.items]), m, one, kind)
    return r and f'sum: {r}'


# ----------------------------------------------------------------- running
def units(tier):
    for kind in ('1D', '2D'):
        for first in range(len(ALPHA)):
            yield f'metadata/{kind}/{first}', dict(
                mode='metadata', kind=kind, part=first)
        for k in range(len(SMALL)):
            yield f'history/{kind}/{k}', dict(mode='history', kind=kind,
                                              part=k)
        yield f'mixed/{kind}', dict(mode='mixed', kind=kind, part=0)


def run(ctx, mode, kind, part):
    if mode == 'mixed':
        return mixed(ctx, kind)
    ops = all_ops()
    if mode == 'metadata':
        for md in itertools.product(range(len(ALPHA)), repeat=2):
            md = (part,) + md
            for how in ('spectra', 'lines', 'common'):
                start(ctx, kind, md, 0, how, None, ops, 1)
    else:
        md = SMALL[part]
        for edge, ticks in ((1, None), (0, [(0, 'a'), (2, 'b')])):
            for how in ('spectra', 'lines'):
                if (edge == 1) != (how == 'spectra') and not ctx.thorough:
                    continue
                start(ctx, kind, md, edge, how, ticks, ops,
                      3 if ctx.thorough else 2)


def start(ctx, kind, md, edge, how, ticks, ops, depth):
    c, m, one, many = make(kind, md, edge, how, ticks)
    base = dict(kind=kind, members=[ALPHA[i] for i in md], edge=edge,
                how=how)
    r = compare(c, m, one, many, kind, True)
    if not ctx.check(r is None, 'new collection differs from its list', base,
                     r):
        return
    ctx.sample(base)
    explore(ctx, c, m, one, many, kind, base, (), ops, depth)


def label(op, arg):
    return {'index': INDEX, 'slice': SLICES, 'select': SELECT,
            'group': GROUP}.get(op, [op])[arg]


def explore(ctx, c, m, one, many, kind, base, hist, ops, depth):
    for op, arg in ops:
        h = hist + ((op, str(label(op, arg))),)
        case = dict(base, history=h)
        ctx.case = case
        thunk, new, may = apply(op, arg, c, m, one, many)
        if thunk is None or (new is not FORBID and len(new.items) > 8):
            continue
        ctx.state((repr(base), h))
        ctx.transition()
        try:
            got = thunk()
        except Exception as e:
            ctx.check(may, 'operation raised', case, repr(e))
            continue
        if not ctx.check(new is not FORBID,
                         'impossible selection accepted', case):
            continue
        if not new.items:
            ctx.check(len(got) == 0, 'empty selection has members', case)
            continue
        r = compare(got, new, one, many, kind,
                    hist == () and base['how'] == 'spectra')
        if not ctx.check(r is None, 'collection differs from its list', case,
                         r):
            continue
        ctx.trace()
        ctx.outcome((op, arg, len(new.items)))
        if depth > 1:
            explore(ctx, got, new, one, many, kind, base, h, ops, depth - 1)
    r = compare(c, m, one, many, kind)
    ctx.check(r is None, 'an operation changed the collection',
              dict(base, history=hist), r)


def mixed(ctx, kind):
    """building from members in different but compatible units is either
    refused or keeps every value; members that do not match are refused"""
    from euphonic import ureg
    from euphonic import spectra as sp
    one = sp.Spectrum1D if kind == '1D' else sp.Spectrum2D
    many = (sp.Spectrum1DCollection if kind == '1D'
            else sp.Spectrum2DCollection)
    x = np.array([1., 2, 3])
    y = np.array([4., 6])
    xu = UNITS[kind][0]
    yu = ('meV', 'THz')
    du = UNITS[kind][1]
    shape = (3,) if kind == '1D' else (3, 2)
    # (x unit changed, y unit changed, data unit changed) for each of two
    for picks in itertools.product(itertools.product((0, 1), repeat=3),
                                   repeat=2):
        for via in ('unit', 'data'):
            case = dict(kind=kind, picks=picks, via=via)
            ctx.case = case
            if not ctx.state(repr(case)):
                continue
            sps, vals = [], []
            for k, (a, b, d) in enumerate(picks):
                z = np.arange(np.prod(shape)).reshape(shape)*1. + k
                q = [x*ureg(xu[0]), y*ureg(yu[0]), z*ureg(du[0])]
                t = (xu[a], yu[b], du[d])
                if via == 'data':
                    q = [v.to(u, 'reciprocal_spectroscopy')
                         for v, u in zip(q, t)]
                if kind == '1D':
                    q.pop(1)
                s = one(*q)
                if via == 'unit':
                    s.x_data_unit = t[0]
                    if kind == '2D':
                        s.y_data_unit = t[1]
                    setattr(s, ('y' if kind == '1D' else 'z') + '_data_unit',
                            t[2])
                sps.append(s)
                vals.append(z)
            for name, f in (('from_spectra', lambda: many.from_spectra(sps)),
                            ('add', lambda: many.from_spectra(sps[:1])
                             + many.from_spectra(sps[1:])),
                            ('sum', lambda: sps[0] + sps[1])):
                if name == 'sum' and kind == '2D':
                    continue
                ctx.transition()
                same = picks[0] == picks[1] or (
                    kind == '1D' and picks[0][::2] == picks[1][::2])
                try:
                    c = f()
                except Exception as e:
                    ctx.check(not same, 'matching spectra refused',
                              dict(case, op=name), repr(e))
                    ctx.outcome(('refused', same))
                    continue
                a = 'y_data' if kind == '1D' else 'z_data'
                got = getattr(c, a).to(
                    du[0], 'reciprocal_spectroscopy').magnitude
                exp = np.array(vals) if name != 'sum' else sum(vals)
                ok = (eq(got, exp) and eq(c.x_data.to(
                    xu[0], 'reciprocal_spectroscopy').magnitude, x))
                ctx.check(ok, 'values changed when combining units',
                          dict(case, op=name), lambda: (got, exp))
                ctx.outcome('combined')
                ctx.trace()
    # mismatching members
    base = [x*ureg(xu[0]), y*ureg(yu[0]), np.ones(shape)*ureg(du[0])]
    if kind == '1D':
        base.pop(1)
    for what in ('axis', 'length', 'ticks', 'type', 'unit', 'empty'):
        q = copy.deepcopy(base)
        kw = {}
        if what == 'axis':
            q[0] = q[0] + .5*q[0].units
        elif what == 'length':
            q[0] = q[0][:2]
            q[-1] = q[-1][:2]
        elif what == 'ticks':
            kw = dict(x_tick_labels=[(0, 'q')])
        elif what == 'unit':
            q[-1] = q[-1].magnitude*ureg('kg')
        s = one(*q, **kw) if what != 'type' else None
        lst = [] if what == 'empty' else [one(*copy.deepcopy(base)), s]
        case = dict(kind=kind, mismatch=what)
        ctx.state(repr(case))
        ctx.transition()
        try:
            many.from_spectra(lst)
            ok = False
        except Exception:
            ok = True
        ctx.check(ok, 'mismatching spectra combined', case)
