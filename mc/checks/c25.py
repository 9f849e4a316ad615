"""C25: truncated, incomplete and malformed files."""
import contextlib
import io
import itertools
import json
import os
import re
import signal
import tempfile
import warnings

import numpy as np

from mc import castepfile as cf
from mc import gen
from mc import phonopyfile as pf

TECHNIQUE = ('fault injection, exhaustive over the fault points of each file: '
             'every truncation length in bytes, every line, record, token and '
             'JSON path removed or overwritten; the real reader runs on each')
NOTE = ('Every reader of every format is run on every truncation of small '
        'files and on every single missing or malformed line, token, record '
        'or key; it has to raise, or give the object of the complete file or '
        'of a complete file holding only the leading q-points or bins.')
RULE = ('one state per fault; a transition is one read of a damaged file, a '
        'trace one object returned and compared')
ASSUMPTIONS = [
    'a cut inside a number leaves a shorter number that no reader can tell '
    'from the original: only the shape of the object is compared there',
    'single faults; binary records are removed with the name that announces '
    'them, section delimiters stay',
    'missing optional entries (weights, charges, metadata) give the documented '
    'default']


class Hang(BaseException):
    pass


def units(tier):
    for name in FORMATS:
        for k in range(CHUNKS.get(name, 4)):
            yield f'cut/{name}/{k}', dict(part='cut', name=name, k=k)
    yield 'refdata', dict(part='refdata')
    for name in FORMATS:
        if FORMATS[name][1] == 'text':
            yield f'lines/{name}', dict(part='lines', name=name)
            for k in range(4):
                yield f'tokens/{name}/{k}', dict(part='tokens', name=name, k=k)
        if FORMATS[name][1] == 'castep_bin':
            yield f'records/{name}', dict(part='records', name=name)
        if FORMATS[name][1] == 'hdf5':
            yield f'datasets/{name}', dict(part='datasets', name=name)
        if FORMATS[name][1] == 'json':
            yield f'json/{name}', dict(part='jsonfaults', name=name)


def run(ctx, part, **kw):
    def on_alarm(*_):
        raise Hang
    signal.signal(signal.SIGALRM, on_alarm)
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()):
            globals()['part_' + part](ctx, d, **kw)


# ------------------------------------------------------------- the formats
# builder(n) -> bytes of the file holding n leading q-points (or bins);
# n = None is the complete file

TYPES = ['O', 'H']


def b_phonon(n, atoms=2, loto=False, columns=''):
    c = cf.make_crystal(atoms, TYPES[:atoms])
    blocks = [cf.make_block(atoms, 1, 0, q=(0, 0, 0)),
              cf.make_block(atoms, 2, 0)]
    if loto:
        blocks.insert(1, cf.make_block(atoms, 1, 0, direction=(1., 0., .5),
                                       q=(0, 0, 0)))
    return cf.phonon_text(c, blocks[:n], columns=columns).encode()


def b_dos(n, bins=4):
    c = cf.make_crystal(2, TYPES)
    g = cf.det('c25dos')
    blocks = [cf.make_block(2, k + 1, 0) for k in range(2)]
    x = np.arange(bins)*5. + 2.5
    dos = np.round(g.uniform(0, 1, (3, bins)), 6)
    text = cf.phonon_dos_text(c, blocks, x[:n], dos[:, :n])
    return text.encode()


def b_bin(n, polar=True, species=2):
    g = cf.det('c25bin', species)
    sp = [(t, 1000.*(k + 1), g.uniform(0, 1, (2 - k if species > 1 else 1, 3)))
          for k, t in enumerate(TYPES[:species])]
    na = sum(len(p) for _, _, p in sp)
    sc = np.diag([2, 1, 1])
    fc = g.uniform(-1, 1, (2, 3*na, 3*na))
    born = g.uniform(-1, 1, (na, 3, 3))
    eps = g.uniform(1, 2, (3, 3))
    cell = 5*np.eye(3) + g.uniform(-.3, .3, (3, 3))
    return cf.pack(cf.castep_bin(
        cell, sp, sc, fc, [(0, 0, 0), (1, 0, 0)], born if polar else None,
        eps if polar else None, second_cell=(cell, sp), extra=False))


def model(basis='gen2', seed=0):
    r, types = gen.BASES[basis]
    sc = ((2, 0, 0), (0, 1, 0), (0, 0, 1))
    phi, og = gen.raw_fc(basis, sc, seed=seed)
    return pf.Model(gen.CELLS['tric'], r, types, [gen.MASS[t] for t in types],
                    sc, None, phi, og)


def phonopy_modes(n, basis='one'):
    m = model(basis)
    g = cf.det('c25modes', basis)
    na = len(m.r)
    qs = np.round(g.uniform(-.5, .5, (2, 3)), 4)
    fr = np.round(np.sort(g.uniform(1, 9, (2, 3*na))), 5)
    ev = np.round(g.uniform(-1, 1, (2, 3*na, na, 3))
                  + 1j*g.uniform(-1, 1, (2, 3*na, na, 3)), 6)
    return m, qs[:n], fr[:n], ev[:n], [3, 5][:n]


def b_yaml(n, kind='band', crystal=True, basis='one'):
    m, q, f, e, w = phonopy_modes(n, basis)
    return pf.modes_yaml(kind, m.lp, m.r, m.types, m.masses, q, f, e, w,
                         crystal).encode()


def b_hdf5(n, kind='band'):
    m, q, f, e, w = phonopy_modes(n)
    with tempfile.TemporaryDirectory() as d:
        pf.modes_hdf5(d + '/x', kind, q, f, e, w)
        with open(d + '/x', 'rb') as fh:
            return fh.read()


def polar(m):
    return gen.born_charges('gen2' if len(m.r) == 2 else 'one', 'aniso')


def b_summary(n, basis='one', fc=True, born=False):
    m = model(basis)
    kw = {}
    if born:
        z, eps = polar(m)
        kw = dict(born=z, eps=eps, factor=14.4, new_nac=born == 'new')
    return pf.summary(m, m.compact*97.17 if fc else None, **kw).encode()


def b_fctext(n, single=False):
    m = model('one')
    return pf.force_constants_text((m.full if single else m.compact)*97.17,
                                   single).encode()


def b_fchdf5(n):
    m = model('one')
    with tempfile.TemporaryDirectory() as d:
        pf.force_constants_hdf5(d + '/x', m.compact*97.17, m.p2s, 'eV')
        with open(d + '/x', 'rb') as fh:
            return fh.read()


def b_born(n, factor=14.4):
    m = model('gen2')
    z, eps = polar(m)
    return pf.born_text(z, eps, factor).encode()


def json_object(kind):
    from euphonic import (DebyeWaller, QpointFrequencies, QpointPhononModes,
                          StructureFactor, ureg)
    from euphonic.spectra import (Spectrum1D, Spectrum1DCollection, Spectrum2D,
                                  Spectrum2DCollection)
    g = cf.det('c25json')
    crys = gen.crystal('tric', 'gen2')
    if kind == 'Crystal':
        return crys
    q = np.round(g.uniform(-.5, .5, (3, 3)), 4)
    w = np.array([.5, .25, .25])
    f = np.round(g.uniform(1, 9, (3, 6)), 5)*ureg('meV')
    if kind == 'ForceConstants':
        return gen.force_constants('tric', 'gen2', born='aniso')
    if kind == 'QpointFrequencies':
        return QpointFrequencies(crys, q, f, w)
    if kind == 'QpointPhononModes':
        e = np.round(g.uniform(-1, 1, (3, 6, 2, 3))
                     + 1j*g.uniform(-1, 1, (3, 6, 2, 3)), 6)
        return QpointPhononModes(crys, q, f, e, w)
    if kind == 'StructureFactor':
        return StructureFactor(crys, q, f, np.round(g.uniform(
            0, 1, (3, 6)), 5)*ureg('angstrom**2'), w, 300*ureg('K'))
    if kind == 'DebyeWaller':
        return DebyeWaller(crys, np.round(g.uniform(0, 1, (2, 3, 3)), 5)
                           * ureg('angstrom**2'), 300*ureg('K'))
    x = np.array([0., 1., 3., 4.])*ureg('meV')
    y = np.round(g.uniform(0, 1, 4), 5)*ureg('1/meV')
    lab = [(0, 'A'), (3, 'B')]
    if kind == 'Spectrum1D':
        return Spectrum1D(x, y, lab, dict(label='a', weighting='b'))
    if kind == 'Spectrum1DCollection':
        return Spectrum1DCollection(
            x, np.array([y.magnitude, y.magnitude*2])*ureg('1/meV'), lab,
            dict(desc='d', line_data=[dict(label='a'), dict(label='b')]))
    z = np.round(g.uniform(0, 1, (4, 3)), 5)*ureg('1/meV')
    yb = np.array([0., 2., 3.])*ureg('meV')
    xx = np.array([0., 1., 3., 4.])*ureg('1/angstrom')
    if kind == 'Spectrum2D':
        return Spectrum2D(xx, yb, z, lab, dict(label='a'))
    if kind == 'Spectrum2DCollection':
        return Spectrum2DCollection(
            xx, yb, np.array([z.magnitude, z.magnitude])*ureg('1/meV'), lab,
            dict(desc='d', line_data=[dict(label='a'), dict(label='b')]))
    raise ValueError(kind)


JSONS = ('Crystal', 'ForceConstants', 'QpointFrequencies', 'QpointPhononModes',
         'StructureFactor', 'DebyeWaller', 'Spectrum1D', 'Spectrum2D',
         'Spectrum1DCollection', 'Spectrum2DCollection')


def b_json(n, kind):
    with tempfile.TemporaryDirectory() as d:
        json_object(kind).to_json_file(d + '/x.json')
        with open(d + '/x.json', 'rb') as fh:
            return fh.read()


def r_castep(*classes):
    def f(path, d):
        import euphonic
        for c, kw in classes:
            yield f'{c}{kw or ""}', lambda c=c, kw=kw: getattr(
                euphonic, c).from_castep(path, **kw)
    return f


def r_dos(path, d):
    import euphonic
    yield 'spectra', lambda: (euphonic.Spectrum1DCollection.
                              from_castep_phonon_dos(path))
    for el in (None, 'H'):
        yield f'spectrum/{el}', lambda el=el: (
            euphonic.Spectrum1D.from_castep_phonon_dos(path, element=el))


def r_modes(path, d):
    import euphonic
    for c in ('QpointPhononModes', 'QpointFrequencies'):
        yield c, lambda c=c: getattr(euphonic, c).from_phonopy(
            d, phonon_name=os.path.basename(path))


def r_modes_summary(path, d):
    import euphonic
    m, q, f, e, w = phonopy_modes(None, 'gen2')
    other = d + '/qpoints.yaml'
    if not os.path.exists(other):
        with open(other, 'w') as fh:
            fh.write(pf.modes_yaml('qpoints', m.lp, m.r, m.types, m.masses, q,
                                   f, e, w, False))
    yield 'modes', lambda: euphonic.QpointPhononModes.from_phonopy(
        d, phonon_name='qpoints.yaml', summary_name=os.path.basename(path))


def r_summary(path, d):
    import euphonic
    yield 'fc', lambda: euphonic.ForceConstants.from_phonopy(
        d, summary_name=os.path.basename(path), fc_name='absent')


def r_fc(fmt):
    def f(path, d):
        import euphonic
        with open(d + '/phonopy.yaml', 'wb') as fh:
            fh.write(b_summary(None, fc=False))
        yield 'fc', lambda: euphonic.ForceConstants.from_phonopy(
            d, fc_name=os.path.basename(path), fc_format=fmt)
    return f


def r_born(path, d):
    import euphonic
    if not os.path.exists(d + '/phonopy.yaml'):
        with open(d + '/phonopy.yaml', 'wb') as fh:
            fh.write(b_summary(None, 'gen2'))
    yield 'born', lambda: euphonic.ForceConstants.from_phonopy(
        d, born_name=os.path.basename(path))


def r_born_factor(path, d):
    if not os.path.exists(d + '/phonopy.yaml'):
        m = model('gen2')
        with open(d + '/phonopy.yaml', 'w') as fh:
            fh.write(pf.summary(m, m.compact*97.17, factor=14.4))
    yield from r_born(path, d)


def r_json(kind):
    def f(path, d):
        import euphonic
        import euphonic.spectra
        cls = getattr(euphonic, kind, None) or getattr(euphonic.spectra, kind)
        yield kind, lambda: cls.from_json_file(path)
    return f


MODES = r_castep(('QpointPhononModes', {}), ('QpointFrequencies', {}))
# name: (file name, type, builder, readers, numbers of leading parts)
FORMATS = {
    'phonon': ('a.phonon', 'text', b_phonon, MODES, (1,)),
    'phonon-loto': ('a.phonon', 'text', lambda n: b_phonon(n, 2, True, 'ir'),
                    r_castep(('QpointPhononModes', {}),
                             ('QpointFrequencies', dict(prefer_non_loto=True))
                             ), (1, 2)),
    'dos': ('a.phonon_dos', 'text', b_dos, r_dos, (2, 3)),
    'bin': ('a.castep_bin', 'castep_bin', b_bin,
            r_castep(('ForceConstants', {})), ()),
    'bin1': ('a.check', 'castep_bin', lambda n: b_bin(n, False, 1),
             r_castep(('ForceConstants', {})), ()),
    'band.yaml': ('band.yaml', 'text', b_yaml, r_modes, (1,)),
    'mesh.yaml': ('mesh.yaml', 'text', lambda n: b_yaml(n, 'mesh'), r_modes,
                  (1,)),
    'band.hdf5': ('band.hdf5', 'hdf5', b_hdf5, None, ()),
    'mesh.hdf5': ('mesh.hdf5', 'hdf5', lambda n: b_hdf5(n, 'mesh'), None, ()),
    'summary': ('phonopy.yaml', 'text', b_summary, r_summary, ()),
    'summary-nac': ('phonopy.yaml', 'text',
                    lambda n: b_summary(n, 'one', True, 'new'), r_summary, ()),
    'summary-modes': ('phonopy.yaml', 'text',
                      lambda n: b_summary(n, 'gen2', False), r_modes_summary,
                      ()),
    'FORCE_CONSTANTS': ('FORCE_CONSTANTS', 'text', b_fctext, r_fc(None), ()),
    'FULL': ('FORCE_CONSTANTS', 'text', lambda n: b_fctext(n, True),
             r_fc(None), ()),
    'fc.hdf5': ('force_constants.hdf5', 'hdf5', b_fchdf5, r_fc(None), ()),
    'BORN': ('BORN', 'text', b_born, r_born, ()),
    'BORN-nofactor': ('BORN', 'text', lambda n: b_born(n, None),
                      r_born_factor, ()),
}
for _k in JSONS:
    FORMATS[_k + '.json'] = (_k + '.json', 'json',
                             lambda n, _k=_k: b_json(n, _k), r_json(_k), ())
CHUNKS = {'summary': 12, 'summary-nac': 12, 'ForceConstants.json': 8,
          'QpointPhononModes.json': 8}


def r_modes_hdf5(path, d):
    if not os.path.exists(d + '/phonopy.yaml'):
        with open(d + '/phonopy.yaml', 'wb') as fh:
            fh.write(b_summary(None, fc=False))
    yield from r_modes(path, d)


def formats(name):
    fname, kind, build, readers, parts = FORMATS[name]
    with contextlib.redirect_stdout(io.StringIO()):
        full = build(None)
        leading = [build(n) for n in parts]
    return full, leading


# ---------------------------------------------------------------- judgement

def content(obj):
    return obj.to_dict()


def equal(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            return False
        if a.dtype.kind in 'fc':
            return bool(np.allclose(a, b, 1e-12, 0))
        return bool(np.array_equal(a, b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(equal, a, b))
    if isinstance(a, float) and isinstance(b, float):
        return bool(np.isclose(a, b, 1e-12, 0))
    return type(a) is type(b) and a == b


def shapes(a):
    if isinstance(a, dict):
        return {k: shapes(v) for k, v in a.items()}
    if isinstance(a, np.ndarray):
        return (a.shape, a.dtype.kind)
    return None


def finite(a):
    if isinstance(a, dict):
        return all(finite(v) for v in a.values())
    if isinstance(a, np.ndarray) and a.dtype.kind in 'fc':
        return bool(np.isfinite(a).all())
    return True


def nameless(a):
    if 'atom_type' in a:
        return dict(a, atom_type=0)
    if 'crystal' in a:
        return dict(a, crystal=dict(a['crystal'], atom_type=0))
    return a


class Judge:
    def __init__(self, ctx, d, name):
        self.ctx, self.d, self.name = ctx, d, name
        fname, self.kind, build, self.readers, parts = FORMATS[name]
        if name in ('band.hdf5', 'mesh.hdf5'):
            self.readers = r_modes_hdf5
        self.path = os.path.join(d, fname)
        self.full, leading = formats(name)
        self.good = {}
        for data in [self.full] + leading:
            for label, f in self.reads(data):
                got = ctx.call(dict(file=name, reader=label), f)
                if got is not ctx.FAILED:
                    self.good.setdefault(label, []).append(content(got))

    def reads(self, data):
        with open(self.path, 'wb') as f:
            f.write(data)
        return self.readers(self.path, self.d)

    def judge(self, data, case, partial=False, accept=None):
        """read damaged data with every reader"""
        ctx = self.ctx
        for label, f in self.reads(data):
            c = dict(case, file=self.name, reader=label)
            ctx.case = c
            ctx.transition()
            try:
                signal.setitimer(signal.ITIMER_REAL, 3)
                try:
                    got = f()
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            except Hang:
                ctx.fail('the reader does not end', c, '')
                continue
            except Exception as e:
                ctx.outcome('raises ' + type(e).__name__)
                continue
            got = content(got)
            good = self.good.get(label, [])
            if partial:
                ok = finite(got) and any(shapes(got) == shapes(g)
                                         for g in good)
            else:
                ok = any(equal(got, g) for g in good)
            if not ok:
                # names of species are opaque
                ok = any(equal(nameless(got), nameless(g)) for g in good)
            if not ok and accept is not None:
                ok = any(accept(got, g) for g in good)
            ctx.outcome('accepts')
            ctx.check(ok, 'a damaged file gives an object that is not in the '
                      'file', c, lambda: dict(got=shapes(got)))
            ctx.trace()


def part_cut(ctx, d, name, k):
    j = Judge(ctx, d, name)
    text = j.kind in ('text', 'json')
    step = 1
    if j.kind == 'hdf5' and not ctx.thorough:
        step = 16
    for n in range(k*step, len(j.full), step*CHUNKS.get(name, 4)):
        ctx.state((name, n))
        data = j.full[:n]
        inside = text and n and not data[-1:].isspace() and (
            not j.full[n:n+1].isspace())
        j.judge(data, dict(fault='cut', bytes=n), partial=inside)


def part_lines(ctx, d, name):
    j = Judge(ctx, d, name)
    lines = j.full.splitlines(keepends=True)
    for k in range(len(lines)):
        if lines[k] == b'nac:\n':
            continue        # an optional section
        ctx.state((name, 'line', k))
        j.judge(b''.join(lines[:k] + lines[k+1:]),
                dict(fault='line removed', line=k, text=lines[k].decode()))


def part_tokens(ctx, d, name, k):
    j = Judge(ctx, d, name)
    spans = [m.span() for m in re.finditer(rb'[^\s\[\],]+', j.full)]
    for a, b in spans[k::4]:
        tok = j.full[a:b]
        line = j.full[:a].count(b'\n')
        head = j.full[j.full.rfind(b'\n', 0, a) + 1:a]
        comment = b'#' in head or tok.startswith(b'#')
        # an optional section; names of species are opaque
        comment |= tok == b'nac:' or name == 'dos' and tok.decode() in TYPES
        for new in (b'*'*len(tok), b''):
            if comment:
                continue
            ctx.state((name, 'token', a, new))
            j.judge(j.full[:a] + new + j.full[b:],
                    dict(fault='token', line=line, token=tok.decode(),
                         by=new.decode()))


def part_records(ctx, d, name):
    j = Judge(ctx, d, name)
    records = cf.unpack(j.full)
    named = [k for k, r in enumerate(records) if len(r) in (10, 30, 256)
             and r.strip() and not r.startswith((b'BEGIN', b'END'))]
    for k in named:
        end = k + 1
        while end < len(records) and not (
                end in named or records[end].startswith((b'BEGIN', b'END'))):
            end += 1
        ctx.state((name, 'record', k))
        key = records[k].strip().decode()

        def without(got, good, key=key):
            if key not in ('BORN_CHGS', 'DIELECTRIC'):
                return False
            g = {a: b for a, b in good.items()
                 if not a.startswith(('born', 'dielectric'))}
            return equal({a: b for a, b in got.items() if not
                          a.startswith(('born', 'dielectric'))}, g)
        j.judge(cf.pack(records[:k] + records[end:]),
                dict(fault='record removed', record=key), accept=without)
        # each of its data records: removed, shorter, longer
        for i in range(k + 1, end):
            for what, new in (('missing', None), ('empty', b''),
                              ('shorter', records[i][:-8]),
                              ('longer', records[i] + records[i][-8:])):
                mid = [] if new is None else [new]
                ctx.state((name, 'record', i, what))
                if new == records[i]:
                    continue
                unused = key == 'FORCE_CON' and i == end - 1
                j.judge(cf.pack(records[:i] + mid + records[i+1:]),
                        dict(fault='record ' + what, record=key, n=i - k),
                        accept=(lambda *_: True) if unused else None)
    # damaged record marks
    pos = 0
    for k, r in enumerate(records):
        for off in (pos, pos + 4 + len(r)):
            for delta in (-8, -1, 1, 8):
                n = len(r) + delta
                if n < 0:
                    continue
                ctx.state((name, 'mark', off, delta))
                data = (j.full[:off] + n.to_bytes(4, 'big')
                        + j.full[off + 4:])
                j.judge(data, dict(fault='record mark', record=k, by=delta))
        pos += 8 + len(r)


def part_datasets(ctx, d, name):
    import h5py
    j = Judge(ctx, d, name)
    with open(j.path, 'wb') as f:
        f.write(j.full)
    with h5py.File(j.path) as h:
        data = {k: h[k][()] for k in h}

    def build(items):
        p = d + '/tmp.h5'
        with h5py.File(p, 'w') as h:
            for k, v in items.items():
                h[k] = v
        with open(p, 'rb') as f:
            return f.read()
    unused = ('p2s_map', 'physical_unit', 'mesh', 'distance')
    for k, v in data.items():
        ctx.state((name, k))

        def accept(got, good, k=k):
            if k in unused:
                return equal(got, good)
            if k == 'weight':
                g = dict(good, weights=np.full(len(good['qpts']),
                                               1/len(good['qpts'])))
                return equal(got, g)
            return False
        j.judge(build({a: b for a, b in data.items() if a != k}),
                dict(fault='data set removed', key=k), accept=accept)
        for ax in range(v.ndim):
            if v.shape[ax] > 1:
                ctx.state((name, k, ax))
                cut = np.take(v, range(v.shape[ax] - 1), axis=ax)
                j.judge(build(dict(data, **{k: cut})),
                        dict(fault='data set short', key=k, axis=ax),
                        accept=accept if k in unused else None)


# --------------------------------------------------------------------- JSON

def paths(x, at=()):
    yield at
    if isinstance(x, dict):
        for k in x:
            yield from paths(x[k], at + (k,))
    elif isinstance(x, list):
        for k in range(len(x)):
            yield from paths(x[k], at + (k,))


def at(x, path):
    for p in path:
        x = x[p]
    return x


DEFAULT = ('weights', 'born', 'dielectric', 'metadata', 'x_tick_labels',
           '__euphonic_class__', '__euphonic_version__', 'temperature')


def part_jsonfaults(ctx, d, name):
    j = Judge(ctx, d, name)
    full = json.loads(j.full)
    spectra = name.startswith('Spectrum')
    seen = set()
    for p in paths(full):
        if not p or p[0] == 'metadata' or p[0].startswith('__'):
            continue
        if any(isinstance(x, int) and x > 1 for x in p) and not ctx.thorough:
            continue
        leaf = p[-1]
        optional = len(p) == 1 and any(leaf.startswith(x) for x in DEFAULT)
        faults = []
        val = at(full, p)
        if isinstance(leaf, str):
            faults.append(('removed', None))
        faults.append(('null', None))
        if isinstance(val, (int, float)):
            faults.append(('text', 'x'))
            faults.append(('list', [val]))
        elif isinstance(val, list) and val:
            faults.append(('short', val[:-1]))
            faults.append(('empty', []))
            faults.append(('scalar', 1.5))
        elif isinstance(val, str):
            faults.append(('number', 3))
            faults.append(('text', 'no_such_unit'))
        for what, new in faults:
            case = dict(fault=what, path=list(p))
            if (what, p) in seen:
                continue
            seen.add((what, p))
            if spectra and what == 'short' and p in (
                    ('x_data',), ('y_data',), ('z_data',)):
                # bin edges and centres cannot be told apart: take two away
                new = val[:-2]
            if 'atom_type' in p and what in ('text', 'number'):
                continue        # any name is a species
            if 'x_tick_labels' in p and what in ('text', 'short', 'empty',
                                                 'removed'):
                continue        # any name is a label, any number of them
            if p == ('temperature',) and what == 'list':
                continue        # the same number, in a list
            data = json.loads(j.full)
            parent = at(data, p[:-1])
            if what == 'removed':
                del parent[leaf]
            else:
                parent[leaf] = new
            ctx.state((name, what, p))

            def accept(got, good, p=p, what=what):
                if not optional:
                    return False
                base = leaf[:-5] if leaf.endswith('_unit') else leaf
                drop = (base, base + '_unit')
                if base == 'dielectric' or base == 'born':
                    drop = ('born', 'born_unit', 'dielectric',
                            'dielectric_unit')
                if base == 'weights' and 'weights' in got:
                    n = len(good['qpts'])
                    if not np.allclose(got['weights'], 1/n):
                        return False
                elif any(k in got for k in drop) and base != leaf:
                    return False
                return equal({k: v for k, v in got.items() if k not in drop},
                             {k: v for k, v in good.items() if k not in drop})
            j.judge(json.dumps(data).encode(), case, accept=accept
                    if what in ('removed', 'null') else None)


# ----------------------------------------------------- user's reference data

REF = {'note': 'n', 'physical_property': {
    'coherent_scattering_length': {
        '__units__': 'fm', 'Na': 3.63, 'O': 5, 'B': {
            '__complex__': True, 'real': 5.3, 'imag': -0.213}, 'Nh': None,
        'X': 'unknown'},
    'mass': {'__units__': 'amu', 'Na': 23.0}}}
PROP = 'coherent_scattering_length'
REF_WANT = {'Na': 3.63, 'O': 5, 'B': 5.3 - 0.213j}


def part_refdata(ctx, d):
    """get_reference_data with the user's own file, complete and damaged"""
    from euphonic.util import get_reference_data
    path = os.path.join(d, 'own.json')

    def read(text, prop=PROP):
        ctx.transition()
        with open(path, 'w') as f:
            f.write(text)
        try:
            r = get_reference_data(collection=path, physical_property=prop)
        except Exception as e:
            return e
        ctx.trace()
        return {k: (complex(v.magnitude), f'{v.units:~}') for k, v in r.items()}

    def want(values, unit='fm'):
        return {k: (complex(v), unit) for k, v in values.items()}

    full = json.dumps(REF)
    ctx.check(read(full) == want(REF_WANT), 'complete reference data',
              dict(file='refdata'), lambda: repr(read(full)))
    ctx.check(read(full, 'mass') == want({'Na': 23.0}, 'u') or
              read(full, 'mass') == want({'Na': 23.0}, 'amu') or
              read(full, 'mass') == want({'Na': 23.0}, 'Da'),
              'another property of the file', dict(file='refdata'),
              lambda: repr(read(full, 'mass')))
    ctx.check(isinstance(read(full, 'none'), Exception),
              'a property that the file does not have is returned',
              dict(file='refdata', fault='property'))
    for n in range(len(full)):
        ctx.state(('refdata', 'cut', n))
        got = read(full[:n])
        ctx.check(isinstance(got, Exception),
                  'truncated reference data are accepted',
                  dict(file='refdata', fault='cut', at=n), lambda: repr(got))
    for indent in (None, 1, 4):         # any layout is the same file
        for sort in (False, True):
            got = read(json.dumps(REF, indent=indent, sort_keys=sort))
            ctx.check(got == want(REF_WANT), 'layout of the reference data',
                      dict(file='refdata', indent=indent, sort=sort),
                      lambda: repr(got))
    for p in paths(REF):
        if not p or p[0] == 'note':
            continue
        faults = [('removed',)] + [('value', v) for v in (
            None, 'text', [1.0], {}, 2.5)]
        if 'B' in p and len(p) == 4:
            faults = [('removed',)] + [('value', v) for v in (
                None, 'text', [1.0], {})]
        if p[-1] == '__units__':
            faults.remove(('value', {}))    # Pint: nothing, no dimension
        for fault in faults:
            ctx.state(('refdata', p, repr(fault)))
            data = json.loads(full)
            parent = at(data, p[:-1])
            if fault[0] == 'removed':
                del parent[p[-1]]
            else:
                parent[p[-1]] = fault[1]
            got = read(json.dumps(data))
            case = dict(file='refdata', path=list(p), fault=list(fault))
            good = want(REF_WANT)
            if len(p) == 3 and p[1] == PROP and p[2] != '__units__':
                # one entry: gone, or the number given in its place
                good.pop(p[2], None)
                if fault == ('value', 2.5):
                    good[p[2]] = (2.5 + 0j, 'fm')
                ok = got == good or (isinstance(got, Exception) and
                                     fault[-1] in ([1.0], {}))
            elif p[1:2] == ('mass',):
                ok = got == good
            elif p == ('physical_property', PROP) and fault[-1] == {}:
                ok = isinstance(got, Exception)
            elif 'B' in p and p[3] == '__complex__':
                good.pop('B')           # a dictionary, not a number
                ok = (isinstance(got, Exception) or got == good
                      or got == want(REF_WANT))
            else:
                ok = isinstance(got, Exception)
            ctx.check(ok, 'damaged reference data are accepted', case,
                      lambda: repr(got))
