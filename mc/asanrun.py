"""Run in a process with libasan preloaded: explores the extension's argument
shapes under the address sanitizer. Prints 'CASE <json>' before each
execution and 'DONE <n>' at the end.

python -m mc.asanrun shapes <tier> <index> <of>: every option set, q-list,
    basis and supercell in the box
python -m mc.asanrun far: results of more than 2**31 numbers"""
import ctypes
import itertools
import json
import mmap
import os
import sys


def case(**kw):
    print('CASE', json.dumps(kw), flush=True)


def shapes(tier, index, of):
    import numpy as np
    from mc import gen
    from mc.checks.c05 import OPTS, QLISTS, compute
    scs = [((1, 0, 0), (0, 1, 0), (0, 0, 1)), ((2, 0, 0), (0, 1, 0), (0, 0, 1)),
           ((1, 1, 0), (-1, 1, 0), (0, 0, 2))]
    n = k = 0
    for basis, sc, born in itertools.product(
            ('one', 'gen2', 'gen3'), scs, (None, 'aniso')):
        fc = None
        for q, o, nt in itertools.product(QLISTS, OPTS, (1, 3)):
            if born is None and o['dipole']:
                continue
            if tier == 'quick' and nt == 3 and len(QLISTS[q]) < 4:
                continue
            k += 1
            if k % of != index:
                continue
            if fc is None:
                fc = gen.force_constants('tric', basis, sc, born=born, seed=3)
            case(basis=basis, supercell=sc, born=born, qpts=q, options=o,
                 n_threads=nt)
            compute(fc, QLISTS[q], o, nt)
            n += 1
    print('DONE', n)


class Stop(Exception):
    pass


def aliased(nbytes):
    """address of nbytes backed by one small file mapped again and again, with
    inaccessible memory on both sides"""
    libc = ctypes.CDLL(None, use_errno=True)
    libc.mmap.restype = ctypes.c_void_p
    libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int,
                          ctypes.c_int, ctypes.c_int, ctypes.c_long]
    chunk = 64 << 20
    side = 40 << 30
    n = -(-nbytes//chunk)
    bad = ctypes.c_void_p(-1).value
    base = libc.mmap(None, 2*side + n*chunk, 0, 0x4022, -1, 0)
    if base == bad:
        raise MemoryError('address space')
    fd = os.memfd_create('alias')
    os.ftruncate(fd, chunk)
    for i in range(n):
        if libc.mmap(base + side + i*chunk, chunk, 3, 0x11, fd, 0) == bad:
            raise MemoryError('alias')
    return base + side


def far():
    import numpy as np
    from mc import gen
    import euphonic._euphonic as ext
    g = np.random.default_rng(7)
    na = 60
    cry = gen.crystal('cubic', 'one')
    from euphonic import Crystal, ForceConstants, Quantity
    cry = Crystal(cry.cell_vectors, g.uniform(0, 1, (na, 3)),
                  np.array(['Si']*na), Quantity(np.full(na, 28.), 'amu'))
    phi = g.normal(size=(3*na, 3*na))
    fc = ForceConstants(cry, Quantity((phi + phi.T)[None], 'hartree/bohr**2'),
                        np.eye(3, dtype=int), np.zeros((1, 3), dtype=int))
    per = 18*na*na
    done = 0
    real = ext.calculate_phonons
    for nq in (2**31//per + 40,):
        case(n_atoms=na, n_qpts=nq, numbers=nq*per)

        def call(*args, **kw):
            args = list(args)
            big = [i for i, a in enumerate(args) if isinstance(a, np.ndarray)
                   and a.dtype == complex and a.size*2 >= nq*per]
            if len(big) != 1:
                raise Stop('no eigenvectors found')
            a = args[big[0]]
            addr = aliased(a.nbytes)
            buf = (ctypes.c_char*a.nbytes).from_address(addr)
            args[big[0]] = np.frombuffer(buf, dtype=complex).reshape(a.shape)
            real(*args, **kw)
            raise Stop('ok')
        ext.calculate_phonons = call
        try:
            fc.calculate_qpoint_phonon_modes(
                g.uniform(.1, .4, (nq, 3)), use_c=True, n_threads=8,
                reduce_qpts=False)
        except Stop as e:
            done += str(e) == 'ok'
        finally:
            ext.calculate_phonons = real
    print('DONE', done)


def main():
    from mc import ext
    ext.activate('asan')
    if sys.argv[1] == 'far':
        far()
    else:
        shapes(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))


if __name__ == '__main__':
    main()
