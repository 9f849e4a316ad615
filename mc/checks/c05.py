"""C05: the result of a phonon calculation does not depend on the number of
OpenMP threads or on how they are scheduled."""
import itertools

import numpy as np

from mc import gen

FLAVOUR = 'sched'
TECHNIQUE = ('stateless model checking of the compiled C code: a controlled '
             'scheduler enumerates thread interleavings up to a preemption '
             'bound')
NOTE = ('Every interleaving with at most 2 preemptions (3 in thorough) at '
        'conflicting accesses of the real C sources, with canaries around and '
        'poison in thread buffers; every argument shape in a box and results of '
        'over 2**31 numbers under the address sanitizer; assumes sequential consistency and an '
        'opaque LAPACK.')
RULE = ('every schedule of the real C code with <=2 preemptions at accesses '
        'on which two threads conflict, for every q-list shape x option set x '
        'thread count; a state is one (harness, schedule prefix). Memory bounds: every '
        'basis x supercell x q-list x option set x thread count in the box '
        'under the address sanitizer')
ASSUMPTIONS = [
    'sequentially consistent memory (the scheduler does not model weaker '
    'orderings)',
    'LAPACK zheevd is opaque: it is modelled as non-atomic on its arguments',
    'C sources compiled with gcc -O1 and TSan instrumentation callbacks']

G, A, B, X = (0., 0., 0.), (.1, 0., 0.), (0., .2, .3), (.5, .5, 0.)
N = (1., 0., 0.)      # gamma in another zone
QLISTS = {
    'single-gamma': [G], 'two': [A, B], 'g-first': [G, A],
    'path': [A, G, G, B], 'gggg': [G, A, G, B],
    'ends': [G, A, B, G], 'split-all': [A, G, G, B, G, G],
    'other-zone': [A, N, X, G, B], 'nogamma': [A, B, X], 'dup': [A, A, B, G],
    'five-gamma': [G, A, G, G, B, G, X, G],
}
OPTS = [dict(dipole=d, splitting=s, asr=asr, reduce_qpts=red,
             return_mode_gradients=mg, vecs=v)
        for d, s in ((True, True), (True, False), (False, False))
        for asr in (None, 'reciprocal')
        for red in (True, False)
        for mg in (False, True)
        for v in (True, False)]


def units(tier):
    for name in QLISTS:
        for nt in ((2, 3) if tier == 'quick' else (2, 3, 4)):
            yield f'{name}/t{nt}', dict(q=name, nt=nt)
    yield 'far', dict(bounds=('far',))
    for k in range(4):
        yield f'bounds/{k}', dict(bounds=('shapes', tier, str(k), '4'))


def compute(fc, q, o, nt):
    o = dict(o)
    vecs = o.pop('vecs')
    f = (fc.calculate_qpoint_phonon_modes if vecs
         else fc.calculate_qpoint_frequencies)
    r = f(np.array(q), use_c=True, n_threads=nt, **o)
    out = []
    if o['return_mode_gradients']:
        r, g = r
        out.append(g.magnitude)
    out.append(r.frequencies.magnitude)
    if vecs:
        out.append(r.eigenvectors)
    return out


def bounds(ctx, args):
    """the extension under the address sanitizer, LAPACK's accesses included,
    for every shape in the box: see mc/asanrun.py"""
    import json
    import os
    import re
    import subprocess
    import sys
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], text=True,
                         capture_output=True).stdout.strip()
    env = dict(os.environ, LD_PRELOAD=lib, PYTHONMALLOC='malloc',
               ASAN_OPTIONS='detect_leaks=0:exitcode=66:'
                            'allocator_may_return_null=1')
    if args[0] == 'far':
        env['EUPHONIC_MC_NO_DIAG'] = '1'
    p = subprocess.run([sys.executable, '-B', '-m', 'mc.asanrun', *args],
                       text=True, capture_output=True, env=env)
    cases = [x[5:] for x in p.stdout.splitlines() if x.startswith('CASE ')]
    for c in cases:
        ctx.state((args[0], c))
        ctx.transition()
    done = re.search(r'^DONE (\d+)$', p.stdout, re.M)
    case = json.loads(cases[-1]) if cases else dict(args=args)
    ctx.case = case
    report = re.search(r'ERROR: AddressSanitizer.*?(?=\n\n|\nAddress |\Z)',
                       p.stderr, re.S)
    if ctx.check(report is None and p.returncode not in (-6, -7, -11),
                 'access outside the buffers given', case,
                 report and report[0][:900]):
        if done is None:
            raise RuntimeError(f'sanitizer run: {p.stderr[-2000:]}')
        if int(done[1]) < len(cases):
            ctx.cap('results of more than 2**31 numbers not explored')
        ctx.trace(int(done[1]))
    ctx.outcome((args[0], len(cases)))
    ctx.sample(case)


def run(ctx, q=None, nt=None, bounds=None):
    if bounds:
        return globals()['bounds'](ctx, bounds)
    from mc.schedexp import Sched, explore
    sched = Sched()
    fc = gen.force_constants('tric', 'gen2', ((1, 0, 0), (0, 1, 0), (0, 0, 1)),
                             born='aniso', seed=3)
    qpts = QLISTS[q]
    opts = OPTS if ctx.thorough else [o for o in OPTS if (
        o['splitting'] or not o['asr'])]
    for o in opts:
        case = dict(qpts=qpts, n_threads=nt, options=o)
        ctx.case = case
        # reference: one thread, recorded arrays after the call
        ref = {}

        def record(fn, args, kw):
            r = fn(*args, **kw)
            ref['arrays'] = [a.copy() for a in args
                             if isinstance(a, np.ndarray)]
            return r

        sched.on_call = record
        sched.lib.cs_reset(None, 0, None, 0, 1000)
        one = compute(fc, qpts, o, 1)
        called = []

        def compare(arrays):
            for k, (a, b) in enumerate(zip(arrays, ref['arrays'])):
                if a.shape != b.shape:
                    return f'array {k}: shape {a.shape} vs {b.shape}'
                if not np.allclose(a, b, rtol=1e-9, atol=1e-15,
                                   equal_nan=True):
                    return (f'array {k} differs by '
                            f'{np.nanmax(np.abs(a - b))}, nan: '
                            f'{np.isnan(a).sum()} vs {np.isnan(b).sum()}')
            return None

        def exp(fn, args, kw):
            called.append(1)
            n = explore(sched, fn, args, kw, ctx, case, compare,
                        max_bound=2 if not ctx.thorough else 3,
                        max_runs=3000 if not ctx.thorough else 40000)
            ctx.outcome((n,))
            # leave the output arrays in their final state
            return None

        sched.on_call = exp
        many = compute(fc, qpts, o, nt)
        sched.on_call = None
        ctx.check(bool(called), 'extension not called', case)
        ctx.trace()
        for a, b in zip(one, many):
            ctx.check(a.shape == b.shape and np.allclose(
                a, b, rtol=1e-9, atol=1e-12, equal_nan=True),
                'result depends on n_threads', case)
        # conformance of the instrumented build with the Python path
        oo = dict(o)
        vecs = oo.pop('vecs')
        fp = fc.calculate_qpoint_frequencies(
            np.array(qpts), use_c=False,
            **{k: v for k, v in oo.items() if k != 'return_mode_gradients'})
        fr = many[1 if o['return_mode_gradients'] else 0]
        ctx.check(np.allclose(fr, fp.frequencies.magnitude, rtol=1e-6,
                              atol=1e-4), 'C differs from Python', case,
                  lambda: (fr, fp.frequencies.magnitude))
    ctx.sample(case)
