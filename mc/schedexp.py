"""Explorer for thread schedules of the instrumented C extension."""
import ctypes
import importlib

import numpy as np


class Point(ctypes.Structure):
    _fields_ = [('tid', ctypes.c_int32), ('chosen', ctypes.c_int32),
                ('running_enabled', ctypes.c_int32),
                ('enabled', ctypes.c_uint32), ('addr', ctypes.c_uint64),
                ('write', ctypes.c_int32)]


MAXPTS = 200000


class Sched:
    def __init__(self):
        self.mod = importlib.import_module('euphonic._euphonic')
        self.lib = ctypes.CDLL(self.mod.__file__)
        L = self.lib
        L.cs_pts.restype = ctypes.POINTER(Point)
        L.cs_conf.restype = ctypes.POINTER(ctypes.c_uint64)
        L.cs_naccess.restype = ctypes.c_uint64
        L.cs_nregions.restype = ctypes.c_uint64
        self.funcs = {k: v for k, v in vars(self.mod).items()
                      if callable(v) and not k.startswith('__')}
        self.on_call = None
        for name, fn in self.funcs.items():
            setattr(self.mod, name, self._proxy(fn))

    def _proxy(self, fn):
        def call(*args, **kw):
            if self.on_call is None:
                return fn(*args, **kw)
            return self.on_call(fn, args, kw)
        return call

    def run(self, fn, args, kw, prefix, watch):
        """one complete execution under a choice prefix (then default)"""
        w = np.array(sorted(watch), dtype=np.uint64)
        p = np.array(list(prefix) or [0], dtype=np.int32)
        self._keep = (w, p)
        self.lib.cs_reset(w.ctypes.data_as(ctypes.c_void_p), len(w),
                          p.ctypes.data_as(ctypes.c_void_p), len(prefix),
                          MAXPTS)
        ret = fn(*args, **kw)
        n = self.lib.cs_npts()
        pts = self.lib.cs_pts()
        points = [(pts[i].tid, pts[i].chosen, pts[i].running_enabled,
                   bin(pts[i].enabled).count('1'), pts[i].addr, pts[i].write)
                  for i in range(n)]
        nc = self.lib.cs_nconf()
        cp = self.lib.cs_conf()
        conf = {int(cp[i]) for i in range(nc)}
        return dict(ret=ret, points=points, conf=conf,
                    flags=self.lib.cs_flags(),
                    accesses=int(self.lib.cs_naccess()),
                    regions=int(self.lib.cs_nregions()))


def explore(sched, fn, args, kw, ctx, case, compare, max_bound=2,
            max_runs=3000):
    """Explore all schedules with <= max_bound preemptions at conflicting
    accesses. compare(outputs) -> None or a description of the difference."""
    arrays = [a for a in args if isinstance(a, np.ndarray)]
    before = [a.copy() for a in arrays]

    def once(prefix, watch):
        for a, b in zip(arrays, before):
            a[...] = b
        r = sched.run(fn, args, kw, prefix, watch)
        ctx.transition()
        ctx.add('schedules')
        ctx.add('memory_accesses', r['accesses'])
        if r['flags'] & 4:
            ctx.fail('heap overflow in a parallel region', case,
                     dict(prefix=prefix))
        if r['flags'] & 8:
            raise RuntimeError('access table full')
        bad = compare(arrays)
        if bad:
            # a schedule must fail every time it is replayed
            for a, b in zip(arrays, before):
                a[...] = b
            r2 = sched.run(fn, args, kw, prefix, watch)
            bad2 = compare(arrays)
            if bool(bad2) != bool(bad):
                raise RuntimeError('schedule not reproducible')
            ctx.fail('schedule changes the result', dict(
                case, schedule=list(prefix), preemption_points=[
                    p for p in r['points'] if p[1]][:6],
                conflicting_words=len(watch)), bad)
        return r

    watch = set()
    for attempt in range(6):
        # bound 0 first, then 1, then 2; deviations found earliest are simplest
        grew = False
        runs = 0
        for bound in range(max_bound + 1):
            stack = [()]
            capped = False
            while stack:
                prefix = stack.pop()
                r = once(list(prefix), watch)
                runs += 1
                ctx.state((repr(case), prefix, len(watch)))
                if r['conf'] - watch:
                    watch |= r['conf']
                    grew = True
                    break
                pts = r['points']
                cost = 0
                costs = []
                for p in pts:
                    costs.append(cost)
                    if p[1] and p[2]:
                        cost += 1
                if runs > max_runs:
                    capped = True
                    break
                for i in range(len(pts) - 1, len(prefix) - 1, -1):
                    c = costs[i] + (1 if pts[i][2] else 0)
                    # only schedules with exactly `bound` preemptions are new
                    if c > bound:
                        continue
                    base = tuple(p[1] for p in pts[:i])
                    for alt in range(1, pts[i][3]):
                        stack.append(base + (alt,))
            if grew:
                break
            if capped:
                ctx.cap(f'{case}: {runs} schedules, preemption bound {bound} '
                        f'not completed')
                break
            if not watch:
                # no two threads conflict on any word: every interleaving is
                # equivalent to each other (one Mazurkiewicz trace)
                break
        if not grew:
            break
    ctx.add('conflicting_words', len(watch))
    for a, b in zip(arrays, before):
        a[...] = b
    sched.run(fn, args, kw, [], set())
    return len(watch)
