"""Bounded exhaustive exploration harness: runs the independent sub-spaces
("units") of one property in forked worker processes, merges what they
covered, writes the evidence file and reports violations."""
import hashlib
import importlib
import json
import os
import re
import select
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class StopUnit(Exception):
    """raised when a unit has recorded enough violations"""


class Abort(BaseException):
    pass


def jsonable(x, depth=0):
    import numpy as np
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 200:
            return f'ndarray{x.shape} sha={hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest()[:10]}'
        if np.iscomplexobj(x):
            return repr(x.tolist())
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:300]


class Ctx:
    MAX_FAILS = int(os.environ.get('MC_MAX_FAILS', '5'))

    def __init__(self, prop, tier, unit):
        self.prop, self.tier, self.unit = prop, tier, unit
        self.counts = {}
        self.outcomes = set()
        self.samples = []
        self.fails = []
        self.capped = []
        self._states = set()
        self.case = None
        self.known = {k for k, _ in load_findings(prop)}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def add(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def transition(self, n=1):
        """n executions of an operation of the implementation"""
        self.add('transitions', n)

    def trace(self, n=1):
        """n complete executions compared with the reference model"""
        self.add('traces', n)

    def state(self, key):
        """register a state/configuration; True if it is new"""
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        if h in self._states:
            return False
        self._states.add(h)
        return True

    def outcome(self, key):
        if len(self.outcomes) < 5000:
            self.outcomes.add(hashlib.blake2b(
                repr(key).encode(), digest_size=8).hexdigest())

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(jsonable(obj))

    def cap(self, text):
        self.capped.append(text)

    def fail(self, kind, case, detail, key=None):
        """A property violation. key identifies the specific failing input
        for known-findings matching."""
        if key in self.known:
            self.add('known_finding_cases')
            if all(f['key'] != key for f in self.fails):
                self.fails.append(dict(kind=kind, case=jsonable(case),
                                       detail=jsonable(detail), key=key))
            return
        self.fails.append(dict(kind=kind, case=jsonable(case),
                               detail=jsonable(detail), key=key or kind))
        if sum(f['key'] not in self.known
               for f in self.fails) >= self.MAX_FAILS:
            raise StopUnit

    def check(self, cond, kind, case, detail='', key=None):
        if not cond:
            self.fail(kind, case, detail() if callable(detail) else detail,
                      key)
        return bool(cond)

    FAILED = object()

    def call(self, case, f, *args, **kw):
        """f(*args, **kw), an exception being a violation; FAILED then"""
        self.case = case
        try:
            return f(*args, **kw)
        except Exception as e:
            self.fail('exception: ' + type(e).__name__, case,
                      traceback.format_exc()[-1500:])
            return self.FAILED

    def result(self):
        return dict(unit=self.unit, counts=self.counts,
                    states=len(self._states), outcomes=sorted(self.outcomes),
                    samples=self.samples, fails=self.fails,
                    capped=self.capped)


def load_findings(prop):
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def _child(mod, prop, tier, name, kwargs, wfd):
    os.setpgid(0, 0)
    ctx = Ctx(prop, tier, name)
    t0 = time.time()
    err = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mod.run(ctx, **kwargs)
    except StopUnit:
        pass
    except Exception as e:
        tb = traceback.format_exc()
        ctx.fails.append(dict(
            kind='exception', key='exception:' + type(e).__name__,
            case=jsonable(ctx.case), detail=tb[-3000:]))
    res = ctx.result()
    res['wall'] = time.time() - t0
    data = json.dumps(res).encode()
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)
    sys.stdout.flush()
    os._exit(0)


def run_units(mod, prop, tier, units, jobs, unit_timeout, deadline):
    pending = list(units)[::-1]
    known = {k for k, _ in load_findings(prop)}
    running = {}
    results = []

    def finish(fd, timed_out=False):
        name, kwargs, pid, start, buf = running.pop(fd)
        if timed_out:
            try:
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                os.kill(pid, signal.SIGKILL)
        os.close(fd)
        _, status = os.waitpid(pid, 0)
        try:
            res = json.loads(b''.join(buf))
        except ValueError:
            what = ('no result within %ds (non-termination)' % unit_timeout
                    if timed_out else
                    f'process ended with status {status} '
                    f'(signal {os.WTERMSIG(status) if os.WIFSIGNALED(status) else None})')
            res = dict(unit=name, counts={}, states=0, outcomes=[],
                       samples=[], capped=[], wall=time.time() - start,
                       fails=[dict(kind='crash-or-hang', key='crash-or-hang',
                                   case=None, detail=what)])
        res['kwargs'] = kwargs
        results.append(res)

    def drop(fd, capped=False):
        name, kwargs, pid, start, buf = running.pop(fd)
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            os.kill(pid, signal.SIGKILL)
        os.close(fd)
        os.waitpid(pid, 0)
        if capped:
            results.append(dict(
                unit=name, kwargs=kwargs, counts={}, states=0, outcomes=[],
                samples=[], fails=[], wall=time.time() - start,
                capped=['stopped at the time budget']))

    while pending or running:
        while pending and len(running) < jobs:
            name, kwargs = pending.pop()
            rfd, wfd = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                for fd in running:
                    os.close(fd)
                try:
                    _child(mod, prop, tier, name, kwargs, wfd)
                finally:
                    os._exit(3)
            os.close(wfd)
            running[rfd] = (name, kwargs, pid, time.time(), [])
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for fd in ready:
            data = os.read(fd, 1 << 20)
            if data:
                running[fd][4].append(data)
            else:
                finish(fd)
        now = time.time()
        for fd in list(running):
            if now - running[fd][3] > unit_timeout:
                finish(fd, timed_out=True)
            elif now > deadline:
                drop(fd, capped=True)
        if now > deadline:
            while pending:
                name, kwargs = pending.pop()
                results.append(dict(
                    unit=name, kwargs=kwargs, counts={}, states=0, outcomes=[],
                    samples=[], fails=[], wall=0,
                    capped=['not started within the time budget']))
        if sum(any(f['key'] not in known for f in r['fails'])
               for r in results) >= (
                   1 if os.environ.get('MC_STOP') else max(12, Ctx.MAX_FAILS)):
            # enough evidence of breakage; stop early
            for fd in list(running):
                drop(fd)
            pending.clear()
    return results


def main(argv=None):
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('prop')
    p.add_argument('--thorough', action='store_true')
    p.add_argument('--replay')
    p.add_argument('--only')
    p.add_argument('--jobs', type=int, default=int(
        os.environ.get('MC_JOBS', '8')))
    p.add_argument('-v', '--verbose', action='store_true')
    a = p.parse_args(argv)
    tier = 'thorough' if (a.thorough or os.environ.get('VERIF_TIER')
                          == 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('mc.checks.' + a.prop.lower())
    replays = os.path.join(VERIF, 'replays')
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    from mc import ext
    boot_fail = None
    try:
        ext.activate(getattr(mod, 'FLAVOUR', 'plain'))
        mod.setup(tier) if hasattr(mod, 'setup') else None
    except ext.BuildError as e:
        print(f'ERROR: the C extension does not compile\n{e}')
        return 2
    except Exception:
        boot_fail = traceback.format_exc()

    units = []
    if boot_fail is None:
        units = list(mod.units(tier))
        if a.replay:
            rep = json.load(open(a.replay))
            units = [(rep['unit'], rep['kwargs'])]
        if a.only:
            units = [u for u in units if a.only in u[0]]
    limit = getattr(mod, 'UNIT_TIMEOUT', {}).get(
        tier, 400 if tier == 'quick' else 6 * 3600)
    deadline = t0 + (780 if tier == 'quick' else 24 * 3600)
    results = run_units(mod, a.prop, tier, units, a.jobs, limit, deadline)
    if boot_fail:
        results.append(dict(
            unit='import', kwargs={}, counts={}, states=0, outcomes=[],
            samples=[], capped=[], wall=0, fails=[dict(
                kind='import', key='import', case=None, detail=boot_fail)]))

    tot = {}
    states = 0
    outcomes = set()
    samples, capped = [], []
    for r in sorted(results, key=lambda r: r['unit']):
        for k, v in r['counts'].items():
            tot[k] = tot.get(k, 0) + v
        states += r['states']
        outcomes.update(r['outcomes'])
        capped += [r['unit'] + ': ' + c for c in r['capped']]
        for s in r['samples'][:1]:
            if len(samples) < 12:
                samples.append({'unit': r['unit'], 'case': s})
        if a.verbose:
            print(f"  {r['unit']:50s} states={r['states']:7d} "
                  f"{r['counts']} fails={len(r['fails'])} "
                  f"{r['wall']:.1f}s")
    known = load_findings(a.prop)
    hit = {}
    violations = []
    for r in results:
        for f in r['fails']:
            for key, what in known:
                if f['key'] == key:
                    hit[key] = what
                    break
            else:
                violations.append((r, f))
    coverage = dict(
        states=states, transitions=tot.pop('transitions', 0),
        traces_validated_against_impl=tot.pop('traces', 0),
        distinct_outcomes=len(outcomes), units=len(results),
        exhaustive=not capped and not violations,
        rule=getattr(mod, 'RULE', ''), samples=samples or [{'unit': 'none'}])
    coverage.update(tot)
    if capped:
        coverage['capped'] = capped[:20]
    level = getattr(mod, 'LEVEL', 'model_checking')
    if level == 'exploration':
        coverage['evaluations'] = coverage['transitions']
        coverage['distinct_nontrivial'] = states
    ev = dict(property=a.prop, tier=tier, seed=seed, level=level,
              coverage=coverage,
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    # (a scratch copy examined with EUPHONIC_MC_REPO leaves no evidence)
    scratch = 'EUPHONIC_MC_REPO' in os.environ
    if not a.replay and not a.only and not scratch:
        path = os.path.join(VERIF, 'evidence', a.prop + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(path + '.tmp', path)
    for key, what in hit.items():
        print(f'KNOWN-FINDING: property={a.prop} {what}')
    print(f"{a.prop} {tier}: states={states} "
          f"transitions={coverage['transitions']} "
          f"traces={coverage['traces_validated_against_impl']} "
          f"outcomes={len(outcomes)} units={len(results)} "
          f"{tot} wall={time.time() - t0:.1f}s")
    for c in capped[:5]:
        print('  capped:', c)
    if violations:
        for n, (r, f) in enumerate(violations[:max(6, Ctx.MAX_FAILS if Ctx.MAX_FAILS > 5 else 0)]):
            path = os.path.join(replays, f'{a.prop}-{n}.json')
            with open(path, 'w') as fh:
                json.dump(dict(property=a.prop, tier=tier, unit=r['unit'],
                               kwargs=r['kwargs'], **f), fh, indent=1)
            print(f"  [{r['unit']}] {f['kind']}: "
                  f"case={json.dumps(f['case'])[:600]}\n"
                  f"      {str(f['detail'])[-900:]}")
            print(f'VIOLATION property={a.prop} '
                  f'replay={os.path.relpath(path, VERIF)}')
        return 1
    if not results or (states == 0 and coverage['transitions'] == 0):
        print('ERROR: nothing was explored')
        return 2
    return 0
