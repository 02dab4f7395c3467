"""Runner shared by every check: job pool, counting, violations, evidence.

A check module exposes

    TECHNIQUE   one line naming what is enumerated and against what
    jobs(tier)  -> list of (function name, params) ; params are JSON values
    <function>(params, rep) run one job: enumerate its part of the bounded
                space on the real code, calling the methods of ``rep``

Every job is deterministic, so a violation is replayed by running its job
again and looking for the violation with the same case.
"""
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_VIOL = 6          # written out for each job


class Hang(BaseException):
    """The code under test did not return within its CPU budget."""


def _hang(signum, frame):
    raise Hang("no result within the CPU time limit")


class limit(object):
    """CPU time limit for the code under test (repeating, so that an
    over-broad except clause cannot swallow it for good)."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        self.old = signal.signal(signal.SIGPROF, _hang)
        self.prev = signal.setitimer(signal.ITIMER_PROF, self.seconds, 5.0)

    def __exit__(self, *args):
        signal.setitimer(signal.ITIMER_PROF, 0.0)
        signal.signal(signal.SIGPROF, self.old)
        if self.prev[0] > 0.0:
            signal.setitimer(signal.ITIMER_PROF, max(self.prev[0], 1.0), 5.0)
        return False


def canon(obj):
    """Canonical, hashable text of a state, outcome or case."""
    import numpy as np
    import datetime as dt
    if obj is None or isinstance(obj, (bool, int, str)):
        return repr(obj)
    if isinstance(obj, (float, np.floating)):
        if obj != obj:
            return 'nan'
        return '%.9g' % (float(obj) + 0.0)
    if isinstance(obj, np.integer):
        return repr(int(obj))
    if isinstance(obj, np.bool_):
        return repr(bool(obj))
    if isinstance(obj, (dt.datetime, dt.date)):
        return obj.isoformat()
    if isinstance(obj, np.ndarray):
        return 'a%s[%s]' % (obj.shape, ','.join(canon(v) for v in
                                                obj.ravel().tolist()))
    if isinstance(obj, dict):
        return '{%s}' % ','.join('%s:%s' % (canon(k), canon(obj[k]))
                                 for k in sorted(obj, key=str))
    if isinstance(obj, (list, tuple)):
        return '(%s)' % ','.join(canon(v) for v in obj)
    if isinstance(obj, (set, frozenset)):
        return '<%s>' % ','.join(sorted(canon(v) for v in obj))
    return repr(obj)


class Report(object):
    """Counts and violations of one job."""

    def __init__(self, known=None):
        self._states = set()
        self._outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.nviol = 0
        self.known = {}
        self.known_ids = set(known or [])
        self.groups = {}

    @staticmethod
    def _h(obj):
        return hashlib.blake2b(canon(obj).encode(), digest_size=8).digest()

    def state(self, obj):
        """Count a reached (canonical) state; True when it is new."""
        h = self._h(obj)
        if h in self._states:
            return False
        self._states.add(h)
        return True

    def outcome(self, obj):
        self._outcomes.add(self._h(obj))

    def step(self, n=1, group=None):
        """Count operations executed on the real code."""
        self.transitions += n
        if group is not None:
            self.groups[group] = self.groups.get(group, 0) + n

    def trace(self, case=None, outcome=None):
        """Count a finished trace that was compared with the model."""
        self.traces += 1
        if outcome is not None:
            self.outcome(outcome)
        if case is not None and len(self.samples) < 2:
            self.samples.append({'case': jsonable(case),
                                 'outcome': canon(outcome)[:300]})

    def violate(self, case, what, got=None, want=None):
        self.nviol += 1
        if len(self.violations) < MAX_VIOL:
            self.violations.append({'case': jsonable(case), 'what': what,
                                    'got': canon(got)[:2000],
                                    'want': canon(want)[:2000]})

    def know(self, kid, what):
        """A violation that is listed as known finding ``kid``."""
        if kid not in self.known_ids:
            self.violate(kid, 'unlisted finding: ' + what)
        else:
            self.known.setdefault(kid, what)

    def pack(self):
        return {'states': self._states, 'outcomes': self._outcomes,
                'transitions': self.transitions, 'traces': self.traces,
                'samples': self.samples, 'violations': self.violations,
                'nviol': self.nviol, 'known': self.known,
                'groups': self.groups}


def jsonable(obj):
    import numpy as np
    import datetime as dt
    if isinstance(obj, dict):
        return {str(k): jsonable(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [jsonable(v) for v in obj]
    if isinstance(obj, np.ndarray):
        return {'shape': list(obj.shape), 'values': jsonable(obj.tolist())}
    if isinstance(obj, np.generic):
        return jsonable(obj.item())
    if isinstance(obj, (dt.datetime, dt.date)):
        return obj.isoformat()
    if isinstance(obj, float) and obj != obj:
        return 'nan'
    if obj is None or isinstance(obj, (bool, int, float, str)):
        return obj
    return repr(obj)


_MOD = None
_KNOWN = None


def _run_job(job):
    name, params = job
    rep = Report(_KNOWN)
    t0 = time.process_time()
    try:
        with limit(getattr(_MOD, 'JOB_CPU_LIMIT', 1500)):
            getattr(_MOD, name)(params, rep)
    except Hang as exc:
        rep.violate({'job': name, 'params': params},
                    'code under test does not terminate: %s' %
                    ' | '.join(traceback.format_exc().split('\n')[-8:]))
    except Exception as exc:
        rep.violate({'job': name, 'params': params},
                    'unexpected %s: %s' % (type(exc).__name__, exc),
                    got=traceback.format_exc()[-1500:])
    out = rep.pack()
    out['job'] = [name, params]
    out['cpu'] = time.process_time() - t0
    return out


def scratch_env():
    """Private HOME (pysat, matplotlib ...) and scratch directory."""
    base = tempfile.mkdtemp(prefix='ocbmc_')
    home = os.path.join(base, 'home')
    os.makedirs(os.path.join(home, 'pysatData'))
    os.environ['HOME'] = home
    os.environ['OCBMC_SCRATCH'] = base
    tempfile.tempdir = base
    return base


def _own_home():
    """A HOME for this worker alone, as pysat keeps file lists below it."""
    home = os.environ['HOME'] + '_%d' % os.getpid()
    shutil.copytree(os.environ['HOME'], home)
    os.environ['HOME'] = home
    pysat = sys.modules.get('pysat')
    if pysat is not None:
        pysat.pysat_dir = os.path.join(home, '.pysat')


def load_known():
    known = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.isfile(path):
        with open(path) as fin:
            for line in fin:
                line = line.strip()
                if line.startswith('finding:'):
                    parts = dict(p.split('=', 1) for p in line.split()[1:3])
                    known.setdefault(parts['property'], set()).add(parts['id'])
    return known


def main(argv):
    global _MOD, _KNOWN
    prop, tier = argv[0], argv[1] if len(argv) > 1 else 'quick'
    if len(argv) > 2:
        argv = [argv[0], argv[1], os.path.abspath(argv[2])] + argv[3:]
    base = scratch_env()
    code = 1
    # whatever the code under test writes to a relative path stays in scratch
    cwd = os.path.join(base, 'cwd')
    os.mkdir(cwd)
    os.chdir(cwd)
    try:
        code = _main(prop, tier, argv, base)
    finally:
        os.chdir(ROOT)
        shutil.rmtree(base, ignore_errors=True)
    return code


def _main(prop, tier, argv, base):
    global _MOD, _KNOWN
    import importlib
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rdir = os.path.join(ROOT, 'replays')
    os.makedirs(rdir, exist_ok=True)
    replay = None
    if tier == 'replay':
        with open(argv[2]) as fin:
            replay = json.load(fin)
        tier = replay['tier']
    else:
        for name in os.listdir(rdir):
            if name.startswith(prop + '-'):
                os.remove(os.path.join(rdir, name))

    _KNOWN = load_known().get(prop, set())
    results = []
    broken = None
    try:
        sys.path.insert(0, ROOT)
        _MOD = importlib.import_module('mc.' + prop.lower())
        if hasattr(_MOD, 'setup'):
            _MOD.setup(tier)
        jobs = _MOD.jobs(tier)
    except Exception:
        jobs = []
        broken = traceback.format_exc()

    if replay is not None:
        jobs = [tuple(replay['job'])]
    if broken is None:
        nproc = min(int(os.environ.get('OCBMC_PROCS', '0')) or
                    (os.cpu_count() or 4), 8, max(1, len(jobs)))
        try:
            if nproc == 1:
                results = [_run_job(j) for j in jobs]
            else:
                try:
                    # creates its files below HOME once, not in each worker
                    import pysat  # noqa: F401
                except ImportError:
                    pass
                import concurrent.futures as cf
                import multiprocessing as mp
                with cf.ProcessPoolExecutor(
                        nproc, mp_context=mp.get_context('fork'),
                        initializer=_own_home) as ex:
                    futs = [ex.submit(_run_job, j) for j in jobs]
                    if os.environ.get('OCBMC_FAST'):
                        # trying out mutants: the first violation will do
                        for fut in cf.as_completed(futs):
                            if fut.exception() or fut.result()['nviol']:
                                for other in futs:
                                    other.cancel()
                                break
                        jobs = [j for j, f in zip(jobs, futs)
                                if not f.cancelled()]
                        futs = [f for f in futs if not f.cancelled()]
                    for fut, j in zip(futs, jobs):
                        try:
                            results.append(fut.result())
                        except Exception as exc:
                            rep = Report(_KNOWN)
                            rep.violate({'job': j}, 'worker died: %r' % exc)
                            out = rep.pack()
                            out['job'] = list(j)
                            out['cpu'] = 0.0
                            results.append(out)
        except Exception:
            broken = traceback.format_exc()

    states, outcomes = set(), set()
    trans = traces = nviol = 0
    samples, viols, known, groups = [], [], {}, {}
    for res in results:
        states |= res['states']
        outcomes |= res['outcomes']
        trans += res['transitions']
        traces += res['traces']
        nviol += res['nviol']
        for k, v in res['known'].items():
            known.setdefault(k, v)
        for k, v in res['groups'].items():
            groups[k] = groups.get(k, 0) + v
        if len(samples) < 6 and res['samples']:
            samples.append(res['samples'][len(samples) % len(res['samples'])])
        for vv in res['violations']:
            viols.append((res['job'], vv))
    if broken is not None:
        nviol += 1
        viols.append((['setup', None], {'case': 'setup', 'what': broken,
                                        'got': '', 'want': ''}))

    for kid in sorted(known):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, kid, known[kid]))

    shown = 0
    for n, (job, vv) in enumerate(viols[:20]):
        path = os.path.join(rdir, '%s-%d.json' % (prop, n))
        if replay is None:
            with open(path, 'w') as fout:
                json.dump({'property': prop, 'tier': tier, 'job': job,
                           'violation': vv}, fout, indent=1, default=str)
        else:
            path = argv[2]
        if shown < 8:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  case %s' % json.dumps(vv['case'], default=str)[:700])
            print('  %s' % vv['what'][-1200:])
            if vv['got'] or vv['want']:
                print('  got  %s\n  want %s' % (vv['got'][:500],
                                              vv['want'][:500]))
            shown += 1
    wall = time.time() - t0
    if replay is None:
        cov = {'states': len(states), 'transitions': trans,
               'traces_validated_against_impl': traces,
               'distinct_outcomes': len(outcomes), 'jobs': len(jobs),
               'samples': samples or [{'case': 'none'}],
               'exhaustive': broken is None,
               'bound': getattr(_MOD, 'BOUND', {}).get(tier, '')
               if _MOD else '',
               'oracle': getattr(_MOD, 'ORACLE', '') if _MOD else '',
               'known_findings_seen': sorted(known)}
        if groups:
            cov['transitions_by_group'] = groups
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as fout:
            json.dump({'property': prop, 'tier': tier, 'seed': seed,
                       'level': 'model_checking', 'coverage': cov,
                       'assumptions': getattr(_MOD, 'ASSUMPTIONS', [])
                       if _MOD else [], 'wall_s': round(wall, 2),
                       'violations': nviol}, fout, indent=1, default=str)
    cpu = sorted(((r['cpu'], r['job']) for r in results), reverse=True,
                 key=lambda v: v[0])
    print('%s %s: %d states, %d transitions, %d traces compared, %d distinct '
          'outcomes, %d violations, %.1f s wall, %.1f s cpu%s'
          % (prop, tier, len(states), trans, traces, len(outcomes), nviol,
             wall, sum(c[0] for c in cpu),
             ', longest job %.1f s %s' % (cpu[0][0], str(cpu[0][1])[:120])
             if cpu else ''))
    if replay is not None:
        same = [v for _, v in viols if v['case'] ==
                replay['violation']['case']]
        print('replay: violation %s' % ('reproduced' if same else
                                        'not reproduced'))
        return 1 if same else 0
    # A run that explored nothing has not shown anything
    if not viols and traces == 0:
        print('VIOLATION property=%s replay=none' % prop)
        print('  no behaviour was explored')
        return 1
    return 1 if viols else 0
