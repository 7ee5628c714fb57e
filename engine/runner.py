"""Run the harnesses of one property: symbolic exploration, replay, evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


class Harness:
    """fn(env, *cfg) is run for each cfg of configs (a list, or a function of the tier).

    `bounds` describes the bounds; `stress(cfg)` is a concrete concurrency stress used to
    replay race counterexamples; tol is the relative tolerance of concrete comparisons.
    """
    def __init__(self, name, fn, configs, bounds='', stress=None, opts=None):
        self.name, self.fn, self._configs, self.bounds = name, fn, configs, bounds
        self.stress = stress
        self.opts = opts or {}

    def configs(self, tier):
        c = self._configs
        if callable(c):
            c = c(tier)
        return [tuple(x) if isinstance(x, (list, tuple)) else (x,) for x in c]


def load(pid):
    return importlib.import_module(f'checks.{pid}')


def jval(v):
    if isinstance(v, Fraction):
        return f'{v.numerator}/{v.denominator}'
    if isinstance(v, (bool, int, float, str)) or v is None:
        return v
    return str(v)


def unj(v):
    if isinstance(v, str) and '/' in v:
        try:
            return Fraction(v)
        except ValueError:
            return v
    return v


class ReplayTimeout(Exception):
    pass


# ------------------------------------------------------------------------ workers
_G = {}


def _init_symbolic():
    import pysimulators  # noqa  (the import brings the real build up to date)
    from . import shim, sym
    from .gimple import Program
    prog = Program()
    shim.install(prog, sym.Codec())
    from . import patches
    patches.install()
    _G['prog'] = prog


def _trace_python(funcs):
    """Record the Python functions of /repo executed (each code object once)."""
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, 'verif')
    except ValueError:
        return lambda: None

    def start(code, off):
        fn = code.co_filename
        if '/repo/src/' in fn:
            funcs.add(fn.split('/repo/src/')[1] + ':' + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
    mon.restart_events()

    def stop():
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)
    return stop


def _work(job):
    pid, hi, cfg, deadline, tier = job
    from . import explore as X
    from . import shim
    from .env import SymEnv
    mod = load(pid)
    h = mod.HARNESSES[hi]
    out = {'h': hi, 'cfg': cfg, 'error': None}
    shim.State.functions = set()
    shim.State.steps = 0
    pyf = set()
    stop = _trace_python(pyf)
    t = time.time()

    uf = h.opts.get('ufunc')
    if uf:
        from . import ufuncs
        ufuncs.install()

    def body(c, *a):
        env = SymEnv(c)
        if not uf:
            h.fn(env, *a)
            return
        ufuncs.start()
        try:
            h.fn(env, *a)
        finally:
            ufuncs.stop()
    try:
        o = dict(h.opts)
        o.pop('ufunc', None)
        res = X.explore(body, cfg=cfg, deadline=deadline, timeout_ms=o.pop('timeout_ms', 60000),
                        max_ces=o.pop('max_ces', 4), max_paths=o.pop('max_paths', 60000))
        out.update(stats=res.stats.as_dict(), completed=res.completed, notes=sorted(res.notes),
                   sample={k: jval(v) for k, v in (res.sample or {}).items()} if res.sample is not None else None,
                   ces=[(c.label, {k: jval(v) for k, v in c.values.items()}, c.detail,
                         [{k: jval(v) for k, v in w.items()} for w in getattr(c, 'alts', [])]) for c in res.ces])
    except X.EngineError as e:
        out['error'] = f'{type(e).__name__}: {e}'
        out['tb'] = traceback.format_exc()[-1500:]
    except BaseException as e:  # noqa
        out['error'] = f'internal {type(e).__name__}: {e}'
        out['tb'] = traceback.format_exc()[-1500:]
    finally:
        stop()
    out['functions'] = sorted(shim.State.functions)
    out['pyfunctions'] = sorted(pyf)
    out['steps'] = shim.State.steps
    out['wall'] = time.time() - t
    return out


def _worker(conn):
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            return
        conn.send(_work(job))


def _pool(jobs, nproc):
    """Yield the results as they come; a worker that dies makes its job an error."""
    from multiprocessing.connection import wait
    ctxm = mp.get_context('fork')
    jobs = list(jobs)[::-1]
    live = {}

    def spawn():
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=_worker, args=(b,), daemon=True)
        p.start()
        b.close()
        live[a] = [p, None, 0]
        feed(a)

    def feed(a):
        w = live[a]
        if not jobs or w[2] >= 40:
            w[0].kill()
            del live[a]
            a.close()
            w[0].join(10)
            if jobs:
                spawn()
            return
        w[1] = jobs.pop()
        w[2] += 1
        a.send(w[1])
    try:
        for _ in range(nproc):
            if jobs:
                spawn()
        while live:
            for a in wait(list(live)):
                w = live[a]
                try:
                    r = a.recv()
                except (EOFError, OSError):
                    w[0].join(5)
                    yield {'h': w[1][1], 'cfg': w[1][2], 'error': f'worker died ({w[0].exitcode})', 'functions': [],
                           'pyfunctions': [], 'steps': 0, 'wall': 0.0}
                    del live[a]
                    if jobs:
                        spawn()
                    continue
                feed(a)
                yield r
    finally:
        for a, w in live.items():
            w[0].kill()


# ------------------------------------------------------------------------ replay
def replay_main(path):
    """Concrete run on the real build.  Exit 1 when a listed case violates the property."""
    with open(path) as f:
        job = json.load(f)
    from .env import ConEnv, Violated
    from .explore_lite import PathAbort
    mod = load(job['property'])
    results = []
    kind = job['cases'][0].get('debuglib') if job['cases'] else None
    if kind and os.environ.get('VERIF_DEBUGLIB') != kind:
        from . import debuglib
        debuglib.build(kind)
        os.execve(PY, [PY, os.path.join(VERIF, 'check.py'), '--replay', path],
                  dict(os.environ, VERIF_PY='1', **debuglib.environment(kind)))
    if kind:
        from . import debuglib
        debuglib.install(kind)
    for case in job['cases']:
        h = mod.HARNESSES[case['h']]
        values = {k: unj(v) for k, v in case['values'].items()}
        env = ConEnv(values)
        case['cfg'] = _tup(case['cfg'])
        print(f'CASE {len(results)}', flush=True)
        try:
            if case.get('label') == 'race':
                if h.stress is None:
                    r = 'no stress test for this race'
                else:
                    bad = h.stress(*case['cfg'])
                    r = f'VIOLATED race: {bad}' if bad else 'ok'
            else:
                h.fn(env, *case['cfg'])
                r = f'ok {env.nchecks}'
        except Violated as e:
            r = f'VIOLATED {e}'
        except PathAbort:
            r = 'outside the assumptions'
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            r = f'VIOLATED exception {type(e).__name__}: {e} at {tb.filename}:{tb.lineno}'
        print(f'RESULT {len(results)} {r}', flush=True)
        results.append(r)
    return 1 if any(r.startswith('VIOLATED') for r in results) else 0


def _tup(x):
    return tuple(_tup(v) for v in x) if isinstance(x, (list, tuple)) else x


def run_replay(pid, cases, path, timeout=240, threads=4, extra=None):
    with open(path, 'w') as f:
        json.dump({'property': pid, 'cases': cases}, f, indent=1, default=str)
    env = dict(os.environ, OMP_NUM_THREADS=str(threads), VERIF_REPLAY='1', **(extra or {}))
    try:
        r = subprocess.run([PY, os.path.join(VERIF, 'check.py'), '--replay', path], capture_output=True,
                           text=True, timeout=timeout, env=env, cwd=VERIF)
        out, rc = r.stdout, r.returncode
        err = r.stderr
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or '')
        rc, err = 'timeout', ''
    res = {}
    started = -1
    for l in out.splitlines():
        if l.startswith('CASE '):
            started = int(l.split()[1])
        if l.startswith('RESULT '):
            _, i, r = l.split(' ', 2)
            res[int(i)] = r
    # an abnormal end (crash, corrupted heap) during a case is a violation of that case
    if rc not in (0, 1) and started >= 0 and started not in res:
        res[started] = f'VIOLATED process ended with {rc} {err[-300:]}'
    return [res.get(i, f'no result (rc={rc}) {err[-500:]}') for i in range(len(cases))]


# ------------------------------------------------------------------------ main
def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: ') and f'property={pid} ' in l:
                d = dict(x.split('=', 1) for x in l[7:].split(' | ')[0].split() if '=' in x)
                d['what'] = l.split(' | ', 1)[1].strip()
                out.append(d)
    return out


def match_known(kf, h, label):
    for d in kf:
        if d.get('harness') == h and (d.get('label') is None or label.startswith(d['label'])):
            return d
    return None


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    sys.path.insert(0, VERIF)
    os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
    budget = float(os.environ.get('VERIF_BUDGET', '780' if tier == 'quick' else '3000'))
    deadline = t0 + budget
    mod = load(pid)
    _init_symbolic()
    jobs = []
    for hi, h in enumerate(mod.HARNESSES):
        for cfg in h.configs(tier):
            jobs.append((pid, hi, cfg, deadline, tier))
    only = os.environ.get('VERIF_ONLY')          # (development: a subset of the configurations)
    if only:
        jobs = [j for j in jobs if only in f'{mod.HARNESSES[j[1]].name}{j[2]}']
    random.Random(seed).shuffle(jobs)
    jobs.sort(key=lambda j: -mod.HARNESSES[j[1]].opts.get('cost', 0))
    nproc = int(os.environ.get('VERIF_PROCS', '8'))
    # counterexamples are replayed on the real build as they come; the first confirmed one that
    # is not a listed finding ends the run
    violations, unconfirmed, known = [], [], {}
    kf = known_findings(pid)
    seen = {}
    races = []
    nrep = [0]

    def replay(r, ce):
        h = mod.HARNESSES[r['h']]
        path = os.path.join(VERIF, 'evidence', f'replay-{pid}-{nrep[0]}.json')
        nrep[0] += 1
        cases = [{'h': r['h'], 'harness': h.name, 'cfg': r['cfg'], 'label': ce[0], 'detail': ce[2], 'values': v}
                 for v in [ce[1]] + ce[3]]
        res = run_replay(pid, cases, path)
        bad = [x for x in res if x.startswith('VIOLATED')]
        if not bad:
            # second chance: the same sources without optimisation, then with AddressSanitizer
            from . import debuglib
            for kind in ('plain', 'asan') if ce[0] == 'race' else ('asan',) if any(
                    k in ce[0] for k in ('out-of-bounds', 'undefined', 'overflow', 'free', 'NaN or')) else ():
                debuglib.build(kind)
                for c in cases:
                    c['debuglib'] = kind
                res = run_replay(pid, cases, path, extra=debuglib.environment(kind))
                bad = [f'{x} (unoptimised build, {kind})' for x in res if x.startswith('VIOLATED')]
                if bad:
                    break
        if not bad:
            unconfirmed.append((h.name, r['cfg'], ce, res))
            return
        d = match_known(kf, h.name, ce[0])
        if d is not None:
            known[d['what']] = True
        else:
            violations.append((path, h.name, r['cfg'], ce, bad[0]))

    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    results = []
    for r in _pool(jobs, min(nproc, max(1, len(jobs)))):
        results.append(r)
        vv = os.environ.get('VERIF_VERBOSE')
        if vv and (vv == '2' or r['error'] or r.get('ces')):
            st = r.get('stats') or {}
            print(f"  {mod.HARNESSES[r['h']].name}{r['cfg']}: paths={st.get('paths')} q={st.get('queries')} "
                  f"wall={r['wall']:.1f} ces={[c[:1] + c[2:3] for c in r.get('ces', [])]} {r['error'] or ''} "
                  f"{r.get('tb', '') if r['error'] else ''}", flush=True)
        for ce in r.get('ces', []):
            key = (r['h'], ce[0])
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > 3 or violations:
                continue
            if ce[0] == 'race':
                races.append((r, ce))
            elif nrep[0] < 24:
                replay(r, ce)
        if violations:
            break
    for r, ce in races[:4]:
        if violations or time.time() > t0 + 840 and tier == 'quick':
            break
        replay(r, ce)
    errors = [r for r in results if r['error']]
    # vacuity: every harness configuration must reach its end and discharge obligations
    vac = [r for r in results if not r['error'] and not r['ces'] and (not r['completed'] or r['sample'] is None
                                                                    or not r['stats']['checks'])]
    ntotal_ces = sum(len(r.get('ces', [])) for r in results)
    # differential validation of the encoding: path witnesses run on the real build
    validated = 0
    wrong = []
    ok = [r for r in results if not r['error'] and r['sample'] is not None and not r['ces']]
    random.Random(seed).shuffle(ok)
    samples = ok[:getattr(mod, 'VALIDATE', 60)]
    if samples and not violations:
        path = os.path.join(VERIF, 'evidence', f'samples-{pid}.json')
        cases = [{'h': r['h'], 'cfg': r['cfg'], 'values': r['sample']} for r in samples]
        res = run_replay(pid, cases, path, timeout=200)
        for r, x in zip(samples, res):
            if x.startswith('ok'):
                validated += 1
            elif not x.startswith('outside'):
                wrong.append((mod.HARNESSES[r['h']].name, r['cfg'], r['sample'], x))
    if os.environ.get('VERIF_PROFILE'):
        tot = {}
        for r in results:
            k = (mod.HARNESSES[r['h']].name, str(r['cfg'][0]) if r['cfg'] else '')
            t = tot.setdefault(k, [0, 0.0, 0.0])
            t[0] += 1
            t[1] += r['wall']
            t[2] = max(t[2], r['wall'])
        for k, t in sorted(tot.items(), key=lambda x: -x[1][1])[:25]:
            print(f'    {k}: {t[0]} configs, {t[1]:.0f}s cpu, max {t[2]:.1f}s')
        for r in sorted(results, key=lambda r: -r['wall'])[:6]:
            print(f"    slowest: {r['wall']:.1f}s {mod.HARNESSES[r['h']].name}{r['cfg']}")
    stats = {}
    for r in results:
        for k, v in (r.get('stats') or {}).items():
            stats[k] = stats.get(k, 0) + v
    level = getattr(mod, 'LEVEL', 'model_checking')
    wall = time.time() - t0
    funcs = sorted({f for r in results for f in r['functions']})
    pyf = sorted({f for r in results for f in r['pyfunctions']})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'wall_s': round(wall, 2),
        'violations': len(violations),
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'coverage': {
            'states': stats.get('paths', 0),
            'transitions': sum(r['steps'] for r in results) + stats.get('queries', 0),
            'traces_validated_against_impl': validated,
            'samples': [{'harness': mod.HARNESSES[r['h']].name, 'cfg': list(map(str, r['cfg'])), 'witness': r['sample']}
                        for r in ok[:6]],
            'explanation': 'states = symbolic paths; transitions = IR statements interpreted symbolically plus '
                           'solver-decided branches; every path ends in solver-discharged assertions',
            'queries': stats.get('queries', 0), 'unsat': stats.get('unsat', 0), 'sat': stats.get('sat', 0),
            'solver_s': round(stats.get('solver_s', 0.0), 2),
            'assertions': stats.get('checks', 0), 'assertions_decided_by_solver': stats.get('checks_solver', 0),
            'configurations': len(jobs), 'completed_paths': sum(r.get('completed', 0) for r in results),
            'functions_encoded_fortran': funcs, 'functions_executed_python': pyf,
            'bounds': {h.name: h.bounds for h in mod.HARNESSES},
            'vacuity_witnesses': len(ok),
            'inconclusive': len(errors), 'counterexamples_found': ntotal_ces,
        },
    }
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid} [{tier}]: {len(jobs)} configurations, {stats.get('paths', 0)} paths, {stats.get('queries', 0)} queries, "
          f"{stats.get('checks', 0)} assertions, {validated} witnesses replayed, {wall:.1f}s")
    for w in known:
        print(f'KNOWN-FINDING: property={pid} {w}')
    if violations:
        for path, hn, cfg, ce, why in violations:
            print(f'  {hn}{cfg}: {ce[0]} {ce[2]} values={ce[1]}\n  replay: {why}')
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    rc = 0
    for r in errors:
        print(f"INCONCLUSIVE {mod.HARNESSES[r['h']].name}{r['cfg']}: {r['error']}\n{r.get('tb', '')}")
        rc = 2
    for hn, cfg, ce, res in unconfirmed:
        print(f'UNCONFIRMED counterexample {hn}{cfg}: {ce[0]} {ce[2]} {ce[1]}\n   {res}')
        rc = 2
    for hn, cfg, s, x in wrong:
        print(f'ENCODING MISMATCH {hn}{cfg}: {s}\n   {x}')
        rc = 2
    for r in vac:
        print(f"VACUOUS {mod.HARNESSES[r['h']].name}{r['cfg']}")
        rc = 2
    return rc
