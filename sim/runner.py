"""Batch runner: seeded runs on worker processes, minimisation, replay files, evidence."""
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import resource
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

from . import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
ORACLE_DIRS = (os.path.join(HERE, 'sim', 'props'), os.path.join(HERE, 'sim', 'oracle'), os.path.join(HERE, 'sim'))
CTX = mp.get_context('fork')
CPU_BUDGET = 12.0          # seconds of CPU time per simulated run (ordinary runs need well under one)
MEM_BUDGET = 6 << 30       # address space per worker
WALL_CAP = {'quick': 840.0, 'thorough': 6 * 3600.0}


def load(prop):
    return importlib.import_module('sim.props.%s' % prop.lower())


def _on_cpu(sig, frame):
    raise core.CpuBudgetExceeded('more than %g s of CPU time in one run' % CPU_BUDGET)


def run_one(mod, scenario, keep_events=False):
    """Execute one scenario. Returns (ctx, violation or None); violation is (kind, detail)."""
    ctx = core.Ctx(keep_events, getattr(mod, 'STEP_BUDGET', 250000))
    signal.signal(signal.SIGPROF, _on_cpu)
    signal.setitimer(signal.ITIMER_PROF, CPU_BUDGET, 1.0)
    v = None
    try:
        try:
            mod.execute(scenario, ctx)
            ctx.check_no_writes()
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except core.Violation as e:
        v = (e.kind, e.detail)
    except core.StepBudgetExceeded as e:
        v = ('no-progress', str(e))
    except core.CpuBudgetExceeded as e:
        v = ('no-progress', str(e))
    except MemoryError:
        v = ('no-progress', 'memory use grew without bound')
    except RecursionError:
        v = ('no-progress', 'unbounded recursion')
    except core.HarnessError:
        raise
    except Exception as e:
        # An exception the oracle did not expect: a violation when it was raised by the code under test.
        tb = traceback.extract_tb(e.__traceback__)
        mine = os.path.join(HERE, 'sim') + os.sep
        root = os.path.abspath(REPO) + os.sep
        outer = None
        for fr in reversed(tb):
            if fr.filename.startswith(root):
                outer = fr
                break
            if fr.filename.startswith(mine) and not fr.filename.endswith('core.py'):
                break
        if outer is None:
            # The oracle could not even interpret what the code under test returned (a None, a wrong type, a missing item).
            if isinstance(e, (TypeError, AttributeError, LookupError, ValueError)) and tb and os.path.dirname(tb[-1].filename) in ORACLE_DIRS and os.path.basename(tb[-1].filename) not in ('core.py', 'runner.py'):
                v = ('malformed-result', '%s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno))
            else:
                raise
        else:
            v = ('unhandled-' + type(e).__name__, '%s: %s (in %s, %s)' % (type(e).__name__, e, os.path.basename(outer.filename), outer.name))
    if v is not None:
        ctx.ev('violation', v[0])
    return ctx, v


def worker_init():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_BUDGET, MEM_BUDGET))
    except (ValueError, OSError):
        pass
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _child(conn, fn, args):
    worker_init()
    try:
        conn.send(('ok', fn(*args)))
    except BaseException:
        conn.send(('error', traceback.format_exc()))
    conn.close()
    os._exit(0)


def spawn(fn, *args):
    """Start fn(*args) in a forked process: no run sees what the code under test kept from a run of another batch."""
    a, b = mp.Pipe(False)
    sys.stdout.flush()
    p = CTX.Process(target=_child, args=(b, fn, args))
    p.start()
    b.close()
    return p, a


def collect(p, conn):
    try:
        r = conn.recv()
    except EOFError:
        r = ('error', 'a worker process died')
    conn.close()
    p.join()
    return r


def isolated(fn, *args):
    st, r = collect(*spawn(fn, *args))
    if st == 'error':
        raise RuntimeError(r)
    return r


def run_seq(prop, scenarios, keep_events=False):
    """Run scenarios one after another in this process; stops at the first violation. Returns (violation, digest, n_events, events)."""
    mod = load(prop)
    v = None
    dg = core.hashlib.sha1()
    ctx = None
    for sc in scenarios:
        ctx, v = run_one(mod, sc, keep_events)
        dg.update(ctx.digest().encode())
        if v is not None:
            break
    return v, (dg.hexdigest() if len(scenarios) > 1 else ctx.digest()), ctx.n_events, ctx.events


def run_batch(prop, seed, tier, start, stop):
    mod = load(prop)
    out = []
    for i in range(start, stop):
        rng = core.rng_for(seed, prop, i)
        try:
            scenario = mod.generate(rng, tier)
            ctx, v = run_one(mod, scenario)
        except Exception:
            return {'error': 'run %d of seed %d: %s' % (i, seed, traceback.format_exc()), 'out': out}
        out.append((i, v, dict(ctx.faults), dict(ctx.probes), ctx.states, ctx.evaluations, ctx.sim_time, ctx.digest(),
                    ctx.n_events, ctx.nontrivial, ctx.sample if i < 40 else None, ctx.steps))
        if v is not None:
            break
    return {'error': None, 'out': out}


def get_list(sc, path):
    cur = sc
    for p in path.split('.'):
        if not isinstance(cur, dict) or p not in cur:
            return None
        cur = cur[p]
    return cur if isinstance(cur, list) else None


def set_list(sc, path, val):
    sc = json.loads(json.dumps(sc))
    cur = sc
    parts = path.split('.')
    for p in parts[:-1]:
        cur = cur[p]
    cur[parts[-1]] = val
    return sc


def minimise(prop, mod, scenario, kind, deadline):
    """ddmin over every list the module names in SHRINK, then the module's own simplifications."""
    tried = 0

    def fails(sc):
        nonlocal tried
        tried += 1
        try:
            v = isolated(run_seq, prop, [sc])[0]
        except Exception:
            return False
        return v is not None and v[0] == kind

    cur = scenario
    changed = True
    while changed and time.monotonic() < deadline:
        changed = False
        for path in getattr(mod, 'SHRINK', ['ops', 'faults']):
            lst = get_list(cur, path)
            if not lst:
                continue
            n = 2
            while lst and time.monotonic() < deadline:
                size = max(1, len(lst) // n)
                cut = False
                i = 0
                while i < len(lst) and time.monotonic() < deadline:
                    cand_list = lst[:i] + lst[i + size:]
                    cand = set_list(cur, path, cand_list)
                    if fails(cand):
                        cur, lst, cut, changed = cand, cand_list, True, True
                    else:
                        i += size
                if not cut:
                    if size == 1:
                        break
                    n = min(len(lst), n * 2)
        simp = getattr(mod, 'simplify', None)
        if simp is not None:
            for cand in simp(cur):
                if time.monotonic() > deadline:
                    break
                if fails(cand):
                    cur = cand
                    changed = True
                    break
    return cur, tried


def known_findings(prop):
    """Entries of KNOWN_FINDINGS.txt. "fixed:" lines are records only; "known:" lines name the failing scenario:
    known: property=<id> kind=<violation kind> scenario=<file under /verif> <what fails>"""
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                w = line.strip().split(' ', 4)
                if len(w) == 5 and w[0] == 'known:' and w[1] == 'property=' + prop:
                    with open(os.path.join(HERE, w[3].split('=', 1)[1])) as g:
                        out.append({'kind': w[2].split('=', 1)[1], 'scenario': json.load(g), 'what': w[4]})
    return out


def replay(prop, path, verbose=True):
    mod = load(prop)
    with open(path) as f:
        rec = json.load(f)
    v, digest, n_events, trace = run_seq(prop, rec['scenarios'] if 'scenarios' in rec else [rec['scenario']], True)
    # A run cut by a budget is cut at a point that may depend on the speed of the machine: its digest is not compared.
    same = v is not None and v[0] == rec['violation']['kind'] and (digest == rec['digest'] or v[0] == 'no-progress')
    if verbose:
        for e in trace[-200:]:
            print('  ' + e)
        print('replay: %s, events=%d digest=%s (recorded %s)' % (v, n_events, digest, rec['digest']))
    return v, digest, same


def verify(prop, path):
    r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), prop, '--replay', path, '--verify'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        print(r.stdout.decode('utf-8', 'replace')[-2000:])
    return r.returncode == 0


def report(prop, mod, seed, tier, start, i, kind):
    """Minimise the violation of run i (of a batch that began with run start), write its replay file, confirm it in a fresh process."""
    scenario = json.loads(json.dumps(mod.generate(core.rng_for(seed, prop, i), tier)))
    deadline = time.monotonic() + 45
    cands = []
    v = isolated(run_seq, prop, [scenario])[0]
    tried = 0
    if v is not None:
        small, tried = minimise(prop, mod, scenario, v[0], deadline)
        cands = [[small], [scenario]]
    else:
        # The code under test carries something over from one run to the next: the replay is the shortest sequence of runs that shows it.
        seq = [json.loads(json.dumps(mod.generate(core.rng_for(seed, prop, j), tier))) for j in range(start, i + 1)]
        cands = [seq]
        cur = seq
        for j in range(len(seq) - 1):
            if time.monotonic() > deadline:
                break
            x = [seq[j], seq[-1]]
            tried += 1
            v = isolated(run_seq, prop, x)[0]
            if v is not None and v[0] == kind:
                cands.insert(0, x)
                break
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-seed%d-run%d.json' % (prop, seed, i))
    for cand in cands:
        v2, digest, _, trace = isolated(run_seq, prop, cand, True)
        if v2 is None:
            continue
        rec = {'property': prop, 'seed': seed, 'run': i, 'violation': {'kind': v2[0], 'detail': v2[1]}, 'digest': digest, 'trace': trace[-400:], 'minimise_runs': tried}
        if len(cand) == 1:
            rec['scenario'] = cand[0]
        else:
            rec['scenarios'] = cand
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1, default=str)
        if verify(prop, path):
            return path, v2
    return None


def main_check(prop, tier, seed, runs=None, workers=None, quiet=False, no_evidence=False):
    t0 = time.monotonic()
    mod = load(prop)
    workers = workers or int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    n = runs or mod.RUNS[tier]
    batch = max(1, min(getattr(mod, 'BATCH', 50), (n + workers - 1) // workers))
    agg_f, agg_p = Counter(), Counter()
    states, digests, nontriv = set(), set(), set()
    evals = events = steps = max_steps = 0
    sim_time = 0
    done = 0
    samples = []
    bad = []
    chain = core.hashlib.sha256()
    error = None
    cap = WALL_CAP[tier]
    per_run = {}
    todo = [(i, min(i + batch, n)) for i in range(0, n, batch)]
    todo.reverse()
    live = {}
    stop = False
    starts = {}
    while todo or live:
        while todo and len(live) < workers and not stop:
            a, b = todo.pop()
            p, conn = spawn(run_batch, prop, seed, tier, a, b)
            live[conn] = (p, a)
        if not live:
            break
        for conn in mp.connection.wait(list(live), timeout=5):
            p, a = live.pop(conn)
            st, r = collect(p, conn)
            if st == 'error':
                r = {'error': r, 'out': []}
            if r['error']:
                error = error or r['error']
                stop = True
            for item in r['out']:
                per_run[item[0]] = item
                if item[1] is not None:
                    bad.append(item)
                    starts[item[0]] = a
                    stop = True
        if time.monotonic() - t0 > cap:
            error = error or 'wall-clock cap of %g s reached' % cap
            for p, a in live.values():
                p.kill()
            break
    for i in sorted(per_run):
        (_, v, f, p, st, ev, sm, dg, ne, nt, sample, sp) = per_run[i]
        agg_f.update(f)
        agg_p.update(p)
        states |= st
        evals += ev
        events += ne
        steps += sp
        max_steps = max(max_steps, sp)
        sim_time += sm
        done += 1
        digests.add(dg)
        chain.update(dg.encode())
        if nt:
            nontriv.add(dg)
        if sample is not None and len(samples) < 3:
            samples.append(sample)
    wall = time.monotonic() - t0
    kf_lines = []
    rc = 0
    vio = 0
    vline = None
    if bad:
        bad.sort(key=lambda x: x[0])
        for item in bad[:3]:
            i, v = item[0], item[1]
            vline = report(prop, mod, seed, tier, starts[i], i, v[0])
            if vline is not None:
                break
        if vline is None:
            error = error or 'violation %r of run %d (seed %d) did not replay in a fresh process' % (v, i, seed)
        else:
            rc = 1
            vio = 1
    # Findings recorded as known: still fail in the way recorded?
    if rc == 0 and not error:
        for k in known_findings(prop):
            v2, kd, _, _ = isolated(run_seq, prop, [k['scenario']])
            if v2 is not None and v2[0] == k['kind']:
                kf_lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            elif v2 is not None:
                rc, vio = 1, 1
                d = os.path.join(HERE, 'replays')
                os.makedirs(d, exist_ok=True)
                path = os.path.join(d, '%s-known.json' % prop)
                with open(path, 'w') as f:
                    json.dump({'property': prop, 'seed': seed, 'run': -1, 'violation': {'kind': v2[0], 'detail': v2[1]},
                               'digest': kd, 'scenario': k['scenario']}, f)
                vline = (path, v2)
    hours = max(wall, 1e-6) / 3600.0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'wall_s': round(wall, 2), 'violations': vio,
        'coverage': {
            'evaluations': done,
            'distinct_nontrivial': len(nontriv),
            'rule': mod.RULE,
            'samples': samples,
            'oracle_evaluations': evals,
            'simulated_runs_per_hour': int(done / hours),
            'seeds_per_hour': int(done / hours),
            'distinct_histories': len(digests),
            'distinct_states': len(states),
            'state_measure': mod.STATE_MEASURE,
            'simulated_events': events,
            'simulated_steps': steps,
            'most_steps_in_one_run': max_steps,
            'simulated_time_s': int(sim_time // 10000000),
            'faults_injected': dict(sorted(agg_f.items())),
            'probes': dict(sorted(agg_p.items())),
            'real_components': mod.REAL,
            'stubbed_components': mod.STUB,
            'batch_digest': chain.hexdigest(),
            'workers': workers,
        },
        'assumptions': mod.ASSUMPTIONS,
    }
    if error:
        ev['coverage']['harness_error'] = error[:2000]
    if not no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
    if not quiet:
        print('%s tier=%s seed=%d runs=%d distinct=%d states=%d oracle=%d wall=%.1fs digest=%s' % (
            prop, tier, seed, done, len(digests), len(states), evals, wall, chain.hexdigest()[:16]))
        print('faults: ' + ', '.join('%s=%d' % kv for kv in sorted(agg_f.items())))
        print('probes: ' + ', '.join('%s=%d' % kv for kv in sorted(agg_p.items())))
    must = getattr(mod, 'MUST_HIT', ())
    if rc == 0 and not error and done >= mod.RUNS['quick']:
        zero = [m for m in must if not (agg_p.get(m) or agg_f.get(m))]
        if zero:
            print('WARNING: probes at zero: %s' % ', '.join(zero))
    for line in kf_lines:
        print(line)
    if rc == 1:
        path, v2 = vline
        print('violation: %s: %s' % v2)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if error:
        print('HARNESS-ERROR: %s' % error)
        return 2
    return 0
