"""
Seeded search over scenarios: runs many, in parallel worker interpreters,
minimises and reports the first violation of each class, writes evidence.
"""
import copy
import json
import os
import queue
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable
NW = 8
CASE_TIMEOUT = float(os.environ.get('VSIM_CASE_TIMEOUT', 100))


def worker_env(hashseed):
    env = dict(os.environ)
    env.update({
        'PYTHONHASHSEED': str(hashseed), 'MPLBACKEND': 'Agg',
        'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
        'MKL_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1',
        'TQDM_DISABLE': '1', 'PYTHONPATH': os.pathsep.join(
            [VERIF] + [d for d in [os.environ.get('VSIM_SRC')] if d])})
    return env


class Worker:
    def __init__(self, hashseed):
        self.hashseed = hashseed
        self.p = None

    def start(self):
        self.p = subprocess.Popen(
            [PY, '-m', 'sim.case'], cwd=VERIF, stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, text=True,
            env=worker_env(self.hashseed), start_new_session=True,
            stderr=None if os.environ.get('VSIM_DEBUG')
            else subprocess.DEVNULL)
        self.q = queue.Queue()
        p, q = self.p, self.q

        def pump():
            for line in p.stdout:
                q.put(line)
            q.put(None)
        threading.Thread(target=pump, daemon=True).start()

    def call(self, req, timeout=CASE_TIMEOUT):
        if self.p is None or self.p.poll() is not None:
            self.start()
            timeout += 60
        try:
            self.p.stdin.write(json.dumps(req) + '\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            self.kill()
            return {'died': True}
        try:
            line = self.q.get(timeout=timeout)
        except queue.Empty:
            self.kill()
            return {'hang': True}
        if line is None:
            self.kill()
            return {'died': True}
        return json.loads(line)

    def kill(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, 9)
            except Exception:
                pass
            self.p.wait()
            base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
            import shutil
            shutil.rmtree(os.path.join(base, 'vsim-%d' % self.p.pid),
                          ignore_errors=True)
            self.p = None

    def close(self):
        if self.p is not None and self.p.poll() is None:
            try:
                self.p.stdin.write('{"quit": true}\n')
                self.p.stdin.flush()
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                pass
        self.kill()


def hashseed_of(seed):
    return seed % NW


def add(d, e):
    for k, v in e.items():
        if isinstance(v, dict):
            add(d.setdefault(k, {}), v)
        else:
            d[k] = d.get(k, 0) + v


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def match_known(mod_id, v, known):
    for k in known:
        if k.get('status') != 'known' or k['property'] != mod_id:
            continue
        if k['kind'] == v['kind'] and k.get('contains', '') in v['msg']:
            return k
    return None


def classes(res, prop, known):
    out = []
    for v in res.get('violations', []):
        if match_known(prop, v, known) is None:
            out.append(v['kind'])
    return out


def run_one(prop, scenario, timeout=CASE_TIMEOUT, log=False, w=None):
    own = w is None
    if own:
        w = Worker(hashseed_of(scenario.get('seed', 0)))
    try:
        r = w.call({'prop': prop, 'scenario': scenario, 'log': log}, timeout)
    finally:
        if own:
            w.close()
    if r.get('hang'):
        r = {'violations': [{'kind': 'hang', 'msg':
             'no progress: the run did not finish within %ds (typical run: '
             'about a second)' % timeout}], 'error': None,
             'scenario': scenario, 'stats': {}, 'choices': []}
    return r


def generic_shrinks(sc):
    """Property independent reductions: faults, ranks, schedule, lists."""
    if sc.get('faults'):
        for i in range(len(sc['faults'])):
            s = copy.deepcopy(sc)
            del s['faults'][i]
            yield s
    if sc.get('choices'):
        ch = sc['choices']
        s = copy.deepcopy(sc)
        s['choices'] = []
        yield s
        n = len(ch)
        while n > 1:
            n //= 2
            s = copy.deepcopy(sc)
            s['choices'] = ch[:n]
            yield s
            for lo in range(0, len(ch), max(n, 1)):
                if any(ch[lo:lo + n]):
                    s = copy.deepcopy(sc)
                    s['choices'] = ch[:lo] + [0] * len(
                        ch[lo:lo + n]) + ch[lo + n:]
                    yield s
            if n < 4:
                break
    elif 'choices' not in sc:
        s = copy.deepcopy(sc)
        s['choices'] = []
        yield s
    for k in ('ranks', 'ranks2'):
        if sc.get(k, 1) > 1:
            for n in sorted({1, 2, sc[k] - 1}):
                if n < sc[k]:
                    s = copy.deepcopy(sc)
                    s[k] = n
                    yield s
    for k in ('ops', 'windows', 'gaps'):
        v = sc.get(k)
        if isinstance(v, list) and v:
            n = len(v)
            step = n
            while step >= 1:
                for lo in range(0, n, step):
                    s = copy.deepcopy(sc)
                    del s[k][lo:lo + step]
                    if s[k] or k != 'ops':
                        yield s
                if step == 1:
                    break
                step //= 2


def minimise(prop, mod, sc, kind, known, budget_s, log):
    best = copy.deepcopy(sc)
    t0 = time.time()
    tried = 0
    w = Worker(hashseed_of(sc.get('seed', 0)))
    seen = set()
    progress = True
    try:
        while progress and time.time() - t0 < budget_s:
            progress = False
            gens = []
            if hasattr(mod, 'shrink'):
                gens.append(mod.shrink(best))
            gens.append(generic_shrinks(best))
            for g in gens:
                for cand in g:
                    if time.time() - t0 > budget_s:
                        break
                    key = json.dumps(cand, sort_keys=True)
                    if key in seen:
                        continue
                    seen.add(key)
                    tried += 1
                    r = run_one(prop, cand, w=w, timeout=40)
                    if kind in classes(r, prop, known):
                        best = cand
                        progress = True
                        break
                if progress:
                    break
    finally:
        w.close()
    log('minimised with %d runs in %.1fs' % (tried, time.time() - t0))
    return best


def main(prop, tier, seed0, nruns=None, wall=None, out=sys.stdout,
         do_min=True):
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    sys.path.insert(0, VERIF)
    import importlib
    mod = importlib.import_module('checks.%s' % prop.lower())
    n = nruns or mod.RUNS[tier]
    wall = wall or (240 if tier == 'quick' else 1500)
    known = known_findings()

    def log(*a):
        print('[%s]' % prop, *a, file=out, flush=True)
    log('VERIF_SEED=%d tier=%s runs=%d' % (seed0, tier, n))
    agg = {'stats': {}, 'probes': {}}
    keys = set()
    scheds = set()
    samples = []
    found = {}       # kind -> (scenario, violation)
    knownhit = {}
    errors = []
    done = [0]
    nontriv = [0]
    lock = threading.Lock()
    stop = threading.Event()
    digests = {}
    fault_runs = [0]

    base = seed0 * 1000003

    def loop(wi):
        w = Worker(wi)
        try:
            for i in range(n):
                s = base + i
                if hashseed_of(s) != wi:
                    continue
                if stop.is_set() or time.time() - t0 > wall:
                    break
                r = w.call({'prop': prop, 'seed': s, 'tier': tier, 'id': i})
                with lock:
                    if r.get('hang') or r.get('died'):
                        # confirm alone, in a fresh interpreter
                        sc = mod.gen(s, tier)
                        sc.setdefault('seed', s)
                        r = run_one(prop, sc, timeout=200)
                        r.setdefault('scenario', sc)
                        if r.get('died'):
                            errors.append('worker died on seed %d' % s)
                            stop.set()
                            break
                    done[0] += 1
                    if r.get('error'):
                        errors.append('seed %d: %s' % (s, r['error']))
                        if len(errors) > 3:
                            stop.set()
                        continue
                    add(agg, {'stats': r.get('stats', {}),
                              'probes': r.get('probes', {})})
                    if r.get('stats', {}).get('fired'):
                        fault_runs[0] += 1
                    digests[s] = r.get('digest')
                    if r.get('nontrivial'):
                        nontriv[0] += 1
                        keys.update(r['keys'])
                    scheds.update(r.get('scheds', []))
                    if len(samples) < 3 and r.get('nontrivial'):
                        samples.append({
                            'scenario': r['scenario'],
                            'digest': r['digest'][:16],
                            'faults_fired': r['stats']['fired'],
                            'probes': r['probes']})
                    for v in r['violations']:
                        k = match_known(prop, v, known)
                        if k is not None:
                            knownhit.setdefault(k['id'], k)
                            continue
                        if v['kind'] not in found:
                            sc = r['scenario']
                            ch = r.get('choices') or []
                            found[v['kind']] = (sc, v, ch)
                    if found and tier == 'quick':
                        stop.set()
        finally:
            w.close()
    def witnesses():
        # every known finding is shown by its own recorded history
        for k in known:
            if k['property'] != prop or k.get('status') != 'known':
                continue
            with open(os.path.join(VERIF, k['witness'])) as f:
                sc = json.load(f)
            r = run_one(prop, sc)
            if r.get('error'):
                errors.append('witness of %s: %s' % (k['id'], r['error']))
            for v in r.get('violations', []):
                kk = match_known(prop, v, known)
                if kk is not None:
                    knownhit.setdefault(kk['id'], kk)
                else:
                    found.setdefault(v['kind'], (sc, v, r.get('choices')))
            if k['id'] not in knownhit:
                log('known finding %s does not show any more' % k['id'])
    ths = [threading.Thread(target=loop, args=(i,)) for i in range(NW)]
    witnesses()
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    search_wall = time.time() - t0
    # determinism self check: fresh interpreters, same seeds
    det = {'checked': 0, 'diverged': []}
    if not found and not errors:
        pick = sorted(digests)[:8 if tier == 'quick' else 64:2]
        ws = {}
        for s in pick:
            sc = mod.gen(s, tier)
            sc.setdefault('seed', s)
            w = ws.setdefault(hashseed_of(s), Worker(hashseed_of(s)))
            r = run_one(prop, sc, w=w)
            det['checked'] += 1
            if r.get('digest') != digests[s]:
                det['diverged'].append(s)
        for w in ws.values():
            w.close()
    replays = []
    for kind, (sc, v, ch) in sorted(found.items()):
        log('violation class %s at seed %s: %s' % (
            kind, sc.get('seed'), v['msg'][:400]))
        best = sc
        if do_min and kind != 'hang' and len(replays) < 2:
            # make the schedule explicit so that it can be shrunk
            best = minimise(prop, mod, sc, kind, known,
                            45 if tier == 'quick' else 240, log)
        r = run_one(prop, best, timeout=200, log=True)
        vs = [x for x in r.get('violations', []) if x['kind'] == kind]
        path = os.path.join(VERIF, 'replays', '%s-%s-%s.json' % (
            prop, kind.replace(':', '_').replace(' ', '_').replace(
                '/', '_'), sc.get('seed')))
        with open(path, 'w') as f:
            json.dump({
                'property': prop, 'kind': kind, 'scenario': best,
                'original_scenario': sc, 'violation': (vs or [v])[0],
                'digest': r.get('digest'), 'choices': r.get('choices'),
                'trace': [lg[-400:] for lg in (r.get('log') or [])],
                'reproduced': bool(vs)}, f, indent=1, default=str)
        replays.append((kind, path))
    runs_h = done[0] / max(search_wall, 1e-6) * 3600
    st = agg['stats']
    ev = {
        'property': prop, 'tier': tier, 'seed': seed0,
        'level': mod.LEVEL if hasattr(mod, 'LEVEL') else 'exploration',
        'coverage': {
            'evaluations': done[0],
            'distinct_nontrivial': len(keys),
            'rule': mod.RULE,
            'samples': samples or [{'note': 'no non-trivial sample kept'}],
            'nontrivial_runs': nontriv[0],
            'runs_per_hour': round(runs_h),
            'seeds_per_hour': round(runs_h),
            'seed_range': [base, base + n - 1],
            'simulated_jobs': st.get('jobs', 0),
            'simulated_seconds': round(st.get('simtime', 0), 3),
            'scheduler_steps': st.get('steps', 0),
            'events_logged': st.get('events', 0),
            'mpi_collectives': st.get('collectives', 0),
            'faults_fired': st.get('fired', {}),
            'runs_with_a_fault': fault_runs[0],
            'distinct_schedules': len(scheds),
            'distinct_measure':
                'schedules: hash of the sequence of scheduling decisions; '
                'states: hash of the key each run reports (see rule)',
            'seams_crossed': st.get('points', {}),
            'probes': agg['probes'],
            'components_real': mod.REAL,
            'components_stubbed': mod.STUB,
            'determinism_rechecked': det,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(found),
    }
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    log('%d runs (%d non-trivial, %d distinct states, %d schedules), %d '
        'faults fired, %.0f runs/h, %.1fs' % (
            done[0], nontriv[0], len(keys), len(scheds),
            sum(st.get('fired', {}).values()), runs_h, time.time() - t0))
    for k in knownhit.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']), file=out)
    if found:
        for kind, path in replays:
            print('VIOLATION property=%s replay=%s' % (prop, path), file=out)
        out.flush()
        return 1
    if errors:
        log('HARNESS ERROR', errors[0][-3000:])
        return 3
    if det['diverged']:
        log('NOT DETERMINISTIC at seeds', det['diverged'])
        return 4
    if done[0] < min(n, 8) or not nontriv[0]:
        log('too little explored')
        return 5
    return 0
