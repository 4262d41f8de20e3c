"""Runs ONE scenario of one property: a pure function of the scenario."""
import hashlib
import importlib
import os
import random
import shutil
import sys
import time
import traceback

from . import core, seams

REPO_SRC = os.sep + os.path.join('src', 'seismic') + os.sep


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return '/tmp'


class Ctx:
    """What a property's run() gets: a scratch disk, a simulator, a log."""
    def __init__(self, scenario, keep_log=False):
        self.scenario = scenario
        # The path must not depend on the process: strings made of it end
        # up in sets, whose order would then differ from run to run.
        self.base = os.path.join(
            scratch_base(), 'vsim-%d' % os.getpid())
        if os.path.isdir(self.base):
            shutil.rmtree(self.base)
        os.makedirs(self.base)
        os.chdir(self.base)
        self.root = '/proc/self/cwd/c'
        self.disk = os.path.join(self.root, 'disk')
        os.makedirs(self.disk)
        self.violations = []
        self.probes = {}
        self.keys = []
        self.nontrivial = False
        self.stats = {
            'fired': {}, 'points': {}, 'steps': 0, 'jobs': 0,
            'collectives': 0, 'simtime': 0.0, 'events': 0}
        self.digests = []
        self.scheds = []
        self.choices = []
        self.keep_log = keep_log
        self.logs = []
        self.sims = []

    def newsim(self, seed=None, faults=None, choices=None, preempt=None,
               root=None):
        sc = self.scenario
        s = core.Sim(
            sc.get('sched', 0) if seed is None else seed, root or self.root,
            sc.get('faults', ()) if faults is None else faults,
            choices=choices if choices is not None else sc.get('choices'),
            preempt=sc.get('preempt', 0.5) if preempt is None else preempt)
        if self.keep_log:
            s.keep_log = []
        self.sims.append(s)
        seams.activate(s)
        return s

    def violation(self, kind, msg, **data):
        self.violations.append(
            {'kind': kind, 'msg': str(msg).replace(self.root, '$S')[:1500],
             **data})

    def take(self, sim, kinds=None):
        """Adopt findings made by the simulator itself."""
        for f in sim.findings:
            if kinds is None or f.kind in kinds:
                self.violation(f.kind, f.msg)
        sim.findings = []

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def key(self, *parts):
        self.keys.append(hashlib.sha256(
            repr(parts).encode()).hexdigest()[:16])

    def finish(self):
        for s in self.sims:
            for k, v in s.fired.items():
                self.stats['fired'][k] = self.stats['fired'].get(k, 0) + v
            for k, v in s.points.items():
                self.stats['points'][k] = self.stats['points'].get(k, 0) + v
            self.stats['steps'] += s.steps
            self.stats['jobs'] += s.job_no
            self.stats['collectives'] += s.collectives
            self.stats['events'] += s.logn
            self.stats['simtime'] += s.simtime + (s.clock - s.clock0)
            for k, v in s.probes.items():
                self.probe(k, v)
            self.digests.append(s.digest())
            self.scheds.append(s.sched_digest())
            self.choices.append(s.made_choices)
            if s.keep_log is not None:
                self.logs.append(s.keep_log)
        seams.deactivate()
        os.chdir('/')
        shutil.rmtree(self.base, ignore_errors=True)


def from_repo(tb):
    """Does the traceback end inside (or below) SeisMIC code?"""
    for fr in traceback.extract_tb(tb):
        if REPO_SRC in fr.filename:
            return True
    return False


def load(prop):
    return importlib.import_module('checks.%s' % prop.lower())


def run_case(prop, scenario, keep_log=False):
    """-> JSON-able result dict"""
    mod = load(prop)
    seams.import_repo()
    import numpy as np
    random.seed(scenario.get('seed', 0))
    np.random.seed(core.hash_int(scenario.get('seed', 0)) % 2**31)
    ctx = Ctx(scenario, keep_log)
    err = None
    t0 = time.perf_counter()
    try:
        mod.run(scenario, ctx)
    except core.SimStop:
        err = 'SimStop escaped\n' + traceback.format_exc()
    except BaseException as e:  # noqa
        tb = traceback.format_exc()
        if isinstance(e, KeyboardInterrupt) and not isinstance(
                e, core.SimInterrupt):
            raise
        if from_repo(e.__traceback__):
            ctx.violation(
                'exception:%s' % type(e).__name__,
                'SeisMIC raised where the property requires it to work: '
                '%s: %s\n%s' % (type(e).__name__, e, tb[-900:]))
        else:
            err = tb
    finally:
        ctx.finish()
    h = hashlib.sha256(''.join(ctx.digests).encode())
    h.update(repr(ctx.keys).encode())
    h.update(repr([v['kind'] for v in ctx.violations]).encode())
    return {
        'prop': prop, 'seed': scenario.get('seed'), 'error': err,
        'violations': ctx.violations, 'probes': ctx.probes,
        'keys': ctx.keys, 'nontrivial': ctx.nontrivial,
        'stats': ctx.stats, 'digest': h.hexdigest(),
        'scheds': ctx.scheds, 'choices': ctx.choices,
        'wall': time.perf_counter() - t0,
        'log': ctx.logs if keep_log else None}


def worker_main():
    """JSON lines on stdin -> JSON lines on the original stdout."""
    import json
    out = os.fdopen(os.dup(1), 'w')
    if not os.environ.get('VSIM_DEBUG'):
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        os.close(dn)
    seams.import_repo()
    for line in sys.stdin:
        req = json.loads(line)
        if req.get('quit'):
            break
        try:
            if 'scenario' in req:
                sc = req['scenario']
            else:
                sc = load(req['prop']).gen(req['seed'], req['tier'])
                sc.setdefault('seed', req['seed'])
            res = run_case(req['prop'], sc, req.get('log', False))
            res['scenario'] = sc
        except BaseException:  # noqa
            res = {'error': traceback.format_exc(), 'violations': [],
                   'seed': req.get('seed'), 'scenario': req.get('scenario')}
        res['id'] = req.get('id')
        out.write(json.dumps(res, default=str) + '\n')
        out.flush()


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    worker_main()
