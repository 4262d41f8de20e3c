"""P03: an interrupted correlation run is completed by a restart."""
import copy
import os
import random

from obspy import UTCDateTime

from sim import world
from . import corrgen

RUNS = {'quick': 160, 'thorough': 4000}
RULE = (
    'scenario = random network and options, then a history of 1-4 pxcorr runs '
    'on one project, each with its own number of ranks, schedule, time range '
    'and station subset, and mostly with a fault (kill, Ctrl-C, I/O error, '
    'full disk, failed allocation) at a seeded operation, then a clean run; '
    'oracle = one uninterrupted run with one process. Non-trivial: a fault '
    'fired or a partial phase ran, and records existed before the last run. '
    'State = (outcomes of the runs, records left by each).')
REAL = ['seismic.correlate.* (Correlator, preprocessing, CorrStream)',
        'seismic.db.corr_hdf5', 'seismic.trace_data.waveform.Store_Client',
        'h5py/HDF5 files', 'obspy MSEED + SDS client', 'file system (tmpfs)']
STUB = ['MPI communicator (simulated, in process)', 'wall clock',
        'scheduler (simulated)', 'directory order (seeded permutation)',
        'process death (snapshot of the disk at the instant of the kill)']

SITES = ['*', '*', '*', 'h5.create', 'h5.attr', 'h5.closed', 'h5.open',
         'file.open-r', 'h5.mkgroup', 'mpi.allgather', 'mpi.bcast']


def gen(seed, tier):
    sc = corrgen.gen(seed, tier)
    r = random.Random('p03-%s' % seed)
    n = sc['opt']['nread']
    phases = []
    stas = sorted({(c['net'], c['sta']) for c in sc['chans']})
    for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
        p = {'ranks': r.choice([1, 2, 2, 3, 4]), 'sched': r.randrange(10**6),
             'nread': n, 'sub': None, 'fault': None}
        if r.random() < .25 and n > 1:
            p['nread'] = r.randrange(1, n)
        if r.random() < .25 and len(stas) > 2:
            p['sub'] = sorted(r.sample(stas, r.choice([2, len(stas) - 1])))
        if r.random() < .8:
            site = r.choice(SITES)
            p['fault'] = {
                'site': site, 'act': r.choice([
                    'kill', 'kill', 'interrupt', 'interrupt', 'eio',
                    'enospc', 'memerr']),
                'nth': r.randrange(1, 400) if site == '*' else
                r.choice([1, 2, 3, 5, 9, 20, 40])}
        phases.append(p)
    sc['phases'] = phases
    sc['last'] = r.choice([1, 2, 3])
    sc['again'] = r.random() < .45
    del sc['ranks']
    return sc


def shrink(sc):
    for i in range(len(sc['phases'])):
        s = copy.deepcopy(sc)
        del s['phases'][i]
        yield s
        for k, v in (('fault', None), ('sub', None), ('ranks', 1),
                     ('nread', sc['opt']['nread'])):
            if sc['phases'][i][k] != v:
                s = copy.deepcopy(sc)
                s['phases'][i][k] = v
                yield s
    if sc['last'] > 1:
        s = copy.deepcopy(sc)
        s['last'] = 1
        yield s
    yield from corrgen.shrink(sc)


def run(sc, ctx):
    arch = corrgen.setup(ctx, sc)
    opt = sc['opt']
    refs = [reference(sc, ctx, arch, 'ref', False)]
    if opt['psub']:
        refs.append(reference(sc, ctx, arch, 'refp', True))
    if ctx.violations:
        return
    ref = refs[0]
    if len(refs) > 1 and subs(refs[0]).keys() != subs(refs[1]).keys():
        # preprocessing per subdivision may keep or drop windows that
        # preprocessing of the whole interval does not (edges of gaps)
        ctx.probe('reference differs with preprocess_subdiv')
    o, cdir = corrgen.opts_of(ctx, sc, 'p')
    faults = []
    for j, p in enumerate(sc['phases']):
        if p['fault']:
            faults.append(dict(p['fault'], job=j + 1))
    sim = ctx.newsim(faults=faults)
    prev = {}
    outcomes = []
    hurt = set()
    ever_noinv = False
    phases = sc['phases'] + [{
        'ranks': sc['last'], 'nread': opt['nread'], 'sub': None,
        'fault': None, 'final': True}]
    if sc['again']:
        phases = phases + [dict(phases[-1], again=True)]
    for j, p in enumerate(phases):
        kw = {'nread': p['nread']}
        if p['sub'] is not None:
            have = [list(s) for s in p['sub'] if list(s) in [
                [c['net'], c['sta']] for c in sc['chans']]]
            if len(have) > 1:
                kw['network'] = [s[0] for s in have]
                kw['station'] = [s[1] for s in have]
        op, _ = corrgen.opts_of(ctx, sc, 'p', **kw)
        nf = sum(sim.fired.values())
        res = world.correlate(sim, p['ranks'], arch, op)
        fired = sum(sim.fired.values()) > nf
        ctx.take(sim)
        if ctx.violations:
            return
        outcomes.append(res.outcome)
        what = 'run %d of %d (%s%s)' % (
            j + 1, len(phases), res.outcome,
            ', ' + str(p['fault']) if fired else '')
        if res.outcome != 'ok' and not fired:
            tb = [t for t in res.tbs if t]
            ctx.violation('restart-failed', '%s: %s\n%s' % (
                what, res.detail, (tb[0] if tb else '')[-900:]))
            return
        if fired and res.outcome == 'deadlock':
            ctx.violation('deadlock', '%s: %s' % (what, res.detail))
            return
        if fired and res.outcome == 'ok' and any(
                k.endswith('@dir.list') for k in sim.fired):
            # glob (used by obspy to find the files of a day) takes a folder
            # it cannot list for an empty one
            ctx.probe('unlisted folder')
            return
        try:
            cur = world.db_dump(cdir)
        except OSError as e:
            ctx.violation('unreadable', '%s left an unreadable file: %s' % (
                what, e))
            return
        d = world.diff_dump(prev, {k: cur[k] for k in cur if k in prev},
                            rtol=0)
        if d:
            ctx.violation('record-changed', '%s changed existing records: %s'
                          % (what, d))
            return
        if p.get('again') and opt['delsub'] and len(refs) > 1 and refs[
                0].keys() != refs[1].keys():
            # nothing but stacks is kept, of windows that differ (see above)
            ctx.probe('stacks of other windows')
            return
        if p.get('again') and set(cur) != set(prev):
            ctx.violation('rerun-writes', 'a rerun on the complete database '
                          'wrote %s' % sorted(set(cur) - set(prev))[:4])
            return
        new = {k: v for k, v in cur.items() if k not in prev}
        noinv = fired and res.outcome == 'ok' and p['fault']['act'] in (
            'eio', 'enospc', 'memerr')
        ever_noinv |= noinv
        for k, v in sorted(new.items()):
            if is_stack(k):
                continue
            cand = [x[k] for x in refs if k in x]
            if not cand:
                ctx.violation('record-extra', '%s wrote %s, which an '
                              'uninterrupted run does not' % (what, k))
                return
            ds = [world.diff_rec(v, c) for c in cand]
            if all(ds) and noinv:
                # documented: proceeds without coordinates if the station
                # inventory cannot be read
                ds = [world.diff_rec(*bare(v, c)) for c in cand]
            if all(ds):
                ctx.violation('record-differs', '%s: %s: %s' % (
                    what, k, ds[0]))
                return
        if res.outcome in ('interrupted', 'exception'):
            # the known finding: an update that was cut inside. There is one
            # per process at most, all for the same read interval.
            inc = incomplete(cur, opt, ref) - hurt
            if len({g[0] for g in inc}) <= p['ranks'] and len(
                    {g[2] for g in inc}) <= 1:
                hurt |= inc
        prev = cur
    want = subs(ref)
    if len(refs) > 1:
        want = {k: v for k, v in want.items() if k in refs[1]}
    miss = sorted(set(want) - set(prev))
    if miss:
        ctx.violation('record-missing', '%d records missing after restart '
                      '(%s), e.g. %s' % (len(miss), outcomes, miss[:3]))
        return
    if len(refs) == 1:
        stacks(ctx, ref, prev, hurt, opt, outcomes, ever_noinv)
    partial = any(p['fault'] or p['sub'] or p['nread'] < opt['nread']
                  for p in sc['phases'])
    ctx.nontrivial = bool(ref) and partial and any(
        x != 'ok' for x in outcomes) or partial and len(prev) > 0
    for x in outcomes:
        ctx.probe('outcome ' + x)
    ctx.key(outcomes, sorted(map(str, prev)))


def reference(sc, ctx, arch, name, psub):
    sim = ctx.newsim(0, faults=())
    o, cdir = corrgen.opts_of(ctx, sc, name)
    if psub:
        # preprocess_subdiv only acts when there is something already
        res = world.correlate(sim, 1, arch, o)
        files = [f for f in sorted(os.listdir(cdir)) if f.endswith('.h5')]
        if not files:
            return {}
        # keep an empty database
        import h5py
        for f in files:
            with h5py.File(os.path.join(cdir, f), 'a') as h:
                for k in list(h):
                    if k != 'co':
                        del h[k]
        res = world.correlate(sim, 1, arch, o)
    else:
        o['co']['preprocess_subdiv'] = False
        res = world.correlate(sim, 1, arch, o)
    ctx.take(sim)
    if res.outcome != 'ok':
        ctx.violation('reference-failed', '%s %s\n%s' % (
            res.outcome, res.detail, (res.tbs[0] or '')[-900:]))
        return {}
    return world.db_dump(cdir)


COORD = ('stla', 'stlo', 'stel', 'evla', 'evlo', 'evel', 'az', 'baz', 'dist')


def bare(*recs):
    return [(d, {k: v for k, v in h.items() if k not in COORD})
            for d, h in recs]


def is_stack(k):
    return k[1].startswith('/stack')


def subs(d):
    return {k: v for k, v in d.items() if not is_stack(k)}


def interval(k, opt):
    """index of the read interval a record belongs to"""
    t = UTCDateTime(k[1].split('/')[5]).timestamp - world.T0 - opt['start']
    return int((t + 1) // opt['read_inc'])


def incomplete(cur, opt, ref):
    """(file, pair, interval) with windows, but without stack or with fewer
    windows than an uninterrupted run has."""
    if not opt['stack']:
        return set()

    def group(dump, stack):
        out = {}
        for k in dump:
            if is_stack(k) == stack:
                p = k[1].split('/')
                out.setdefault(
                    (k[0], '.'.join(p[2:5]), interval(k, opt)), set()).add(k)
        return out
    have, want = group(cur, False), group(ref, False)
    st = group(cur, True)
    return {g for g in have if g not in st or have[g] != want.get(g)}


def stacks(ctx, ref, cur, hurt, opt, outcomes, noinv):
    wants = {k: v for k, v in ref.items() if is_stack(k)}
    haves = {k: v for k, v in cur.items() if is_stack(k)}

    def grp(k):
        p = k[1].split('/')
        return (k[0], '.'.join(p[2:5]), interval(k, opt))
    for k in sorted(set(wants) | set(haves)):
        if k in wants and k in haves:
            d = world.diff_rec(wants[k], haves[k])
            if d and noinv:
                d = world.diff_rec(*bare(wants[k], haves[k]))
            if not d:
                continue
            msg = 'stack %s differs: %s' % (k, d)
        elif k in wants:
            msg = 'stack %s is missing' % (k,)
        else:
            msg = 'stack %s is not written by an uninterrupted run' % (k,)
        ctx.violation(
            'stack-after-interrupted-write' if grp(k) in hurt else 'stack',
            '%s; runs: %s' % (msg, outcomes))
        if grp(k) not in hurt:
            return
