"""P06: a stack is made of exactly the windows of its own read interval."""
import copy
import random

import numpy as np
from obspy import UTCDateTime

from sim import world
from . import corrgen, p03

RUNS = {'quick': 170, 'thorough': 4000}
RULE = (
    'scenario = random network, gaps, window lengths and overlaps, 1-5 '
    'ranks, schedule, recombination on; 1-3 runs on the same project '
    '(longer time range or more stations in between); oracle = mean of the '
    'windows stored by the same run, grouped by pair and read interval, '
    'and a twin project with delete_subdivision. Non-trivial: a stack of '
    'more than one window. State = (stack keys, sizes of the groups).')
REAL = ['seismic.correlate.* (Correlator, preprocessing, CorrStream)',
        'seismic.db.corr_hdf5', 'seismic.trace_data.waveform.Store_Client',
        'h5py/HDF5 files', 'obspy MSEED + SDS client', 'file system (tmpfs)']
STUB = ['MPI communicator (simulated, in process)', 'wall clock',
        'scheduler (simulated)', 'directory order (seeded permutation)']


def gen(seed, tier):
    sc = corrgen.gen(seed, tier)
    r = random.Random('p06-%s' % seed)
    o = sc['opt']
    o['stack'], o['delsub'] = True, False
    sc['ranks'] = r.choice([1, 2, 3, 4, 5])
    if o['nread'] == 1:
        o['nread'] = r.choice([2, 3])
        for c in sc['chans']:
            for s in c['segs']:
                if s[1] > o['start'] + 200:
                    s[1] += (o['nread'] - 1) * o['read_inc']
    if r.random() < .35:
        # no channel has data at the start or end of a read interval
        k = r.randrange(1, o['nread'])
        b = o['start'] + k * o['read_inc']
        h0, h1 = r.choice([(-10, 25), (-1, 70), (-65, 5), (-70, 130),
                           (-1, 5)])
        for c in sc['chans']:
            c['segs'] = [x for s in c['segs'] for x in (
                [s[0], min(s[1], b + h0)], [max(s[0], b + h1), s[1]])
                if x[1] - x[0] > 1]
    sc['phases'] = []
    stas = sorted({(c['net'], c['sta']) for c in sc['chans']})
    if r.random() < .4:
        p = {'nread': r.randrange(1, o['nread'] + 1), 'sub': None}
        if len(stas) > 2 and r.random() < .5:
            p['sub'] = sorted(r.sample(stas, 2))
        sc['phases'].append(p)
    sc['twin'] = r.random() < .5
    return sc


def shrink(sc):
    for k, v in (('phases', []), ('twin', False), ('ranks', 1)):
        if sc[k] != v:
            s = copy.deepcopy(sc)
            s[k] = v
            yield s
    for s in corrgen.shrink(sc):
        if s['opt']['stack']:
            yield s


def grp(k, opt):
    p = k[1].split('/')
    return (k[0], '.'.join(p[2:5]), p03.interval(k, opt))


def t(s):
    return UTCDateTime(s)


def check(ctx, new, opt, what):
    subs, stacks = {}, {}
    for k, v in new.items():
        if p03.is_stack(k):
            if not k[1].startswith('/stack_%s/' % opt['read_len']):
                ctx.violation('tag', '%s: unexpected tag %s' % (what, k))
                return
            g = grp(k, opt)
            if g in stacks:
                ctx.violation('two-stacks', '%s: two stacks for %s: %s, %s' % (
                    what, g, k[1], stacks[g][0]))
                return
            stacks[g] = (k[1], v)
        else:
            subs.setdefault(grp(k, opt), []).append((k[1], v))
    if set(subs) != set(stacks):
        ctx.violation('stack-set', '%s: windows without stack %s, stacks '
                      'without window %s' % (
                          what, sorted(set(subs) - set(stacks))[:3],
                          sorted(set(stacks) - set(subs))[:3]))
        return
    for g, wins in sorted(subs.items()):
        key, (data, head) = stacks[g]
        wins.sort(key=lambda w: t(w[0].split('/')[5]))
        s0 = wins[0][0].split('/')[5]
        e0 = max((w[0].split('/')[6] for w in wins), key=t)
        if key.split('/')[5:] != [s0, e0]:
            ctx.violation('stack-times', '%s: %s is %s, windows span %s - %s'
                          % (what, g, key, s0, e0))
            return
        A = np.array([w[1][0] for w in wins], dtype=float)
        d = np.array([t(w[0].split('/')[6]) - t(w[0].split('/')[5])
                      for w in wins])
        with np.errstate(all='ignore'):
            m = np.nansum(A.T * d, axis=1) / d.sum()
            if not np.nanmax(np.abs(m)) > 1e-30:
                ctx.probe('zero stack')
                continue
            m = m / np.nanmax(np.abs(m))
        x = world.diff_data(np.asarray(data, dtype=float), m)
        if x:
            ctx.violation('stack-data', '%s: %s of %d windows: %s' % (
                what, key, len(wins), x))
            return
        h = wins[0][1][1]
        for n in ('start_lag', 'sampling_rate', 'network', 'station',
                  'channel', 'stla', 'stlo', 'evla', 'evlo', 'dist', 'az'):
            if h.get(n) != head.get(n):
                ctx.violation('stack-header', '%s: %s: %s is %r, in its '
                              'windows %r' % (what, key, n, head.get(n),
                                              h.get(n)))
                return
        ctx.probe('stacks')
        ctx.key(sc_key(g), len(wins))
        if len(wins) > 1:
            ctx.nontrivial = True
            ctx.probe('stacks of several windows')


def sc_key(g):
    return g[2]


def run(sc, ctx):
    arch = corrgen.setup(ctx, sc)
    opt = sc['opt']
    prev, ptwin = {}, {}
    phases = sc['phases'] + [{'nread': opt['nread'], 'sub': None}]
    sim = ctx.newsim(sc['sched'])
    for j, p in enumerate(phases):
        kw = {'nread': min(p['nread'], opt['nread'])}
        if p['sub']:
            have = [list(s) for s in p['sub'] if list(s) in [
                [c['net'], c['sta']] for c in sc['chans']]]
            if len(have) > 1:
                kw['network'] = [s[0] for s in have]
                kw['station'] = [s[1] for s in have]
        o, cdir = corrgen.opts_of(ctx, sc, 'p', **kw)
        res = world.correlate(sim, sc['ranks'], arch, o)
        if not ok(ctx, sim, res):
            return
        cur = world.db_dump(cdir)
        new = {k: v for k, v in cur.items() if k not in prev}
        check(ctx, new, opt, 'run %d of %d, %d ranks' % (
            j + 1, len(phases), sc['ranks']))
        if ctx.violations:
            return
        prev = cur
    if sc['twin'] and not sc['phases']:
        o, cdir = corrgen.opts_of(ctx, sc, 't', delsub=True)
        res = world.correlate(sim, sc['ranks'], arch, o)
        if not ok(ctx, sim, res):
            return
        tw = world.db_dump(cdir)
        extra = [k for k in tw if not p03.is_stack(k)]
        if extra:
            ctx.violation('not-deleted', 'delete_subdivision left %s' %
                          extra[:3])
            return
        d = world.diff_dump({k: v for k, v in prev.items()
                             if p03.is_stack(k)}, tw,
                            names=('with subdivision', 'without'))
        if d:
            ctx.violation('stack-twin', d)
        ctx.probe('twins')


def ok(ctx, sim, res):
    ctx.take(sim)
    if ctx.violations:
        return False
    if res.outcome != 'ok':
        tb = [x for x in res.tbs if x]
        ctx.violation(res.outcome, '%s\n%s' % (
            res.detail, (tb[0] if tb else '')[-1200:]))
        return False
    return True
