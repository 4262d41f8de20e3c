"""P02: MPI jobs terminate; bad data only costs its own read window."""
import copy
import os
import random

import numpy as np
from obspy import UTCDateTime

from sim import world
from . import corrgen, dvgen, p13, p14, p17, p19

RUNS = {'quick': 400, 'thorough': 4000}
RULE = (
    'scenario = random network and options with 1-3 hazards (too low '
    'sampling rate, a handful of samples, NaNs, missing read interval on one '
    'or all channels, preprocessing function that raises, drops or masks '
    'data), 2-5 ranks, schedule; every collective is matched by the '
    'simulated communicator. References: one process on the same data and '
    'one process with the hazardous data removed. Four in ten scenarios are '
    'dv, coherence and spectrogram jobs with unreadable or useless inputs '
    'and failing reads or writes, and correlations with a failing metadata '
    'service. Non-trivial: the job wrote '
    'records although a hazard was in its way. State = (hazards, records, '
    'ranks).')
REAL = ['seismic.correlate.* (Correlator, preprocessing, CorrStream)',
        'seismic.db.corr_hdf5', 'seismic.trace_data.waveform.Store_Client',
        'h5py/HDF5 files', 'obspy MSEED + SDS client', 'file system (tmpfs)']
STUB = ['MPI communicator (simulated, in process)', 'wall clock',
        'scheduler (simulated)', 'directory order (seeded permutation)']

OTHER = {'dv': p13, 'wfc': p14, 'spect': p17, 'resp': p19}
LOSSY = ('nan', 'raise')      # may cost other channels' data of the window
KINDS = ['low', 'tiny', 'nan', 'hole', 'allhole', 'raise', 'raise', 'drop',
         'mask', 'lowall', 'const']


def gen(seed, tier):
    r = random.Random('p02-mode-%s' % seed)
    mode = r.choice(['corr'] * 6 + ['resp', 'dv', 'wfc', 'spect'])
    if mode != 'corr':
        sub = OTHER[mode].gen(seed, tier)
        size = 'ranks' if mode == 'resp' else 'size'
        sub[size] = max(sub[size], r.choice([2, 3, 4, 5]))
        # crashes are not the subject here
        sub['faults'] = [f for f in sub.get('faults', [])
                         if f['act'] not in ('kill', 'interrupt')]
        return {'mode': mode, 'sub': sub, 'faults': sub['faults'],
                'sched': sub.get('sched', seed)}
    sc = corrgen.gen(seed, tier)
    r = random.Random('p02-%s' % seed)
    sc['mode'] = mode
    o = sc['opt']
    if o['nread'] == 1 and r.random() < .6:
        o['nread'] = 2
        for c in sc['chans']:
            for s in c['segs']:
                if s[1] > o['start'] + 200:
                    s[1] += o['read_inc']
    hz = []
    for _ in range(r.choice([1, 1, 2, 3])):
        lo = 1 if o['psub'] and o['nread'] > 1 else 0
        hz.append({'kind': r.choice(KINDS),
                   'ch': r.randrange(len(sc['chans'])),
                   'win': r.randrange(lo, o['nread']),
                   'at': r.uniform(0, .8), 'len': r.uniform(.05, .9)})
    sc['hazards'] = hz
    return sc


def shrink(sc):
    if sc['mode'] != 'corr':
        for s in OTHER[sc['mode']].shrink(sc['sub']):
            if s.get('ranks', s.get('size')) > 1:
                yield dict(sc, sub=s, faults=s['faults'])
        return
    for i in range(len(sc['hazards'])):
        s = copy.deepcopy(sc)
        del s['hazards'][i]
        yield s
    if sc['ranks'] > 2:
        s = copy.deepcopy(sc)
        s['ranks'] = 2
        yield s
    for s in corrgen.shrink(sc):
        if len(s['chans']) == len(sc['chans']) and s['opt']['nread'] == sc[
                'opt']['nread'] and s['opt']['start'] == sc['opt']['start']:
            yield s


def cut(segs, a, b):
    out = []
    for s in segs:
        if s[0] < a:
            out.append([s[0], min(s[1], a)])
        if s[1] > b:
            out.append([max(s[0], b), s[1]])
    return [s for s in out if s[1] - s[0] > .4]


def ident(ch):
    return '%s.%s.%s.%s' % (ch['net'], ch['sta'], ch['loc'], ch['cha'])


def world_of(sc, remove):
    """channels, extra preprocessing, of the archive with hazards of the
    kinds in remove taken out together with their data"""
    o = sc['opt']
    chans = copy.deepcopy(sc['chans'])
    extra, pre, nans = [], [], []
    for ch in chans:
        # long before; keeps every channel in the archive
        ch['segs'] = sorted(ch['segs'] + [[o['start'] - 3000,
                                           o['start'] - 2990]])
    for h in sc['hazards']:
        a = o['start'] + h['win'] * o['read_inc']
        b = a + o['read_len']
        # data read for the neighbouring intervals stays as it is
        k = h['kind']
        if k == 'allhole':
            for ch in chans:
                ch['segs'] = cut(ch['segs'], a - 100, b + 100)
            continue
        if k == 'lowall':
            for ch in chans:
                ch['segs'] = cut(ch['segs'], a, b)
                extra.append(dict(ch, rate=1., segs=[[a, b]]))
            continue
        ch = chans[h['ch'] % len(chans)]
        out = h['kind'] in remove
        if k in ('low', 'tiny', 'hole'):
            ch['segs'] = cut(ch['segs'], a - 90, b + 90)
        if k == 'nan':
            ch['segs'] = cut(ch['segs'], a + .01, b - .01)
            if out:
                continue
        s = a + 2 + h['at'] * (b - a)
        if k == 'low':
            extra.append(dict(ch, rate=1., segs=[[a, b]]))
        elif k == 'tiny':
            ch['segs'] = sorted(ch['segs'] + [
                [s, s + (1 + int(h['len'] * 5)) / ch['rate']]])
        elif k == 'nan':
            nans.append((dict(ch, dtype='f4', segs=[[a + .01, b - .01]]), s,
                         min(b - 2, s + h['len'] * (b - a))))
        elif k == 'const':
            ch['segs'] = cut(ch['segs'], a, b)
            extra.append(dict(ch, kind='const', segs=[[a, b]]))
        elif k in ('raise', 'drop'):
            pre.append({
                'function': 'checks.plugins.' + {
                    'raise': 'drop' if out else 'fail_if', 'drop': 'drop'}[k],
                'args': {'ids': [ident(ch)], 'start': world.T0 + a + 2,
                         'end': world.T0 + b - 2}})
        elif k == 'mask':
            pre.append({
                'function': corrgen.PS + 'stream_mask_at_utc',
                'args': {'starts': [UTCDateTime(world.T0 + s)],
                         'ends': [UTCDateTime(world.T0 + s + h['len'] * 200)]}})
    return chans, extra, pre, nans


def build(sc, ctx, name, remove):
    import os
    chans, extra, pre, nans = world_of(sc, remove)
    arch = os.path.join(ctx.disk, 'arch-' + name)
    os.makedirs(arch, exist_ok=True)
    archive(arch, sc['data'], chans + extra, nans)
    world.write_inventories(arch, chans)
    return arch, pre


def archive(root, seed, chans, nans):
    import os
    from obspy import read
    world.write_archive(root, seed, chans)
    for ch, a, b in nans:
        for tr in world.chan_stream(seed, ch, ch['segs']):
            t = tr.times() + tr.stats.starttime.timestamp - world.T0
            tr.data[(t >= a) & (t < b)] = np.nan
            if tr.stats.starttime.julday != tr.stats.endtime.julday:
                continue
            p = world.sds_path(os.path.join(root, 'mseed'), tr)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            st = read(p) if os.path.exists(p) else None
            for x in st or []:
                x.data = x.data.astype(np.float32)
                x.stats.pop('mseed', None)
            from obspy import Stream
            st = (st or Stream()) + Stream([tr])
            st.write(p, format='MSEED')


def job(sc, ctx, arch, name, size, sched, pre):
    """runs (twice with preprocess_subdiv) -> dump or None"""
    sim = ctx.newsim(sched)
    o, cdir = corrgen.opts_of(ctx, sc, name, pre=pre + sc['opt']['pre'])
    nreads = [sc['opt']['nread']]
    if sc['opt']['psub'] and nreads[0] > 1:
        # preprocess_subdiv only acts when there is something already
        nreads = [1] + nreads
    for n in nreads:
        o, cdir = corrgen.opts_of(
            ctx, sc, name, pre=pre + sc['opt']['pre'], nread=n)
        res = world.correlate(sim, size, arch, o)
        ctx.take(sim)
        if ctx.violations:
            return None
        if res.outcome != 'ok':
            tb = [t for t in res.tbs if t]
            ctx.violation(res.outcome, '%s, %d ranks: %s\n%s' % (
                name, size, res.detail, (tb[0] if tb else '')[-1200:]))
            return None
    return world.db_dump(cdir)


def bulk(sc, ctx):
    """dv and coherence runs: termination, matching collectives, and what
    one process writes"""
    mod, sub = OTHER[sc['mode']], sc['sub']
    out = []
    for name, size in (('n', sub['size']), ('1', 1)):
        proj = os.path.join(ctx.disk, 'proj-' + name)
        opts = mod.options(sub, proj, sub['network'], sub['station'])
        sim = ctx.newsim(preempt=.3, faults=None if name == 'n' else [])
        dvgen.write_corrs(os.path.join(proj, 'corr'), sub['files'], opts,
                          mod.NWIN, sub['lts'], sub['step'])
        job = p13.monitor_job if sc['mode'] == 'dv' else p14.wfc_job
        res = job(sim, size, opts)
        ctx.take(sim)
        if ctx.violations:
            return
        fired = ' '.join(map(str, sim.fired))
        if res.outcome != 'ok':
            tb = [t or '' for t in res.tbs]
            # set-up (folders, log files) may fail on all of them
            if res.outcome in ('deadlock', 'steps') or not any(
                    x in fired for x in ('dir.', 'file.', 'clock.')) or any(
                        '_bulk' in t for t in tb):
                ctx.violation(
                    'hang' if res.outcome in ('deadlock', 'steps')
                    else 'stopped', '%s run, %d processes: %s %s (faults %s)'
                    '\n%s' % (sc['mode'], size, res.outcome, res.detail,
                              fired, ''.join(tb)[-900:]))
                return
            ctx.probe('refused to start')
            return
        out.append(dvgen.npz_dir(os.path.join(
            proj, 'vel_change' if sc['mode'] == 'dv' else 'wfc')))
        if name == 'n' and fired:
            # which file the fault hits depends on the processes
            ctx.probe('fault in bulk run')
            ctx.nontrivial = bool(out[0])
            return
    got, one = out
    for n in sorted(set(got) | set(one)):
        if n not in got or n not in one:
            ctx.violation('lost' if n not in got else 'extra',
                          '%s is only written by %s' % (
                              n, 'one process' if n in one
                              else '%d processes' % sub['size']))
            return
        d = dvgen.same(got[n], one[n])
        if d:
            ctx.violation('differs', '%s, %d processes: %s' % (
                n, sub['size'], d))
            return
    ctx.nontrivial = bool(got)
    ctx.probe(sc['mode'] + ' files', len(got))
    ctx.key(sc['mode'], sorted(got), sub['size'])


LIVENESS = ('hang', 'refused', 'stopped', 'deadlock', 'ranks', 'rank',
            'lost', 'unexpected', 'differs')


def run(sc, ctx):
    if sc['mode'] in ('dv', 'wfc'):
        return bulk(sc, ctx)
    if sc['mode'] != 'corr':
        OTHER[sc['mode']].run(sc['sub'], ctx)
        # what else these checks look at is not part of this property
        ctx.violations[:] = [v for v in ctx.violations if v['kind'] in LIVENESS
                             or 'mismatch' in v['kind']]
        return
    kinds = {h['kind'] for h in sc['hazards']}
    arch, pre = build(sc, ctx, 'n', ())
    got = job(sc, ctx, arch, 'pn', sc['ranks'], sc['sched'], pre)
    if got is None:
        return
    refs = []
    one = job(sc, ctx, arch, 'p1', 1, 0, pre)
    if one is None:
        return
    refs.append(one)
    lossy = kinds & set(LOSSY)
    if lossy:
        a2, p2 = build(sc, ctx, 'l', LOSSY)
        x = job(sc, ctx, a2, 'pl', 1, 0, p2)
        if x is None:
            return
        refs.append(x)
        for k in sorted(lossy):
            # some of the hazards removed
            if len(lossy) > 1:
                a2, p2 = build(sc, ctx, 'l' + k, (k,))
                x = job(sc, ctx, a2, 'pl' + k, 1, 0, p2)
                if x is None:
                    return
                refs.append(x)
    bad = {h['win'] for h in sc['hazards'] if h['kind'] in LOSSY}
    o = sc['opt']

    def win(k):
        t = UTCDateTime(k[1].split('/')[5]).timestamp - world.T0 - o['start']
        return int((t + 1) // o['read_inc'])
    what = 'hazards %s, %d ranks' % (sorted(kinds), sc['ranks'])
    for k in sorted(set(got) | set(one)):
        if win(k) in bad:
            continue
        if k not in got:
            ctx.violation('lost', '%s: %s, outside the read intervals of '
                          'failing data, is missing' % (what, k))
            return
        if k not in one:
            ctx.violation('extra', '%s: %s is not written by one process' % (
                what, k))
            return
        d = world.diff_rec(got[k], one[k])
        if d:
            ctx.violation('differs', '%s: %s: %s' % (what, k, d))
            return
    if lossy:
        # data that cannot be processed does not change other intervals
        clean = refs[1]
        for k in sorted(clean):
            if win(k) not in bad and near(k, bad, win) and k not in one:
                ctx.violation('cost', '%s: without the failing data there is '
                              'also %s' % (what, k))
                return
    for k in sorted(got):
        if win(k) not in bad or k[1].startswith('/stack'):
            continue
        cand = [x[k] for x in refs if k in x]
        if not cand:
            ctx.violation('extra', '%s: %s is not written by one process' % (
                what, k))
            return
        ds = [world.diff_rec(got[k], c) for c in cand]
        if all(ds):
            ctx.violation('differs', '%s: %s: %s' % (what, k, ds[0]))
            return
    for k in sorted(kinds):
        ctx.probe('hazard ' + k)
    ctx.probe('records', len(got))
    if lossy and len(got) < len(refs[1]):
        ctx.probe('window lost')
    ctx.nontrivial = bool(got) and bool(kinds)
    ctx.key(sorted(map(str, got)), sc['ranks'], sorted(kinds))


def near(k, bad, win):
    return not {win(k) - 1, win(k) + 1} & bad
