"""P13: velocity change runs are complete, isolated and rank independent."""
import copy
import os
import random
import warnings

import numpy as np

from sim import world
from . import dvgen

RUNS = {'quick': 160, 'thorough': 6000}
RULE = (
    'scenario = 1-4 correlation files with 1-3 channel combinations each '
    '(station codes that are prefixes of one another, several networks), '
    'hourly correlations with gaps, noise and one imposed homogeneous '
    'stretch; some files not HDF5, cut short, without unstacked data, with '
    'too short lapse time or all NaN; requested networks/stations as string, '
    'pattern or list; lapse windows, sides, travel time, reference methods, '
    'pre-/postprocessing; 1-4 processes, listing order, rank schedule, faults '
    '(read/write errors, full disk, torn writes, failed allocation, kill). '
    'Oracle: imposed stretch; each file processed alone by one process; '
    'one combination by the documented steps, called one by one. '
    'Non-trivial: at least one dv compared. State = (processes, combinations '
    'good/bad, selection kind, options, faults).')
REAL = ['seismic.monitor.monitor.Monitor', 'seismic.monitor.stretch_mod',
        'seismic.monitor.post_corr_process', 'seismic.correlate.stream',
        'seismic.db.corr_hdf5', 'seismic.monitor.dv', 'HDF5/npz on tmpfs']
STUB = ['MPI communicator', 'rank schedule', 'directory order',
        'fault seams around files and h5py', 'wall clock']
NWIN = 16


def gen(seed, tier):
    r = random.Random('p13-%s' % seed)
    files = dvgen.gen_files(r, NWIN)
    if r.random() < .35:
        f = r.choice(files)
        f['bad'] = r.choice(['garbage', 'cut', 'nosub', 'short'])
        f['frac'] = r.choice([.1, .5, .9])
    if r.random() < .25:
        r.choice(r.choice(files)['combos'])['bad'] = r.choice(
            ['nan', 'length'])
    w = dvgen.WIN
    inc = r.choice([1, 1, 2])
    pre, post = [], []
    if r.random() < .2:
        pre.append({'function': 'smooth', 'args': {
            'wsize': 4, 'wtype': 'hanning', 'axis': 1}})
    if r.random() < .2:
        post.append({'function': 'smooth_sim_mat', 'args': {'win_len': 2}})
    step = r.choice([.001, .0015])
    k = r.choice([0, 0, 0, -2, 3])
    dv = {'start': k * w, 'end': (NWIN + r.choice([0, 0, -3, 2])) * w,
          'date_inc': inc * w, 'win_len': w * inc * r.choice([1, 1, 2]),
          'tw_start': r.choice([0, 3, 4]),
          'tw_len': r.choice([16, 20, 20, None]),
          'sides': r.choice(['both', 'both', 'left', 'right', 'single']),
          'tt': r.random() < .3, 'range': 20 * step, 'steps': 41,
          'sim': r.random() < .7 or bool(post),
          'ref': r.choice([
              {'win_inc': 0, 'method': 'mean', 'percentile': 50},
              {'win_inc': 0, 'method': 'mean', 'percentile': 50},
              {'win_inc': 0, 'method': 'median', 'percentile': 50},
              {'win_inc': 0, 'method': 'norm_mean', 'percentile': 50},
              {'win_inc': 0, 'method': 'similarity_percentile',
               'percentile': 50},
              {'win_inc': .25, 'method': 'mean', 'percentile': 50},
              {'win_inc': [.3, .4], 'method': 'mean', 'percentile': 50}]),
          'pre': pre, 'post': post}
    if r.random() < .08:
        # a single window
        dv['start'], dv['end'] = 0, NWIN * w
        dv['date_inc'] = dv['win_len'] = NWIN * w
        # there is nothing to smooth over or to select from
        if dv['ref']['method'] == 'similarity_percentile':
            dv['ref']['method'] = 'median'
        dv['pre'] = [o for o in pre if o['function'] != 'smooth']
        dv['post'] = [o for o in post if o['function'] != 'smooth']
    for f in files:
        # active sources: zero lag time is on the first sample
        f['onesided'] = dv['sides'] == 'single'
    nets = sorted({n for f in files for n in f['net'].split('-')})
    stas = sorted({n for f in files for n in f['sta'].split('-')})

    def want(codes):
        k = r.random()
        if k < .65:
            return '*'
        if k < .7:
            return r.choice(codes)
        if k < .75:
            return r.choice(codes)[0] + '*'
        s = r.sample(codes, r.choice([len(codes), r.randint(1, len(codes))]))
        if r.random() < .3:
            s[0] = s[0][0] + r.choice(['*', '?'])
        return s
    faults = []
    if r.random() < .45:
        for _ in range(r.choice([1, 1, 2])):
            site, act = r.choice([
                ('file.open-w', 'enospc'), ('file.open-w', 'eacces'),
                ('file.write', 'enospc'), ('file.write', 'short'),
                ('file.write', 'torn'), ('h5.open', 'eio'),
                ('h5.open', 'emfile'), ('h5.read', 'eio'),
                ('h5.read', 'memerr'), ('*', 'kill'), ('*', 'eio'),
                ('dir.make', 'enospc'), ('clock.now', 'clockjump')])
            f = {'site': site, 'nth': r.choice([1, 1, 2, 3, 5, 8, 13, 30]),
                 'act': act}
            if act in ('short', 'torn'):
                f['frac'] = r.choice([0., .3, .7])
            if act == 'clockjump':
                f['by'] = r.choice([-7200, 90000])
            faults.append(f)
    return {'files': files, 'dv': dv, 'step': step, 'lts': 30,
            'network': want(nets), 'station': want(stas),
            'size': r.choice([1, 2, 2, 3, 4]), 'faults': faults,
            'plot': False, 'sched': seed}


def shrink(sc):
    if len(sc['files']) > 1:
        for i in range(len(sc['files'])):
            s = copy.deepcopy(sc)
            del s['files'][i]
            yield s
    for i, f in enumerate(sc['files']):
        if len(f['combos']) > 1:
            for j in range(len(f['combos'])):
                s = copy.deepcopy(sc)
                del s['files'][i]['combos'][j]
                yield s
        if f['bad']:
            s = copy.deepcopy(sc)
            s['files'][i]['bad'] = None
            yield s
        for j, c in enumerate(f['combos']):
            for k, v in (('gaps', []), ('noise', 0), ('bad', None)):
                if c.get(k) != v and c.get(k) is not None:
                    s = copy.deepcopy(sc)
                    s['files'][i]['combos'][j][k] = v
                    yield s
    for k, v in (('faults', []), ('network', '*'), ('station', '*'),
                 ('size', 1), ('size', 2)):
        if sc[k] != v and not (k == 'size' and v > sc[k]):
            yield dict(sc, **{k: v})
    base = {'start': 0, 'end': NWIN * dvgen.WIN, 'date_inc': dvgen.WIN,
            'win_len': dvgen.WIN, 'tw_start': 4, 'tw_len': 20,
            'sides': 'both', 'tt': False, 'sim': True, 'pre': [], 'post': [],
            'ref': {'win_inc': 0, 'method': 'mean', 'percentile': 50}}
    for k, v in base.items():
        if sc['dv'][k] != v:
            yield dict(sc, dv=dict(sc['dv'], **{k: v}))


def options(sc, proj, net='*', sta='*'):
    o = world.options(proj, network=net, station=sta, lts=sc['lts'])
    o['dv'] = dvgen.dv_opts(sc)
    return o


def monitor_job(sim, size, opts):
    from seismic.monitor.monitor import Monitor

    def body(rank):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            m = Monitor(copy.deepcopy(opts))
            m.compute_velocity_change_bulk()
        return True
    return sim.run_job(size, body)


def expected(sc):
    """{file name: (file, combo)} of everything that can be processed"""
    out, bad = {}, set()
    for f in sc['files']:
        if not dvgen.requested(f, sc['network'], sc['station']):
            continue
        for c in f['combos']:
            n = 'DV-%s.%s.%s.npz' % (f['net'], f['sta'], c['cha'])
            if dvgen.is_bad(f, c):
                bad.add(n)
            else:
                out[n] = (f, c)
    return out, bad


def in_windows(sc, c):
    """For every dv window: indices of the correlations starting in it"""
    d, w = sc['dv'], dvgen.WIN
    t = np.arange(d['start'], d['end'], d['date_inc'])
    return t, [[i for i in range(NWIN) if i not in c['gaps']
                and a <= i * w < a + d['win_len']] for a in t]


def hard(c):
    """Not enough signal for a sound estimate"""
    return c['noise'] > .1


def run(sc, ctx):
    proj = os.path.join(ctx.disk, 'proj')
    cdir = os.path.join(proj, 'corr')
    opts = options(sc, proj, sc['network'], sc['station'])
    sim = ctx.newsim(preempt=.3)
    dvgen.write_corrs(cdir, sc['files'], opts, NWIN, sc['lts'], sc['step'])
    before = world.tree_digest(cdir)
    want, bad = expected(sc)
    res = monitor_job(sim, sc['size'], opts)
    fired = dict(sim.fired)
    ctx.take(sim, {'collective-mismatch', 'buffer-mismatch'})
    f = ' '.join(map(str, fired))
    if res.outcome == 'killed':
        ctx.probe('killed')
    elif res.outcome != 'ok':
        # set-up (folders, log files) may fail, but only before computing
        if res.outcome == 'deadlock' or not any(
                x in f for x in ('dir.', 'file.', 'clock.', 'mpi.')) or (
                'mpi.' not in f and any('_bulk' in (t or '')
                                        for t in res.tbs)):
            ctx.violation('aborted', 'run with %d processes: %s %s (faults '
                          '%s)\n%s' % (
                              sc['size'], res.outcome, res.detail, fired,
                              ''.join(t or '' for t in res.tbs)[-900:]))
            return
        ctx.probe('refused to start')
    if world.tree_digest(cdir) != before:
        ctx.violation('input-changed', 'the correlation files were modified')
        return
    got = dvgen.npz_dir(os.path.join(proj, 'vel_change'))
    extra = sorted(set(got) - set(want) - bad)
    if extra:
        ctx.violation('unrequested', 'files %s for network %s station %s' % (
            extra, sc['network'], sc['station']))
        return
    # Each file alone
    ref = {}
    for i, f in enumerate(sc['files']):
        if not any(x[0] is f for x in want.values()):
            continue
        p1 = os.path.join(ctx.disk, 'ref%d' % i)
        os.makedirs(os.path.join(p1, 'corr'))
        o = options(sc, p1)
        s = dvgen.path(cdir, f)
        os.link(s, os.path.join(p1, 'corr', os.path.basename(s)))
        r1 = monitor_job(sim, 1, o)
        if r1.outcome != 'ok':
            ctx.violation('reference', 'single file run: %s %s\n%s' % (
                r1.outcome, r1.detail, (r1.tbs[0] or '')[-900:]))
            return
        for n, d in dvgen.npz_dir(os.path.join(p1, 'vel_change')).items():
            ref[n] = d
    for n in sorted(want):
        if n not in ref or isinstance(ref[n], str):
            ctx.violation('missing', '%s is not written by a run on that file '
                          'alone' % n)
            return
    # every fault costs at most the combination (or file) it hits
    damaged = [n for n in sorted(want) if n not in got or dvgen.same(
        got[n], ref[n])]
    complete = res.outcome == 'ok'
    nfault = sum(v for k, v in fired.items())
    if complete:
        per = max([len(f['combos']) for f in sc['files']] or [1])
        allow = per * nfault if any(
            'h5.' in str(k) for k in fired) else nfault
        if any('dir.list' in str(k) for k in fired):
            allow = len(want)
        if len(damaged) > allow:
            n = damaged[0]
            ctx.violation(
                'incomplete' if n not in got else 'differs',
                '%s with %d processes, faults %s: %s; all damaged: %s, bad '
                'neighbours: %s, selection %s %s' % (
                    n, sc['size'], fired,
                    'missing' if n not in got else dvgen.same(
                        got[n], ref[n]), damaged, sorted(bad),
                    sc['network'], sc['station']))
            return
    for n in damaged:
        if n in got and not isinstance(got[n], str):
            ctx.violation('differs', '%s after faults %s: %s' % (
                n, fired, dvgen.same(got[n], ref[n])))
            return
    for n in sorted(ref):
        if n in want:
            physics(sc, ctx, n, want[n][1], ref[n])
            if ctx.violations:
                return
    # all of them would take too long
    hand = sorted(set(ref) & set(want))
    if hand:
        n = hand[sc['sched'] % len(hand)]
        f, c = want[n]
        steps(sc, ctx, n, f, c, dvgen.path(cdir, f), ref[n])
        if ctx.violations:
            return
    ctx.nontrivial = len(want) > len(damaged)
    ctx.probe('dv compared', len(want) - len(damaged))
    ctx.key(sc['size'], len(want), len(bad), type(sc['network']).__name__,
            type(sc['station']).__name__, sc['dv']['sides'],
            sc['dv']['ref']['method'], sorted(map(str, fired)))


def steps(sc, ctx, n, f, c, path, got):
    """The documented steps, taken one after the other by hand"""
    from seismic.db.corr_hdf5 import CorrelationDataBase
    o = dvgen.dv_opts(sc)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with CorrelationDataBase(path, mode='r') as cdb:
            cst = cdb.get_data(f['net'], f['sta'], c['cha'], 'subdivision')
        start = o['tw_start']
        st = cst[0].stats
        if o['compute_tt'] and hasattr(st, 'dist'):
            start += round(np.hypot(st.dist, (st.stel - st.evel) / 1000)
                           / o['rayleigh_wave_velocity'], 0)
        early = ('pop_at_utcs', 'select_time')
        for x in o['preprocessing']:
            if x['function'] in early:
                cst = getattr(cst, x['function'])(**x['args'])
        b = cst.create_corr_bulk(network=f['net'], station=f['sta'],
                                 channel=c['cha'], inplace=False)
        b.normalize(normtype='absmax')
        t = world.T0 + np.arange(sc['dv']['start'], sc['dv']['end'],
                                 o['date_inc'])
        b.resample(t, t + o['win_len'])
        b.filter((o['freq_min'], o['freq_max']))
        for x in o['preprocessing']:
            if x['function'] not in early:
                b = getattr(b, x['function'])(**x['args'])
        full = copy.deepcopy(b.stats)
        cut = b.copy()
        lim = (b.stats.start_lag, b.stats.end_lag)
        if o['tw_len'] is not None:
            lim = (-(start + o['tw_len']), start + o['tw_len'])
            cut = cut.trim(*lim)
        rate = b.stats['sampling_rate']
        tw = [np.arange(round(start * rate), round(lim[1] * rate))]

        def compare(ref, sim):
            return cut.stretch(
                ref_trc=ref, return_sim_mat=sim, tw=tw, sides=o['sides'],
                stretch_steps=o['stretch_steps'],
                stretch_range=o['stretch_range'], ref_tr_trim=lim,
                ref_tr_stats=full, processing=o)
        dv = compare(b.extract_multi_trace(**o['dt_ref']), False)
        # a better reference, of what has been corrected
        ref = b.correct_stretch(dv).extract_multi_trace(**o['dt_ref'])
        dv = compare(ref, o['return_sim_mat'])
        for x in o['postprocessing']:
            dv = getattr(dv, x['function'])(**x['args'])
    ctx.probe('steps by hand')
    v, w = got['value'], np.asarray(dv.value)
    k, m = got['corr'], np.asarray(dv.corr)
    ax = np.asarray(dv.second_axis)
    if v.shape != w.shape or k.shape != m.shape or not np.allclose(
            k, m, rtol=0, atol=1e-6, equal_nan=True) or not np.allclose(
            v, w, rtol=0, atol=1.01 * np.abs(np.diff(ax)).max(),
            equal_nan=True):
        ctx.violation('steps', '%s: values %s with coefficients %s, the '
                      'steps one after the other give %s with %s' % (
                          n, np.round(v, 4), np.round(k, 5), np.round(w, 4),
                          np.round(m, 5)))


def physics(sc, ctx, n, c, d):
    """Dates and the imposed stretch"""
    from seismic.monitor.dv import read_dv
    t, idx = in_windows(sc, c)
    f = [x for x in sc['files'] if n.startswith(
        'DV-%s.%s.' % (x['net'], x['sta']))][0]
    p = os.path.join(ctx.disk, 'ref%d' % sc['files'].index(f), 'vel_change',
                     n)
    dv = read_dv(p)
    a = [x.timestamp - world.T0 for x in dv.stats.corr_start]
    b = [x.timestamp - world.T0 for x in dv.stats.corr_end]
    if not (np.allclose(a, t) and np.allclose(b, t + sc['dv']['win_len'])):
        ctx.violation('dates', '%s: windows %s.., expected %s..' % (
            n, a[:3], list(t[:3])))
        return
    if dv.value.shape != t.shape or dv.corr.shape != t.shape or (
            dv.sim_mat is not None and dv.sim_mat.size and
            dv.sim_mat.shape != (len(t), len(dv.second_axis))):
        ctx.violation('shape', '%s: %s values, %s similarities for %d '
                      'windows' % (n, dv.value.shape, np.shape(dv.sim_mat),
                                   len(t)))
        return
    if not np.array_equal(np.isnan(dv.value), np.isnan(dv.corr)):
        ctx.violation('no-data', '%s: windows without coefficient: %s, '
                      'without value: %s' % (
                          n, np.nonzero(np.isnan(dv.corr))[0],
                          np.nonzero(np.isnan(dv.value))[0]))
        return
    if sc['dv']['post'] or sc['dv']['pre']:
        return
    for k, ii in enumerate(idx):
        if bool(ii) == bool(np.isnan(dv.corr[k])):
            ctx.violation('dates', '%s: window %d holds %d correlations, but '
                          'its correlation coefficient is %s' % (
                              n, k, len(ii), dv.corr[k]))
            return
    if hard(c):
        return
    first = [k for k, ii in enumerate(idx) if ii and max(ii) < c['step']]
    last = [k for k, ii in enumerate(idx) if ii and min(ii) >= c['step']]
    if len(first) < 2 or len(last) < 2:
        return
    diff = np.median(dv.value[last]) - np.median(dv.value[first])
    want = c['eps'] * sc['step']
    ctx.probe('stretch recovered')
    dev = max(np.abs(dv.value[k] - np.median(dv.value[k])).max()
              for k in (first, last))
    if abs(diff - want) > 1.51 * sc['step'] or dev > 1.51 * sc['step']:
        ctx.violation('stretch', '%s: imposed stretch %.4f from correlation '
                      '%d on, recovered %.4f (%s)' % (
                          n, want, c['step'], diff, np.round(dv.value, 4)))
    elif min(dv.corr[first + last]) < .95:
        ctx.violation('stretch', '%s: best correlation %s for signals that '
                      'only differ by a stretch' % (n, np.round(dv.corr, 3)))
