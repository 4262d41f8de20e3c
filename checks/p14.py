"""P14: waveform coherence runs are complete, right and rank independent."""
import copy
import os
import random
import warnings

import numpy as np

from sim import world
from . import dvgen

RUNS = {'quick': 160, 'thorough': 6000}
RULE = (
    'scenario = 1-4 correlation files with 1-3 channel combinations each, '
    'hourly correlations with gaps and noise; some files not HDF5, cut short, '
    'without unstacked data, with too short lapse time, all NaN or of mixed '
    'lengths; 1-3 frequency bands (some not computable), 1-3 lapse windows, '
    'reference methods, preprocessing, save_comps; requested codes; 1-4 '
    'processes, listing order, rank schedule, faults (read/write errors, full '
    'disk, torn writes, failed allocation, kill). Oracle: numpy model of the '
    'coherence for every combination, and the mean over the combinations. '
    'Non-trivial: at least one average compared. State = (processes, '
    'combinations good/bad, bands, lapse windows, options, faults).')
REAL = ['seismic.monitor.monitor.Monitor', 'seismic.monitor.wfc',
        'seismic.monitor.stretch_mod.compute_wfc',
        'seismic.monitor.post_corr_process', 'seismic.correlate.stream',
        'seismic.db.corr_hdf5', 'HDF5/npz on tmpfs']
STUB = ['MPI communicator', 'rank schedule', 'directory order',
        'fault seams around files and h5py', 'wall clock']
NWIN = 12


def gen(seed, tier):
    r = random.Random('p14-%s' % seed)
    files = dvgen.gen_files(r, NWIN)
    if r.random() < .35:
        f = r.choice(files)
        f['bad'] = r.choice(['garbage', 'cut', 'nosub', 'short'])
        f['frac'] = r.choice([.1, .5, .9])
    if r.random() < .25:
        r.choice(r.choice(files)['combos'])['bad'] = r.choice(
            ['nan', 'length'])
    if r.random() < .3:
        for f in files:
            f['rate'] = r.choice([4., 5., 6., 10.])
    for f in files:
        for c in f['combos']:
            if c.get('bad') == 'length':
                # the one that differs has to exist
                c['gaps'] = [g for g in c['gaps'] if g != NWIN // 2]
    w = dvgen.WIN
    inc = r.choice([1, 1, 2])
    bands = r.sample([[.3, 1.2], [.5, 1.], [.25, .9], [.4, 1.5]],
                     r.choice([1, 1, 2, 3]))
    if r.random() < .15:
        # above the Nyquist frequency: cannot be computed
        bands[r.randrange(len(bands))] = [1., 5.5]
    one = r.random() < .5
    n = r.choice([1, 2, 3])
    starts = r.sample([0, 0.5, 1.25, 2.2, 3, 4.5, 7, 9.3, 26], n)
    lens = [r.choice([8, 12, 9.4, 20])] * n
    if r.random() < .4:
        lens = [r.choice([4, 8, 12, 9.4, 20]) for _ in starts]
        if n > 1 and r.random() < .4:
            # the same start, another length
            starts[1], lens[0], lens[1] = starts[0], 8, r.choice([4, 12])
    pre = []
    if r.random() < .2:
        pre.append({'function': 'smooth', 'args': {
            'wsize': 4, 'wtype': 'hanning', 'axis': 1}})
    if r.random() < .1:
        pre.append({'function': 'select_time', 'args': {
            'start': [3, 0, 0], 'end': [9, 0, 0]}})
    k = r.choice([0, 0, 0, -2, 3])
    wfc = {'start': k * w, 'end': (NWIN + r.choice([0, 0, -3, 2])) * w,
           'date_inc': inc * w, 'win_len': w * inc * r.choice([1, 1, 2]),
           'bands': bands, 'scalar_band': one and len(bands) == 1,
           'tw_start': starts, 'tw_len': lens,
           'scalar_tw': r.random() < .5, 'save': r.random() < .5,
           'pre': pre, 'ref': r.choice([
               {'win_inc': 0, 'method': 'mean', 'percentile': 50},
               {'win_inc': 0, 'method': 'mean', 'percentile': 50},
               {'win_inc': 0, 'method': 'median', 'percentile': 50},
               {'win_inc': 0, 'method': 'norm_mean', 'percentile': 50},
               {'win_inc': 0, 'method': 'similarity_percentile',
                'percentile': 50},
               {'win_inc': .25, 'method': 'mean', 'percentile': 50},
               {'win_inc': [.2, .3], 'method': 'mean', 'percentile': 50}])}
    if len(np.arange(wfc['start'], wfc['end'], wfc['date_inc'])) < 6:
        # too few windows to be smoothed
        wfc['pre'] = [p for p in pre if p['function'] != 'smooth']
    nets = sorted({n for f in files for n in f['net'].split('-')})
    stas = sorted({n for f in files for n in f['sta'].split('-')})

    def want(codes):
        k = r.random()
        if k < .7:
            return '*'
        if k < .8:
            return r.choice(codes)[0] + '*'
        return r.sample(codes, r.choice([len(codes), r.randint(
            1, len(codes))]))
    faults = []
    if r.random() < .5:
        for _ in range(r.choice([1, 1, 2])):
            site, act = r.choice([
                ('file.open-w', 'enospc'), ('file.open-w', 'eacces'),
                ('file.write', 'enospc'), ('file.write', 'short'),
                ('file.write', 'torn'), ('h5.open', 'eio'),
                ('h5.open', 'emfile'), ('h5.read', 'eio'),
                ('h5.read', 'memerr'), ('*', 'kill'), ('*', 'eio'),
                ('dir.make', 'enospc'), ('clock.now', 'clockjump')])
            f = {'site': site, 'nth': r.choice([1, 1, 2, 3, 5, 8, 13, 30]),
                 'act': act}
            if act in ('short', 'torn'):
                f['frac'] = r.choice([0., .3, .7])
            if act == 'clockjump':
                f['by'] = r.choice([-7200, 90000])
            faults.append(f)
    return {'files': files, 'wfc': wfc, 'step': .001, 'lts': 30,
            'network': want(nets), 'station': want(stas),
            'size': r.choice([1, 2, 2, 3, 4]), 'faults': faults,
            'sched': seed}


def shrink(sc):
    if len(sc['files']) > 1:
        for i in range(len(sc['files'])):
            s = copy.deepcopy(sc)
            del s['files'][i]
            yield s
    for i, f in enumerate(sc['files']):
        if len(f['combos']) > 1:
            for j in range(len(f['combos'])):
                s = copy.deepcopy(sc)
                del s['files'][i]['combos'][j]
                yield s
        if f['bad']:
            s = copy.deepcopy(sc)
            s['files'][i]['bad'] = None
            yield s
        for j, c in enumerate(f['combos']):
            for k, v in (('gaps', []), ('noise', 0), ('bad', None)):
                if c.get(k) != v and c.get(k) is not None:
                    s = copy.deepcopy(sc)
                    s['files'][i]['combos'][j][k] = v
                    yield s
    for k, v in (('faults', []), ('network', '*'), ('station', '*'),
                 ('size', 1), ('size', 2)):
        if sc[k] != v and not (k == 'size' and v > sc[k]):
            yield dict(sc, **{k: v})
    w = sc['wfc']
    for i in range(len(w['bands'])):
        if len(w['bands']) > 1:
            yield dict(sc, wfc=dict(
                w, bands=w['bands'][:i] + w['bands'][i + 1:]))
    for i in range(len(w['tw_start'])):
        if len(w['tw_start']) > 1:
            yield dict(sc, wfc=dict(
                w, tw_start=w['tw_start'][:i] + w['tw_start'][i + 1:],
                tw_len=w['tw_len'][:i] + w['tw_len'][i + 1:]))
    base = {'start': 0, 'end': NWIN * dvgen.WIN, 'date_inc': dvgen.WIN,
            'win_len': dvgen.WIN, 'pre': [], 'save': False,
            'ref': {'win_inc': 0, 'method': 'mean', 'percentile': 50}}
    for k, v in base.items():
        if w[k] != v:
            yield dict(sc, wfc=dict(w, **{k: v}))


def options(sc, proj, net='*', sta='*'):
    from obspy import UTCDateTime
    w = sc['wfc']
    o = world.options(proj, network=net, station=sta, lts=sc['lts'])
    fmin, fmax = [b[0] for b in w['bands']], [b[1] for b in w['bands']]
    tws, twl = list(w['tw_start']), list(w['tw_len'])
    if w['scalar_band'] and len(fmin) == 1:
        fmin, fmax = fmin[0], fmax[0]
    if w['scalar_tw'] and len(set(twl)) == 1:
        twl = twl[0]
        if len(tws) == 1:
            tws = tws[0]
    o['dv'] = {'subdir': 'vel_change', 'start_date': '2020-01-01',
               'end_date': '2020-01-02', 'win_len': 3600, 'date_inc': 3600}
    o['wfc'] = {
        'subdir': 'wfc', 'start_date': str(UTCDateTime(
            world.T0 + w['start'])),
        'end_date': str(UTCDateTime(world.T0 + w['end'])),
        'win_len': w['win_len'], 'date_inc': w['date_inc'],
        'freq_min': fmin, 'freq_max': fmax, 'tw_start': tws, 'tw_len': twl,
        'dt_ref': copy.deepcopy(w['ref']),
        'preprocessing': copy.deepcopy(w['pre']), 'save_comps': w['save']}
    return o


def wfc_job(sim, size, opts):
    from seismic.monitor.monitor import Monitor

    def body(rank):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            m = Monitor(copy.deepcopy(opts))
            m.compute_waveform_coherence_bulk()
        return True
    return sim.run_job(size, body)


def name(f, cha, band, ts, tl):
    return 'WFC-%s.%s.%s.f%a-%a.tw%a-%a.npz' % (
        f['net'], f['sta'], cha, band[0], band[1], ts, tl)


def computable(sc, f, c):
    """Indices of bands and lapse windows that can be computed"""
    w = sc['wfc']
    if f['bad'] or c.get('bad') == 'length':
        return []
    if c.get('bad') == 'nan' and w['ref']['method'] == 'similarity_percentile':
        # no correlation to choose
        return []
    out = []
    for b in range(len(w['bands'])):
        # the first impossible band ends the combination
        if w['bands'][b][1] >= f['rate'] / 2:
            break
        for k, (ts, tl) in enumerate(zip(w['tw_start'], w['tw_len'])):
            if ts + tl > sc['lts']:
                # the window reaches beyond the correlations
                continue
            out.append((b, k))
    return out


def matrix(f, c, sc):
    """{start index of the hour: correlation}"""
    trs = dvgen.corr_traces(f, c, NWIN, sc['lts'], sc['step'])
    return [(int(round(t.stats.corr_start.timestamp - world.T0)),
             t.data.astype(float)) for t in trs]


def model(sc, f, c, band, ts, tl):
    """Coherence (windows) for plain configurations"""
    from scipy.signal import butter, lfilter
    w = sc['wfc']
    rows = matrix(f, c, sc)
    n = len(rows[0][1])
    mat = []
    for a in np.arange(w['start'], w['end'], w['date_inc']):
        use = [d / np.abs(d).max() for t, d in rows
               if a <= t < a + w['win_len']]
        mat.append(np.mean(use, axis=0) if use else np.full(n, np.nan))
    mat = np.array(mat)
    b, a = butter(3, np.array(band) / (f['rate'] / 2), btype='band')
    mat = lfilter(b, a, mat, axis=1)
    mat = lfilter(b, a, mat[:, ::-1], axis=1)[:, ::-1]
    ok = ~np.isnan(mat).any(axis=1)
    if not ok.any():
        return np.full(len(mat), np.nan)
    ref = mat[ok].mean(axis=0)
    i0, i1 = int(round(ts * f['rate'])), int(round((ts + tl) * f['rate']))
    lag = np.abs(np.arange(n) - (n - 1) // 2)
    m = (lag >= i0) & (lag < i1)
    out = np.full(len(mat), np.nan)
    for i in np.flatnonzero(ok):
        out[i] = np.dot(mat[i, m], ref[m]) / np.sqrt(
            np.dot(mat[i, m], mat[i, m]) * np.dot(ref[m], ref[m]))
    return out


def exact(sc, f, ts, tl):
    """The window starts and ends on samples"""
    return all(abs(x * f['rate'] - round(x * f['rate'])) < 1e-6
               for x in (ts, ts + tl))


def plain(sc):
    return not sc['wfc']['pre'] and sc['wfc']['ref']['win_inc'] == 0 and \
        sc['wfc']['ref']['method'] == 'mean'


def close(a, b, tol=1e-6):
    return a.shape == b.shape and np.allclose(
        a, b, rtol=0, atol=tol, equal_nan=True)


def refs(d):
    return sorted(k for k in d if k.startswith('reftr') and
                  not k.endswith('_av'))


def nanmean(ar):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return np.nanmean(ar, axis=0)


def run(sc, ctx):
    proj = os.path.join(ctx.disk, 'proj')
    cdir = os.path.join(proj, 'corr')
    opts = options(sc, proj, sc['network'], sc['station'])
    w = sc['wfc']
    sim = ctx.newsim(preempt=.3)
    dvgen.write_corrs(cdir, sc['files'], opts, NWIN, sc['lts'], sc['step'])
    before = world.tree_digest(cdir)
    res = wfc_job(sim, sc['size'], opts)
    fired = dict(sim.fired)
    ctx.take(sim, {'collective-mismatch', 'buffer-mismatch'})
    f = ' '.join(map(str, fired))
    if res.outcome == 'killed':
        ctx.probe('killed')
    elif res.outcome != 'ok':
        # set-up (folders, log files) may fail, but only before computing
        if res.outcome == 'deadlock' or not any(
                x in f for x in ('dir.', 'file.', 'clock.', 'mpi.')) or (
                'mpi.' not in f and any('_bulk' in (t or '')
                                        for t in res.tbs)):
            ctx.violation('aborted', 'run with %d processes: %s %s (faults '
                          '%s)\n%s' % (
                              sc['size'], res.outcome, res.detail, fired,
                              ''.join(t or '' for t in res.tbs)[-900:]))
            return
        ctx.probe('refused to start')
    if world.tree_digest(cdir) != before:
        ctx.violation('input-changed', 'the correlation files were modified')
        return
    got = dvgen.npz_dir(os.path.join(proj, 'wfc'))
    # What each combination contributes: every combination alone
    contrib = {}
    for i, fl in enumerate(sc['files']):
        if not dvgen.requested(fl, sc['network'], sc['station']):
            continue
        combos = [c for c in fl['combos'] if computable(sc, fl, c)]
        if not combos:
            continue
        p1 = os.path.join(ctx.disk, 'ref%d' % i)
        os.makedirs(os.path.join(p1, 'corr'))
        o = options(sc, p1)
        o['wfc']['save_comps'] = True
        s = dvgen.path(cdir, fl)
        os.link(s, os.path.join(p1, 'corr', os.path.basename(s)))
        r1 = wfc_job(sim, 1, o)
        if r1.outcome != 'ok':
            ctx.violation('reference', 'single file run: %s %s\n%s' % (
                r1.outcome, r1.detail, (r1.tbs[0] or '')[-900:]))
            return
        alone = dvgen.npz_dir(os.path.join(p1, 'wfc'))
        for c in combos:
            for b, k in computable(sc, fl, c):
                ts, tl = w['tw_start'][k], w['tw_len'][k]
                n = name(fl, c['cha'], w['bands'][b], ts, tl)
                d = alone.get(n, 'missing')
                if isinstance(d, str):
                    ctx.violation('missing', '%s with a single process and '
                                  'file: %s' % (n, d))
                    return
                contrib.setdefault((i, b, k), {})[c['cha']] = d
                if plain(sc) and exact(sc, fl, ts, tl):
                    m = model(sc, fl, c, w['bands'][b], ts, tl)
                    g = d.get('reftr_0', np.zeros(0)).ravel()
                    if not close(g, m, 2e-4):
                        ctx.violation('value', '%s: coherence %s, expected %s'
                                      % (n, np.round(g, 4), np.round(m, 4)))
                        return
                    if not close(d['mean'], nanmean(m), 2e-4):
                        ctx.violation('value', '%s: mean coherence %s, '
                                      'expected %s' % (
                                          n, d['mean'], np.nanmean(m)))
                        return
                    ctx.probe('model compared')
    if compare(sc, ctx, res, got, contrib, fired):
        ctx.key(sc['size'], len(sc['files']), len(contrib),
                len(w['bands']), len(w['tw_start']), w['ref']['method'],
                w['save'], sorted(map(str, fired)))


def compare(sc, ctx, res, got, contrib, fired):
    w = sc['wfc']
    complete = res.outcome == 'ok'
    allowed = set()
    lost = []
    damage = {}     # {file: number of independent losses}
    done = 0
    for (i, b, k), cs in sorted(contrib.items()):
        f = sc['files'][i]
        ts, tl = w['tw_start'][k], w['tw_len'][k]
        gone = set()
        if w['save']:
            for cha in sorted(cs):
                n = name(f, cha, w['bands'][b], ts, tl)
                allowed.add(n)
                d = dvgen.same(got.get(n, 'missing'), cs[cha])
                if not d:
                    continue
                if n in got and not isinstance(got[n], str):
                    ctx.violation('differs', '%s with %d processes, faults '
                                  '%s: %s' % (n, sc['size'], fired, d))
                    return False
                gone.add(cha)
                lost.append(n)
        n = name(f, 'av', w['bands'][b], ts, tl)
        allowed.add(n)
        g = got.get(n, 'missing')
        if isinstance(g, str):
            lost.append('%s (%s)' % (n, g))
            # without contributions there is nothing to be written
            damage[i] = damage.get(i, 0) + len(gone) + (gone != set(cs))
            continue
        k0 = refs(cs[sorted(cs)[0]])
        if refs(g) != k0:
            ctx.violation('differs', '%s holds %s, expected %s' % (
                n, refs(g), k0))
            return False
        # the mean over all combinations, or what faults left of them
        hit = None
        chas = sorted(cs)
        for bits in sorted(range(1, 2**len(chas)),
                           key=lambda x: -bin(x).count('1')):
            sub = [c for j, c in enumerate(chas) if bits >> j & 1]
            if all(close(g[x], nanmean([cs[c][x] for c in sub]))
                   for x in k0):
                hit = sub
                break
        if hit is None:
            ctx.violation('average', '%s with %d processes, faults %s: %s is '
                          'not the mean over the combinations %s' % (
                              n, sc['size'], fired,
                              np.round(g[k0[0]].ravel(), 4), {
                                  c: list(np.round(cs[c][k0[0]].ravel(), 4))
                                  for c in chas}))
            return False
        lost += ['%s in %s' % (c, n) for c in set(chas) - set(hit)]
        damage[i] = damage.get(i, 0) + len(gone | set(chas) - set(hit))
        done += 1
    extra = sorted(set(got) - allowed)
    if extra:
        ctx.violation('unrequested', '%s for network %s station %s' % (
            extra, sc['network'], sc['station']))
        return False
    # a fault in a correlation file may cost all that file gives, another
    # one costs a single result
    left = sorted(damage.values())
    n5 = sum(v for k, v in fired.items() if 'h5.' in str(k))
    left = left[:len(left) - n5] if n5 else left
    if complete and not any('dir.' in str(k) for k in fired) and \
            sum(left) > sum(fired.values()) - n5:
        ctx.violation('incomplete', 'lost %s with %d processes, faults %s' % (
            lost, sc['size'], fired))
        return False
    ctx.probe('averages compared', done)
    ctx.nontrivial = done > 0
    return True
