"""P07: exactly the requested correlations, against a reference correlator."""
import copy
import random

import numpy as np
from obspy import UTCDateTime

from sim import world
from . import corrgen, p03

RUNS = {'quick': 340, 'thorough': 5000}
RULE = (
    'scenario = random network (prefix codes, several channels), combination '
    'method, requested combinations, window lengths, sampling rates, '
    'sub-sample offsets, whole-interval and other gaps, some time and '
    'frequency domain steps, 1-5 ranks, schedule; oracle = a reference '
    'correlator (numpy) that derives pairs, windows, samples, lag times and '
    'coordinates from the archive. Non-trivial: records compared sample by '
    'sample. State = (pairs, options, ranks).')
REAL = ['seismic.correlate.* (Correlator, preprocessing, CorrStream)',
        'seismic.db.corr_hdf5', 'seismic.trace_data.waveform.Store_Client',
        'h5py/HDF5 files', 'obspy MSEED + SDS client', 'file system (tmpfs)']
STUB = ['MPI communicator (simulated, in process)', 'wall clock',
        'scheduler (simulated)', 'directory order (seeded permutation)']

TDNAMES = ['detrend', 'normalizeStandardDeviation', 'signBitNormalization',
           'clip']
FDNAMES = ['spectralWhitening', 'FDfilter']


def gen(seed, tier):
    sc = corrgen.gen(seed, tier)
    r = random.Random('p07-%s' % seed)
    o = sc['opt']
    o['psub'], o['pre'] = False, []
    o['delsub'] = False
    o['td'] = [s for s in corrgen.TDSTEPS
               if s['function'].split('.')[-1] in TDNAMES and r.random() < .25]
    o['fd'] = [s for s in corrgen.FDSTEPS
               if s['function'].split('.')[-1] in FDNAMES and r.random() < .25]
    sc['ranks'] = r.choice([1, 2, 2, 3, 4, 5])
    span = [o['start'] - 100, o['start'] + (o['nread'] - 1) * o['read_inc']
            + o['read_len'] + 100]
    for ch in sc['chans']:
        x = r.random()
        if x < .5:
            ch['segs'] = [list(span)]
        elif x < .75:
            k = r.randrange(o['nread'])
            s = o['start'] + k * o['read_inc']
            ch['segs'] = [y for y in ([span[0], s - 30], [
                s + o['read_len'] + 30, span[1]]) if y[1] > y[0]] or [
                    [span[0] - 4000, span[0] - 3900]]
            if o['read_inc'] - o['read_len'] < 30:
                ch['segs'] = [y for y in ([span[0], s - .01], [
                    s + o['read_len'] + .01, span[1]]) if y[1] > y[0]]
        if r.random() < .15:
            # more, or with resampling, and the edges are ambiguous
            ch['offset'] = .1
            ch['rate'] = 2.
    if o['method'] == 'betweenStations' and r.random() < .6:
        stas = sorted({(c['net'], c['sta']) for c in sc['chans']})
        combis = []
        for i, a in enumerate(sc['chans']):
            for b in sc['chans'][i + 1:]:
                if (a['net'], a['sta']) == (b['net'], b['sta']):
                    continue
                if r.random() < .4:
                    x, y = (a, b) if r.random() < .7 else (b, a)
                    s = '%s-%s.%s-%s' % (x['net'], y['net'], x['sta'],
                                         y['sta'])
                    if r.random() < .3:
                        s += '.%s-%s' % (x['cha'], y['cha'])
                    combis.append(s)
        if combis and len(stas) > 1:
            o['xcomb'] = combis
    sc['again'] = r.random() < .2
    if r.random() < .15:
        t = o['start'] + r.randrange(o['nread']) * o['read_inc']
        a, b = r.choice([(t - .3, t + o['read_len'] + .3),
                         (t - 50, t + o['read_len'] + 50),
                         (t + 70, t + 140)])
        sc['mask'] = [a, b]
        o['pre'] = [{'function': corrgen.PS + 'stream_mask_at_utc',
                     'args': {'starts': [str(UTCDateTime(world.T0 + a))],
                              'ends': [str(UTCDateTime(world.T0 + b))]}}]
    elif r.random() < .3 and not o['psub']:
        # part of it exists, the rest is preprocessed window by window
        stas = sorted({(c['net'], c['sta']) for c in sc['chans']})
        n = r.randrange(1, o['nread'] + 1)
        sub = sorted(r.sample(stas, max(1, len(stas) - r.choice([0, 1, 1]))))
        if n < o['nread'] or len(sub) < len(stas):
            sc['first'] = [n, [list(x) for x in sub]]
    return sc


def shrink(sc):
    if sc.get('first'):
        s = copy.deepcopy(sc)
        del s['first']
        yield s
    if sc['ranks'] > 1:
        s = copy.deepcopy(sc)
        s['ranks'] = 1
        yield s
    if sc.get('mask'):
        s = copy.deepcopy(sc)
        del s['mask']
        s['opt']['pre'] = []
        yield s
    for i in range(len(sc['opt'].get('xcomb', []))):
        s = copy.deepcopy(sc)
        del s['opt']['xcomb'][i]
        if not s['opt']['xcomb']:
            del s['opt']['xcomb']
        yield s
    for s in corrgen.shrink(sc):
        if s['opt']['pre'] == sc['opt']['pre']:
            yield s


# ------------------------------------------------------------- reference
def norm(x, y):
    """order of a combination in the database"""
    return (x, y) if '.'.join(x) <= '.'.join(y) else (y, x)


def pairs(sc):
    o = sc['opt']
    ids = sorted((c['net'], c['sta'], c['cha']) for c in sc['chans'])
    out = set()
    for i, a in enumerate(ids):
        for j, b in enumerate(ids):
            if j < i:
                continue
            m = o['method']
            if m == 'betweenStations' and a[:2] == b[:2]:
                continue
            if m == 'betweenComponents' and (
                    a[:2] != b[:2] or a[2][-1] == b[2][-1]):
                continue
            if m == 'autoComponents' and i != j:
                continue
            out.add(norm(a, b))
    if o.get('xcomb'):
        want = set()
        for x in o['xcomb']:
            p = [y.split('-') for y in x.split('.')]
            for a, b in out:
                for u, v in ((a, b), (b, a)):
                    if all(q == [u[n], v[n]] for n, q in enumerate(p)):
                        want.add((a, b))
        out = want
    return out


def coverage(ch, a, b, mask=None):
    """'full', 'none' or 'part' of the interval [a, b]"""
    if mask and mask[0] <= a - .1 and mask[1] >= b + .1:
        return 'none'
    if mask and mask[0] < b + 1 and mask[1] > a - 1:
        c = coverage(ch, a, b)
        return 'none' if c == 'none' else 'part'
    # segments hold samples in [start, end)
    hit = 0
    for s, e in ch['segs']:
        if s <= a and e >= b + 1 / ch['rate']:
            return 'full'
        if e > a - 1 and s < b + 1:
            hit += 1
    return 'part' if hit else 'none'


def process(sc, ch, a, b, ws=None):
    """-> (start time rel. T0, samples) of the read interval [a, b]; only the
    window from ws if it was preprocessed on its own"""
    st = world.chan_stream(sc['data'], ch, [[a - 5, b + 5]])
    assert len(st) == 1
    tr = st[0]
    tr.trim(UTCDateTime(world.T0 + a), UTCDateTime(world.T0 + b))
    sr = 2
    if ch['rate'] != sr:
        f = ch['rate'] / sr
        tr.filter('lowpass_cheby_2', freq=ch['rate'] * .5 / f, maxorder=12)
        if f == int(f):
            tr.decimate(int(f), no_filter=True)
        else:
            tr.resample(sr)
    x = tr.data.astype(np.float32).astype(float)
    n = len(x)
    start = tr.stats.starttime.timestamp - world.T0
    if ws is None:
        return start, edges(x)
    i0 = int(np.round((ws - start) * sr))
    i1 = i0 + int(round(sc['opt']['len'] * sr))
    x[i0:i1] = edges(x[i0:i1], min(20, sc['opt']['len'] / 20))
    return start, x


def edges(x, taper=20, sr=2):
    n = len(x)
    k = np.arange(n)
    x = x - np.polyval(np.polyfit(k, x, 1), k)
    tl = round(taper * sr)
    if 2 * tl <= n:
        w = np.sin(np.linspace(0, np.pi, 2 * tl))
        x[:tl] *= w[:tl]
        x[-tl:] *= w[-tl:]
    return x


def window(sc, start, x, ws):
    """samples of the window from ws; float32 row as the correlator has it"""
    o = sc['opt']
    sr = 2.
    n = int(round(o['len'] * sr))
    i0 = int(np.round((ws - start) * sr))
    row = np.zeros(n + 1, dtype=np.float32)
    for i in range(n):
        if 0 <= i0 + i < len(x):
            row[i] = x[i0 + i]
    return start + i0 / sr, row


def steps(o, row):
    from seismic.utils.fetch_func_from_str import func_from_str
    par = {'lengthToSave': o['lts'], 'center_correlation': o['center'],
           'normalize_correlation': o['norm'], 'sampling_rate': 2}
    A = np.array([row], dtype=np.float32)
    for s in o['td']:
        A = func_from_str(s['function'])(A, dict(s['args']), dict(par))
    return A[0].astype(float)


def padded(o):
    """length of the padded windows: the interpolation of sub-sample shifts
    and the steps in the frequency domain depend on it"""
    from scipy.fftpack import next_fast_len
    return next_fast_len(int(round(o['len'] * 2)) + 1 + 2 * o['lts'])


def spectrum(o, row):
    from seismic.utils.fetch_func_from_str import func_from_str
    n = padded(o)
    B = np.fft.rfft(row, n)
    f = np.fft.rfftfreq(n, .5)
    for s in o['fd']:
        if s['function'].endswith('spectralWhitening'):
            with np.errstate(all='ignore'):
                B = np.where(np.abs(B) > 0, B / np.abs(B), 0)
            B[0] = 0
        else:
            B = func_from_str(s['function'])(
                np.array([B]), dict(s['args']), {'freqs': f})[0]
    return n, B


def correlate(o, ra, ta, rb, tb):
    n, A = spectrum(o, ra)
    _, B = spectrum(o, rb)
    f = np.fft.rfftfreq(n, .5)
    off = ta - tb
    if not o['center']:
        off -= np.fix(off * 2) / 2
    c = np.fft.irfft(A.conj() * B * np.exp(2j * np.pi * f * off), n)
    if o['norm']:
        ea = np.fft.irfft(A * A.conj(), n)[0]
        eb = np.fft.irfft(B * B.conj(), n)[0]
        c = c / np.sqrt(ea * eb)
    k = int(np.ceil(o['lts'] * 2))
    return np.concatenate((c[-k:], c[:k + 1]))


def close(got, want, free):
    """None or text; up to rounding, and a common factor near one"""
    got = got.astype(float)
    if not np.isfinite(want).all() or not np.abs(want).max() > 0:
        return None
    if not np.isfinite(got).all():
        return 'stored samples are not finite'
    s = float(got @ want / (want @ want))
    if not (.88 if free else .98) < s < 1.02:
        return 'amplitude differs by a factor %.3f' % s
    e = np.abs(got - s * want).max() / np.abs(want).max()
    if e > .02:
        return 'samples differ by %.3g of the maximum' % e
    return None


def run(sc, ctx):
    arch = corrgen.setup(ctx, sc)
    o = sc['opt']
    pre = copy.deepcopy(o['pre'])
    for s in pre:
        for k in ('starts', 'ends'):
            s['args'][k] = [UTCDateTime(x) for x in s['args'][k]]
    opts, cdir = corrgen.opts_of(ctx, sc, 'p', pre=pre)
    sim = ctx.newsim(sc['sched'])
    jobs = [opts] * (2 if sc['again'] else 1)
    old = None
    if sc.get('first'):
        nr, sub = sc['first']
        nr = min(nr, o['nread'])
        kw = {'pre': pre, 'nread': nr, 'psub': True}
        have = [x for x in sub if x in [
            [c['net'], c['sta']] for c in sc['chans']]]
        if have:
            kw.update(network=[x[0] for x in have],
                      station=[x[1] for x in have])
        jobs = [corrgen.opts_of(ctx, sc, 'p', **kw)[0]] + [
            corrgen.opts_of(ctx, sc, 'p', pre=pre, psub=True)[0]] * len(jobs)
    for i, opts in enumerate(jobs):
        if i == 1 and sc.get('first'):
            old = {k for k in world.db_dump(cdir)
                   if not k[1].startswith('/stack')}
        res = world.correlate(sim, sc['ranks'], arch, opts)
        ctx.take(sim)
        if not ctx.violations and res.outcome != 'ok':
            tb = [x for x in res.tbs if x]
            if not pairs(sc):
                ctx.probe('nothing requested')
                return
            if sc.get('first') and i == 0:
                # of a part
                ctx.probe('first run refused')
                return
            ctx.violation(res.outcome, '%s\n%s' % (
                res.detail, (tb[0] if tb else '')[-1200:]))
        if ctx.violations:
            return
    got = {}
    for (f, k), v in world.db_dump(cdir).items():
        if k.startswith('/stack'):
            continue
        p = k.split('/')
        got.setdefault((tuple(p[2].split('-')), tuple(p[3].split('-')),
                        tuple(p[4].split('-'))), []).append(
            (UTCDateTime(p[5]).timestamp - world.T0, p[5], p[6], v, f,
             not old or (f, k) in old))
    want = pairs(sc)
    chans = {(c['net'], c['sta'], c['cha']): c for c in sc['chans']}
    for g in sorted(got):
        pr = tuple((g[0][n], g[1][n], g[2][n]) for n in (0, 1))
        if pr not in want:
            ctx.violation('extra-pair', 'stored, but not requested: %s '
                          '(method %s, xcombinations %s)' % (
                              pr, o['method'], o.get('xcomb')))
            return
    proc = {}
    compared = 0
    nwin = int(np.ceil(o['read_len'] / o['inc']))
    for a, b in sorted(want):
        recs = list(got.get(tuple(zip(a, b)), []))
        for i in range(o['nread']):
            t0 = o['start'] + i * o['read_inc']
            t1 = t0 + o['read_len']
            cov = [coverage(chans[x], t0, t1, sc.get('mask')) for x in (a, b)]
            for j in range(nwin):
                ws = t0 + j * o['inc']
                mine = [r for r in recs if abs(r[0] - ws) < .5001]
                other = [r for r in recs if r not in mine]
                if len(mine) > 1 and o['inc'] > 1:
                    ctx.violation('double', '%s-%s: two records for the '
                                  'window at %s: %s' % (
                                      a, b, ws, [m[1] for m in mine]))
                    return
                recs = other
                if 'none' in cov and mine:
                    ctx.violation('no-data', '%s-%s: record %s, but no data '
                                  'in %s' % (a, b, mine[0][1], cov))
                    return
                if cov == ['full', 'full'] and not mine:
                    ctx.violation('missing', '%s-%s: no record for the '
                                  'window %s of interval %d (method %s, '
                                  'xcombinations %s, %d ranks)' % (
                                      a, b, UTCDateTime(world.T0 + ws), i,
                                      o['method'], o.get('xcomb'),
                                      sc['ranks']))
                    return
                if cov != ['full', 'full']:
                    continue
                w = None if mine[0][5] else ws
                for x in (a, b):
                    if (x, i, w) not in proc:
                        proc[(x, i, w)] = process(sc, chans[x], t0, t1, w)
                ta, ra = window(sc, *proc[(a, i, w)], ws)
                tb, rb = window(sc, *proc[(b, i, w)], ws)
                if w is not None:
                    ctx.probe('preprocessed on its own')
                msg = record(o, a, b, mine[0], ta, ra, tb, rb)
                if msg:
                    ctx.violation('content', '%s-%s window %s: %s' % (
                        a, b, UTCDateTime(world.T0 + ws), msg))
                    return
                compared += 1
        if recs:
            ctx.violation('extra-window', '%s-%s: %s is no window of the '
                          'request' % (a, b, recs[0][1]))
            return
    ctx.probe('records compared', compared)
    ctx.nontrivial = compared > 0
    ctx.key(sorted(want), sc['ranks'], o['method'], o['len'], o['lts'],
            o['center'], o['norm'])


def record(o, a, b, rec, ta, ra, tb, rb):
    t, s, e, (data, h), f, _ = rec
    if abs(t - max(ta, tb)) > 2e-3:
        return 'corr_start is %s, expected %s' % (s, UTCDateTime(
            world.T0 + max(ta, tb)))
    ee = min(ta, tb) + o['len']
    te = UTCDateTime(e).timestamp - world.T0
    if abs(te - ee) > 1.001:
        return 'corr_end is %s, expected %s' % (e, UTCDateTime(
            world.T0 + ee))
    k = int(np.ceil(o['lts'] * 2))
    if data.shape != (2 * k + 1,):
        return 'has shape %s, expected %d samples' % (data.shape, 2 * k + 1)
    off = ta - tb
    ro = 0 if o['center'] else np.fix(off * 2) / 2
    if abs(h['start_lag'] - (-k / 2 - ro)) > 1e-4:
        return 'start_lag is %s, expected %s' % (
            h['start_lag'], -k / 2 - ro)
    if h['sampling_rate'] != 2:
        return 'sampling rate %s' % h['sampling_rate']
    for n, (la, lo, el) in (('st', world.coords(*a[:2])),
                            ('ev', world.coords(*b[:2]))):
        have = [h.get(n + x) for x in ('la', 'lo', 'el')]
        if None in have or max(
                abs(x - y) for x, y in zip(have, (la, lo, el))) > 1e-4:
            return '%s coordinates are %s, expected %s' % (
                n, have, (la, lo, el))
    sep = '.%s-%s' % (a[2], b[2])
    name = '%s-%s.%s-%s' % (a[0], b[0], a[1], b[1])
    if f not in (name + '.h5', name + sep + '.h5'):
        return 'is in file %s' % f
    pa, pb = steps(o, ra), steps(o, rb)
    want = correlate(o, pa, ta, pb, tb)
    return close(data, want, o['norm'] or o['fd'])
