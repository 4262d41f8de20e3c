"""Correlation databases with a known velocity change, and dv/wfc runs."""
import copy
import fnmatch
import os

import numpy as np

from sim import world

WIN = 3600.
T0 = world.T0
CHANS = ['HHZ-HHZ', 'HHE-HHN', 'HHE-HHZ', 'HHN-HHZ', 'BHZ-BHZ', 'HHE-HHE']


def gen_pairs(r, n=None):
    """Station pairs, codes that are prefixes of one another among them"""
    stas = [('XN', 'A'), ('XN', 'AB'), ('XN', 'B'), ('YN', 'A'), ('YN', 'C'),
            ('X', 'A'), ('XN', 'A1'), ('YN', 'AV'), ('XN', 'nav2')]
    allp = [(a, b) for i, a in enumerate(stas) for b in stas[i:]]
    own = [(a, a) for a in stas]
    out = []
    for p in r.sample(own, 3) + r.sample(allp, 6):
        # the order the correlator writes them in
        p = tuple(sorted(p, key='.'.join))
        if p not in out:
            out.append(p)
    r.shuffle(out)
    out = out[:n or r.choice([1, 2, 3, 4])]
    return [{'net': '%s-%s' % (a[0], b[0]), 'sta': '%s-%s' % (a[1], b[1])}
            for a, b in out]


def gen_combo(r, cha, nwin):
    gaps = sorted(r.sample(range(nwin), r.choice([0, 0, 1, 2, 3])))
    return {'cha': cha, 'gaps': gaps, 'step': r.randrange(5, nwin - 4),
            'eps': r.choice([-6, -4, -3, 3, 4, 6]), 'seed': r.randrange(10**6),
            'noise': r.choice([0, .05, .2])}


def gen_files(r, nwin):
    files = gen_pairs(r)
    for f in files:
        f['combos'] = [gen_combo(r, c, nwin) for c in r.sample(
            CHANS, r.choice([1, 1, 2, 3]))]
        f['bad'] = None
        f['rate'] = r.choice([4., 4., 5.])
        f['dist'] = r.choice([None, 0., 3.])
    return files


def corr_traces(f, c, nwin, lts, step):
    """[CorrTrace] for one channel combination"""
    from obspy import UTCDateTime
    from seismic.correlate.stream import CorrTrace
    rate = f['rate']
    zero = f.get('onesided')
    n = int((1 if zero else 2) * lts * rate) + 1
    t = (np.arange(n) - (0 if zero else (n - 1) // 2)) / rate
    rs = np.random.RandomState(c['seed'] % 2**31)
    k = 30
    fr = rs.uniform(.25, 1.1, size=k)
    am = rs.normal(size=k)
    ph = rs.uniform(0, 2 * np.pi, size=k)

    def sig(t):
        return np.sum(am[:, None] * np.cos(
            2 * np.pi * fr[:, None] * t[None] + ph[:, None]), axis=0)
    out = []
    scale = np.std(sig(t))
    net, sta = f['net'], f['sta']
    (la, lo, el), (lb, mo, fl) = [
        world.coords(a, b) for a, b in zip(net.split('-'), sta.split('-'))]
    for i in range(nwin):
        nz = rs.normal(size=n)
        amp = rs.uniform(.5, 2) * 1000
        if i in c['gaps']:
            continue
        v = c['eps'] * step if i >= c['step'] else 0.
        d = amp * (sig(t * np.exp(-v)) + c['noise'] * scale * nz)
        if c.get('bad') == 'nan':
            d = d * np.nan
        if c.get('bad') == 'length' and i == nwin // 2:
            d = d[2:-2]
        a = UTCDateTime(T0 + i * WIN)
        h = {'network': net, 'station': sta, 'channel': c['cha'],
             'location': '00-00', 'sampling_rate': rate,
             'corr_start': a, 'corr_end': a + WIN,
             'start_lag': t[0] + (2 / rate if len(d) != n else 0),
             'stla': la, 'stlo': lo, 'stel': el, 'evla': lb, 'evlo': mo,
             'evel': fl}
        if f['dist'] is not None:
            h['dist'] = f['dist']
            h['az'] = h['baz'] = 0.
        out.append(CorrTrace(d.astype(np.float32), _header=h))
    return out


def path(cdir, f):
    return os.path.join(cdir, '%s.%s.h5' % (f['net'], f['sta']))


def write_corrs(cdir, files, opts, nwin, lts, step, only=None):
    from seismic.correlate.stream import CorrStream
    from seismic.db.corr_hdf5 import CorrelationDataBase
    os.makedirs(cdir, exist_ok=True)
    for i, f in enumerate(files):
        if only is not None and i != only:
            continue
        p = path(cdir, f)
        if f['bad'] == 'garbage':
            with open(p, 'wb') as fh:
                fh.write(b'this is not an HDF5 file' * 40)
            continue
        co = copy.deepcopy(opts['co'])
        l1 = 3 if f['bad'] == 'short' else lts
        co['corr_args']['lengthToSave'] = l1
        with CorrelationDataBase(p, co, mode='a') as cdb:
            for c in f['combos']:
                tag = 'stack_86400' if f['bad'] == 'nosub' else 'subdivision'
                cdb.add_correlation(CorrStream(traces=corr_traces(
                    f, c, nwin, l1, step)), tag)
        if f['bad'] == 'cut':
            n = os.path.getsize(p)
            with open(p, 'r+b') as fh:
                fh.truncate(int(n * f.get('frac', .5)))


def is_bad(f, c):
    return f['bad'] is not None or c.get('bad') is not None


def requested(f, network, station):
    """Both codes are asked for"""
    def ok(codes, want):
        want = [want] if isinstance(want, str) else want
        return all(any(fnmatch.fnmatchcase(c, w) for w in want)
                   for c in codes.split('-'))
    return ok(f['net'], network) and ok(f['sta'], station)


def dv_opts(sc):
    d = sc['dv']
    from obspy import UTCDateTime
    return {
        'subdir': 'vel_change', 'plot_vel_change': False,
        'start_date': str(UTCDateTime(T0 + d['start'])),
        'end_date': str(UTCDateTime(T0 + d['end'])),
        'win_len': d['win_len'], 'date_inc': d['date_inc'],
        'freq_min': .3, 'freq_max': 1.2,
        'tw_start': d['tw_start'], 'tw_len': d['tw_len'],
        'sides': d['sides'], 'compute_tt': d['tt'],
        'rayleigh_wave_velocity': 1., 'stretch_range': d['range'],
        'stretch_steps': d['steps'], 'return_sim_mat': d['sim'],
        'dt_ref': copy.deepcopy(d['ref']),
        'preprocessing': copy.deepcopy(d['pre']),
        'postprocessing': copy.deepcopy(d['post'])}


def npz(p):
    """{key: array} of an npz file, read without SeisMIC"""
    with np.load(p) as z:
        return {k: z[k] for k in z.files}


def npz_dir(d):
    out = {}
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            try:
                out[f] = npz(os.path.join(d, f))
            except Exception as e:
                out[f] = '%s: %s' % (type(e).__name__, e)
    return out


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return 'unreadable: %s / %s' % (
            a if isinstance(a, str) else 'ok',
            b if isinstance(b, str) else 'ok')
    if set(a) != set(b):
        return 'entries differ: %s' % sorted(set(a) ^ set(b))
    for k in sorted(a):
        if k == 'processing_bulk':
            continue
        x, y = a[k], b[k]
        if x.shape != y.shape:
            return '%s: shape %s / %s' % (k, x.shape, y.shape)
        if x.dtype.kind in 'fc':
            if not np.allclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True):
                return '%s: values differ' % k
        elif not np.array_equal(x, y):
            return '%s: %s / %s' % (k, x, y)
    return None
