"""P21: work on a correlation bulk keeps rows, times and lags together."""
import copy
import os
import random
import warnings

import numpy as np

from sim import seams, world

RUNS = {'quick': 1600, 'thorough': 40000}
RULE = (
    'scenario = a correlation bulk (1-8 rows in any order, gaps, empty rows, '
    'symmetric or one-sided or lopsided lags, odd sampling rates) and a '
    'history of 1-9 operations on it: in-place processing, selections, '
    'measurements of shift, stretch and coherence, conversion to a stream '
    'and back, storing and rereading, wrong calls; checkpoints are saved, '
    'allocations fail, the user interrupts, the process is killed and starts '
    'again from its last checkpoint. Oracle after every operation: every row '
    'alone; a reference for the lag axis and for operations that combine '
    'rows; the object before a call that failed; the uninterrupted history. '
    'Non-trivial: at least one operation done. State = (operations, shape, '
    'outcomes, faults).')
REAL = ['CorrBulk and all its operations', 'CorrStream conversions',
        'seismic.monitor.post_corr_process', 'seismic.monitor.trim',
        'CorrBulk.save/read_corr_bulk', 'CorrelationDataBase, h5py on tmpfs',
        'stretching and shift estimators, WFC']
STUB = ['allocation seam around numpy and scipy calls of post_corr_process',
        'fault seams around files', 'wall clock', 'process (killed, '
        'restarted)']
RATES = [1., 2., 4., 5., 10., 8., 3., 20., 25.]


# ---------------------------------------------------------------- generation
def gen_op(r, n):
    k = r.choice([
        'normalize', 'normalize', 'clip', 'envelope', 'filter', 'mirror',
        'smooth', 'smooth_time', 'taper', 'taper_center', 'taper_center',
        'trim', 'trim', 'rate', 'rate', 'bins', 'decay',
        'slice', 'select', 'item', 'stream', 'store', 'copy', 'reread',
        'daytime', 'pop', 'dup', 'slide',
        'shift', 'shift', 'stretch', 'stretch', 'wfc', 'extract', 'extract',
        'fix_shift', 'fix_stretch', 'dv_fix', 'bad', 'bad'])
    o = {'k': k, 'u': r.random(), 'v': r.random(), 'i': r.randrange(8),
         'ck': r.random() < .35}
    if k == 'normalize':
        o['type'] = r.choice(['energy', 'abssum', 'max', 'absmax'])
        o['win'] = r.choice(['all', 'all', 'both', 'from', 'to'])
    elif k in ('smooth', 'smooth_time'):
        o['n'] = r.choice([2, 3, 4, 5, 7])
        o['type'] = r.choice(
            ['flat', 'hanning', 'hamming', 'bartlett', 'blackman'])
    elif k == 'trim':
        o['off'] = r.random() < .2
    elif k in ('slice', 'select', 'slide'):
        o['partial'] = r.random() < .6
    elif k == 'daytime':
        o['exclude'] = r.random() < .4
    elif k == 'extract':
        o['method'] = r.choice(
            ['mean', 'median', 'norm_mean', 'similarity_percentile'])
        o['multi'] = r.random() < .3
    elif k == 'bad':
        o['what'] = r.choice(BAD)
    elif k in ('shift', 'stretch'):
        o['side'] = r.choice(['both', 'single'])
        o['sim'] = r.random() < .4
        o['noref'] = r.random() < .2
        # the same reference twice
        o['two'] = k == 'stretch' and r.random() < .25
    return o


BAD = ['normtype', 'taper-long', 'center-long', 'center-neg', 'smooth-long',
       'smooth-type', 'rate-high', 'filter-three', 'filter-high', 'trim-out',
       'trim-late', 'kind', 'rows', 'rows2', 'bins', 'slice', 'even',
       'sides', 'window', 'ref', 'method', 'norm-out', 'norm-early']


def gen(seed, tier):
    r = random.Random('p21-%s' % seed)
    n = r.choice([1, 1, 2, 3, 4, 6, 8])
    rate = r.choice(RATES)
    half = r.randrange(24, 60)
    shape = r.choice(['both', 'both', 'both', 'left', 'right', 'single'])
    left = half if shape in ('both', 'left') else (
        0 if shape == 'single' else half // 2)
    right = half if shape != 'left' else half // 2
    ops = [gen_op(r, n) for _ in range(r.choice([1, 2, 3, 4, 5, 7, 9]))]
    faults = []
    if r.random() < .4:
        for _ in range(r.choice([1, 1, 2])):
            site, act = r.choice([
                ('mem.alloc', 'memerr'), ('mem.alloc', 'memerr'),
                ('mem.alloc', 'interrupt'), ('mem.alloc', 'kill'),
                ('*', 'kill'), ('file.write', 'enospc'),
                ('file.write', 'kill'), ('file.open-w', 'eacces'),
                ('h5.write', 'enospc'), ('file.write', 'torn')])
            f = {'site': site, 'act': act, 'job': r.choice([1, 1, 1, 2]),
                 'nth': r.choice([1, 2, 3, 5, 8, 13, 21, 34, 60, 100])}
            if act == 'torn':
                f['frac'] = r.choice([0., .4])
            faults.append(f)
    return {'n': n, 'rate': rate, 'left': left, 'right': right,
            'half': r.random() < .06, 'order': r.random() < .25,
            'chans': r.random() < .2, 'locs': r.random() < .2,
            'base': r.choice([0, 0, 39600, 41400, 30000.5]),
            'nan': r.random() < .25, 'zero': r.random() < .1,
            'rows': r.randrange(10**6), 'via': r.choice(['stream', 'list']),
            'ops': ops, 'faults': faults, 'sched': seed}


def shrink(sc):
    for i in range(len(sc['ops'])):
        if len(sc['ops']) > 1:
            s = copy.deepcopy(sc)
            del s['ops'][i]
            yield s
    for k, v in (('faults', []), ('chans', False), ('locs', False),
                 ('nan', False), ('zero', False), ('order', False),
                 ('half', False), ('n', 1), ('n', 2), ('n', 3)):
        if sc[k] != v and (k != 'n' or sc['n'] > v):
            yield dict(copy.deepcopy(sc), **{k: v})
    for i, o in enumerate(sc['ops']):
        if o['ck']:
            s = copy.deepcopy(sc)
            s['ops'][i]['ck'] = False
            yield s


# ------------------------------------------------------------------- objects
STEP = 3600.
CO = {'subdivision': {'corr_inc': STEP, 'corr_len': STEP},
      'corr_args': {'lengthToSave': 10, 'center_correlation': True},
      'combination_method': 'betweenStations'}


def bulk(sc):
    """A bulk as made from a stream of correlations"""
    from obspy import UTCDateTime
    from seismic.correlate.stream import CorrStream, CorrTrace, CorrBulk
    rs = np.random.RandomState(sc['rows'])
    dt = 1 / sc['rate']
    npts = sc['left'] + sc['right'] + 1
    start = -sc['left'] / sc['rate'] + (.4 * dt if sc['half'] else 0)
    lag = start + np.arange(npts) * dt
    k = 14
    fr = rs.uniform(.02, .09, size=k) * sc['rate']
    am = rs.normal(size=k)
    ph = rs.uniform(0, 6.28, size=k)

    def sig(t):
        return np.sum(am[:, None] * np.cos(
            6.2832 * fr[:, None] * t[None] + ph[:, None]), axis=0)
    slots = np.sort(rs.choice(24, size=sc['n'], replace=False))
    if sc['order']:
        rs.shuffle(slots)
    trs = []
    for i, s in enumerate(slots):
        d = rs.uniform(.5, 2) * (sig(
            (lag + rs.randint(-4, 5) * .25 * dt)
            * (1 + rs.randint(-3, 4) * .002))
            + .05 * rs.normal(size=npts))
        if sc['nan'] and i == sc['n'] // 2 and sc['n'] > 1:
            d = d * np.nan
        if sc['zero'] and i == 0 and sc['n'] > 2:
            d = d * 0
        a = UTCDateTime(world.T0 + sc['base'] + s * STEP)
        trs.append(CorrTrace(d, _header={
            'network': 'XN-YN', 'station': 'A-B',
            'channel': ['HHZ-HHZ', 'HHE-HHN'][i % 2 * sc['chans']],
            'location': ['00-00', '-10'][i % 2 * sc['locs']],
            'sampling_rate': sc['rate'], 'corr_start': a,
            'corr_end': a + STEP - (7 if i % 2 else 0),
            'start_lag': start, 'stla': 1., 'stlo': 2., 'stel': 3.,
            'evla': 1.1, 'evlo': 2.1, 'evel': 3.1, 'dist': 4.,
            'processing': ['one', 'two', 'three']}))
    st = CorrStream(trs)
    if sc['via'] == 'list' and not sc['chans']:
        return CorrBulk(np.array([tr.data for tr in st]),
                        statlist=[tr.stats for tr in st])
    return st.create_corr_bulk(inplace=False)


PERROW = ('corr_start', 'corr_end', 'location', 'channel')


def rowval(stats, key, i):
    v = stats[key]
    return v[i] if isinstance(v, (list, np.ndarray)) else v


def solo(data, stats, i):
    """The bulk that holds row i only"""
    from seismic.correlate.stream import CorrBulk
    s = copy.deepcopy(stats)
    for k in PERROW:
        if isinstance(s[k], (list, np.ndarray)):
            s[k] = [s[k][i]]
    if 'ntrcs' in s:
        s['ntrcs'] = 1
    return CorrBulk(data[i:i + 1].copy(), stats=s)


class Snap:
    """What a bulk holds"""
    def __init__(self, b):
        self.data = np.array(b.data, copy=True)
        self.stats = copy.deepcopy(b.stats)
        self.start = [t.timestamp for t in b.stats.corr_start]
        self.end = [t.timestamp for t in b.stats.corr_end]
        self.n, self.npts = self.data.shape
        self.dt = 1 / b.stats.sampling_rate
        self.lag0 = b.stats.start_lag
        self.lag = self.lag0 + np.arange(self.npts) * self.dt
        self.meta = [tuple(str(rowval(b.stats, k, i)) for k in PERROW)
                     for i in range(self.n)]
        self.rest = {k: repr(v) for k, v in sorted(b.stats.items())
                     if k not in PERROW + (
                         'starttime', 'endtime', 'processing_bulk',
                         'npts', 'start_lag', 'end_lag', 'sampling_rate',
                         'delta', 'ntrcs')}
        self.proc = list(b.stats.get('processing_bulk', []))

    def same(self, o, proc=True):
        """First difference, or None"""
        if self.data.shape != o.data.shape:
            return 'the matrix was %s, now %s' % (
                self.data.shape, o.data.shape)
        if not np.array_equal(self.data, o.data, equal_nan=True):
            i, j = np.argwhere(~((self.data == o.data) | (
                np.isnan(self.data) & np.isnan(o.data))))[0]
            return 'row %d, sample %d was %r, now %r' % (
                i, j, self.data[i, j], o.data[i, j])
        if self.meta != o.meta:
            return 'times and codes were %s, now %s' % (self.meta, o.meta)
        for a, b, w in ((self.lag0, o.lag0, 'start_lag'),
                        (self.dt, o.dt, 'delta'),
                        (self.stats.npts, o.stats.npts, 'npts')):
            if a != b:
                return '%s was %r, now %r' % (w, a, b)
        if self.rest != o.rest:
            return 'header was %s, now %s' % (self.rest, o.rest)
        if proc and self.proc != o.proc:
            return 'history was %s, now %s' % (self.proc, o.proc)
        return None


def close(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    f = np.isfinite(a)
    if not np.array_equal(f, np.isfinite(b)):
        return False
    if not f.any():
        return True
    s = max(np.max(np.abs(a[f])), np.max(np.abs(b[f])), 1e-12)
    return np.max(np.abs(a[f] - b[f])) <= tol * s


# --------------------------------------------------------- what to do exactly
class Skip(Exception):
    """Not possible in this state"""


def onsample(p, u, lo=None, hi=None):
    """A lag on the grid"""
    lo = 0 if lo is None else lo
    hi = p.npts - 1 if hi is None else hi
    return lo + int(u * (hi - lo + .999))


def plan(o, p):
    """(name, {argument: value}) for state p"""
    k, u, v = o['k'], o['u'], o['v']
    span = p.npts * p.dt
    zero = int(round(-p.lag0 / p.dt))
    if k == 'normalize':
        a = onsample(p, u, 0, p.npts // 2 - 2)
        b = onsample(p, v, p.npts // 2 + 1, p.npts - 1)
        kw = {'normtype': o['type']}
        if o['win'] in ('both', 'from'):
            kw['starttime'] = p.lag[a]
        if o['win'] in ('both', 'to'):
            kw['endtime'] = p.lag[b]
        return kw
    if k == 'clip':
        return {'thres': 1 + 2 * u}
    if k == 'filter':
        ny = .5 / p.dt
        return {'freqs': (ny * (.02 + .1 * u), ny * (.3 + .4 * v)),
                'order': 2 + o['i'] % 2}
    if k in ('smooth', 'smooth_time'):
        if o['n'] >= (p.npts if k == 'smooth' else p.n):
            raise Skip
        return {'wsize': o['n'], 'wtype': o['type'],
                'axis': 0 if k == 'smooth' else 1}
    if k == 'taper':
        return {'width': round(u * span * .4, 3)}
    if k == 'taper_center':
        return {'width': round(u * span * .5, 3),
                'slope_frac': [.05, .2, .5][o['i'] % 3]}
    if k == 'trim':
        a = onsample(p, u, 0, p.npts // 3)
        b = onsample(p, v, p.npts * 2 // 3, p.npts - 1)
        if o['i'] % 3 and 0 < zero < p.npts - 1:
            m = min(zero, p.npts - 1 - zero)
            m = max(m - onsample(p, u, 0, m // 2), 1)
            a, b = zero - m, zero + m
        if b - a < 16:
            raise Skip
        x, y = p.lag[a], p.lag[b]
        if o['off'] and a > 0 and b < p.npts - 1:
            x, y = x + .3 * p.dt, y + .2 * p.dt
        else:
            # as one would write it
            x, y = round(x, 9), round(y, 9)
        return {'starttime': x, 'endtime': y}
    if k == 'rate':
        f = [2, 3, 4, 2.5, 1, 1.25][o['i'] % 6]
        if p.npts / f < 16:
            raise Skip
        return {'freq': 1 / p.dt / f}
    if k == 'bins':
        from obspy import UTCDateTime
        step = [1800, 3600, 7200, 4 * 3600, 20000][o['i'] % 5]
        t0 = min(p.start) + [0, 0, -step, -1800, 7200][int(u * 5)]
        st = np.arange(t0, max(p.end), step)[:12]
        if len(st) < 1:
            raise Skip
        kw = {'starttimes': [UTCDateTime(t) for t in st]}
        if v < .3:
            kw['endtimes'] = [UTCDateTime(t + step * .75) for t in st]
        elif v < .4:
            kw['starttimes'] = kw['starttimes'][:1]
        return kw
    if k in ('slice', 'select'):
        lo, hi = min(p.start), max(p.end)
        a = lo - 1800 + u * (hi - lo) * .7 // 450 * 450 + 11
        b = a + 1200 + v * (hi - lo) // 450 * 450
        return {'starttime': a, 'endtime': b, 'partial': o['partial']}
    if k == 'slide':
        w = STEP * (1 + o['i'] % 4) + [0, 900][int(u * 2)]
        if w < max(e - s for s, e in zip(p.start, p.end)):
            raise Skip
        return {'window_length': w, 'step': STEP * (.5 + int(v * 4) / 2),
                'include_partially_selected': o['partial']}
    if k == 'daytime':
        # away from the times of the rows, or exactly at them
        d = [0, 37, -41][o['i'] % 3]
        a = p.start[int(u * p.n)] + d
        b = p.end[int(v * p.n)] + [0, 53, -31][o['i'] // 3]
        a, b = int(a % 86400), int(b % 86400)
        kw = {'start': (a // 3600, a // 60 % 60, a % 60),
              'end': (b // 3600, b // 60 % 60, b % 60)}
        if o['exclude']:
            kw['exclude'] = True
        return kw
    if k == 'pop':
        t = [p.start[int(u * p.n)] + 1 + v * (STEP - 10),
             min(p.start) - 5 - 1000 * v, max(p.end) + 5]
        m = p.start[int(v * p.n)] + 1800 + 400 * u
        return {'utcs': [t, [m] + t, t[1:], [m]][o['i'] % 4]}
    if k == 'dup':
        ii = [i for i in range(p.n) if np.isfinite(p.data[i]).all()]
        if not ii:
            raise Skip
        return {'twice': [ii[int(u * len(ii))], ii[int(v * len(ii))]]}
    if k == 'stream':
        i, j = int(u * p.n), int(v * p.n)
        return [{}, {'ind': [i]}, {'ind': [i, j] if i != j else [j]},
                {'ind': list(range(p.n - 1, i - 1, -1))}][o['i'] % 4]
    if k == 'item':
        i, j = sorted([int(u * p.n), int(v * p.n)])
        return {'item': [i, slice(i, j + 1), [i, j] if i != j else [i],
                         slice(None, None, -1)][o['i'] % 4]}
    return {}


# ---------------------------------------------------------------- references
def ref_mirror(data, zero):
    n = data.shape[1]
    m = max(zero + 1, n - zero)
    out = np.zeros((len(data), m))
    for k in range(m):
        v = []
        if zero + k < n:
            v.append(data[:, zero + k])
        if zero - k >= 0:
            v.append(data[:, zero - k])
        out[:, k] = np.mean(v, axis=0)
    return out


def nanmean(rows):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return np.nanmean(rows, axis=0)


def delay_ok(lag0, x0, lag1, x1):
    """Is x1 at least as close to x0 at these lags as one sample off?"""
    dt = lag1[1] - lag1[0]
    keep = (lag1 - 2 * dt >= lag0[0]) & (lag1 + 2 * dt <= lag0[-1])
    m = np.nonzero(keep)[0]
    m = m[len(m) // 5:len(m) - len(m) // 5]
    if len(m) < 6 or not np.all(np.isfinite(x0)):
        return True
    y = x1[m]
    fit = []
    for s in (0, -1, 1):
        r = np.interp(lag1[m] + s * dt, lag0, x0)
        if np.std(r) < 1e-9 * (np.std(x0) + 1e-30) or np.std(y) == 0:
            return True
        fit.append(np.corrcoef(r, y)[0, 1])
    # an unclear case decides nothing
    return fit[0] > .9 * max(fit[1:]) or max(fit) < .7


def resample_error(p, q, i, freq):
    """Delay to the band limited row, interpolated at the new lags"""
    from scipy.signal import butter, lfilter, resample
    b, a = butter(3, np.array([.001, .4 * freq]) * 2 * p.dt, btype='band')
    x = lfilter(b, a, lfilter(b, a, p.data[i])[::-1])[::-1]
    n = 4 * p.npts
    y = resample(np.concatenate((x, np.zeros(n - p.npts))), 32 * n)
    k = max(q.npts // 6, 6)
    m = np.arange(k, q.npts - k)
    r = np.interp(q.lag[m], p.lag0 + np.arange(32 * n) * p.dt / 32, y)
    s = np.sqrt(np.mean(r ** 2))
    if abs(np.mean(p.data[i])) > .2 * np.sqrt(np.mean(p.data[i] ** 2)):
        # an envelope
        return 0
    if len(m) < 8 or s < .5 * np.sqrt(np.mean(
            p.data[i] ** 2)) or s == 0:
        return 0
    d = np.interp(q.lag[m] + q.dt / 8, p.lag0 + np.arange(
        32 * n) * p.dt / 32, y) - r
    e, h = q.data[i][m] - r, len(m) // 2
    # in samples, at the beginning and at the end, if that explains it
    out = 0
    for u in (slice(0, h), slice(h, None)):
        t = np.dot(e[u], d[u]) / np.dot(d[u], d[u])
        if np.dot(e[u] - t * d[u], e[u] - t * d[u]) < .5 * np.dot(e[u], e[u]):
            out = max(out, abs(t) / 8)
    return out


# -------------------------------------------------------------------- doing it
class Doer:
    def __init__(self, sc, ctx, root):
        self.sc, self.ctx, self.root = sc, ctx, root
        # results handed out earlier: (name, object, snapshot function)
        self.out = []

    def bad(self, kind, msg):
        self.ctx.violation(kind, msg)

    def call(self, b, o, kw, i=None):
        """The operation itself -> (bulk, result)"""
        from obspy import UTCDateTime
        k = o['k']
        if k in ('normalize', 'clip', 'envelope', 'filter', 'mirror',
                 'taper', 'taper_center', 'trim'):
            getattr(b, k)(**kw)
            return b, None
        if k in ('smooth', 'smooth_time'):
            b.smooth(**kw)
            return b, None
        if k == 'rate':
            b.resample_time_axis(**kw)
            return b, None
        if k == 'bins':
            b.resample(**kw)
            return b, None
        if k == 'decay':
            b.correct_decay()
            return b, None
        if k == 'slice':
            return b.slice(
                UTCDateTime(kw['starttime']), UTCDateTime(kw['endtime']),
                kw['partial']), None
        if k == 'select':
            return b.select_corr_time(
                UTCDateTime(kw['starttime']), UTCDateTime(kw['endtime']),
                kw['partial']), None
        if k == 'copy':
            return b.copy(), None
        if k in ('daytime', 'pop', 'dup'):
            st = b.create_corr_stream()
            if k == 'daytime':
                st = st.select_time(**kw)
            elif k == 'pop':
                st = st.pop_at_utcs(np.array(
                    [UTCDateTime(t) for t in kw['utcs']]))
            else:
                for i in kw['twice']:
                    st.append(st[i].copy())
                st.remove_duplicates()
            return st.create_corr_bulk(), None
        if k == 'stream':
            return b.create_corr_stream(
                **kw).create_corr_bulk(), None
        raise AssertionError(k)


def selected(kw, p):
    a, b = kw['starttime'], kw['endtime']
    if kw['partial'] == 'ends':
        return [i for i in range(p.n) if a < p.end[i] <= b]
    if kw['partial']:
        return [i for i in range(p.n) if p.end[i] >= a and p.start[i] <= b]
    return [i for i in range(p.n) if p.start[i] >= a and p.end[i] <= b]


def kept(k, kw, p):
    """Rows that stay in a stream"""
    if k == 'dup':
        return list(range(p.n))
    if k == 'pop':
        return [i for i in range(p.n) if not any(
            p.start[i] < t < p.end[i] for t in kw['utcs'])]
    a, b = (np.dot(kw[x], (3600, 60, 1)) for x in ('start', 'end'))
    if b <= a:
        if a == b:
            return []
        b += 86400
    out = []
    day0 = min(p.start) // 86400 * 86400
    for i in range(p.n):
        inside = any(day0 + d * 86400 + a <= p.start[i] + 1e-6 and
                     p.end[i] <= day0 + d * 86400 + b + 1e-6
                     for d in range(-2, 5))
        if inside != kw.get('exclude', False):
            out.append(i)
    return out


def slid(b, p, kw, tell, sim):
    """Windows of a stream"""
    st = b.create_corr_stream()
    got = []
    for w in st.slide(**kw):
        got.append([tuple(str(rowval(tr.stats, k, 0)) for k in PERROW)
                    for tr in w])
    with sim.bypass():
        d = p.same(Snap(b))
        if d:
            tell('changed', d)
        t, want = min(p.start), []
        part = kw['include_partially_selected']
        ii = sorted(range(p.n), key=lambda i: p.start[i])
        # any window that begins before the last row ends
        while t < max(p.end) - 1e-6:
            e = t + kw['window_length']
            r = [p.meta[i] for i in ii if p.end[i] <= e + 1e-6 and (
                p.end[i] > t + 1e-6 if part else p.start[i] >= t - 1e-6)]
            if r:
                want.append(r)
            t += kw['step']
        if got != want:
            tell('slide', 'windows %s asked for, got %s' % (want, got))


def dvs(p, o, typ):
    """A given change for every row"""
    from seismic.monitor.dv import DV
    rs = np.random.RandomState(int(o['u'] * 1e6))
    if typ == 'shift':
        val = rs.randint(-3, 4, size=p.n) * p.dt * .5
    else:
        val = rs.randint(-3, 4, size=p.n) * .004
    return DV(corr=np.ones(p.n), value=val, value_type=typ, sim_mat=None,
              second_axis=np.linspace(-1, 1, 3), method='given',
              stats=copy.deepcopy(p.stats))


def one(dv, i):
    d = copy.deepcopy(dv)
    d.value = d.value[i:i + 1]
    d.corr = d.corr[i:i + 1]
    return d


def invariant(b, say, exact=False):
    """The header describes the matrix"""
    st = b.stats
    n, m = np.shape(b.data)
    for k in PERROW:
        v = st[k]
        if isinstance(v, (list, np.ndarray)) and len(v) != n:
            say('header', 'the matrix has %d rows, %s has %d' % (
                n, k, len(v)))
            return False
    if st.npts != m:
        say('header', 'the matrix has %d columns, npts is %s' % (m, st.npts))
        return False
    if 'ntrcs' in st and st.ntrcs != n and exact:
        say('header', 'the matrix has %d rows, ntrcs is %s' % (n, st.ntrcs))
        return False
    e = st.start_lag + (m - 1) / st.sampling_rate
    if abs(e - st.end_lag) > 1e-6 / st.sampling_rate:
        say('header', 'end_lag is %s, the last sample is at %s' % (
            st.end_lag, e))
        return False
    return True


def check_rows(p, q, o, kw, say):
    """Same operation on every row alone"""
    k = o['k']
    if k in ('smooth_time', 'bins', 'decay', 'slice', 'select', 'copy',
             'stream', 'daytime', 'pop', 'dup'):
        return True
    doer = Doer(None, None, None)
    for i in range(p.n):
        s = solo(p.data, p.stats, i)
        try:
            if k == 'dv_fix':
                t = 'shift' if o['i'] % 2 else 'stretch'
                d = one(dvs(p, o, t), i)
                (s.correct_shift if t == 'shift' else s.correct_stretch)(d)
            else:
                s, _ = doer.call(s, o, kw)
        except Exception as e:
            say('row-alone', 'row %d alone: %s: %s' % (
                i, type(e).__name__, e))
            return False
        if not close(q.data[i], s.data[0]):
            say('row', 'row %d is not what it is alone: %s instead of %s' % (
                i, q.data[i][:4], s.data[0][:4]))
            return False
        if s.stats.start_lag != q.lag0 or s.stats.npts != q.npts:
            say('row', 'row %d alone has lags from %s, %d samples; with '
                'others from %s, %d samples' % (
                    i, s.stats.start_lag, s.stats.npts, q.lag0, q.npts))
            return False
    return True


def check_lags(p, q, o, kw, say):
    """The reference for columns and rows that are combined"""
    k = o['k']
    rowsame = k not in ('bins', 'slice', 'select', 'daytime', 'pop') \
        and 'ind' not in kw
    if rowsame and p.meta != q.meta:
        return say('times', 'times and codes of the rows were %s, now %s' % (
            p.meta, q.meta))
    if p.rest != q.rest:
        return say('header', 'header was %s, now %s' % (p.rest, q.rest))
    if k not in ('trim', 'mirror', 'rate') and (
            q.npts != p.npts or abs(q.lag0 - p.lag0) > 1e-9 or
            abs(q.dt - p.dt) > 1e-12):
        return say('lags', 'lags changed: from %s, %s to %s, %s' % (
            p.lag0, p.npts, q.lag0, q.npts))
    fin = np.isfinite(p.data).all(axis=1)
    zero = int(round(-p.lag0 / p.dt))
    if k == 'trim':
        a = int(round((kw['starttime'] - p.lag0) / p.dt))
        b = int(round((kw['endtime'] - p.lag0) / p.dt))
        if not np.array_equal(q.data, p.data[:, a:b + 1], equal_nan=True):
            return say('trim', 'not the samples between %s and %s s' % (
                kw['starttime'], kw['endtime']))
        if abs(q.lag0 - p.lag[a]) > 1e-6 * p.dt:
            return say('trim', 'first sample is at %s s, start_lag says '
                       '%s s' % (p.lag[a], q.lag0))
    elif k == 'mirror':
        if zero <= 0 or zero >= p.npts - 1:
            d = p.same(q, proc=False)
            if d:
                say('mirror', 'one-sided: ' + d)
        else:
            if abs(q.lag0) > 1e-9 or not close(
                    q.data, ref_mirror(p.data, zero)):
                say('mirror', 'not the mean of both sides: start_lag %s, %s '
                    'instead of %s' % (q.lag0, q.data[0][:4], ref_mirror(
                        p.data, zero)[0][:4]))
    elif k == 'rate':
        if abs(1 / q.dt - kw['freq']) > 1e-6 * kw['freq']:
            return say('rate', 'asked for %s Hz, got %s' % (
                kw['freq'], 1 / q.dt))
        if abs(q.lag0 - p.lag0) > 1e-9 or q.lag[-1] > p.lag[-1] + 1e-6 or \
                q.lag[-1] < p.lag[-1] - 2.01 * q.dt:
            return say('rate', 'lags were %s to %s s, now %s to %s s' % (
                p.lag[0], p.lag[-1], q.lag[0], q.lag[-1]))
        for i in np.nonzero(fin)[0]:
            if not delay_ok(p.lag, p.data[i], q.lag, q.data[i]):
                return say('rate', 'row %d moved along the lags' % i)
            e = resample_error(p, q, i, kw['freq'])
            if e > .25:
                return say('rate', 'row %d is off by %.2f samples at the new '
                           'lags' % (i, e))
    elif k == 'normalize':
        a = (kw['starttime'] - p.lag0) / p.dt if 'starttime' in kw else 0
        b = (kw['endtime'] - p.lag0) / p.dt if 'endtime' in kw else p.npts
        a, b = int(round(a)), int(round(b))
        fn = {'energy': lambda x: np.sqrt(np.mean(x ** 2)),
              'abssum': lambda x: np.mean(np.abs(x)),
              'max': np.max, 'absmax': lambda x: np.max(np.abs(x))}[
                  kw['normtype']]
        for i in np.nonzero(fin)[0]:
            c = [fn(p.data[i, x:y]) for x in (a - 1, a, a + 1) if x >= 0
                 for y in (b - 1, b, b + 1) if y > x]
            if not any(close(q.data[i], p.data[i] / (x if x else 1))
                       for x in c):
                return say('normalize', 'row %d is not its %s between '
                           'samples %d and %d' % (i, kw['normtype'], a, b))
    elif k == 'clip':
        for i in np.nonzero(fin)[0]:
            c = kw['thres'] * np.std(p.data[i])
            if not close(q.data[i], np.clip(p.data[i], -c, c)):
                return say('clip', 'row %d' % i)
    elif k == 'taper':
        w = kw['width'] / p.dt
        m = np.arange(p.npts)
        inner = (m > w + 2) & (m < p.npts - 1 - w - 2)
        for i in np.nonzero(fin)[0]:
            if not close(q.data[i, inner], p.data[i, inner]) or np.any(
                    np.abs(q.data[i]) > np.abs(p.data[i]) * (1 + 1e-9)):
                return say('taper', 'row %d changed beyond %s s from the '
                           'ends' % (i, kw['width']))
            if w > 3 and (abs(q.data[i, 0]) > .05 * abs(p.data[i, 0]) + 1e-12
                          or abs(q.data[i, -1]) > .05 * abs(
                              p.data[i, -1]) + 1e-12):
                return say('taper', 'row %d does not end at zero' % i)
    elif k == 'taper_center':
        w = kw['width'] / 2
        out = np.abs(p.lag) > w + 1.6 * p.dt
        inn = np.abs(p.lag) < w * (1 - kw['slope_frac']) - 2.1 * p.dt
        for i in np.nonzero(fin)[0]:
            if not close(q.data[i, out], p.data[i, out]):
                return say('center', 'row %d changed more than %s s from '
                           'zero' % (i, w))
            if np.any(np.abs(q.data[i, inn]) > 1e-9):
                return say('center', 'row %d is not zero around zero' % i)
            if np.any(np.abs(q.data[i]) > np.abs(p.data[i]) * (1 + 1e-9)):
                return say('center', 'row %d grew' % i)
        if kw['width'] and len(fin.nonzero()[0]) and not sloped_alike(
                p, q, np.ceil(2 * np.ceil(kw['width'] / p.dt / 2)
                              * kw['slope_frac'] / 2)):
            return say('center', 'the taper is not centred on zero lag')
    elif k in ('filter', 'envelope'):
        from scipy.signal import butter, hilbert, lfilter
        x = p.data[fin]
        if k == 'envelope':
            x = np.abs(hilbert(x, axis=1))
        else:
            ba = butter(kw['order'], np.array(kw['freqs']) * 2 * p.dt, 'band')
            x = lfilter(*ba, lfilter(*ba, x, axis=1)[:, ::-1],
                        axis=1)[:, ::-1]
        if not close(q.data[fin], x, 1e-5):
            return say(k, 'not the %s of the rows' % k)
    elif k in ('smooth', 'smooth_time'):
        x, y = np.nan_to_num(p.data), q.data
        if k == 'smooth':
            x, y = x.T, y.T
        w = np.ones(kw['wsize']) if kw['wtype'] == 'flat' else getattr(
            np, kw['wtype'])(kw['wsize'])
        n = kw['wsize']
        if n >= 3:
            w = w / w.sum()
            # far enough from both ends
            for i in range(n, len(x) - n):
                # an even window has no middle
                if not any(close(y[i], sum(
                        w[j] * x[i + m - j] for j in range(n)), 1e-6)
                        for m in {n // 2, (n - 1) // 2}):
                    return say('smooth', '%s %d is not the mean of its '
                               'neighbours' % ('row' if k == 'smooth_time'
                                               else 'sample', i))
        elif not close(y, x):
            return say('smooth', 'a window of two changed the data')
    elif k == 'bins':
        st = [t.timestamp for t in kw['starttimes']]
        if 'endtimes' in kw:
            en = [t.timestamp for t in kw['endtimes']]
        elif len(st) == 1:
            en = None
        else:
            en = [t + st[1] - st[0] for t in st]
        if q.n != len(st) or q.start != st or (en and not np.allclose(
                q.end, en, atol=1e-5, rtol=0)):
            return say('bins', 'asked for bins %s-%s, got %s-%s' % (
                st, en, q.start, q.end))
        for j in range(len(st)):
            ii = [i for i in range(p.n) if p.start[i] >= st[j] and (
                en is None or p.start[i] < en[j])]
            want = nanmean(p.data[ii]) if ii else np.full(p.npts, np.nan)
            if not close(q.data[j], want):
                return say('bins', 'bin %d is not the mean of rows %s' % (
                    j, ii))
    elif k == 'dv_fix':
        from scipy.interpolate import UnivariateSpline
        t = 'shift' if o['i'] % 2 else 'stretch'
        val = dvs(p, o, t).value
        for i in np.nonzero(fin)[0]:
            if t == 'shift':
                at = p.lag - val[i]
                x = np.interp(at, p.lag, p.data[i])
            else:
                at = p.lag * np.exp(val[i])
                x = UnivariateSpline(p.lag, p.data[i], s=0)(at)
            m = (at > p.lag[0]) & (at < p.lag[-1])
            if not close(q.data[i, m], x[m], 1e-6):
                return say('fix', 'row %d is not corrected for a %s of %s' % (
                    i, t, val[i]))
    elif k in ('slice', 'select'):
        kk = dict(kw)
        if k == 'select' and kw['partial']:
            kk['partial'] = 'ends'
        ii = selected(kk, p)
        if k == 'select':
            ii.sort(key=lambda i: (p.start[i]))
        want = [(p.meta[i], p.data[i]) for i in ii]
        if [m for m, _ in want] != q.meta:
            return say(k, 'rows %s asked for, got %s' % (
                [m for m, _ in want], q.meta))
        if not np.array_equal([d for _, d in want], q.data, equal_nan=True):
            return say(k, 'the rows do not belong to these times')
    elif k in ('daytime', 'pop', 'dup') or k == 'stream' and kw:
        ii = kw['ind'] if k == 'stream' else kept(k, kw, p)
        if q.meta != [p.meta[i] for i in ii] or q.lag0 != p.lag0 or \
                not np.array_equal(q.data, p.data[ii], equal_nan=True):
            return say(k, 'rows %s asked for, got %s' % (
                [p.meta[i] for i in ii], q.meta))
    elif k in ('copy', 'stream'):
        d = p.same(q, proc=k == 'copy')
        if d:
            say(k, d)


def sloped_alike(p, q, slope):
    """The factor is the same at lag and -lag"""
    fin = np.isfinite(p.data).all(axis=1)
    x, y = p.data[fin], q.data[fin]
    zero = -p.lag0 / p.dt
    if abs(zero - round(zero)) > 1e-3 or not len(x):
        return True
    zero = int(round(zero))
    with np.errstate(all='ignore'):
        f = y / x
    m = min(zero, p.npts - 1 - zero)
    # the shortest slope has one sample more on one side
    d = 0 if slope > 1 else 1
    for k in range(1, m + 1 - d):
        for i in range(len(x)):
            a = f[i, zero + k]
            c = f[i, zero - k - d:zero - k + d + 1]
            c = c[np.isfinite(c)]
            if np.isfinite(a) and len(c) == 2 * d + 1 and not (
                    min(c) - 1e-6 <= a <= max(c) + 1e-6):
                return False
    return True


# ------------------------------------------------------------------- one step
def ref_of(p):
    """A reference trace from outside"""
    fin = np.isfinite(p.data).all(axis=1) & (np.abs(p.data).max(axis=1) > 0)
    if not fin.any():
        raise Skip
    x = p.data[fin][0]
    return np.array(x, copy=True)


def dvsnap(d):
    return repr([np.asarray(d.corr).tolist(), np.asarray(d.value).tolist(),
                 None if d.sim_mat is None else np.asarray(
                     d.sim_mat).tolist(),
                 sorted((k, repr(v)) for k, v in d.stats.items())])


def wfcsnap(w):
    return repr([sorted((k, np.asarray(v).tolist()) for k, v in w.items()),
                 sorted((k, repr(v)) for k, v in w.stats.items())])


def measure(b, o, p, kw=None):
    """-> (function of a bulk giving per-row values, snapshot function)"""
    k = o['k']
    ref = None if o.get('noref') else ref_of(p)
    span = min(-p.lag0, p.lag[-1])
    if k == 'shift':
        single = o['side'] == 'single' or span < 12 * p.dt
        if not single and abs(-p.lag0 / p.dt - round(-p.lag0 / p.dt)) > 1e-3:
            raise Skip
        rng = 3 * p.dt
        if single:
            tw = [[p.lag0 + 3.5 * p.dt, p.lag[-1] - 3.5 * p.dt]]
        else:
            tw = [[2 * p.dt, span - 3.5 * p.dt]]
        if o['i'] % 4 == 0:
            m = (tw[0][0] + tw[0][1]) / 2
            tw = [[tw[0][0], m], [m, tw[0][1]]]
        return ref, dict(
            ref_trc=ref, tw=tw, shift_range=rng, shift_steps=13,
            sides='single' if single else 'both', return_sim_mat=o['sim'])
    if k == 'stretch':
        single = o['side'] == 'single'
        if abs(-p.lag0 / p.dt - round(-p.lag0 / p.dt)) > 1e-3:
            raise Skip
        if p.lag[-1] < 12 * p.dt or (not single and span < 12 * p.dt):
            raise Skip
        if single and p.lag0 > 1e-9 or p.lag0 > 1e-9:
            raise Skip
        n = int(round((p.lag[-1] if single else span) / p.dt))
        return ref, dict(
            ref_trc=ref, tw=[np.arange(2, n - 2)], stretch_range=.02,
            stretch_steps=21, sides='single' if single else 'both',
            return_sim_mat=o['sim'])
    raise AssertionError(k)


def args_repr(kw):
    return repr({k: v.tolist() if isinstance(v, np.ndarray) else [
        x.tolist() if isinstance(x, np.ndarray) else x for x in v]
        if isinstance(v, list) else v for k, v in kw.items()})


def rowvals(d, n):
    v = np.atleast_1d(np.asarray(d.value, float))
    c = np.atleast_1d(np.asarray(d.corr, float))
    return v.reshape(-1), c.reshape(-1)


def wrong(b, o, p):
    """A call that cannot be carried out"""
    from obspy import UTCDateTime
    w = o['what']
    span = p.npts * p.dt
    t = UTCDateTime(p.start[0])
    if w == 'normtype':
        b.normalize(normtype='loud')
    elif w == 'norm-out':
        b.normalize(starttime=p.lag[1], endtime=p.lag[-1] + 10 * p.dt)
    elif w == 'norm-early':
        b.normalize(starttime=p.lag[0] - 3 * p.dt, endtime=p.lag[-2])
    elif w == 'taper-long':
        b.taper(span * 1.5)
    elif w == 'center-long':
        b.taper_center(span * 1.5)
    elif w == 'center-neg':
        b.taper_center(-1)
    elif w == 'smooth-long':
        b.smooth(p.npts + 2, axis=0)
    elif w == 'smooth-type':
        b.smooth(5, 'square', axis=0)
    elif w == 'mirror':
        b.mirror()
    elif w == 'rate':
        b.resample_time_axis(**o['kw'])
    elif w == 'rate-high':
        b.resample_time_axis(1.5 / p.dt)
    elif w == 'filter-three':
        b.filter((.1, .2, .3))
    elif w == 'filter-high':
        b.filter((.1 / p.dt, .8 / p.dt))
    elif w == 'trim-out':
        b.trim(p.lag[0] - 5 * p.dt, p.lag[-1])
    elif w == 'trim-late':
        b.trim(p.lag[0], p.lag[-1] + 5 * p.dt)
    elif w == 'kind':
        b.correct_stretch(dvs(p, o, 'shift'))
    elif w in ('rows', 'rows2'):
        d = dvs(p, o, 'shift' if w == 'rows' else 'stretch')
        d.value = d.value[:p.n - 1]
        (b.correct_shift if w == 'rows' else b.correct_stretch)(d)
    elif w == 'bins':
        b.resample([t, t + 5], [t + 5])
    elif w == 'slice':
        b.slice(t, t - 5)
    elif w == 'even':
        b.measure_shift(shift_range=p.dt, shift_steps=10)
    elif w == 'sides':
        b.measure_shift(shift_range=p.dt, shift_steps=11, sides='top')
    elif w == 'window':
        b.measure_shift(tw=[[1, 10 * span]], shift_range=p.dt,
                        shift_steps=11)
    elif w == 'ref':
        b.measure_shift(ref_trc=np.ones(p.npts + 1), shift_range=p.dt,
                        shift_steps=11)
    elif w == 'method':
        b.extract_trace('best')


def step(b, o, no, sc, root, say, out, sim, store):
    """Do one operation and judge it -> the bulk to go on with"""
    with sim.bypass():
        p = Snap(b)
        try:
            kw = plan(o, p)
        except Skip:
            return b, False
    k = o['k']
    doer = Doer(sc, None, root)
    tell = lambda kind, msg: say(kind, '%d: %s%s: %s' % (  # noqa
        no, k, '(%s)' % ', '.join('%s=%s' % (
            x, str(y)[:60]) for x, y in kw.items()), msg))
    if k == 'select' or k == 'slice':
        kk = dict(kw)
        if k == 'select' and kw['partial']:
            kk['partial'] = 'ends'
        if not selected(kk, p):
            return b, False
    if k in ('daytime', 'pop') and not kept(k, kw, p):
        return b, False
    if k == 'slide':
        slid(b, p, kw, tell, sim)
        return b, True
    if k == 'mirror' and abs(p.lag0 / p.dt - round(p.lag0 / p.dt)) > 1e-3:
        # nothing to mirror about
        o, k = {'k': 'bad', 'what': 'mirror'}, 'bad'
    if k == 'rate':
        # not every rate can be had from every length
        with sim.bypass():
            try:
                doer.call(b.copy(), o, kw)
            except TypeError:
                o, k = {'k': 'bad', 'what': 'rate', 'kw': kw}, 'bad'
    if k == 'decay':
        # needs an envelope to fit
        zero = -p.lag0 / p.dt
        if not np.isfinite(p.data).all() or np.any(
                np.abs(p.data).max(axis=1) == 0) or \
                abs(zero - round(zero)) > 1e-3 or np.any(
                    np.abs(p.data).mean(axis=0) == 0):
            return b, False
        if zero < 4 or zero > p.npts - 5:
            return b, False
    if k in ('shift', 'stretch', 'wfc', 'extract', 'fix_shift',
             'fix_stretch'):
        return look(b, o, p, tell, out, sim)
    if k == 'item':
        it = kw['item']
        r = b[it]
        with sim.bypass():
            d = p.same(Snap(b))
            if d:
                tell('changed', d)
            ii = np.atleast_1d(np.arange(p.n)[it])
            if isinstance(it, int):
                got = [tuple(str(r.stats[x]) for x in PERROW)]
                dat = [r.data]
                lag = r.stats.start_lag
            else:
                q = Snap(r)
                got, dat, lag = q.meta, q.data, q.lag0
                invariant(r, tell, True)
            if got != [p.meta[i] for i in ii] or lag != p.lag0 or \
                    not np.array_equal(dat, p.data[ii], equal_nan=True):
                tell('item', 'rows %s asked for, got %s' % (
                    [p.meta[i] for i in ii], got))
        return b, True
    if k == 'bad':
        with sim.bypass():
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try:
                    wrong(b, o, p)
                except Exception:
                    pass
            d = p.same(Snap(b), proc=False)
        if d:
            say('wrong-call', '%d: the impossible call %s changed the bulk: '
                '%s' % (no, o['what'], d))
        return b, True
    if k == 'dv_fix':
        t = 'shift' if o['i'] % 2 else 'stretch'
        dv = dvs(p, o, t)
        was = dvsnap(dv)
        fn = b.correct_shift if t == 'shift' else b.correct_stretch
        fn(dv)
        r = b
        with sim.bypass():
            if dvsnap(dv) != was:
                tell('argument', 'the given change was changed')
    elif k == 'store':
        return stored(b, p, no, tell, sim, root, store), True
    elif k == 'reread':
        from seismic.correlate.stream import read_corr_bulk
        path = os.path.join(root, 'again%d.npz' % no)
        b.save(path)
        r = read_corr_bulk(path)
        with sim.bypass():
            d = p.same(Snap(r))
            if d:
                tell('reread', d)
            d = p.same(Snap(b))
            if d:
                tell('changed', d)
        return r, True
    else:
        r, _ = doer.call(b, o, kw)
    with sim.bypass():
        if not invariant(r, tell, k == 'bins'):
            raise Stop
        q = Snap(r)
        if r is not b:
            d = p.same(Snap(b))
            if d:
                tell('changed', 'the original changed: ' + d)
        if q.proc[:len(p.proc)] != p.proc and k not in (
                'select', 'stream', 'daytime', 'pop', 'dup'):
            tell('history', 'processing was %s, now %s' % (p.proc, q.proc))
        if r is b and len(q.proc) != len(p.proc) + 1:
            tell('history', 'processing was %s, now %s' % (p.proc, q.proc))
        check_lags(p, q, o, kw, tell)
        check_rows(p, q, o, kw, tell)
        # what was handed out earlier is what it was
        for name, obj, fn, was in out:
            if fn(obj) != was:
                tell('aliased', 'the result of %s changed' % name)
                out.remove((name, obj, fn, was))
                break
    return r, True


class Stop(Exception):
    pass


def stored(b, p, no, tell, sim, root, store):
    """Into the database and back"""
    from seismic.db.corr_hdf5 import CorrelationDataBase
    cst = b.create_corr_stream()
    path = os.path.join(root, 'XN-YN.A-B.h5')
    tag = 'step%d_%d' % (no, store[0])
    store[0] += 1
    with CorrelationDataBase(path, CO, mode='a') as db:
        db.add_correlation(cst, tag)
    with sim.bypass():
        d = p.same(Snap(b))
        if d:
            tell('changed', d)
    with CorrelationDataBase(path, mode='r') as db:
        back = db.get_data('XN-YN', 'A-B', '*', tag)
    r = back.create_corr_bulk()
    with sim.bypass():
        if not invariant(r, tell):
            raise Stop
        q = Snap(r)
        want = sorted(zip(p.meta, range(p.n)))
        got = sorted(zip(q.meta, range(q.n)))
        if [m for m, _ in want] != [m for m, _ in got]:
            tell('stored', 'rows %s stored, %s read' % (
                [m for m, _ in want], [m for m, _ in got]))
        elif abs(q.lag0 - p.lag0) > 1e-9 or abs(q.dt - p.dt) > 1e-9 or any(
                not close(p.data[i], q.data[j], 1e-6)
                for (_, i), (_, j) in zip(want, got)):
            tell('stored', 'the rows or lags came back different')
    return b


def look(b, o, p, tell, out, sim):
    """Measurements and extractions"""
    k = o['k']
    with sim.bypass():
        try:
            fin = np.isfinite(p.data).all(axis=1) & (
                np.abs(p.data).max(axis=1) > 0)
            if not fin.any():
                raise Skip
            if k in ('fix_shift', 'fix_stretch'):
                ref, kw = measure(b, dict(o, k=k[4:], side='both', sim=False),
                                  p)
            elif k in ('shift', 'stretch'):
                ref, kw = measure(b, o, p)
            elif k == 'wfc':
                ref = ref_of(p)
                if p.npts < 20 or p.lag0 > -8 * p.dt or \
                        p.lag[-1] < 8 * p.dt or p.npts % 2 == 0 or abs(
                            p.lag0 + p.lag[-1]) > 1e-6:
                    raise Skip
                kw = {}
        except Skip:
            return b, False
        was = args_repr(kw) if k not in ('extract', 'wfc') else ''
    r = None
    if k == 'shift':
        r = b.measure_shift(**kw)
    elif k == 'stretch':
        r = b.stretch(**(kw if ref is None or not o.get('two') else dict(
            kw, ref_trc=np.array([ref, ref]))))
    elif k == 'wfc':
        r = b.wfc(ref[None], [np.arange(1, 6)], 'both', 1, 4, .1, .2,
                  remove_nans=False)
    elif k == 'extract':
        # there is no percentile of a window without rows
        if o['method'] == 'similarity_percentile' and o['multi']:
            return b, False
        if o['multi']:
            r = b.extract_multi_trace(increments(o), o['method'])
        else:
            r = b.extract_trace(o['method'])
    with sim.bypass():
        if k in ('fix_shift', 'fix_stretch'):
            return fixed(b, o, p, kw, ref, tell), True
        q = Snap(b)
        d = p.same(q)
        if d:
            tell('changed', 'measuring changed the bulk: ' + d)
            raise Stop
        if was and args_repr(kw) != was:
            tell('argument', 'the arguments were changed')
        if k == 'extract':
            extract_ref(r, o, p, fin, tell)
            return b, True
        if k == 'wfc':
            v = np.asarray(r['reftr_0']).reshape(-1)
            for i in range(p.n):
                s = solo(p.data, p.stats, i)
                w = s.wfc(ref[None], [np.arange(1, 6)], 'both', 1, 4, .1, .2,
                          remove_nans=False)
                if len(v) != p.n or not close(
                        v[i], np.asarray(w['reftr_0']).reshape(-1)[0], 1e-6):
                    tell('row', 'coherence of row %d is not what it is '
                         'alone' % i)
                    break
            out.append(('wfc', r, wfcsnap, wfcsnap(r)))
            return b, True
        times = [t.timestamp for t in r.stats.corr_start]
        if times != p.start:
            tell('times', 'measured at %s, the rows are at %s' % (
                times, p.start))
        v, c = rowvals(r, p.n)
        if len(v) != p.n or len(c) != p.n:
            tell('shape', '%d values for %d rows' % (len(v), p.n))
        elif k == 'stretch' and (
                np.shape(r.value) != (p.n,) or np.shape(r.corr) != (p.n,) or
                r.sim_mat is not None and np.size(r.sim_mat) and
                np.shape(r.sim_mat) != (p.n, len(r.second_axis))):
            tell('shape', 'values %s, coefficients %s, similarities %s for '
                 '%d rows' % (np.shape(r.value), np.shape(r.corr),
                              np.shape(r.sim_mat), p.n))
        elif k == 'stretch' and not np.array_equal(np.isnan(v), np.isnan(c)):
            tell('no-data', 'rows without coefficient: %s, without value: '
                 '%s' % (np.nonzero(np.isnan(c))[0],
                         np.nonzero(np.isnan(v))[0]))
        elif ref is not None:
            for i in range(p.n):
                s = solo(p.data, p.stats, i)
                w = (s.measure_shift if k == 'shift' else s.stretch)(**kw)
                wv, wc = rowvals(w, 1)
                if not close(c[i], wc[0], 1e-6) or (
                        not close(v[i], wv[0], 1e-6) and np.isfinite(wc[0])
                        and not close_peak(r, w, i)):
                    tell('row', 'row %d: %s with %s measured, alone %s with '
                         '%s' % (i, v[i], c[i], wv[0], wc[0]))
                    break
        out.append((k, r, dvsnap, dvsnap(r)))
    return b, True


def close_peak(r, w, i):
    """Two maxima of the same height"""
    a, b = float(np.atleast_1d(r.corr).reshape(-1)[i]), float(
        np.atleast_1d(w.corr).reshape(-1)[0])
    return abs(a - b) < 1e-12


def increments(o):
    """Days; no row begins or ends with a window"""
    a = (18100 + 10000 * int(o['u'] * 3)) / 86400
    if o['v'] < .3:
        return [a, a / 2, 2 * a][:1 + o['i'] % 3]
    return a


def extract_ref(r, o, p, fin, tell):
    if o['multi']:
        inc = increments(o)
        t = min(p.start)
        if not isinstance(inc, list):
            inc = [inc] * int(np.ceil(
                (max(p.end) - t) / (inc * 86400) - 1e-9))
        if len(r) != len(inc):
            return tell('extract', '%d references for %d windows' % (
                len(r), len(inc)))
        for j, d in enumerate(inc):
            d *= 86400
            ii = [i for i in range(p.n) if p.end[i] > t - d / 2 and
                  p.start[i] < t + 1.5 * d]
            t += d
            if ii and not close(r[j], extracted(p.data[ii], o['method'])):
                return tell('extract', 'reference %d is not the %s of rows '
                            '%s' % (j, o['method'], ii))
        return
    want = extracted(p.data, o['method'])
    if want is not None and not close(r, want):
        tell('extract', 'not the %s of the rows' % o['method'])


def extracted(x, method):
    if method == 'median':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return np.nanmedian(x, axis=0)
    if method == 'mean':
        return nanmean(x)
    m = np.max(np.abs(x), axis=1)
    m[m == 0] = 1
    x = x / m[:, None]
    if method == 'norm_mean':
        return nanmean(x)
    mean = nanmean(x)
    x = x[np.isfinite(x).all(axis=1)]
    x = x[np.abs(x).max(axis=1) > 0]
    if len(x) < 2:
        return None
    c = [np.sum(a * mean) / np.sqrt(np.sum(a ** 2) * np.sum(mean ** 2))
         for a in x]
    t = np.percentile(c, 50.)
    if len(x) % 2 == 0 and np.min(np.abs(c - t)) < 1e-6 or np.sum(
            np.abs(c - t) < 1e-6) > 1:
        return None
    if len(x) % 2:
        # the one in the middle is compared with itself
        near = np.abs(c - t) < 1e-6
        c = np.where(near, -2, c)
    return np.mean(x[c > t], axis=0)


def fixed(b, o, p, kw, ref, tell):
    """Measured, corrected, measured again: nothing is left"""
    kind = o['k'][4:]
    kw = dict(kw, ref_trc=ref, return_sim_mat=True)

    def meas():
        return (b.measure_shift if kind == 'shift' else b.stretch)(**kw)
    one_ = meas()
    v, c = rowvals(one_, p.n)
    (b.correct_shift if kind == 'shift' else b.correct_stretch)(one_)
    q = Snap(b)
    if q.meta != p.meta or q.npts != p.npts or q.lag0 != p.lag0:
        tell('lags', 'correcting changed times or lags')
        raise Stop
    two = meas()
    w, d = rowvals(two, p.n)
    st = np.asarray(one_.second_axis).reshape(-1)
    res = abs(st[1] - st[0])
    lim = np.max(np.abs(st))
    for i in range(p.n):
        if np.isfinite(c[i]) and c[i] > .85 and abs(v[i]) < lim * .7 and \
                abs(w[i]) > 1.01 * res + .8 * abs(v[i]):
            if nearly(two, i, res, d[i]):
                # periodic: several maxima of about the same height
                continue
            tell('fix', 'row %d: %s of %s corrected, then %s measured' % (
                i, kind, v[i], w[i]))
            break
    return b


def nearly(two, i, res, best):
    """Is the similarity without any change nearly the best one?"""
    ax = np.asarray(two.second_axis).reshape(-1)
    sm = np.asarray(two.sim_mat)
    sm = sm.reshape(-1, len(ax))
    x = sm[i, np.abs(ax) <= 1.01 * res]
    return best - x.max() < .01


# ------------------------------------------------------------------------ run
def arm():
    from seismic.monitor import post_corr_process, stretch_mod, trim
    for m in (post_corr_process, stretch_mod, trim):
        seams.alloc(m)


def run(sc, ctx):
    arm()
    root = ctx.disk
    sim = ctx.newsim(preempt=.2)
    done = [0]

    def history(start, b, say, ops_done, ck, out, store):
        """Operations from `start` on"""
        i = start
        while i < len(sc['ops']):
            o = sc['ops'][i]
            with sim.bypass():
                p = Snap(b)
            for attempt in (1, 2, 3):
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        nb, did = step(b, o, i, sc, root, say, out, sim,
                                       store)
                    break
                except Stop:
                    return None
                except (MemoryError, OSError, KeyboardInterrupt) as e:
                    if not sim.fired:
                        raise
                    with sim.bypass():
                        d = p.same(Snap(b))
                    if d:
                        say('half-done', '%d: %s failed (%s) and left '
                            'the bulk changed: %s' % (
                                i, o['k'], type(e).__name__, d))
                        return None
                    ctx.probe('retried')
            else:
                return None
            b = nb
            if did:
                ops_done.append(o['k'])
            if ck and o['ck']:
                try:
                    b.save(os.path.join(root, 'ck%d.npz' % (i + 1)))
                except OSError:
                    pass
            i += 1
        return b

    # straight through, nothing goes wrong
    said = []

    def say(kind, msg):
        said.append((kind, msg))
    first = {}

    def straight(rank):
        b = bulk(sc)
        with sim.bypass():
            first['ops'] = []
            r = history(0, b, say, first['ops'], False, [], [0])
            first['end'] = None if r is None else Snap(r)
    s0 = ctx.newsim(seed=0, faults=[])
    sim_, sim = sim, s0
    res = s0.run_job(1, straight)
    sim = sim_
    if res.outcome != 'ok':
        raise res.excs[0] if res.excs and res.excs[0] else RuntimeError(
            res.detail)
    for kind, msg in said:
        ctx.violation(kind, msg)
    ctx.nontrivial = bool(first['ops'])
    for k in first['ops']:
        ctx.probe('op.' + k)
    if said or first['end'] is None:
        ctx.key(first['ops'], 'stopped')
        return
    # the same with checkpoints and trouble
    if not sc['faults']:
        ctx.key(first['ops'], sc['n'], sc['left'] == sc['right'])
        return
    seams.activate(sim)
    last = {}
    outs = []
    for attempt in range(3):
        said.clear()

        def again(rank):
            from seismic.correlate.stream import read_corr_bulk
            start, b = 0, None
            with sim.bypass():
                for i in range(len(sc['ops']), 0, -1):
                    f = os.path.join(root, 'ck%d.npz' % i)
                    if os.path.exists(f):
                        try:
                            b = read_corr_bulk(f)
                            start = i
                            ctx.probe('resumed')
                            break
                        except Exception:
                            ctx.probe('damaged checkpoint')
                if b is None:
                    b = bulk(sc)
            r = history(start, b, say, [], True, [], [attempt * 100])
            with sim.bypass():
                last['end'] = None if r is None else Snap(r)
        res = sim.run_job(1, again)
        outs.append(res.outcome)
        for kind, msg in said:
            ctx.violation(kind, 'run %d: %s' % (attempt + 1, msg))
        if said:
            return
        if res.outcome == 'ok':
            break
        if res.outcome == 'exception':
            e = res.excs[0]
            if isinstance(e, (MemoryError, OSError)):
                continue
            raise e
    ctx.take(sim)
    ctx.key(first['ops'], sc['n'], outs, sorted(sim.fired))
    if outs[-1] == 'ok' and last.get('end') is not None:
        d = first['end'].same(last['end'], proc=False)
        if d and not near(first['end'], last['end']):
            ctx.violation('resumed', 'after %s the result differs from that '
                          'of the uninterrupted history: %s' % (outs, d))


def near(a, b):
    return a.meta == b.meta and abs(a.lag0 - b.lag0) < 1e-9 and close(
        a.data, b.data) and a.rest == b.rest
