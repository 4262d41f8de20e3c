"""P22: series of velocity changes are stitched, averaged and smoothed."""
import copy
import os
import random
import warnings

import numpy as np

from sim import seams, world

RUNS = {'quick': 2400, 'thorough': 60000}
RULE = (
    'scenario = 1-5 series of velocity changes of stations that replaced one '
    'another or ran at the same time (gaps, overlaps, offsets between their '
    'references) and 1-7 operations on them: stitching in any order, '
    'averages (with stitching, memory saving, by coordinates, of averages, '
    'of different axes), smoothing with and without a threshold, saving and '
    'reading; allocations fail, disks are full, the user interrupts, the '
    'process is killed and starts again from its checkpoints. Oracle after '
    'every operation: a numpy model of the series; after a failure every '
    'series is as before or as it has to be after it. Non-trivial: at least '
    'one operation done. State = (operations, series, outcomes, faults).')
REAL = ['seismic.monitor.monitor.correct_time_shift_several, '
        'correct_dv_shift, average_components, average_components_mem_save, '
        'average_dvs_by_coords', 'seismic.monitor.dv.DV, read_dv',
        'seismic.utils.miic_utils.nan_moving_av, npz helpers',
        'npz on tmpfs']
STUB = ['allocation seam around numpy calls of monitor, dv and miic_utils',
        'fault seams around files', 'wall clock', 'process (killed, '
        'restarted)']
DAY = 86400.


# ---------------------------------------------------------------- generation
def gen(seed, tier):
    r = random.Random('p22-%s' % seed)
    nw = r.choice([4, 6, 8, 10, 12])
    k = r.choice([1, 2, 2, 3, 3, 4, 5])
    kind = r.choice(['replaced', 'replaced', 'together', 'mixed'])
    ser = []
    for i in range(k):
        if kind == 'together' or kind == 'mixed' and r.random() < .5:
            a, b = 0, nw
            if r.random() < .4:
                a, b = sorted(r.sample(range(nw + 1), 2))
        else:
            a = i * nw // k
            b = max((i + 1) * nw // k, a + 1)
            a = max(0, a - r.choice([0, 0, 1, 2]))
            b = min(nw, b + r.choice([0, 0, 1, 2, -1 if b - a > 1 else 0]))
        ser.append({'a': a, 'b': b, 'off': r.randrange(-3, 4),
                    'gaps': [w for w in range(a, b)
                             if r.random() < .12] if r.random() < .4 else [],
                    'wob': r.random() < .3, 'seed': r.randrange(10**6),
                    'flank': r.random() < .03,
                    'odd': k > 1 and i > 0 and r.random() < .05,
                    'sta': r.choice(['A', 'A', 'B', 'C']),
                    'cha': r.choice(['HHZ', 'HHZ', 'HHE'])})
    ops = []
    for _ in range(r.choice([1, 2, 3, 4, 5, 7])):
        o = {'k': r.choice(['stitch', 'stitch', 'stitch', 'average',
                            'average', 'smooth', 'reread']),
             'ck': r.random() < .6}
        if o['k'] in ('stitch', 'average'):
            o['method'] = r.choice(['mean', 'mean', 'median'])
            o['n'] = r.choice([0, 0, 1, 1, 2, 5])
            w = list(range(k))
            r.shuffle(w)
            o['which'] = w[:r.choice([k, k, max(1, k - 1)])]
            if o['k'] == 'stitch' and k > 1 and r.random() < .3:
                # one to another, whichever comes first
                o['k'] = 'pair'
                o['which'] = w[:2]
        if o['k'] == 'average':
            o['fn'] = r.choice(['plain', 'plain', 'mem', 'mem', 'geo'])
            o['shift'] = o['fn'] == 'plain' and r.random() < .4
            o['scatter'] = r.random() < .7
            o['av'] = r.choice(['no', 'no', 'first', 'last'])
            o['box'] = [r.choice([0, 1, 1.5]), r.choice([2, 2.5, 4])]
        elif o['k'] in ('smooth', 'reread'):
            o['i'] = r.randrange(k)
            o['win'] = r.choice([1, 2, 3, 4, 5, 9])
            o['below'] = r.choice([None, None, .3, .6])
        ops.append(o)
    faults = []
    if r.random() < .45:
        for _ in range(r.choice([1, 1, 2])):
            site, act = r.choice([
                ('mem.alloc', 'memerr'), ('mem.alloc', 'memerr'),
                ('mem.alloc', 'interrupt'), ('mem.alloc', 'kill'),
                ('mem.alloc', 'kill'), ('mem.alloc', 'kill'), ('*', 'kill'), ('file.write', 'enospc'),
                ('file.write', 'kill'), ('file.open-w', 'eacces'),
                ('file.open-r', 'eio'), ('file.write', 'torn')])
            f = {'site': site, 'act': act, 'job': r.choice([1, 1, 1, 2]),
                 'nth': r.choice([1, 2, 3, 5, 8, 13, 21, 34, 60, 100, 160])}
            if act == 'torn':
                f['frac'] = r.choice([0., .4])
            faults.append(f)
    return {'nw': nw, 'm': r.choice([41, 61]), 'ser': ser, 'ops': ops,
            'curve': r.random() < .5, 'faults': faults, 'sched': seed}


def shrink(sc):
    for i in range(len(sc['ops'])):
        if len(sc['ops']) > 1:
            s = copy.deepcopy(sc)
            del s['ops'][i]
            yield s
    n = len(sc['ser'])
    for i in range(n):
        if n > 1:
            s = copy.deepcopy(sc)
            del s['ser'][i]
            for o in s['ops']:
                if 'which' in o:
                    o['which'] = [j - (j > i) for j in o['which'] if j != i]
                if 'i' in o:
                    o['i'] = min(o['i'], n - 2)
            if all(o.get('which', [0]) for o in s['ops']):
                yield s
    for k, v in (('faults', []), ('curve', False)):
        if sc[k] != v:
            yield dict(copy.deepcopy(sc), **{k: v})
    for i, x in enumerate(sc['ser']):
        for k, v in (('gaps', []), ('wob', False), ('odd', False),
                     ('off', 0), ('flank', False)):
            if x[k] != v:
                s = copy.deepcopy(sc)
                s['ser'][i][k] = v
                yield s


# ------------------------------------------------------------------- objects
def make(sc, i):
    """A series as the dv run makes it"""
    from obspy import UTCDateTime
    from seismic.correlate.stats import CorrStats
    from seismic.monitor.dv import DV
    x = sc['ser'][i]
    rs = np.random.RandomState(x['seed'])
    m = sc['m'] - (2 if x['odd'] else 0)
    mid = m // 2
    ax = (np.arange(m) - mid) * .001
    true = np.zeros(sc['nw'], int)
    if sc['curve']:
        true = np.array([0, 1, 1, 2, 1, 0, -1, -1, -2, -1, 0, 1])[:sc['nw']]
    sim = np.full((sc['nw'], m), np.nan)
    for w in range(x['a'], x['b']):
        c = mid + true[w] + x['off'] + (rs.randint(-1, 2) if x['wob'] else 0)
        amp = rs.uniform(.5, .95)
        if w not in x['gaps']:
            sim[w] = amp * (.95 * np.exp(-((np.arange(m) - c) / 2.5) ** 2)
                            + .03 + .02 * rs.uniform(size=m))
            if x['flank'] and w == x['a']:
                # a second maximum at an end of the axis
                end = [0, m - 1][x['seed'] % 2]
                sim[w] += .9 * amp * np.exp(
                    -((np.arange(m) - end) / 2.5) ** 2)
    corr, val = top(sim, ax)
    t = [UTCDateTime(world.T0 + w * DAY) for w in range(sc['nw'])]
    st = CorrStats({
        'network': 'XN-XN', 'station': '%s-%s' % (x['sta'], x['sta']),
        'channel': '%s-%s' % (x['cha'], x['cha']), 'location': '00-00',
        'corr_start': t, 'corr_end': [a + DAY for a in t],
        'stla': 1. + i, 'stlo': 1., 'stel': 1., 'evla': 1. + i, 'evlo': 1.,
        'evel': 1., 'dist': 0., 'start_lag': -10., 'sampling_rate': 2.,
        'npts': 41})
    return DV(corr=corr, value=val, value_type='stretch', sim_mat=sim,
              second_axis=ax, method='single_ref', stats=st,
              dv_processing={'freq_min': .1, 'freq_max': .2, 'tw_len': 4.,
                             'tw_start': 1., 'sides': 'both',
                             'aligned': False})


def top(sim, ax):
    n = len(sim)
    corr, val = np.full(n, np.nan), np.full(n, np.nan)
    for w in range(n):
        if np.isfinite(sim[w]).any():
            j = np.nanargmax(sim[w])
            corr[w], val[w] = sim[w, j], ax[j]
    return corr, val


class Wrapped(str):
    """Something left the axis and entered another window"""


class Model:
    """What a series has to be"""
    def __init__(self, dv):
        self.ax = np.array(dv.second_axis)
        self.sim = np.array(dv.sim_mat)
        self.corr, self.val = np.array(dv.corr), np.array(dv.value)
        self.known = np.ones(len(self.ax), bool)
        self.leak = 0.
        self.rolled = False
        self.codes = [str(dv.stats[k]) for k in (
            'network', 'station', 'channel')]
        self.stla = dv.stats.stla
        self.times = [t.timestamp for t in dv.stats.corr_start]

    @property
    def avail(self):
        return np.isfinite(self.corr)

    def roll(self, n):
        """The same curves, n steps further"""
        m = len(self.ax)
        out = np.full_like(self.sim, np.nan)
        kn = np.zeros(m, bool)
        if abs(n) >= m:
            raise Skip
        a, b = max(0, n), min(m, m + n)
        out[:, a:b] = self.sim[:, a - n:b - n]
        kn[a:b] = self.known[a - n:b - n]
        gone = np.ones(m, bool)
        gone[a - n:b - n] = False
        x = self.sim[:, gone]
        if np.isfinite(x).any():
            self.leak = max(self.leak, np.nanmax(x))
        self.sim, self.known = out, kn
        if n:
            old = self.corr
            self.corr, self.val = top(self.sim, self.ax)
            if not close(old, self.corr):
                # left the axis
                raise Skip
            self.rolled = True

    def smooth(self, win, below):
        x = self.sim.copy()
        if below is not None:
            x[x < below] = np.nan
        h = int(win / 2)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.sim = np.array([np.nanmean(
                x[max(0, w - h):w + h + 1], axis=0) for w in range(len(x))])
        self.corr, self.val = top(self.sim, self.ax)
        self.rolled = False


class Skip(Exception):
    """Nothing is promised for this"""


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(
        a, b, rtol=tol, atol=tol, equal_nan=True)


def diff(dv, mo, av=False):
    """First difference to the model, or None"""
    if not np.array_equal(np.asarray(dv.second_axis), mo.ax):
        return 'second axis'
    if [t.timestamp for t in dv.stats.corr_start] != mo.times:
        return 'times'
    if not av and [str(dv.stats[k]) for k in (
            'network', 'station', 'channel')] != mo.codes:
        return 'codes are %s' % [dv.stats.network, dv.stats.station,
                                 dv.stats.channel]
    s = np.asarray(dv.sim_mat)
    if s.shape != mo.sim.shape:
        return 'shape'
    for w in range(len(s)):
        if not close(s[w, mo.known], mo.sim[w, mo.known]):
            return 'similarity of window %d' % w
        if np.isnan(mo.corr[w]):
            if mo.leak and not np.isnan(s[w]).all():
                return 'window %d without data has a similarity now' % w
            if not np.isnan(dv.corr[w]) or not np.isnan(dv.value[w]):
                return 'window %d without data has the value %s with the ' \
                    'coefficient %s' % (w, dv.value[w], dv.corr[w])
        elif mo.corr[w] > mo.leak + 1e-6:
            if not close(dv.corr[w], mo.corr[w]):
                return 'coefficient of window %d is %s instead of %s' % (
                    w, dv.corr[w], mo.corr[w])
            tie = np.sum(mo.sim[w] > mo.corr[w] - 1e-9) > 1
            if not tie and not close(dv.value[w], mo.val[w]):
                return 'value of window %d is %s instead of %s' % (
                    w, dv.value[w], mo.val[w])
        elif mo.rolled and not close(dv.value[w], mo.val[w]):
            j = np.argmin(np.abs(mo.ax - dv.value[w]))
            if not mo.known[j] and dv.sim_mat[w, j] > mo.corr[w] + 1e-6:
                return Wrapped(
                    'window %d has the value %s instead of %s, from what a '
                    'neighbouring window had at the other end of the axis' % (
                        w, dv.value[w], mo.val[w]))
    if not np.array_equal(dv.avail, np.isfinite(mo.corr)):
        return 'available windows are %s instead of %s' % (
            np.nonzero(dv.avail)[0], np.nonzero(mo.avail)[0])
    return None


# ---------------------------------------------------------------- references
def stitch_model(ms, method, n):
    """Every series continues the one before it"""
    if any(not x.avail.any() for x in ms):
        raise Skip
    mean = [np.mean(np.nonzero(x.avail)[0]) for x in ms]
    if len({round(x, 6) for x in mean}) < len(mean):
        raise Skip
    order = sorted(range(len(ms)), key=lambda i: mean[i])
    for a, b in zip(order, order[1:]):
        shift_model(ms[a], ms[b], method, n)


def shift_model(a, b, method, n):
    """b is shifted to a; False if they are too far from each other"""
    if True:
        if len(a.ax) != len(b.ax) or not a.avail.any() or not b.avail.any():
            raise Skip
        ia, ib = np.nonzero(a.avail)[0], np.nonzero(b.avail)[0]
        both = np.intersect1d(ia, ib)
        if len(both):
            lo, hi = both[0] - n, both[-1] + n
        elif ib[0] > ia[-1]:
            if ib[0] - ia[-1] > n:
                return False
            lo, hi = ia[-1] - n, ib[0] + n
        elif ia[0] > ib[-1]:
            if ia[0] - ib[-1] > n:
                return False
            lo, hi = ib[-1] - n, ia[0] + n
        else:
            raise Skip
        ra = [w for w in ia if lo <= w <= hi]
        rb = [w for w in ib if lo <= w <= hi]
        if method == 'mean':
            d = np.average(b.val[rb], weights=b.corr[rb]) - np.average(
                a.val[ra], weights=a.corr[ra])
        else:
            d = np.median(b.val[rb]) - np.median(a.val[ra])
        d /= a.ax[1] - a.ax[0]
        if abs(abs(d) % 1 - .5) < .02:
            raise Skip
        b.roll(-int(round(d)))
    return True


def average_model(ms):
    r = copy.deepcopy(ms[0])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r.sim = np.nanmean([x.sim for x in ms], axis=0)
    r.known = np.all([x.known for x in ms], axis=0)
    r.leak = max(x.leak for x in ms)
    lost = [x.sim[:, ~r.known] for x in ms if not r.known.all()]
    if any(np.isfinite(x).any() for x in lost):
        r.leak = max([r.leak] + [np.nanmax(x) for x in lost
                                 if np.isfinite(x).any()])
    r.sim[:, ~r.known] = np.nan
    r.corr, r.val = top(r.sim, r.ax)
    r.rolled = False
    for k in range(3):
        if len({x.codes[k] for x in ms}) > 1:
            r.codes[k] = 'av'
    r.n = np.sum([x.avail for x in ms], axis=0)
    return r


# -------------------------------------------------------------------- running
class Run:
    def __init__(self, sc, root, say, sim):
        self.sc, self.root, self.say, self.sim = sc, root, say, sim
        self.dv = [make(sc, i) for i in range(len(sc['ser']))]
        self.mo = [Model(d) for d in self.dv]
        self.av = None
        self.done = []

    def after(self, o):
        """The models after o, and the result"""
        ms = copy.deepcopy(self.mo)
        k = o['k']
        if k == 'stitch':
            stitch_model([ms[i] for i in o['which']], o['method'], o['n'])
        elif k == 'pair':
            a, b = [ms[i] for i in o['which'][:2]]
            r = shift_model(b, a, o['method'], o['n'])
            return ms, 'together' if r else 'apart'
        elif k == 'smooth':
            ms[o['i']].smooth(o['win'], o['below'])
        elif k == 'average':
            w = list(o['which'])
            if o['fn'] == 'geo':
                w = [i for i in w if o['box'][0] <= ms[i].stla
                     <= o['box'][1]]
            if not w or self.sc['ser'][w[0]]['odd']:
                raise Skip
            w = [i for i in w if not self.sc['ser'][i]['odd']]
            if o['shift']:
                stitch_model([ms[i] for i in w], o['method'], o['n'])
            r = average_model([ms[i] for i in w])
            r.val_of = [ms[i].val for i in w]
            r.corr_of = [ms[i].corr for i in w]
            r.who = w
            return ms, r
        return ms, None

    def do(self, o):
        from seismic.monitor import monitor
        from seismic.monitor.dv import read_dv
        k = o['k']
        if k == 'stitch':
            monitor.correct_time_shift_several(
                [self.dv[i] for i in o['which']], o['method'], o['n'])
        elif k == 'pair':
            a, b = [self.dv[i] for i in o['which'][:2]]
            try:
                r = monitor.correct_dv_shift(a, b, o['method'], o['n'])
            except ValueError as e:
                if 'gap' not in str(e):
                    raise
                return 'apart'
            if r[0] is not a or r[1] is not b:
                self.say('pair', 'correct_dv_shift returns other objects')
            return 'together'
        elif k == 'smooth':
            self.dv[o['i']].smooth_sim_mat(o['win'], o['below'])
        elif k == 'reread':
            f = os.path.join(self.root, 'again.npz')
            self.dv[o['i']].save(f)
            self.dv[o['i']] = read_dv(f)
        else:
            dvs = [self.dv[i] for i in o['which']]
            if self.av is not None and o['av'] == 'first':
                dvs.insert(0, self.av)
            elif self.av is not None and o['av'] == 'last':
                dvs.append(self.av)
            if o['fn'] == 'mem':
                return monitor.average_components_mem_save(
                    (d for d in dvs), o['scatter'])
            if o['fn'] == 'geo':
                return monitor.average_dvs_by_coords(
                    dvs, tuple(o['box']), (0, 2), return_std=o['scatter'])
            return monitor.average_components(
                dvs, o['scatter'], o['shift'], o['method'], o['n'])

    def whole(self, no, o, ms):
        """Every series is as it has to be"""
        bad = [(i, diff(d, m)) for i, (d, m) in enumerate(zip(self.dv, ms))]
        bad = [x for x in bad if x[1]]
        # what wrapped around in one decides how others are shifted
        for i, x in sorted(bad, key=lambda y: not isinstance(y[1], Wrapped)):
            self.say('wrapped' if isinstance(x, Wrapped) else 'series',
                     '%d: %s: series %d: %s' % (no, brief(o), i, x))
            return False
        return True

    def step(self, no):
        """-> go on?"""
        o = self.sc['ops'][no]
        with self.sim.bypass():
            if o['k'] == 'smooth' and self.mo[o['i']].leak and \
                    o['below'] is not None:
                # what entered at the end of the axis may pass or not
                return True
            try:
                ms, want = self.after(o)
            except Skip:
                return True
            was = None if self.av is None else repr(canon(self.av))
        for attempt in range(3):
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    r = self.do(o)
                break
            except (MemoryError, OSError, KeyboardInterrupt) as e:
                if not self.sim.fired:
                    raise
                with self.sim.bypass():
                    for i in range(len(self.dv)):
                        a = diff(self.dv[i], self.mo[i])
                        if a and diff(self.dv[i], ms[i]):
                            self.say('half-done', '%d: %s failed (%s) and '
                                     'left series %d half done: %s' % (
                                         no, brief(o), type(e).__name__, i,
                                         a))
                            return False
        else:
            return False
        with self.sim.bypass():
            if not self.whole(no, o, ms):
                return False
            if was is not None and repr(canon(self.av)) != was:
                self.say('changed', '%d: %s changed an average that was '
                         'computed before' % (no, brief(o)))
                return False
            if o['k'] == 'pair' and r != want:
                self.say('pair', '%d: %s: the series are %s, the call says '
                         '%s' % (no, brief(o), want, r))
                return False
            if o['k'] == 'average' and not self.average(no, o, r, want):
                return False
            self.mo = ms
            self.done.append(o['k'] + (
                '-' + o['fn'] if o['k'] == 'average' else ''))
        return True

    def average(self, no, o, r, want):
        x = diff(r, want, True)
        if not x and not close(r.n_stat, want.n):
            x = 'numbers of series are %s instead of %s' % (r.n_stat, want.n)
        if not x and o['fn'] != 'geo':
            got = [str(r.stats[k]) for k in ('network', 'station', 'channel')]
            if got != want.codes:
                x = 'codes are %s instead of %s' % (got, want.codes)
        if not x and o['scatter'] and not want.leak:
            if not close(r.stretches, want.val_of) or not close(
                    r.corrs, want.corr_of):
                x = 'scatter is not the values of series %s' % want.who
        if not x and not o['scatter'] and r.stretches is not None:
            x = 'scatter not asked for'
        if x:
            self.say('average', '%d: %s: %s' % (no, brief(o), x))
            return False
        if o['fn'] != 'geo' and 'av' in (
                r.stats.network, r.stats.station, r.stats.channel):
            self.av = r
        return True


def canon(d):
    return [np.asarray(x).tolist() for x in (
        d.corr, d.value, d.sim_mat, d.n_stat, d.second_axis)] + [
            sorted((k, repr(v)) for k, v in d.stats.items())]


def brief(o):
    return '%s(%s)' % (o['k'], ', '.join('%s=%s' % (k, v) for k, v in sorted(
        o.items()) if k not in ('k', 'ck')))


def arm():
    from seismic.monitor import dv, monitor
    from seismic.utils import miic_utils
    for m in (dv, monitor, miic_utils):
        seams.alloc(m)


def run(sc, ctx):
    arm()
    root = ctx.disk
    said = []

    def say(kind, msg):
        said.append((kind, msg))
    s0 = ctx.newsim(seed=0, faults=[])
    first = {}

    def straight(rank):
        with s0.bypass():
            a = first['run'] = Run(sc, root, say, s0)
            for no in range(len(sc['ops'])):
                if not a.step(no):
                    break
    res = s0.run_job(1, straight)
    if res.outcome != 'ok':
        raise res.excs[0] if res.excs and res.excs[0] else RuntimeError(
            res.detail)
    for kind, msg in said:
        ctx.violation(kind, msg)
    done = first['run'].done
    ctx.nontrivial = bool(done)
    for k in done:
        ctx.probe('op.' + k)
    if said or not sc['faults']:
        ctx.key(done, len(sc['ser']), sc['nw'])
        return
    # the same with checkpoints and trouble
    sim = ctx.newsim(preempt=.2)
    seams.activate(sim)
    outs = []
    for attempt in range(3):
        def again(rank):
            from seismic.monitor.dv import read_dv
            with sim.bypass():
                a = Run(sc, root, say, sim)
                start = 0
                # models need no checkpoint: they are repeated
                for c in range(len(sc['ops']), 0, -1):
                    f = [os.path.join(root, 'ck%d_%d.npz' % (c, i))
                         for i in range(len(a.dv))]
                    try:
                        got = [read_dv(x) for x in f]
                    except Exception:
                        continue
                    start = c
                    ctx.probe('resumed')
                    break
                for no in range(start):
                    try:
                        o = sc['ops'][no]
                        if o['k'] == 'smooth' and a.mo[o['i']].leak and \
                                o['below'] is not None:
                            continue
                        a.mo = a.after(o)[0]
                    except Skip:
                        pass
                if start:
                    a.dv = got
            for no in range(start, len(sc['ops'])):
                if not a.step(no):
                    return
                if sc['ops'][no]['ck']:
                    try:
                        for i, d in enumerate(a.dv):
                            d.save(os.path.join(
                                root, 'ck%d_%d.npz' % (no + 1, i)))
                    except (OSError, MemoryError, KeyboardInterrupt):
                        pass
        res = sim.run_job(1, again)
        outs.append(res.outcome)
        for kind, msg in said:
            ctx.violation(kind, 'run %d: %s' % (attempt + 1, msg))
        if said or res.outcome == 'ok':
            break
        if res.outcome == 'exception':
            raise res.excs[0]
    ctx.take(sim)
    ctx.key(done, len(sc['ser']), outs, sorted(sim.fired))
