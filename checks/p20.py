"""P20: spatial inversion depends neither on order nor on history."""
import copy
import os
import random
import warnings

import numpy as np
from obspy import UTCDateTime
from obspy.geodetics import locations2degrees
from obspy.geodetics.base import degrees2kilometers

from sim import world

RUNS = {'quick': 420, 'thorough': 12000}
RULE = (
    'scenario = 2-6 dvs (auto and cross correlations of 2-4 stations, '
    'hourly, starting late or ending early, with gaps, similarities of 0 and '
    '1) as files, a grid (extent, resolution, time step, velocity, mean free '
    'path), and a history of 1-6 operations on one or several grids: '
    'inversion (least squares, truncated SVD), resolution, posterior '
    'covariance, forward model, alignment with or without saving; dvs as '
    'list, iterator, or read with wildcards in any listing order, some files '
    'damaged; faults while aligned dvs are saved (full disk, torn writes, '
    'failed allocation, Ctrl-C, kill), then the alignment is resumed. Oracle: '
    'numpy model of each operation computed from the arrays in canonical '
    'order. Non-trivial: at least two results compared. State = (operations, '
    'dvs used, faults).')
REAL = ['seismic.monitor.spatial', 'seismic.monitor.dv', 'seismic.utils.'
        'miic_utils npz reading and writing', 'files on tmpfs']
STUB = ['directory order (seeded permutation)', 'fault seams around files']

LAT0, LON0 = 10., 20.
WIN = 3600


def gen(seed, tier):
    r = random.Random('p20-%s' % seed)
    res = r.choice([1., 1., .5, .1, .3, .7, 2.])
    nx, ny = r.choice([(4, 4), (3, 5), (6, 2)])
    grid = {'res': res, 'x': round(nx * res, 6), 'y': round(ny * res, 6),
            'vel': r.choice([1., 3., 2.2]), 'mf': r.choice([2., 30.])}
    grid['dt'] = r.choice([.25, .2, .1]) * round(
        res / grid['vel'] + .01, 1) or .02
    n = r.choice([2, 3, 3, 4])
    stas = []
    for s in r.sample(['A', 'AB', 'B', 'C1'], n):
        stas.append({'net': r.choice(['XN', 'YP']), 'sta': s,
                     'x': round(r.uniform(.02, .98) * grid['x'], 4),
                     'y': round(r.uniform(.02, .98) * grid['y'], 4)})
    pairs = [(i, j) for i in range(n) for j in range(i, n)]
    span = np.hypot(grid['x'], grid['y']) / grid['vel']
    tw = [round(span * r.choice([1.1, 2.]), r.choice([0, 1, 2])) + 1,
          round(span * r.choice([1., 3.]), r.choice([0, 1])) + .5]
    dvs = []
    for p in r.sample(pairs, min(len(pairs), r.choice([2, 3, 4, 6]))):
        nwin = r.choice([8, 8, 9, 12])
        dvs.append({
            'pair': p, 'nwin': nwin, 'first': r.choice([0, 0, 0, 3, -2]),
            'gaps': sorted(r.sample(range(nwin), r.choice([0, 0, 1, 3]))),
            'one': sorted(r.sample(range(nwin), r.choice([0, 0, 1, 2]))),
            'zero': sorted(r.sample(range(nwin), r.choice([0, 0, 1]))),
            'sim': r.random() < .3, 'bad': r.random() < .07,
            'proc': True})
    if r.random() < .15:
        for d in dvs:
            d['proc'] = False
    ops = []
    for _ in range(r.choice([1, 2, 3, 3, 4, 6])):
        ops.append({
            'op': r.choice(['lsq', 'lsq', 'lsq', 'tsvd', 'res', 'cov',
                            'forward', 'align', 'align']),
            'at': r.choice([0, 1, 2, 3, 5, 7, 8, -2]) * WIN + r.choice(
                [0, 0, 600, 1790, 2000]),
            'src': r.choice(['list', 'list', 'iter', 'disk', 'disk']),
            'use': None if r.random() < .5 else sorted(r.sample(
                range(len(dvs)), r.randrange(1, len(dvs) + 1))),
            'order': r.randrange(10 ** 6), 'grid': r.choice([0, 0, 0, 1]),
            'steps': r.choice([0, 1, 2]), 'thres': r.choice([.2, .5, .1]),
            'save': r.random() < .7, 'resolution': r.random() < .3,
            'tw': r.random() < .25 and [
                r.choice([0, 0, .5, 2.]), r.choice([1, 1, 1.5])]})
    faults = []
    if r.random() < .6:
        site = r.choice(['file.open-w', 'file.write', 'file.rename', '*'])
        acts = ['enospc', 'eio', 'interrupt', 'kill', 'memerr']
        if site == 'file.write':
            acts = ['short', 'torn', 'torn'] + acts
        # most steps write nothing
        jobs = [k for k, o in enumerate(ops) if o['op'] == 'align'
                and o['save']] or range(len(ops))
        faults.append({'job': 1 + r.choice(jobs), 'site': site,
                       'nth': r.choice([1, 1, 1, 2, 3, 5]),
                       'act': r.choice(acts), 'frac': r.choice([0., .5])})
    return {'grid': grid, 'stas': stas, 'dvs': dvs, 'ops': ops, 'tw': tw,
            'freq': r.choice([[.5, 1.5], [.1, .3]]),
            'model': [r.choice([1., 3.]), r.choice([1., 4.]),
                      r.choice([.01, .1])],
            'faults': faults, 'sched': seed, 'data': seed}


def shrink(sc):
    if sc['faults']:
        yield dict(sc, faults=[])
    for i in range(len(sc['ops'])):
        if len(sc['ops']) > 1:
            s = copy.deepcopy(sc)
            del s['ops'][i]
            s['faults'] = [dict(f, job=f['job'] - (f['job'] > i + 1))
                           for f in s['faults'] if f['job'] != i + 1]
            yield s
    for i in range(len(sc['dvs'])):
        if len(sc['dvs']) > 1:
            s = copy.deepcopy(sc)
            del s['dvs'][i]
            for o in s['ops']:
                if o['use'] is not None:
                    o['use'] = [u - (u > i) for u in o['use'] if u != i]
                    if not o['use']:
                        o['use'] = None
            yield s
    for i, d in enumerate(sc['dvs']):
        for k, v in (('gaps', []), ('one', []), ('zero', []), ('bad', False),
                     ('sim', False), ('first', 0)):
            if d[k] != v:
                s = copy.deepcopy(sc)
                s['dvs'][i][k] = v
                yield s
    for i, o in enumerate(sc['ops']):
        for k, v in (('use', None), ('src', 'list'), ('save', False),
                     ('resolution', False), ('grid', 0), ('steps', 0),
                     ('tw', False)):
            if o[k] != v:
                s = copy.deepcopy(sc)
                s['ops'][i][k] = v
                yield s


# -- data ---------------------------------------------------------------------

def geo(sc, s):
    """latitude and longitude of a station"""
    km = degrees2kilometers(1.)
    return LAT0 + s['y'] / km, LON0 + s['x'] / km / np.cos(np.radians(LAT0))


def arrays(sc, i):
    """start times, similarities, values of dv i"""
    d = sc['dvs'][i]
    r = world.rs('p20', sc['data'], i)
    corr = r.uniform(.05, .99, d['nwin'])
    val = r.uniform(-.02, .02, d['nwin'])
    for k in d['one']:
        corr[k] = 1.
    for k in d['zero']:
        corr[k] = 0.
    for k in d['gaps']:
        corr[k] = val[k] = np.nan
    t = [world.T0 + (d['first'] + k) * WIN for k in range(d['nwin'])]
    return t, corr, val


def ident(sc, i):
    a, b = (sc['stas'][k] for k in sc['dvs'][i]['pair'])
    return '%s-%s.%s-%s.HHZ-HHZ' % (a['net'], b['net'], a['sta'], b['sta'])


def make(sc, i):
    from seismic.correlate.stats import CorrStats
    from seismic.monitor.dv import DV
    d = sc['dvs'][i]
    t, corr, val = arrays(sc, i)
    a, b = (sc['stas'][k] for k in d['pair'])
    (la, lo), (ea, eo) = geo(sc, a), geo(sc, b)
    st = CorrStats({
        'network': a['net'] + '-' + b['net'],
        'station': a['sta'] + '-' + b['sta'], 'channel': 'HHZ-HHZ',
        'location': '00-00', 'corr_start': [UTCDateTime(x) for x in t],
        'corr_end': [UTCDateTime(x + WIN) for x in t], 'stla': la,
        'stlo': lo, 'stel': 0., 'evla': ea, 'evlo': eo, 'evel': 0.,
        'start_lag': -10., 'sampling_rate': 2., 'npts': 41})
    ax = np.linspace(-.02, .02, 5)
    kw = {}
    if d['proc']:
        kw['dv_processing'] = {
            'freq_min': sc['freq'][0], 'freq_max': sc['freq'][1],
            'tw_start': sc['tw'][0], 'tw_len': sc['tw'][1], 'sides': 'both'}
    return DV(corr.copy(), val.copy(), 'stretch', np.ones(
        (len(t), 5)) if d['sim'] else None, ax, 'single', st, **kw)


# -- model --------------------------------------------------------------------

def extract(sc, data, use, at):
    """[(value, similarity, pair)] that are available at the time"""
    out = []
    for i in use:
        t, corr, val = data[i]
        if at < t[0] or at > t[-1] + WIN:
            continue
        k = int(np.argmin([abs(x - at) for x in t]))
        if not (np.isfinite(val[k]) and 1e-3 < corr[k] < 1):
            continue
        out.append((val[k], corr[k], i))
    return out


def wave(g, r, t):
    """Intensity of the wave field at distance r and time t (Paasschens)"""
    tol = g['vel'] * g['dt'] / 2
    v, ell = g['vel'] * t, g['mf']
    p = np.zeros(np.shape(r))
    front = np.abs(r - v) <= tol + 1e-5 * abs(v)
    with np.errstate(all='ignore'):
        f = np.exp(-v / ell) / (2 * np.pi * r)
        p[front] = np.where(r == 0, 1, f)[front]
        c = np.exp((np.sqrt(v ** 2 - r ** 2) - v) / ell) / (
            2 * np.pi * ell * v * np.sqrt(1 - r ** 2 / v ** 2))
    on = v - r - tol > 0
    p[on] += c[on]
    return p


def axes(g):
    """The cells; rounding may add one more at the end"""
    out = []
    for k in 'xy':
        n = len(np.arange(0, g[k] + g['res'], g['res']))
        out.append(np.arange(n) * g['res'])
    return out


def place(sc, s):
    la, lo = geo(sc, s)
    return (degrees2kilometers(locations2degrees(LAT0, lo, LAT0, LON0)),
            degrees2kilometers(la - LAT0))


def kernel(sc, i, t):
    g = sc['grid']
    x, y = np.meshgrid(*axes(g))
    a, b = (place(sc, sc['stas'][k]) for k in sc['dvs'][i]['pair'])
    ra, rb = (np.hypot(x - p[0], y - p[1]).ravel() for p in (a, b))
    dist = np.array([np.hypot(a[0] - b[0], a[1] - b[1])])
    den = wave(g, dist, t)[0]
    if den == 0:
        return np.zeros(ra.shape)
    times = np.arange(np.ceil(t / g['dt'] - .5 - 1e-6) + 1) * g['dt']
    f = np.array([wave(g, ra, u) * wave(g, rb, t - u) for u in times])
    integral = ((f[1:] + f[:-1]) / 2).sum(axis=0) * g['dt']
    return g['res'] ** 2 / t * integral / den


class Model:
    def __init__(self, sc, data, use, at, tw):
        self.rows = extract(sc, data, use, at)
        t0, ln = tw
        self.K = np.array([kernel(sc, i, t0 + ln / 2)
                           for v, c, i in self.rows])
        if not self.rows:
            return
        x, y = np.meshgrid(*axes(sc['grid']))
        x, y = x.ravel(), y.ravel()
        self.shape = np.meshgrid(*axes(sc['grid']))[0].shape
        d = np.hypot(x[:, None] - x[None], y[:, None] - y[None])
        scale, length, std = sc['model']
        self.cm = (std * scale / length) ** 2 * np.exp(-d / length)
        f0, f1 = sc['freq']
        c = np.array([r[1] for r in self.rows])
        sig = np.sqrt(1 - c ** 2) / (2 * c) * np.sqrt(
            6 * np.sqrt(np.pi / 2) / (f1 - f0) / (
                (np.pi * (f0 + f1)) ** 2 * ((t0 + ln) ** 3 - t0 ** 3)))
        self.cd = np.diag(sig ** 2)
        self.v = np.array([r[0] for r in self.rows])

    def gain(self):
        return self.cm @ self.K.T @ np.linalg.inv(
            self.K @ self.cm @ self.K.T + self.cd)

    def lsq(self):
        return (self.gain() @ self.v).reshape(self.shape)

    def resolution(self):
        return (self.gain() @ self.K).sum(axis=1).reshape(self.shape)

    def tsvd(self):
        return (np.linalg.pinv(self.K, rcond=.2) @ self.v).reshape(
            self.shape)

    def cov(self):
        return np.linalg.inv(self.K.T @ np.linalg.inv(self.cd) @ self.K
                             + np.linalg.inv(self.cm))


def aligned(t, corr, val, at, steps, target):
    """values after alignment"""
    k = int(np.argmin([abs(x - at) for x in t]))
    if k < steps:
        s = slice(0, k + steps + 1)
    else:
        s = slice(k - steps, k + steps + 1)
    return val - np.nansum(val[s] * corr[s]) / np.nansum(corr[s]) + target


def starts(t, corr, at, thres):
    if np.isfinite(corr).sum() < 6 or at < t[0] or at > t[-1] + WIN:
        return False
    k = int(np.argmin([abs(x - at) for x in t]))
    return bool(np.isfinite(corr[k]) and corr[k] >= thres)


def close(a, b, tol=1e-6):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(
        a, b, rtol=tol, atol=tol * (np.nanmax(np.abs(b)) if b.size else 1),
        equal_nan=True)


# -- run ----------------------------------------------------------------------

def run(sc, ctx):
    from seismic.monitor.dv import read_dv
    from seismic.monitor.spatial import DVGrid
    d = os.path.join(ctx.disk, 'dv')
    os.makedirs(d)
    g = sc['grid']
    n = len(sc['dvs'])
    path = {i: os.path.join(d, 'DV-%s.npz' % ident(sc, i)) for i in range(n)}
    disk = {i: arrays(sc, i) for i in range(n)}
    ids = {ident(sc, i): i for i in range(n)}
    mem = {}
    for i in range(n):
        dv = make(sc, i)
        dv.save(path[i])
        mem[i] = dv
        if sc['dvs'][i]['bad']:
            with open(path[i], 'r+b') as f:
                f.truncate(os.path.getsize(path[i]) // 2)
    # what is known: values in memory and on disk, alignment, grid
    vmem, vdisk = dict(disk), dict(disk)
    amem, adisk = {i: False for i in range(n)}, {i: False for i in range(n)}
    bad = {i for i in range(n) if sc['dvs'][i]['bad']}
    grids, vel, compared, opskey = {}, {}, 0, []
    sim = ctx.newsim()
    proc = sc['dvs'][0]['proc']

    def newgrid():
        return DVGrid(LAT0, LON0, g['res'], g['x'], g['y'], g['dt'],
                      g['vel'], g['mf'])
    for j, op in enumerate(sc['ops']):
        at = world.T0 + op['at']
        use = list(range(n)) if op['use'] is None else list(op['use'])
        disk_ = op['src'] == 'disk'
        if disk_:
            # alignment in place is done on what was read
            use = [i for i in range(n) if i not in bad]
        random.Random(op['order']).shuffle(use)
        gi = op['grid']
        kw = {}
        t0, ln = sc['tw']
        shift, fac = op['tw'] or (0, 1)
        tw = t0 + shift, ln * fac
        if op['op'] == 'forward' and (not proc or op['tw']):
            kw = {'tw': (tw[0], tw[0] + tw[1])}
        elif not proc or op['tw']:
            kw = {'tw': (tw[0], tw[0] + tw[1]), 'freq0': sc['freq'][0],
                  'freq1': sc['freq'][1]}
        if not proc and op['op'] == 'align' and gi in vel:
            # the forward model needs the processing of the dvs
            sim.run_job(1, lambda rank: None)
            continue
        data = vdisk if disk_ else vmem
        held = {}

        def body(rank):
            if gi not in grids:
                grids[gi] = newgrid()
                if gi in vel:
                    grids[gi].vel_change = vel[gi].copy()
            gr = grids[gi]
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if disk_:
                    src = read_dv(os.path.join(d, 'DV-*.npz'))
                else:
                    src = [mem[i] for i in use]
                held['src'] = src = list(src)
                it = iter(src) if op['src'] == 'iter' else src
                utc = UTCDateTime(at)
                if op['op'] == 'lsq':
                    x = gr.compute_dv_grid(
                        it, utc, *sc['model'],
                        compute_resolution=op['resolution'], **kw)
                    return x, (gr.resolution if op['resolution'] else None)
                if op['op'] == 'tsvd':
                    return gr.compute_dv_tsvd(it, utc, **kw), None
                if op['op'] == 'res':
                    return gr.compute_resolution(
                        it, utc, *sc['model'], **kw), None
                if op['op'] == 'cov':
                    return gr.compute_posterior_covariance(
                        it, utc, *sc['model'], **kw), None
                if op['op'] == 'forward':
                    field = np.cos(np.arange(gr.xgrid.size)).reshape(
                        gr.xgrid.shape)
                    return gr.forward_model(field, it, utc, **kw), None
                return [x.stats.id for x in gr.align_dvs_to_grid(
                    src, utc, op['steps'], op['thres'],
                    save=d if op['save'] else False)], None
        before = dict(sim.fired)
        res = sim.run_job(1, body)
        fault = sum(sim.fired.values()) > sum(before.values())
        if ctx.take(sim):
            return
        what = 'operation %d of %d: %s of %s at %+d s (%s, grid %d)' % (
            j + 1, len(sc['ops']), op['op'],
            [ident(sc, i) for i in sorted(use)], op['at'], op['src'], gi)
        if fault:
            what += ', faults %s' % sim.fired
        opskey.append((op['op'], res.outcome))
        e = res.excs[0]
        if op['op'] != 'align':
            if disk_ and fault:
                if res.outcome == 'killed':
                    grids.clear()
                continue
            if res.outcome == 'killed':
                grids.clear()
                for i in range(n):
                    if i not in bad:
                        mem[i], vmem[i], amem[i] = read_dv(
                            path[i]), vdisk[i], adisk[i]
                continue
            if disk_ and not use and isinstance(e, FileNotFoundError):
                continue
            m = Model(sc, data, sorted(use), at, tw)
            if not m.rows:
                if not isinstance(e, IndexError):
                    ctx.violation('invented', '%s: no dv has data, but %s' % (
                        what, res.excs[0] if e else 'a result is returned'))
                    return
                continue
            if res.outcome != 'ok':
                if fault:
                    continue
                ctx.violation('failed', '%s: %s\n%s' % (
                    what, res.detail, (res.tbs[0] or '')[-900:]))
                return
            got, extra = res.results[0]
            if op['op'] == 'forward':
                field = np.cos(np.arange(m.K.shape[1]))
                order = order_of(held['src'], ids)
                rows = [r for i in order for r in m.rows if r[2] == i]
                want = np.array([kernel(sc, r[2], tw[0] + tw[1] / 2) @ field
                                 for r in rows])
            else:
                want = {'lsq': m.lsq, 'tsvd': m.tsvd, 'res': m.resolution,
                        'cov': m.cov}[op['op']]()
            if op['op'] == 'tsvd':
                s = np.linalg.svd(m.K, compute_uv=False)
                if s.size and (np.abs(s / (s.max() or 1) - .2) < 1e-6).any():
                    continue
            if not close(got, want):
                ctx.violation('grid', '%s: differs by %.3g (maximum %.3g)' % (
                    what, np.nanmax(np.abs(np.asarray(got) - want))
                    if np.shape(got) == np.shape(want) else -1,
                    np.nanmax(np.abs(want))))
                return
            if extra is not None and not close(extra, m.resolution()):
                ctx.violation('resolution', '%s: resolution differs' % what)
                return
            if op['op'] in ('lsq', 'tsvd'):
                vel[gi] = np.array(got)
            compared += 1
            ctx.probe('%s compared' % op['op'])
            continue
        # alignment
        al = adisk if disk_ else amem
        cand = [i for i in use if not al[i] and starts(
            data[i][0], data[i][1], at, op['thres'])]
        if gi in vel:
            # no model without value
            have = [r[2] for r in extract(sc, data, cand, at)]
            cand = [i for i in cand if i in have]
        new = {}
        for i in cand:
            target = float(kernel(sc, i, t0 + ln / 2) @ vel[gi].ravel()) \
                if gi in vel else 0.
            t, c, v = data[i]
            new[i] = (t, c, aligned(t, c, v, at, op['steps'], target))
        if res.outcome == 'ok':
            got = sorted(ids[x] for x in res.results[0][0])
            if got != sorted(cand) and not (fault and disk_):
                ctx.violation('aligned', '%s: %s were aligned, expected %s' % (
                    what, [ident(sc, i) for i in got],
                    [ident(sc, i) for i in sorted(cand)]))
                return
            cand = [i for i in cand if i in got]
        elif not fault:
            if disk_ and not use and isinstance(e, FileNotFoundError):
                continue
            ctx.violation('failed', '%s: %s\n%s' % (
                what, res.detail, (res.tbs[0] or '')[-900:]))
            return
        # every file is as before or aligned as a whole
        with sim.bypass(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for i in range(n):
                if i in bad:
                    if i in cand and op['save'] and res.outcome == 'ok':
                        bad.discard(i)
                        vdisk[i], adisk[i] = new[i], True
                    elif i in cand and op['save'] and not damaged(path[i]):
                        bad.discard(i)
                        vdisk[i], adisk[i] = new[i], True
                    if i in bad:
                        continue
                try:
                    x = read_dv(path[i])
                except Exception as ex:
                    ctx.violation('damaged', '%s: %s cannot be read: %r' % (
                        what, os.path.basename(path[i]), ex))
                    return
                flag = x.dv_processing.get('aligned', False) is not False
                opts = [(vdisk[i], adisk[i])]
                if i in cand and op['save']:
                    if res.outcome == 'ok':
                        opts = []
                    opts.append((new[i], True))
                ok = [o for o in opts if close(x.value, o[0][2], 1e-9)
                      and flag == o[1]
                      and close(x.corr, o[0][1], 1e-12)]
                if not ok:
                    ctx.violation(
                        'file', '%s: %s holds %s (aligned %s), expected %s' % (
                            what, os.path.basename(path[i]), x.value[:4],
                            flag, ' or '.join('%s (aligned %s)' % (
                                o[0][2][:4], o[1]) for o in opts)))
                    return
                vdisk[i], adisk[i] = ok[-1]
        if res.outcome == 'ok' and not disk_:
            for i in cand:
                vmem[i], amem[i] = new[i], True
            for i in range(n):
                if not close(mem[i].value, vmem[i][2], 1e-9):
                    ctx.violation('memory', '%s: values of %s are %s, '
                                  'expected %s' % (
                                      what, ident(sc, i), mem[i].value[:4],
                                      vmem[i][2][:4]))
                    return
        elif res.outcome != 'ok':
            # start again from what is on disk
            grids.clear()
            with sim.bypass():
                for i in range(n):
                    if i not in bad:
                        mem[i] = read_dv(path[i])
                    else:
                        mem[i], vdisk[i], adisk[i] = make(
                            sc, i), disk[i], False
                    vmem[i], amem[i] = vdisk[i], adisk[i]
            ctx.probe('alignment interrupted')
        if new:
            compared += 1
            ctx.probe('aligned', len(cand))
    ctx.nontrivial = compared > 1
    ctx.key(opskey, n, len(bad), sorted(map(str, sim.fired)))


def order_of(src, ids):
    return [ids[x.stats.id] for x in src]


def damaged(p):
    try:
        with np.load(p) as z:
            return not z.files
    except Exception:
        return True
