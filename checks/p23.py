"""P23: the whole workflow can be interrupted and repeated anywhere."""
import copy
import os
import random
import warnings

import numpy as np

from sim import world
from . import corrgen, dvgen

RUNS = {'quick': 90, 'thorough': 2500}
RULE = (
    'scenario = an archive of 1-4 stations with 1-3 components, whose data '
    'are noise sources coupled by decaying Green\'s functions that are '
    'stretched homogeneously from a seeded date on, gaps, one parameter set '
    'given as dict (anew or the same for all stages) or as yaml file; a history of stages (correlation, '
    'velocity change, waveform coherence, component averages), each with its '
    'own number of processes, schedule and faults (kill, Ctrl-C, I/O error, '
    'full disk, torn writes, failed allocation) and repeated until it ran '
    'without one, optionally first for a part of the time or of the stations, '
    'optionally with stages repeated afterwards. Oracle: the same stages '
    'run once by one process without faults; the pairs and windows that the '
    'archive has data for; the imposed velocity change. Non-trivial: all '
    'stages compared. State = (stages, outcomes, processes, method).')
REAL = ['seismic.correlate.* (Correlator, CorrStream, CorrBulk)',
        'seismic.db.corr_hdf5', 'seismic.trace_data.waveform.Store_Client',
        'seismic.monitor.* (Monitor, dv, wfc, stretch_mod, '
        'post_corr_process)', 'yaml parameter file', 'h5py/HDF5, npz, MSEED '
        'files on tmpfs']
STUB = ['MPI communicator', 'rank schedule', 'wall clock', 'directory order',
        'fault seams around files and h5py',
        'process death (snapshot of the disk at the instant of the kill)']

RATE = 4.
WIN = 150.       # correlation window
READ = 600.      # read interval: four of them
START = 3600.
METHODS = ['betweenStations', 'betweenStations', 'betweenComponents',
           'allSimpleCombinations', 'autoComponents']
AVERAGES = ['CrossStations', 'betweenstations', 'StationWide',
            'CrossComponents', 'AutoComponents']
FAULTS = [('*', 'kill'), ('*', 'kill'), ('*', 'interrupt'), ('*', 'eio'),
          ('*', 'enospc'), ('*', 'memerr'), ('h5.create', 'enospc'),
          ('h5.open', 'eio'), ('h5.read', 'eio'), ('h5.attr', 'kill'),
          ('file.open-r', 'eio'), ('file.open-r', 'emfile'),
          ('file.read', 'eio'),
          ('file.open-w', 'enospc'), ('file.write', 'torn'),
          ('file.write', 'short'), ('file.rename', 'eio'),
          ('file.rename', 'kill'), ('dir.list', 'eio'),
          ('dir.make', 'enospc')]


def fault(r):
    site, act = r.choice(FAULTS)
    f = {'site': site, 'act': act, 'nth': r.choice(
        [r.randrange(1, 12), r.randrange(1, 120), r.randrange(1, 900)])
        if site == '*' else r.choice([1, 1, 2, 3, 4, 6, 9, 15, 30])}
    if act in ('torn', 'short'):
        f['frac'] = r.choice([0., .3, .7])
    return f


def stage(r, kind, faulty=True, **kw):
    s = dict({'kind': kind, 'ranks': r.choice([1, 2, 2, 3, 4]),
              'faults': []}, **kw)
    if faulty and r.random() < .55:
        s['faults'] = [fault(r) for _ in range(r.choice([1, 1, 1, 2]))]
    return s


def gen(seed, tier):
    r = random.Random('p23-%s' % seed)
    method = r.choice(METHODS)
    if method == 'betweenStations':
        nsta, comps = r.choice([(2, 'Z'), (3, 'Z'), (2, 'ZN'), (4, 'Z')])
    elif method == 'allSimpleCombinations':
        nsta, comps = r.choice([(2, 'Z'), (2, 'ZN'), (1, 'ZNE')])
    else:
        nsta, comps = r.choice([(1, 'ZNE'), (2, 'ZN'), (1, 'ZN')])
    nread = r.choice([2, 3])
    chans = corrgen.network(r, nsta, comps)
    span = [START - 30, START + nread * READ + 30]
    gaps = r.random() < .4
    for ch in chans:
        ch['rate'] = RATE
        ch['segs'] = [list(span)]
        if gaps and r.random() < .5:
            k = r.randrange(int(nread * READ / WIN))
            a = START + k * WIN
            ch['segs'] = r.choice([
                [[span[0], a - 1], [a + WIN + 1, span[1]]],
                [[a + 1, span[1]]] if k < 3 else [list(span)],
                [[span[0], a + 100]] if k > 4 else [list(span)],
                [[span[0], a + 40], [a + 45, span[1]]]])
            ch['segs'] = [x for x in ch['segs'] if x[1] - x[0] > 1]
    inc = r.choice([1, 1, 2])
    step = .002
    opt = {
        'nread': nread, 'start': START, 'read_len': READ, 'read_inc': READ,
        'rate': RATE, 'inc': WIN, 'len': WIN, 'method': method,
        'component': r.choice(['?', '*']) if len(comps) > 1 else 'Z',
        'stack': r.random() < .5, 'delsub': False, 'sep': r.random() < .5,
        'lts': 25, 'center': True, 'norm': r.random() < .6,
        'psub': False,
        'td': [s for s in corrgen.TDSTEPS[:1] if r.random() < .4],
        'fd': [s for s in [{
            'function': corrgen.FD + 'FDfilter',
            'args': {'flimit': [.1, .2, 1.6, 1.9]}}] if r.random() < .4],
        'pre': []}
    dv = {'start': START, 'end': START + nread * READ, 'date_inc': inc * WIN,
          'win_len': inc * WIN * r.choice([1, 1, 2]), 'tw_start': 2,
          'tw_len': r.choice([8, 10]), 'sides': r.choice(['both', 'both',
                                                          'left', 'right']),
          'tt': False, 'range': 15 * step, 'steps': 31,
          'sim': True, 'ref': {'win_inc': 0, 'method': r.choice(
              ['mean', 'mean', 'median', 'norm_mean']), 'percentile': 50},
          'pre': [], 'post': []}
    stages = []
    if r.random() < .35:
        # a first pass over a part of the data
        sub = {'nread': r.randrange(1, nread)}
        if nsta > 2 and r.random() < .5:
            sub = {'nsta': 2}
        stages.append(stage(r, 'co', **sub))
        stages += [stage(r, k) for k in r.sample(
            ['dv', 'wfc'], r.choice([0, 1, 2]))]
    stages.append(stage(r, 'co'))
    rest = ['dv', 'av', 'wfc']
    if r.random() < .3:
        rest = ['wfc', 'dv', 'av']
    stages += [stage(r, k) for k in rest]
    if r.random() < .3:
        stages += [stage(r, k) for k in r.sample(
            ['co', 'dv', 'av', 'wfc'], r.choice([1, 2]))]
    return {'chans': chans, 'opt': opt, 'dv': dv, 'data': seed,
            'sched': seed, 'preempt': r.choice([0., .2, .5]),
            'stages': stages, 'given': r.choice(
                ['yaml', 'yaml', 'dict', 'kept']),
            'level': r.choice(['CRITICAL', 'critical', 'Critical']),
            'average': r.choice(AVERAGES[:3] if 'etweenS' in method
                                else AVERAGES),
            'save_comps': r.random() < .4,
            'change': {'eps': r.choice([-6, -5, -4, 4, 5, 6]),
                       'read': r.randrange(1, nread)},
            'step': step}


def shrink(sc):
    for i in range(len(sc['stages'])):
        s = copy.deepcopy(sc)
        if s['stages'][i]['faults']:
            s['stages'][i]['faults'] = []
            yield s
        if sc['stages'][i]['ranks'] > 1:
            s = copy.deepcopy(sc)
            s['stages'][i]['ranks'] = 1
            yield s
    kinds = [x['kind'] for x in sc['stages']]
    for i in range(len(kinds)):
        if kinds.count(kinds[i]) > 1 and i != len(kinds) - 1 - kinds[
                ::-1].index(kinds[i]):
            s = copy.deepcopy(sc)
            del s['stages'][i]
            yield s
    if sc['given'] != 'dict':
        yield dict(sc, given='dict')
    if sc['level'] != 'CRITICAL':
        yield dict(sc, level='CRITICAL')
    span = [START - 30, START + sc['opt']['nread'] * READ + 30]
    for i, ch in enumerate(sc['chans']):
        if ch['segs'] != [span]:
            s = copy.deepcopy(sc)
            s['chans'][i]['segs'] = [span]
            yield s
    for k, v in (('stack', False), ('sep', False),
                 ('td', []), ('fd', [])):
        if sc['opt'][k] != v:
            yield dict(sc, opt=dict(sc['opt'], **{k: v}))


# ------------------------------------------------------------------ archive

def waves(sc):
    """{(net, sta, cha): samples} on one time axis, change included"""
    n = int((sc['opt']['nread'] * READ + 60) * RATE)
    m = int(WIN * RATE)
    # one window of noise with a flat spectrum, again and again
    ph = world.rs('src', sc['data']).uniform(0, 2 * np.pi, m // 2 + 1)
    f = np.fft.rfftfreq(m, 1 / RATE)
    amp = ((f > .08) & (f < 1.9)).astype(float)
    x = np.fft.irfft(amp * np.exp(1j * ph), m)
    src = np.tile(x / x.std(), n // m + 2)[:n]
    change = int((30 + sc['change']['read'] * READ) * RATE)
    t = np.arange(int(16 * RATE)) / RATE
    out = {}
    for c in sc['chans']:
        a = (c['net'], c['sta'], c['cha'])
        y = np.empty(n)
        for v, part in ((0., slice(0, change)),
                        (sc['change']['eps'] * sc['step'],
                         slice(change, n))):
            y[part] = np.convolve(src, green(
                sc['data'], a, t * np.exp(-v)))[:n][part]
        out[a] = y
    return out


def green(seed, i, t):
    """The way from the source to a channel"""
    r = world.rs('green', seed, i)
    k = 30
    fr = r.uniform(.25, 1.1, size=k)
    am = r.normal(size=k)
    ph = r.uniform(0, 2 * np.pi, size=k)
    g = np.sum(am[:, None] * np.cos(
        2 * np.pi * fr[:, None] * t[None] + ph[:, None]), axis=0)
    return g * np.exp(-t / 8.) / np.sqrt(k)


def archive(ctx, sc):
    from obspy import Stream, Trace, UTCDateTime
    root = os.path.join(ctx.disk, 'arch')
    w = waves(sc)
    for ch in sc['chans']:
        x = w[(ch['net'], ch['sta'], ch['cha'])]
        st = Stream()
        for a, b in ch['segs']:
            k0 = max(int(round((a - START + 30) * RATE)), 0)
            k1 = min(int(round((b - START + 30) * RATE)), len(x))
            st.append(Trace((1000 * x[k0:k1]).astype(np.float32), header={
                'network': ch['net'], 'station': ch['sta'],
                'location': ch['loc'], 'channel': ch['cha'],
                'sampling_rate': RATE, 'starttime': UTCDateTime(
                    world.T0 + START - 30 + k0 / RATE)}))
        p = world.sds_path(os.path.join(root, 'mseed'), st[0])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        st.write(p, format='MSEED')
    world.write_inventories(root, sc['chans'])
    return root


# ------------------------------------------------------------------ options

def options(sc, proj, st=None):
    from obspy import UTCDateTime
    kw = dict(sc['opt'])
    st = st or {}
    if st.get('nread'):
        kw['nread'] = st['nread']
    if st.get('nsta'):
        stas = sorted({(c['net'], c['sta']) for c in sc['chans']})
        kw['network'] = [s[0] for s in stas[:st['nsta']]]
        kw['station'] = [s[1] for s in stas[:st['nsta']]]
    o = world.options(proj, **kw)
    o['dv'] = dvgen.dv_opts(sc)
    o['log_level'] = sc['level']
    d = sc['dv']
    o['wfc'] = {
        'subdir': 'wfc', 'start_date': str(UTCDateTime(
            world.T0 + d['start'])),
        'end_date': str(UTCDateTime(world.T0 + d['end'])),
        'win_len': d['win_len'], 'date_inc': d['date_inc'],
        'freq_min': [.3, .6], 'freq_max': [.8, 1.2],
        'tw_start': [2, 6], 'tw_len': 10, 'dt_ref': {
            'win_inc': 0, 'method': 'mean', 'percentile': 50},
        'preprocessing': [], 'save_comps': sc['save_comps']}
    return o


def given(sc, proj, st=None):
    """The parameters as the user hands them over: dict or yaml file"""
    o = options(sc, proj, st)
    if sc['given'] != 'yaml':
        return o
    import yaml
    p = os.path.join(os.path.dirname(proj), 'params-%s.yaml'
                     % os.path.basename(proj))
    with open(p, 'w') as f:
        yaml.safe_dump(o, f)
    return p


def job(sc, sim, size, arch, opts, kind, kept=None):
    """kept: the dictionaries that the processes used for the stage before"""
    from seismic.correlate.correlate import Correlator
    from seismic.monitor.monitor import Monitor
    from seismic.trace_data.waveform import Store_Client

    def body(rank):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            o = copy.deepcopy(opts)
            if kept is not None:
                o = kept.setdefault(rank, o)
            if kind == 'co':
                sto = Store_Client(None, arch, read_only=True)
                Correlator(sto, o).pxcorr()
                return True
            m = Monitor(o)
            if kind == 'dv':
                m.compute_velocity_change_bulk()
            elif kind == 'wfc':
                m.compute_waveform_coherence_bulk()
            else:
                m.compute_components_average(sc['average'])
        return True
    return sim.run_job(size, body)


def state(proj):
    """What the user ends up with"""
    return {'co': subs(world.db_dump(os.path.join(proj, 'corr'))),
            'dv': dvgen.npz_dir(os.path.join(proj, 'vel_change')),
            'wfc': dvgen.npz_dir(os.path.join(proj, 'wfc'))}


def subs(d):
    return {k: v for k, v in d.items() if k[1].startswith('/subdivision')}


GEO = ('az', 'baz', 'dist', 'stla', 'stlo', 'stel', 'evla', 'evlo', 'evel')


def nogeo(s):
    """Coordinates depend on whether the metadata could be read"""
    out = {'co': {k: (d, {x: y for x, y in h.items() if x not in GEO})
                  for k, (d, h) in s['co'].items()}}
    for part in ('dv', 'wfc'):
        out[part] = {n: z if isinstance(z, str) else {
            x: y for x, y in z.items() if x not in GEO}
            for n, z in s[part].items()}
    return out


# ------------------------------------------------------------------- oracle

def full(ch, a, b):
    return any(s <= a and e >= b for s, e in ch['segs'])


def touched(ch, a, b):
    return any(s < b and e > a for s, e in ch['segs'])


def pairs(sc):
    from .p07 import pairs as p
    return p(sc)


def windows(sc, a, b, test):
    """Starts of the windows in which both channels pass the test"""
    by = {(c['net'], c['sta'], c['cha']): c for c in sc['chans']}
    n = int(round(sc['opt']['nread'] * READ / WIN))
    return [START + k * WIN for k in range(n) if all(
        test(by[x], START + k * WIN, START + (k + 1) * WIN) for x in (a, b))]


def check_reference(sc, ctx, s):
    """The straight run against the archive"""
    names, maybe = {}, set()
    for a, b in pairs(sc):
        n = '%s-%s.%s-%s.%s-%s' % (a[0], b[0], a[1], b[1], a[2], b[2])
        w = windows(sc, a, b, full)
        p = windows(sc, a, b, touched)
        if w:
            names[n] = (a, b, w, p)
        elif p:
            maybe.add(n)
    av = {k[3:-4] for k in s['dv'] if k[3:-4].endswith(('.av', '.av-auto',
                                                        '.av-xc'))}
    got = {k[3:-4] for k in s['dv']} - av
    if not set(names) <= got <= set(names) | maybe:
        ctx.violation('reference', 'velocity changes exist for %s, the '
                      'archive has data for %s' % (sorted(got), sorted(names)))
        return
    d = sc['dv']
    starts = np.arange(d['start'], d['end'], d['date_inc'])
    for n, (a, b, w, p) in sorted(names.items()):
        z = s['dv']['DV-%s.npz' % n]
        if isinstance(z, str) or not np.allclose(
                z['corr_start'] - world.T0, starts):
            ctx.violation('reference', '%s: %s' % (n, z if isinstance(
                z, str) else z['corr_start'] - world.T0))
            return
        have = ~np.isnan(z['corr'])
        for k, t in enumerate(starts):
            sure = any(t <= x < t + d['win_len'] for x in w)
            may = any(t <= x < t + d['win_len'] for x in p)
            if (sure and not have[k]) or (have[k] and not may):
                ctx.violation(
                    'reference', '%s: window at %s %s a value, but the '
                    'archive %s' % (n, t, 'has' if have[k] else 'lacks',
                                    'holds its data' if sure
                                    else 'has none'))
                return
        if a == b:
            continue
        # the velocity change
        change = START + sc['change']['read'] * READ
        first = [k for k, t in enumerate(starts) if have[k]
                 and t + d['win_len'] <= change]
        last = [k for k, t in enumerate(starts) if have[k] and t >= change]
        if len(first) < 1 or len(last) < 1 or len(w) < sc['opt'][
                'nread'] * READ / WIN:
            # holes change the reference as well
            continue
        diff = np.median(z['value'][last]) - np.median(z['value'][first])
        want = sc['change']['eps'] * sc['step']
        ctx.probe('velocity changes recovered')
        if abs(diff - want) > TOL * sc['step']:
            ctx.violation(
                'change', '%s: the medium changes by %.4f at %s, the result '
                'by %.4f: %s %s' % (n, want, change, diff, np.round(
                    z['value'], 4), np.round(z['corr'], 2)))
            return
    groups = {}
    for n in got:
        codes = n.split('.')
        if selected(sc['average'].lower(), codes):
            groups.setdefault(tuple(codes[:2]), []).append(n)
    want = {'.'.join(k) for k, v in groups.items() if len(v) > 1}
    if {'.'.join(n.split('.')[:2]) for n in av} != want:
        ctx.violation('reference', 'averages %s of %s; method %s' % (
            sorted(av), sorted(got), sc['average']))


TOL = 2.01


def selected(method, codes):
    net, sta, cha = codes
    same = len(set(net.split('-'))) == 1 and len(set(sta.split('-'))) == 1
    c = cha.split('-')
    if method in ('crossstations', 'betweenstations'):
        return not same
    if method == 'stationwide':
        return same
    if method == 'autocomponents':
        return same and c[0] == c[1]
    return same and c[0] != c[1]


def differ(sc, a, b, parts=('co', 'dv', 'wfc')):
    """Text, or None. a: reference"""
    if 'co' in parts:
        x = world.diff_dump(a['co'], b['co'], names=('reference', 'history'))
        if x:
            return 'correlations: ' + x
    for part in ('dv', 'wfc'):
        if part not in parts:
            continue
        if set(a[part]) != set(b[part]):
            return '%s files: missing %s, extra %s' % (
                part, sorted(set(a[part]) - set(b[part])),
                sorted(set(b[part]) - set(a[part])))
        for n in sorted(a[part]):
            x = near(a[part][n], b[part][n])
            if x:
                return '%s: %s' % (n, x)
    return None


def near(a, b):
    """Equal up to the rounding of the correlations"""
    if isinstance(a, str) or isinstance(b, str):
        return dvgen.same(a, b)
    if set(a) != set(b):
        return 'entries %s' % sorted(set(a) ^ set(b))
    ok = None
    for k in sorted(a):
        if k in ('processing', 'processing_bulk', 'value'):
            continue
        x, y = a[k], b[k]
        if x.shape != y.shape:
            return '%s: shape %s / %s' % (k, x.shape, y.shape)
        if x.dtype.kind in 'fc':
            if not np.allclose(x, y, rtol=1e-6, atol=2e-3, equal_nan=True):
                return '%s: values differ' % k
        elif not np.array_equal(x, y):
            return '%s: %s / %s' % (k, x, y)
    if 'value' in a:
        x, y = a['value'], b['value']
        if x.shape != y.shape:
            return 'value: shape'
        ok = np.isclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True)
        if not ok.all():
            # ties of the similarity
            sm, ax = a['sim_mat'], a['second_axis']
            for i in np.flatnonzero(~ok):
                j = [int(np.argmin(np.abs(ax - v))) for v in (x[i], y[i])]
                if not abs(sm[i, j[0]] - sm[i, j[1]]) < 4e-3:
                    return 'value %s / %s' % (x[i], y[i])
    return None


# ---------------------------------------------------------------------- run

def run(sc, ctx):
    arch = archive(ctx, sc)
    raw = world.tree_digest(arch)
    ref = os.path.join(ctx.disk, 'ref')
    os.makedirs(ref)
    rsim = ctx.newsim(seed='ref', faults=(), choices=[])
    for kind in ('co', 'dv', 'av', 'wfc'):
        res = job(sc, rsim, 1, arch, options(sc, ref), kind)
        if res.outcome != 'ok':
            ctx.violation('reference', 'stage %s: %s %s\n%s' % (
                kind, res.outcome, res.detail, (res.tbs[0] or '')[-900:]))
            return
    a = state(ref)
    check_reference(sc, ctx, a)
    if ctx.violations:
        return
    proj = os.path.join(ctx.disk, 'p')
    os.makedirs(proj)
    sim = ctx.newsim(faults=())
    done, nometa, last, kept = [], False, None, {}
    for i, st in enumerate(sc['stages']):
        for attempt in range(6):
            opts = given(sc, proj, st)
            nf = dict(sim.fired)
            keep = snapshot(proj, st['kind'])
            sim.faults = [dict(f, job=sim.job_no + 1)
                          for f in st['faults']] if attempt == 0 else []
            if sc['given'] != 'kept' or opts != last:
                kept, last = {}, opts
            res = job(sc, sim, st['ranks'] if attempt == 0 else
                      1 + (st['ranks'] + attempt) % 3, arch, opts, st['kind'],
                      kept if sc['given'] == 'kept' else None)
            if res.outcome != 'ok':
                last = None
            fired = {k: v - nf.get(k, 0) for k, v in sim.fired.items()
                     if v > nf.get(k, 0)}
            ctx.take(sim)
            what = 'stage %d (%s, attempt %d, %d processes, faults %s)' % (
                i + 1, st['kind'], attempt + 1, st['ranks'], fired)
            if res.outcome == 'deadlock' or (
                    res.outcome != 'ok' and not fired):
                ctx.violation('stuck', '%s: %s %s\n%s' % (
                    what, res.outcome, res.detail,
                    ''.join(t or '' for t in res.tbs)[-900:]))
            x = changed(keep, snapshot(proj, st['kind']))
            if x and not ctx.violations:
                ctx.violation('other-stage', '%s changed %s' % (what, x))
            if world.tree_digest(arch) != raw:
                ctx.violation('archive', '%s changed the archive' % what)
            if ctx.violations:
                return
            done.append((st['kind'], res.outcome))
            nometa = nometa or st['kind'] == 'co' and bool(fired)
            if not fired:
                break
    b = state(proj)
    if nometa:
        a, b = nogeo(a), nogeo(b)
    x = differ(sc, a, b)
    if x:
        ctx.violation('differs', 'after %s (faults %s): %s' % (
            ['%s%s' % (s['kind'], s['ranks']) for s in sc['stages']],
            dict(sim.fired), x))
        return
    left = [f for f in leftovers(proj)]
    if left:
        ctx.probe('leftovers', len(left))
    ctx.nontrivial = len(a['dv']) > 0
    ctx.probe('dv compared', len(a['dv']))
    ctx.probe('wfc compared', len(a['wfc']))
    ctx.key(done, sc['opt']['method'], sc['given'],
            [s['ranks'] for s in sc['stages']], sorted(map(str, sim.fired)))


OWN = {'co': ('corr',), 'dv': ('vel_change',), 'av': ('vel_change',),
       'wfc': ('wfc',)}


def snapshot(proj, kind):
    """Digests of what a stage has no business with"""
    out = {}
    for d in ('corr', 'vel_change', 'wfc'):
        if d in OWN[kind]:
            continue
        p = os.path.join(proj, d)
        if os.path.isdir(p):
            out.update({d + '/' + k: v for k, v in
                        world.tree_digest(p).items()})
    if kind == 'av':
        out.update({'vel_change/' + k: v for k, v in world.tree_digest(
            os.path.join(proj, 'vel_change')).items()
            if '.av' not in k.lower()})
    return out


def changed(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k)) or None


def leftovers(proj):
    for d in ('corr', 'vel_change', 'wfc'):
        p = os.path.join(proj, d)
        if os.path.isdir(p):
            for f in os.listdir(p):
                if not f.endswith(('.h5', '.npz')):
                    yield d + '/' + f
