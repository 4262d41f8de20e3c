"""P15: component averages combine exactly the right dv files."""
import copy
import os
import random
import warnings

import numpy as np

from sim import world
from . import dvgen

RUNS = {'quick': 280, 'thorough': 16000}
RULE = (
    'scenario = dv folder (name with dots, "av", glob characters) with the '
    'dvs of 1-6 station pairs (codes that are prefixes of one another, codes '
    'that contain "av", same station code in two networks) with 1-5 channel '
    'combinations each, gaps, other files, corrupt files, deviating stretch '
    'axes or methods; 1-4 calls of compute_components_average (all methods, '
    'repeated) with 1-3 processes; faults during one of them (read/write '
    'errors, full disk, torn writes, failed allocation, kill) followed by '
    'calls without faults; listing orders. Oracle: numpy model of the '
    'average, grouping by codes; the same scenario in another listing order. '
    'Non-trivial: at least one average compared. State = (calls, groups, '
    'files per group, bad files, folder, faults).')
REAL = ['seismic.monitor.monitor.Monitor.compute_components_average',
        'seismic.monitor.monitor.average_components', 'seismic.monitor.dv',
        'seismic.utils.miic_utils npz helpers', 'npz on tmpfs']
STUB = ['MPI communicator', 'rank schedule', 'directory order',
        'fault seams around files', 'wall clock']
METHODS = ['AutoComponents', 'CrossComponents', 'betweencomponents',
           'StationWide', 'CrossStations', 'betweenstations']
SUFFIX = {'autocomponents': 'av-auto', 'crosscomponents': 'av-xc',
          'betweencomponents': 'av-xc'}
STAS = [('XN', 'A'), ('XN', 'AB'), ('XN', 'ABC'), ('XN', 'B'), ('YN', 'A'),
        ('X', 'A'), ('XN', 'A1'), ('YN', 'AV'), ('XN', 'nav2'),
        ('Xa', 'vB'), ('YN', 'av1')]
CHANS = ['HHZ-HHZ', 'HHE-HHE', 'HHN-HHN', 'HHE-HHN', 'HHE-HHZ', 'BHZ-BHZ',
         'BHZ-HHZ']


def gen(seed, tier):
    r = random.Random('p15-%s' % seed)
    own = [(a, a) for a in STAS]
    cross = [(a, b) for i, a in enumerate(STAS) for b in STAS[i + 1:]]
    pairs = r.sample(own, r.choice([1, 2, 3, 4])) + r.sample(
        cross, r.choice([0, 1, 2, 3]))
    if r.random() < .4:
        # everything that begins alike
        pairs += [(('XN', 'A'), ('XN', 'A')), (('XN', 'AB'), ('XN', 'AB')),
                  (('XN', 'A'), ('XN', 'AB')), (('XN', 'A'), ('XN', 'ABC'))]
    pairs = sorted(set(pairs))
    r.shuffle(pairs)
    nwin = r.choice([1, 5, 8])
    files = []
    for a, b in pairs[:6]:
        for c in r.sample(CHANS, r.choice([1, 2, 3, 3, 4, 5])):
            files.append({
                'net': '%s-%s' % (a[0], b[0]), 'sta': '%s-%s' % (a[1], b[1]),
                'cha': c, 'seed': r.randrange(10**6), 'bad': None,
                'gaps': sorted(r.sample(range(nwin), r.choice(
                    [0, 0, 1, nwin // 2])))})
    if r.random() < .4:
        for f in r.sample(files, min(len(files), r.choice([1, 1, 2]))):
            f['bad'] = r.choice(['garbage', 'cut', 'cut', 'empty', 'axis',
                                 'method', 'nosim'])
            f['frac'] = r.choice([.02, .3, .7, .97])
    calls = [{'method': r.choice(METHODS), 'size': r.choice([1, 1, 2, 3]),
              'case': r.randrange(3)} for _ in range(r.choice([1, 2, 3, 4]))]
    if r.random() < .5:
        # the same once more
        calls.append(dict(r.choice(calls), size=r.choice([1, 2])))
    faults = []
    if r.random() < .4:
        job = r.randint(1, len(calls))
        for _ in range(r.choice([1, 1, 2])):
            site, act = r.choice([
                ('file.open-w', 'enospc'), ('file.open-w', 'eacces'),
                ('file.write', 'enospc'), ('file.write', 'short'),
                ('file.write', 'torn'), ('file.open-r', 'eio'),
                ('file.open-r', 'emfile'), ('file.open-r', 'memerr'),
                ('*', 'kill'), ('file.write', 'kill'), ('*', 'eio'),
                ('dir.list', 'eio')])
            f = {'site': site, 'nth': r.choice([1, 1, 2, 3, 5, 8, 13]),
                 'act': act, 'job': job}
            if act in ('short', 'torn'):
                f['frac'] = r.choice([0., .3, .7])
            faults.append(f)
        # afterwards, the user runs it again
        calls.append(dict(calls[job - 1], size=1))
    return {'files': files, 'nwin': nwin, 'calls': calls, 'faults': faults,
            'folder': r.choice(['vel_change', 'vel_change', 'av', 'dv.av',
                                'travel.x', 'a[b]c', 'res.av-auto.1']),
            'others': r.random() < .3, 'sched': seed}


def shrink(sc):
    n = len(sc['files'])
    for k in (4, 2, 1):
        for i in range(0, n, max(n // k, 1)):
            s = copy.deepcopy(sc)
            del s['files'][i:i + max(n // k, 1)]
            if s['files'] and len(s['files']) < n:
                yield s
    if n > 1:
        for i in range(n):
            s = copy.deepcopy(sc)
            del s['files'][i]
            yield s
    if not sc['faults'] and len(sc['calls']) > 1:
        for i in range(len(sc['calls'])):
            yield dict(sc, calls=sc['calls'][:i] + sc['calls'][i + 1:])
    for k, v in (('faults', []), ('folder', 'vel_change'),
                 ('others', False)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    for i, f in enumerate(sc['files']):
        for k, v in (('gaps', []), ('bad', None)):
            if f[k] != v:
                s = copy.deepcopy(sc)
                s['files'][i][k] = v
                yield s
    for i, c in enumerate(sc['calls']):
        if c['size'] > 1:
            s = copy.deepcopy(sc)
            s['calls'][i]['size'] = 1
            yield s


def fname(f):
    return 'DV-%s.%s.%s' % (f['net'], f['sta'], f['cha'])


def make_dv(f, nwin):
    from obspy import UTCDateTime
    from seismic.correlate.stats import CorrStats
    from seismic.monitor.dv import DV
    rs = np.random.RandomState(f['seed'])
    m = 11 if f['bad'] == 'axis' else 13
    ax = np.linspace(-.02, .02, m)
    pk = rs.uniform(-.015, .015, nwin)
    sim = np.exp(-((ax[None] - pk[:, None]) / .01)**2) * rs.uniform(
        .3, 1, (nwin, 1)) + rs.uniform(0, .05, (nwin, m))
    sim[f['gaps']] = np.nan
    val = ax[np.argmax(np.nan_to_num(sim), axis=1)]
    cor = sim.max(axis=1)
    val[f['gaps']] = np.nan
    t = [UTCDateTime(world.T0 + 3600. * i) for i in range(nwin)]
    (n0, n1), (s0, s1) = f['net'].split('-'), f['sta'].split('-')
    (la, lo, el), (lb, mo, fl) = world.coords(n0, s0), world.coords(n1, s1)
    st = CorrStats({
        'network': f['net'], 'station': f['sta'], 'channel': f['cha'],
        'location': '00-00', 'sampling_rate': 10., 'npts': 201,
        'start_lag': -10., 'corr_start': t, 'corr_end': [
            x + 3600 for x in t],
        'stla': la, 'stlo': lo, 'stel': el, 'evla': lb, 'evlo': mo,
        'evel': fl})
    return DV(cor, val, 'stretch', sim, ax,
              'other' if f['bad'] == 'method' else 'single_ref', st,
              dv_processing={'freq_min': .5, 'freq_max': 1., 'tw_start': 5.,
                             'tw_len': 20., 'sides': 'both'})


def write(d, sc):
    os.makedirs(d)
    for f in sc['files']:
        p = os.path.join(d, fname(f) + '.npz')
        if f['bad'] == 'garbage':
            with open(p, 'wb') as fh:
                fh.write(b'this is no npz file' * 30)
            continue
        if f['bad'] == 'empty':
            open(p, 'wb').close()
            continue
        dv = make_dv(f, sc['nwin'])
        if f['bad'] == 'nosim':
            dv.sim_mat = np.array([])
        dv.save(p[:-4])
        if f['bad'] == 'cut':
            with open(p, 'r+b') as fh:
                fh.truncate(int(os.path.getsize(p) * f['frac']))
    if sc['others']:
        f = sc['files'][0]
        np.savez(os.path.join(d, 'notes.npz'), a=np.arange(3))
        np.savez(os.path.join(d, 'DV-notes.npz'), a=np.arange(3))
        np.savez(os.path.join(d, 'WFC-%s.%s.av.f1-2.tw5-5.npz' % (
            f['net'], f['sta'])), a=np.arange(3))
        with open(os.path.join(d, 'readme.txt'), 'w') as fh:
            fh.write('dv files')
        os.makedirs(os.path.join(d, 'old.npz'))
        with open(os.path.join(d, fname(f) + '.npz.bak'), 'wb') as fh:
            fh.write(b'x')


def selected(method, f):
    same = len(set(f['net'].split('-'))) == 1 == len(
        set(f['sta'].split('-')))
    c = f['cha'].split('-')
    m = method.lower()
    if m in ('crossstations', 'betweenstations'):
        return not same
    return same and (m == 'stationwide' or (
        c[0] == c[1]) == (m == 'autocomponents'))


def groups(sc, method):
    """{output file: [files]} that can be averaged, whether or not any bad"""
    out = {}
    for f in sc['files']:
        if selected(method, f):
            out.setdefault('DV-%s.%s.%s.npz' % (
                f['net'], f['sta'], SUFFIX.get(method.lower(), 'av')),
                []).append(f)
    return out


def average(dvs):
    """What the average has to hold"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sims = np.array([d.sim_mat for d in dvs])
        sim = np.nanmean(sims, axis=0)
        cor = np.nanmax(sim, axis=1)
    val = dvs[0].second_axis[np.argmax(np.nan_to_num(sim), axis=1)]
    val[np.isnan(cor)] = np.nan
    return {'sim_mat': sim, 'corr': cor, 'value': val,
            'second_axis': dvs[0].second_axis,
            'n_stat': np.sum([~np.isnan(d.corr) for d in dvs], axis=0),
            'stretches': np.array([d.value for d in dvs]),
            'corrs': np.array([d.corr for d in dvs])}


def wrong(d, want):
    for k, w in want.items():
        if k not in d:
            return '%s missing' % k
        g = d[k]
        if g.shape != w.shape:
            return '%s: shape %s instead of %s' % (k, g.shape, w.shape)
        if k in ('stretches', 'corrs'):
            # one row per file, in any order
            g, w = [sorted(map(tuple, np.nan_to_num(x, nan=-9.).round(
                12).tolist())) for x in (g, w)]
        if not np.allclose(g, w, rtol=1e-9, atol=1e-12, equal_nan=True):
            return '%s differs' % k
    return None


def call(sim, size, opts, method):
    from seismic.monitor.monitor import Monitor

    def body(rank):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            m = Monitor(copy.deepcopy(opts))
            m.compute_components_average(method)
        return True
    return sim.run_job(size, body)


def spell(c):
    m = c['method']
    return [m, m.lower(), m.upper()][c['case']]


def run(sc, ctx):
    states = []
    for rnd in range(2):
        proj = os.path.join(ctx.disk, 'proj%d' % rnd)
        d = os.path.join(proj, sc['folder'])
        o = world.options(proj, network='*', station='*', lts=30)
        o['dv'] = {'subdir': sc['folder'], 'start_date': '2020-01-01',
                   'end_date': '2020-01-02', 'win_len': 3600,
                   'date_inc': 3600, 'plot_vel_change': False}
        os.makedirs(os.path.join(proj, 'corr'))
        write(d, sc)
        if rnd == 0:
            sim = ctx.newsim(preempt=.3)
        else:
            # other listing order and schedule, no faults
            sim = ctx.newsim(seed='%s-other' % sc['sched'], faults=(),
                             choices=[], preempt=.3)
        if not one(sc, ctx, sim, d, o, rnd):
            return
        states.append(dvgen.npz_dir(d))
    a, b = states
    if not sc['faults']:
        for n in sorted(set(a) | set(b)):
            if n not in a or n not in b:
                ctx.violation('order', '%s only exists for one of two '
                              'directory orders' % n)
                return
            if isinstance(a[n], str) and isinstance(b[n], str):
                continue
            x = dvgen.same(a[n], b[n])
            if x:
                ctx.violation('order', '%s depends on the directory order: %s'
                              % (n, x))
                return


def one(sc, ctx, sim, d, opts, rnd):
    orig = world.tree_digest(d)
    made = {}        # {average: its content}
    ncmp = 0
    for i, c in enumerate(sc['calls']):
        before = dict(sim.fired)
        res = call(sim, c['size'], opts, spell(c))
        fired = {k: v - before.get(k, 0) for k, v in sim.fired.items()
                 if v > before.get(k, 0)}
        ctx.take(sim, {'collective-mismatch', 'buffer-mismatch'})
        where = 'call %d (%s, %d processes, folder %s, faults %s)' % (
            i + 1, c['method'], c['size'], sc['folder'], fired)
        if res.outcome == 'killed':
            ctx.probe('killed')
        elif res.outcome != 'ok':
            if not any(x in str(k) for k in fired
                       for x in ('dir.', 'file.', 'clock.', 'mpi.')) or (
                           res.outcome == 'deadlock' or any(
                               'average' in (t or '') and 'dir.' not in
                               str(fired) and 'mpi.' not in str(fired)
                               for t in res.tbs)):
                ctx.violation('aborted', '%s: %s %s\n%s' % (
                    where, res.outcome, res.detail, ''.join(
                        t or '' for t in res.tbs)[-900:]))
                return False
        got = dvgen.npz_dir(d)
        for n, h in orig.items():
            if world.tree_digest(d).get(n) != h:
                ctx.violation('input-changed', '%s: %s was changed' % (
                    where, n))
                return False
        grp = groups(sc, c['method'])
        known = set(made) | set(grp)
        extra = sorted(set(got) - {os.path.basename(n) for n in orig}
                       - known - {'old.npz'})
        if extra:
            ctx.violation('unexpected', '%s: wrote %s' % (where, extra))
            return False
        for n, content in sorted(made.items()):
            if n in grp and isinstance(content, str):
                continue
            if n not in got:
                ctx.violation('lost', '%s: %s disappeared' % (where, n))
                return False
            x = None if isinstance(content, str) and isinstance(
                got[n], str) else dvgen.same(got[n], content)
            if x and not (fired and n in grp):
                ctx.violation('changed', '%s: %s changed: %s' % (
                    where, n, x))
                return False
        lost = 0
        for n, fs in sorted(grp.items()):
            use = [f for f in fs if f['bad'] not in (
                'garbage', 'cut', 'empty')]
            if any(f['bad'] in ('method', 'axis', 'nosim') for f in use):
                # left to the other directory order
                if n in got:
                    made[n] = got[n]
                continue
            if len(use) < 2:
                if n in got:
                    ctx.violation('single', '%s: %s is the average of %d '
                                  'dvs' % (where, n, len(use)))
                    return False
                continue
            g = got.get(n, 'missing')
            dvs = [make_dv(f, sc['nwin']) for f in use]
            if isinstance(g, str):
                lost += 1
                if not fired:
                    ctx.violation('missing', '%s: %s is %s; it averages %s' % (
                        where, n, g, [fname(f) for f in use]))
                    return False
                if n in got:
                    made[n] = g
                continue
            x = wrong(g, average(dvs))
            if x and not (n in made and not isinstance(made[n], str)):
                ctx.violation('average', '%s: %s is not the average of %s: %s'
                              % (where, n, [fname(f) for f in use], x))
                return False
            if [str(g[k][0]) for k in ('network', 'station', 'channel')] != [
                    fs[0]['net'], fs[0]['sta'], 'av']:
                ctx.violation('header', '%s: header of %s: %s' % (
                    where, n, [g[k] for k in (
                        'network', 'station', 'channel')]))
                return False
            if not np.allclose(g['corr_start'], world.T0 + 3600. * np.arange(
                    sc['nwin'])):
                ctx.violation('header', '%s: times of %s: %s' % (
                    where, n, g['corr_start']))
                return False
            made[n] = g
            ncmp += 1
        if res.outcome == 'ok' and lost > sum(fired.values()) and \
                'dir.' not in str(fired):
            ctx.violation('incomplete', '%s: %d results lost' % (where, lost))
            return False
    ctx.probe('averages compared', ncmp)
    if rnd == 0:
        ctx.nontrivial = ncmp > 0
        ctx.key([c['method'] for c in sc['calls']],
                [c['size'] for c in sc['calls']], len(sc['files']),
                sorted(str(f['bad']) for f in sc['files'] if f['bad']),
                sc['folder'], sorted(map(str, sim.fired)))
    return True
