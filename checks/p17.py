"""P17: spectrograms do not depend on the number of MPI processes."""
import copy
import os
import random
import warnings

import numpy as np
from obspy import Stream, UTCDateTime, read

from sim import world

RUNS = {'quick': 500, 'thorough': 15000}
RULE = (
    'scenario = one channel (gaps inside and between read increments, late '
    'start, early end, other channels and stations, nothing at all, masked pieces, '
    'missing response) and a spectrogram request (window, increment, '
    'frequency limit, with or without removing the response) on 1-7 '
    'processes, read errors. Oracle = spectra computed window by window from '
    'the stored samples with scipy, and the same request on one process. '
    'Non-trivial: more than one process and at least two usable windows. '
    'State = (processes, usable windows, which processes have none).')
REAL = ['seismic.trace_data.waveform.Store_Client.compute_spectrogram', 'seism'
        'ic.utils.raw_analysis', 'obspy SDS client, filters, response '
        'removal', 'scipy', 'files on tmpfs']
STUB = ['MPI communicator (buffers and order simulated)', 'process '
        'scheduler', 'fault seams around files', 'directory order']


def gen(seed, tier):
    r = random.Random('p17-%s' % seed)
    rate = r.choice([1., 2., 4., 5.])
    # welch needs 256 samples to give all windows the same frequencies
    win = r.choice([x for x in (100., 120., 300., 1000.) if x * rate > 290])
    inc = win * r.choice([1, 1, 2, 3, 3.5])
    nread = r.choice([1, 2, 3, 4, 5, 7, 9])
    a, b = 0., nread * inc
    dt = 1 / rate
    segs, t = [], a + r.choice([0, 0, -win, 30.1, inc, 1.7 * inc, 2.2 * inc])
    while t < b:
        e = t + r.choice([r.uniform(.3, 3) * win, r.uniform(1, 4) * inc,
                          b - t + 50])
        segs.append([round(t, 2), round(e, 2)])
        t = e + r.choice([3 * dt, 20 * dt, .8 * win, inc, 1.6 * inc])
    if r.random() < .06:
        segs = []
    chans = [{'net': 'XN', 'sta': 'A', 'loc': '00', 'cha': 'HHZ',
              'rate': rate, 'dtype': r.choice(['i4', 'f4']), 'segs': segs,
              
              # all read windows start and end at a sample, otherwise the
              # borders of miniSEED records decide which one is read
              'offset': r.choice([0, 0, .0625])}]
    if r.random() < .3:
        chans.append(dict(copy.deepcopy(chans[0]), cha='HHN',
                          segs=[[a, b]]))
    if r.random() < .3:
        chans.append(dict(copy.deepcopy(chans[0]), sta='AB',
                          segs=[[a, b]]))
    n = r.choice([1, 2, 2, 3, 3, 4, 5, 7])
    sc = {'chans': chans, 'start': a + chans[0]['offset'] + r.choice([0, 0, 0, 17.]),
          'len': nread * inc - r.choice([0, 0, .3 * inc]),
          'win': win, 'inc': inc, 'size': n,
          'fmax': rate / r.choice([2, 2, 2, 1] + [
              x for x in (3, 4) if rate * win * 2 / x > 290]),
          'resp': r.random() < .35, 'meta': r.random() < .8,
          'base': r.choice([3600., 86400 - 1.5 * inc]),
          'faults': [], 'sched': seed, 'data': seed}
    if r.random() < .12:
        sc['faults'].append({
            'site': r.choice(['file.open-r', '*']), 'job': 1,
            'rank': r.randrange(n), 'nth': r.choice([1, 2, 3, 5, 8]),
            'act': r.choice(['eio', 'eacces', 'emfile', 'interrupt',
                             'memerr'])})
    return sc


def shrink(sc):
    if sc['size'] > 1:
        yield dict(sc, size=sc['size'] - 1)
    for i in range(1, len(sc['chans'])):
        s = copy.deepcopy(sc)
        del s['chans'][i]
        yield s
    for i in range(len(sc['chans'][0]['segs'])):
        s = copy.deepcopy(sc)
        del s['chans'][0]['segs'][i]
        yield s
    if sc['len'] > 1.5 * sc['inc']:
        yield dict(sc, len=sc['len'] - sc['inc'])
    for k, v in (('faults', []), ('resp', False), ('base', 3600.),
                 ('start', 0.)):
        if sc[k] != v:
            yield dict(sc, **{k: v})


def reference(mroot, sc, inv):
    """[(starttime, f, S)] straight from the files"""
    from scipy.interpolate import pchip_interpolate
    from scipy.signal import welch
    full = Stream()
    for d, ds, fs in os.walk(mroot):
        ds.sort()
        for f in sorted(fs):
            if f.startswith('XN.A.') and '.HHZ.' in f:
                full += read(os.path.join(d, f))
    full.merge(-1)
    out, spread = [], []
    k = 0
    a = world.T0 + sc['base'] + sc['start']
    while k * sc['inc'] < sc['len'] - 1e-6:
        s = UTCDateTime(a + k * sc['inc'])
        k += 1
        st = full.slice(s, s + sc['inc'], nearest_sample=True).copy()
        n0 = len(out)
        done = Stream()
        try:
            for tr in st.split():
                fs = tr.stats.sampling_rate
                q = fs / (2 * sc['fmax'])
                if q < 1:
                    raise ValueError('upsampling')
                if q > 1:
                    tr.filter('lowpass_cheby_2', freq=.5 * fs / q,
                              maxorder=12)
                    if q == int(q):
                        tr.decimate(int(q), no_filter=True)
                    else:
                        tr.resample(2 * sc['fmax'])
                if sc['resp']:
                    tr.remove_response(inventory=inv)
                tr.detrend('linear')
                tr.filter('highpass', freq=.01)
                done.append(tr)
            done.merge()
        except Exception:
            done = Stream()
        for tr in done[:1]:
            for w in tr.slide(sc['win'], sc['win']):
                if np.ma.is_masked(w.data):
                    continue
                f, p = welch(np.ma.getdata(w.data),
                             fs=w.stats.sampling_rate)
                g = np.logspace(-3, np.log10(f.max()), 512)
                out.append((w.stats.starttime, g,
                            pchip_interpolate(f, p, g)))
        spread.append(len(out) - n0)
    return out, spread


def run(sc, ctx):
    from seismic.trace_data.waveform import Store_Client
    arch = os.path.join(ctx.disk, 'arch')
    sc = copy.deepcopy(sc)
    for c in sc['chans']:
        c['segs'] = [[x + sc['base'], y + sc['base']] for x, y in c['segs']]
    world.write_archive(arch, sc['data'], sc['chans'])
    inv = world.inventory(sc['chans'], response=True)
    if sc['meta']:
        os.makedirs(os.path.join(arch, 'inventory'))
        inv.write(os.path.join(arch, 'inventory', 'XN.A.xml'),
                  format='STATIONXML')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ref, spread = reference(os.path.join(arch, 'mseed'), sc,
                                inv if sc['meta'] else None)
    a = UTCDateTime(world.T0 + sc['base'] + sc['start'])

    def body(rank):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            k = Store_Client(None, arch, read_only=True)
            return k.compute_spectrogram(
                'XN', 'A', 'HHZ', a, a + sc['len'], sc['win'], sc['fmax'],
                sc['inc'], remove_response=sc['resp'])
    sim = ctx.newsim()
    one = None
    for job, size in enumerate([sc['size'], 1]):
        res = sim.run_job(size, body)
        if ctx.take(sim):
            return
        fault = job == 0 and sum(sim.fired.values()) > 0
        what = '%d windows on %d processes (%s usable)' % (
            len(spread), size, spread)
        if job == 0:
            idle = [x for x in range(size) if not sum(spread[x::size])]
            ctx.nontrivial = size > 1 and len(ref) > 1
            ctx.key(size, min(len(ref), 3), bool(idle), 0 in idle, fault)
            if 0 in idle and ref:
                ctx.probe('process 0 has no usable window')
        if res.outcome != 'ok':
            if fault:
                ctx.probe('request failed')
                continue
            if res.outcome == 'deadlock':
                ctx.violation('hang', '%s: %s' % (what, res.detail))
                return
            e = res.excs[0]
            if isinstance(e, ValueError) and not ref and all(
                    x is None for x in res.excs[1:]):
                continue
            ctx.violation('refused', '%s: %s\n%s' % (
                what, res.detail, [x for x in res.tbs if x][0][-900:]
                if any(res.tbs) else ''))
            return
        for x in res.results[1:]:
            if x is not None and any(y is not None for y in x):
                ctx.violation('rank', '%s: other process returned %s' % (
                    what, x))
                return
        f, t, s = res.results[0]
        if not ref:
            ctx.violation('invented', '%s: %d columns without any usable '
                          'window' % (what, len(t)))
            return
        g = [UTCDateTime(x).timestamp for x in t]
        want = [x[0].timestamp for x in ref]
        if fault:
            # glob treats folders that cannot be listed as empty
            part = [x for x in ref if min([abs(
                x[0].timestamp - y) for y in g] or [1]) < 1e-3]
            want = [x[0].timestamp for x in part]
        else:
            part = ref
        if any(abs(x - y) > 1e-3 for x, y in zip(g, want)) \
                or len(g) != len(want):
            ctx.violation('times', '%s: %d columns at %s, expected %d at %s'
                          % (what, len(g), [round(x - a.timestamp, 2)
                                            for x in g][-8:], len(want),
                             [round(x - a.timestamp, 2)
                              for x in want][-8:]))
            return
        if np.shape(s) != (512, len(g)) or np.shape(f) != (512,):
            ctx.violation('shape', '%s: %s frequencies, %s powers' % (
                what, np.shape(f), np.shape(s)))
            return
        for i, (x, y, z) in enumerate(part):
            if not np.allclose(f, y, rtol=1e-9):
                ctx.violation('frequencies', '%s: %s ... %s' % (
                    what, f[-2:], y[-2:]))
                return
            sc_ = np.nanmax(np.abs(z))
            if not np.allclose(s[:, i], z, rtol=1e-6, atol=1e-6 * sc_,
                               equal_nan=True):
                ctx.violation('power', '%s: column %d (%s) differs by %.3g of '
                              '%.3g' % (what, i, x, np.nanmax(np.abs(
                                  s[:, i] - z)), sc_))
                return
        if fault:
            continue
        if one is None:
            one = s
        elif not np.array_equal(one, s, equal_nan=True):
            ctx.violation('ranks', '%s: differs from the run on %d' % (
                what, sc['size']))
            return
