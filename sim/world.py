"""Synthetic seismic networks, projects and reference readers."""
import copy
import hashlib
import os
import shutil

import numpy as np


def rs(*parts):
    """A RandomState that depends on the parts only."""
    h = hashlib.sha256(repr(parts).encode()).digest()
    return np.random.RandomState(int.from_bytes(h[:4], 'little'))


T0 = 1577836800.0          # 2020-01-01
READ = 240.0               # length of one read interval


def common_signal(seed, t):
    r = rs('common', seed)
    out = np.zeros(len(t))
    for _ in range(25):
        f, a, p = r.uniform(.05, .9), r.uniform(.3, 1.), r.uniform(0, 6.3)
        out += a * np.sin(2 * np.pi * f * (t - T0) + p)
    return out


def chan_data(seed, ch, t):
    """Samples of a channel at absolute times t (a function of time only)."""
    kind = ch.get('kind', 'noise')
    if kind == 'zero':
        return np.zeros(len(t))
    if kind == 'const':
        return np.full(len(t), 7.0)
    sid = (ch['net'], ch['sta'], ch['cha'])
    delay = rs('delay', seed, sid).uniform(0, 3)
    idx = np.round((t - T0) * ch['rate']).astype(np.int64)
    lo = int(idx.min()) // 4096
    hi = int(idx.max()) // 4096
    blocks = {b: rs('noise', seed, sid, b).normal(size=4096)
              for b in range(lo, hi + 1)}
    own = np.array([blocks[i // 4096][i % 4096] for i in idx.tolist()])
    x = common_signal(seed, t - delay) + 2.0 * own
    if kind == 'spike':
        x = x * (1 + 50 * (idx % 97 == 0))
    return x * 1000 * ch.get('gain', 1)


def chan_stream(seed, ch, segs):
    """obspy Stream of one channel; segs = [[t_start, t_end), ...] rel. T0"""
    from obspy import Stream, Trace, UTCDateTime
    st = Stream()
    for a, b in segs:
        k0 = int(np.ceil((a - ch.get('offset', 0)) * ch['rate'] - 1e-6))
        k1 = int(np.ceil((b - ch.get('offset', 0)) * ch['rate'] - 1e-6))
        if k1 <= k0:
            continue
        t = T0 + np.arange(k0, k1) / ch['rate']
        d = chan_data(seed, ch, t)
        if ch.get('dtype', 'i4') == 'i4':
            d = np.round(d).astype(np.int32)
        else:
            d = d.astype(np.float32)
        tr = Trace(d, header={
            'network': ch['net'], 'station': ch['sta'],
            'location': ch.get('loc', '00'), 'channel': ch['cha'],
            'sampling_rate': ch['rate'],
            'starttime': UTCDateTime(T0 + ch.get('offset', 0)
                                     + k0 / ch['rate'])})
        st.append(tr)
    return st


def sds_path(root, tr, t=None):
    s = tr.stats
    t = t or s.starttime
    return os.path.join(
        root, str(t.year), s.network, s.station, '%s.D' % s.channel,
        '%s.%s.%s.%s.D.%04d.%03d' % (
            s.network, s.station, s.location, s.channel, t.year, t.julday))


def write_archive(root, seed, chans):
    """Plain SDS archive, written without any SeisMIC code."""
    from obspy import Stream, UTCDateTime
    mroot = os.path.join(root, 'mseed')
    os.makedirs(mroot, exist_ok=True)
    files = {}
    for ch in chans:
        for tr in chan_stream(seed, ch, ch['segs']):
            t = tr.stats.starttime
            while t <= tr.stats.endtime:
                nxt = UTCDateTime(t.year, t.month, t.day) + 86400
                part = tr.slice(t, nxt - tr.stats.delta / 2)
                if part.stats.npts:
                    files.setdefault(
                        sds_path(mroot, tr, t), Stream()).append(part)
                t = nxt
    for p, st in files.items():
        os.makedirs(os.path.dirname(p), exist_ok=True)
        st.write(p, format='MSEED')


def coords(net, sta):
    r = rs('coords', net, sta)
    return (round(r.uniform(-60, 60), 4), round(r.uniform(-170, 170), 4),
            round(r.uniform(0, 2000), 1))


def gain(net, sta, cha):
    return float(rs('gain', net, sta, cha).randint(100, 10**6))


def response(ch):
    from obspy.core.inventory.response import Response
    return Response.from_paz(
        zeros=[0j, 0j], poles=[-.037 - .037j, -.037 + .037j],
        stage_gain=gain(ch['net'], ch['sta'], ch['cha']),
        stage_gain_frequency=1., input_units='M/S', output_units='COUNTS')


def response_of(p):
    """p: corner frequency and gain of a simulated sensor"""
    from obspy.core.inventory.response import Response
    w = 2 * np.pi * p['corner']
    h = np.sqrt(.5)
    return Response.from_paz(
        zeros=[0j, 0j], poles=[complex(-w * h, -w * h), complex(-w * h, w * h)],
        stage_gain=p['gain'], stage_gain_frequency=1., input_units='M/S',
        output_units='COUNTS')


def inventory(chans, response=False):
    # the parameter hides the function of that name
    resp = globals()['response'] if response else (lambda c: None)
    from obspy.core.inventory import (
        Inventory, Network, Station, Channel, Site)
    from obspy import UTCDateTime
    nets = {}
    for ch in chans:
        nets.setdefault(ch['net'], {}).setdefault(ch['sta'], []).append(ch)
    out = []
    for n, stas in sorted(nets.items()):
        sl = []
        for s, chl in sorted(stas.items()):
            la, lo, el = coords(n, s)
            sl.append(Station(
                code=s, latitude=la, longitude=lo, elevation=el,
                site=Site(name=s), creation_date=UTCDateTime(2000, 1, 1),
                start_date=UTCDateTime(2000, 1, 1),
                channels=[Channel(
                    code=c['cha'], location_code=c.get('loc', '00'),
                    latitude=la, longitude=lo, elevation=el, depth=0,
                    azimuth=0, dip=c.get('dip', -90),
                    start_date=UTCDateTime(2000, 1, 1),
                    response=resp(c),
                    sample_rate=c['rate']) for c in chl]))
        out.append(Network(code=n, stations=sl))
    return Inventory(networks=out, source='sim')


def write_inventories(root, chans):
    d = os.path.join(root, 'inventory')
    os.makedirs(d, exist_ok=True)
    by = {}
    for ch in chans:
        by.setdefault((ch['net'], ch['sta']), []).append(ch)
    for (n, s), chl in by.items():
        inventory(chl).write(
            os.path.join(d, '%s.%s.xml' % (n, s)), format='STATIONXML')


def options(proj, **kw):
    """A full options dictionary as in params_example.yaml, small sizes."""
    from obspy import UTCDateTime
    nread = kw.get('nread', 2)
    rl = kw.get('read_len', READ)
    start = T0 + kw.get('start', 3600.)
    o = {
        'proj_dir': proj,
        'save_comps_separately': kw.get('sep', False),
        'log_subdir': 'log', 'log_level': 'CRITICAL',
        'fig_subdir': 'fig',
        'net': {'network': kw.get('network', '*'),
                'station': kw.get('station', '*'),
                'component': kw.get('component', 'Z')},
        'co': {
            'subdir': 'corr',
            'read_start': str(UTCDateTime(start)),
            'read_end': str(UTCDateTime(
                start + (nread - 1) * kw.get('read_inc', rl) + 1)),
            'read_len': rl, 'read_inc': kw.get('read_inc', rl),
            'sampling_rate': kw.get('rate', 2),
            'remove_response': False,
            'combination_method': kw.get('method', 'betweenStations'),
            'preProcessing': copy.deepcopy(kw.get('pre', [])),
            'preprocess_subdiv': kw.get('psub', False),
            'subdivision': {
                'corr_inc': kw.get('inc', 60.),
                'corr_len': kw.get('len', 60.),
                'recombine_subdivision': kw.get('stack', True),
                'delete_subdivision': kw.get('delsub', False)},
            'corr_args': {
                'TDpreProcessing': copy.deepcopy(kw.get('td', [])),
                'FDpreProcessing': copy.deepcopy(kw.get('fd', [])),
                'lengthToSave': kw.get('lts', 10),
                'center_correlation': kw.get('center', True),
                'normalize_correlation': kw.get('norm', True),
                'combinations': []}}}
    if kw.get('xcomb'):
        o['co']['xcombinations'] = list(kw['xcomb'])
    if 'allow_diff' in kw:
        o['co']['allow_different_params'] = kw['allow_diff']
    return o


def correlate(sim, size, arch, opts, read_only=True, client=None):
    """One MPI job running pxcorr on the real code -> JobResult"""
    from seismic.correlate.correlate import Correlator
    from seismic.trace_data.waveform import Store_Client

    def body(rank):
        sc = Store_Client(client(rank) if client else None, arch,
                          read_only=read_only)
        c = Correlator(sc, copy.deepcopy(opts))
        c.pxcorr()
        return True
    return sim.run_job(size, body)


def h5_dump(path):
    """{dataset path: (array, {attr: value})} straight from the file."""
    import h5py
    out = {}

    def visit(name, obj):
        if isinstance(obj, h5py.Dataset):
            out['/' + name] = (
                np.array(obj), {k: _attr(v) for k, v in obj.attrs.items()})
    with h5py.File(path, 'r') as f:
        f.visititems(visit)
    return out


def _attr(v):
    if isinstance(v, np.ndarray):
        return [str(x) for x in v.tolist()]
    if isinstance(v, (np.floating, float)):
        return float(v)
    if isinstance(v, (np.integer, int)):
        return int(v)
    return str(v)


def db_dump(cdir):
    """{(file, dataset path): (array, attrs)} of a correlation directory"""
    out = {}
    if not os.path.isdir(cdir):
        return out
    for f in sorted(os.listdir(cdir)):
        if f.endswith('.h5'):
            for k, v in h5_dump(os.path.join(cdir, f)).items():
                if k != '/co':
                    out[(f, k)] = v
    return out


VOLATILE = ('processing',)


def diff_dump(a, b, rtol=2e-3, attrs=True, names=('A', 'B')):
    """First difference between two dumps as text, or None."""
    ka, kb = set(a), set(b)
    if ka != kb:
        return 'different records: only in %s: %s; only in %s: %s' % (
            names[0], sorted(ka - kb)[:4], names[1], sorted(kb - ka)[:4])
    for k in sorted(ka):
        d = diff_rec(a[k], b[k], rtol, attrs)
        if d:
            return '%s: %s' % (k, d)
    return None


def diff_rec(ra, rb, rtol=2e-3, attrs=True):
    (da, ha), (db, hb) = ra, rb
    if da.shape != db.shape:
        return 'shape %s vs %s' % (da.shape, db.shape)
    d = diff_data(da, db, rtol)
    if d:
        return d
    if attrs:
        for x in sorted((set(ha) | set(hb)) - set(VOLATILE)):
            va, vb = ha.get(x), hb.get(x)
            if va == vb:
                continue
            if isinstance(va, float) and isinstance(vb, float) and (
                    abs(va - vb) <= 1e-6 * max(1, abs(va))
                    or (va != va and vb != vb)):
                continue
            return 'header %s: %r vs %r' % (x, va, vb)
    return None


def diff_data(da, db, rtol=2e-3):
    na, nb = np.isnan(da), np.isnan(db)
    if not np.array_equal(na, nb):
        return 'NaN pattern differs (%d vs %d of %d)' % (
            na.sum(), nb.sum(), da.size)
    ok = ~na
    if not ok.any():
        return None
    x, y = da[ok].astype(float), db[ok].astype(float)
    ia, ib = np.isinf(x), np.isinf(y)
    if not np.array_equal(ia, ib):
        return 'inf pattern differs'
    x, y = x[~ia], y[~ia]
    if not x.size:
        return None
    scale = max(np.abs(x).max(), np.abs(y).max(), 1e-12)
    e = np.abs(x - y).max()
    if e > rtol * scale:
        return 'samples differ by %.3g (scale %.3g)' % (e, scale)
    return None


def tree_digest(root, sub=''):
    """{relative path: sha256} of all files below root."""
    out = {}
    base = os.path.join(root, sub)
    for d, _, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, root)] = hashlib.sha256(
                    fh.read()).hexdigest()
    return out


def clone(src, dst):
    if os.path.isdir(dst):
        shutil.rmtree(dst)
    shutil.copytree(src, dst)
    return dst
