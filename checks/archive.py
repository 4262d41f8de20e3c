"""Sample maps of SDS archives and a simulated data provider."""
import os
import re

import numpy as np
from obspy import Stream, UTCDateTime, read
from obspy.clients.fdsn.header import FDSNException, FDSNNoDataException

from sim import world

SDS = re.compile(r'^([^.]+)\.([^.]+)\.([^.]*)\.([^.]+)\.D\.(\d{4})\.(\d{1,3})$')
DAY = 86400
NET_FAULTS = {
    'nodata': lambda: FDSNNoDataException('no data (simulated)'),
    'fdsn': lambda: FDSNException('service unavailable (simulated)'),
    'timeout': lambda: TimeoutError('timed out (simulated)'),
}


def tkey(t):
    """Sampling points are compared with a tolerance of 5 ms."""
    return int(round(t * 100))


def samples(tr):
    """[(time relative to T0, value)], masked samples left out"""
    t0 = tr.stats.starttime.timestamp - world.T0
    d = np.ma.masked_array(tr.data)
    m = np.ma.getmaskarray(d)
    v = np.ma.getdata(d)
    return [(t0 + i * tr.stats.delta, float(v[i]))
            for i in range(len(d)) if not m[i]]


def smap(st):
    """{id: {tkey: value}} of a stream"""
    out = {}
    for tr in st:
        d = out.setdefault(tr.id, {})
        for t, v in samples(tr):
            d[tkey(t)] = v
    return out


def tree(mroot):
    """
    -> ({id: {tkey: {value}}}, [problems], {file: [(id, tkey)]})
    Files are read one by one without any SeisMIC code. Hidden files are
    nobody's business, anything else that cannot be read is a problem.
    """
    out, bad, where = {}, [], {}
    for d, ds, fs in os.walk(mroot):
        ds.sort()
        for f in sorted(fs):
            m = SDS.match(f)
            if not m:
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, mroot)
            net, sta, loc, cha, year, doy = m.groups()
            if rel != os.path.join(year, net, sta, cha + '.D', f):
                bad.append('%s is in the wrong directory' % rel)
            try:
                st = read(p, format='MSEED')
            except Exception as e:
                bad.append('%s (%d bytes) cannot be read: %s: %s' % (
                    rel, os.path.getsize(p), type(e).__name__, e))
                continue
            day = UTCDateTime(int(year), 1, 1).timestamp + (
                int(doy) - 1) * DAY - world.T0
            for tr in st:
                if tr.id != '.'.join((net, sta, loc, cha)):
                    bad.append('%s contains %s' % (rel, tr.id))
                o = out.setdefault(tr.id, {})
                for t, v in samples(tr):
                    k = tkey(t)
                    o.setdefault(k, set()).add(v)
                    where.setdefault((tr.id, k), set()).add(rel)
                    # the sample at midnight may be in both files
                    if not day - .01 <= t <= day + DAY + .01:
                        bad.append('%s contains a sample of %s' % (
                            rel, UTCDateTime(t + world.T0)))
    return out, bad, where


def own_file(id_, k):
    t = UTCDateTime(k / 100 + world.T0)
    net, sta, loc, cha = id_.split('.')
    return os.path.join(
        str(t.year), net, sta, cha + '.D', '%s.D.%04d.%03d' % (
            id_, t.year, t.julday))


def compare(have, must, may, where=None):
    """First deviation of a tree() map from the model, or None.
    must/may: {id: {tkey: value}}"""
    for id_ in sorted(must):
        h = have.get(id_, {})
        lost = [k for k in must[id_] if k not in h]
        if lost:
            return 'lost', '%s: %d of %d stored samples are gone, e.g. %s' % (
                id_, len(lost), len(must[id_]),
                UTCDateTime(min(lost) / 100 + world.T0))
        if where is not None:
            for k in sorted(must[id_]):
                own = own_file(id_, k)
                if own not in where[id_, k]:
                    return 'wrong-day', '%s: sample of %s is only in %s' % (
                        id_, UTCDateTime(k / 100 + world.T0),
                        sorted(where[id_, k]))
    for id_ in sorted(have):
        ok = dict(may.get(id_, {}))
        ok.update(must.get(id_, {}))
        for k in sorted(have[id_]):
            if k not in ok:
                return 'invented', '%s: sample at %s was never written' % (
                    id_, UTCDateTime(k / 100 + world.T0))
            if have[id_][k] != {ok[k]}:
                return 'wrong-sample', '%s: sample at %s is %s, written %s' \
                    % (id_, UTCDateTime(k / 100 + world.T0),
                       sorted(have[id_][k]), ok[k])
    return None


def add(model, new):
    for i, d in new.items():
        model.setdefault(i, {}).update(d)


class Provider:
    """
    Stands for the FDSN client. Delivers chans (dicts with segs, see
    sim.world) and records every request. Faults are taken from
    self.plan[call number].
    """
    def __init__(self, seed, chans, plan=None, meta='full'):
        self.meta = meta
        self.seed, self.chans = seed, chans
        self.plan = plan or {}
        self.calls = []
        self.delivered = []
        self.inv_calls = []

    def _fail(self, n):
        f = self.plan.get(str(n))
        if f:
            raise NET_FAULTS[f]()

    def get_waveforms(self, network, station, location, channel, starttime,
                      endtime, **kw):
        n = len(self.calls)
        self.calls.append((network, station, location, channel,
                           float(starttime), float(endtime)))
        self._fail(n)
        out = Stream()
        for c in self.chans:
            if (c['net'], c['sta'], c.get('loc', '00'), c['cha']) != (
                    network, station, location, channel):
                continue
            st = world.chan_stream(self.seed, c, c['segs'])
            for tr in st:
                p = tr.slice(starttime, endtime)
                if p.stats.npts:
                    out.append(p.copy())
        if not len(out):
            raise FDSNNoDataException('no data')
        self.delivered.append(out.copy())
        return out

    def get_stations(self, network='*', station='*', channel='*', **kw):
        import fnmatch
        n = 's%d' % len(self.inv_calls)
        self.inv_calls.append((network, station, channel))
        f = self.plan.get(n)
        if f:
            raise NET_FAULTS[f]()
        sel = [c for c in self.chans
               if fnmatch.fnmatch(c['net'], network)
               and fnmatch.fnmatch(c['sta'], station)
               and fnmatch.fnmatch(c['cha'], channel)]
        if not sel or self.meta == 'none':
            raise FDSNNoDataException('no data')
        return world.inventory(sel, response=self.meta == 'full')


class Deliver:
    """Provider that answers with a given stream"""
    def __init__(self, st):
        self.st = st

    def get_waveforms(self, *args, **kw):
        return self.st

    def get_stations(self, *args, **kw):
        raise NET_FAULTS['nodata']()


def store(client, st):
    """Write st to the archive of client"""
    if hasattr(client, '_write_local_data'):
        return client._write_local_data(st)
    # as if it were just downloaded
    s = st[0].stats
    old, client.rclient = client.rclient, Deliver(st)
    try:
        client.get_waveforms(
            s.network, s.station, s.location, s.channel,
            s.starttime - 10 * 86400, s.endtime + 10 * 86400, False)
    finally:
        client.rclient = old
