"""P19: response and polarity corrections act on each channel by itself."""
import copy
import fnmatch
import os
import random

from obspy import UTCDateTime, read_inventory

from sim import world
from . import archive, corrgen

RUNS = {'quick': 240, 'thorough': 5000}
RULE = (
    'scenario = network of 1-4 stations, sensors with different corner '
    'frequencies, gains and polarities, which may have been or will be '
    'replaced by others; metadata in the archive complete, '
    'without response, without the channel, or of an ended epoch; a metadata '
    'service that has the response, has none, has the station without '
    'response, does not answer (always, or on single calls of single '
    'processes) or does not exist; response removal on or off, preprocessing '
    'before or after cutting; archive writable or not; gaps; 1-5 processes, '
    'schedule; full disk while metadata is stored. Oracle: the same '
    'correlations of data whose channels are corrected one by one from the '
    'true metadata, those without metadata left out. Non-trivial: records '
    'were compared that contain corrected channels. State = (metadata '
    'conditions, records, processes).')
REAL = ['seismic.correlate.correlate (Correlator, preprocess_stream)',
        'seismic.trace_data.waveform.Store_Client',
        'seismic.utils.miic_utils.correct_polarity', 'obspy response '
        'removal, StationXML and SDS clients', 'seismic.db.corr_hdf5',
        'file system (tmpfs)']
STUB = ['FDSN metadata service', 'MPI communicator (simulated)',
        'scheduler (simulated)', 'directory order (seeded permutation)',
        'wall clock']
COORD = ('stla', 'stlo', 'stel', 'evla', 'evlo', 'evel', 'dist', 'az', 'baz')


def gen(seed, tier):
    sc = corrgen.gen(seed, tier)
    r = random.Random('p19-%s' % seed)
    o = sc['opt']
    o['remove'] = r.random() < .75
    o['stack'] = o['delsub'] = False
    if r.random() < .6:
        # amplitudes matter
        o['norm'] = False
    stas = sorted({(c['net'], c['sta']) for c in sc['chans']})
    p = r.choice([.1, .3, .6])
    for c in sc['chans']:
        c['corner'] = r.choice([.02, .1, .3])
        c['gain_'] = r.choice([500., 1000., 2e3])
        c['dip'] = 0 if c['cha'][-1] != 'Z' else r.choice(
            [-90, -90, -88.5, 0, 87., 90, 90])
        c['meta'] = 'full' if r.random() > p else r.choice(
            ['noresp', 'absent', 'absent', 'old'])
        # the sensor that was, or will be, there before / after this one
        c['other'] = None if r.random() > .3 else {
            'when': r.choice(['prev', 'next']), 'corner': r.choice([.05, .2]),
            'gain_': r.choice([700., 1500.]), 'dip': r.choice([-90, 90, 0])}
    sc['remote'] = {'.'.join(s): r.choice(
        ['full', 'full', 'nodata', 'fdsn', 'timeout', 'noresp'])
        for s in stas}
    sc['client'] = r.random() < .85
    sc['flaky'] = {}
    if r.random() < .2:
        for _ in range(r.choice([1, 2])):
            sc['flaky']['%d:%d' % (r.randrange(sc['ranks']), r.choice(
                [0, 0, 1, 2]))] = r.choice(['fdsn', 'timeout', 'nodata'])
    sc['ro'] = r.random() < .5
    sc['ranks'] = r.choice([1, 2, 2, 3, 4, 5])
    sc['faults'] = []
    if not sc['ro'] and r.random() < .3:
        sc['faults'].append({
            'site': 'file.write', 'nth': r.choice([1, 1, 2, 4]),
            'act': r.choice(['enospc', 'short']), 'frac': .4})
    # what a first run leaves is used by a second one
    sc['extend'] = o['psub'] or r.random() < .2
    if sc['extend'] and o['nread'] == 1:
        o['nread'] = 2
        for c in sc['chans']:
            for s in c['segs']:
                if s[1] > o['start'] + 200:
                    s[1] += o['read_inc']
    return sc


def shrink(sc):
    for k, v in (('faults', []), ('flaky', {}), ('extend', False),
                 ('ro', True), ('ranks', 1), ('ranks', 2)):
        if sc[k] != v and not (k == 'ranks' and v > sc[k]):
            yield dict(sc, **{k: v})
    for i, c in enumerate(sc['chans']):
        for k, v in (('meta', 'full'), ('other', None), ('dip', -90 if c['cha'][-1] == 'Z'
                                        else 0)):
            if c[k] != v:
                s = copy.deepcopy(sc)
                s['chans'][i][k] = v
                yield s
    for s in corrgen.shrink(sc):
        if s['opt']['nread'] > 1 or not s['extend']:
            yield s


def ident(c):
    return '%s.%s.%s.%s' % (c['net'], c['sta'], c['loc'], c['cha'])


def inv_of(chans, response=True):
    inv = world.inventory(chans)
    by = {ident(c): c for c in chans}
    for n in inv:
        for s in n:
            for x in s:
                c = by['.'.join((n.code, s.code, x.location_code, x.code))]
                if response and c.get('meta') != 'noresp':
                    x.response = world.response_of(par(c))
                if c.get('meta') == 'old':
                    x.end_date = UTCDateTime(2015, 1, 1)
            extra = []
            for x in s:
                c = by['.'.join((n.code, s.code, x.location_code, x.code))]
                if c.get('other') and c.get('meta') != 'old':
                    y = copy.deepcopy(x)
                    y.dip = c['other']['dip']
                    if x.response:
                        y.response = world.response_of(par(c['other']))
                    if c['other']['when'] == 'prev':
                        y.end_date = x.start_date = UTCDateTime(2015, 1, 1)
                        extra.append((0, y))
                    else:
                        x.end_date = y.start_date = UTCDateTime(2022, 1, 1)
                        extra.append((1, y))
            s.channels = [y for k, y in extra if not k] + s.channels + [
                y for k, y in extra if k]
    return inv


def par(c):
    return {'corner': c['corner'], 'gain': c['gain_']}


class Meta:
    """Metadata service as one process sees it"""
    def __init__(self, sc, rank, log):
        self.sc, self.rank, self.log, self.n = sc, rank, log, 0

    def get_stations(self, network='*', station='*', channel='*', **kw):
        n, self.n = self.n, self.n + 1
        f = self.sc['flaky'].get('%d:%d' % (self.rank, n))
        mode = self.sc['remote'].get('%s.%s' % (network, station), 'nodata')
        self.log.append((self.rank, network, station, f or mode))
        if f or mode in archive.NET_FAULTS:
            raise archive.NET_FAULTS[f or mode]()
        sel = [dict(c, meta='full') for c in self.sc['chans']
               if (c['net'], c['sta']) == (network, station)
               and fnmatch.fnmatch(c['cha'], channel)]
        if not sel:
            raise archive.NET_FAULTS['nodata']()
        return inv_of(sel, mode == 'full' and kw.get('level') == 'response')


def expected(sc):
    """{id: (dropped, inverted, response)}"""
    out = {}
    for c in sc['chans']:
        flip = c['dip'] > 0
        if not sc['opt']['remove']:
            out[ident(c)] = (False, flip and c['meta'] in (
                'full', 'noresp'), None)
            continue
        ok = c['meta'] == 'full' or (
            sc['client'] and sc['remote'][c['net'] + '.' + c['sta']] == 'full')
        out[ident(c)] = (not ok, flip, par(c))
    return out


def entries(idir):
    out = {}
    for f in sorted(os.listdir(idir)):
        if not f.endswith('.xml'):
            continue
        for n in read_inventory(os.path.join(idir, f)):
            for s in n:
                for x in s:
                    k = '.'.join((n.code, s.code, x.location_code, x.code))
                    has = bool(x.response and x.response.response_stages)
                    out[k] = out.get(k, False) or has
    return out


def run(sc, ctx):
    o = sc['opt']
    arch = os.path.join(ctx.disk, 'arch')
    ref = os.path.join(ctx.disk, 'arch-ref')
    os.makedirs(arch), os.makedirs(ref)
    world.write_archive(arch, sc['data'], sc['chans'])
    os.symlink(os.path.join(arch, 'mseed'), os.path.join(ref, 'mseed'))
    clean = [{k: v for k, v in c.items() if k not in ('dip', 'meta')}
             for c in sc['chans']]
    world.write_inventories(ref, clean)
    idir = os.path.join(arch, 'inventory')
    os.makedirs(idir)
    # never empty; response removal needs some inventory
    other = dict(sc['chans'][0], net='ZZ', sta='OTHER', meta='full')
    by = {('ZZ', 'OTHER'): [other]}
    for c in sc['chans']:
        if c['meta'] != 'absent':
            by.setdefault((c['net'], c['sta']), []).append(c)
    for (n, s), cl in by.items():
        inv_of(cl).write(os.path.join(idir, '%s.%s.xml' % (n, s)),
                         format='STATIONXML')
    before = entries(idir)
    exp = expected(sc)
    plug = {'function': 'checks.plugins.apply_meta', 'args': {
        'drop': sorted(i for i in exp if exp[i][0]),
        'invert': sorted(i for i in exp if exp[i][1]),
        'responses': {i: exp[i][2] for i in exp
                      if exp[i][2] and not exp[i][0]}}}
    nreads = [1, o['nread']] if sc['extend'] else [o['nread']]
    log = []
    # only metadata files are written through Python
    sim = ctx.newsim(sc['sched'])
    for n in nreads:
        opts, cdir = corrgen.opts_of(ctx, sc, 'got', nread=n)
        opts['co']['remove_response'] = o['remove']
        res = world.correlate(
            sim, sc['ranks'], arch, opts, read_only=sc['ro'],
            client=(lambda rank: Meta(sc, rank, log))
            if sc['client'] else None)
        ctx.take(sim)
        if ctx.violations:
            return
        if res.outcome != 'ok':
            tb = [t for t in res.tbs if t]
            ctx.violation('stopped', '%d processes, service %s: %s %s\n%s' % (
                sc['ranks'], log[-3:], res.outcome, res.detail,
                (tb[0] if tb else '')[-1200:]))
            return
    got = world.db_dump(cdir)
    sref = ctx.newsim(0, faults=[])
    for n in nreads:
        opts, cdir = corrgen.opts_of(ctx, sc, 'ref', nread=n,
                                     pre=[plug] + o['pre'])
        res = world.correlate(sref, 1, ref, opts)
        if res.outcome != 'ok':
            ctx.violation('reference', '%s\n%s' % (
                res.detail, (res.tbs[0] or '')[-900:]))
            return
    want = world.db_dump(cdir)
    flaky = any(x[3] != sc['remote'].get(x[1] + '.' + x[2]) for x in log)
    nocoord = {'%s.%s' % (c['net'], c['sta']) for c in sc['chans']} - {
        '%s.%s' % k for k in by}
    meta = {ident(c): c['meta'] for c in sc['chans']}
    what = '%d processes, response removal %s, metadata %s, service %s' % (
        sc['ranks'], 'on' if o['remove'] else 'off', meta,
        sc['remote'] if sc['client'] else None)
    for k in sorted(set(got) | set(want)):
        f, p = k
        if flaky and o['psub']:
            # whether anything exists decides where data is preprocessed
            break
        if k not in want:
            ctx.violation('unexpected', '%s: %s' % (what, k))
            return
        if k not in got:
            if flaky and any(m != 'full' for m in meta.values()):
                ctx.probe('cost of a failing request')
                continue
            ctx.violation('lost', '%s: %s is missing; requests %s' % (
                what, k, log[-4:]))
            return
        d = world.diff_rec(got[k], want[k], attrs=False)
        if not d and not any(s in nocoord for s in stations(f, p)):
            d = world.diff_rec(got[k], want[k])
        if d:
            ctx.violation('differs', '%s: %s: %s' % (what, k, d))
            return
    # the archive keeps what it had and gains what was obtained
    try:
        after = entries(idir)
    except Exception as e:
        ctx.violation('inventory', '%s: inventory cannot be read: %s: %s' % (
            what, type(e).__name__, e))
        return
    for k in sorted(before):
        if k not in after or before[k] > after[k]:
            ctx.violation('inventory', '%s: metadata of %s is gone' % (
                what, k))
            return
    ctx.probe('records', len(got))
    for m in set(meta.values()):
        ctx.probe('metadata ' + m)
    if log:
        ctx.probe('metadata requests', len(log))
    ctx.nontrivial = bool(got) and (o['remove'] or any(
        e[1] for e in exp.values()))
    ctx.key(sorted(map(str, got)), sc['ranks'], sorted(meta.items()),
            o['remove'])


def stations(f, p):
    """Stations in the name of a dataset /tag/net-net/sta-sta/..."""
    x = p.split('/')
    return ['.'.join(z) for z in zip(x[2].split('-'), x[3].split('-'))]
