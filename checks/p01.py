"""P01: pxcorr result is independent of process count and schedule."""
import random

from sim import world
from . import corrgen

RUNS = {'quick': 220, 'thorough': 4000}
RULE = (
    'scenario = random network (1-4 stations, codes that are prefixes of '
    'each other), gaps, dead channels, sub-sample offsets, sampling rates, '
    'options, 2-5 ranks, schedule; the same job with one rank is the '
    'reference. Non-trivial: reference wrote at least one record. State = '
    '(record set, rank count, options).')
REAL = ['seismic.correlate.* (Correlator, preprocessing, CorrStream)',
        'seismic.db.corr_hdf5', 'seismic.trace_data.waveform.Store_Client',
        'h5py/HDF5 files', 'obspy MSEED + SDS client', 'file system (tmpfs)']
STUB = ['MPI communicator (simulated, in process)', 'wall clock',
        'scheduler (simulated)', 'directory order (seeded permutation)']


def gen(seed, tier):
    sc = corrgen.gen(seed, tier)
    r = random.Random('p01-%s' % seed)
    for ch in sc['chans']:
        x = r.random()
        if x < .12:
            ch['kind'] = r.choice(['zero', 'const', 'spike'])
        elif x < .25:
            ch['offset'] = r.choice([.1, .25, .2, .4])
    sc['extend'] = sc['opt']['psub'] and r.random() < .8
    return sc


shrink = corrgen.shrink


def run(sc, ctx):
    arch = corrgen.setup(ctx, sc)
    dumps = []
    for name, size in (('p1', 1), ('pn', sc['ranks'])):
        o, cdir = corrgen.opts_of(ctx, sc, name)
        sim = ctx.newsim(sc['sched'] if size > 1 else 0)
        if sc.get('extend'):
            # preprocess_subdiv only acts when there is something already
            o2, _ = corrgen.opts_of(ctx, sc, name, nread=1, len=sc['opt'][
                'len'])
            o2['co']['read_end'] = o2['co']['read_start'][:-1] + '1Z'
            from obspy import UTCDateTime
            st = UTCDateTime(o2['co']['read_start'])
            o2['co']['read_end'] = str(st + 1)
            res = world.correlate(sim, size, arch, o2)
            if not check(ctx, sim, res, size):
                return
        res = world.correlate(sim, size, arch, o)
        if not check(ctx, sim, res, size):
            return
        dumps.append(world.db_dump(cdir))
    d = world.diff_dump(dumps[0], dumps[1], names=('1 process', '%d' % sc[
        'ranks']))
    if d:
        ctx.violation('rank-dependent', d)
    ctx.nontrivial = len(dumps[0]) > 0
    ctx.probe('records', len(dumps[0]))
    ctx.key(sorted(map(str, dumps[0])), sc['ranks'], sc['opt']['method'])


def check(ctx, sim, res, size):
    ctx.take(sim)
    if ctx.violations:
        return False
    if res.outcome == 'exception':
        e = [x for x in zip(res.excs, res.tbs) if x[1]]
        if size == 1:
            # not decided here (P02); nothing to compare with
            ctx.probe('reference-raised:%s' % type(e[0][0]).__name__)
            ctx.violation('raised', '%s\n%s' % (
                res.detail, (e[0][1] if e else '')[-1200:]))
            return False
        ctx.violation('raised', '%d ranks: %s\n%s' % (
            size, res.detail, (e[0][1] if e else '')[-1200:]))
        return False
    if res.outcome != 'ok':
        ctx.violation(res.outcome, '%d ranks: %s' % (size, res.detail))
        return False
    return True
