"""P12: raw data is never modified by reading or processing it."""
import copy
import os
import random
import warnings
from unittest import mock

from obspy import UTCDateTime

from sim import world
from . import archive, corrgen

RUNS = {'quick': 300, 'thorough': 8000}
RULE = (
    'scenario = small network with an archive (inventory folder complete, '
    'incomplete, empty or absent) and 1-5 steps: opening it read-only, read '
    'requests served locally or by the provider, discovery, metadata '
    'requests, window generation, spectrogram, whole correlation runs on 1-4 '
    'processes (read-only or not, with or without response removal), failing '
    'downloads, the mass downloader (its download replaced by a stub that '
    'asks the same callback and overwrites whatever file it is given); disk '
    'faults at every file operation. Oracle = the bytes of every file and '
    'the list of folders before and after each step. Non-trivial: a step '
    'that read data. State = (step, read-only, outcome).')
REAL = ['seismic.trace_data.waveform.Store_Client', 'seismic.correlate.correl'
        'ate.Correlator', 'seismic.utils.raw_analysis', 'seismic.db.corr_hdf5',
        'h5py/HDF5', 'obspy', 'files on tmpfs']
STUB = ['data provider', 'network part of the mass downloader', 'MPI '
        'communicator', 'process scheduler', 'fault seams around files and '
        'HDF5', 'clock']

START = 3600.
KINDS = ['open', 'wave', 'wave', 'misc', 'meta', 'windows', 'spect', 'corr',
         'corr', 'mdl', 'mdl']


def gen(seed, tier):
    r = random.Random('p12-%s' % seed)
    chans = corrgen.network(r, r.choice([1, 2, 2, 3]), r.choice(['Z', 'ZN']))
    for c in chans:
        c['segs'] = [[START - 100, START + 700]]
        if r.random() < .2:
            c['segs'] = [[START - 100, START + 150], [START + 190,
                                                      START + 700]]
        if r.random() < .3:
            c['segs'].insert(0, [-4000., -3000.])
    ops = []
    for _ in range(r.choice([1, 2, 3, 4, 5])):
        k = r.choice(KINDS)
        op = {'op': k, 'ch': r.randrange(len(chans)),
              'ro': r.random() < .7 and k != 'mdl'}
        if k == 'wave':
            op['a'] = r.choice([START, START - 50, START + 600., -3600.,
                                20000.])
            op['b'] = op['a'] + r.choice([60., 300.])
            op['attach'] = r.random() < .7
            # only failing requests may be made by clients that write
            op['fail'] = r.choice(sorted(archive.NET_FAULTS))
        elif k == 'corr':
            op['size'] = r.choice([1, 2, 3, 4])
            op['method'] = r.choice(corrgen.METHODS)
            op['resp'] = r.random() < .3
            op['sep'] = r.random() < .5
        elif k == 'spect':
            op['size'] = r.choice([1, 2, 3])
            op['resp'] = r.random() < .4
        elif k == 'mdl':
            op['a'] = r.choice([-86400., 0., START, 43200.])
            op['b'] = op['a'] + 86400. * r.choice([.2, 1, 2, 2.5])
            op['fail'] = r.choice([None, None, None, 'half', 'error'])
        ops.append(op)
    faults = []
    if r.random() < .4:
        for j in r.sample(range(len(ops)), min(len(ops), r.choice([1, 2]))):
            faults.append({
                'job': 1 + j, 'site': r.choice([
                    '*', 'file.open-r', 'file.open-w', 'file.write',
                    'file.rename', 'dir.make']),
                'nth': r.choice([1, 2, 3, 5, 8, 13, 30]),
                'act': r.choice(['eio', 'enospc', 'interrupt', 'kill',
                                 'memerr', 'torn', 'short'])})
            if faults[-1]['act'] in ('torn', 'short'):
                faults[-1].update(site='file.write', frac=.5)
    return {'chans': chans, 'ops': ops, 'faults': faults,
            'inv': r.choice(['full', 'full', 'part', 'noresp', 'empty',
                             None]),
            'mseed': r.random() < .95,
            'meta': r.choice(['full', 'full', 'none']), 'sched': seed,
            'data': seed, 'preempt': r.choice([0., .5])}


def shrink(sc):
    for i in range(len(sc['ops'])):
        if len(sc['ops']) > 1:
            s = copy.deepcopy(sc)
            del s['ops'][i]
            s['faults'] = [dict(f, job=f['job'] - (f['job'] > i + 1))
                           for f in s['faults'] if f['job'] != i + 1]
            yield s
    for i in range(len(sc['faults'])):
        s = copy.deepcopy(sc)
        del s['faults'][i]
        yield s
    for i, op in enumerate(sc['ops']):
        if op.get('size', 1) > 1:
            s = copy.deepcopy(sc)
            s['ops'][i]['size'] -= 1
            yield s
    if len(sc['chans']) > 1:
        s = copy.deepcopy(sc)
        s['chans'].pop()
        yield s


class Downloader:
    """Network part of obspy's mass downloader"""
    def __init__(self, ctx, sc, op, mroot):
        self.ctx, self.sc, self.op, self.mroot = ctx, sc, op, mroot
        self.asked = 0

    def __call__(self, domain, restrictions, mseed_storage,
                 stationxml_storage, *a, **kw):
        # keep signature of MassDownloader.download
        n = 0
        for c in self.sc['chans']:
            for s, e in restrictions:
                self.asked += 1
                there = os.path.isfile(world.sds_path(
                    self.mroot, Stats(c), s))
                p = mseed_storage(c['net'], c['sta'], c['loc'], c['cha'], s,
                                  e) if callable(mseed_storage) else None
                if p is True:
                    if not there:
                        self.ctx.violation(
                            'skipped', 'mass downloader does not fetch %s of '
                            '%s, there is no file for it' % (
                                '.'.join((c['net'], c['sta'], c['cha'])), s))
                    continue
                if not isinstance(p, str):
                    self.ctx.violation('target', 'mass downloader got %r' % p)
                    continue
                if os.path.realpath(p) != os.path.realpath(
                        world.sds_path(self.mroot, Stats(c), s)):
                    self.ctx.violation(
                        'target', 'mass downloader is pointed at %s for %s of '
                        '%s' % (p, '.'.join((c['net'], c['sta'], c['cha'])),
                                s))
                    continue
                os.makedirs(os.path.dirname(p), exist_ok=True)
                n += 1
                if self.op['fail'] == 'error' and n == 2:
                    raise archive.NET_FAULTS['fdsn']()
                with open(p, 'wb') as f:
                    f.write(b'downloaded ' * (
                        20 if self.op['fail'] == 'half' else 400))
        inv = world.inventory(self.sc['chans'][:1], response=True)
        c = self.sc['chans'][0]
        inv.write(os.path.join(stationxml_storage, '%s.%s.xml' % (
            c['net'], c['sta'])), format='STATIONXML')


class Stats:
    def __init__(self, c):
        self.stats = self
        self.network, self.station = c['net'], c['sta']
        self.location, self.channel = c['loc'], c['cha']


def picture(root):
    """(bytes of all files, all folders); hidden files are left out"""
    dirs = set()
    for d, ds, _ in os.walk(root):
        dirs.update(os.path.relpath(os.path.join(d, x), root) for x in ds)
    return world.tree_digest(root), dirs


def run(sc, ctx):
    from obspy.clients.fdsn.mass_downloader import MassDownloader
    from seismic.trace_data.waveform import Store_Client
    from seismic.correlate.correlate import Correlator
    arch = os.path.join(ctx.disk, 'arch')
    mroot = os.path.join(arch, 'mseed')
    os.makedirs(arch)
    if sc['mseed']:
        world.write_archive(arch, sc['data'], sc['chans'])
    inv = os.path.join(arch, 'inventory')
    if sc['inv']:
        os.makedirs(inv)
    if sc['inv'] in ('full', 'part', 'noresp'):
        chans = sc['chans'][:1] if sc['inv'] == 'part' else sc['chans']
        world.inventory(chans, response=sc['inv'] != 'noresp').write(
            os.path.join(inv, 'XX.all.xml'), format='STATIONXML')
    sim = ctx.newsim(preempt=sc['preempt'])
    for j, op in enumerate(sc['ops']):
        c = sc['chans'][op['ch'] % len(sc['chans'])]
        rw_fail = op['op'] == 'wave' and not op['ro']
        plan = {str(i): op['fail'] for i in range(9)} if rw_fail else {}
        if rw_fail:
            plan.update({'s%d' % i: op['fail'] for i in range(9)})
        prov = archive.Provider(sc['data'] + 1, [
            dict(x, segs=[[-5000., 90000.]]) for x in sc['chans']], plan,
            sc['meta'])
        with sim.bypass():
            files0, dirs0 = picture(arch)
        down = Downloader(ctx, sc, op, mroot)
        proj = os.path.join(ctx.disk, 'proj%d' % j)
        os.makedirs(proj)

        def body(rank):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return step(rank)

        def step(rank):
            k = Store_Client(prov, arch, read_only=op['ro'])
            if op['op'] == 'wave':
                return k.get_waveforms(
                    c['net'], c['sta'], c['loc'], c['cha'],
                    UTCDateTime(world.T0 + op['a']),
                    UTCDateTime(world.T0 + op['b']),
                    attach_response=op['attach'])
            if op['op'] == 'misc':
                try:
                    k.get_available_stations()
                except FileNotFoundError:
                    pass
                k._translate_wildcards('*', '*')
                return k._get_times(c['net'], c['sta'])
            if op['op'] == 'meta':
                try:
                    k.read_inventory()
                except Exception:
                    pass
                if op['ro']:
                    return k.select_inventory_or_load_remote(
                        c['net'], c['sta'])
                return None
            if op['op'] == 'windows' and hasattr(
                    k, '_generate_time_windows'):
                a = UTCDateTime(world.T0 + START)
                return len(list(k._generate_time_windows(
                    c['net'], c['sta'], c['cha'], a, a + 600, 200)))
            if op['op'] == 'spect':
                a = UTCDateTime(world.T0 + START)
                return k.compute_spectrogram(
                    c['net'], c['sta'], c['cha'], a, a + 600, 150, 1., 300,
                    remove_response=op['resp']) and True
            if op['op'] == 'corr':
                o = world.options(proj, start=START, nread=2, component='*',
                                  method=op['method'], sep=op['sep'])
                o['co']['remove_response'] = op['resp']
                x = Correlator(k, o)
                x.pxcorr()
                return True
            if op['op'] == 'mdl':
                with mock.patch.object(MassDownloader, '__init__',
                                       lambda self, *a, **kw: None), \
                        mock.patch.object(
                            MassDownloader, 'download',
                            lambda self, *a, **kw: down(*a, **kw)):
                    k.download_waveforms_mdl(
                        UTCDateTime(world.T0 + op['a']),
                        UTCDateTime(world.T0 + op['b']), ['SIM'], -90, 90,
                        -180, 180, '*', '*', '*', '*')
                return down.asked
            return True
        res = sim.run_job(op.get('size', 1), body)
        what = 'step %d of %d (%s, %s) [%s]' % (
            j + 1, len(sc['ops']), op['op'],
            'read-only' if op['ro'] else 'writing client',
            res.detail or res.outcome)
        if ctx.violations:
            return
        ctx.nontrivial = ctx.nontrivial or op['op'] not in ('open', 'meta')
        ctx.key(op['op'], op['ro'], res.outcome)
        if op['op'] == 'mdl' and any(x for x in files0):
            ctx.probe('mass downloader with %s files' % (
                'existing' if files0 else 'no'))
        with sim.bypass():
            files1, dirs1 = picture(arch)
        keep = files0 if op['ro'] else {
            k: v for k, v in files0.items()
            if k.split(os.sep)[0] == 'mseed'}
        for k in sorted(keep):
            if k not in files1:
                ctx.violation('removed', '%s: %s is gone' % (what, k))
                return
            if files1[k] != files0[k]:
                ctx.violation('changed', '%s: %s was changed' % (what, k))
                return
        new = sorted(set(files1) - set(files0))
        if op['op'] != 'mdl' and not op['ro']:
            new = [k for k in new if k.split(os.sep)[0] == 'mseed']
        if new and op['op'] != 'mdl':
            ctx.violation('created', '%s: %s was created' % (what, new[0]))
            return
        if op['ro'] and dirs1 != dirs0:
            ctx.violation('folder', '%s: folders %s were created or removed'
                          % (what, sorted(dirs0 ^ dirs1)))
            return
