"""P08: writing to the waveform archive never loses stored samples."""
import copy
import os
import random

from obspy import Stream, UTCDateTime

from sim import world
from . import archive

RUNS = {'quick': 700, 'thorough': 20000}
RULE = (
    'scenario = history of 1-7 writes of random streams (gaps, overlaps, '
    'several channels, any order of days, segments that end or begin at '
    'midnight and at the turn of the year, single samples) by one or several '
    'Store_Clients, with faults (full disk, I/O error, failed allocation, '
    'Ctrl-C, short and torn writes, kill) at any file operation; oracle = '
    'sample map of everything delivered so far; after each write every file '
    'of the archive is read without SeisMIC code and again through '
    'Store_Client. Non-trivial: a write into an existing file or a fired '
    'fault. State = (kind of the writes, outcome).')
REAL = ['seismic.trace_data.waveform.Store_Client', 'obspy MSEED reader and '
        'writer, SDS client', 'files on tmpfs']
STUB = ['data provider', 'fault seams around open/write/rename', 'clock']

DAY = 86400.
SITES = ['file.open-w', 'file.write', 'file.write', 'file.open-r',
         'file.rename', 'dir.make', '*', '*']


def gen(seed, tier):
    r = random.Random('p08-%s' % seed)
    chans = []
    for _ in range(r.choice([1, 1, 2, 3])):
        c = {'net': r.choice(['XN', 'YP']), 'sta': r.choice(['A', 'AB']),
             'loc': r.choice(['00', '', '10']),
             'cha': r.choice(['HHZ', 'HHN', 'LHZ']),
             'rate': r.choice([.1, .5, 1.]),
             'offset': r.choice([0, 0, 0, .3]),
             'dtype': r.choice(['i4', 'i4', 'f4'])}
        if (c['net'], c['sta'], c['loc'], c['cha']) not in [
                (x['net'], x['sta'], x['loc'], x['cha']) for x in chans]:
            chans.append(c)
    mids = [-DAY, 0., 0., DAY, 2 * DAY]
    ops = []
    for _ in range(r.choice([1, 2, 3, 4, 5, 7])):
        parts = []
        for _ in range(r.choice([1, 1, 2, 3])):
            i = r.randrange(len(chans))
            m = r.choice(mids)
            dt = 1 / chans[i]['rate']
            kind = r.choice(['in', 'in', 'cross', 'upto', 'from', 'single',
                             'days'])
            a = m + r.uniform(300, 3000)
            if kind == 'cross':
                a = m - r.uniform(1, 20) * dt
            elif kind == 'from':
                a = m
            elif kind == 'upto':
                a = m - r.randrange(1, 50) * dt
            ln = r.randrange(2, 200) * dt
            if kind == 'upto':
                ln = m - a + r.choice([0, dt, dt])
            elif kind == 'cross':
                ln = max(ln, m - a + r.choice([0, dt, 20 * dt]))
            elif kind == 'single':
                a = m + r.choice([0., 500., -dt])
                ln = dt * .5
            elif kind == 'days':
                a, ln = m - 5 * dt, r.choice([DAY, 2 * DAY]) + 10 * dt
                if chans[i]['rate'] > .1:
                    a, ln = m - 5 * dt, 10 * dt
            parts.append([i, a, a + ln])
        if r.random() < .3 and ops:
            # again, or overlapping with something written before
            q = r.choice(r.choice(ops)['parts'])
            sh = r.choice([0, 5, -5]) / chans[q[0]]['rate']
            parts.append([q[0], q[1] + sh, q[2] + sh])
        ops.append({'parts': parts, 'new': r.random() < .3})
    faults = []
    if r.random() < .65:
        for j in r.sample(range(len(ops)), min(len(ops), r.choice([1, 1, 2]))):
            site = r.choice(SITES)
            acts = ['enospc', 'eio', 'interrupt', 'kill', 'memerr']
            if site == 'file.write':
                acts = ['short', 'short', 'torn', 'torn'] + acts
            elif site == 'file.open-w':
                acts += ['eacces', 'emfile']
            faults.append({'job': j + 1, 'site': site,
                           'nth': r.choice([1, 1, 2, 3, 4, 6, 9]),
                           'act': r.choice(acts),
                           'frac': r.choice([0., .3, .9])})
    return {'chans': chans, 'ops': ops, 'faults': faults, 'sched': seed,
            'data': seed, 'inv': r.random() < .5}


def shrink(sc):
    for i in range(len(sc['ops'])):
        if len(sc['ops']) > 1:
            s = copy.deepcopy(sc)
            del s['ops'][i]
            s['faults'] = [dict(f, job=f['job'] - (f['job'] > i + 1))
                           for f in s['faults'] if f['job'] != i + 1]
            yield s
    for i, f in enumerate(sc['faults']):
        s = copy.deepcopy(sc)
        del s['faults'][i]
        yield s
    for i, op in enumerate(sc['ops']):
        if len(op['parts']) > 1:
            for j in range(len(op['parts'])):
                s = copy.deepcopy(sc)
                del s['ops'][i]['parts'][j]
                yield s
    if sc['inv']:
        yield dict(sc, inv=False)


def run(sc, ctx):
    from seismic.trace_data.waveform import Store_Client
    arch = os.path.join(ctx.disk, 'arch')
    os.makedirs(os.path.join(arch, 'mseed'))
    mroot = os.path.join(arch, 'mseed')
    if sc['inv']:
        world.write_inventories(arch, sc['chans'])
    sim = ctx.newsim()
    must, may = {}, {}
    client = [None]
    for j, op in enumerate(sc['ops']):
        st = Stream()
        for i, a, b in op['parts']:
            if i < len(sc['chans']):
                st += world.chan_stream(sc['data'], sc['chans'][i], [[a, b]])
        if not len(st):
            sim.run_job(1, lambda rank: None)
            continue
        new = archive.smap(st)
        touched = any(i in must or i in may for i in new)

        def body(rank):
            if client[0] is None or op['new']:
                client[0] = Store_Client(None, arch)
            archive.store(client[0], st.copy())
            return True
        res = sim.run_job(1, body)
        what = 'write %d of %d (%s)' % (j + 1, len(sc['ops']), ', '.join(
            '%s %s - %s' % (tr.id, tr.stats.starttime, tr.stats.endtime)
            for tr in st))
        if res.outcome == 'ok':
            archive.add(must, new)
        else:
            client[0] = None
            fired = [f for f in sc['faults'] if f['job'] == j + 1]
            if not fired or not sum(sim.fired.values()):
                ctx.violation('refused', '%s failed without a fault: %s\n%s'
                              % (what, res.detail, (res.tbs[0] or '')[-900:]))
                return
            archive.add(may, new)
            ctx.nontrivial = True
        ctx.nontrivial = ctx.nontrivial or touched
        ctx.key(len(op['parts']), res.outcome, touched)
        ctx.probe('write %s' % res.outcome)
        with sim.bypass():
            have, bad, where = archive.tree(mroot)
            if bad:
                ctx.violation('damaged', 'after %s [%s]: %s' % (
                    what, res.detail or res.outcome, '; '.join(bad[:3])))
                return
            d = archive.compare(have, must, may, where)
            if d:
                ctx.violation(d[0], 'after %s [%s]: %s' % (
                    what, res.detail or res.outcome, d[1]))
                return
    # and once more the way users read it
    with sim.bypass():
        c = Store_Client(None, arch, read_only=True)
        got = {}
        for i in sorted(set(must) | set(may)):
            ks = list(must.get(i, {})) + list(may.get(i, {}))
            st = c.get_waveforms(
                *i.split('.'), UTCDateTime(world.T0 + min(ks) / 100 - 1),
                UTCDateTime(world.T0 + max(ks) / 100 + 1),
                _check_times=False)
            for tr in st:
                g = got.setdefault(tr.id, {})
                for t, v in archive.samples(tr):
                    g.setdefault(archive.tkey(t), set()).add(v)
        d = archive.compare(got, must, may)
        if d:
            ctx.violation('read-' + d[0], 'read through Store_Client: '
                          + d[1])
