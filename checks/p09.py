"""P09: waveform requests are served completely and cached correctly."""
import copy
import os
import random

from obspy import Stream, UTCDateTime

from sim import world
from . import archive

RUNS = {'quick': 800, 'thorough': 20000}
RULE = (
    'scenario = provider with 1-3 channels over 1-3 days (gaps, several '
    'stations and locations, nothing at all), history of 2-8 requests '
    '(repeated, nested, overlapping, adjacent, across midnight) by clients '
    'that are reopened at random, read-only or not, with provider errors '
    '(no data, service error, timeout) and disk faults while storing; oracle '
    '= provider model and sample map of what was delivered. Non-trivial: a '
    'request served from the archive. State = (source, position relative to '
    'what is stored).')
REAL = ['seismic.trace_data.waveform.Store_Client', 'obspy MSEED reader and '
        'writer, SDS client', 'files on tmpfs']
STUB = ['data provider (FDSN client)', 'fault seams around files', 'clock']

DAY = 86400.


def gen(seed, tier):
    r = random.Random('p09-%s' % seed)
    chans = []
    lo, hi = -3000., r.choice([4000., 4000., DAY + 4000.])
    for _ in range(r.choice([1, 1, 2, 3])):
        rate = r.choice([.1, .5, 1.]) if hi < DAY else .1
        c = {'net': 'XN', 'sta': r.choice(['A', 'AB']),
             'loc': r.choice(['00', '00', '']), 'cha': r.choice(
                 ['HHZ', 'HHN', 'LHZ']), 'rate': rate,
             'offset': r.choice([0, 0, .3]),
             'dtype': r.choice(['i4', 'f4'])}
        k = r.random()
        if k < .6:
            c['segs'] = [[lo, hi]]
        elif k < .9:
            h = r.uniform(lo + 100, hi - 500)
            c['segs'] = [[lo, h], [h + r.choice([5., 50., 400.]), hi]]
        else:
            c['segs'] = []
        if (c['sta'], c['loc'], c['cha']) not in [
                (x['sta'], x['loc'], x['cha']) for x in chans]:
            chans.append(c)
    ops = []
    for _ in range(r.choice([2, 3, 4, 5, 6, 8])):
        i = r.randrange(len(chans))
        dt = 1 / chans[i]['rate']
        old = [o for o in ops if o['ch'] == i]
        k = r.random()
        if old and k < .65:
            p = r.choice(old)
            a, b = p['a'], p['b']
            how = r.choice(['same', 'in', 'left', 'right', 'around', 'after',
                            'before', 'edge', 'edge'])
            w = b - a
            if how == 'in':
                a, b = a + r.uniform(0, w / 3), b - r.uniform(0, w / 3)
            elif how == 'left':
                a, b = a - r.uniform(0, 500), b - r.uniform(0, w / 2)
            elif how == 'right':
                a, b = a + r.uniform(0, w / 2), b + r.uniform(0, 500)
            elif how == 'around':
                a, b = a - r.uniform(0, 300), b + r.uniform(0, 300)
            elif how == 'after':
                a, b = b + r.choice([0, dt, dt / 2, 300.]), b + 700.
            elif how == 'before':
                a, b = a - 700., a - r.choice([0, dt, dt / 2, 300.])
            elif how == 'edge':
                a += r.choice([-1, -.5, 0, .5, 1, -2]) * dt
                b += r.choice([-1, -.5, 0, .5, 1, 2]) * dt
        else:
            a = r.choice([r.uniform(lo - 100, hi), round(
                r.uniform(lo, hi) * chans[i]['rate']) / chans[i]['rate'],
                -20., 0.])
            b = a + r.choice([r.uniform(2 * dt, 2000),
                              r.randrange(2, 300) * dt])
        if b - a < dt:
            b = a + 3 * dt
        ops.append({'ch': i, 'a': round(a, 3), 'b': round(b, 3),
                    'new': r.random() < .3, 'ro': r.random() < .12,
                    'attach': r.random() < .7,
                    'absent': r.random() < .06})
    plan, faults = {}, []
    if r.random() < .3:
        plan[str(r.randrange(4))] = r.choice(sorted(archive.NET_FAULTS))
    if r.random() < .1:
        plan['s%d' % r.randrange(2)] = r.choice(sorted(archive.NET_FAULTS))
    if r.random() < .3:
        site = r.choice(['file.open-w', 'file.write', 'file.rename',
                         'dir.make', 'file.open-r', '*'])
        acts = ['enospc', 'eio', 'interrupt', 'kill', 'memerr']
        if site == 'file.write':
            acts = ['short', 'torn'] + acts
        faults.append({'job': 1 + r.randrange(len(ops)), 'site': site,
                       'nth': r.choice([1, 1, 2, 3, 5]),
                       'act': r.choice(acts), 'frac': r.choice([0., .5])})
    return {'chans': chans, 'ops': ops, 'plan': plan, 'faults': faults,
            'sched': seed, 'data': seed, 'inv': r.random() < .6,
            'meta': r.choice(['full', 'full', 'full', 'none', 'noresp'])}


def shrink(sc):
    for i in range(len(sc['ops'])):
        if len(sc['ops']) > 1:
            s = copy.deepcopy(sc)
            del s['ops'][i]
            s['faults'] = [dict(f, job=f['job'] - (f['job'] > i + 1))
                           for f in s['faults'] if f['job'] != i + 1]
            yield s
    if sc['plan']:
        yield dict(sc, plan={})
    if sc['meta'] != 'full':
        yield dict(sc, meta='full')
    if sc['faults']:
        yield dict(sc, faults=[])
    for i, op in enumerate(sc['ops']):
        for k in ('new', 'ro', 'absent'):
            if op[k]:
                s = copy.deepcopy(sc)
                s['ops'][i][k] = False
                yield s


def inside(d, a, b, dt):
    """
    Samples between a and b, and those that may be returned in addition:
    obspy cuts at the sample closest to the requested time.
    """
    ka, kb, h = archive.tkey(a), archive.tkey(b), archive.tkey(dt / 2) + 1
    return {k: v for k, v in d.items() if ka + 1 < k < kb - 1}, \
        {k: v for k, v in d.items() if ka - h <= k <= kb + h}


def run(sc, ctx):
    from seismic.trace_data.waveform import Store_Client
    arch = os.path.join(ctx.disk, 'arch')
    mroot = os.path.join(arch, 'mseed')
    os.makedirs(mroot)
    if sc['inv']:
        os.makedirs(os.path.join(arch, 'inventory'))
        world.inventory(sc['chans'], response=True).write(
            os.path.join(arch, 'inventory', 'XN.all.xml'),
            format='STATIONXML')
    prov = archive.Provider(sc['data'], sc['chans'], sc['plan'],
                            sc['meta'])
    full = {}
    for c in sc['chans']:
        archive.add(full, archive.smap(
            world.chan_stream(sc['data'], c, c['segs'])))
    sim = ctx.newsim()
    must, may = {}, {}
    client, blind = {}, {}
    for j, op in enumerate(sc['ops']):
        c = sc['chans'][op['ch']]
        cha = 'HHX' if op['absent'] else c['cha']
        id_ = '.'.join((c['net'], c['sta'], c['loc'], cha))
        a, b = UTCDateTime(world.T0 + op['a']), UTCDateTime(
            world.T0 + op['b'])
        dt = 1 / c['rate']
        want, opt = inside(full.get(id_, {}), op['a'], op['b'], dt)
        ncall = len(prov.calls)
        ndel = len(prov.delivered)
        nfired = sum(sim.fired.values())

        opened = op['ro'] not in client or op['new']

        def body(rank):
            if opened:
                client[op['ro']] = Store_Client(
                    prov, arch, read_only=op['ro'])
            return client[op['ro']].get_waveforms(
                c['net'], c['sta'], c['loc'], cha, a, b,
                attach_response=op['attach'])
        res = sim.run_job(1, body)
        what = 'request %d of %d for %s %s - %s' % (
            j + 1, len(sc['ops']), id_, a, b)
        fault = sum(sim.fired.values()) > nfired
        if opened:
            # a folder that cannot be listed looks empty to glob
            blind[op['ro']] = fault
        plan = any(sc['plan'].get(str(n)) not in (None, 'nodata')
                   for n in range(ncall, len(prov.calls))) or any(
            k.startswith('s') for k in sc['plan'])
        asked = len(prov.calls) > ncall
        for st in prov.delivered[ndel:]:
            archive.add(may, archive.smap(st))
        # all of it had been stored before this request
        stored, _ = inside(must.get(id_, {}), op['a'], op['b'], dt)
        cached = bool(stored) and set(want) <= set(stored)
        cached = cached and (
            min(stored) / 100 - op['a'] < dt - .01
            and op['b'] - max(stored) / 100 < dt - .01)
        if res.outcome != 'ok':
            client.clear()
            if not fault and not plan:
                ctx.violation('refused', '%s failed without a fault: %s\n%s'
                              % (what, res.detail, (res.tbs[0] or '')[-900:]))
                return
            ctx.probe('request failed')
        else:
            st = res.results[0]
            if not isinstance(st, Stream):
                ctx.violation('type', '%s: returned %r' % (what, st))
                return
            got = archive.smap(st)
            ids = set(got) - {id_}
            if ids:
                ctx.violation('other-channel', '%s: returned %s' % (
                    what, ids))
                return
            g = got.get(id_, {})
            for k in g:
                if k not in opt or opt[k] != g[k]:
                    ctx.violation('wrong-sample', '%s: sample at %s is %s, '
                                  'provider has %s' % (
                                      what, UTCDateTime(k / 100 + world.T0),
                                      g[k], opt.get(k)))
                    return
            n = sum(tr.stats.npts for tr in st)
            lost = sorted(set(want) - set(g))
            failed = asked and not len(prov.delivered) > ndel
            if lost and failed and sc['plan'].get(str(ncall)) == 'nodata':
                # provider claimed that it has nothing
                if g:
                    ctx.violation('nodata', '%s: %d samples although the '
                                  'provider has none' % (what, n))
                    return
            elif lost and not asked and g and min(g) < lost[0] and not \
                    set(lost) & set(must.get(id_, {})) \
                    and lost[-1] < max(g):
                ctx.violation('hole-between-fetches', (
                    '%s: %d samples the provider has are missing between '
                    'locally stored ones, provider not asked' % (
                        what, len(lost))))
            elif lost:
                ctx.violation('incomplete', '%s: %d of %d samples missing, '
                              'first %s; provider asked: %s, %d returned' % (
                                  what, len(lost), len(want), UTCDateTime(
                                      lost[0] / 100 + world.T0), asked, n))
                return
            if cached and asked:
                ctx.violation('asked-again', '%s: everything was stored, but '
                              'the provider was asked again' % what)
                return
            if op['attach'] and not asked and sc['inv'] and not blind[
                    op['ro']] and any(
                        'response' not in tr.stats for tr in st):
                ctx.violation('no-response', '%s: the response is known but '
                              'not attached' % what)
                return
            if asked and len(prov.delivered) > ndel and not op['ro']:
                archive.add(must, archive.smap(prov.delivered[-1]))
            if not asked and n:
                ctx.nontrivial = True
            ctx.probe('from provider' if asked else 'from archive')
            ctx.key(asked, bool(n), cached, len(must.get(id_, {})) > 0)
        with sim.bypass():
            have, bad, where = archive.tree(mroot)
            if bad:
                ctx.violation('damaged', 'after %s [%s]: %s' % (
                    what, res.detail or res.outcome, '; '.join(bad[:3])))
                return
            d = archive.compare(have, must, may, where)
            if d:
                ctx.violation('archive-' + d[0], 'after %s [%s]: %s' % (
                    what, res.detail or res.outcome, d[1]))
                return
