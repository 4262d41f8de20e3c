"""P10: station metadata once obtained is never lost."""
import copy
import os
import random

from obspy import UTCDateTime

from sim import world
from . import archive

RUNS = {'quick': 700, 'thorough': 20000}
RULE = (
    'scenario = provider with 1-3 stations, 1-3 channels, 1-2 epochs, that '
    'may stop to offer a channel; '
    'history of 2-8 steps: waveform requests that fetch missing responses, '
    'station metadata requests, re-reading, reopening, by two clients on one '
    'archive; provider errors and disk faults (short/torn writes, full disk, '
    'Ctrl-C, kill) while the metadata is stored. Oracle = set of (channel, '
    'epoch, gain). Non-trivial: an update of a station that is stored '
    'already or a fired fault. State = (step kind, stored before, outcome).')
REAL = ['seismic.trace_data.waveform.Store_Client', 'obspy StationXML reader '
        'and writer', 'files on tmpfs']
STUB = ['data provider', 'fault seams around files (StationXML is written '
        'through the simulated disk in three parts)', 'clock']

SPLIT = 5000.      # end of the first epoch


def gen(seed, tier):
    r = random.Random('p10-%s' % seed)
    chans = []
    for net, sta in r.sample([('XN', 'A'), ('XN', 'AB'), ('YP', 'A')],
                             r.choice([1, 2, 2, 3])):
        for cha in r.sample(['HHZ', 'HHN', 'HHE'], r.choice([1, 2, 3])):
            chans.append({'net': net, 'sta': sta, 'loc': '00', 'cha': cha,
                          'rate': .5, 'segs': [[-2000., 20000.]],
                          'epochs': r.choice([1, 1, 2])})
            if r.random() < .15:
                # both of them open-ended
                chans[-1]['epochs'] = 3
            if r.random() < .15:
                # another sensor with the same channel code
                chans.append(dict(chans[-1], loc='10',
                                  epochs=r.choice([1, 2, 3])))
    if r.random() < .3:
        # no longer offered by the provider
        r.choice(chans)['gone'] = r.choice([1, 1, 2, 3])
    ops = []
    for _ in range(r.choice([2, 3, 4, 5, 6, 8])):
        k = r.choice(['wave', 'wave', 'wave', 'select', 'reread', 'wave'])
        c = r.randrange(len(chans))
        a = r.choice([100., 300., 8000., 9000., 4900.]) + 10 * len(ops)
        ops.append({'op': k, 'ch': c, 'a': a, 'cl': r.randrange(2),
                    'new': r.random() < .25, 'attach': r.random() < .6})
    faults, plan = [], {}
    if r.random() < .55:
        site = r.choice(['file.open-w', 'file.write', 'file.write',
                         'file.rename', 'file.open-r', '*'])
        acts = ['enospc', 'eio', 'interrupt', 'kill', 'memerr']
        if site == 'file.write':
            acts = ['short', 'torn', 'torn'] + acts
        for j in r.sample(range(len(ops)), r.choice([1, 1, 2])):
            faults.append({'job': 1 + j, 'site': site,
                           'nth': r.choice([1, 1, 2, 3, 5]),
                           'act': r.choice(acts),
                           'frac': r.choice([0., .5])})
    if r.random() < .2:
        plan['s%d' % r.randrange(3)] = r.choice(sorted(archive.NET_FAULTS))
    return {'chans': chans, 'ops': ops, 'faults': faults, 'plan': plan,
            'sched': seed, 'data': seed, 'empty': r.random() < .2}


def shrink(sc):
    for i in range(len(sc['ops'])):
        if len(sc['ops']) > 1:
            s = copy.deepcopy(sc)
            del s['ops'][i]
            s['faults'] = [dict(f, job=f['job'] - (f['job'] > i + 1))
                           for f in s['faults'] if f['job'] != i + 1]
            yield s
    if sc['plan']:
        yield dict(sc, plan={})
    for i in range(len(sc['faults'])):
        s = copy.deepcopy(sc)
        del s['faults'][i]
        yield s
    for i, op in enumerate(sc['ops']):
        if op['cl'] or op['new']:
            s = copy.deepcopy(sc)
            s['ops'][i].update(cl=0, new=False)
            yield s


def egain(c, e):
    return world.gain(c['net'], c['sta'], c['cha'] + 'ab'[e] + (
        '' if c['loc'] == '00' else c['loc']))


class Meta(archive.Provider):
    """Provider that knows epochs and filters by the requested times."""
    def get_stations(self, network='*', station='*', channel='*',
                     starttime=None, endtime=None, **kw):
        import fnmatch
        from obspy.clients.fdsn.header import FDSNNoDataException
        n = 's%d' % len(self.inv_calls)
        self.inv_calls.append((network, station, channel))
        f = self.plan.get(n)
        if f:
            raise archive.NET_FAULTS[f]()
        inv, new = None, {}
        for c in self.chans:
            if not (fnmatch.fnmatch(c['net'], network)
                    and fnmatch.fnmatch(c['sta'], station)
                    and fnmatch.fnmatch(c['cha'], channel)):
                continue
            if len(self.inv_calls) > c.get('gone', 1e9):
                continue
            for e in range(min(c['epochs'], 2)):
                t0 = UTCDateTime(2000, 1, 1) if not e else UTCDateTime(
                    world.T0 + SPLIT)
                t1 = UTCDateTime(world.T0 + SPLIT) if (
                    not e and c['epochs'] == 2) else None
                if endtime is not None and t0 > endtime:
                    continue
                if starttime is not None and t1 and t1 < starttime:
                    continue
                one = world.inventory([c], response=True)
                x = one[0][0][0]
                x.start_date, x.end_date = t0, t1
                x.response.response_stages[0].stage_gain = egain(c, e)
                inv = one if inv is None else merged(inv, one)
                new[key(c, t0, t1)] = egain(c, e)
        if inv is None:
            raise FDSNNoDataException('no metadata')
        self.offered = new
        return inv


def merged(a, b):
    """obspy delivers a station once"""
    for n in b:
        for s in n:
            for m in a:
                for q in m:
                    if (m.code, q.code) == (n.code, s.code):
                        q.channels.extend(s.channels)
                        return a
    for n in b:
        for m in a:
            if m.code == n.code:
                m.stations.extend(n.stations)
                return a
    return a + b


def key(c, t0, t1):
    return '%s.%s.%s.%s %s %s' % (
        c['net'], c['sta'], c['loc'], c['cha'], t0, t1)


def entries(inv):
    out = {}
    for n in inv:
        for s in n:
            for c in s:
                k = '%s.%s.%s.%s %s %s' % (
                    n.code, s.code, c.location_code, c.code, c.start_date,
                    c.end_date)
                r = c.response
                out.setdefault(k, set()).add(
                    r.response_stages[0].stage_gain
                    if r and r.response_stages else None)
    return out


def check(ctx, inv, must, may, what):
    have = entries(inv)
    for k in sorted(must):
        if k not in have:
            ctx.violation('lost', '%s: response of %s is gone (%d of %d '
                          'stored ones left)' % (
                              what, k, len(set(must) & set(have)),
                              len(must)))
            return False
    for k in sorted(have):
        want = must.get(k, may.get(k))
        if want is None:
            ctx.violation('invented', '%s: %s was never obtained' % (what, k))
            return False
        if have[k] != {want}:
            ctx.violation('wrong', '%s: response of %s has gain %s, obtained '
                          '%s' % (what, k, have[k], want))
            return False
    return True


def run(sc, ctx):
    from seismic.trace_data.waveform import Store_Client
    arch = os.path.join(ctx.disk, 'arch')
    os.makedirs(os.path.join(arch, 'mseed'))
    if sc['empty']:
        os.makedirs(os.path.join(arch, 'inventory'))
    prov = Meta(sc['data'], sc['chans'], sc['plan'])
    sim = ctx.newsim()
    must, may = {}, {}
    cl, own = {}, {0: {}, 1: {}}
    for j, op in enumerate(sc['ops']):
        c = sc['chans'][op['ch'] % len(sc['chans'])]
        w = op['cl']
        nfired = sum(sim.fired.values())
        prov.offered = {}
        ninv = len(prov.inv_calls)
        a = UTCDateTime(world.T0 + op['a'])

        opened = op['new'] or cl.get(w) is None

        def body(rank):
            if opened:
                cl[w] = None
                cl[w] = Store_Client(prov, arch)
                own[w] = dict(must)
            k = cl[w]
            if op['op'] == 'wave':
                st = k.get_waveforms(
                    c['net'], c['sta'], c['loc'], c['cha'], a, a + 100,
                    attach_response=op['attach'])
                return [(tr.id, tr.stats.get('response')) for tr in st]
            if op['op'] == 'select':
                return k.select_inventory_or_load_remote(c['net'], c['sta'])
            if not must:
                return None
            return k.read_inventory()
        res = sim.run_job(1, body)
        fault = sum(sim.fired.values()) > nfired
        asked = len(prov.inv_calls) > ninv
        what = 'step %d of %d (%s %s.%s.%s by client %d) [%s]' % (
            j + 1, len(sc['ops']), op['op'], c['net'], c['sta'], c['cha'], w,
            res.detail or res.outcome)
        if fault and opened:
            # a folder that cannot be listed looks empty to glob
            own[w] = {}
        again = any(x.split('.')[:2] == [c['net'], c['sta']] for x in must)
        ctx.nontrivial = ctx.nontrivial or fault or (
            again and bool(prov.offered))
        ctx.key(op['op'], again, res.outcome, bool(prov.offered))
        if res.outcome == 'ok':
            if prov.offered:
                must.update(prov.offered)
                own[w].update(prov.offered)
                ctx.probe('metadata obtained')
            if op['op'] == 'reread':
                own[w] = dict(must)
            r = res.results[0]
            if op['op'] == 'select' and r is not None:
                e = entries(r)
                if not e and not (asked and not prov.offered):
                    ctx.violation('select', '%s returned nothing' % what)
                    return
                if asked and not prov.offered:
                    continue
                bad = [k for k in e if k.split('.')[:2] != [
                    c['net'], c['sta']]]
                if bad:
                    ctx.violation('select', '%s returned %s' % (what, bad))
                    return
            if op['op'] == 'wave' and op['attach'] and not sc['plan']:
                e = 1 if c['epochs'] == 2 and op['a'] > SPLIT else 0
                ok = {egain(c, e)}
                if c['epochs'] == 3 and op['a'] > SPLIT:
                    ok.add(egain(c, 1))
                for i, resp in r:
                    if resp is None and c.get('gone'):
                        continue
                    if resp is None or resp.response_stages[0].stage_gain \
                            not in ok:
                        ctx.violation('attached', '%s: %s has %s' % (
                            what, i, 'no response' if resp is None else
                            'the response of another channel or time'))
                        return
        else:
            cl.clear()
            own = {0: {}, 1: {}}
            may.update({k: v for k, v in prov.offered.items()
                        if k not in must})
            if not fault and not (asked and (
                    sc['plan'] or op['op'] == 'select'
                    and not prov.offered)):
                ctx.violation('refused', '%s\n%s' % (
                    what, (res.tbs[0] or '')[-900:]))
                return
        with sim.bypass():
            try:
                f = Store_Client(prov, arch, read_only=True)
            except Exception as e:
                ctx.violation('unreadable', 'after %s a client cannot be '
                              'opened: %s: %s' % (what, type(e).__name__, e))
                return
            if not check(ctx, f.inventory, must, may, 'after %s, new client'
                         % what):
                return
            for k, v in own.items():
                if cl.get(k) is not None and not check(
                        ctx, cl[k].inventory, v, dict(may, **must),
                        'after %s, client %d' % (what, k)):
                    return
