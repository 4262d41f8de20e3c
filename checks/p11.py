"""P11: archive discovery lists exactly what is in the archive."""
import copy
import fnmatch
import os
import random
import re
import warnings

from obspy import UTCDateTime

from sim import world
from . import archive

RUNS = {'quick': 700, 'thorough': 20000}
RULE = (
    'scenario = archive with 1-4 stations in 1-2 networks (codes that are '
    'prefixes of each other), 1-4 channels, 1-6 days in up to three years '
    '(first and last day of the year included), folders left empty by '
    'interrupted writes, unrelated folders and files next to the years; '
    'queries for stations, wildcards, first and last day and windows, while '
    'another process may be writing to the archive at every interleaving of '
    'their file operations, directory order permuted, read errors. Oracle = '
    'the list of day files. A query during a write has to return at least '
    'what was there before and at most what is there afterwards. Folders '
    'without a file may, but need not, be listed. Non-trivial: a query that '
    'returned something. State = (query, number of hits, years, fault).')
REAL = ['seismic.trace_data.waveform.Store_Client', 'obspy SDS client and '
        'MSEED reader', 'files on tmpfs']
STUB = ['data provider', 'fault seams around files', 'directory order',
        'process scheduler']

JUNK = ['temp', '20200', 'exit', '1.20', 'logs', '0xff', '2020.bak', 'None',
        '12e3', '[1:]', 'a-b/c', '2020_old/XN/A/HHZ.D', 'data/XN/Q',
        'temp/XN/Q', '0012/XN/Q']
DAYS = [(2019, 1), (2019, 9), (2019, 100), (2019, 364), (2019, 365),
        (2020, 1), (2020, 2), (2020, 9), (2020, 10), (2020, 99),
        (2020, 366), (2021, 1), (2021, 30), (1999, 365)]


def gen(seed, tier):
    r = random.Random('p11-%s' % seed)
    stas = r.sample([('XN', 'A'), ('XN', 'AB'), ('XN', 'B'), ('X', 'A'),
                     ('Y', 'A'), ('Y', 'ABC')], r.choice([1, 2, 3, 4]))
    days = sorted(r.sample(DAYS, r.choice([1, 1, 2, 3, 4])))
    chans = []
    for n, s in stas:
        for cha in r.sample(['HHZ', 'HHN', 'HHE', 'LHZ', 'BH1'],
                            r.choice([1, 1, 2, 3])):
            d = [list(x) for x in days if r.random() < .7] or [
                list(r.choice(days))]
            chans.append({'net': n, 'sta': s, 'loc': r.choice(['', '00']),
                          'cha': cha, 'days': d})
    empty = []
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        n, s = r.choice(stas + [('XN', 'Q'), ('Q', 'A')])
        empty.append([r.choice(DAYS)[0], n, s,
                      r.choice(['HHZ', 'HHN', 'BHZ', None])])
    ops = []
    for _ in range(r.choice([3, 5, 8])):
        n, s = r.choice(stas + [('XN', 'Q')])
        k = r.choice(['stations', 'wild', 'wild', 'times', 'times',
                      'windows'])
        op = {'op': k, 'net': n, 'sta': s}
        if k == 'stations':
            op['net'] = r.choice([None, None, n, 'X*', '?', '*'])
        elif k == 'wild':
            op['net'] = r.choice([n, n, '*', n[0] + '*', '?'])
            op['sta'] = r.choice([s, s, '*', s[0] + '*', '?', 'A?'])
            op['comp'] = r.choice([None, 'Z', 'Z', 'N', '?', '1', '[ZN]'])
        elif k == 'windows':
            y, d = r.choice(days)
            op['cha'] = r.choice(chans)['cha']
            op['day'] = [y, d]
            op['a'] = r.choice([0., 3600., 90., -600., 80000.])
            op['inc'] = r.choice([60, 600, 3600, 86400, 50000, 86400])
            op['len'] = r.choice([.5, 1., 2., 2.5, 3., 4.9]) * op['inc']
        # the concurrent writer
        if r.random() < .3 and k != 'windows':
            c = r.choice(chans)
            y, d = r.choice(DAYS)
            op['write'] = {'net': c['net'] if r.random() < .7 else 'W',
                           'sta': c['sta'] if r.random() < .7 else 'W',
                           'loc': '', 'cha': r.choice([c['cha'], 'HHZ',
                                                       'HHN']),
                           'days': [[y, d]]}
        ops.append(op)
    # days without leading zeros; the SDS client does not find those
    bare = r.random() < .12
    if bare:
        for op in ops:
            op.pop('write', 0)
            if op['op'] == 'windows':
                op['op'] = 'times'
    faults = []
    if r.random() < .25:
        faults.append({'job': 1 + r.randrange(len(ops)), 'rank': r.choice(
            [0, 1]), 'site': r.choice(['file.open-r', 'file.open-w',
                                       'dir.make', 'file.rename', '*']),
            'nth': r.choice([1, 1, 2, 3]),
            'act': r.choice(['eio', 'eacces', 'emfile', 'interrupt'])})
    return {'chans': chans, 'empty': empty, 'ops': ops, 'faults': faults,
            'bare': bare, 'junk': [j for j in JUNK if r.random() < .12],
            'sched': seed, 'data': seed}


def shrink(sc):
    for i in range(len(sc['ops'])):
        if len(sc['ops']) > 1:
            s = copy.deepcopy(sc)
            del s['ops'][i]
            s['faults'] = [dict(f, job=f['job'] - (f['job'] > i + 1))
                           for f in s['faults'] if f['job'] != i + 1]
            yield s
    for k in ('empty', 'junk', 'faults', 'chans'):
        for i in range(len(sc[k])):
            if k == 'chans' and len(sc[k]) == 1:
                break
            s = copy.deepcopy(sc)
            del s[k][i]
            yield s
    for i, op in enumerate(sc['ops']):
        if 'write' in op:
            s = copy.deepcopy(sc)
            del s['ops'][i]['write']
            yield s
    for i, c in enumerate(sc['chans']):
        for j in range(len(c['days'])):
            if len(c['days']) > 1:
                s = copy.deepcopy(sc)
                del s['chans'][i]['days'][j]
                yield s


def day(y, d):
    return UTCDateTime(y, 1, 1) + (d - 1) * 86400


def stream(c, y, d, seed):
    ch = dict(c, rate=.05)
    t = day(y, d).timestamp - world.T0
    return world.chan_stream(seed, ch, [[t + 1200., t + 85000.]])


def listing(mroot):
    """{(year, doy, net, sta, cha)} and the folders without files"""
    files, folders = set(), set()
    for d, ds, fs in os.walk(mroot):
        p = os.path.relpath(d, mroot).split(os.sep)
        if len(p) in (3, 4) and re.match(r'^\d{4}$', p[0]):
            folders.add((p[0], p[1], p[2], p[3][:-2] if len(p) == 4
                         else None))
        for f in fs:
            m = archive.SDS.match(f)
            if m and len(p) == 4:
                files.add((int(m.group(5)), int(m.group(6)), p[1], p[2],
                           m.group(4)))
    return files, folders


def match(code, pattern):
    return pattern is None or fnmatch.fnmatchcase(code, pattern)


def expect(op, files, folders):
    """-> (must be listed, may be listed as well)"""
    if op['op'] == 'stations':
        must = {(n, s) for _, _, n, s, _ in files if match(n, op['net'])}
        may = {(n, s) for _, n, s, _ in folders if match(n, op['net'])}
    elif op['op'] == 'wild':
        def ok(n, s, c):
            return c and match(n, op['net']) and match(s, op['sta']) \
                and match(c, '??' + (op['comp'] or '?'))
        must = {(n, s, c) for _, _, n, s, c in files if ok(n, s, c)}
        may = {(n, s, c) for _, n, s, c in folders if ok(n, s, c)}
    else:
        must = sorted(x[:2] for x in files
                      if x[2:4] == (op['net'], op['sta']))
        may = None
    return must, may


def run(sc, ctx):
    from seismic.trace_data.waveform import Store_Client
    arch = os.path.join(ctx.disk, 'arch')
    mroot = os.path.join(arch, 'mseed')
    os.makedirs(mroot)
    for c in sc['chans']:
        for y, d in c['days']:
            for tr in stream(c, y, d, sc['data']):
                p = world.sds_path(mroot, tr)
                if sc['bare']:
                    p, x = p.rsplit('.', 1)
                    p += '.%d' % int(x)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                tr.write(p, format='MSEED')
    for y, n, s, c in sc['empty']:
        os.makedirs(os.path.join(mroot, str(y), n, s, *(
            [c + '.D'] if c else [])), exist_ok=True)
    for j in sc['junk']:
        os.makedirs(os.path.join(mroot, j), exist_ok=True)
    sim = ctx.newsim()
    for j, op in enumerate(sc['ops']):
        if op['op'] == 'windows' and not hasattr(
                Store_Client, '_generate_time_windows'):
            continue
        with sim.bypass():
            files0, folders0 = listing(mroot)
            before = archive.tree(mroot)[0] if op['op'] == 'windows' else None
        nfired = sum(sim.fired.values())

        def body(rank):
            if rank:
                w = op['write']
                k = Store_Client(None, arch)
                for y, d in w['days']:
                    archive.store(k, stream(w, y, d, sc['data']))
                return None
            k = Store_Client(None, arch, read_only=True)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if op['op'] == 'stations':
                    try:
                        return k.get_available_stations(op['net'])
                    except FileNotFoundError as e:
                        if e.errno:
                            raise
                        return []
                if op['op'] == 'wild':
                    a = (op['net'], op['sta'])
                    return k._translate_wildcards(*(
                        a if op['comp'] is None else a + (op['comp'],)))
                if op['op'] == 'times':
                    return k._get_times(op['net'], op['sta'])
                a = day(*op['day']) + op['a']
                return [smap1(st) for st in k._generate_time_windows(
                    op['net'], op['sta'], op['cha'], a, a + op['len'],
                    op['inc'])]
        res = sim.run_job(2 if 'write' in op else 1, body)
        fault = sum(sim.fired.values()) > nfired
        with sim.bypass():
            files1, folders1 = listing(mroot)
        what = 'query %d of %d: %s %s.%s %s' % (
            j + 1, len(sc['ops']), op['op'], op['net'], op['sta'],
            op.get('comp') or op.get('cha') or '')
        if res.excs[0] is not None or res.outcome not in ('ok', 'exception',
                                                          'interrupted'):
            if not fault:
                ctx.violation('refused', '%s failed: %s\n%s' % (
                    what, res.detail, (res.tbs[0] or '')[-1200:]))
                return
            ctx.probe('query failed')
            continue
        got = res.results[0]
        if got is None:        # interrupted before it began
            continue
        if fault and any(k.split('|')[-1] == 'dir.list' or 'dir.list' in
                         str(k) for k in sim.fired):
            # glob treats folders that cannot be listed as empty
            continue
        if 'write' in op:
            ctx.probe('while writing')
        if op['op'] in ('stations', 'wild'):
            must, _ = expect(op, files0, folders0)
            top, extra = expect(op, files1, folders1)
            g = [tuple(x) for x in got]
            if set(must) - set(g):
                ctx.violation('missing', '%s: %s not listed, returned %s' % (
                    what, sorted(set(must) - set(g)), sorted(set(g))))
                return
            if set(g) - set(top) - set(extra):
                ctx.violation('invented', '%s: %s listed, but not in the '
                              'archive' % (what, sorted(
                                  set(g) - set(top) - set(extra))))
                return
            if op['op'] == 'stations' and len(g) != len(set(g)):
                ctx.violation('twice', '%s: listed twice: %s' % (what, g))
                return
            hits = len(set(g))
        elif op['op'] == 'times':
            lo, _ = expect(op, files0, folders0)
            hi, _ = expect(op, files1, folders1)
            hits = len(lo)
            if not isinstance(got, tuple) or len(got) != 2:
                ctx.violation('type', '%s returned %r' % (what, got))
                return
            # days at which the first/last one may have been found
            ok0 = {day(*x[0]).timestamp for x in (lo, hi) if x}
            ok1 = {day(*x[-1]).timestamp + 86400 for x in (lo, hi) if x}
            n = [None if x is None else UTCDateTime(x).timestamp for x in got]
            if None in n:
                if lo or n != [None, None]:
                    ctx.violation('times', '%s: returned %s, there are files '
                                  'of %s' % (what, got, lo))
                    return
            elif n[0] not in ok0 or n[1] not in ok1:
                ctx.violation('times', '%s: returned %s, files are from days '
                              '%s to %s' % (
                                  what, [str(x) for x in got],
                                  (lo or hi)[0], (lo or hi)[-1]))
                return
        else:
            hits = windows(ctx, op, got, before, what)
            if hits is None:
                return
        ctx.nontrivial = ctx.nontrivial or hits > 0
        ctx.key(op['op'], min(hits, 3), len({x[0] for x in files0}),
                'write' in op, fault)


def smap1(st):
    return {i: dict(d) for i, d in archive.smap(st).items()}


def windows(ctx, op, got, have, what):
    n = 0
    while n * op['inc'] < op['len'] - 1e-6:
        n += 1
    if len(got) != n:
        ctx.violation('windows', '%s: %d windows of %d s for %d s' % (
            what, len(got), op['inc'], op['len']))
        return None
    a = day(*op['day']).timestamp + op['a'] - world.T0
    hits = 0
    for i, g in enumerate(got):
        lo = archive.tkey(a + i * op['inc'])
        hi = archive.tkey(a + (i + 1) * op['inc'])
        h = archive.tkey(10.) + 1     # obspy: nearest sample
        ids = [x for x in have if x.split('.')[:2] == [op['net'], op['sta']]
               and x.split('.')[3] == op['cha']]
        for x in sorted(set(ids) | set(g)):
            k0 = set(have.get(x, {})) if x in ids else set()
            k1 = set(g.get(x, {}))
            must = {k for k in k0 if lo + 1 < k < hi - 1}
            may = {k for k in k0 if lo - h <= k <= hi + h}
            if must - k1 or k1 - may:
                ctx.violation('windows', '%s: window %d of %d of %s (%s + %d '
                              's): %d samples missing, %d samples of other '
                              'times' % (
                                  what, i + 1, n, x, UTCDateTime(
                                      a + world.T0 + i * op['inc']),
                                  op['inc'], len(must - k1), len(k1 - may)))
                return None
            for k in k1:
                if have[x][k] != {g[x][k]}:
                    ctx.violation('windows', '%s: wrong sample' % what)
                    return None
            hits += len(k1)
    return hits
