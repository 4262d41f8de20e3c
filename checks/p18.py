"""P18: the file system client returns exactly the requested samples."""
import copy
import datetime
import os
import random
import warnings

from obspy import Stream, UTCDateTime

from sim import world
from . import archive
from .p09 import inside

RUNS = {'quick': 700, 'thorough': 20000}
RULE = (
    'scenario = file structure descriptor (minute, hour, half day, day, week, '
    'month, year or no time placeholders in several notations and orders, ID placeholders in upper and lower '
    'case, with text replacement, one or several channels per file), 2-5 '
    'consecutive files around the turn of an hour, day, month, year or leap '
    'day, file borders exact or a few samples off, gaps, files missing, '
    'other channels and stations with similar names; requests (inside a '
    'file, across borders, starting or ending on the first or last sample of '
    'a file), trimmed or not, read errors. Oracle = the samples that were '
    'written. Non-trivial: samples were returned. State = (granularity, '
    'files touched, offset of the borders, gaps).')
REAL = ['seismic.trace_data.waveform.FS_Client and read_from_filesystem',
        'obspy MSEED reader', 'files on tmpfs']
STUB = ['fault seams around files', 'directory order']

TIMES = {
    'minute': [['%Y', '%j', ['T', '%H', '-', '%M']],
               [['T', '%M', '-', '%H'], ['%d', '%b', '%Y']],
               ['%Y%m', ['%-d', '_', '%-H', '_', '%-M']]],
    'hour': [['%Y', '%j', ['T', '%H']], ['%Y', '%m', '%d', ['T', '%H']],
             ['%y', '%j', ['T', '%p', '-', '%I']],
             ['%y', '%j', ['T', '%I', '-', '%p']],
             ['%Y', '%m', '%-d', ['T', '%-H']],
             [['T', '%H', '_', '%d', '.', '%m', '.', '%Y']]],
    'half': [['%Y', '%j', ['T', '%p']], ['%p', ['T', '%Y', '_', '%j']]],
    'day': [['%Y', ['T', '%j']], ['%Y', '%b', ['T', '%d']],
            ['%Y', '%m', ['T', '%d']], ['%y', ['T', '%j']],
            ['%Y', '%m', ['%a', 'T', '%d']], ['%Y', ['T', '%-j']],
            ['%Y', '%-m', ['T', '%-d']], ['%Y', '%U', ['T', '%w']],
            ['%Y', '%W', ['T', '%A']], ['%Y', '%W', ['T', '%a']],
            ['%j', ['T', '%Y']], [['T', '%d', '.', '%m', '.', '%Y']],
            ["%b('a','o')", ['T', '%d', '_', '%y']],
            ['%Y', "%m('0','-')", ["%d('1','x')", 'T']]],
    'weekU': [['%Y', ['T', '%U']], ['%U', ['T', '%y']]],
    'weekW': [['%Y', ['T', '%W']]],
    'month': [['%Y', ['T', '%m']], ['%Y', ['T', '%b']],
              ['%y', ['T', '%B']], ['%Y', ['T', '%-m']],
              ['%m', ['T', '%Y']]],
    'year': [[['T', '%Y']], [['T', '%y']]],
    'none': [[['all']]],
}
# sampling interval in s
DT = {'minute': .5, 'hour': 10., 'half': 100., 'day': 200., 'weekU': 800.,
      'weekW': 800., 'month': 2000., 'year': 20000., 'none': 100.}
IDS = {
    'full': ['%NET', '%STA', ['%LOC', '_', '%CHA']],
    'lower': [['%net', '.', '%sta'], ['%loc', '.', '%cha']],
    'noloc': ['data', '%STA', ['%NET', '.', '%CHA']],
    'replace': [['%NET', '_', "%STA('A','a-')"], ["%CHA('HH','x')"]],
    'cut': ['%NET', '%STA', ["%CHA('HH','')", '.', '%LOC']],
    'multi': ['%NET', '%STA'],
}
STARTS = [(2019, 12, 31), (2020, 1, 1), (2020, 1, 31), (2020, 2, 28),
          (2020, 2, 29), (2020, 3, 31), (2020, 11, 30), (2020, 12, 31),
          (2021, 2, 28), (2020, 5, 15), (2019, 10, 31)]


def gen(seed, tier):
    r = random.Random('p18-%s' % seed)
    gran = r.choice(['minute', 'hour', 'hour', 'half', 'day', 'day', 'day',
                     'sds', 'weekU', 'weekW', 'month', 'year', 'none'])
    fs = None
    idk = 'full'
    if gran != 'sds':
        idk = r.choice(sorted(IDS))
        t = copy.deepcopy(r.choice(TIMES[gran]))
        i = copy.deepcopy(IDS[idk])
        # the last element is the file
        if r.random() < .5:
            fs = t[:-1] + i[:-1] + [lst(i[-1]) + ['_'] + lst(t[-1])]
        else:
            fs = i[:-1] + t[:-1] + [lst(t[-1]) + ['_'] + lst(i[-1]) + [
                r.choice(['.mseed', ''])]]
    g = 'day' if gran == 'sds' else gran
    y, m, d = r.choice(STARTS)
    h = {'hour': r.choice([0, 5, 22, 23, 11, 12]), 'half': r.choice([0, 12]),
         'minute': r.choice([0, 11, 23])}.get(g, 0)
    t0 = UTCDateTime(y, m, d, h, r.choice([0, 30, 57, 58, 59]) * (
        g == 'minute'))
    n = r.choice([2, 3, 4, 5])
    edges = borders(t0, g, n)
    dt = DT[g]
    a, b = edges[0].timestamp - world.T0, edges[-1].timestamp - world.T0
    span = [a + r.choice([0, 0, 7.3]) * dt, b - r.choice([0, 0, 9.6]) * dt]
    segs = [span]
    w = b - a
    if r.random() < .4:
        x = r.uniform(a + .1 * w, b - .2 * w)
        segs = [[span[0], x], [x + r.choice([3 * dt, 20 * dt, .3 * w]),
                               span[1]]]
    segs = [x for x in segs if x[1] - x[0] > 3 * dt]
    chans = []
    same = idk == 'multi'
    # an empty location code is common
    l0 = r.choice(['00', '00', ''])
    for i, (net, sta, loc, cha) in enumerate(
            [('XN', 'A', l0, 'HHZ')] + r.sample(
                [('XN', 'A', l0, 'HHN'), ('XN', 'AB', '00', 'HHZ'),
                 ('XN', 'B', '00', 'HHZ'), ('X', 'A', '00', 'HHZ')] + (
                    [('XN', 'A', '10', 'HHZ')] if idk in (
                        'full', 'lower', 'cut', 'multi') else []),
                r.choice([0, 1, 2]))):
        s = segs if same or i == 0 or r.random() < .5 else [[a, b]]
        chans.append({'net': net, 'sta': sta, 'loc': loc, 'cha': cha,
                      'rate': 1 / dt, 'segs': copy.deepcopy(s),
                      'dtype': 'i4'})
    r.shuffle(chans)
    ops = []
    for _ in range(r.choice([2, 4, 6])):
        e = r.choice(edges).timestamp - world.T0
        p = r.choice([e, e, r.uniform(a, b), a - 5 * dt])
        s = p + r.choice([-1, -.4, 0, 0, .3, 1, 2.4, -6, -20]) * dt
        k = r.choice(['short', 'border', 'long', 'edge', 'all'])
        if k == 'short':
            q = s + r.choice([2, 5, 10.3]) * dt
        elif k == 'border':
            q = s + r.choice([25, 40]) * dt
        elif k == 'long':
            q = s + r.uniform(.2, .9) * w
        elif k == 'edge':
            q = r.choice(edges).timestamp - world.T0 + r.choice(
                [-1, 0, 0, .4, 1, 2]) * dt
        else:
            s, q = a - dt, b + dt
        if q - s < 2 * dt:
            q = s + 3 * dt
        ops.append({'ch': r.randrange(len(chans)), 'a': round(s, 2),
                    'b': round(q, 2), 'trim': r.random() < .85})
    faults = []
    if r.random() < .1:
        faults.append({'job': 1 + r.randrange(len(ops)),
                       'site': r.choice(['file.open-r', '*']),
                       'nth': r.choice([1, 2, 3, 5]),
                       'act': r.choice(['eio', 'eacces', 'emfile'])})
    return {'fs': fs, 'gran': g, 'id': idk, 'edges': [
        e.timestamp - world.T0 for e in edges], 'chans': chans,
        'slop': r.choice([0, 0, 0, 1, 3, -1, -3]), 'ops': ops,
        'hole': r.choice([None] * 6 + [1, 2]), 'faults': faults,
        'sched': seed, 'data': seed}


def lst(x):
    return x if isinstance(x, list) else [x]


def borders(t, g, n):
    """n consecutive files: their n + 1 borders"""
    if g.startswith('week'):
        # weeks begin on Sundays or Mondays, and with the year
        out, t = [], UTCDateTime(t.year, t.month, t.day)
        while len(out) < n + 1:
            if t.strftime('%w') == '01'[g == 'weekW'] or t.julday == 1:
                out.append(t)
            t += 86400
        return out
    return [border(t, g, k) for k in range(n + 1)]


def border(t, g, k):
    step = {'minute': 60, 'hour': 3600, 'half': 43200, 'day': 86400,
            'none': 86400}
    if g in step:
        return t + k * step[g]
    y, m = t.year, t.month - 1
    if g == 'month':
        m += k
    else:
        y, m = y + k, 0
    return UTCDateTime(y + m // 12, m % 12 + 1, 1)


def shrink(sc):
    for i in range(len(sc['ops'])):
        if len(sc['ops']) > 1:
            s = copy.deepcopy(sc)
            del s['ops'][i]
            s['faults'] = [dict(f, job=f['job'] - (f['job'] > i + 1))
                           for f in s['faults'] if f['job'] != i + 1]
            yield s
    for k, v in (('faults', []), ('slop', 0), ('hole', None)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    for i in range(len(sc['chans'])):
        if len(sc['chans']) > 1:
            s = copy.deepcopy(sc)
            del s['chans'][i]
            for o in s['ops']:
                o['ch'] = max(0, o['ch'] - (o['ch'] > i)) % len(s['chans'])
            yield s
    for i, c in enumerate(sc['chans']):
        if len(c['segs']) > 1 and sc['id'] != 'multi':
            s = copy.deepcopy(sc)
            del s['chans'][i]['segs'][1]
            yield s


def name(fs, c, t):
    """Path of a file, written down from the documentation"""
    if fs is None:
        return os.path.join(
            str(t.year), c['net'], c['sta'], c['cha'] + '.D',
            '%s.%s.%s.%s.D.%d.%03d' % (c['net'], c['sta'], c['loc'],
                                       c['cha'], t.year, t.julday))
    up = {'%NET': c['net'], '%STA': c['sta'], '%LOC': c['loc'],
          '%CHA': c['cha']}
    up.update({k.lower(): v.lower() for k, v in list(up.items())})
    out = []
    for level in fs:
        s = ''
        for p in lst(level):
            if '(' in p:
                p, rep = p[:-1].split('(')
                x, y = [q.strip("'") for q in rep.split(',')]
                s += (up[p] if p in up else t.datetime.strftime(p)).replace(
                    x, y)
            elif p in up:
                s += up[p]
            else:
                s += t.datetime.strftime(p)
        out.append(s)
    return os.path.join(*out)


def run(sc, ctx):
    from seismic.trace_data.waveform import FS_Client
    root = os.path.join(ctx.disk, 'raw')
    dt = DT[sc['gran']]
    files, stored = {}, {}
    many = sc['gran'] != 'none'
    edges = sc['edges'] if many else [sc['edges'][0], sc['edges'][-1]]
    for c in sc['chans']:
        st = world.chan_stream(sc['data'], c, c['segs'])
        for k in range(len(edges) - 1):
            if many and sc['hole'] == k:
                continue
            lo = UTCDateTime(world.T0 + edges[k] + sc['slop'] * dt * (k > 0))
            hi = UTCDateTime(world.T0 + edges[k + 1] + sc['slop'] * dt)
            p = name(sc['fs'], c, UTCDateTime(world.T0 + edges[k]))
            for tr in st.slice(lo, hi - dt / 2, nearest_sample=False):
                if tr.stats.npts and tr.stats.starttime < hi - dt / 4:
                    files.setdefault(p, Stream()).append(tr.copy())
                    archive.add(stored, archive.smap([tr]))
    for p in sorted(files):
        os.makedirs(os.path.dirname(os.path.join(root, p)), exist_ok=True)
        files[p].write(os.path.join(root, p), format='MSEED')
    fs = root if sc['fs'] is None else [root] + copy.deepcopy(sc['fs'])
    sim = ctx.newsim()
    for j, op in enumerate(sc['ops']):
        c = sc['chans'][op['ch']]
        id_ = '.'.join((c['net'], c['sta'], c['loc'], c['cha']))
        a, b = UTCDateTime(world.T0 + op['a']), UTCDateTime(
            world.T0 + op['b'])
        nfired = sum(sim.fired.values())

        def body(rank):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return FS_Client(fs).get_waveforms(
                    c['net'], c['sta'], c['loc'], c['cha'], a, b,
                    trim=op['trim'])
        res = sim.run_job(1, body)
        fault = sum(sim.fired.values()) > nfired
        what = 'request %d of %d for %s %s - %s (files %s%s)' % (
            j + 1, len(sc['ops']), id_, a, b, sc['fs'] or 'SDS',
            '' if op['trim'] else ', untrimmed')
        if res.outcome != 'ok':
            if not fault:
                ctx.violation('refused', '%s: %s\n%s' % (
                    what, res.detail, (res.tbs[0] or '')[-900:]))
                return
            ctx.probe('request failed')
            continue
        if any('dir.list' in str(k) for k in sim.fired):
            # glob treats folders that cannot be listed as empty
            continue
        got = archive.smap(res.results[0])
        if set(got) - {id_}:
            ctx.violation('other-channel', '%s: returned %s' % (
                what, sorted(got)))
            return
        g = got.get(id_, {})
        have = stored.get(id_, {})
        want, opt = inside(have, op['a'], op['b'], dt)
        # the ends belong to the interval
        want.update({k: v for k, v in have.items() if archive.tkey(
            op['a']) <= k <= archive.tkey(op['b'])})
        if not op['trim']:
            opt = have
        lost = sorted(set(want) - set(g))
        if lost:
            ctx.violation('incomplete', '%s: %d of %d samples missing, first '
                          '%s, last %s' % (
                              what, len(lost), len(want),
                              UTCDateTime(lost[0] / 100 + world.T0),
                              UTCDateTime(lost[-1] / 100 + world.T0)))
            return
        for k in sorted(g):
            if k not in opt or opt[k] != g[k]:
                ctx.violation('wrong-sample', '%s: sample at %s is %s, '
                              'stored %s' % (
                                  what, UTCDateTime(k / 100 + world.T0),
                                  g[k], opt.get(k)))
                return
        n = sum(archive_npts(tr) for tr in res.results[0])
        if n != len(g):
            ctx.violation('twice', '%s: %d samples at %d times' % (
                what, n, len(g)))
            return
        k = sum(1 for e in edges if op['a'] < e <= op['b'])
        ctx.nontrivial = ctx.nontrivial or bool(g)
        ctx.key(sc['gran'], sc['id'], min(k, 3), sc['slop'] != 0,
                len(c['segs']) > 1, op['trim'])


def archive_npts(tr):
    return len(archive.samples(tr))
