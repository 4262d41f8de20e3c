"""P16: result files come back as they were saved, damaged ones never do."""
import copy
import fnmatch
import os
import random
import shutil
import warnings

import numpy as np

from . import dvgen, p15

RUNS = {'quick': 1400, 'thorough': 60000}
RULE = (
    'scenario = 1-6 result objects (dvs as made by stretching, shifts, clock '
    'drift, component, memory-saving and geographical averages; coherences '
    'with and without averages; correlation bulks after 0-3 processing steps; '
    'one or several windows; fractional times) saved by 1-3 processes, while '
    'one may read with wildcards; some are then overwritten with other '
    'results; faults during either (full disk, torn writes, failed '
    'allocation, kill); then files are damaged (cut at any byte, blocks '
    'zeroed, emptied) and read one by one and with wildcards. Oracle: the '
    'object in memory; what it does after the same operations. Non-trivial: '
    'at least one object reread. State = (kinds, windows, steps, processes, '
    'damages, faults).')
REAL = ['DV.save/read_dv', 'WFC.save/read_wfc',
        'CorrBulk.save/read_corr_bulk', 'npz helpers of miic_utils',
        'averages and CorrBulk methods', 'numpy npz on tmpfs']
STUB = ['MPI communicator', 'process schedule', 'directory order',
        'fault seams around files', 'file damage', 'wall clock']
DVS = ['plain', 'plain', 'none', 'coda', 'aligned', 'nosim', 'av', 'av-lean',
       'mem', 'geo', 'stretch', 'stretch', 'shift', 'clock']
WFCS = ['plain', 'noav', 'comp', 'many']
BULKS = ['plain', 'plain', 'chans']
STEPS = ['normalize', 'smooth', 'envelope', 'mirror', 'trim', 'filter',
         'taper', 'clip']
PATTERNS = ['*', '*.npz', 'x/*', 'D*', '%s*', '*HH?*', '?V*', '*.??Z-*']


def gen(seed, tier):
    r = random.Random('p16-%s' % seed)
    items = []
    for i in range(r.choice([1, 2, 3, 4, 6])):
        kind = r.choice(['dv', 'dv', 'dv', 'wfc', 'wfc', 'bulk'])
        sub = r.choice({'dv': DVS, 'wfc': WFCS, 'bulk': BULKS}[kind])
        items.append({
            'kind': kind, 'sub': sub, 'seed': r.randrange(10**6),
            'nwin': r.choice([1, 1, 2, 5]), 'off': r.choice(
                [0, 0, .5, .123456, 1e-6]),
            'gap': r.random() < .3, 'ext': r.random() < .3,
            'steps': r.sample(STEPS, r.choice([0, 1, 2, 3]))
            if kind == 'bulk' else [],
            'cha': r.choice(['HHZ-HHZ', 'HHE-HHN', 'BHZ-BHZ']),
            'rank': r.randrange(3), 'again': r.random() < .35,
            'damage': None})
    for it in items:
        if r.random() < .35:
            how = r.choice(['cut', 'cut', 'cut', 'zero', 'zeros', 'tail',
                            'empty', 'directory'])
            it['damage'] = {'how': how, 'at': r.choice(
                [r.random(), r.random(), .999]), 'n': r.choice(
                    [1, 2, 7, 64, 600])}
    faults = []
    if r.random() < .45:
        for _ in range(r.choice([1, 1, 2])):
            site, act = r.choice([
                ('file.open-w', 'enospc'), ('file.open-w', 'eacces'),
                ('file.write', 'enospc'), ('file.write', 'eio'),
                ('file.write', 'short'), ('file.write', 'torn'),
                ('file.open-w', 'memerr'), ('*', 'kill'),
                ('file.write', 'kill'), ('file.open-r', 'eio'),
                ('file.write', 'interrupt')])
            f = {'site': site, 'nth': r.choice([1, 2, 3, 5, 9, 17, 30]),
                 'act': act, 'job': r.choice([1, 1, 2, 2, 3])}
            if act in ('short', 'torn'):
                f['frac'] = r.choice([0., .3, .7])
            faults.append(f)
    return {'items': items, 'size': r.choice([1, 1, 2, 3]),
            'reader': r.random() < .5, 'rrank': r.randrange(3),
            'nread': r.choice([1, 3, 6]),
            'pattern': r.choice(PATTERNS), 'faults': faults, 'sched': seed}


def shrink(sc):
    if len(sc['items']) > 1:
        for i in range(len(sc['items'])):
            s = copy.deepcopy(sc)
            del s['items'][i]
            yield s
    for k, v in (('faults', []), ('reader', False), ('size', 1),
                 ('pattern', '*')):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    for i, it in enumerate(sc['items']):
        for k, v in (('damage', None), ('again', False), ('steps', []),
                     ('off', 0), ('gap', False), ('ext', False)):
            if it[k] != v:
                s = copy.deepcopy(sc)
                s['items'][i][k] = v
                yield s


# ---------------------------------------------------------------- objects
def bulk(it, seed):
    from seismic.correlate.stream import CorrStream
    f = {'net': 'XN-XN', 'sta': 'A-B', 'rate': 4., 'dist': 3.}
    n = it['nwin'] + (1 if it['gap'] else 0)
    cs = [it['cha']] + (['BHE-BHZ'] if it['sub'] == 'chans' else [])
    trs = []
    for i, c in enumerate(cs):
        trs += dvgen.corr_traces(f, {
            'cha': c, 'gaps': [0] if it['gap'] else [], 'step': n // 2,
            'eps': 2, 'seed': seed + i, 'noise': .1}, n, 10, .002)
    for tr in trs:
        tr.stats.corr_start += it['off']
        tr.stats.corr_end += it['off']
    if it['sub'] == 'chans':
        # as they come from the database
        cb = CorrStream(trs).create_corr_bulk(inplace=False)
    else:
        cb = CorrStream(trs).create_corr_bulk(
            network='XN-XN', station='A-B', channel=it['cha'], inplace=False)
    return cb


STEP = {
    'normalize': lambda b: b.normalize(normtype='absmax'),
    'smooth': lambda b: b.smooth(3),
    'envelope': lambda b: b.envelope(),
    'mirror': lambda b: b.mirror(),
    'trim': lambda b: b.trim(-5, 5),
    'filter': lambda b: b.filter((.3, 1.)),
    'taper': lambda b: b.taper(2),
    'clip': lambda b: b.clip(2.)}


def dv_plain(it, seed, cha=None, gap=True):
    dv = p15.make_dv({
        'seed': seed, 'bad': None, 'net': 'XN-XN', 'sta': 'A-A',
        'cha': cha or it['cha'],
        'gaps': [0] if it['gap'] and it['nwin'] > 1 and gap else []},
        it['nwin'])
    for k in ('corr_start', 'corr_end'):
        dv.stats[k] = [t + it['off'] for t in dv.stats[k]]
    return dv


def make(it, version):
    from seismic.monitor import monitor as mon
    seed = it['seed'] + 7919 * version
    sub = it['sub']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if it['kind'] == 'bulk':
            cb = bulk(it, seed)
            for s in it['steps']:
                if s != 'smooth' or it['nwin'] >= 3:
                    STEP[s](cb)
            return cb
        if it['kind'] == 'wfc':
            out = []
            for i in range(2 if sub == 'comp' else 1):
                cb = bulk(dict(it, sub='plain'), seed + i)
                if sub == 'many' and it['nwin'] > 1:
                    tr = cb.extract_multi_trace(win_inc=[3600.])
                else:
                    tr = cb.extract_multi_trace(win_inc=0)
                w = cb.wfc(tr, [np.arange(4, 20)], 'both', 1, 4, .2, .5)
                if sub != 'noav':
                    w.compute_average()
                out.append(w)
            if sub == 'comp':
                w = mon.average_components_wfc(out)
                w.compute_average()
            return w
        if sub in ('stretch', 'shift', 'clock'):
            cb = bulk(dict(it, sub='plain'), seed)
            if sub == 'stretch':
                return cb.stretch(
                    ref_trc=cb.extract_multi_trace(win_inc=0),
                    tw=[np.arange(4, 20)], stretch_steps=21,
                    return_sim_mat=seed % 2 == 0, processing={
                        'freq_min': .1, 'freq_max': .2, 'tw_start': 1,
                        'tw_len': 4, 'sides': 'both'})
            return (cb.measure_shift if sub == 'shift'
                    else cb.find_clock_shift)(
                        shift_range=2, shift_steps=11,
                        return_sim_mat=seed % 2 == 0)
        dv = dv_plain(it, seed)
        if sub == 'none':
            dv.dv_processing = [None, {}][seed % 2]
        elif sub == 'coda':
            dv.dv_processing['tw_len'] = None
        elif sub == 'aligned':
            dv.dv_processing.update(aligned=True, sides='right')
        elif sub == 'nosim':
            dv.sim_mat = np.array([])
        elif sub in ('av', 'av-lean', 'mem', 'geo'):
            dvs = [dv_plain(it, seed + i, c, i == 0) for i, c in enumerate(
                ['HHZ-HHZ', 'HHE-HHE', 'HHN-HHN'])]
            if sub == 'geo':
                dv = mon.average_dvs_by_coords(
                    dvs, (-90, 90), (-180, 180), return_std=seed % 2 == 0)
            elif sub == 'mem':
                dv = mon.average_components_mem_save(dvs)
            else:
                dv = mon.average_components(dvs, save_scatter=sub == 'av')
        return dv


def norm(v):
    from obspy import UTCDateTime
    if isinstance(v, UTCDateTime):
        return 't%.5f' % round(v.timestamp, 5)
    if isinstance(v, dict):
        return {str(k): norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return [norm(x) for x in v.ravel()]
        if v.ndim == 0:
            return v.item()
        return ['a', v.shape, v.tolist()]
    if isinstance(v, np.generic):
        return v.item()
    return v


def one_str(v):
    return str(np.asarray(v).ravel()[0])


def canon(o, kind):
    """Everything the object holds"""
    c = {'stats.' + k: norm(v) for k, v in dict(o.stats).items()}
    if not hasattr(o.stats, 'corr_start'):
        c['stats'] = 'no CorrStats but %s' % type(o.stats).__name__
    if kind == 'bulk':
        c['data'] = norm(np.asarray(o.data))
    elif kind == 'wfc':
        c.update({k: norm(np.asarray(v)) for k, v in o.items()})
        c.update({k: norm(np.asarray(v)) for k, v in o.av.items()})
        c['mean'] = norm(np.asarray(o.mean))
        c['proc'] = norm(o.wfc_processing)
    else:
        for k in ('corr', 'value', 'sim_mat', 'second_axis', 'stretches',
                  'corrs', 'n_stat', 'avail'):
            v = getattr(o, k)
            c[k] = None if v is None else norm(np.asarray(v))
        c['type'] = one_str(o.value_type)
        c['method'] = one_str(o.method)
        c['proc'] = norm(o.dv_processing or {})
        if c['proc']:
            c['proc'].setdefault('sides', 'unknown')
            c['proc'].setdefault('aligned', False)
    return c


def diff(a, b):
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k, '(missing)'), b.get(k, '(missing)')
        # nan equals nan here
        if repr(x) != repr(y) and x != y:
            return '%s: %s came back as %s' % (
                k, repr(x)[:160], repr(y)[:160])
    return None


def name(it, i):
    return '%s-XN-XN.%d.%s' % (
        {'dv': 'DV', 'wfc': 'WFC', 'bulk': 'CB'}[it['kind']], i, it['cha'])


def reader(kind):
    from seismic.correlate.stream import read_corr_bulk
    from seismic.monitor.dv import read_dv
    from seismic.monitor.wfc import read_wfc
    return {'dv': read_dv, 'wfc': read_wfc, 'bulk': read_corr_bulk}[kind]


def uses(o, kind):
    """What the object does"""
    from seismic.monitor import monitor as mon
    from seismic.monitor.wfc import WFCBulk
    out = {}

    def attempt(what, fn):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                out[what] = fn(copy.deepcopy(o))
            except Exception as e:
                out[what] = 'raises ' + type(e).__name__
    if kind == 'dv':
        attempt('str', lambda o: len(str(o)) > 0)
        attempt('average', lambda o: canon(
            mon.average_components([o, o]), 'dv'))

        def smooth(o):
            o.smooth_sim_mat(3)
            return canon(o, 'dv')
        attempt('smooth', smooth)
    elif kind == 'wfc':
        attempt('bulk', lambda o: norm(WFCBulk([o]).wfc))
        attempt('average', lambda o: canon(
            mon.average_components_wfc([o, o]), 'wfc'))
    else:
        for s in sorted(STEP):
            def step(o, s=s):
                STEP[s](o)
                return canon(o, 'bulk')
            attempt(s, step)
        attempt('stream', lambda o: [
            (norm(tr.data), norm(dict(tr.stats)))
            for tr in o.create_corr_stream()])
        attempt('stretch', lambda o: canon(o.stretch(
            ref_trc=o.extract_multi_trace(win_inc=0), stretch_steps=11,
            tw=[np.arange(4, 12)]), 'dv'))
        attempt('select', lambda o: canon(o.slice(
            o.stats.corr_start[0], o.stats.corr_end[0]), 'bulk'))
    return out


def hurt(p, dmg):
    n = os.path.getsize(p)
    how = dmg['how']
    at = int(dmg['at'] * n)
    with open(p, 'r+b') as fh:
        if how == 'cut':
            fh.truncate(max(min(at, n - 1), 0))
        elif how == 'tail':
            fh.truncate(max(n - dmg['n'], 0))
        elif how == 'empty':
            fh.truncate(0)
        elif how == 'zero':
            # a block that was never written
            at = at // 512 * 512
            fh.seek(at)
            fh.write(bytes(min(512, n - at)))
        elif how == 'zeros':
            at = at // 512 * 512
            fh.seek(at)
            fh.write(bytes(n - at))
        elif how == 'directory':
            # the size was known, the last bytes were not written
            k = min(dmg['n'], n)
            fh.seek(n - k)
            fh.write(bytes(k))


def run(sc, ctx):
    d = os.path.join(ctx.disk, 'res')
    sub = os.path.join(ctx.disk, 'x')
    os.makedirs(d)
    os.makedirs(sub)
    items = sc['items']
    size = sc['size']
    sim = ctx.newsim(preempt=.3)
    paths = [os.path.join(d, name(it, i)) for i, it in enumerate(items)]
    with sim.bypass():
        objs = [[make(it, v) for v in (0, 1)] for it in items]
        want = [[canon(o, it['kind']) for o in os_]
                for it, os_ in zip(items, objs)]
    # contents every file may have now
    may = [set() for _ in items]

    def get(fn, p):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return fn(p)

    def which(i, o):
        """Which versions of item i is it?"""
        c = canon(o, items[i]['kind'])
        return {v for v in (0, 1) if diff(want[i][v], c) is None}

    def pattern(kind):
        p = sc['pattern'].replace('x/', '')
        pre = {'dv': 'DV', 'wfc': 'WFC', 'bulk': 'CB'}[kind]
        p = p % pre if '%s' in p else p
        if not fnmatch.fnmatchcase(pre + '-', p[:2] + '*'):
            p = pre + '*'
        if not p.startswith(('D', 'W', 'C')):
            p = pre + '-' + p
        # read_wfc only knows the asterisk
        return p.replace('?', '*') if kind == 'wfc' else p

    def wild(kind):
        return os.path.join(d, pattern(kind))

    def match(kind):
        return [i for i, it in enumerate(items) if it['kind'] == kind and
                fnmatch.fnmatchcase(name(it, i) + '.npz', pattern(kind))]

    def judge_list(kind, lst, where, sure, possible, lost=0):
        """Exactly the intact files, each as it was saved"""
        found = []
        for o in lst:
            hit = None
            for i in sorted(possible, key=lambda i: i not in sure):
                if i not in found and which(i, o) & (may[i] | new[i]):
                    hit = i
                    break
            if hit is None:
                ctx.violation('list', '%s: %s returned something that was '
                              'not saved: %s' % (
                                  where, pattern(kind), str(canon(
                                      o, kind))[:400]))
                return False
            found.append(hit)
        miss = [i for i in sure if i not in found]
        if len(miss) > lost:
            ctx.violation('skipped', '%s: %s did not return %s' % (
                where, pattern(kind), [name(items[i], i) for i in miss]))
            return False
        return True

    new = [set() for _ in items]
    killed = False
    for job in (1, 2):
        todo = [i for i, it in enumerate(items)
                if job == 1 or it['again']]
        if job == 2 and not todo and not sc['reader']:
            continue
        new = [{job - 1} if i in todo else set()
               for i in range(len(items))]
        done = [None] * len(items)     # None: never tried, else ok or error
        seen = []

        def body(rank):
            if sc['reader'] and rank == sc['rrank'] % size and (
                    size > 1 or job == 2):
                for _ in range(sc['nread']):
                    for kind in ('dv', 'wfc'):
                        try:
                            seen.append((kind, get(reader(kind), wild(
                                kind)), None))
                        except Exception as e:
                            seen.append((kind, None, e))
            for i in todo:
                if items[i]['rank'] % size == rank:
                    p = paths[i] + ('.npz' if items[i]['ext'] else '')
                    done[i] = 'trying'
                    try:
                        objs[i][job - 1].save(p)
                    except Exception as e:
                        done[i] = e
                    else:
                        done[i] = 'ok'
            return True
        before = dict(sim.fired)
        res = sim.run_job(size, body)
        fired = {k: v - before.get(k, 0) for k, v in sim.fired.items()
                 if v > before.get(k, 0)}
        killed = res.outcome == 'killed'
        where = 'job %d (%d processes, faults %s)' % (job, size, fired)
        if res.outcome not in ('ok', 'killed', 'interrupted') and not any(
                isinstance(e, KeyboardInterrupt) for e in res.excs):
            ctx.violation('aborted', '%s: %s %s\n%s' % (
                where, res.outcome, res.detail, ''.join(
                    t or '' for t in res.tbs)[-900:]))
            return
        for kind, lst, exc in seen:
            # files that exist are only replaced as a whole
            ok = [i for i in match(kind) if may[i] and None not in may[i]]
            if exc is not None:
                if fired or (isinstance(exc, FileNotFoundError) and not ok):
                    continue
                ctx.violation('reading', '%s: %s raised %s: %s' % (
                    where, pattern(kind), type(exc).__name__, exc))
                return
            if not judge_list(kind, lst, where + ', while saving', ok,
                              match(kind), sum(fired.values())):
                return
        for i in todo:
            lost = set() if may[i] and None not in may[i] else {None}
            if done[i] == 'ok' and not killed:
                may[i] = {job - 1}
            elif done[i] == 'ok':
                # the snapshot may be older
                may[i] = may[i] | {job - 1} | lost
            elif done[i] is None:
                may[i] = may[i] or {None}
            else:
                if isinstance(done[i], Exception) and not fired:
                    ctx.violation('save', '%s: saving %s raised %s: %s' % (
                        where, name(items[i], i), type(done[i]).__name__,
                        done[i]))
                    return
                may[i] = may[i] | {job - 1} | lost
        new = [set() for _ in items]
        for i, it in enumerate(items):
            x = diff(want[i][job - 1], canon(objs[i][job - 1], it['kind']))
            if x:
                ctx.violation('altered', '%s: saving changed %s: %s' % (
                    where, name(it, i), x))
                return
        extra = sorted(set(os.listdir(d)) - {
            os.path.basename(p) + '.npz' for p in paths})
        if killed:
            # nobody could tidy up, but it must not look like a result
            extra = [x for x in extra if x.endswith('.npz')]
        if extra:
            ctx.violation('unexpected', '%s: %s in the folder' % (
                where, extra))
            return
        if killed:
            break
    with sim.bypass():
        for i, it in enumerate(items):
            p = paths[i] + '.npz'
            if it['damage'] and os.path.isfile(p):
                hurt(p, it['damage'])
                may[i] = may[i] | {None}
                ctx.probe('damaged', 1)
    # read all of them
    got = {}
    lists = {}

    def read(rank):
        for i, it in enumerate(items):
            try:
                got[i] = get(reader(it['kind']), paths[i] + '.npz')
            except Exception as e:
                got[i] = e
        for kind in ('dv', 'wfc'):
            try:
                lists[kind] = get(reader(kind), wild(kind))
            except Exception as e:
                lists[kind] = e
        return True
    before = dict(sim.fired)
    while sim.job_no < 2:
        sim.run_job(1, lambda rank: True)
    res = sim.run_job(1, read)
    fired = {k: v - before.get(k, 0) for k, v in sim.fired.items()
             if v > before.get(k, 0)}
    if res.outcome != 'ok':
        if not fired:
            ctx.violation('aborted', 'reading: %s %s' % (
                res.outcome, res.detail))
        return
    nre = 0
    for i, it in enumerate(items):
        o = got.get(i)
        who = '%s (%s %s, %d windows, damage %s)' % (
            name(it, i), it['kind'], it['sub'], it['nwin'], it['damage'])
        if isinstance(o, Exception):
            if None not in may[i] and not fired:
                ctx.violation('unreadable', '%s: %s: %s' % (
                    who, type(o).__name__, o))
                return
            may[i] = may[i] if fired else {None}
            continue
        c = canon(o, it['kind'])
        ds = [diff(want[i][v], c) for v in sorted(may[i] - {None})]
        if all(ds):
            ctx.violation('round-trip' if not it['damage'] else 'damaged',
                          '%s: %s' % (who, ds[0] if ds else 'unexpected'))
            return
        v = sorted(may[i] - {None})[ds.index(None)]
        if not fired:
            may[i] = {v}
        nre += 1
        # as good as the one that was saved
        with sim.bypass():
            a, b = uses(objs[i][v], it['kind']), uses(o, it['kind'])
            for k in sorted(a):
                if repr(a[k]) != repr(b[k]) and a[k] != b[k]:
                    x = diff(a[k], b[k]) if isinstance(
                        a[k], dict) and isinstance(b[k], dict) else \
                        '%s / %s' % (str(a[k])[:200], str(b[k])[:200])
                    ctx.violation('use', '%s: %s of the object read back '
                                  'differs: %s' % (who, k, x))
                    return
            p = os.path.join(sub, '%d' % i)
            try:
                o.save(p)
                x = diff(want[i][v], canon(get(reader(
                    it['kind']), p + '.npz'), it['kind']))
            except Exception as e:
                x = '%s: %s' % (type(e).__name__, e)
            if x:
                ctx.violation('again', '%s: saved and read once more: %s' % (
                    who, x))
                return
    for kind, lst in sorted(lists.items()):
        sure = [i for i in match(kind) if None not in may[i]]
        if isinstance(lst, Exception):
            if fired or (isinstance(lst, FileNotFoundError) and not sure):
                continue
            ctx.violation('reading', '%s raised %s: %s' % (
                pattern(kind), type(lst).__name__, lst))
            return
        if not judge_list(kind, lst, 'after the runs', sure, match(kind),
                          sum(fired.values())):
            return
    ctx.probe('objects reread', nre)
    ctx.nontrivial = nre > 0
    ctx.key(sorted((it['kind'], it['sub'], it['nwin'], len(it['steps']),
                    it['again'], str(it['damage'] and it['damage']['how']))
                   for it in items), size, sc['reader'],
            sorted(map(str, sim.fired)))
    shutil.rmtree(sub)
