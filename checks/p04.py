"""P04: the correlation database is a write-once map with exact retrieval."""
import copy
import fnmatch
import os
import random

import numpy as np

from sim import world

RUNS = {'quick': 900, 'thorough': 30000}
RULE = (
    'scenario = history of sessions (open, add traces/streams, exact and '
    'wildcard reads in both station orders, listings, removals, close) on one '
    'correlation file, each session optionally with a fault (failed '
    'allocation, full disk, I/O error, Ctrl-C inside an update, kill after '
    'it); oracle = dictionary. Non-trivial: at least two records written and '
    'read back. State = (set of keys held, last request).')
REAL = ['seismic.db.corr_hdf5', 'seismic.correlate.stream.CorrTrace/'
        'CorrStream', 'h5py/HDF5 files on tmpfs']
STUB = ['MPI communicator (one rank)', 'fault seams around h5py',
        'wall clock']
LEVEL = 'exploration'

PAIRS = [
    ('AB-AB', 'S1-S1'), ('AB-CD', 'S1-S2'), ('AB-CD', 'S10-S2'),
    ('X-X', 'ST-STA1'), ('X-XN', 'AB-AB'), ('AB-AB', 'S1-S2')]
CHANS = ['HHZ-HHZ', 'HHE-HHN', 'HHE-HHZ', 'BHZ-HHZ', 'BH1-BH2']
TAGS = ['subdivision', 'stack_240', 'stack_2400', 'stack_sub']
SITES = ['h5.create', 'h5.create', 'h5.attr', 'h5.attr', 'h5.delete',
         'h5.open', '*']


def key_of(r, pairs, chans):
    net, sta = r.choice(pairs)
    cha = r.choice(chans)
    t = r.randrange(0, 14) * 30
    if r.random() < .2:
        t += r.choice([.001, .5, 86400., 86400. * 60])
    d = r.choice([60., 60., 60., 59.5])
    return [r.choice(TAGS[:r.choice([1, 2, 4])]), net, sta, cha, t, t + d]


def gen(seed, tier):
    r = random.Random('p04-%s' % seed)
    pairs = r.sample(PAIRS, r.choice([1, 1, 1, 2, 3]))
    chans = r.sample(CHANS, r.choice([1, 2, 3, 5]))
    keys = [key_of(r, pairs, chans) for _ in range(r.choice([3, 6, 12]))]
    sessions = []
    for _ in range(r.choice([1, 2, 3, 4, 6])):
        ops = []
        for _ in range(r.choice([1, 2, 4, 8])):
            ops.append(op(r, keys, pairs, chans))
        s = {'ops': ops, 'mode': r.choice(['a', 'a', 'a', 'r+', 'r']),
             'compression': r.choice(['gzip3', 'gzip9', None])}
        sessions.append(s)
    faults = []
    for j in range(len(sessions)):
        if r.random() < .45:
            site = r.choice(SITES)
            act = r.choice(['memerr', 'enospc', 'eio', 'interrupt', 'kill'])
            faults.append({'job': j + 1, 'site': site, 'act': act,
                           'nth': r.choice([1, 1, 2, 3, 5, 9, 20, 40])})
    return {'sessions': sessions, 'faults': faults, 'seed': seed,
            'sched': seed, 'preempt': 0.}


def op(r, keys, pairs, chans):
    x = r.random()
    if x < .42:
        n = r.choice([1, 1, 1, 2, 4])
        ks = [r.choice(keys) for _ in range(n)]
        k0 = ks[0]
        ks = [[k0[0]] + k[1:] for k in ks]   # one tag per call
        return {'op': 'add', 'keys': ks, 'val': r.randrange(10**6),
                'npts': r.choice([1, 7, 41, 41, 41, 300]),
                'dtype': r.choice(['f4', 'f8', 'f8', 'i4']),
                'nan': r.random() < .1,
                'trace': n == 1 and r.random() < .5}
    k = r.choice(keys)
    if x < .55:
        return {'op': 'get1', 'key': k, 'flip': r.random() < .4}
    if x < .75:
        tag, net, sta, cha, a, b = k
        w = {'op': 'get', 'tag': tag, 'net': wild(r, net),
             'sta': wild(r, sta), 'cha': wild(r, cha),
             'flip': r.random() < .25,
             'start': a if r.random() < .2 else None,
             'end': b if r.random() < .15 else None}
        if r.random() < .12:
            w['tag'] = r.choice(['*', 'stack*', 'stack_???', '*_240'])
        return w
    if x < .83:
        return {'op': 'starts', 'tag': k[0], 'net': k[1], 'sta': k[2],
                'cha': r.choice([k[3], '*', wild(r, k[3]),
                                 [k[3], r.choice(chans)]])}
    if x < .89:
        return {'op': 'chans', 'tag': k[0], 'net': k[1], 'sta': k[2]}
    d = {'op': 'rm', 'key': k, 'flip': r.random() < .3}
    y = r.random()
    if y < .5:
        d['how'] = 'utc'
    elif y < .65:
        d['how'] = 'exact'
    elif y < .75:
        d['how'] = 'all'
    else:
        d['how'] = 'pat'
        d['cut'] = r.randrange(4, 16)
        d['q'] = r.random() < .5
    return d


def wild(r, code):
    x = r.random()
    if x < .4:
        return code
    if x < .6:
        return '*'
    a, b = code.split('-')
    y = r.random()
    if y < .3:
        return a + '-*'
    if y < .6:
        return '*-' + b
    if y < .8:
        return a[:-1] + '*-' + b
    return a[:-1] + '?-' + b[:-1] + '?'


def shrink(sc):
    for i in range(len(sc['sessions'])):
        if len(sc['sessions']) > 1:
            s = copy.deepcopy(sc)
            del s['sessions'][i]
            s['faults'] = [
                dict(f, job=f['job'] - (f['job'] > i + 1))
                for f in s['faults'] if f['job'] != i + 1]
            yield s
        for j in range(len(sc['sessions'][i]['ops'])):
            s = copy.deepcopy(sc)
            del s['sessions'][i]['ops'][j]
            yield s


def co():
    return {'subdir': 'corr', 'sampling_rate': 2, 'preProcessing': [],
            'subdivision': {'corr_inc': 60, 'corr_len': 60},
            'corr_args': {'lengthToSave': 10}}


def make(k, o, i):
    from obspy import UTCDateTime
    from seismic.correlate.stream import CorrTrace
    tag, net, sta, cha, a, b = k
    rs = np.random.RandomState((o['val'] + i) % 2**31)
    d = rs.normal(size=o['npts']) * 1000
    d = d.astype(o['dtype'])
    if o['nan'] and o['dtype'] != 'i4':
        d[0] = np.nan
    t0 = world.T0
    return CorrTrace(d, _header={
        'network': net, 'station': sta, 'channel': cha,
        'location': '00-00', 'sampling_rate': [1., 2., .5][o['val'] % 3],
        'corr_start': UTCDateTime(t0 + a), 'corr_end': UTCDateTime(t0 + b),
        'start_lag': -float(o['val'] % 7), 'stla': o['val'] / 7.,
        'stlo': -3.5, 'evla': 1. / 3, 'evlo': float('nan'),
        'dist': 1e-3 * o['val'], 'az': 12., 'baz': 13.,
        'processing': ['a', 'b %d' % o['val']][:o['val'] % 3],
        'note': 'x' * (o['val'] % 5)})


def snap(tr):
    """comparable form of a record"""
    h = {}
    for k, v in dict(tr.stats).items():
        if k in ('endtime', 'end_lag', 'delta', 'npts', '_format'):
            continue
        h[k] = repr(list(v)) if isinstance(v, (list, tuple, np.ndarray)) \
            else (repr(float(v)) if isinstance(v, (int, float, np.number))
                  else str(v))
    d = np.asarray(tr.data)
    return (d.dtype.str, d.shape, d.tobytes(), tuple(sorted(h.items())))


def rkey(tr, tag):
    s = tr.stats
    return (tag, s.network, s.station, s.channel,
            s.corr_start.format_fissures(), s.corr_end.format_fissures())


def fis(t):
    from obspy import UTCDateTime
    return UTCDateTime(world.T0 + t).format_fissures()


def ckey(k):
    return (k[0], k[1], k[2], k[3], fis(k[4]), fis(k[5]))


def flipped(*codes):
    return ['-'.join(c.split('-')[::-1]) for c in codes]


def forms(net, sta, cha):
    """The request as given and with the two stations exchanged."""
    out = [(net, sta, cha)]
    if all('-' in c or c == '*' for c in (net, sta, cha)):
        out.append(tuple(flipped(net, sta, cha)))
    return out


class Stop(Exception):
    pass


def run(sc, ctx):
    path = os.path.join(ctx.disk, 'AB-CD.h5')
    from seismic.db.corr_hdf5 import CorrelationDataBase
    sim = ctx.newsim()
    model = {}
    emptied = set()   # (tag, net, sta, cha) whose records were removed
    state = {}

    def fail(kind, msg):
        ctx.violation(kind, msg)
        raise Stop()

    def session(s):
        def body(rank):
            kw = {}
            if s['mode'] == 'r':
                opts = None
            else:
                opts = co()
            state['in'] = None
            with CorrelationDataBase(
                    path, opts, mode=s['mode'],
                    compression=s['compression'], **kw) as cdb:
                state['opened'] = True
                for o in s['ops']:
                    if s['mode'] == 'r' and o['op'] in ('add', 'rm'):
                        continue
                    state['in'] = o
                    apply(o, cdb)
                    state['in'] = None
            return True
        return body

    def apply(o, cdb):
        if o['op'] == 'add':
            trs = [make(k, o, i) for i, k in enumerate(o['keys'])]
            state['adding'] = [(ckey(k), snap(t)) for k, t in zip(
                o['keys'], trs)]
            from seismic.correlate.stream import CorrStream
            arg = trs[0] if o['trace'] else CorrStream(traces=trs)
            cdb.add_correlation(arg, o['keys'][0][0])
            for k, t in state['adding']:
                if k not in model:
                    model[k] = t
                else:
                    ctx.probe('second write refused')
            state['adding'] = None
        elif o['op'] == 'get1':
            tag, net, sta, cha, a, b = o['key']
            k = ckey(o['key'])
            if o['flip']:
                net, sta, cha = flipped(net, sta, cha)
            from obspy import UTCDateTime
            try:
                st = cdb.get_data(
                    net, sta, cha, tag, UTCDateTime(world.T0 + a),
                    UTCDateTime(world.T0 + b))
            except KeyError:
                st = []
            expect(o, st, {k: model[k]} if k in model else {}, tag)
        elif o['op'] == 'get':
            get_wild(o, cdb)
        elif o['op'] == 'starts':
            got = cdb.get_available_starttimes(
                o['net'], o['sta'], o['tag'], o['cha'])
            pats = o['cha'] if isinstance(o['cha'], list) else [o['cha']]
            exp = {}
            for (tag, n, s_, c, a, b) in model:
                if (tag, n, s_) == (o['tag'], o['net'], o['sta']) and any(
                        fnmatch.fnmatchcase(c, p) for p in pats):
                    exp.setdefault(c, set()).add(a)
            g = {c: sorted(v) for c, v in got.items()
                 if v or (o['tag'], o['net'], o['sta'], c) not in emptied}
            if g != {c: sorted(v) for c, v in exp.items()}:
                fail('starttimes', 'request %s: got %s, stored %s' % (
                    o, g, exp))
        elif o['op'] == 'chans':
            got = cdb.get_available_channels(o['tag'], o['net'], o['sta'])
            exp = {k[3] for k in model if k[:3] == (
                o['tag'], o['net'], o['sta'])}
            g = {c for c in got if c in exp or (
                o['tag'], o['net'], o['sta'], c) not in emptied}
            if g != exp or len(got) != len(set(got)):
                fail('channels', 'request %s: got %s, stored %s' % (
                    o, got, sorted(exp)))
        elif o['op'] == 'rm':
            remove(o, cdb)

    def remove(o, cdb):
        from obspy import UTCDateTime
        tag, net, sta, cha, a, b = o['key']
        f = fis(a)
        if o['how'] == 'utc':
            arg, pat = UTCDateTime(world.T0 + a), f
        elif o['how'] == 'exact':
            arg = pat = f
        elif o['how'] == 'all':
            arg = pat = '*'
        elif o['q']:
            c = o['cut']
            arg = pat = ''.join(
                '?' if i in (c, 9, 11) and ch.isdigit() else ch
                for i, ch in enumerate(f))
        else:
            arg = pat = f[:o['cut']] + '*'
        gone = [k for k in model if k[:4] == (tag, net, sta, cha)
                and fnmatch.fnmatchcase(k[4], pat)]
        state['removing'] = gone
        if o['flip']:
            net, sta, cha = flipped(net, sta, cha)
        try:
            cdb.remove_data(net, sta, cha, tag, arg)
        except KeyError:
            if any(k[:4] == tuple(o['key'][:4]) for k in model):
                raise
        for k in gone:
            del model[k]
            emptied.add(k[:4])
            ctx.probe('removed')
        state['removing'] = None

    def get_wild(o, cdb):
        from obspy import UTCDateTime
        tag = o['tag']
        net, sta, cha = o['net'], o['sta'], o['cha']
        if o['flip'] and '-' in net and '-' in sta and '-' in cha:
            net, sta, cha = flipped(net, sta, cha)
        kw = {}
        if o['start'] is not None:
            kw['corr_start'] = UTCDateTime(world.T0 + o['start'])
        if o['end'] is not None:
            kw['corr_end'] = UTCDateTime(world.T0 + o['end'])
        try:
            st = cdb.get_data(net, sta, cha, tag, **kw)
        except KeyError:
            st = []
        f0 = fis(o['start']) if o['start'] is not None else '*'
        f1 = fis(o['end']) if o['end'] is not None else '*'
        cands = []
        plain = not any(c in net + sta + cha for c in '*?')
        for n, s_, c in forms(net, sta, cha):
            pat = (tag, n, s_, c, f0, f1)
            cands.append({k: v for k, v in model.items() if all(
                fnmatch.fnmatchcase(x, p) for x, p in zip(k, pat))})
        if plain:
            both = {}
            for c in cands:
                both.update(c)
            cands = [both]
        got = {}
        if tag[0] == '*' and any('co' in tr.stats for tr in st):
            ctx.violation(
                'collapsed-pattern', 'wildcard request %s also returned the '
                'options dataset /co as a correlation' % o)
            st = [tr for tr in st if 'co' not in tr.stats]
        for tr in st:
            kk = [k for k, v in model.items()
                  if k[1:] == rkey(tr, tag)[1:] and v == snap(tr)]
            if not kk:
                fail('get-unknown', '%s returned a record that was never '
                     'stored like that: %s %s' % (
                         o, rkey(tr, tag), tr.stats))
            for k in kk:
                got.setdefault(k, 0)
            got[kk[0]] += 1
        n_got = len(st)
        for c in cands:
            if set(got) >= set(c) and n_got == len(c) and all(
                    k in c or tag not in TAGS or k[0] != tag for k in got):
                ctx.probe('wildcard read', 1)
                ctx.probe('wildcard hits', len(c))
                state['reads'] = state.get('reads', 0) + len(c)
                return
        # Known over-matching: '/*' is collapsed to '*' before matching
        for n, s_, c in forms(net, sta, cha):
            p = '/'.join(['', tag, n, s_, c, f0, f1])
            grp = p.replace('?', '*').split('*')[0]
            grp = grp[:grp.rindex('/') + 1]
            p = p.replace('/*', '*')
            over = {k for k in model if fnmatch.fnmatchcase(
                '/' + '/'.join(k), p) and ('/' + '/'.join(k)).startswith(grp)}
            if len(over) == n_got and set(got) >= over and any(
                    set(x) < over for x in cands):
                ctx.violation(
                    'collapsed-pattern', 'wildcard request %s also returned '
                    'records of other codes: %s' % (o, sorted(over)[:6]))
                return
        fail('get-wrong', '%s: returned %s; stored and matching: %s' % (
            o, sorted(got), [sorted(c) for c in cands]))

    def expect(o, st, exp, tag):
        got = {}
        for tr in st:
            k = rkey(tr, tag)
            if k in got:
                fail('get-double', '%s returned %s twice' % (o, k))
            got[k] = snap(tr)
        if set(got) != set(exp):
            fail('get-wrong', '%s: returned %s, stored %s' % (
                o, sorted(got), sorted(exp)))
        for k in got:
            if got[k] != exp[k]:
                fail('get-changed', '%s: record %s is not what was '
                     'written first: %s' % (o, k, diff(got[k], exp[k])))
        state['reads'] = state.get('reads', 0) + len(got)

    def verify(after):
        """Everything readable, complete and equal to the model."""
        import h5py
        raw = {}
        if os.path.exists(path):
            dump = world.h5_dump(path)
            raw = {tuple(k.strip('/').split('/')) for k in dump
                   if k != '/co'}
            with h5py.File(path, 'r') as f:
                # groups without a record would be taken for data
                def vis(name, ob):
                    p = name.split('/')
                    if len(p) == 5 and isinstance(
                            ob, h5py.Group) and not len(ob):
                        bad.append(name)
                bad = []
                f.visititems(vis)
            if bad:
                fail('empty-entry', 'after %s: start times without a '
                     'record: %s' % (after, bad[:3]))
        if set(raw) != set(model):
            fail('records-lost' if set(model) - set(raw)
                 else 'records-extra',
                 'after %s: stored %s, expected %s' % (
                     after, sorted(set(raw) - set(model))[:4],
                     sorted(set(model) - set(raw))[:4]))
        if not model:
            return
        with CorrelationDataBase(path, mode='r') as cdb:
            from obspy import UTCDateTime
            for k in sorted(model):
                st = cdb.get_data(
                    k[1], k[2], k[3], k[0], UTCDateTime(k[4]),
                    UTCDateTime(k[5]))
                if len(st) != 1 or snap(st[0]) != model[k]:
                    fail('readback', 'after %s: %s reads back as %s' % (
                        after, k, [diff(snap(x), model[k]) for x in st]))
                state['reads'] = state.get('reads', 0) + 1

    def settle():
        """An operation failed half way: a prefix of it may be stored."""
        if not os.path.exists(path):
            return
        raw = {tuple(k.strip('/').split('/'))
               for k in world.h5_dump(path) if k != '/co'}
        for k, t in state['adding'] or ():
            if k not in model and k in raw:
                model[k] = t
                ctx.probe('partly stored stream')
        for k in state['removing'] or ():
            emptied.add(k[:4])
            if k not in raw:
                model.pop(k, None)
                ctx.probe('partly removed')

    try:
        for j, s in enumerate(sc['sessions']):
            if s['mode'] in ('r', 'r+') and not os.path.exists(path):
                s = dict(s, mode='a')
            state.update({'adding': None, 'removing': None, 'in': None,
                          'opened': False})
            nf = sum(sim.fired.values())
            res = sim.run_job(1, session(s))
            ctx.take(sim)
            for e in res.excs:
                if isinstance(e, Stop):
                    return
            fired = sum(sim.fired.values()) > nf
            if res.outcome != 'ok' and not fired:
                fail('raised', 'session %s: %s\n%s' % (
                    state['in'], res.detail, (res.tbs[0] or '')[-900:]))
            if fired and res.outcome not in ('killed', 'ok'):
                settle()
            verify('session %d (%s%s)' % (
                j, res.outcome, ', ' + str(sim.fired) if fired else ''))
            ctx.key(sorted(model), res.outcome)
    except Stop:
        return
    if len(model) >= 2 and state.get('reads', 0) >= 2:
        ctx.nontrivial = True


def diff(a, b):
    if a[:3] != b[:3]:
        return 'data %s vs %s' % (a[:2], b[:2])
    return str([(x, y) for x, y in zip(a[3], b[3]) if x != y] or
               set(a[3]) ^ set(b[3]))
