"""Scenario generator and helpers shared by the correlation checks."""
import os
import random

from sim import world

NETS = ['XN', 'YP', 'X', 'IU', 'XA']
STAS = ['STA1', 'STA10', 'ST', 'HRV', 'A', 'AB', 'AB2', 'NEP06']
METHODS = ['betweenStations', 'betweenStations', 'betweenComponents',
           'autoComponents', 'allSimpleCombinations', 'allCombinations']

TD = 'seismic.correlate.preprocessing_td.'
FD = 'seismic.correlate.preprocessing_fd.'
PS = 'seismic.correlate.preprocessing_stream.'

TDSTEPS = [
    {'function': TD + 'detrend', 'args': {'type': 'linear'}},
    {'function': TD + 'taper', 'args': {'type': 'cosine_taper', 'p': 0.05}},
    {'function': TD + 'TDfilter', 'args': {
        'type': 'bandpass', 'freqmin': 0.1, 'freqmax': 0.8}},
    {'function': TD + 'clip', 'args': {'std_factor': 2.5}},
    {'function': TD + 'mute', 'args': {
        'taper_len': 5., 'std_factor': 4, 'extend_gaps': True}},
    {'function': TD + 'normalizeStandardDeviation', 'args': {}},
    {'function': TD + 'TDnormalization', 'args': {
        'windowLength': 10., 'filter': {
            'type': 'bandpass', 'freqmin': 0.2, 'freqmax': 0.7}}},
    {'function': TD + 'signBitNormalization', 'args': {}},
]
FDSTEPS = [
    {'function': FD + 'spectralWhitening', 'args': {'joint_norm': False}},
    {'function': FD + 'FDfilter', 'args': {'flimit': [0.05, 0.1, 0.7, 0.9]}},
    {'function': FD + 'FDsignBitNormalization', 'args': {}},
]
PRE = [
    {'function': PS + 'stream_filter', 'args': {
        'ftype': 'bandpass', 'filter_option': {
            'freqmin': 0.02, 'freqmax': 0.9}}},
]


def network(r, nsta=None, comps='Z', multi_loc=False):
    """list of channel dicts (without segs)"""
    n = nsta or r.choice([1, 2, 2, 3, 3, 4])
    codes = set()
    nets = r.sample(NETS, r.choice([1, 1, 2]))
    while len(codes) < n:
        codes.add((r.choice(nets), r.choice(STAS)))
    chans = []
    for net, sta in sorted(codes):
        band = r.choice(['HH', 'HH', 'BH'])
        for c in comps:
            chans.append({'net': net, 'sta': sta, 'cha': band + c,
                          'loc': '00', 'rate': 2.0})
    return chans


def gen(seed, tier, **force):
    r = random.Random('corr-%s' % seed)
    method = force.get('method') or r.choice(METHODS)
    if method == 'betweenComponents':
        comps = r.choice(['ZN', 'ZNE'])
        nsta = r.choice([1, 1, 2])
    elif method in ('allSimpleCombinations', 'allCombinations'):
        comps = r.choice(['Z', 'ZN'])
        nsta = r.choice([1, 2, 2, 3])
    elif method == 'betweenStations':
        comps = r.choice(['Z', 'Z', 'ZN'])
        nsta = r.choice([2, 2, 3, 3, 4]) if comps == 'Z' else 2
    else:
        comps = r.choice(['Z', 'ZNE'])
        nsta = r.choice([1, 2, 3])
    chans = network(r, nsta, comps)
    nread = r.choice([1, 2, 2, 3])
    inc, ln = r.choice([(60., 60.), (60., 60.), (30., 60.), (120., 60.),
                        (80., 80.), (50., 60.)])
    start = r.choice([3600., 3600., 86400. - 300.])
    read_len = world.READ
    read_inc = r.choice([read_len, read_len, read_len, read_len + 60.])
    span = [start - 100, start + (nread - 1) * read_inc + read_len + 100]
    rate_kind = r.choice(['same', 'same', 'dec', 'res', 'mix'])
    srcs = {'same': [2.], 'dec': [4.], 'res': [5.], 'mix': [2., 4., 5.]}[
        rate_kind]
    gaps = r.random() < .45
    for ch in chans:
        ch['rate'] = r.choice(srcs)
        ch['segs'] = [list(span)]
        if gaps and r.random() < .6:
            ch['segs'] = make_gaps(r, span, start, nread, read_inc, read_len)
    sc = {
        'chans': chans, 'ranks': r.choice([2, 2, 3, 3, 4, 5]),
        'sched': seed, 'preempt': r.choice([0., .2, .5, .9]),
        'data': seed,
        'opt': {
            'nread': nread, 'inc': inc, 'len': ln, 'start': start,
            'read_len': read_len, 'read_inc': read_inc,
            'method': method, 'component': r.choice(['?', '*'])
            if len(comps) > 1 else 'Z',
            'psub': r.random() < .35, 'stack': r.random() < .7,
            'delsub': False, 'sep': r.random() < .5,
            'lts': r.choice([5, 10, 20]),
            'center': r.random() < .7, 'norm': r.random() < .7,
            'td': [s for s in TDSTEPS if r.random() < .3],
            'fd': [s for s in FDSTEPS if r.random() < .3],
            'pre': [s for s in PRE if r.random() < .4]},
    }
    if sc['opt']['stack'] and r.random() < .2:
        sc['opt']['delsub'] = True
    return sc


def make_gaps(r, span, start, nread, read_inc, read_len):
    a, b = span
    kind = r.choice(['hole', 'late', 'early', 'none', 'holes', 'wholeread',
                     'short'])
    if kind == 'hole':
        h = r.uniform(a + 20, b - 60)
        return [[a, h], [h + r.choice([.5, 5., 30., 70., 130.]), b]]
    if kind == 'late':
        return [[start + r.uniform(5, 200), b]]
    if kind == 'early':
        return [[a, b - r.uniform(105, 300)]]
    if kind == 'none':
        return [[a - 5000, a - 4000]]
    if kind == 'wholeread':
        k = r.randrange(nread)
        s = start + k * read_inc
        return [x for x in ([a, s - 1], [s + read_len + 1, b])
                if x[1] - x[0] > 1]
    if kind == 'short':
        s = start + r.uniform(0, 150)
        return [[s, s + r.uniform(1, 100)]]
    h1 = r.uniform(a + 20, a + (b - a) / 2)
    h2 = r.uniform(h1 + 40, b - 30)
    return [[a, h1], [h1 + 20, h2], [h2 + r.uniform(1, 60), b]]


def setup(ctx, sc):
    arch = os.path.join(ctx.disk, 'arch')
    os.makedirs(arch, exist_ok=True)
    world.write_archive(arch, sc['data'], sc['chans'])
    if not sc.get('noinv'):
        world.write_inventories(arch, sc['chans'])
    return arch


def opts_of(ctx, sc, name, **kw):
    p = os.path.join(ctx.disk, name)
    os.makedirs(p, exist_ok=True)
    o = dict(sc['opt'])
    o.update(kw)
    return world.options(p, **o), os.path.join(p, 'corr')


def shrink(sc):
    import copy
    if len(sc['chans']) > 1:
        for i in range(len(sc['chans'])):
            s = copy.deepcopy(sc)
            del s['chans'][i]
            yield s
    for k in ('td', 'fd', 'pre'):
        for i in range(len(sc['opt'][k])):
            s = copy.deepcopy(sc)
            del s['opt'][k][i]
            yield s
    for k, v in (('stack', False), ('delsub', False), ('sep', False),
                 ('psub', False), ('norm', True), ('center', True),
                 ('nread', 1), ('start', 3600.), ('inc', 60.),
                 ('len', 60.)):
        if sc['opt'].get(k) != v:
            s = copy.deepcopy(sc)
            s['opt'][k] = v
            yield s
    for i, ch in enumerate(sc['chans']):
        span = [sc['opt']['start'] - 100, sc['opt']['start'] + (
            sc['opt']['nread'] - 1) * sc['opt']['read_inc']
            + sc['opt']['read_len'] + 100]
        if ch['segs'] != [span]:
            s = copy.deepcopy(sc)
            s['chans'][i]['segs'] = [span]
            yield s
        if ch['rate'] != 2.:
            s = copy.deepcopy(sc)
            s['chans'][i]['rate'] = 2.
            yield s
        for k in ('offset', 'kind'):
            if ch.get(k):
                s = copy.deepcopy(sc)
                del s['chans'][i][k]
                yield s
