"""P05: data computed with different parameters are never mixed."""
import ast
import copy
import os
import random

import numpy as np

from sim import world
from . import corrgen

RUNS = {'quick': 700, 'thorough': 20000}
RULE = (
    'scenario = history of opens of one correlation file with mutated option '
    'dictionaries (relevant, documented as irrelevant, both), modes, force, '
    'records added, and faults (failed allocation, full disk, I/O error, '
    'Ctrl-C, kill) at any HDF5 operation; 1 in 8 scenarios runs pxcorr twice '
    'with changed options. Oracle: the first stored options win. '
    'Non-trivial: at least one refusal and one acceptance, or a pxcorr pair. '
    'State = (mutations, outcome).')
REAL = ['seismic.db.corr_hdf5', 'seismic.correlate.correlate.Correlator '
        '(pxcorr scenarios)', 'h5py/HDF5 files on tmpfs']
STUB = ['MPI communicator', 'fault seams around h5py', 'wall clock']

MASK = {'function':
        'seismic.correlate.preprocessing_stream.stream_mask_at_utc'}

# name -> (relevant, path, value)
MUT = {
    'sampling_rate': (True, ['sampling_rate'], 3),
    'remove_response': (True, ['remove_response'], True),
    'corr_inc': (True, ['subdivision', 'corr_inc'], 30.),
    'corr_len': (True, ['subdivision', 'corr_len'], 30.),
    'lengthToSave': (True, ['corr_args', 'lengthToSave'], 7),
    'center': (True, ['corr_args', 'center_correlation'], False),
    'normalize': (True, ['corr_args', 'normalize_correlation'], False),
    'td-del': (True, ['corr_args', 'TDpreProcessing'], 'pop'),
    'td-rev': (True, ['corr_args', 'TDpreProcessing'], 'rev'),
    'td-arg': (True, ['corr_args', 'TDpreProcessing', 0, 'args'],
               {'type': 'constant'}),
    'fd-add': (True, ['corr_args', 'FDpreProcessing'], 'add'),
    'pre-arg': (True, ['preProcessing', 0, 'args', 'ftype'], 'highpass'),
    # not the one that may differ
    'pre-mask': (True, ['preProcessing'], 'add-mask'),
    'pre-stream-mask': (True, ['preProcessing'], 'add-smask'),
    'pre-del': (True, ['preProcessing'], 'pop'),
    'pre-add': (True, ['preProcessing'], 'add'),
    'newkey': (True, ['brand_new'], 1),
    'newarg': (True, ['corr_args', 'brand_new'], 1),
    'subdir': (False, ['subdir'], 'other'),
    'read_start': (False, ['read_start'], '2021-01-01'),
    'read_end': (False, ['read_end'], '2022-01-01'),
    'read_len': (False, ['read_len'], 999.),
    'read_inc': (False, ['read_inc'], 998.),
    'method': (False, ['combination_method'], 'allCombinations'),
    'xcomb': (False, ['xcombinations'], ['A-B.C-D']),
    'psub': (False, ['preprocess_subdiv'], True),
    'recombine': (False, ['subdivision', 'recombine_subdivision'], False),
    'delete': (False, ['subdivision', 'delete_subdivision'], True),
    'combs': (False, ['corr_args', 'combinations'], [(0, 1), (1, 2)]),
    'combs2': (False, ['combinations'], [(0, 1)]),
    'starttime': (False, ['starttime'], ['2020', '2021']),
    'allow': (False, ['allow_different_params'], False),
    'mask-first': (False, ['preProcessing'], 'mask0'),
    'mask-last': (False, ['preProcessing'], 'mask1'),
    'mask-two': (False, ['preProcessing'], 'mask2'),
    'float-int': (False, ['sampling_rate'], 2.0),
}
REL = sorted(k for k in MUT if MUT[k][0])
IRR = sorted(k for k in MUT if not MUT[k][0])
# removing a key that is there
DROP = {'-xcomb': (False, ['xcombinations']),
        '-psub': (False, ['preprocess_subdiv']),
        '-method': (False, ['combination_method']),
        '-center': (True, ['corr_args', 'center_correlation']),
        '-rr': (True, ['remove_response'])}


def base():
    return {
        'subdir': 'corr', 'read_start': '2020-01-01',
        'read_end': '2020-01-02', 'read_len': 240., 'read_inc': 240.,
        'sampling_rate': 2, 'remove_response': False,
        'combination_method': 'betweenStations', 'xcombinations': None,
        'preprocess_subdiv': False,
        'preProcessing': [
            {'function': corrgen.PS + 'stream_filter', 'args': {
                'ftype': 'bandpass', 'filter_option': {
                    'freqmin': .01, 'freqmax': .9}}},
            {'function': corrgen.PS + 'detrend_st', 'args': {}}],
        'subdivision': {'corr_inc': 60., 'corr_len': 60.,
                        'recombine_subdivision': True,
                        'delete_subdivision': False},
        'corr_args': {
            'TDpreProcessing': [
                {'function': corrgen.TD + 'detrend', 'args': {
                    'type': 'linear'}},
                {'function': corrgen.TD + 'clip', 'args': {
                    'std_factor': 2.5}}],
            'FDpreProcessing': [
                {'function': corrgen.FD + 'FDfilter', 'args': {
                    'flimit': (.01, .02, .7, .8)}}],
            'lengthToSave': 10, 'center_correlation': True,
            'normalize_correlation': True, 'combinations': []}}


def build(muts):
    """options dictionary with mutations applied"""
    from obspy import UTCDateTime
    o = base()
    for m in muts:
        if m in DROP:
            d = o
            for p in DROP[m][1][:-1]:
                d = d[p]
            d.pop(DROP[m][1][-1], None)
            continue
        _, path, val = MUT[m]
        d = o
        try:
            for p in path[:-1]:
                d = d[p]
            cur = d[path[-1]] if not isinstance(d, dict) else d.get(path[-1])
        except (IndexError, KeyError):
            continue
        mask = dict(MASK, args={
            'starts': [UTCDateTime(0), UTCDateTime(5000)],
            'masklen': 3.})
        if val == 'pop':
            d[path[-1]] = cur[:-1]
        elif val == 'rev':
            d[path[-1]] = cur[::-1]
        elif val == 'add':
            d[path[-1]] = cur + [{'function': 'x.y.z', 'args': {}}]
        elif val == 'add-mask':
            d[path[-1]] = cur + [{
                'function': 'mymodule.mask_clipped', 'args': {}}]
        elif val == 'add-smask':
            d[path[-1]] = [{
                'function': corrgen.PS + 'stream_mask_at_amplitude',
                'args': {}}] + cur
        elif val == 'mask0':
            d[path[-1]] = [mask] + cur
        elif val == 'mask1':
            d[path[-1]] = cur + [mask]
        elif val == 'mask2':
            d[path[-1]] = cur[:1] + [mask, copy.deepcopy(mask)] + cur[1:]
        else:
            d[path[-1]] = copy.deepcopy(val)
    return o


def relevant(muts):
    return tuple(sorted({m for m in muts if (
        DROP[m][0] if m in DROP else MUT[m][0])}, key=str))


def norm(o):
    """What must be equal: written independently of co_to_hdf5."""
    o = copy.deepcopy(o)
    keep = {k: v for k, v in o.items() if k not in (
        'subdir', 'read_start', 'read_end', 'read_len', 'read_inc',
        'combination_method', 'combinations', 'starttime', 'xcombinations',
        'preprocess_subdiv', 'allow_different_params')}
    keep['corr_args'] = {k: v for k, v in keep['corr_args'].items()
                         if k != 'combinations'}
    keep['subdivision'] = {
        k: v for k, v in keep['subdivision'].items() if k not in (
            'recombine_subdivision', 'delete_subdivision')}
    if 'preProcessing' in keep:
        keep['preProcessing'] = [
            s for s in keep['preProcessing']
            if s['function'] != MASK['function']]
    return keep


def gen(seed, tier):
    r = random.Random('p05-%s' % seed)
    if r.random() < .12:
        sc = corrgen.gen(seed, tier, method='betweenStations')
        sc['chans'] = sc['chans'][:3]
        sc['opt'].update(nread=1, td=sc['opt']['td'][:1], component='Z')
        sc['kind'] = 'pxcorr'
        sc['change'] = r.choice([
            ['lts', 7], ['norm', not sc['opt']['norm']],
            ['center', not sc['opt']['center']], ['inc', 45.],
            ['td', []], ['fd', [corrgen.FDSTEPS[2]]], ['nread', 2],
            ['psub', True], ['stack', not sc['opt']['stack']], ['rate', 1]])
        sc['allow_diff'] = r.choice([None, None, False, True])
        sc['ranks'] = r.choice([1, 2, 3])
        sc['ranks2'] = r.choice([1, 2, 3])
        sc['faults'] = []
        if r.random() < .4:
            sc['faults'] = [{
                'job': 1, 'site': r.choice(['h5.create', 'h5.closed', '*']),
                'act': r.choice(['kill', 'interrupt', 'eio']),
                'nth': r.choice([1, 2, 3, 30, 80, 150])}]
        return sc
    opens = []
    for _ in range(r.choice([2, 3, 4, 6, 9])):
        muts = []
        x = r.random()
        if x < .35:
            muts += [r.choice(REL + [k for k in DROP if DROP[k][0]])]
        if r.random() < .5:
            muts += r.sample(IRR + [k for k in DROP if not DROP[k][0]],
                             r.choice([1, 1, 2, 4]))
        if x < .05:
            muts += [r.choice(REL)]
        opens.append({
            'muts': muts, 'mode': r.choice(['a', 'a', 'a', 'a', 'r', 'r+']),
            'force': r.random() < .15, 'none': r.random() < .08,
            'add': r.random() < .6, 'comp': r.choice(['gzip3', None])})
    # let the first one sometimes be a mutated one
    faults = []
    for j in range(len(opens)):
        if r.random() < (.5 if j == 0 else .25):
            faults.append({
                'job': j + 1, 'site': r.choice([
                    'h5.create', 'h5.attr', 'h5.open', 'h5.closed',
                    'h5.read', '*', '*']),
                'act': r.choice(['memerr', 'enospc', 'eio', 'interrupt',
                                 'kill']), 'nth': r.choice(
                                     [1, 1, 1, 2, 3, 5])})
    return {'kind': 'opens', 'opens': opens, 'faults': faults, 'seed': seed,
            'sched': seed, 'preempt': 0.}


def shrink(sc):
    if sc['kind'] == 'pxcorr':
        yield from corrgen.shrink(sc)
        return
    for i in range(len(sc['opens'])):
        if len(sc['opens']) > 1:
            s = copy.deepcopy(sc)
            del s['opens'][i]
            s['faults'] = [
                dict(f, job=f['job'] - (f['job'] > i + 1))
                for f in s['faults'] if f['job'] != i + 1]
            yield s
        for j in range(len(sc['opens'][i]['muts'])):
            s = copy.deepcopy(sc)
            del s['opens'][i]['muts'][j]
            yield s


def stored(path):
    """Options in the file, or None; without SeisMIC code."""
    import h5py
    if not os.path.exists(path):
        return None
    with h5py.File(path, 'r') as f:
        if 'co' not in f or 'co' not in f['co'].attrs:
            return None
        return ast.literal_eval(str(f['co'].attrs['co']))


def records(path):
    if not os.path.exists(path):
        return {}
    return {k: v[0].tobytes() for k, v in world.h5_dump(path).items()
            if k != '/co'}


def trace(i):
    from obspy import UTCDateTime
    from seismic.correlate.stream import CorrTrace
    t = UTCDateTime(world.T0 + 60 * i)
    return CorrTrace(np.arange(5.) + i, _header={
        'network': 'A-B', 'station': 'C-D', 'channel': 'HHZ-HHZ',
        'sampling_rate': 2., 'corr_start': t, 'corr_end': t + 60,
        'start_lag': -1.})


def run(sc, ctx):
    (run_pxcorr if sc['kind'] == 'pxcorr' else run_opens)(sc, ctx)


def run_opens(sc, ctx):
    from seismic.db.corr_hdf5 import CorrelationDataBase
    path = os.path.join(ctx.disk, 'A-B.C-D.h5')
    sim = ctx.newsim()
    first = None
    seen = {'refused': 0, 'accepted': 0}
    keep = []     # keep exceptions alive like an interactive session would
    for j, o in enumerate(sc['opens']):
        opts = build(o['muts'])
        if o['none']:
            opts = None
        mode = o['mode']
        if mode in ('r', 'r+') and not os.path.exists(path):
            mode = 'a'
            if opts is None:
                continue
        if opts is None and (o['force'] or mode != 'r') and mode != 'r':
            mode = 'r'
            if not os.path.exists(path):
                continue
        before = records(path)
        was = stored(path)
        state = {}

        def body(rank):
            mine = copy.deepcopy(opts)
            with CorrelationDataBase(
                    path, mine, mode=mode, compression=o['comp'],
                    _force=o['force']) as cdb:
                state['opened'] = True
                if o['add'] and mode != 'r':
                    cdb.add_correlation(trace(j), 'subdivision')
                if was is not None or (opts and mode != 'r'):
                    state['co'] = cdb.get_corr_options()
            if mine != opts:
                state['mutated'] = True
            return True
        nf = sum(sim.fired.values())
        res = sim.run_job(1, body)
        ctx.take(sim)
        keep.append(res.excs)
        fired = sum(sim.fired.values()) > nf
        exc = res.excs[0]
        now, recs = stored(path), records(path)
        ctx.key(o['muts'], mode, o['force'], res.outcome, first is None)
        what = 'open %d (%s%s%s)' % (
            j, mode, ', force' if o['force'] else '',
            ', ' + ' '.join(o['muts']) if o['muts'] else '')
        if state.get('mutated'):
            ctx.violation('options-mutated', what + ' changed the options '
                          'dictionary of the caller')
        if first is None and now is not None and was is None:
            if opts is None or norm(now) != norm(opts):
                ctx.violation('stored-other', '%s stored %s' % (what, now))
                return
            first = norm(opts)
        elif (norm(now) if now else None) != first:
            ctx.violation('options-changed', '%s: stored options changed '
                          'from %s to %s' % (what, first, now))
            return
        lost = {k for k in before if recs.get(k) != before[k]}
        if lost:
            ctx.violation('records-changed', '%s changed or lost records %s'
                          % (what, sorted(lost)[:3]))
            return
        if fired:
            ctx.probe('fault in open')
            continue
        differs = opts is not None and first is not None \
            and was is not None and norm(opts) != norm(was)
        if differs and not o['force']:
            if not isinstance(exc, PermissionError):
                ctx.violation(
                    'mixed', '%s was accepted although the options differ '
                    'from the stored ones' % what if exc is None else
                    '%s raised %s instead of PermissionError' % (
                        what, res.detail))
                return
            if recs != before:
                ctx.violation('refused-but-changed', what)
                return
            seen['refused'] += 1
        else:
            if exc is not None:
                ctx.violation('refused', '%s was refused: %s\n%s' % (
                    what, res.detail, (res.tbs[0] or '')[-600:]))
                return
            if o['add'] and mode != 'r' and len(recs) != len(before) + 1:
                ctx.violation('not-added', what)
                return
            if opts is not None and mode != 'r' and now is None:
                ctx.violation('not-stored', '%s stored no options' % what)
                return
            if first is not None and 'co' in state and norm(
                    state['co']) != first:
                ctx.violation('read-other', '%s reads options %s' % (
                    what, state['co']))
                return
            seen['accepted'] += 1
    ctx.nontrivial = bool(seen['refused'] and seen['accepted'])
    ctx.probe('refused', seen['refused'])
    ctx.probe('accepted', seen['accepted'])


def run_pxcorr(sc, ctx):
    arch = corrgen.setup(ctx, sc)
    sim = ctx.newsim()
    o, cdir = corrgen.opts_of(ctx, sc, 'p')
    res = world.correlate(sim, sc['ranks'], arch, o)
    ctx.take(sim, ('concurrent-h5', 'collective-mismatch'))
    before = world.db_dump(cdir)
    coold = {f: stored(os.path.join(cdir, f)) for f in sorted(
        os.listdir(cdir))} if os.path.isdir(cdir) else {}
    kw = {sc['change'][0]: sc['change'][1]}
    if sc['allow_diff'] is not None:
        kw['allow_diff'] = sc['allow_diff']
    o2, _ = corrgen.opts_of(ctx, sc, 'p', **kw)
    differs = norm(o['co']) != norm(o2['co'])
    res2 = world.correlate(sim, sc['ranks2'], arch, o2)
    ctx.take(sim, ('concurrent-h5', 'collective-mismatch'))
    after = world.db_dump(cdir)
    if not before and not any(coold.values()):
        return
    ctx.nontrivial = True
    ctx.key('pxcorr', sc['change'][0], sc['allow_diff'], res.outcome,
            res2.outcome)
    have = {k: v for k, v in after.items() if k in before}
    d = world.diff_dump(before, have, rtol=0)
    if d:
        ctx.violation('records-changed', 'pxcorr with changed %s: %s' % (
            sc['change'][0], d))
        return
    for f, c in coold.items():
        n = stored(os.path.join(cdir, f))
        if c is not None and n != c:
            ctx.violation('options-changed', 'pxcorr with changed %s replaced'
                          ' the options of %s' % (sc['change'][0], f))
            return
    refused = any(isinstance(e, PermissionError) for e in res2.excs)
    if differs and not sc['allow_diff'] and before:
        if not refused:
            ctx.violation(
                'mixed', 'pxcorr with changed %s was not refused: %s' % (
                    sc['change'], res2.detail))
        elif set(after) != set(before):
            ctx.violation(
                'refused-but-changed', 'pxcorr with changed %s added %s' % (
                    sc['change'], sorted(set(after) - set(before))[:3]))
        ctx.probe('pxcorr refused')
    elif not differs or sc['allow_diff']:
        if res2.outcome != 'ok':
            ctx.violation('refused', 'pxcorr with changed %s: %s %s' % (
                sc['change'], res2.outcome, res2.detail))
        ctx.probe('pxcorr accepted')
