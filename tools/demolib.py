"""Helpers of the demonstrations: small archive, options, lockstep MPI."""
import copy
import os
import shutil
import tempfile
import threading
import warnings

import numpy as np
from obspy import Stream, Trace, UTCDateTime

warnings.simplefilter('ignore')
os.environ['TQDM_DISABLE'] = '1'
T0 = UTCDateTime(2020, 1, 1, 1)


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='demo')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def trace(net, sta, cha, start, n, rate=2., seed=0, loc='00'):
    r = np.random.RandomState(abs(hash((seed,))) % 1000 + sum(
        map(ord, net + sta + cha)))
    off = int(round((start - T0 + 7200) * rate))
    d = r.normal(size=off + n)[off:] * 1000
    return Trace(d.astype(np.int32), header={
        'network': net, 'station': sta, 'location': loc, 'channel': cha,
        'starttime': start, 'sampling_rate': rate})


def archive(root, chans, start=None, length=1000, rate=2., cut=None):
    """chans: list of (net, sta, cha); cut: {chan: [(a, b) kept, rel. T0]}"""
    start = start or T0 - 100
    for c in chans:
        full = trace(*c, start, int(length * rate), rate)
        st = Stream([full])
        if cut and c in cut:
            st = Stream([full.slice(T0 + a, T0 + b) for a, b in cut[c]])
        d = os.path.join(root, 'mseed', '2020', c[0], c[1], c[2] + '.D')
        os.makedirs(d, exist_ok=True)
        st.write(os.path.join(d, '%s.%s.00.%s.D.2020.001' % c),
                 format='MSEED')
    os.makedirs(os.path.join(root, 'inventory'), exist_ok=True)
    return root


def options(proj, nread=2, **kw):
    rl = kw.pop('read_len', 240)
    o = {
        'proj_dir': proj, 'save_comps_separately': kw.pop('sep', False),
        'log_subdir': 'log', 'log_level': 'CRITICAL', 'fig_subdir': 'fig',
        'net': {'network': '*', 'station': '*',
                'component': kw.pop('component', 'Z')},
        'co': {
            'subdir': 'corr', 'read_start': str(T0),
            'read_end': str(T0 + (nread - 1) * rl + 1),
            'read_len': rl, 'read_inc': rl, 'sampling_rate': 2,
            'remove_response': False,
            'combination_method': kw.pop('method', 'betweenStations'),
            'preProcessing': kw.pop('pre', []), 'preprocess_subdiv': False,
            'subdivision': {
                'corr_inc': 60., 'corr_len': 60.,
                'recombine_subdivision': kw.pop('stack', True),
                'delete_subdivision': False},
            'corr_args': {
                'TDpreProcessing': [], 'FDpreProcessing': [],
                'lengthToSave': 10, 'center_correlation': True,
                'normalize_correlation': True, 'combinations': []}}}
    o['co'].update(kw)
    return o


class Abort(Exception):
    pass


class Comm:
    """MPI communicator of n threads; a collective left alone times out."""
    def __init__(self, n):
        self.n, self.loc = n, threading.local()
        self.bar = threading.Barrier(n, timeout=20)
        self.slots = [None] * n

    def Get_rank(self):
        return self.loc.rank

    def Get_size(self):
        return self.n
    rank = property(Get_rank)
    size = property(Get_size)

    def _x(self, name, v):
        self.slots[self.rank] = (name, v)
        self.bar.wait()
        out = list(self.slots)
        self.bar.wait()
        if len(set(o[0] for o in out)) > 1:
            raise Abort('collectives differ: %s' % [o[0] for o in out])
        return [o[1] for o in out]

    def bcast(self, v=None, root=0):
        return copy.deepcopy(self._x('bcast', v)[root])

    def allgather(self, v):
        return [copy.deepcopy(x) for x in self._x('allgather', v)]

    def gather(self, v, root=0):
        out = self.allgather(v)
        return out if self.rank == root else None

    def Barrier(self):
        self._x('barrier', None)
    barrier = Barrier

    def Allreduce(self, a, b, op=None):
        buf = b[0] if isinstance(b, (list, tuple)) else b
        s = sum(self._x('allreduce', buf.copy()))
        buf[...] = s


def run_ranks(n, fn, *modules):
    """fn(rank) on n lockstep threads -> list of results/exceptions"""
    from mpi4py import MPI as real
    comm = Comm(n)

    class M:
        COMM_WORLD = comm
        IN_PLACE, SUM, FLOAT = real.IN_PLACE, real.SUM, real.FLOAT
        DOUBLE = real.DOUBLE
    old = [m.MPI for m in modules]
    for m in modules:
        m.MPI = M
    res = [None] * n

    def go(r):
        comm.loc.rank = r
        try:
            res[r] = fn(r)
        except BaseException as e:
            res[r] = e
            comm.bar.abort()
    th = [threading.Thread(target=go, args=(r,), daemon=True)
          for r in range(n)]
    [t.start() for t in th]
    [t.join(120) for t in th]
    for m, o in zip(modules, old):
        m.MPI = o
    return res


def correlate(arch, opts, n=1):
    from seismic.correlate import correlate as C
    from seismic.trace_data.waveform import Store_Client

    def fn(rank):
        sc = Store_Client(None, arch, read_only=True)
        C.Correlator(sc, copy.deepcopy(opts)).pxcorr()
        return True
    return run_ranks(n, fn, C)


def records(opts):
    import h5py
    out = {}
    d = os.path.join(opts['proj_dir'], 'corr')
    for f in sorted(os.listdir(d)):
        with h5py.File(os.path.join(d, f), 'r') as h:
            def visit(name, o):
                if isinstance(o, h5py.Dataset) and name != 'co':
                    out[f, name] = (np.array(o), dict(o.attrs))
            h.visititems(visit)
    return out
