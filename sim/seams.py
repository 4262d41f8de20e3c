"""
Installs the simulator behind the third-party interfaces SeisMIC uses:
mpi4py, h5py, open()/os, directory listing, obspy's clock and StationXML
writing.  Nothing in /repo is changed for this and nothing in SeisMIC is
stubbed; with no simulation active every wrapper is a straight pass-through.
"""
import builtins
import io
import os
import sys

os.environ.setdefault('TQDM_DISABLE', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
for _k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_k, '1')
sys.dont_write_bytecode = True

from . import core  # noqa: E402

CUR = None           # the active Sim
COMM = None
_installed = False
_real = {}


def sim_active():
    s = CUR
    return s if (s is not None and s.active and s._me() is not None
                 and not s._me().depth) else None


def activate(sim):
    global CUR
    CUR = sim
    COMM.sim = sim


def deactivate():
    global CUR
    CUR = None
    COMM.sim = None


class _Deeper:
    """Calls made by an intercepted call are part of it."""
    def __init__(self, me):
        self.me = me

    def __enter__(self):
        if self.me is not None:
            self.me.depth += 1

    def __exit__(self, *a):
        if self.me is not None:
            self.me.depth -= 1
        return False


def _wrap_method(cls, name, site, detail=lambda self, a, k: ''):
    orig = getattr(cls, name)

    def wrapper(self, *a, **k):
        s = sim_active()
        if s is None:
            return orig(self, *a, **k)
        try:
            d = detail(self, a, k)
        except Exception:
            d = '?'
        s.point(site, d)
        with _Deeper(s._me()):
            return orig(self, *a, **k)
    wrapper.__name__ = name
    wrapper.__wrapped__ = orig
    setattr(cls, name, wrapper)


class SimFile:
    """A file opened for writing below the simulated disk."""
    def __init__(self, f, path, sim):
        object.__setattr__(self, '_f', f)
        object.__setattr__(self, '_path', path)
        object.__setattr__(self, '_sim', sim)

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __setattr__(self, k, v):
        setattr(self._f, k, v)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        return self._f.__exit__(*a)

    def __iter__(self):
        return iter(self._f)

    def write(self, data):
        s = sim_active()
        if s is None or s is not self._sim:
            return self._f.write(data)
        n = len(data)
        f = s.point('file.write', '%s:%d' % (self._path, n))
        if f is not None:
            keep = int(n * f.get('frac', 0.5))
            self._f.write(data[:keep])
            self._f.flush()
            if f['act'] == 'torn':
                s.torn_kill()
            raise OSError(28, 'simulated short write: disk full',
                          self._path)
        return self._f.write(data)

    def close(self):
        return self._f.close()


def _under(path):
    s = CUR
    if s is None:
        return False
    try:
        p = os.fspath(path)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = p.decode('utf-8', 'replace')
    return os.path.abspath(p).startswith(s.root + os.sep)


def _sim_open(file, mode='r', *a, **k):
    ro = _real['open']
    s = sim_active()
    if s is None or not _under(file):
        return ro(file, mode, *a, **k)
    p = os.fspath(file)
    if '/log/' in p:
        return ro(file, mode, *a, **k)
    if any(c in mode for c in 'wax+'):
        s.point('file.open-w', p)
        return SimFile(ro(file, mode, *a, **k), p, s)
    s.point('file.open-r', p)
    return ro(file, mode, *a, **k)


class _ScanDir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def close(self):
        pass


def _sim_scandir(path='.'):
    if CUR is None or isinstance(path, int) or not _under(path):
        return _real['scandir'](path)
    with _real['scandir'](path) as it:
        ents = {e.name: e for e in it}
    s = sim_active()
    if s is not None:
        s.point('dir.list', path)
    return _ScanDir([ents[n] for n in CUR.order(path, list(ents))])


def _sim_listdir(path='.'):
    names = _real['listdir'](path)
    if CUR is None or isinstance(path, int) or not _under(path):
        return names
    s = sim_active()
    if s is not None:
        s.point('dir.list', path)
    return CUR.order(path, names)


def _os_wrap(name, site, npath=1):
    orig = getattr(os, name)
    _real[name] = orig

    def wrapper(path, *a, **k):
        s = sim_active()
        if s is None or isinstance(path, int) or not _under(path):
            return orig(path, *a, **k)
        s.point(site, path)
        with _Deeper(s._me()):
            return orig(path, *a, **k)
    wrapper.__name__ = name
    setattr(os, name, wrapper)


def install():
    """Idempotent."""
    global _installed, COMM
    if _installed:
        return
    _installed = True
    import mpi4py
    mpi4py.rc.initialize = False
    mpi4py.rc.finalize = False
    from mpi4py import MPI
    COMM = core.SimComm()
    MPI.COMM_WORLD = COMM
    for n in ('Init', 'Init_thread', 'Finalize'):
        setattr(MPI, n, lambda *a, **k: 0)
    MPI.Is_initialized = lambda: True

    _real['open'] = builtins.open
    builtins.open = _sim_open
    io.open = _sim_open
    _real['scandir'] = os.scandir
    os.scandir = _sim_scandir
    _real['listdir'] = os.listdir
    os.listdir = _sim_listdir
    for n, site in (('replace', 'file.rename'), ('rename', 'file.rename'),
                    ('remove', 'file.remove'), ('unlink', 'file.remove'),
                    ('mkdir', 'dir.make')):
        _os_wrap(n, site)

    _real['getpid'] = os.getpid

    def getpid():
        s = sim_active()
        # every rank is a process of its own
        return _real['getpid']() if s is None else 1000 + s._me().idx
    os.getpid = getpid

    import h5py
    F, G = h5py.File, h5py.Group
    orig_init, orig_close = F.__init__, F.close

    def f_init(self, name, mode='r', *a, **k):
        s = sim_active()
        if s is None or not isinstance(name, (str, bytes, os.PathLike)) \
                or not _under(name):
            return orig_init(self, name, mode, *a, **k)
        s.point('h5.open', '%s %s' % (name, mode))
        s.h5_opening(name, mode)
        with _Deeper(s._me()):
            orig_init(self, name, mode, *a, **k)
        s.h5_opened(name, mode, self)

    def f_close(self):
        s = sim_active()
        if s is None:
            return orig_close(self)
        with _Deeper(s._me()):
            r = orig_close(self)
        s.point('h5.closed')
        return r
    f_init.__signature__ = None
    F.__init__ = f_init
    F.close = f_close

    _wrap_method(G, 'create_dataset', 'h5.create',
                 lambda self, a, k: a[0] if a else k.get('name'))
    _wrap_method(G, 'create_group', 'h5.mkgroup',
                 lambda self, a, k: a[0] if a else k.get('name'))
    _wrap_method(G, '__delitem__', 'h5.delete', lambda self, a, k: a[0])
    _wrap_method(G, '__setitem__', 'h5.link', lambda self, a, k: a[0])
    _wrap_method(G, '__getitem__', 'h5.read', lambda self, a, k: a[0]
                 if isinstance(a[0], str) else 'ref')
    _wrap_method(G, 'move', 'h5.move', lambda self, a, k: a[0])
    AM = h5py.AttributeManager
    _wrap_method(AM, '__setitem__', 'h5.attr', lambda self, a, k: a[0])
    _wrap_method(AM, 'create', 'h5.attr', lambda self, a, k: a[0])
    _wrap_method(F, 'flush', 'h5.flush')

    from obspy.core.utcdatetime import UTCDateTime
    orig_now = UTCDateTime.now

    def now(*a, **k):
        s = CUR
        if s is None:
            return orig_now(*a, **k)
        p = sim_active()
        if p is not None:
            p.point('clock.now')
        return UTCDateTime(s.clock)
    UTCDateTime.now = staticmethod(now)
    UTCDateTime.utcnow = staticmethod(now)

    from obspy import Inventory
    orig_inv_write = Inventory.write

    def inv_write(self, path_or_file_object, *a, **k):
        s = sim_active()
        p = path_or_file_object
        if s is None or hasattr(p, 'write') or not _under(p):
            return orig_inv_write(self, p, *a, **k)
        # lxml writes through C; route it through the simulated disk
        with _Deeper(s._me()):
            buf = io.BytesIO()
            orig_inv_write(self, buf, *a, **k)
        with open(p, 'wb') as fh:
            data = buf.getvalue()
            step = max(1, len(data) // 3 + 1)
            for i in range(0, len(data), step):
                fh.write(data[i:i + step])
    Inventory.write = inv_write

    import tqdm
    tqdm.tqdm.monitor_interval = 0
    import logging
    logging.raiseExceptions = False
    logging.root.addHandler(logging.NullHandler())
    import warnings
    warnings.simplefilter('ignore')


def import_repo():
    install()
    import seismic.correlate.correlate  # noqa
    import seismic.monitor.monitor  # noqa
    import seismic.trace_data.waveform  # noqa


class _Numpy:
    """numpy as one module sees it: calls are allocation points"""
    def __init__(self, mod):
        self.__dict__['_m'] = mod

    def __getattr__(self, k):
        v = getattr(self._m, k)
        if callable(v) and not isinstance(v, type) and \
                type(v).__name__ != 'ufunc':
            v = _alloc_call(v, k)
            self.__dict__[k] = v
        return v


def _alloc_call(fn, name):
    def call(*a, **k):
        s = sim_active()
        if s is not None:
            s.point('mem.alloc', name)
        return fn(*a, **k)
    call.__name__ = name
    call.vsim_alloc = True
    return call


def alloc(mod):
    """Calls into numpy and scipy made by this module may fail."""
    import types
    for k, v in list(vars(mod).items()):
        if isinstance(v, types.ModuleType) and v.__name__ == 'numpy':
            setattr(mod, k, _Numpy(v))
        elif isinstance(v, types.FunctionType) and not hasattr(
                v, 'vsim_alloc') and (v.__module__ or '').split('.')[0] in (
                    'numpy', 'scipy'):
            setattr(mod, k, _alloc_call(v, k))
