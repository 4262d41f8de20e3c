"""
Deterministic simulator core for SeisMIC.

Everything a run depends on that is not a pure computation goes through this
module: which simulated MPI rank runs next, what an MPI collective delivers,
in which order a directory is listed, what the wall clock reads, and whether a
file system / HDF5 operation succeeds, is cut short, is interrupted or is the
last thing the job ever does.  One integer (plus the scenario) decides all of
it, so one scenario is exactly one execution.

Ranks are real Python threads that are parked and released one at a time.
A rank hands the baton back only at intercepted operations ("seams"); the
seeded scheduler chooses who gets it next.
"""
import hashlib
import json
import os
import pickle
import random
import shutil
import threading
import warnings


class SimStop(BaseException):
    """Unwinds a rank thread whose job is over (killed, aborted, deadlock)."""


class SimInterrupt(KeyboardInterrupt):
    """Ctrl-C / SIGTERM turned into an exception at a chosen seam."""


class Finding:
    """One oracle failure."""
    def __init__(self, kind, msg, **data):
        self.kind = kind
        self.msg = msg
        self.data = data

    def to_json(self):
        return {'kind': self.kind, 'msg': self.msg[:2000], **{
            k: v for k, v in self.data.items()}}


READY, BLOCKED, DONE = 'ready', 'blocked', 'done'


class Rank:
    def __init__(self, idx):
        self.idx = idx
        self.state = READY
        self.sem = threading.Semaphore(0)
        self.thread = None
        self.result = None
        self.exc = None
        self.exc_tb = None
        self.wait_for = None     # callable -> bool, when BLOCKED
        self.wait_desc = ''
        self.coll_seq = 0
        self.wfilters = None
        self.depth = 0
        self.pending = None      # exception to raise at the next seam
        self.counters = {}


class JobResult:
    def __init__(self):
        self.results = []
        self.excs = []
        self.outcome = 'ok'   # ok|deadlock|killed|interrupted|exception|steps
        self.detail = ''
        self.snapshot = None


def holds_h5_lock():
    """
    h5py's global lock is one per process.  The simulated ranks share this
    process, real ones do not, so nobody may be parked while holding it.
    """
    try:
        from h5py._objects import phil
        return phil._is_owned()
    except (ImportError, AttributeError):
        return False


class Sim:
    """
    One simulated execution (may consist of several jobs, i.e. restarts,
    sharing one disk).
    """
    def __init__(self, seed, root, faults=(), choices=None, preempt=0.5,
                 max_steps=200000):
        self.seed = seed
        self.root = root
        self.rng = random.Random('sched-%s' % seed)
        self.faults = [dict(f) for f in faults]
        self.choices = list(choices) if choices is not None else None
        self.made_choices = []
        self.preempt = preempt
        self.log = hashlib.sha256()
        self.logn = 0
        self.keep_log = None     # set to [] to keep the full event log
        self.fired = {}
        self.points = {}
        self.findings = []
        self.job_no = 0
        self.ranks = []
        self.cur = None
        self.main_sem = threading.Semaphore(0)
        self.active = False
        self.killed = False
        self.steps = 0
        self.max_steps = max_steps
        self.clock = 1.6e9 + (hash_int(seed) % 10**7)
        self.clock0 = self.clock
        self.sched_hash = hashlib.sha256()
        self.order_salt = 0
        self.open_files = {}     # realpath -> list[(rank, mode, ref)]
        self.snapshot_dir = None
        self.counts = {}         # (job, site) -> n
        self.probes = {}
        self.opnames = []
        self.on_point = None
        self.trace = []
        self.simtime = 0.0
        self.stop_reason = None
        self.killable = True
        self.pending_kill = None
        self.collectives = 0

    # ------------------------------------------------------------------ log
    def event(self, *parts):
        s = '|'.join(str(p) for p in parts).replace(self.root, '$S')
        self.log.update(s.encode('utf-8', 'replace'))
        self.log.update(b'\n')
        self.logn += 1
        if self.keep_log is not None:
            self.keep_log.append(s)

    def digest(self):
        return self.log.hexdigest()

    def sched_digest(self):
        return self.sched_hash.hexdigest()

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def finding(self, kind, msg, **data):
        self.findings.append(Finding(kind, msg, **data))

    # ------------------------------------------------------------ scheduling
    def _me(self):
        t = threading.current_thread()
        return getattr(t, 'sim_rank', None)

    def choose(self, n):
        """A scheduling choice among n alternatives (0 = stay / first)."""
        if n <= 1:
            return 0
        if self.choices is not None:
            k = len(self.made_choices)
            c = self.choices[k] if k < len(self.choices) else 0
            c = c if c < n else 0
        else:
            if self.rng.random() < self.preempt:
                c = self.rng.randrange(n)
            else:
                c = 0
        self.made_choices.append(c)
        self.sched_hash.update(b'%d,' % c)
        return c

    def _runnable(self):
        out = []
        for r in self.ranks:
            if r.state == READY:
                out.append(r)
            elif r.state == BLOCKED and r.wait_for():
                out.append(r)
        return out

    def yield_(self, why=''):
        """Hand the baton back; returns when this rank is scheduled again."""
        me = self._me()
        if me is None or not self.active:
            return
        me.wfilters = list(warnings.filters)
        self.main_sem.release()
        me.sem.acquire()
        warnings.filters[:] = me.wfilters
        _filters_mutated()
        if self.stop_reason:
            raise SimStop(self.stop_reason)
        if me.pending is not None:
            e, me.pending = me.pending, None
            raise e

    def block_until(self, cond, desc):
        me = self._me()
        if me is None:
            if not cond():
                raise RuntimeError('collective outside of a job: ' + desc)
            return
        me.wait_for, me.wait_desc, me.state = cond, desc, BLOCKED
        self.yield_(desc)
        me.state, me.wait_for = READY, None

    def run_job(self, size, fn):
        """Run fn(rank) on `size` ranks until all are done or stuck."""
        assert not self.active
        self.job_no += 1
        self.order_salt += 1
        self.size = size
        self.stop_reason = None
        self.snapshot_dir = None
        self.coll = {}
        self.mail = {}
        self.ranks = [Rank(i) for i in range(size)]
        self.counts = {}
        res = JobResult()
        base_filters = list(warnings.filters)
        self.event('job', self.job_no, size)

        def body(r):
            r.sem.acquire()
            warnings.filters[:] = base_filters
            _filters_mutated()
            try:
                if self.stop_reason:
                    raise SimStop(self.stop_reason)
                r.result = fn(r.idx)
            except SimStop as e:
                r.exc = e
            except BaseException as e:  # noqa
                r.exc = e
                import traceback
                r.exc_tb = traceback.format_exc()
            r.state = DONE
            self.main_sem.release()

        for r in self.ranks:
            r.thread = threading.Thread(target=body, args=(r,), daemon=True)
            r.thread.sim_rank = r
        self.active = True
        for r in self.ranks:
            r.thread.start()
        last = None
        while True:
            alive = [r for r in self.ranks if r.state != DONE]
            if not alive:
                break
            failed = [r for r in self.ranks if r.state == DONE
                      and r.exc is not None
                      and not isinstance(r.exc, SimStop)]
            cand = self._runnable()
            if self.stop_reason:
                cand = alive
            elif not cand:
                if failed:
                    # mpirun -m mpi4py semantics: the job is aborted as soon
                    # as the remaining ranks cannot continue
                    res.outcome = 'exception'
                else:
                    res.outcome = 'deadlock'
                res.detail = '; '.join(
                    'rank %d waits in %s' % (r.idx, r.wait_desc)
                    for r in alive)
                self._stop(res.outcome)
                continue
            elif self.steps > self.max_steps:
                res.outcome = 'steps'
                self._stop('steps')
                continue
            if self.stop_reason:
                nxt = cand[0]
            else:
                if last in cand:
                    cand = [last] + [c for c in cand if c is not last]
                nxt = cand[self.choose(len(cand))]
            self.steps += 1
            self.clock += 0.001
            last = nxt
            self.cur = nxt
            nxt.sem.release()
            self.main_sem.acquire()
        self.active = False
        for r in self.ranks:
            r.thread.join()
        warnings.filters[:] = base_filters
        _filters_mutated()
        self.open_files.clear()
        excs = [r.exc for r in self.ranks]
        res.results = [r.result for r in self.ranks]
        res.excs = excs
        res.tbs = [r.exc_tb for r in self.ranks]
        if self.stop_reason in ('killed', 'interrupted'):
            res.outcome = self.stop_reason
        if res.outcome == 'ok' and any(
                e is not None and not isinstance(e, SimStop) for e in excs):
            res.outcome = 'exception'
        if res.outcome in ('exception',) and any(
                isinstance(e, SimInterrupt) for e in excs):
            res.outcome = 'interrupted'
        if not res.detail:
            res.detail = '; '.join(
                'rank %d: %s: %s' % (i, type(e).__name__, e)
                for i, e in enumerate(excs)
                if e is not None and not isinstance(e, SimStop))
        if self.snapshot_dir is not None:
            # what survives a kill is what was on the disk at that instant
            disk = os.path.join(self.root, 'disk')
            shutil.rmtree(disk)
            os.rename(self.snapshot_dir, disk)
            self.snapshot_dir = None
        cleanup_logging()
        self.event('job-end', self.job_no, res.outcome,
                   [type(e).__name__ for e in excs])
        return res

    def _stop(self, reason):
        self.stop_reason = reason

    # ---------------------------------------------------------------- seams
    def point(self, site, detail='', can_fail=True):
        """
        An intercepted operation is about to happen in the current rank.
        Yields to the scheduler and fires a planned fault, if any.
        Returns a fault dict for faults the caller has to act out
        (short / torn writes), else None.
        """
        me = self._me()
        if me is None or not self.active or me.depth:
            return None
        if self.stop_reason:
            raise SimStop(self.stop_reason)
        if self.pending_kill is not None and self._kill_safe():
            self._fire(self.pending_kill, site)
            self.pending_kill = None
            self._kill('deferred:' + site)
        key = site
        n = self.counts[key] = self.counts.get(key, 0) + 1
        t = self.counts['*'] = self.counts.get('*', 0) + 1
        self.points[site] = self.points.get(site, 0) + 1
        self.event('r%d' % me.idx, site, detail)
        if not holds_h5_lock():
            self.yield_(site)
        for f in self.faults:
            if f.get('done') or f.get('job', 1) != self.job_no:
                continue
            if f['site'] == '*':
                if t < f['nth'] or f['act'] in ERRORS and \
                        site.startswith(('mpi.', 'clock.')):
                    # a failing network ends an MPI job
                    continue
                if site == 'file.remove' and f['act'] in ERRORS and any(
                        g.get('done') for g in self.faults):
                    # nothing can clean up then
                    continue
            elif f['site'] != site or n < f['nth']:
                continue
            if 'rank' in f and f['rank'] != me.idx:
                continue
            act = f['act']
            if act in ('short', 'torn') and site != 'file.write':
                continue
            if act == 'kill':
                f['done'] = True
                if self._kill_safe():
                    self._fire(f, site)
                    self._kill(site)
                self.pending_kill = f
                continue
            f['done'] = True
            self._fire(f, site)
            if act == 'interrupt':
                for r in self.ranks:
                    if r is not me and r.state == READY:
                        r.pending = SimInterrupt('simulated Ctrl-C')
                raise SimInterrupt('simulated Ctrl-C at %s' % site)
            if act in ERRNOS:
                raise OSError(ERRNOS[act], 'simulated %s' % act, str(detail))
            if act == 'memerr':
                raise MemoryError('simulated allocation failure')
            if act == 'clockjump':
                self.clock += f.get('by', 3600.)
                self.simtime += abs(f.get('by', 3600.))
                continue
            return f
        return None

    def _fire(self, f, site):
        f['fired_at'] = site
        k = '%s@%s' % (f['act'], site)
        self.fired[k] = self.fired.get(k, 0) + 1
        self.event('FAULT', f['act'], site)

    def db_open_for_write(self):
        for path, lst in self.open_files.items():
            for rank, mode, ref in lst:
                if mode != 'r' and is_open(ref):
                    return True
        return False

    def _kill_safe(self):
        """HDF5 is not crash consistent while a file is open for writing;
        kills are only claimed (and injected) between database updates."""
        return not self.db_open_for_write()

    def _kill(self, site):
        """kill -9 of the whole job: keep exactly what is on disk now."""
        self.take_snapshot()
        self._stop('killed')
        raise SimStop('killed')

    def take_snapshot(self):
        snap = os.path.join(self.root, 'snap%d' % self.job_no)
        if os.path.isdir(snap):
            shutil.rmtree(snap)
        with self.bypass():
            shutil.copytree(os.path.join(self.root, 'disk'), snap)
        self.snapshot_dir = snap

    def bypass(self):
        return _Bypass(self)

    def torn_kill(self):
        self.take_snapshot()
        self._stop('killed')
        raise SimStop('killed')

    # h5 single-writer tracking
    def h5_opening(self, path, mode):
        me = self._me()
        if me is None or not self.active:
            return
        rp = os.path.realpath(path)
        lst = self.open_files.setdefault(rp, [])
        lst[:] = [x for x in lst if is_open(x[2])]
        for rank, m, ref in lst:
            if rank != me.idx and (m != 'r' or mode != 'r'):
                self.finding(
                    'concurrent-h5', 'rank %d opens %s (%s) while rank %d '
                    'has it open (%s)' % (
                        me.idx, os.path.basename(path), mode, rank, m))
                raise BlockingIOError(
                    11, 'unable to lock file (simulated)', path)

    def h5_opened(self, path, mode, fobj):
        me = self._me()
        if me is None or not self.active:
            return
        import weakref
        self.open_files.setdefault(os.path.realpath(path), []).append(
            (me.idx, mode, weakref.ref(fobj)))

    # directory order
    def order(self, path, names):
        rel = str(path).replace(self.root, '')
        return sorted(names, key=lambda n: hashlib.md5(
            ('%s|%s|%s|%s' % (
                self.seed, self.order_salt, rel, n)).encode()).digest())


class _Bypass:
    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        self.me = self.sim._me()
        if self.me is not None:
            self.me.depth += 1

    def __exit__(self, *a):
        if self.me is not None:
            self.me.depth -= 1
        return False


ERRNOS = {'enospc': 28, 'eio': 5, 'eacces': 13, 'emfile': 24}
ERRORS = tuple(ERRNOS) + ('memerr',)


def hash_int(x):
    return int(hashlib.sha256(str(x).encode()).hexdigest()[:12], 16)


def is_open(ref):
    f = ref() if callable(ref) else ref
    if f is None:
        return False
    try:
        return bool(f.id.valid)
    except Exception:
        return False


def _filters_mutated():
    try:
        warnings._filters_mutated()
    except AttributeError:
        pass


def cleanup_logging():
    import logging
    for name in list(logging.root.manager.loggerDict):
        if name.startswith('seismic') or name == 'py.warnings':
            lg = logging.getLogger(name)
            for h in list(lg.handlers):
                lg.removeHandler(h)
                try:
                    h.close()
                except Exception:
                    pass
    logging.captureWarnings(False)


# --------------------------------------------------------------------- MPI
class CollMismatch(RuntimeError):
    pass


class SimComm:
    """Stand-in for MPI.COMM_WORLD; rank = the calling simulated rank."""
    def __init__(self, real=None):
        self.sim = None

    # identification
    def Get_rank(self):
        me = self.sim._me() if self.sim else None
        return me.idx if me is not None else 0

    def Get_size(self):
        me = self.sim._me() if self.sim else None
        return self.sim.size if me is not None else 1

    rank = property(Get_rank)
    size = property(Get_size)

    def Get_name(self):
        return 'MPI_COMM_WORLD'

    def Dup(self, *a):
        return self

    Clone = Dup

    def Free(self):
        pass

    def Abort(self, code=0):
        raise SimInterrupt('MPI Abort %s' % code)

    # collective plumbing
    def _enter(self, kind, root, payload, desc=''):
        sim = self.sim
        me = sim._me() if sim else None
        if me is None:
            return None, None
        sim.point('mpi.' + kind, desc)
        seq = me.coll_seq
        me.coll_seq += 1
        slot = sim.coll.setdefault(
            seq, {'sig': (kind, root), 'data': {}, 'by': me.idx})
        sim.collectives += 1
        if slot['sig'] != (kind, root):
            sim.finding(
                'collective-mismatch',
                'collective #%d: rank %d calls %s(root=%s) but rank %d '
                'called %s(root=%s)' % (
                    seq, me.idx, kind, root, slot['by'], *slot['sig']))
            sim._stop('mismatch')
            raise SimStop('mismatch')
        slot['data'][me.idx] = payload
        return slot, me

    def _all(self, slot, desc):
        sim = self.sim
        sim.block_until(
            lambda: len(slot['data']) == sim.size,
            '%s (arrived: %s of %d)' % (
                desc, sorted(slot['data']), sim.size))

    def barrier(self):
        slot, me = self._enter('barrier', None, None)
        if slot is None:
            return
        self._all(slot, 'barrier')

    Barrier = barrier

    def bcast(self, obj, root=0):
        me = self.sim._me() if self.sim else None
        if me is None:
            return obj
        pay = pickle.dumps(obj) if me.idx == root else None
        slot, me = self._enter('bcast', root, pay)
        if me.idx == root:
            return obj
        self.sim.block_until(
            lambda: root in slot['data'], 'bcast from %d' % root)
        return pickle.loads(slot['data'][root])

    def allgather(self, obj):
        slot, me = self._enter('allgather', None, pickle.dumps(obj))
        if slot is None:
            return [obj]
        self._all(slot, 'allgather')
        return [pickle.loads(slot['data'][i]) for i in range(self.sim.size)]

    def gather(self, obj, root=0):
        slot, me = self._enter('gather', root, pickle.dumps(obj))
        if slot is None:
            return [obj]
        if me.idx != root:
            return None
        self._all(slot, 'gather')
        return [pickle.loads(slot['data'][i]) for i in range(self.sim.size)]

    def scatter(self, objs, root=0):
        me = self.sim._me() if self.sim else None
        if me is None:
            return objs[0]
        pay = [pickle.dumps(o) for o in objs] if me.idx == root else None
        if pay is not None and len(pay) != self.sim.size:
            raise ValueError('expecting %d items, got %d' % (
                self.sim.size, len(pay)))
        slot, me = self._enter('scatter', root, pay)
        self.sim.block_until(
            lambda: root in slot['data'], 'scatter from %d' % root)
        return pickle.loads(slot['data'][root][me.idx])

    def alltoall(self, objs):
        slot, me = self._enter(
            'alltoall', None, [pickle.dumps(o) for o in objs])
        if slot is None:
            return list(objs)
        self._all(slot, 'alltoall')
        return [pickle.loads(slot['data'][i][me.idx])
                for i in range(self.sim.size)]

    def _reduce_objs(self, slot, op):
        f = _opfunc(op)
        vals = [pickle.loads(slot['data'][i]) for i in range(self.sim.size)]
        out = vals[0]
        for v in vals[1:]:
            out = f(out, v)
        return out

    def allreduce(self, obj, op=None):
        slot, me = self._enter('allreduce', None, pickle.dumps(obj))
        if slot is None:
            return obj
        self._all(slot, 'allreduce')
        return self._reduce_objs(slot, op)

    def reduce(self, obj, op=None, root=0):
        slot, me = self._enter('reduce', root, pickle.dumps(obj))
        if slot is None:
            return obj
        if me.idx != root:
            return None
        self._all(slot, 'reduce')
        return self._reduce_objs(slot, op)

    # buffer versions
    def Bcast(self, buf, root=0):
        v = _view(buf)
        me = self.sim._me() if self.sim else None
        if me is None:
            return
        slot, me = self._enter(
            'Bcast', root, v.copy() if me.idx == root else None)
        if me.idx == root:
            return
        self.sim.block_until(
            lambda: root in slot['data'], 'Bcast from %d' % root)
        src = slot['data'][root]
        self._same_count('Bcast', src, v)
        v[...] = src

    def _same_count(self, kind, a, b):
        if a.shape != b.shape or a.dtype != b.dtype:
            self.sim.finding(
                'buffer-mismatch', '%s: buffers differ between ranks: %s %s '
                'vs %s %s' % (kind, a.shape, a.dtype, b.shape, b.dtype))
            raise RuntimeError('MPI_ERR_TRUNCATE: message truncated')

    def _reduce_buf(self, kind, sendbuf, recvbuf, op, root):
        from mpi4py import MPI
        me = self.sim._me() if self.sim else None
        inplace = _is_inplace(sendbuf, MPI)
        if me is None:
            if not inplace:
                _view(recvbuf)[...] = _view(sendbuf)
            return
        src = _view(recvbuf if inplace else sendbuf)
        slot, me = self._enter(kind, root, src.copy())
        if root is not None and me.idx != root:
            return
        self._all(slot, kind)
        f = _opfunc(op)
        out = None
        for i in range(self.sim.size):
            a = slot['data'][i]
            if out is None:
                out = a.copy()
            else:
                self._same_count(kind, out, a)
                out = f(out, a)
        dst = _view(recvbuf)
        self._same_count(kind, out, dst)
        dst[...] = out

    def Allreduce(self, sendbuf, recvbuf, op=None):
        self._reduce_buf('Allreduce', sendbuf, recvbuf, op, None)

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        self._reduce_buf('Reduce', sendbuf, recvbuf, op, root)

    def Allgather(self, sendbuf, recvbuf):
        v = _view(sendbuf)
        slot, me = self._enter('Allgather', None, v.copy())
        if slot is None:
            _view(recvbuf)[...] = v
            return
        self._all(slot, 'Allgather')
        import numpy as np
        dst = _view(recvbuf)
        dst[...] = np.concatenate(
            [slot['data'][i] for i in range(self.sim.size)])

    def Gather(self, sendbuf, recvbuf, root=0):
        v = _view(sendbuf)
        slot, me = self._enter('Gather', root, v.copy())
        if slot is None:
            _view(recvbuf)[...] = v
            return
        if me.idx != root:
            return
        self._all(slot, 'Gather')
        import numpy as np
        _view(recvbuf)[...] = np.concatenate(
            [slot['data'][i] for i in range(self.sim.size)])

    # point to point
    def send(self, obj, dest, tag=0):
        sim = self.sim
        me = sim._me()
        sim.point('mpi.send', dest)
        sim.mail.setdefault((me.idx, dest, tag), []).append(
            pickle.dumps(obj))

    def isend(self, obj, dest, tag=0):
        self.send(obj, dest, tag)
        return _Req(None)

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        sim = self.sim
        me = sim._me()
        sim.point('mpi.recv', source)

        def match():
            return [k for k, v in sorted(sim.mail.items())
                    if v and k[1] == me.idx and source in (-1, -2, k[0])
                    and tag in (-1, k[2])]
        sim.block_until(lambda: bool(match()), 'recv from %s' % source)
        return pickle.loads(sim.mail[match()[0]].pop(0))

    def irecv(self, buf=None, source=-1, tag=-1):
        return _Req(lambda: self.recv(None, source, tag))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=-1,
                 recvtag=-1, status=None):
        self.send(sendobj, dest, sendtag)
        return self.recv(None, source, recvtag)


class _Req:
    def __init__(self, f):
        self.f = f

    def wait(self, *a):
        return self.f() if self.f else None

    def test(self, *a):
        return True, self.wait()


def _is_inplace(buf, MPI):
    return buf is MPI.IN_PLACE or buf is None


def _opfunc(op):
    import numpy as np
    from mpi4py import MPI
    if op is None or op == MPI.SUM:
        return lambda a, b: a + b
    if op == MPI.PROD:
        return lambda a, b: a * b
    if op == MPI.MAX:
        return np.maximum
    if op == MPI.MIN:
        return np.minimum
    for k, v in ((MPI.LAND, np.logical_and), (MPI.LOR, np.logical_or)):
        if op == k:
            return v
    if callable(op):
        return op
    raise NotImplementedError('reduction %r' % op)


def _view(buf):
    """1-d numpy view on an mpi4py buffer specification."""
    import numpy as np
    from mpi4py import MPI
    dt = None
    if isinstance(buf, (list, tuple)):
        for x in buf[1:]:
            if isinstance(x, MPI.Datatype):
                dt = x
        buf = buf[0]
    a = np.asarray(buf)
    if not a.flags.c_contiguous:
        raise ValueError('ndarray is not contiguous')
    flat = a.reshape(-1)
    if dt is not None:
        names = (
            (MPI.FLOAT, 'f4'), (MPI.DOUBLE, 'f8'), (MPI.INT, 'i4'),
            (MPI.LONG, 'i8'), (MPI.BYTE, 'u1'), (MPI.COMPLEX, 'c8'),
            (MPI.DOUBLE_COMPLEX, 'c16'), (MPI.C_FLOAT_COMPLEX, 'c8'),
            (MPI.C_DOUBLE_COMPLEX, 'c16'), (MPI.BOOL, 'b1'))
        for k, v in names:
            if k == dt:
                flat = flat.view('u1').view(v)
                break
    return flat


def jdump(o):
    return json.dumps(o, sort_keys=True)
