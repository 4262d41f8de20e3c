#!/usr/bin/env python3
"""Setup: checks that the simulator and the code under test can be loaded and
that the simulator finds a planted deadlock, a lost update and nothing else.
"""
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)

from sim import core, seams  # noqa: E402

seams.import_repo()


def job(fn, size=3, **kw):
    root = tempfile.mkdtemp(prefix='vsim-self-')
    os.makedirs(os.path.join(root, 'disk'))
    try:
        s = core.Sim(1, root, **kw)
        seams.activate(s)
        r = s.run_job(size, fn)
        return s, r
    finally:
        seams.deactivate()
        shutil.rmtree(root)


def main():
    from mpi4py import MPI
    c = MPI.COMM_WORLD
    s, r = job(lambda k: c.allgather(k * k))
    assert r.outcome == 'ok' and r.results == [[0, 1, 4]] * 3, r.__dict__
    s, r = job(lambda k: c.bcast(7, root=0) if k else None)
    assert r.outcome == 'deadlock', r.outcome
    s, r = job(lambda k: c.barrier() if k else c.bcast(1))
    assert s.findings[0].kind == 'collective-mismatch'
    a, _ = job(lambda k: [c.allgather(k) for _ in range(4)])
    b, _ = job(lambda k: [c.allgather(k) for _ in range(4)])
    assert a.digest() == b.digest()
    print('self test passed')


if __name__ == '__main__':
    main()
