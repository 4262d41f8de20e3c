#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
TECH = ('deterministic simulation with fault injection: seeded search over '
        'schedules, inputs and fault sequences of the real code, ')
ORACLE = {
    'P01': 'against the one-process run',
    'P02': 'collective matching, deadlock detection, progress, and record '
           'comparison with the one-process run',
    'P03': 'crash/interrupt/IO-error histories against the uninterrupted run',
    'P04': 'operation histories with faults against a dictionary model',
    'P05': 'option histories with faults against a first-wins model',
    'P06': 'stacks against a reference computed from stored windows',
    'P07': 'records against an independent reference correlator',
    'P08': 'archive write histories with short/torn writes and crashes '
           'against a sample map',
    'P09': 'request histories against a simulated provider and a sample map',
    'P10': 'inventory update histories with torn writes against a set model',
    'P11': 'random archives and directory orders against a set model',
    'P12': 'whole-tree digests around every operation of random histories',
    'P13': 'against single-file runs and planted velocity changes',
    'P14': 'against a reference average of single-file runs',
    'P15': 'random directories and call histories against a reference mean',
    'P16': 'save/crash/read histories against the saved object',
    'P17': 'against the one-process run and per-window reference spectra',
    'P18': 'random file structures and requests against a sample map',
    'P19': 'against correlations of data corrected channel by channel from '
           'the true metadata',
    'P20': 'histories of grid operations on dvs in memory and on disk '
           'against a numpy model',
    'P21': 'operation histories with failing allocations, interrupts, kills '
           'and restarts against each row alone, a lag reference and the '
           'uninterrupted history',
    'P22': 'operation histories with failing allocations, interrupts, kills '
           'and restarts against a numpy model of the series',
    'P23': 'histories of whole workflow stages on simulated ranks with kills, '
           'interrupts and I/O faults, repeated and compared with a straight '
           'run and with the imposed velocity change',
}
LEVEL = {'P03': 'exploration'}
NOTE = (
    'Seeded exploration, not exhaustive: holds for the executed seeds. Runs '
    'the unmodified SeisMIC code; trusts numpy, scipy, obspy, h5py/HDF5 and '
    'the tmpfs. The MPI communicator, scheduler, clock, directory order and '
    'fault seams are simulated in process. ')
NOTES = {
    'P01': '1-5 ranks, 1-4 stations, up to 3 read windows per run; samples '
           'compared with 2e-3 of the maximum (float32 FFT).',
    'P03': 'Kills take effect between database updates (HDF5 itself is not '
           'crash consistent while a file is open for writing); interrupts '
           'and I/O errors are injected inside updates as well.',
}
NA = {
    'N01': 'Pure single-threaded function of its arguments: no concurrency, '
           'clock, I/O, fault or multi-party behaviour to simulate. (The part '
           'with I/O and processes, recovery of a planted stretch through '
           'files and MPI, is claimed in P13.)',
    'N02': 'Pure array function without scheduling, time, I/O or faults; '
           'plain input fuzzing would not be deterministic simulation. (Its '
           'consequence, rank-independent results, is decided by P01.)',
    'N05': 'Pure in-memory transformation of one stream; nothing a scheduler '
           'or fault injector could vary. (Its interplay with reading is '
           'covered by P01, P02 and P07.)',
    'N06': 'Drawing is a pure function of the object; no observable state, '
           'schedule or fault behaviour, and the oracle would be an image.',
}


def main():
    props = [json.loads(x) for x in open(os.path.join(
        HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
            checks.append({
                'property': i,
                'quick_cmd': '%s run_check.py %s quick' % (PY, i),
                'thorough_cmd': '%s run_check.py %s thorough' % (PY, i),
                'evidence_file': 'evidence/%s.json' % i,
                'technique': TECH + ORACLE[i],
                'level': LEVEL.get(i, 'exploration'),
                'level_note': NOTE + NOTES.get(i, '')})
        else:
            na.append({'property': i, 'reason': NA.get(
                i, 'check not built yet')})
    m = {
        'version': 1,
        'setup_cmd': '%s tools/selftest.py' % PY,
        'hooks': {
            'guard': 'none',
            'enable': 'No hooks in /repo: all seams are the third-party '
                      'interfaces SeisMIC calls (mpi4py, h5py, open/os, '
                      'obspy), replaced in process by sim/seams.py.',
            'source_commits': []},
        'checks': checks, 'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
