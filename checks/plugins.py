"""Preprocessing functions named in simulated option files."""
import numpy as np
from obspy import UTCDateTime


def fail_if(st, ids, start, end):
    """Raises ValueError if st holds data of one of ids in [start, end]"""
    for tr in st:
        if tr.id in ids and tr.stats.endtime > UTCDateTime(start) \
                and tr.stats.starttime < UTCDateTime(end):
            raise ValueError('cannot process %s' % tr.id)
    return st


def drop(st, ids, start, end):
    """Removes the traces of ids in [start, end]"""
    for tr in list(st):
        if tr.id in ids and tr.stats.endtime > UTCDateTime(start) \
                and tr.stats.starttime < UTCDateTime(end):
            st.remove(tr)
    return st


def scale(st, factor):
    """Harmless, keeps the dtype"""
    for tr in st:
        tr.data = (tr.data * np.float32(factor)).astype(tr.data.dtype)
    return st


def apply_meta(st, drop, invert, responses):
    """What response removal and polarity correction should do, trace by
    trace: responses = {id: zeros, poles and gain}"""
    from sim import world
    for tr in list(st):
        if tr.id in drop:
            st.remove(tr)
            continue
        if tr.id in responses:
            tr.stats.response = world.response_of(responses[tr.id])
            tr.remove_response(taper=False)
            del tr.stats['response']
        if tr.id in invert:
            tr.data = tr.data * -1
    return st
