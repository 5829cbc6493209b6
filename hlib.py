"""Vocabulary of the property units: plain Python, run natively for replays and interpreted
symbolically by sym/interp.py for the solver-based check."""
import os
import tempfile

import numpy as np


class Violation(Exception):
    pass


class Skip(Exception):
    pass


TOL = 1e-6


def check(cond, msg=''):
    if not cond:
        raise Violation(msg)


def assume(cond):
    if not cond:
        raise Skip()


def reach(cond, label):
    """vacuity witness: some input must satisfy cond here"""


def close(a, b):
    """equality of real numbers (exact for the solver, with a tolerance when replayed)"""
    d = abs(a - b)
    return bool(d <= TOL * max(1.0, abs(a), abs(b)))


def nonzero(a):
    """clearly different from zero"""
    return bool(abs(a) > TOL)


def after(earlier, main, **kw):
    """main after other calls in the same process"""
    for f, args in earlier:
        try:
            f(**args)
        except Skip:
            pass
    return main(**kw)


def dense(m):
    """dense array of a matrix"""
    return m.toarray()


def workdir(*dirs):
    """a fresh current directory (inside the scratch directory of the run) with these sub-directories"""
    os.chdir(tempfile.mkdtemp(dir='.'))
    for d in dirs:
        os.makedirs(d)


READS = []


def reads():
    """paths of the files opened for reading since the last call, in order"""
    r = list(READS)
    READS.clear()
    return r


def nfiles():
    """number of files below the current directory"""
    return sum(len(f) for _, _, f in os.walk('.'))
