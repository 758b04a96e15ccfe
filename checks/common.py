"""Shared pieces of the checks."""
import os
from sa import build
from sa.db import DB
from sa.product import (explore, sym_args, judge_equal, judge_returned, judge_strict, Outcome)     # noqa: F401
from sa.engine import show_val                                                       # noqa: F401

_dbs = {}

ASSUME = [
    'the models of the standard library in sa/models.py describe what std does (they are keyed by resolved path)',
    'rustc lowers the sources to MIR correctly; the analysed MIR is the monomorphised, unoptimised-enough MIR '
    'with overflow and bounds checks kept',
]


def db(kind='lib', which='harness-lib.json'):
    k = (kind, which)
    if k not in _dbs:
        d = DB()
        d.load(os.path.join(build.dump(kind), which))
        _dbs[k] = d
    return _dbs[k]


class Missing(Exception):
    """a reference function does not compile against this tree (an internal interface has changed)"""


def hfn(name, kind='lib', which='harness-lib.json'):
    """a reference-crate function by its last path segment"""
    fs = [f for f in db(kind, which).fns.values() if f.krate == 'harness' and f.path.split('::')[-1] == name]
    if len(fs) != 1:
        raise Missing('reference function %s: %d found' % (name, len(fs)))
    return fs[0]


NOPOS = ('position::Position',)


def pair(rep, key, a, b, what, judge=judge_returned, cuts=None, collapse=NOPOS, args=None, rule='', max_states=20000):
    fa, fb = hfn(a), hfn(b)
    o = explore(db(), [fa, fb], args if args is not None else sym_args(fa), judge, cuts=cuts, collapse=collapse,
                max_states=max_states)
    return rep.outcome(key, o, what, rule), o
