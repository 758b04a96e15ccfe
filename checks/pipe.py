"""Pipelines: a Chanoma value with an arbitrary list of steps."""
from sa.engine import Unsup
from . import cuts
from .common import db, hfn, explore, judge_strict
from .modpair import RULE, ASSUME                          # noqa: F401

PIPE_CUTS = {**cuts.steps(['ModifierKind']),
             **cuts.clones('ModifierKind', 'ModifiedRecord')}
STEP_RULE = RULE + '; a modifier step is an uninterpreted function of the modifier and its input'


def chanoma_ty():
    d = db()
    f = hfn('grow_preset')
    return f.locals[1]


def pipeline(cx):
    """the steps of an arbitrary pipeline as one opaque sequence, found by its type"""
    v = cx.open_sym(cx.mk_sym(('pipeline',), chanoma_ty()), 0)
    q = [x for x in v[2] if x[0] == 'seq']
    if len(q) != 1:
        raise Unsup('the pipeline is not one sequence of steps')
    return v, q[0]


def chan(cx):
    return pipeline(cx)[0]


def chan_ref(cx):
    return ('ref', pipeline(cx)[0])


def steps_ref(cx):
    return ('ref', pipeline(cx)[1])


def text(cx):
    return cx.mk_sym(('text',), hfn('normalize__impl').locals[2])


def nonempty(cx, s):
    """restrict to pipelines with at least one step"""
    old = cx.S
    cx.S = s
    q = pipeline(cx)[1]
    s.st.ge.add(cx.rl((-1, q[1][0][4][1])))
    cx.S = old


def run_pair(rep, key, a, b, what, aa, bb, cut, judge=judge_strict, setup=None, rule=STEP_RULE):
    try:
        o = explore(db(), [hfn(a), hfn(b)], [aa, bb], judge, cuts=cut, setup=setup)
    except Unsup as e:
        return rep.undecided(key, str(e), rule=rule)
    return rep.outcome(key, o, what, rule)
