"""Normalising never panics."""
from . import cuts, neo
from .common import ASSUME, NOPOS, db, explore, hfn, sym_args                                 # noqa: F401
from .pipe import chan_ref, text, PIPE_CUTS
from sa.engine import Unsup
from sa.product import NUMERIC
from sa.witness import reachable

RULE = ('abstract interpretation of the implementation alone to a fixpoint over texts of unbounded length; a path that '
        'reaches a panic (failed assertion of the compiler, unwrap, slice or index out of bounds, overflow) is the violation')


def open_length(cx, s):
    return any(a[0] in ('len', 'm', 'bp') for g in s.st.ge for a, _ in cx.rl(g)[1])


def judge(cx, s):
    t = s.th[0]
    if t.result[0] != 'panic':
        return None
    if (cx.limit is None or open_length(cx, s)) and str(t.result[1]).lower().startswith(NUMERIC):
        if cx.limit is None or not reachable(cx, s):
            s.note('arithmetic on unbounded lengths')       # confirmed on texts of known length only
    return 'panic: %s' % (t.result[1],)


def go(rep, key, name, what, args=None, rule=RULE, **kw):
    try:
        f = hfn(name)
        o = explore(db(), [f], args or sym_args(f), judge, **kw)
    except Unsup as e:
        return rep.undecided(key, str(e), rule=rule)
    return rep.outcome(key, o, what, rule)


MODIFIERS = (('any_elim__plain', 'any_elim__pos', 'character eliminator'),
             ('det_conv__plain', 'det_conv__pos', 'character converter'),
             ('any_lig__plain', 'any_lig__pos', 'ligature translator'),
             ('det_lig__plain', 'det_lig__pos', 'ligature translator of two entries'),
             ('reduce__impl', 'reduce__pos', 'consecutive character reducer'),
             ('dse__impl', 'dse__pos', 'dotted space eliminator'), ('trim__impl', 'trim__pos', 'trim'))


def run(rep):
    for a, b, what in MODIFIERS:
        n = a.split('__')[0]
        go(rep, n + '/modify', a, what)
        go(rep, n + '/records', b, what + ', recorded run')
    inner = cuts.steps(neo.INNER)
    go(rep, 'neologdn/modify', 'neo__impl', 'neologdn, apart from its steps', cuts=inner)
    go(rep, 'neologdn/records', 'neo__pos', 'neologdn, apart from its steps, recorded run', cuts=inner)
    kinds = cuts.steps([k for k in cuts.KINDS if k != 'ModifierKind'])
    go(rep, 'dispatch/modify', 'dispatch__impl', 'choice of the modifier', cuts=kinds)
    go(rep, 'dispatch/records', 'dispatch__records', 'choice of the modifier, recorded run', cuts=kinds)
    go(rep, 'pipeline/normalize', 'normalize__impl', 'a pipeline of any length, apart from its steps, at any log level',
       [chan_ref, text], cuts=PIPE_CUTS)
    go(rep, 'pipeline/records', 'normalize__records', 'recorded run of a pipeline of any length, apart from its steps',
       [chan_ref, text], cuts=PIPE_CUTS)
