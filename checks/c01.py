from . import cuts, neo
from .common import db, explore, sym_args, judge_strict, NOPOS, pair
from .pipe import run_pair, chan_ref, text, nonempty, PIPE_CUTS, STEP_RULE, RULE, ASSUME, hfn   # noqa: F401


def modifier(rep, key, n, what):
    """both runs equal the reference; one equal and the other refuted is a difference between the two"""
    res = []
    for side in ('impl', 'pos'):
        o = explore(db(), [hfn('%s__%s' % (n, side)), hfn('%s__spec' % n)], sym_args(hfn('%s__%s' % (n, side))),
                    judge_strict, collapse=NOPOS)
        res.append((rep.weigh(o), o))
    st = [r[0] for r in res]
    if st == ['ok', 'violated']:
        rep.outcome(key, res[1][1], what + ', recorded run', RULE)
    elif st == ['violated', 'ok']:
        rep.outcome(key, res[0][1], what + ', plain run', RULE)
    elif st == ['ok', 'ok']:
        rep.outcome(key, res[0][1], what, RULE)
        rep.absorb(res[1][1])
    else:
        rep.undecided(key, '%s: plain run %s, recorded run %s' % (what, st[0], st[1]), rule=RULE)


def run(rep):
    run_pair(rep, 'pipeline', 'normalize__impl', 'normalize__records',
             'both runs apply the same steps to the same texts, at any log level',
             [chan_ref, text], [chan_ref, text], PIPE_CUTS, setup=nonempty)
    kinds = cuts.steps(['CharacterConverter', 'CharacterEliminator', 'ConsecutiveCharacterReducer',
                        'DottedSpaceEliminator', 'LigatureTranslator', 'Trim', 'Neologdn'])
    arg = lambda cx: cx.mk_sym(('m',), hfn('dispatch__impl').locals[1])
    run_pair(rep, 'dispatch', 'dispatch__impl', 'dispatch__records', 'both runs choose the same modifier',
             [arg, text], [arg, text], kinds)
    for n, what in (('elim0', 'eliminator without characters'), ('elim1', 'eliminator of one character'),
                    ('elim3', 'eliminator of three characters'), ('reduce', 'consecutive character reducer'),
                    ('dse', 'dotted space eliminator'), ('trim', 'trim'), ('lig0', 'ligature translator, no entry'),
                    ('lig1', 'ligature translator, one entry')):
        modifier(rep, 'modifier/' + n, n, what)
    pair(rep, 'modifier/converter', 'conv__impl', 'conv__pos',
         'both runs of the converter give the same character at every position', judge=judge_strict, rule=RULE)
    a, oa = neo.steps_of('neo__impl')
    b, ob = neo.steps_of('neo__pos')
    rep.absorb(oa)
    rep.absorb(ob)
    if a is None or b is None or isinstance(a, tuple) or isinstance(b, tuple):
        rep.undecided('modifier/neologdn', '; '.join(list(oa.undecided) + list(ob.undecided)), rule=STEP_RULE)
    else:
        d = neo.diff(b, a)
        if d:
            rep.violated('modifier/neologdn', 'recorded run: %s' % d, where=hfn('neo__pos').path, rule=STEP_RULE)
        else:
            rep.ok('modifier/neologdn', 'both runs: %s' % neo.show(a), rule=STEP_RULE)
