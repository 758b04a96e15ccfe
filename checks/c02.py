from sa.engine import Unsup
from . import consts, cuts
from .common import db, hfn, explore
from .pipe import *
from .pipe import PIPE_CUTS, STEP_RULE, RULE, ASSUME       # noqa: F401


def from_tables(c):
    from sa.models import ldv
    return c.cx.mk_sym(('from_tables',) + tuple(c.cx.rterm(ldv(c, a)) for a in c.args), c.ret_ty())


TABLE_CUT = {'chanoma::modifier::character_converter::CharacterConverter::from_tables': from_tables}


def last_step(rep, key, fn, args, want, what, other=None, start=True):
    """the pipeline afterwards is the pipeline before with exactly one step appended, equal to `want`"""
    bad = []

    def judge(cx, s):
        r = s.th[0].result
        if r[0] != 'ret':
            return '%s' % (r,)
        q = [x for x in r[1][2] if x[0] == 'seq'] if r[1][0] == 'adt' else []
        if len(q) != 1:
            raise Unsup('the pipeline is not one sequence of steps')
        at = cx.ratoms(q[0][1])
        before = pipeline(cx)[1][1] if start else ()
        if at[:len(before)] != before:
            return 'the earlier steps changed: %s' % (show(at),)
        rest = at[len(before):]
        if len(rest) != 1 or rest[0][0] != 'e':
            return 'not exactly one step appended: %s' % (show(rest),)
        w = want(cx, s)
        if w is None:
            raise Unsup('the expected step is not constant')
        if other and not consts.find(rest[0][1], lambda v: v[0] == 'from_tables') and \
                consts.find(rest[0][1], lambda v: v[0] in ('sq', 'sym', 'el', 'top')):
            raise Unsup('the step is not built by the converter constructor')
        if consts.plain(rest[0][1]) != consts.plain(w):
            return 'the appended step is another one'
        return None
    try:
        fs, av = [hfn(fn)], [args]
        if other:
            fs.append(hfn(other))
            av.append(args[-1:])
        o = explore(db(), fs, av, judge, cuts=TABLE_CUT if other else None)
    except Unsup as e:
        return rep.undecided(key, str(e), rule=RULE)
    return rep.outcome(key, o, what, RULE)


def show(at):
    from sa.engine import show_atoms
    return show_atoms(at)[:200]


def constant_step(name):
    v, why, o = consts.value(name)
    if v is None or v[0] != 'adt':
        return None
    q = [x for x in v[2] if x[0] == 'seq']
    if len(q) != 1 or len(q[0][1]) != 1 or q[0][1][0][0] != 'e':
        return None
    return q[0][1][0][1]


def run(rep):
    run_pair(rep, 'order/normalize', 'normalize__impl', 'normalize__spec',
             'every step is applied once, in order, to the output of the one before; no step, no change',
             [chan_ref, text], [steps_ref, text], PIPE_CUTS)
    run_pair(rep, 'order/records', 'normalize__records', 'normalize__spec',
             'the recorded run applies the same steps in the same order (at least one step)',
             [chan_ref, text], [steps_ref, text], PIPE_CUTS, setup=nonempty)
    kinds = cuts.steps(['CharacterConverter', 'CharacterEliminator', 'ConsecutiveCharacterReducer',
                        'DottedSpaceEliminator', 'LigatureTranslator', 'Trim', 'Neologdn'])
    arg = lambda cx: cx.mk_sym(('m',), hfn('dispatch__impl').locals[1])
    run_pair(rep, 'dispatch/modify', 'dispatch__impl', 'dispatch__spec', 'a step runs its own modifier',
             [arg, text], [arg, text], kinds)
    run_pair(rep, 'dispatch/records', 'dispatch__records', 'dispatch__spec', 'a recorded step runs its own modifier',
             [arg, text], [arg, text], kinds)
    p, n = constant_step('preset_new'), constant_step('neologdn_new')
    last_step(rep, 'grow/preset', 'grow_preset', [chan], lambda cx, s: p, 'use_preset appends the preset step')
    last_step(rep, 'grow/neologdn', 'grow_neologdn', [chan], lambda cx, s: n, 'use_neologdn appends the neologdn step')
    tab = lambda cx: cx.mk_sym(('table',), hfn('table_new').locals[1])
    other = lambda cx, s: s.th[1].result[1] if s.th[1].result[0] == 'ret' else None
    last_step(rep, 'grow/table', 'grow_table', [chan, tab], other, 'add_table appends one converter of that table',
              'table_kind')
    last_step(rep, 'new/table', 'table_new', [tab], other, 'from_table has one step, the converter of that table',
              'table_kind', False)
    for key, fn in (('empty/new', 'empty_new'), ('empty/default', 'empty_default')):
        v, why, o = consts.value(fn, rep)
        if v is None:
            rep.undecided(key, why)
        elif consts.find(v, lambda x: x[0] == 'seq' and x[1]):
            rep.violated(key, 'a new pipeline has steps', rule=RULE)
        else:
            rep.ok(key, 'a new pipeline has no step', rule=RULE)
