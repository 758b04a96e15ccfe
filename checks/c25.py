"""What the recorded run of a step reports as replaced."""
from .common import ASSUME, db, explore, hfn, sym_args                                 # noqa: F401
from .config import RULE, run_pair
from sa.engine import Unsup, show_val


def nothing(rep, key, name, what):
    def judge(cx, s):
        r = s.th[0].result
        if r[0] == 'panic':
            return None                 # C21
        v = r[1]
        if v[0] != 'seq':
            raise Unsup('the changes are not a list')
        return None if not cx.ratoms(v[1]) else 'reports %s' % show_val(v)[:200]
    try:
        f = hfn(name)
        o = explore(db(), [f], sym_args(f), judge)
    except Unsup as e:
        return rep.undecided(key, str(e), rule=RULE)
    return rep.outcome(key, o, what, RULE)


def changes_only(cx, s):
    cx.forget = {'chanoma::position::Position': {'index', 'length', 'utf8_index', 'utf8_length'}}


def run(rep):
    run_pair(rep, 'trim', 'chg_trim__impl', 'chg_trim__spec',
             'the removed spaces at the start and at the end, where they were')
    run_pair(rep, 'reducer', 'chg_reduce__impl', 'chg_reduce__spec', 'every run of the character, in text order',
             setup=changes_only)
    run_pair(rep, 'converter', 'chg_conv__impl', 'chg_conv__spec',
             'every character the table lists, where it was, with its image, in text order')
    for n, what in (('elim', 'the eliminator'), ('lig', 'the ligature translator'), ('dse', 'the dotted space eliminator')):
        nothing(rep, 'none/' + n, 'chg_%s__impl' % n, what + ' reports nothing')
