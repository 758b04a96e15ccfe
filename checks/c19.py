"""The result of a call does not depend on the order in which hash tables are visited."""
from .common import ASSUME, db, explore, hfn, judge_strict, sym_args          # noqa: F401
from sa.engine import Unsup
from sa.graph import Reach
from .config import run_pair as compare

RULE = ('self-composition: two copies of the compiled function run in lockstep on the same abstract input, one visiting '
        'every hash table in one order and the other in the opposite order; the obligation holds when the results are '
        'equal in every reachable final state')


ORDERED = ('::get', '::get_mut', '::insert', '::contains', '::contains_key', '::entry', '::new', '::len', '::is_empty',
           '::remove', '::get_key_value', '::with_capacity', '|clone', '|drop', '::clear', '::get_or_insert_with')


def visits(f):
    """does the call graph below f hold a hash table operation whose result depends on an order?"""
    return any(g.mkey.startswith(('HashMap', 'HashSet', 'std::collections::hash::')) and not g.mkey.endswith(ORDERED)
               for g in Reach(db(), [f]).fns())


def twice(rep, key, a, what, collapse=()):
    f = hfn(a)
    try:
        if not visits(f):
            o = explore(db(), [f], sym_args(f), lambda cx, s: None, collapse=('position::Position',))
            if o.decided and not o.cx.stats.get('hash iteration'):
                return rep.outcome(key, o, what + ': no hash table is visited', RULE)
        o = explore(db(), [f, f], sym_args(f), judge_strict, collapse=collapse, split=True)
    except Unsup as e:
        return rep.undecided(key, str(e), rule=RULE)
    return rep.outcome(key, o, what, RULE)


def run(rep):
    compare(rep, 'positions/order', 'order__impl', 'order__spec', 'positions are ordered by their index')
    for key, a, what in (
            ('converter/modify', 'det_conv__plain', 'converted text'),
            ('converter/records', 'det_conv__pos', 'converted text and positions'),
            ('eliminator/modify', 'det_elim__plain', 'text without two characters'),
            ('eliminator/records', 'det_elim__pos', 'text without two characters, and positions'),
            ('reducer/records', 'det_reduce__pos', 'reduced text and positions'),
            ('spaces/records', 'det_dse__pos', 'text without dotted spaces, and positions'),
            ('trim/records', 'det_trim__pos', 'trimmed text and positions'),
            ('ligature/modify', 'det_lig__plain', 'text translated by two entries'),
            ('ligature/records', 'det_lig__pos', 'text translated by two entries, and positions'),
            ('table/add', 'sum__impl', 'sum of two tables'),
            ('table/add assign', 'sum_assign__impl', 'sum of two tables'),
            ('table/sub', 'diff__impl', 'difference of two tables'),
            ('table/sub assign', 'diff_assign__impl', 'difference of two tables'),
            ('table/converter', 'converter__impl', 'converter made from tables'),
            ('ligature/known', 'det_lig_known__plain', 'text translated by two entries that feed each other')):
        twice(rep, key, a, what)
