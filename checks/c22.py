"""Building tables, converters, steps and pipelines never panics."""
from . import c18
from .c02 import TABLE_CUT
from .c21 import go
from .common import ASSUME, db, explore, hfn                                 # noqa: F401
from .config import ALGEBRA, preset
from .pipe import chan_ref                                                   # noqa: F401
from sa.engine import Unsup

RULE = ('abstract interpretation of the implementation alone to a fixpoint over tables of any number of arbitrary items; a '
        'path that reaches a panic (failed assertion of the compiler, unwrap, slice or index out of bounds, overflow) is '
        'the violation')

BUILD = (
    ('sum', 'sum__impl', 'sum of two tables', None), ('sum assign', 'sum_assign__impl', 'sum of two tables', None),
    ('table add', 'table_add__impl', 'sum of two tables', None), ('difference', 'diff__impl', 'difference of two tables', None),
    ('difference assign', 'diff_assign__impl', 'difference of two tables', None),
    ('table remove', 'table_remove__impl', 'difference of two tables', None),
    ('builder/add', 'add_corr__impl', 'adding to a builder', None),
    ('builder/remove', 'remove_corr__impl', 'removing from a builder', None),
    ('builder/new', 'new_table__impl', 'a new builder', None), ('builder/default', 'default_table__impl', 'a default table', None),
    ('builder/rebuild', 'rebuild__impl', 'a table made into a builder and built', None),
    ('builder/preset', 'preset__impl', 'adding the preset table', ALGEBRA),
    ('converter', 'converter__impl', 'a converter made from any number of tables', None),
    ('pipeline/preset', 'preset_new', 'the preset pipeline', None), ('pipeline/neologdn', 'neologdn_new', 'the neologdn pipeline', None),
    ('pipeline/step', 'neologdn_kind', 'the neologdn step', None), ('pipeline/empty', 'empty_new', 'an empty pipeline', None),
    ('pipeline/default', 'empty_default', 'a default pipeline', None),
    ('groups/alphabets', 'alphabets', 'the named constants', None), ('groups/digits', 'digits', 'the named constants', None),
    ('groups/punctuations', 'punctuations', 'the named constants', None), ('groups/kanas', 'kanas', 'the named constants', None),
    ('groups/cjk', 'cjk', 'the named constants', None),
)


def run(rep):
    for key, fn, what, cuts in BUILD:
        if cuts is ALGEBRA:
            try:
                preset()
            except Unsup as e:
                rep.undecided(key, str(e), rule=RULE)
                continue
        go(rep, key, fn, what, rule=RULE, cuts=cuts)
    for fn in ('table_new', 'table_kind'):
        go(rep, 'pipeline/' + fn, fn, 'a pipeline made from a table', rule=RULE)
    for n in range(5 if rep.tier == 'thorough' else 4):
        for f in ('csv', 'yaml'):
            go(rep, 'export/%s/%d' % (f, n), 'export_%s__impl' % f, 'writing a table of %d items to memory' % n,
               [c18.table(n)], rule=RULE)
