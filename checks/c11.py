"""Sums and differences of tables, and the builder."""
from .common import ASSUME                                 # noqa: F401
from .config import *
from .config import RULE                                   # noqa: F401

SUM = 'the sum holds every item of either table once, sorted'
DIFF = 'the difference holds the items of the first table that the second does not hold, sorted'


def run(rep):
    for key, a, b, what in (
            ('add', 'sum__impl', 'sum__spec', SUM),
            ('add assign', 'sum_assign__impl', 'sum__spec', SUM),
            ('table add', 'table_add__impl', 'sum__spec', SUM),
            ('sub', 'diff__impl', 'diff__spec', DIFF),
            ('sub assign', 'diff_assign__impl', 'diff__spec', DIFF),
            ('table remove', 'table_remove__impl', 'diff__spec', DIFF),
            ('builder/add', 'add_corr__impl', 'sum__spec', 'add_corr adds to the table so far'),
            ('builder/remove', 'remove_corr__impl', 'diff__spec', 'remove_corr removes from the table so far'),
            ('builder/new', 'new_table__impl', 'new_table__spec', 'a new builder holds nothing'),
            ('builder/default', 'default_table__impl', 'new_table__spec', 'a default table holds nothing'),
            ('builder/rebuild', 'rebuild__impl', 'rebuild__spec', 'a table made into a builder and built is the same')):
        run_pair(rep, key, a, b, what)
    preset()
    run_pair(rep, 'builder/preset', 'preset__impl', 'preset__spec', 'preset adds the preset table to the table so far',
             ALGEBRA)
