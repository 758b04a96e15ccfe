"""Lists of items: what a correspondence and a table list, when two are equal, where a table came from."""
from .common import ASSUME                                 # noqa: F401
from .config import *
from .config import RULE                                   # noqa: F401


def run(rep):
    for key, a, what in (
            ('linear', 'linear', 'a single mapping lists one item'),
            ('unification', 'unify', 'one item per source, in the order given'),
            ('kept', 'lists', 'a correspondence, a copy and a table list the items they were made from, in order'),
            ('equal', 'same', 'two correspondences are equal exactly if they list the same items in the same order'),
            ('item/order', 'item_eq', 'items compare by source, then target'),
            ('item/new', 'item_new', 'an item keeps its texts'),
            ('origin/csv', 'origin_csv', 'a table read from a file names it'),
            ('origin/yaml', 'origin_yaml', 'a table read from a file names it'),
            ('origin/new', 'origin_new', 'a new table names no file')):
        run_pair(rep, key, a + '__impl', a + '__spec', what)
