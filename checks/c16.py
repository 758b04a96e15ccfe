"""Tables read from CSV."""
from .common import ASSUME                                 # noqa: F401
from .config import *
from .config import RULE                                   # noqa: F401


def run(rep):
    run_pair(rep, 'records', 'csv_table__impl', 'csv_table__spec',
             'every field of a record but the last maps to the last, record by record')
    run_pair(rep, 'from path', 'from_csv__impl', 'from_csv__spec', 'a builder made from a path holds that file', BUILDER)
    run_pair(rep, 'add', 'add_csv__impl', 'add_csv__spec', 'adding a file adds its table to the one so far', BUILDER)
