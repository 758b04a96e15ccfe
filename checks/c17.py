"""Tables read from YAML."""
from .common import ASSUME                                 # noqa: F401
from .config import *
from .config import RULE                                   # noqa: F401


def run(rep):
    run_pair(rep, 'items', 'yaml_table__impl', 'yaml_table__spec',
             'every mapping listed in items is read, in the order of the file, in both documented forms')
    run_pair(rep, 'from path', 'from_yaml__impl', 'from_yaml__spec', 'a builder made from a path holds that file', BUILDER)
    run_pair(rep, 'add', 'add_yaml__impl', 'add_yaml__spec', 'adding a file adds its table to the one so far', BUILDER)
