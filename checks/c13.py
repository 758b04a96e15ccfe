"""One configuration file: choice of the format and what is made of it."""
from .common import ASSUME                                 # noqa: F401
from .config import *
from .config import RULE                                   # noqa: F401


def run(rep):
    run_pair(rep, 'extension', 'extension__impl', 'extension__spec',
             'csv is CSV, yaml and yml are YAML, any other or missing extension is an error')
    run_pair(rep, 'file', 'config_file__impl', 'config_file__spec',
             'a file gives the steps it lists and then one converter of its table', LOADERS, judge_steps)
