"""Failures while reading a configuration are reported as errors."""
from .common import ASSUME                                 # noqa: F401
from .config import *
from .config import RULE                                   # noqa: F401


def run(rep):
    for key, a, what, cuts in (
            ('csv', 'csv_table', 'unreadable or malformed CSV', None),
            ('yaml items', 'yaml_table', 'unreadable, malformed or wrongly typed YAML items', None),
            ('yaml steps', 'yaml_steps', 'unreadable, malformed or wrongly typed YAML modifiers', STEP),
            ('yaml step', 'yaml_step', 'unknown name or wrongly typed value of a modifier', None),
            ('file', 'config_file', 'failure of one part of a file', LOADERS)):
        run_pair(rep, key, a + '__impl', a + '__spec', what + ' is an error, and nothing else is', cuts, judge_ok)
    for key, what, setup in (('env', 'CHANOMARC names no loadable file', given(env_set=True)),
                             ('search', 'failure of any file that was found', given(env_set=False, home_ok=False))):
        run_pair(rep, 'rc/' + key, 'load_rc__impl', 'load_rc__spec', what + ' is an error, and nothing else is',
                 LOADERS, judge_ok, setup=setup)
    for key, a in (('builder/csv', 'from_csv'), ('builder/yaml', 'from_yaml'), ('builder/add csv', 'add_csv'),
                   ('builder/add yaml', 'add_yaml')):
        run_pair(rep, key, a + '__impl', a + '__spec', 'a failing reader is an error and changes nothing',
                 BUILDER, judge_ok)
