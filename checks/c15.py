"""Modifiers listed in YAML."""
from .common import ASSUME                                 # noqa: F401
from .config import *
from .config import RULE                                   # noqa: F401


def run(rep):
    run_pair(rep, 'list', 'yaml_steps__impl', 'yaml_steps__spec',
             'every entry of the modifiers mapping gives one step, in the order of the file', STEP)
    run_pair(rep, 'entry', 'yaml_step__impl', 'yaml_step__spec',
             'a name and a value give the modifier of that name, built from all parts of the value')
