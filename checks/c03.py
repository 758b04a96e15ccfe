"""The character converter, position by position, and how it is made from tables."""
from .modpair import *
from .config import run_pair


def run(rep):
    run_pairs(rep, [
        ('modify', 'conv__impl', 'conv__spec', 'the n-th character of the result is the image of the n-th character'),
        ('records', 'conv__pos', 'conv__spec', 'recorded text: the n-th character is the image of the n-th character'),
    ])
    run_pair(rep, 'tables', 'converter__impl', 'converter__spec',
             'made from tables, it maps the first character of each source to the first character of its target; '
             'a later entry wins')
