from .modpair import *


def run(rep):
    run_pairs(rep, [
        ('modify', 'reduce__impl', 'reduce__spec', 'each run of the character becomes one, all else stays'),
        ('records', 'reduce__pos', 'reduce__spec', 'recorded text: each run becomes one, all else stays'),
    ])
