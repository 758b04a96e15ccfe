from .modpair import *


def run(rep):
    run_pairs(rep, [
        ('modify', 'trim__impl', 'trim__spec', 'leading and trailing half-width spaces go, nothing else does'),
        ('records', 'trim__pos', 'trim__spec', 'recorded text: the same'),
    ])
