from .modpair import *


def run(rep):
    run_pairs(rep, [
        ('modify', 'dse__impl', 'dse__spec', 'a space survives only as the separator of two ASCII alphanumerics'),
        ('records', 'dse__pos', 'dse__spec', 'recorded text: the same'),
    ])
