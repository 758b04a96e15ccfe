from .modpair import *


def run(rep):
    run_pairs(rep, [
        ('none/modify', 'lig0__impl', 'lig0__spec', 'with no entry the text is unchanged'),
        ('none/records', 'lig0__pos', 'lig0__spec', 'with no entry the recorded text is unchanged'),
        ('one/modify', 'lig1__impl', 'lig1__spec', 'every occurrence of the sequence is replaced'),
        ('one/records', 'lig1__pos', 'lig1__spec', 'recorded text: every occurrence is replaced'),
    ])
