from .modpair import *


def run(rep):
    run_pairs(rep, [
        ('none/modify', 'elim0__impl', 'elim0__spec', 'with no listed character the text is unchanged'),
        ('none/records', 'elim0__pos', 'elim0__spec', 'with no listed character the recorded text is unchanged'),
        ('one/modify', 'elim1__impl', 'elim1__spec', 'one listed character disappears, every other stays in order'),
        ('one/records', 'elim1__pos', 'elim1__spec', 'recorded text: one listed character disappears'),
        ('three/modify', 'elim3__impl', 'elim3__spec', 'three listed characters disappear, every other stays'),
        ('three/records', 'elim3__pos', 'elim3__spec', 'recorded text: three listed characters disappear'),
    ])
