"""Relational analysis of one modifier against its reference."""
from . import common
from .common import pair, ASSUME

RULE = ('relational abstract interpretation of the compiled program (MIR): implementation and reference run in '
        'lockstep over one shared abstract text whose characters are segments of unbounded length; a fixpoint over '
        'the finite abstract domain covers every text and every configured character; the obligation holds when '
        'both sides return the same text in every reachable final state')

__all__ = ['run_pairs', 'RULE', 'ASSUME', 'common']


def run_pairs(rep, pairs):
    for key, a, b, what in pairs:
        pair(rep, key, a, b, what, judge=common.judge_strict, rule=RULE)
