from oracle import tables as T
from .common import ASSUME                                                   # noqa: F401
from . import neo

RULE = ('abstract interpretation of the step with its inner modifiers as uninterpreted functions gives the sequence '
        'of inner steps for every text; their tables are found by constant propagation and compared with tables '
        'derived from Unicode; a space step is dropped from the sequence where the steps since the previous one '
        'touch neither spaces nor ASCII alphanumerics')


def overlap(a, b):
    return a in b or any(a[-n:] == b[:n] for n in range(1, min(len(a), len(b))))


def run(rep):
    for key, fn, what in (('steps/modify', 'neo__impl', 'the steps and their tables'),
                          ('steps/records', 'neo__pos', 'the recorded steps and their tables')):
        got, o = neo.steps_of(fn)
        rep.absorb(o)
        if got is None or isinstance(got, tuple):
            rep.undecided(key, '; '.join(o.undecided) or str(got), rule=RULE)
            continue
        d = neo.diff(got, neo.EXPECT)
        if d:
            rep.violated(key, '%s: %s' % (what, d), where=neo.hfn(fn).path, rule=RULE)
        else:
            rep.ok(key, '%s: %s' % (what, neo.show(got)), rule=RULE)
        lig = [t for k, t in got if k == 'LigatureTranslator']
        fr = {a for a, _ in lig[0]} if lig else set()
        to = {c for _, b in lig[0] for c in b} if lig else set()
        clash = sorted(a for a in fr if set(a) & to or any(a != b and overlap(a, b) for b in fr))
        if not lig:
            rep.undecided(key + '/confluent', 'no ligature step', rule=RULE)
        elif clash:
            rep.undecided(key + '/confluent', 'sequences overlap: %s' % clash[:3], rule=RULE)
        else:
            rep.ok(key + '/confluent', 'no ligature sequence overlaps another: their order does not matter', rule=RULE)
