"""Steps given as text."""
from contextlib import contextmanager

from sa.product import BUDGET
from .common import ASSUME                                 # noqa: F401
from .config import *
from sa.models import M, ldv
from .config import RULE                                   # noqa: F401

PARTS = {'%s|FromStr|from_str' % k: partial(k) for k in (
    'CharacterConverter', 'CharacterEliminator', 'ConsecutiveCharacterReducer', 'LigatureTranslator')}


def pairs(c):
    """a table collected from a list of pairs is a function of the list"""
    it = c.args[0]
    if it[0] == 'it' and it[1] == 'own':
        it = ('seq', it[2])
    if it[0] != 'seq':
        return M['HashMap|FromIterator|from_iter'](c)
    return c.cx.mk_sym(('pairs', c.cx.rterm(('seq', c.cx.ratoms(it[1])))), c.ret_ty())


def plain(name):
    return lambda c: c.cx.mk_sym((name,) + tuple(c.cx.rterm(ldv(c, a)) for a in c.args), c.ret_ty())


VALUE = {'eliminator': {'chanoma::modifier::character_eliminator::CharacterEliminator::from_chars': plain('eliminator')},
         'converter': {'HashMap|FromIterator|from_iter': pairs}}


@contextmanager
def quick_budget(n):
    """pairs of characters are only compared on short inputs: the fixpoint does not decide them"""
    old = BUDGET['one']
    BUDGET['one'] = 40 if n == 'converter' else old
    try:
        yield
    finally:
        BUDGET['one'] = old


def run(rep):
    for n, what in (('reducer', 'the first character'), ('ligature', 'exactly two values'),
                    ('eliminator', 'the first character of every value'),
                    ('converter', 'the first characters of every pair'), ('plain', 'steps without values take none')):
        with quick_budget(n):
            run_pair(rep, 'value/' + n, 'parse_%s__impl' % n, 'parse_%s__spec' % n, what,
                     VALUE.get(n))
    run_pair(rep, 'step', 'parse__impl', 'parse__spec', 'the name selects the step, the parentheses hold its value',
             PARTS)
