from oracle import tables as T
from .common import ASSUME                              # noqa: F401
from .tables import RULE, content, names                # noqa: F401


def run(rep):
    content(rep, 'group/cjk', 'cjk', T.CJK, 'CJK compatibility characters')
    names(rep, 'names/cjk', 'cjk_compatibilities__names', T.CJK, 'named constants')
