from oracle import tables as T
from .common import ASSUME                              # noqa: F401
from .tables import RULE, content, names, only_map      # noqa: F401


def run(rep):
    content(rep, 'group/alphabets', 'alphabets', T.ALPHABETS, 'full-width letters')
    content(rep, 'group/digits', 'digits', T.DIGITS, 'full-width digits')
    content(rep, 'group/punctuations', 'punctuations', T.PUNCTUATIONS, 'full-width punctuation')
    content(rep, 'group/kanas', 'kanas', T.KANAS, 'half-width katakana')
    content(rep, 'preset/table', 'preset_table', T.PRESET, 'the preset table is the union of the four groups')
    content(rep, 'preset/pipeline', 'preset_new', T.PRESET, 'the preset pipeline converts by the preset table', only_map)
    content(rep, 'preset/use', 'preset_use', T.PRESET, 'use_preset converts by the preset table', only_map)
    names(rep, 'names/alphabets', 'alphabets__names', T.ALPHABETS, 'named constants')
    names(rep, 'names/digits', 'digits__names', T.DIGITS, 'named constants')
    names(rep, 'names/punctuations', 'punctuations__names', T.PUNCTUATIONS, 'named constants')
    names(rep, 'names/kanas', 'kanas__names', T.KANAS, 'named constants')
