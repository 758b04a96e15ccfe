"""What the ready-made tables have to contain, derived from the Unicode compatibility mappings and a short
list of stated deviations; nothing here comes from the crate's sources."""
import unicodedata


def nfkc(c):
    return unicodedata.normalize('NFKC', c)


def fullwidth(lo, hi):
    return {chr(c): nfkc(chr(c)) for c in range(lo, hi + 1)}


ALPHABETS = {**fullwidth(0xFF21, 0xFF3A), **fullwidth(0xFF41, 0xFF5A)}
DIGITS = fullwidth(0xFF10, 0xFF19)

# full-width ASCII punctuation.  The preset folds the typographic closing quotes and the wave dash instead of
# the full-width quotation mark, apostrophe and tilde.
PUNCTUATIONS = {k: v for k, v in fullwidth(0xFF01, 0xFF5E).items() if k not in ALPHABETS and k not in DIGITS}
for _k in '\uFF02\uFF07\uFF5E':
    del PUNCTUATIONS[_k]
PUNCTUATIONS.update({'\u2019': "'", '\u201D': '"', '\u301C': '~', '\uFFE5': '\u00A5'})

# half-width katakana and punctuation; the prolonged sound mark and the two sound marks are left alone
KANAS = {k: v for k, v in fullwidth(0xFF61, 0xFF9F).items() if k not in '\uFF70\uFF9E\uFF9F'}
KANAS['\u3000'] = ' '          # the ideographic space is kept in this group

PRESET = {**ALPHABETS, **DIGITS, **PUNCTUATIONS, **KANAS}

# CJK compatibility block: the compatibility decomposition, with the micro sign for mu and the plain solidus
# for the division slash, and three units spelt as they are drawn
CJK = {chr(c): nfkc(chr(c)).replace('\u03BC', '\u00B5').replace('\u2215', '/') for c in range(0x3300, 0x3400)}
CJK.update({'\u33CD': 'K.K.', '\u33D7': 'pH', '\u33D9': 'ppm'})

# neologdn: the preset without the equal sign, all long bars become the prolonged sound mark, all hyphens the
# hyphen-minus
CHOONPU = '\uFE63\uFF70\u2014\u2015\u2500\u2501'
HYPHEN = '\u02D7\u058A\u2010\u2011\u2012\u2013\u2043\u207B\u208B\u2212\uFF0D'
NEOLOGDN = {k: v for k, v in PRESET.items() if k != '\uFF1D'}
NEOLOGDN.update({c: '\u30FC' for c in CHOONPU})
NEOLOGDN.update({c: '-' for c in HYPHEN})
TILDES = set('~\u223C\u223E\u301C\u3030\uFF5E')

# sequences kana + sound mark that have a composed form
LIGATURES = {}
for _k in list(range(0x3041, 0x3097)) + list(range(0x30A1, 0x30FB)):
    for _m, _comb in (('\u309B', '\u3099'), ('\u309C', '\u309A')):
        _r = unicodedata.normalize('NFC', chr(_k) + _comb)
        if len(_r) == 1 and _r not in '\u30F7\u30F8\u30F9\u30FA':
            LIGATURES[chr(_k) + _m] = _r

# the few constants whose public name is not the Unicode name (without the width and script prefixes)
ALIASES = {'RIGHT_DOUBLE_QUOTATION_MARK': 'QUOTATION_MARK', 'NUMBER_SIGN': 'SHARP', 'DOLLAR_SIGN': 'DOLLER_SIGN',
           'RIGHT_SINGLE_QUOTATION_MARK': 'APOSTROPHE', 'SOLIDUS': 'SLASH', 'SEMICOLON': 'SEMI_COLON',
           'EQUALS_SIGN': 'EQUAL_SIGN', 'COMMERCIAL_AT': 'AT_SIGN', 'REVERSE_SOLIDUS': 'BACKSLASH',
           'VERTICAL_LINE': 'VERTICAL_BAR', 'WAVE_DASH': 'TILDE'}


def const_name(c):
    n = unicodedata.name(c).replace(' ', '_').replace('-', '_')
    for p in ('FULLWIDTH_', 'HALFWIDTH_', 'LATIN_'):
        n = n.replace(p, '')
    return ALIASES.get(n, n)
