"""The neologdn step as a sequence of modifier steps with constant tables."""
from sa.engine import Unsup
from oracle import tables as T
from . import consts, cuts
from .common import db, hfn, explore

INNER = ['CharacterConverter', 'CharacterEliminator', 'ConsecutiveCharacterReducer', 'DottedSpaceEliminator',
         'LigatureTranslator', 'Trim']


def chain(v):
    """nested step applications, innermost (first applied) first"""
    out = []
    while True:
        v = consts.deref(v)
        if v[0] != 'str' or len(v[1]) != 1 or v[1][0][0] != 'sq':
            raise Unsup('not a sequence of modifier steps')
        src = v[1][0][1]
        if src == ('text',):
            return out[::-1]
        if src[0] != 'app' or src[1] != 'step':
            raise Unsup('not a sequence of modifier steps')
        out.append((src[2][1], src[3]))
        v = src[4]


def table(kind, me):
    """the constant a step works with"""
    ms = consts.find(me, lambda x: x[0] in ('map', 'seq'))
    if kind in ('CharacterConverter', 'LigatureTranslator'):
        if len(ms) != 1:
            raise Unsup('table of %s' % kind)
        if ms[0][0] == 'map':
            t = consts.scalar_map(ms[0])
        else:
            t = [tuple(consts.scalar(x) for x in a[1][1]) for a in ms[0][1]]
        if t is None:
            raise Unsup('table of %s' % kind)
        return frozenset(t)
    if kind == 'CharacterEliminator':
        if len(ms) != 1:
            raise Unsup('table of %s' % kind)
        at = ms[0][2] if ms[0][0] == 'map' else ms[0][1]
        return frozenset(consts.char(consts.deref(a[1][1][0] if a[1][0] == 'tup' else
                                                  a[1][0] if isinstance(a[1][0], tuple) else a[1])) for a in at)
    if kind == 'ConsecutiveCharacterReducer':
        cs = consts.find(me, lambda x: x[0] == 'c')
        if len(cs) != 1:
            raise Unsup('character of %s' % kind)
        return consts.char(cs[0])
    return None


def alnum_or_space(c):
    return c == ' ' or (c.isascii() and c.isalnum())


def harmless(kind, t):
    """the step neither reads nor writes spaces and ASCII alphanumerics"""
    if kind == 'CharacterEliminator':
        return not any(alnum_or_space(c) for c in t)
    if kind == 'LigatureTranslator':
        return not any(alnum_or_space(c) for a, b in t for c in a + b)
    return False


def normal(steps):
    """drop a space step that follows another one with only harmless steps in between: after the first, every
    space stands between two ASCII alphanumerics, and a harmless step keeps it there"""
    out = []
    clean = False
    for kind, t in steps:
        if kind == 'DottedSpaceEliminator':
            if clean:
                continue
            clean = True
        elif not harmless(kind, t):
            clean = False
        out.append((kind, t))
    return out


EXPECT = [('CharacterConverter', frozenset(T.NEOLOGDN.items())), ('ConsecutiveCharacterReducer', '\u30FC'),
          ('DottedSpaceEliminator', None), ('CharacterEliminator', frozenset(T.TILDES)),
          ('LigatureTranslator', frozenset(T.LIGATURES.items()))]


def show(st):
    return ' > '.join(k for k, _ in st)


def steps_of(fn):
    """normal form of the steps of one reference function, or (None, why)"""
    out = []
    text = lambda cx: cx.mk_sym(('text',), hfn(fn).locals[1])

    def judge(cx, s):
        r = s.th[0].result
        if r[0] != 'ret':
            out.append(r)
        else:
            out.append(normal([(k, table(k, me)) for k, me in chain(r[1])]))
    o = explore(db(), [hfn(fn)], [text], judge, cuts={**cuts.steps(INNER), **cuts.clones('Neologdn')})
    return (out[0] if len(set(map(repr, out))) == 1 and not o.undecided else None), o


def diff(got, want):
    if [k for k, _ in got] != [k for k, _ in want]:
        return 'the steps are %s, not %s' % (show(got), show(want))
    for (k, a), (_, b) in zip(got, want):
        if a != b:
            if isinstance(a, frozenset):
                return '%s: unexpected %s missing %s' % (k, sorted(a - b)[:4], sorted(b - a)[:4])
            return '%s: %r instead of %r' % (k, a, b)
    return None
