"""Interprocedural constant propagation: argument-free functions of the crate whose value the abstract
interpretation determines completely, and decoding of such values."""
from .common import db, explore, hfn


def value(name, rep=None, kind='lib', cuts=None):
    """(value, why): the single constant a reference function evaluates to, or None and the reason"""
    out = []
    o = explore(db(kind), [hfn(name)], [], lambda cx, s: out.append((s.th[0].result, s.inexact)), cuts=cuts)
    if rep is not None:
        rep.absorb(o)
    if o.undecided:
        return None, '; '.join(o.undecided), o
    if not out or any(x[1] - {'hash iteration order'} for x in out):
        return None, '%d final states' % len(out), o
    if len({plain(x[0]) for x in out}) > 1:
        return None, 'the value depends on hash iteration order', o
    r = out[0][0]
    if r[0] != 'ret':
        return None, '%s %s' % (r[0], r[1:]), o
    return r[1], None, o


def deref(v):
    while isinstance(v, tuple) and v and v[0] == 'ref':
        v = v[1]
    return v


def char(v):
    v = deref(v)
    if v[0] == 'c' and v[1][0] == 'k':
        return chr(v[1][1])
    return None


def text(v):
    v = deref(v)
    if v[0] != 'str':
        return None
    out = []
    for a in v[1]:
        c = char(a[1]) if a[0] == 'e' else None
        if c is None:
            return None
        out.append(c)
    return ''.join(out)


def scalar(v):
    v = deref(v)
    t = text(v)
    if t is not None:
        return t
    return char(v)


def items(v):
    """Vec<Item> -> [(from, to)]; Item is recognised as a struct of two constant strings"""
    if v[0] != 'seq':
        return None
    out = []
    for a in v[1]:
        if a[0] != 'e' or a[1][0] != 'adt':
            return None
        p = [text(x) for x in a[1][2]]
        if len(p) != 2 or None in p:
            return None
        out.append(tuple(p))
    return out


def find(v, pred, out=None):
    """all sub-values satisfying pred, outermost first"""
    if out is None:
        out = []
    if isinstance(v, tuple):
        if v and isinstance(v[0], str) and pred(v):
            out.append(v)
            return out
        for x in v:
            find(x, pred, out)
    return out


def scalar_map(v):
    """a constant map of characters/strings as a list of pairs in insertion order, or None"""
    if not (v[0] == 'map' and len(v) == 3):
        return None
    out = []
    for a in v[2]:
        if a[0] != 'e':
            return None
        e = a[1] if a[1] and a[1][0] == 'tup' else ('tup', a[1])
        k, w = e[1][0], e[1][1]
        k, w = scalar(k), scalar(w)
        if k is None or w is None:
            return None
        out.append((k, w))
    return out


def plain(v):
    """a constant with its maps as sets of entries"""
    if isinstance(v, tuple):
        if v and v[0] == 'ref':
            return plain(v[1])
        if len(v) == 3 and v[0] == 'map':
            return ('map', frozenset(plain(x) for x in v[2]))
        return tuple(plain(x) for x in v)
    return v
