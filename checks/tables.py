"""Table contents against the Unicode-derived oracle."""
from . import consts
from oracle import tables as T

RULE = ('interprocedural constant propagation through the table constants and their composition; the resulting '
        'constant is compared with mappings derived from the Unicode Character Database')


def esc(p):
    return ', '.join('%s U+%04X -> %s' % (a, ord(a[0]) if a else 0, b) for a, b in sorted(p)[:6])


def content(rep, key, fn, want, what, get=consts.items):
    v, why, o = consts.value(fn, rep)
    if v is None:
        return rep.undecided(key, why, rule=RULE)
    it = get(v)
    if it is None:
        return rep.undecided(key, 'the value is not a constant table', rule=RULE)
    got, want = set(it), set(want.items())
    where = consts.hfn(fn).path
    if got == want:
        return rep.ok(key, '%s: %d entries' % (what, len(got)), rule=RULE)
    d = []
    if got - want:
        d.append('unexpected %s' % esc(got - want))
    if want - got:
        d.append('missing %s' % esc(want - got))
    return rep.violated(key, '%s: %s' % (what, '; '.join(d)), where=where, rule=RULE)


def names(rep, key, fn, want, what):
    """every public named constant maps the character its name says"""
    v, why, o = consts.value(fn, rep)
    if v is None:
        return rep.undecided(key, why, rule=RULE)
    got = {}
    for a in v[1]:
        n, it = consts.text(a[1][1][0]), consts.items(consts.deref(a[1][1][1]))
        if n is None or it is None:
            return rep.undecided(key, 'a named constant is not a constant table', rule=RULE)
        got[n] = it
    exp = {T.const_name(c): [(c, w)] for c, w in want.items()}
    bad = sorted(n for n in exp if n in got and got[n] != exp[n])
    miss = sorted(n for n in exp if n not in got)
    if bad:
        return rep.violated(key, '%s: %s' % (what, '; '.join('%s is %s' % (n, got[n]) for n in bad[:4])), rule=RULE,
                            where=consts.hfn(fn).path)
    if miss:
        return rep.undecided(key, 'no constant for %s' % miss[:4], rule=RULE)
    return rep.ok(key, '%s: %d constants' % (what, len(exp)), rule=RULE)


def only_map(v):
    """the one character map of a pipeline value"""
    ms = [consts.scalar_map(m) for m in consts.find(v, lambda x: x[0] == 'map')]
    ms = [m for m in ms if m is not None]
    return ms[0] if len(ms) == 1 else None
