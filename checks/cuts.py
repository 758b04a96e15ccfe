"""Call summaries: a modifier step is treated as an uninterpreted function of the modifier and the text."""
from sa.engine import Unsup
from sa.models import appstr, ldv

KINDS = ['CharacterConverter', 'CharacterEliminator', 'ConsecutiveCharacterReducer', 'DottedSpaceEliminator',
         'LigatureTranslator', 'Trim', 'Neologdn', 'ModifierKind']


def step_text(c, kind):
    cx = c.cx
    me = cx.rterm(ldv(c, c.args[0]))
    return appstr(cx, 'step', ('kind', kind), me, ldv(c, c.args[1]))


def modify(kind):
    return lambda c: step_text(c, kind)


def record(kind):
    """a record whose text is the step's text; kind and positions are the step's own business"""
    def f(c):
        cx = c.cx
        t = step_text(c, kind)
        ty = cx.ty(c.ret_ty())
        if ty['k'] != 'adt' or len(ty['variants']) != 1:
            raise Unsup('record type')
        fs = []
        seen = False
        for name, fty in ty['variants'][0][2]:
            if name == 'text':
                fs.append(t)
                seen = True
            else:
                fs.append(cx.mk_sym(('rec', name, cx.rterm(t)), fty))
        if not seen:
            raise Unsup('record without a text')
        return ('adt', 0, tuple(fs))
    return f


def steps(kinds):
    d = {}
    for k in kinds:
        d['%s|Modifier|modify' % k] = modify(k)
        d['%s|Modifier|modify_with_positions' % k] = record(k)
    return d


def clones(*types):
    """Clone of these types yields an equal value"""
    return {'%s|Clone|clone' % t: (lambda c: ldv(c, c.args[0])) for t in types}
