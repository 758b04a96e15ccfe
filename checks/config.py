"""Loading of configuration files: readers as uninterpreted partial functions of the path."""
from sa.engine import Unsup
from sa.models import UNIT, app, err, ldv, ok
from . import consts
from .c02 import from_tables
from .common import db, explore, hfn, judge_strict, sym_args
from sa.product import NUMERIC

RULE = ('relational abstract interpretation of the implementation and a reference function over the same symbolic '
        'file system and environment: fixpoint over paired program points, results compared on every path; the '
        'csv and YAML readers are uninterpreted partial functions of the path')


def partial(name, *idx):
    """an uninterpreted function that may fail: the outcome depends on the arguments only"""
    def f(c):
        cx = c.cx
        ts = []
        for i in idx or range(len(c.args)):
            v = ldv(c, c.args[i])
            if v[0] in ('str', 'ref') or v[0] == 'sym' and cx.tystr(v[2]) in ('std::path::Path', 'std::path::PathBuf'):
                v = ('str', cx.str_atoms(v))
            ts.append(cx.rterm(v))
        t = cx.ty(c.ret_ty())
        okty = [a for a in t['args'] if isinstance(a, int)][0]
        if cx.pred((name + ' succeeds',) + tuple(ts)):
            return ok(cx.mk_sym((name,) + tuple(ts), okty))
        tys = [a for a in t['args'] if isinstance(a, int)]
        e = cx.mk_sym((name + ' error',) + tuple(ts), tys[1]) if len(tys) > 1 else None
        return err(e if e is not None else ('opq', name + ' failed') + tuple(ts))
    return f


LOADERS = {'chanoma::file::table_from_csv_path': partial('csv table'),
           'chanoma::file::table_from_yaml_path': partial('yaml table'),
           'chanoma::file::modifiers_from_yaml_path': partial('yaml steps'),
           'chanoma::modifier::character_converter::CharacterConverter::from_tables': from_tables}
STEP = {'chanoma::modifier_kind::ModifierKind::from_yaml_key_value': partial('step')}


def steps_of(v):
    """Ok(pipeline) -> Ok(its list of steps)"""
    if v[0] == 'adt' and v[1] == 0 and len(v[2]) == 1:
        q = v[2][0]
        if q[0] == 'adt':
            s = [x for x in q[2] if x[0] == 'seq']
            if len(s) != 1:
                raise Unsup('the pipeline is not one sequence of steps')
            return ('adt', 0, (s[0],))
    return v


def judge_steps(cx, s):
    for t in s.th:
        if t.result is not None and t.result[0] == 'ret':
            t.result = ('ret', steps_of(t.result[1])) + tuple(t.result[2:])
    return judge_strict(cx, s)


def run_pair(rep, key, a, b, what, cuts=None, judge=judge_strict, **kw):
    fa = hfn(a)
    try:
        o = explore(db(), [fa, hfn(b)], sym_args(fa), judge, cuts=cuts, **kw)
    except Unsup as e:
        return rep.undecided(key, str(e), rule=RULE)
    return rep.outcome(key, o, what, RULE)


def given(**kw):
    """restrict the environment: env_set / home_ok / cwd_ok"""
    def f(cx, s):
        old = cx.S
        cx.S = s
        for k, b in kw.items():
            p = ('env_set', ('str', cx.str_atoms(cx.lit('CHANOMARC')))) if k == 'env_set' else (k,)
            s.st.preds[cx.rterm(p)] = b
        cx.S = old
    return f


def total(name, *idx):
    """an uninterpreted function that always succeeds"""
    g = partial(name, *idx)

    def f(c):
        cx = c.cx
        old = cx.pred
        cx.pred = lambda p, **k: True
        try:
            return g(c)
        finally:
            del cx.pred
    return f


READABLE = {**LOADERS, 'chanoma::file::table_from_csv_path': total('csv table'),
            'chanoma::file::table_from_yaml_path': total('yaml table'),
            'chanoma::file::modifiers_from_yaml_path': total('yaml steps')}


def judge_ok(cx, s):
    """both fail or both succeed; neither panics"""
    r = []
    for t in s.th[:2]:
        if t.result[0] == 'panic':
            if str(t.result[1]).lower().startswith(NUMERIC):
                return None
            return 'panic: %s' % (t.result[1],)
        v = t.result[1]
        if v[0] != 'adt':
            raise Unsup('the outcome is not known')
        r.append(v[1])
    return None if r[0] == r[1] else ('succeeds where it has to fail' if r[0] == 0 else 'fails where it has to succeed')


def returns(rep, key, a, what, cuts=None, **kw):
    """the function returns on every path: no panic"""
    def judge(cx, s):
        t = s.th[0].result
        if t[0] != 'panic' or str(t[1]).lower().startswith(NUMERIC):
            return None
        return 'panic: %s' % (t[1],)
    fa = hfn(a)
    try:
        o = explore(db(), [fa], sym_args(fa), judge, cuts=cuts, **kw)
    except Unsup as e:
        return rep.undecided(key, str(e), rule=RULE)
    return rep.outcome(key, o, what, RULE)


def word(v):
    """the one list inside a correspondence"""
    while v[0] == 'adt' and len(v[2]) == 1:
        v = v[2][0]
    if v[0] != 'seq':
        raise Unsup('the table is not one list of items')
    return v


def rewrap(v, w):
    return ('adt', v[1], (rewrap(v[2][0], w),)) if v[0] == 'adt' else w


PRESET = []


def preset():
    """the items of the preset table, by constant propagation"""
    if not PRESET:
        v, why, _ = consts.value('all_items')
        if v is None:
            raise Unsup('preset table: ' + why)
        PRESET.append(v)
    return PRESET[0]


def table_word(c, v):
    cx = c.cx
    v = ldv(c, v)
    if v == ('adt', 0, (('adt', 0, ()),)) and PRESET and any(
            cx.tystr(c.arg_ty(i)).replace('&', '').endswith('Correspondence<chanoma::characters_set::All>')
            for i in range(2)):
        return PRESET[0]
    while v[0] == 'sym':
        v = cx.open_sym(v, 0)
    if v[0] == 'adt' and len(v[2]) == 1 and v[2][0][0] == 'sym':
        return table_word(c, v[2][0])
    return word(v)


def combined(name):
    def new(c, a, b, ty):
        try:
            a, b = table_word(c, a), table_word(c, b)
        except Unsup:
            return None
        ety = next((x[2] for x in a[1] + b[1] if x[0] == 'sq'), None)
        if ety is None:
            return a if not b[1] else None
        return ('seq', (app(c.cx, name, a, b, ety=ety),))

    def plain(c):
        w = new(c, c.args[0], c.args[1], None)
        if w is None:
            return NotImplemented           # tables known in full: the code itself is followed
        return ('adt', 0, (('adt', 0, (w,)),))

    def assign(c):
        w = new(c, c.cx.load(c.args[0]), c.args[1], None)
        if w is None:
            return NotImplemented
        c.cx.store(c.args[0], ('adt', 0, (('adt', 0, (w,)),)))
        return UNIT
    return plain, assign


ALGEBRA = {'Correspondence|%s|%s' % k: combined(n)[i] for n, ks in
           (('plus', (('Add', 'add'), ('AddAssign', 'add_assign'))),
            ('minus', (('Sub', 'sub'), ('SubAssign', 'sub_assign')))) for i, k in enumerate(ks)}


BUILDER = {**LOADERS, **ALGEBRA}
