"""Tables written as CSV and as YAML."""
from .common import ASSUME, db, explore, hfn, judge_strict, sym_args                                 # noqa: F401
from .config import RULE
from sa.engine import Unsup, show_val
from sa.models import UNIT, err, ldv, map_dedupe, ok, ordered


def table(n):
    """a list of n arbitrary items"""
    def arg(cx):
        ty = cx.ty(hfn('export_csv__impl').locals[1])
        item = [a for a in ty['args'] if isinstance(a, int)][0]
        return ('seq', tuple(('e', cx.mk_sym(('item', i), item)) for i in range(n)))
    return arg


def inner(v):
    while v[0] == 'adt' and len(v[2]) == 1:
        v = v[2][0]
    return v


IDLE = ('has_headers', 'buffer_capacity')          # settings of a writer that write_record does not look at


def canon(cx, v):
    v = inner(v)
    if v[0] == 'opq' and v[1] == 'csvw':
        v = v[:2] + (tuple(x for x in v[2] if x[0] not in IDLE),) + v[3:]
    if v[0] == 'map' and v[1] == 'bmap':
        at = map_dedupe(cx, cx.ratoms(v[2]))
        v = ('seq', tuple(('e', ('tup', a[1])) for a in ordered(cx, at)))
    return v


def judge(cx, s):
    for t in s.th[:2]:
        if t.result[0] == 'ret':
            t.result = ('ret', canon(cx, t.result[1])) + tuple(t.result[2:])
    a, b = (t.result for t in s.th[:2])
    if a[0] == 'ret' and b[0] == 'ret' and a[1][0] == b[1][0] == 'opq':
        x, y = cx.rterm(a[1]), cx.rterm(b[1])
        return None if x == y else '%s instead of %s' % (show_val(x)[:300], show_val(y)[:300])
    return judge_strict(cx, s)


def form(rep, d):
    """the derived serialiser: one field, items, holding the map"""
    key = 'export/yaml/form'

    def step(kind):
        def f(c):
            if not c.cx.pred((kind, 'succeeds')):
                return err(('opq', 'error of ' + kind))
            if kind == 'start':
                return ok(('opq', 'struct'))
            if kind == 'end':
                return ok(('opq', 'written') + ldv(c, c.args[0])[2:])
            n, v = ldv(c, c.args[1]), c.cx.rterm(c.cx.strip_ref(c.args[2]))
            c.cx.store(c.args[0], c.cx.load(c.args[0]) + ((c.cx.lit_of(n), v),))
            return ok(UNIT)
        return f
    cuts = {f.mkey: step(k) for f in d.fns.values() if f.krate == 'serde_yaml' for m, k in (
        ('Serializer|serialize_struct', 'start'), ('SerializeStruct|serialize_field', 'field'),
        ('SerializeStruct|end', 'end')) if f.mkey.endswith(m)}

    def judge(cx, s):
        r = s.th[0].result
        if r[0] != 'ret':
            return 'panic: %s' % (r[1],)
        v = r[1]
        if v[1] != 0:
            return None
        if v[2][0][0] != 'opq' or v[2][0][1] != 'written':
            raise Unsup('what is written is not known')
        w = v[2][0][2:]
        if [n for n, _ in w] != ['items'] or w[0][1] != table:
            return 'writes %s' % (w,)
        return None
    table = ('opq', 'the map of targets')
    try:
        f = hfn('yaml_form')
        o = explore(d, [f], [lambda cx: ('ref', ('adt', 0, (table,))), lambda cx: ('opq', 'serializer')], judge, cuts=cuts)
    except Unsup as e:
        return rep.undecided(key, str(e), rule=RULE)
    return rep.outcome(key, o, 'the map of targets is written under items', RULE)


def round_trip(rep, d):
    """what the reader makes of a written table of one item"""
    key = 'round-trip/csv'
    confs, recs = [], []

    def records(c):
        r = ldv(c, c.args[0])
        if r[0] != 'opq' or r[1] != 'csvr':
            raise Unsup('reader')
        confs.append(dict(r[2]))
        raise Unsup('seen')

    def writer(cx, s):
        r = s.th[0].result
        if r[0] == 'ret' and r[1][0] == 'opq' and r[1][1] == 'csvw':
            recs.append([[cx.rterm(cx.strip_ref(a[1])) for a in e[1][1]] for e in r[1][4][1]])
    try:
        explore(d, [hfn('csv_table__impl')], sym_args(hfn('csv_table__impl')), lambda cx, s: None,
                cuts={'csv::reader::Reader::records': records, 'csv::reader::Reader::into_records': records})
        explore(d, [hfn('export_csv__impl')], [table(1)], writer)
    except Unsup as e:
        return rep.undecided(key, str(e), rule=RULE)
    if not confs or not recs or any(len(r) not in (1, 2) or len(r[-1]) != 2 for r in recs):
        return rep.undecided(key, 'the files written are not known', rule=RULE)
    heads = {c['has_headers'] for c in confs}
    bad = [(h, r) for h in heads for r in recs if len(r) - (1 if h else 0) != 1]
    if bad:
        if bad[0][0] is False or len(bad[0][1]) != 1:
            key += '/other'
        return rep.violated(key, 'the reader skips a header record%s, the writer writes %s' % (
            '' if bad[0][0] else ': no', 'none' if len(bad[0][1]) == 1 else 'one'), rule=RULE,
            where='to_csv_writer (src/file.rs)')
    return rep.ok(key, 'the writer writes a header record exactly if the reader skips one', rule=RULE)


def run(rep):
    d = db()
    for n in range(5 if rep.tier == 'thorough' else 4):
        for f, what in (('csv', 'one record per target, in ascending order: its sources in table order, then the target'),
                        ('yaml', 'each target with its sources in table order')):
            key = 'export/%s/%d' % (f, n)
            try:
                o = explore(d, [hfn('export_%s__impl' % f), hfn('export_%s__spec' % f)], [table(n)], judge)
            except Unsup as e:
                rep.undecided(key, str(e), rule=RULE)
                continue
            rep.outcome(key, o, what + ' (tables of %d items)' % n, RULE)
    form(rep, d)
    round_trip(rep, d)
