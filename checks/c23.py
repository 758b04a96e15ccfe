"""The command line programs: options, order of steps, what is printed."""
from .common import ASSUME, db                                             # noqa: F401
from sa.engine import Unsup, show_val
from sa.models import NONE, UNIT, app, appstr, err, latom, ldv, ok, some
from sa.product import explore

RULE = ('abstract interpretation of main to a fixpoint over every combination of options, outcomes of loading and of '
        'reading; the printed text and the values given to the library are compared with the documented wiring; the '
        'options themselves come from the derived parser code, read off by constant propagation')
CLI, OUT = 'chanoma-bin.json', 'output-bin.json'


def find(d, krate, tail):
    fs = [f for f in d.fns.values() if f.krate == krate and f.mkey.endswith(tail) and f.has_body]
    if len(fs) != 1:
        raise Unsup('%s: %d found' % (tail, len(fs)))
    return fs[0]


def trace(c):
    """a builder call as a term"""
    return ('opq', c.fn.mkey.split('::')[-1]) + tuple(ldv(c, a) for a in c.args)


def clap_cuts(d):
    return {f.mkey: trace for f in d.fns.values() if f.krate == 'clap' and f.mkey.startswith((
        'clap::builder::arg::Arg::', 'clap::builder::command::App::', 'clap::builder::value_parser::'))}


def text(cx, v):
    if v[0] == 'str':
        return cx.lit_of(v)
    if v[0] == 'adt' and v[1] == 1 and len(v[2]) == 1:      # Some(..)
        return text(cx, v[2][0])
    if v[0] == 'seq':
        return [text(cx, x[1]) for x in v[1] if x[0] == 'e']
    if v[0] == 'c':
        return chr(v[1][1]) if v[1][0] == 'k' else None
    return None


def declared(d, krate):
    """{id: {builder method: arguments}} of the options of the derived parser"""
    f = find(d, krate, 'Opts|Args|augment_args')
    got = []

    def judge(cx, s):
        r = s.th[0].result
        if r[0] != 'ret':
            raise Unsup('the derived parser panics')
        v = r[1]
        opts = {}
        while v[0] == 'opq' and len(v) > 2:
            if v[1] == 'arg':
                a, m = v[3], {}
                while a[0] == 'opq' and a[1] != 'new':
                    m[a[1]] = a[3:]
                    a = a[2]
                if a[0] != 'opq':
                    raise Unsup('an option is not built by a chain of calls')
                opts[text(cx, a[2])] = {k: [text(cx, x) if x[0] in ('str', 'c', 'seq') else x for x in w]
                                        for k, w in m.items()}
            v = v[2]
        got.append(opts)
    o = explore(d, [f], [lambda cx: ('opq', 'parser')], judge, cuts=clap_cuts(d))
    if len(got) != 1 or o.undecided:
        raise Unsup('the derived parser: %s' % (o.undecided or 'several results',))
    return got[0]


def fields(d, krate):
    """[(field, id of the option it is filled from)]"""
    f = find(d, krate, 'Opts|FromArgMatches|from_arg_matches_mut')
    got = []

    def judge(cx, s):
        r = s.th[0].result
        if r[0] == 'ret' and r[1][0] == 'adt' and r[1][1] == 0:
            ty = cx.ty(find_opts(cx))
            got.append((tuple(x[0] for x in ty['variants'][0][2]), r[1][2][0][2], dict(s.st.preds)))

    def find_opts(cx):
        t = cx.ty(f.locals[0])
        return [a for a in t['args'] if isinstance(a, int)][0]

    def name(c):
        return text(c.cx, ldv(c, c.args[1]))

    def get_one(c):
        n = name(c)
        if c.cx.pred(('given', n)):
            return some(('ref', appstr(c.cx, 'value of', n)))
        return NONE
    M = 'clap::parser::matches::arg_matches::ArgMatches::'
    cuts = {M + 'get_one': get_one, M + 'is_present': lambda c: ('b', c.cx.pred(('given', name(c)))),
            M + 'contains_id': lambda c: ('b', c.cx.pred(('given', name(c)))),
            M + 'get_flag': lambda c: ('b', c.cx.pred(('given', name(c)))),
            'clap::error::Error::raw': lambda c: ('opq', 'clap error')}
    o = explore(d, [f], [lambda cx: ('ref', ('opq', 'matches'))], judge, cuts=cuts)
    if o.undecided or not got:
        raise Unsup('the derived parser: %s' % (o.undecided or 'no result',))
    return got


def pick(c, cases):
    """the parsed options: every combination of given and missing options"""
    cx = c.cx
    for names, vals, preds in cases:
        if all(cx.pred(p) == b for p, b in sorted(preds.items(), key=str)):
            return ('adt', 0, vals)
    raise Unsup('options')


def flag(opts, ident, short, long):
    """does this option exist under this name, as documented, and is it optional?"""
    o = opts.get(ident)
    if o is None:
        return 'missing'
    if (o.get('short') or [None])[0] != short:
        return 'short name %r' % (o.get('short') or [None])[0]
    if (o.get('long') or [None])[0] != long:
        return 'long name %r' % (o.get('long') or [None])[0]
    if o.get('required', [('b', False)])[0] == ('b', True):
        return 'required'
    return None


def options(rep, key, d, krate, want):
    """declared options against the documented ones; returns {meaning: id}"""
    try:
        opts = declared(d, krate)
    except Unsup as e:
        rep.undecided(key, str(e), rule=RULE)
        return None
    ids, bad = {}, []
    for long, short, takes in want:
        hit = [i for i, o in opts.items() if (o.get('long') or [None])[0] == long] if long else [
            i for i, o in opts.items() if 'long' not in o and 'short' not in o]
        if len(hit) != 1:
            bad.append('%s: %d declarations' % (long or 'INPUT', len(hit)))
            continue
        ids[long or 'input'] = hit[0]
        o = opts[hit[0]]
        if short and (o.get('short') or [None])[0] != short:
            bad.append('--%s has the short name %r' % (long, (o.get('short') or [None])[0]))
        if o.get('required', [('b', False)])[0] == ('b', True):
            bad.append('%s is required' % (long or 'INPUT'))
        if (o.get('takes_value', [('b', False)])[0] == ('b', True)) != takes:
            bad.append('%s %s a value' % (long or 'INPUT', 'takes no' if takes else 'takes'))
    if bad:
        rep.violated(key, '; '.join(bad), rule=RULE, where='Opts (derived parser)')
    else:
        rep.ok(key, '%d options' % len(want), rule=RULE)
    return None if bad else (ids, opts)


def chanoma_term(c):
    return c.cx.rterm(c.cx.load(c.args[0]) if c.args[0][0] == 'ptr' else ldv(c, c.args[0]))


def library(c_ty):
    """the library as uninterpreted operations on a pipeline"""
    def pipeline(c, name, *args):
        return ('adt', 0, (('seq', (app(c.cx, name, *args, ety=c_ty),)),))

    def load(c):
        if c.cx.pred(('the configuration loads',)):
            return ok(pipeline(c, 'loaded'))
        return err(('opq', 'load error'))

    def add(name):
        def f(c):
            c.cx.store(c.args[0], pipeline(c, name, chanoma_term(c)))
            return c.args[0]
        return f

    def norm(c):
        return appstr(c.cx, 'normalize', chanoma_term(c), ('str', c.cx.str_atoms(c.args[1])))

    def no(c):
        raise Unsup('another way into the library: %s' % c.fn.mkey)
    P = 'chanoma::chanoma::Chanoma::'
    d = {P + n: no for n in ('normalize_with_positions', 'from_config_file')}
    d.update({P + 'load_rc': load, P + 'use_preset': add('preset'), P + 'use_neologdn': add('neologdn'),
              P + 'normalize': norm, P + 'new': lambda c: pipeline(c, 'new'),
              P + 'preset': lambda c: pipeline(c, 'preset', pipeline(c, 'new')),
              P + 'neologdn': lambda c: pipeline(c, 'neologdn', pipeline(c, 'new'))})
    return d


def printed(cx, s, name='print'):
    out = ()
    for e in s.th[0].ev:
        if e[0] == name:
            if e[1][0] != 'str':
                raise Unsup('printed text is not known')
            out += e[1][1]
    return ('str', cx.ratoms(out))


def cli(rep):
    d = db('bin', CLI)
    got = options(rep, 'chanoma/options', d, 'chanoma', (
        (None, None, True), ('debug', 'd', False), ('preset', 'p', False), ('neologdn', 'n', False)))
    if got is None:
        return
    ids = got[0]
    cases = fields(d, 'chanoma')
    u8 = d.tyidx.get('u8') if hasattr(d, 'tyidx') else 0
    cuts = dict(library(u8 or 0))
    cuts['Parser::parse'] = lambda c: pick(c, cases)

    def judge(cx, s):
        r = s.th[0].result

        def given(o):
            return cx.pred(('given', ids[o]))
        log = None
        for e in s.th[0].ev:
            if e[0] == 'set_var' and cx.lit_of(e[1]) == 'RUST_LOG':
                log = cx.lit_of(e[2])
            if e[0] == 'env_logger_init':
                if log != ('debug' if given('debug') else 'info'):
                    return 'the log level is %s when logging starts, %s --debug' % (
                        log, 'with' if given('debug') else 'without')
                log = 'done'
        if not cx.pred(('the configuration loads',)):
            if r[0] == 'ret':
                return 'a configuration that does not load is passed over'
            if printed(cx, s)[1]:
                return 'text is printed although the configuration does not load'
            return None
        if r[0] != 'ret':
            return 'panic: %s' % (r[1],)
        if log != 'done':
            return 'logging is not set up'

        def pipeline(name, *args):
            return ('adt', 0, (('seq', (app(cx, name, *args, ety=u8 or 0),)),))
        want = pipeline('loaded')
        for o in ('preset', 'neologdn'):
            if given(o):
                want = pipeline(o, cx.rterm(want))
        if given('input'):
            src = appstr(cx, 'value of', ids['input'])
        elif cx.pred(('read_line_ok',)):
            src = appstr(cx, 'stdin_text')
        else:
            return 'text is normalised although nothing could be read' if any(
                e[0] == 'print' and 'normalize' in str(e) for e in s.th[0].ev) else None
        want = ('str', appstr(cx, 'normalize', cx.rterm(want), src)[1] + cx.lit('\n')[1])
        want = ('str', cx.ratoms(want[1]))      # the operations are free: other terms are other texts for some library
        if printed(cx, s) != want:
            return 'prints %s instead of %s' % (show_val(printed(cx, s))[:300], show_val(want)[:300])
        return None
    main = d.fns[d.entries[CLI]]
    try:
        o = explore(d, [main], [], judge, cuts=cuts)
    except Unsup as e:
        return rep.undecided('chanoma/main', str(e), rule=RULE)
    rep.outcome('chanoma/main', o, 'options, order of the steps, printed text', RULE)


TABLE = {'chanoma::table::TableBuilder::new': lambda c: ('opq', 'table', 'empty'),
         'chanoma::table::Table::new': lambda c: ('opq', 'table', 'empty'),
         'chanoma::table::Table::builder': lambda c: c.args[0],
         'chanoma::table::TableBuilder::build': lambda c: ldv(c, c.args[0])}


def preset(c):
    v = ldv(c, c.args[0])
    if v != ('opq', 'table', 'empty'):
        raise Unsup('the preset is added to another table')
    c.cx.store(c.args[0], ('opq', 'table', 'preset'))
    return c.args[0]


def may_fail(name, value):
    def f(c):
        return ok(value(c)) if c.cx.pred((name,)) else err(('opq', name + ': no'))
    return f


def output(rep):
    d = db('bin', OUT)
    got = options(rep, 'output/options', d, 'output', (('format', 'f', True),))
    if got is None:
        return
    ids, opts = got
    o = opts[ids['format']]
    dflt = [w[0] for k, w in o.items() if k.startswith('default_value')]
    if dflt == ['csv'] or dflt == [['csv']]:
        rep.ok('output/default', 'csv', rule=RULE)
    elif any(not isinstance(x, str) for x in dflt):
        rep.undecided('output/default', 'default not known: %s' % (dflt,), rule=RULE)
    else:
        rep.violated('output/default', 'the default format is %s' % (dflt or ['none'],), rule=RULE,
                     where='Opts (derived parser)')
    cuts = dict(TABLE)
    cuts['chanoma::table::TableBuilder::preset'] = preset
    cuts['chanoma::table::Table::corr'] = lambda c: ('opq', 'corr', ldv(c, c.args[0]))
    F = 'chanoma::file::'
    cuts[F + 'to_csv_writer'] = lambda c: ('opq', 'csv writer', ldv(c, c.args[0]), ldv(c, c.args[1]))
    cuts[F + 'to_serialized_corr'] = lambda c: ('opq', 'serialized', ldv(c, c.args[0]))
    cuts['SerializedCorr|From|from'] = cuts[F + 'to_serialized_corr']
    cuts['csv::writer::Writer::into_inner'] = may_fail('the writer is flushed', lambda c: ('opq', 'bytes', c.args[0]))
    cuts['alloc::string::String::from_utf8'] = may_fail('the bytes are UTF-8', lambda c: appstr(
        c.cx, 'utf8', c.args[0]))
    cuts['alloc::string::String::from_utf8_lossy'] = lambda c: appstr(c.cx, 'utf8', c.args[0])
    cuts['serde_yaml::ser::to_string'] = may_fail('the table is serialised', lambda c: appstr(
        c.cx, 'yaml', ldv(c, c.args[0])))
    main = d.fns[d.entries[OUT]]
    items = ('opq', 'corr', ('opq', 'table', 'preset'))
    for fmt in ('csv', 'yaml'):
        def judge(cx, s):
            r = s.th[0].result
            out = printed(cx, s)
            if r[0] != 'ret':
                for p in ('the writer is flushed', 'the bytes are UTF-8', 'the table is serialised'):
                    if cx.known_pred((p,)) is False:
                        return None if not out[1] else 'text is printed although the table cannot be written'
                return 'panic: %s' % (r[1],)
            if fmt == 'yaml':
                w = appstr(cx, 'yaml', ('opq', 'serialized', items))
            else:
                w = appstr(cx, 'utf8', ('opq', 'bytes', ('opq', 'csv writer', items, ('seq', ()))))
            w = ('str', w[1] + cx.lit('\n')[1])
            if out != ('str', cx.ratoms(w[1])):
                return 'with --format %s: prints %s instead of %s' % (fmt, show_val(out)[:300], show_val(w)[:300])
            return None
        try:
            cases = fields(d, 'output')

            def parse(c):
                names, vals, _ = cases[0]
                if [v[0] for v in vals] != ['str']:
                    raise Unsup('options')
                return ('adt', 0, (c.cx.lit(fmt),))
            res = explore(d, [main], [], judge, cuts={**cuts, 'Parser::parse': parse})
        except Unsup as e:
            rep.undecided('output/' + fmt, str(e), rule=RULE)
            continue
        rep.outcome('output/' + fmt, res, 'the preset table is printed as ' + fmt, RULE)


def run(rep):
    cli(rep)
    output(rep)
