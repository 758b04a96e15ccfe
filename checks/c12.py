"""The search for configuration files."""
from .common import ASSUME                                 # noqa: F401
from .config import *
from .config import RULE                                   # noqa: F401
from sa.models import appstr


def nodots(cx, s):
    """neither CHANOMARC nor a file with a leading dot: the six other candidates are left"""
    given(env_set=False)(cx, s)
    old = cx.S
    cx.S = s
    for d in (appstr(cx, 'home')[1] + cx.lit('/.config/chanoma')[1], appstr(cx, 'home')[1], appstr(cx, 'cwd')[1]):
        for ext in ('csv', 'yaml', 'yml'):
            p = ('str', d + cx.lit('/.chanomarc.' + ext)[1])
            s.st.preds[cx.rterm(('is_file', p))] = False
    cx.S = old


def run(rep):
    def go(key, what, setup, cuts=LOADERS, b='load_rc__spec', **kw):
        run_pair(rep, key, 'load_rc__impl', b, what, cuts, judge_steps, setup=setup, **kw)
    go('search/env', 'with CHANOMARC set, that file alone is loaded, or an error returned', given(env_set=True))
    go('search/cwd', 'without a home directory the working directory is searched, name by name, csv before yaml',
       given(env_set=False, home_ok=False))
    go('search/home', 'without a working directory ~/.config/chanoma is searched, then the home directory',
       given(env_set=False, cwd_ok=False), max_states=60000, max_steps=20000000)
    go('search/all', 'the configuration directory, the home directory and the working directory are searched in '
       'this order and everything found is applied', nodots, READABLE, max_states=60000, max_steps=20000000)
    if rep.tier == 'thorough':
        go('search/twelve', 'as search/all, with all twelve candidates', given(env_set=False), READABLE,
           max_states=60000, max_steps=20000000)
    go('search/yml', 'chanomarc.yml is found like chanomarc.yaml', given(env_set=False, home_ok=False),
       b='load_rc__documented')
