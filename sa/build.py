"""Builds the extractor and dumps the MIR of /repo's current working tree.

Everything lands in /verif/work (git-ignored), keyed by a digest of the sources, so that several
checks of one session share a dump; nothing is assumed to exist beforehand."""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(VERIF, 'work')


class BuildError(Exception):
    pass


def _files(root, subs):
    out = []
    for sub in subs:
        p = os.path.join(root, sub)
        if os.path.isfile(p):
            out.append(p)
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ('target', '__pycache__', '.git'))
            out += [os.path.join(d, f) for f in sorted(fs)]
    return out


def digest(kind):
    h = hashlib.sha256()
    fs = _files(VERIF, ['driver/src', 'driver/Cargo.toml', 'sa/build.py', 'harness/src', 'harness/Cargo.toml', 'locks'])
    fs += _files(REPO, ['src', 'Cargo.toml', 'build.rs', '.cargo'])
    if kind == 'py':
        fs += _files(REPO, ['bindings/python3/src', 'bindings/python3/Cargo.toml'])
        fs += _files(VERIF, ['harness-py/src', 'harness-py/Cargo.toml'])
    for f in fs:
        h.update(f.encode())
        h.update(b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:24]


def _run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors='replace')
    return p.returncode, p.stdout


def base_env():
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(('CARGO_', 'RUSTC', 'RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'MIRDUMP'))
           or k in ('CARGO_HOME', 'CARGO_NET_OFFLINE')}
    return env


def driver():
    env = base_env()
    env['CARGO_TARGET_DIR'] = os.path.join(WORK, 'dt')
    rc, out = _run(['cargo', '+nightly', 'build', '--offline', '-q'], os.path.join(VERIF, 'driver'), env)
    exe = os.path.join(WORK, 'dt', 'debug', 'mirdump')
    if rc or not os.path.exists(exe):
        raise BuildError('extractor does not build:\n' + out[-4000:])
    return exe


def sysroot():
    p = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True, cwd='/')
    return p.stdout.strip()


WHAT = {
    # kind: (cwd, args, crates, expected dumps)
    'lib': (os.path.join(VERIF, 'harness'), ['--lib'], 'chanoma,harness',
            ['chanoma-lib.json', 'harness-lib.json']),
    'bin': (REPO, ['--bins'], 'chanoma,output', ['chanoma-bin.json', 'output-bin.json']),
    'py': (os.path.join(VERIF, 'harness-py'), ['--lib'], 'chanoma,chanoma_py', ['chanoma_py-lib.json']),
}


def dump(kind):
    """Returns the directory with the dumps of `kind` for the current working tree."""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cwd, args, crates, want = WHAT[kind]
        out = os.path.join(WORK, 'dump-%s-%s' % (kind, digest(kind)))
        if os.path.exists(os.path.join(out, 'ok')):
            return out
        exe = driver()
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        env = base_env()
        sr = sysroot()
        td = os.path.join(WORK, 'td-' + kind)
        # cargo would skip an up-to-date crate, and then nothing is dumped
        for fp in (os.path.join(td, 'debug', '.fingerprint'), os.path.join(td, 'debug', 'build'),
                   os.path.join(td, 'debug', 'incremental')):
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith(('chanoma', 'harness', 'output')):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        if kind == 'py':
            env['PYO3_PYTHON'] = '/opt/vp/pyvenv/bin/python3'
        env.update(LD_LIBRARY_PATH=os.path.join(sr, 'lib'), MIRDUMP_CRATES=crates, MIRDUMP_OUT=tmp,
                   RUSTC_WRAPPER=exe, RUSTFLAGS='-Zalways-encode-mir --cfg chanoma_verif', CARGO_TARGET_DIR=td,
                   CARGO_NET_OFFLINE='true')
        lock = {'lib': 'harness.lock', 'bin': 'repo.lock', 'py': 'py.lock'}[kind]
        if not os.path.exists(os.path.join(cwd, 'Cargo.lock')):
            shutil.copy(os.path.join(VERIF, 'locks', lock), os.path.join(cwd, 'Cargo.lock'))
        dropped = {}
        rc, log = _run(['cargo', '+nightly', 'check', '--offline'] + args, cwd, env)
        while rc and kind == 'lib' and len(dropped) < 9:
            # reference functions that no longer fit an internal interface are left out, not the whole check
            why = re.findall(r'^error(?:\[(E\d+)\])?:? ?([^\n]*)\n\s*--> src/(\w+)\.rs:', log, re.M)
            gone = sorted({x for _, _, x in why} - {'lib'} - set(dropped))
            if not gone or not os.path.exists(os.path.join(tmp, 'chanoma-lib.json')):
                break
            dropped.update({g: [[c, m.strip(': ')] for c, m, x in why if x == g] for g in gone})
            env['RUSTFLAGS'] += ''.join(' --cfg no_' + g for g in gone)
            rc, log = _run(['cargo', '+nightly', 'check', '--offline'] + args, cwd, env)
        if rc and kind == 'py' and re.search(r'^\s*--> src/spec\.rs:', log, re.M):
            # the binding's private parts have changed: analyse it without the reference functions
            dropped['spec'] = [['', log[-2000:]]]
            env['RUSTFLAGS'] += ' --cfg no_spec'
            rc, log = _run(['cargo', '+nightly', 'check', '--offline'] + args, cwd, env)
        if rc:
            raise BuildError('cargo check failed:\n' + log[-6000:])
        missing = [w for w in want if not os.path.exists(os.path.join(tmp, w))]
        if missing:
            raise BuildError('no dump of %s (got %s)\n%s' % (missing, os.listdir(tmp), log[-3000:]))
        with open(os.path.join(tmp, 'dropped.json'), 'w') as fh:
            json.dump(dropped, fh)
        open(os.path.join(tmp, 'ok'), 'w').close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        # keep the cache small
        old = sorted((os.path.getmtime(os.path.join(WORK, d)), d) for d in os.listdir(WORK)
                     if d.startswith('dump-' + kind))
        for _, d in old[:-6]:
            shutil.rmtree(os.path.join(WORK, d), ignore_errors=True)
        return out


if __name__ == '__main__':
    for k in sys.argv[1:] or ['lib', 'bin']:
        t = time.time()
        print(k, dump(k), '%.1fs' % (time.time() - t))
