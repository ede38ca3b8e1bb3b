"""Rebuild the MIR dump of /repo's current working tree.

Builds the rustc_private driver of /verif/driver (nightly), then runs
`cargo +nightly check --lib` on /repo with it as RUSTC_WORKSPACE_WRAPPER and a
fresh target directory (cargo's freshness cache would silently skip the
wrapper).  Everything is written under /verif/.cache, nothing under /repo.
The dump is reused only when the bytes of every source file, manifest and lock
file of /repo and of the driver are unchanged.
"""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')


class ExtractError(Exception):
    pass


def _digest(root, skip):
    h = hashlib.sha256()
    for dp, dn, fn in os.walk(root):
        dn[:] = sorted(d for d in dn if d not in skip)
        for f in sorted(fn):
            p = os.path.join(dp, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, root).encode() + b'\0')
            with open(p, 'rb') as fh:
                h.update(fh.read())
            h.update(b'\0')
    return h.hexdigest()


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise ExtractError('%s failed:\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def extract():
    """-> parsed MIR dump (dict) of the current /repo tree"""
    os.makedirs(CACHE, exist_ok=True)
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET',
              'RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR'):
        env.pop(k, None)
    lock = open(os.path.join(CACHE, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        dd = _digest(os.path.join(VERIF, 'driver'), {'target'})
        drv = os.path.join(CACHE, 'drv')
        exe = os.path.join(drv, 'release', 'mirdump')
        stamp = os.path.join(CACHE, 'drv.stamp')
        if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == dd):
            _run(['cargo', '+nightly', 'build', '--release', '--offline'],
                 cwd=os.path.join(VERIF, 'driver'), env=dict(env, CARGO_TARGET_DIR=drv))
            open(stamp, 'w').write(dd)
        rd = hashlib.sha256((dd + _digest(REPO, {'target', '.git'})).encode()).hexdigest()[:24]
        out = os.path.join(CACHE, 'mir-%s.json' % rd)
        if not os.path.exists(out):
            for f in os.listdir(CACHE):
                if f.startswith('mir-'):
                    os.remove(os.path.join(CACHE, f))
            sysroot = _run(['rustc', '+nightly', '--print', 'sysroot'], env=env).strip()
            tgt = os.path.join(CACHE, 'tgt-%d' % os.getpid())
            shutil.rmtree(tgt, ignore_errors=True)
            tmp = out + '.tmp'
            try:
                _run(['cargo', '+nightly', 'check', '--lib', '--offline'], cwd=REPO,
                     env=dict(env, LD_LIBRARY_PATH=os.path.join(sysroot, 'lib'),
                              MIRDUMP_OUT=tmp, RUSTC_WORKSPACE_WRAPPER=exe,
                              CARGO_TARGET_DIR=tgt))
                if not os.path.exists(tmp):
                    raise ExtractError('the driver wrote no dump')
                os.rename(tmp, out)
            finally:
                shutil.rmtree(tgt, ignore_errors=True)
        with open(out) as f:
            return json.load(f)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == '__main__':
    d = extract()
    print(len(d['bodies']), 'bodies')
