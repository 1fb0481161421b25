"""Builds the MIR driver, and with it the dump of /repo's current tree."""
import fcntl
import glob
import os
import shutil
import subprocess
import sys


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()


def run(cmd, env, what):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER'):
        e.pop(k, None)
    e.update(env)
    r = subprocess.run(cmd, env=e, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr[-4000:])
        sys.stderr.write('\ncheck.py: %s failed\n' % what)
        sys.exit(2)
    return r


class Lock:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_driver(here, build):
    os.makedirs(build, exist_ok=True)
    with Lock(os.path.join(build, 'lock')):
        run(['cargo', 'build', '--offline', '--manifest-path', os.path.join(here, 'driver', 'Cargo.toml')],
            {'RUSTUP_TOOLCHAIN': 'nightly', 'CARGO_NET_OFFLINE': 'true', 'CARGO_TARGET_DIR': os.path.join(build, 'driver'), 'RUSTC_WRAPPER': ''}, 'building the driver')


def forget(target):
    """drop what cargo built of the crate itself: it compares mtimes, and must look at the sources again"""
    for pat in ('debug/.fingerprint/nobject-rs-*', 'debug/build/nobject-rs', 'debug/build/nobject-rs-*', 'debug/incremental/nobject_rs-*', 'debug/deps/*nobject_rs-*'):
        for d in glob.glob(os.path.join(target, pat)):
            shutil.rmtree(d) if os.path.isdir(d) else os.remove(d)


def dump(here, build, repo, tag):
    target = os.path.join(build, 'target')
    out = os.path.join(build, 'dump-%s-%d.json' % (tag, os.getpid()))
    with Lock(os.path.join(build, 'lock')):
        forget(target)
        run(['cargo', 'check', '--offline', '--lib', '--manifest-path', os.path.join(repo, 'Cargo.toml')],
            {'RUSTUP_TOOLCHAIN': 'nightly', 'CARGO_NET_OFFLINE': 'true', 'CARGO_TARGET_DIR': target, 'RUSTC_WRAPPER': '',
             'LD_LIBRARY_PATH': os.path.join(sysroot(), 'lib'), 'RUSTC_WORKSPACE_WRAPPER': os.path.join(build, 'driver', 'debug', 'mirdump'),
             'MIRDUMP_CRATE': 'nobject_rs', 'MIRDUMP_OUT': out}, 'compiling ' + repo)
    if not os.path.exists(out):
        sys.stderr.write('check.py: no MIR was dumped\n')
        sys.exit(2)
    return out
