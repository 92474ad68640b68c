"""Compile /repo's current sources with the MIR fact extractor and cache the
result by content hash."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.environ.get('VP_BUILD') or os.path.join(VERIF, '.build')

STUB = '''fn main() {
    // The embedded library archive is data, not code: an empty stand-in is enough to type-check.
    let o = std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap());
    std::fs::write(o.join("acornlib.tar.gz"), b"x").unwrap();
    std::fs::write(o.join("acornlib.tar.gz.blake3"), "00").unwrap();
}
'''


class FactsError(Exception):
    pass


def env():
    e = dict(os.environ)
    e['HOME'] = e.get('HOME', '/root')
    e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    for k in ('RUSTUP_TOOLCHAIN', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTFLAGS',
              'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_INCREMENTAL'] = '0'
    e['CARGO_TERM_COLOR'] = 'never'
    e['ORT_LIB_LOCATION'] = '/nonexistent'
    e['CARGO_PROFILE_DEV_DEBUG'] = '0'
    return e


def tree_hash(repo):
    h = hashlib.sha256()
    paths = []
    for top in ('src', 'files', 'docs'):
        for d, ds, fs in os.walk(os.path.join(repo, top)):
            ds.sort()
            for f in fs:
                paths.append(os.path.join(d, f))
    for f in ('Cargo.toml', 'Cargo.lock', 'VERSION'):
        paths.append(os.path.join(repo, f))
    for f in ('Cargo.toml', 'src/main.rs'):
        paths.append(os.path.join(VERIF, 'driver', f))
    for p in sorted(paths):
        h.update(p.encode())
        try:
            with open(p, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        except OSError:
            h.update(b'missing')
    return h.hexdigest()[:24]


def run(cmd, cwd, e, log):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with open(log, 'a') as f:
        f.write('$ %s\n%s\n' % (' '.join(cmd), r.stdout))
    if r.returncode != 0:
        raise FactsError('%s failed:\n%s' % (' '.join(cmd), r.stdout[-3000:]))


def build_driver(build, log):
    e = env()
    e['CARGO_TARGET_DIR'] = os.path.join(build, 'driver')
    run(['cargo', '+nightly', 'build', '--offline', '-q'], os.path.join(VERIF, 'driver'), e, log)
    return os.path.join(build, 'driver', 'debug', 'acorn-facts')


def get(repo='/repo', build=BUILD, verbose=False):
    os.makedirs(build, exist_ok=True)
    log = os.path.join(build, 'build.log')
    with open(os.path.join(build, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = tree_hash(repo)
        out = os.path.join(build, 'facts-' + h)
        if os.path.exists(os.path.join(out, 'COMPLETE')):
            return out
        for d in os.listdir(build):
            if d.startswith('facts-'):
                shutil.rmtree(os.path.join(build, d), ignore_errors=True)
        open(log, 'w').close()
        drv = build_driver(build, log)
        ana = os.path.join(build, 'ana')
        if os.path.isdir(ana):
            for f in os.listdir(ana):
                p = os.path.join(ana, f)
                if os.path.islink(p) or os.path.isfile(p):
                    os.unlink(p)
        os.makedirs(ana, exist_ok=True)
        for f in ('Cargo.toml', 'Cargo.lock'):
            shutil.copyfile(os.path.join(repo, f), os.path.join(ana, f))
        for f in ('src', 'files', 'VERSION', 'docs'):
            os.symlink(os.path.join(repo, f), os.path.join(ana, f))
        with open(os.path.join(ana, 'build.rs'), 'w') as f:
            f.write(STUB)
        os.makedirs(out, exist_ok=True)
        e = env()
        tgt = os.path.join(build, 'target')
        e['CARGO_TARGET_DIR'] = tgt
        fp = os.path.join(tgt, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith('acorn-'):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], env=env(), stdout=subprocess.PIPE, text=True).stdout.strip()
        e['LD_LIBRARY_PATH'] = os.path.join(sysroot, 'lib')
        e['RUSTC_WORKSPACE_WRAPPER'] = drv
        e['VP_FACTS_OUT'] = out
        run(['cargo', '+nightly', 'check', '--locked', '--offline', '--lib', '--bins', '-q'], ana, e, log)
        names = os.listdir(out)
        if 'lib-acorn.json' not in names or 'bin-acorn.json' not in names:
            raise FactsError('fact extraction wrote only %s' % names)
        open(os.path.join(out, 'COMPLETE'), 'w').close()
        return out


if __name__ == '__main__':
    print(get(*(sys.argv[1:])))
