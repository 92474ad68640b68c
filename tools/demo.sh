#!/bin/bash
# Runs demo.rs (test module "vp_demo") inside a scratch copy of the crate in the
# current directory: exit 0 iff all of its tests pass.
set -u
D=$(cd "$(dirname "$0")" && pwd)
exec python3 - "$D" <<'P'
import os, re, subprocess, sys, tempfile
here, root = sys.argv[1], os.getcwd()
env = dict(os.environ)
if os.path.exists('/opt/vp/env.sh'):
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; env -0'], capture_output=True, text=True).stdout
    env = dict(kv.split('=', 1) for kv in out.split('\0') if '=' in kv)
env['CARGO_TARGET_DIR'] = os.path.join(root, 'target')
skip_bins = {'acorn', 'profile_ide_save'}
with tempfile.TemporaryDirectory(prefix='vpdemo-') as w:
    for n in os.listdir(root):
        if n not in ('Cargo.toml', 'src', 'target', 'build.rs', '.git'):
            os.symlink(os.path.join(root, n), os.path.join(w, n))
    os.makedirs(os.path.join(w, 'src', 'tests'))
    for d in ('src', 'src/tests'):
        for n in os.listdir(os.path.join(root, d)):
            if (d, n) in (('src', 'lib.rs'), ('src', 'tests'), ('src/tests', 'mod.rs')):
                continue
            os.symlink(os.path.join(root, d, n), os.path.join(w, d, n))
    def strip(t):
        return re.sub(r'(?m)^(pub )?mod (server|packaged_acornlib);\n', '', t)
    lib = strip(open(os.path.join(root, 'src/lib.rs')).read())
    lib += '\n#[cfg(test)]\n#[path = "%s/demo.rs"]\nmod vp_demo;\n' % here
    open(os.path.join(w, 'src/lib.rs'), 'w').write(lib)
    open(os.path.join(w, 'src/tests/mod.rs'), 'w').write(strip(open(os.path.join(root, 'src/tests/mod.rs')).read()))
    toml = open(os.path.join(root, 'Cargo.toml')).read()
    keep = []
    for part in re.split(r'(?m)^(?=\[)', toml):
        if part.startswith('[[bin]]'):
            continue
        if part.startswith('[package]'):
            part = re.sub(r'(?m)^(build|default-run)\s*=.*\n', '', part) .replace('[package]\n', '[package]\nbuild = false\nautobins = false\n', 1)
        keep.append(part)
    open(os.path.join(w, 'Cargo.toml'), 'w').write(''.join(keep))
    r = subprocess.run(['cargo', 'test', '--locked', '--offline', '--lib', 'vp_demo'], cwd=w, env=env, timeout=280,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(r.stdout[-3000:])
    m = re.search(r'test result: (\w+)\. (\d+) passed', r.stdout)
    if r.returncode == 0 and m and int(m.group(2)) > 0:
        sys.exit(0)
    sys.exit(1)
P
