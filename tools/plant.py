#!/usr/bin/env python3
"""Development aid: writes and confirms a planted bug in a scratch copy of /repo.
usage: plant.py SPEC.py [...]   each SPEC defines ID, PROP, NEEDS, BREAKS, EDITS [(file, old, new)], MAIN (Rust), optional DEPS, DEMO."""
import os, sys, json, shutil, subprocess, tempfile, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd = the repository
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$HERE/main.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
peg = { path = "$PWD"%s }
EOF
cp "$PWD/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cd "$T" || exit 2
export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER RUSTFLAGS
cargo build --offline -q 2>"$T/log" || { cat "$T/log"; exit 1; }
timeout 60 ./target/debug/demo
'''


def sh(c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(spec, scratch, notest=False):
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join(V, 'seeded', ns['ID'])
    if not os.path.exists(scratch):
        sh(['cp', '-a', '/repo', scratch])
    sh(['git', 'checkout', '-q', '--', '.'], cwd=scratch)
    sh(['git', 'pull', '-q', '/repo'], cwd=scratch)
    os.makedirs(d, exist_ok=True)
    if 'DEMO' in ns:
        open(os.path.join(d, 'demo.sh'), 'w').write(ns['DEMO'])
    else:
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % ns.get('DEPS', ''))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    if 'MAIN' in ns:
        open(os.path.join(d, 'main.rs'), 'w').write(ns['MAIN'])
    for f, t in ns.get('FILES', {}).items():
        open(os.path.join(d, f), 'w').write(t)
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r0 = sh([os.path.join(d, 'demo.sh')], cwd=scratch)
    for f, a, b in ns['EDITS']:
        p = os.path.join(scratch, f)
        t = open(p).read()
        if t.count(a) != 1:
            print(ns['ID'], 'EDIT does not match once:', t.count(a), a[:60])
            return
        open(p, 'w').write(t.replace(a, b))
    open(os.path.join(d, 'patch.diff'), 'w').write(sh(['git', 'diff'], cwd=scratch).stdout)
    r1 = sh([os.path.join(d, 'demo.sh')], cwd=scratch)
    ok = r0.returncode == 0 and r1.returncode != 0
    msg = '' if ok else '\n  base: %s\n  patched: %s' % (r0.stdout[-1500:], r1.stdout[-1500:])
    tests = 'skipped'
    if not notest:
        env = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='1.68.0', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='1',
                   CARGO_TERM_COLOR='never', CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_RUNNER='/opt/vp/runner.sh', CARGO_REGISTRIES_CRATES_IO_PROTOCOL='sparse')
        logs = tempfile.mkdtemp()
        for n, fl in (('default', []), ('trace', ['--features', 'trace'])):
            r = sh(['timeout', '-k', '10', '420', 'cargo', 'test', '--workspace', '--no-fail-fast', '--offline'] + fl, cwd=scratch, env=env)
            open(os.path.join(logs, n + '.log'), 'w').write(r.stdout)
        out = os.path.join(logs, 'o.json')
        sh(['python3', '/opt/vp/collect.py', out, 'default:' + logs + '/default.log', 'trace:' + logs + '/trace.log'])
        try:
            o = json.load(open(out))
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            passed = set(o.get('passed', o.get('pass', [])))
            miss = [x for x in base if x not in passed]
            tests = 'tests ok' if not miss else 'TESTS FAIL %s' % miss[:5]
        except Exception as e:
            tests = 'no test result %s' % e
        shutil.rmtree(logs)
    # own check
    env = dict(os.environ, PEG_REPO=scratch, PEG_WORK=scratch + '-work', PEG_EVID=scratch + '-ev')
    c = sh([sys.executable, os.path.join(V, 'check.py'), ns['PROP']], env=env)
    v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
    print('%s [%s] demo %s; %s; check: %s%s' % (ns['ID'], ns['PROP'], 'ok' if ok else 'BAD', tests, 'CAUGHT (%d)' % len(v) if v else 'MISSED', msg))
    if '-v' in sys.argv:
        print(c.stdout[-1500:])
    sh(['git', 'checkout', '-q', '--', '.'], cwd=scratch)
    sys.stdout.flush()


if __name__ == '__main__':
    sc = os.environ.get('SCRATCH', '/tmp/seedrepo')
    for s in sys.argv[1:]:
        if not s.startswith('-'):
            main(s, sc, '--notest' in sys.argv)
