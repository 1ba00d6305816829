"""Builds /repo's current tree together with witness grammars under the fact-dumping compiler.
Only type checking and MIR construction happen; nothing that is built is ever run."""
import hashlib, json, os, shutil, subprocess, sys, glob, time, fcntl, contextlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PEG_REPO', '/repo')
WORK = os.environ.get('PEG_WORK', os.path.join(VERIF, '.work'))
TOOL = '+nightly'
EXT = 'core::option::,core::result::'


class BuildFailed(Exception):
    def __init__(self, what, messages, raw=''):
        Exception.__init__(self, what)
        self.messages = messages
        self.raw = raw


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


_sys = None


def sysroot():
    global _sys
    if _sys is None:
        _sys = sh(['rustc', TOOL, '--print', 'sysroot']).stdout.strip()
    return _sys


def hash_files(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        try:
            h.update(open(f, 'rb').read())
        except OSError:
            pass
        h.update(b'\0')
    return h.hexdigest()[:16]


def tree_files(root, exts, skip=('target', '.git', '.work')):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in fs:
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


_rh = None


def repo_hash():
    global _rh
    if _rh is None:
        fs = []
        for sub in ('src', 'peg-runtime', 'peg-macros'):
            fs += tree_files(os.path.join(REPO, sub), ('.rs', '.toml', '.rustpeg', '.sh'))
        for f in ('Cargo.toml', 'Cargo.lock', 'build.rs', 'README.md'):
            if os.path.exists(os.path.join(REPO, f)):
                fs.append(os.path.join(REPO, f))
        _rh = hash_files(fs)
    return _rh


@contextlib.contextmanager
def lock(name):
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, name + '.lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def driver():
    d = os.path.join(VERIF, 'driver')
    h = hash_files(tree_files(d, ('.rs', '.toml', '.lock')))
    exe = os.path.join(WORK, 'driver-' + h)
    if not os.path.exists(exe):
        with lock('driver'):
            if not os.path.exists(exe):
                env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(WORK, 'driver-target'))
                env.pop('RUSTC_WRAPPER', None)
                r = sh(['cargo', TOOL, 'build', '--offline', '-q'], cwd=d, env=env)
                if r.returncode:
                    raise BuildFailed('fact extractor does not build', [], r.stderr)
                for o in glob.glob(os.path.join(WORK, 'driver-*')):
                    if os.path.isfile(o):
                        os.unlink(o)
                shutil.copy2(os.path.join(WORK, 'driver-target', 'debug', 'mirfacts'), exe + '.tmp')
                os.rename(exe + '.tmp', exe)
    return exe


def prune(prefix, keep, n=8):
    """keep only the newest few cached build directories"""
    ds = [d for d in glob.glob(os.path.join(WORK, prefix + '*')) if os.path.isdir(d) and d != keep]
    ds.sort(key=os.path.getmtime)
    for d in ds[:max(0, len(ds) - (n - 1))]:
        shutil.rmtree(d, ignore_errors=True)


def cargo_env(facts, crates, target):
    env = dict(os.environ)
    env.update(MIRFACTS_OUT=facts, MIRFACTS_CRATES=','.join(crates), MIRFACTS_EXT=EXT, RUSTC_WRAPPER=driver(),
               CARGO_TARGET_DIR=target, LD_LIBRARY_PATH=sysroot() + '/lib', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0')
    env.pop('RUSTFLAGS', None)
    return env


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, 'w') as f:
        f.write(text)


def messages(out):
    ms = []
    for l in out.splitlines():
        if l.startswith('{'):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('reason') == 'compiler-message':
                m = d['message']
                m['crate'] = d.get('target', {}).get('name')
                ms.append(m)
    return ms


def check_crate(kind, name, files, deps, features=(), crates=(), nodefault=False, trace=False, keep_going=False, hashkey='', expand=False, edition='2021', bare=False):
    """cargo check of a generated crate; returns (ok, messages, facts dir).
    kind 'wit' depends on /repo, kind 'spec' on the reference runtime."""
    tag = (repo_hash() if kind == 'wit' else hash_files(tree_files(os.path.join(VERIF, 'spec'), ('.rs', '.toml'))))
    var = '-'.join([kind] + (['f'] + sorted(features) if features else []) + (['nd'] if nodefault else []) + (['e' + edition] if edition != '2021' else []))
    dh = os.path.basename(driver()).split('-')[-1][:6]
    base = os.path.join(WORK, '%s-%s-%s' % (var, tag, dh))
    content = hashlib.sha256(json.dumps([sorted(files.items()), deps, sorted(features), nodefault, sorted(crates), EXT, expand, bare]).encode()).hexdigest()[:16]
    res = os.path.join(base, 'res', name + '-' + content + '.json')
    facts = os.path.join(base, 'facts')
    if os.path.exists(res):
        d = json.load(open(res))
        os.utime(base)
        return d['ok'], d['messages'], facts
    with lock(var):
        prune(var + '-', base)
        src = os.path.join(base, 'src', name)
        for f, t in files.items():
            write(os.path.join(src, f), t)
        toml = '[package]\nname = "%s"\nversion = "0.0.0"\nedition = "%s"\n[workspace]\n[dependencies]\n%s\n' % (name, edition, deps)
        write(os.path.join(src, 'Cargo.toml'), toml)
        if (kind == 'wit' or 'proc-macro2' in deps) and os.path.exists(os.path.join(REPO, 'Cargo.lock')):
            lk = os.path.join(src, 'Cargo.lock')
            if not os.path.exists(lk):
                shutil.copy(os.path.join(REPO, 'Cargo.lock'), lk)
        env = cargo_env(facts, list(crates) + ([] if bare else [name]), os.path.join(base, 'target'))
        if expand:
            env['MIRFACTS_EXPAND'] = name
        os.makedirs(facts, exist_ok=True)
        # a large batch of witnesses is checked by the compiler in parallel
        r = sh(['cargo', TOOL] + (['rustc', '--profile', 'check'] if bare else ['check']) + ['--offline', '--lib', '--message-format=json'] + (['--keep-going'] if keep_going else []) + (['--', '-Zthreads=8'] if bare else []), cwd=src, env=env)
        ms = messages(r.stdout)
        ok = r.returncode == 0
        if not ok and not any(m['level'] == 'error' for m in ms):
            raise BuildFailed('cargo check of %s failed' % name, ms, r.stderr[-3000:])
        for o in glob.glob(os.path.join(base, 'res', name + '-*.json')):
            if len(os.path.basename(o)) == len(os.path.basename(res)):
                os.unlink(o)
        write(res, json.dumps({'ok': ok, 'messages': [{'level': m['level'], 'message': m['message'], 'crate': m['crate'],
                                                      'spans': [{k: s[k] for k in ('file_name', 'line_start', 'line_end', 'column_start', 'column_end', 'is_primary')} |
                                                                {'exp': bool(s.get('expansion'))} for s in m['spans']],
                                                      'code': (m.get('code') or {}).get('code'), 'rendered': (m.get('rendered') or '')[:1500]}
                                                     for m in ms]}))
        return ok, json.load(open(res))['messages'], facts


def repo_dep(features=(), nodefault=False):
    return 'peg = { path = "%s"%s%s }' % (REPO, ', default-features = false' if nodefault else '',
                                          ', features = [%s]' % ', '.join('"%s"' % f for f in features) if features else '')


def spec_dep():
    return 'peg = { path = "%s" }' % os.path.join(VERIF, 'spec', 'refpeg')


def wit(name, files, features=(), nodefault=False, **kw):
    return check_crate('wit', name, files, repo_dep(features, nodefault), features, ('peg_runtime', 'peg', 'peg_macros'), nodefault, **kw)


def spec(name, files, deps='', **kw):
    return check_crate('spec', name, files, spec_dep() + deps, (), ('peg',), **kw)
