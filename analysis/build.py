"""Builds the driver, type-checks /repo with the roots crate and loads the resulting MIR dump."""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.environ.get('VERIF_WORK', os.path.join(VERIF, 'work'))
FLAGS = '-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull -Coverflow-checks=on -Cdebug-assertions=%s -Awarnings'


class BuildFailed(Exception):
    pass


def env():
    e = dict(os.environ)
    home = e.get('HOME') or '/root'
    e['HOME'] = home
    e['PATH'] = os.path.join(home, '.cargo/bin') + ':/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e['CARGO_NET_OFFLINE'] = 'true'
    for k in list(e):
        if k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTUP_TOOLCHAIN'):
            del e[k]
    return e


def sh(cmd, **kw):
    kw.setdefault('env', env())
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def sources():
    """Every file of the crate that can change what it does."""
    out = []
    for top in ('src', 'examples'):
        for d, dirs, fs in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            out += [os.path.join(d, f) for f in sorted(fs)]
    for f in ('Cargo.toml', 'Cargo.lock', 'build.rs'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:16]


class Lock:
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.path = os.path.join(WORK, name + '.lock')

    def __enter__(self):
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def sysroot():
    rc, out = sh(['rustc', '+nightly', '--print', 'sysroot'])
    if rc:
        raise BuildFailed('no nightly toolchain: ' + out)
    return out.strip().splitlines()[-1]


def driver():
    src = os.path.join(VERIF, 'driver/main.rs')
    exe = os.path.join(WORK, 'mirdump-' + digest([src]))
    if not os.path.exists(exe):
        tmp = exe + '.tmp%d' % os.getpid()
        rc, out = sh(['rustc', '+nightly', '-C', 'opt-level=0', '-C', 'rpath', '--edition', '2021', src, '-o', tmp], cwd=WORK)
        if rc:
            raise BuildFailed('the MIR driver does not compile:\n' + out)
        os.rename(tmp, exe)
    return exe


SIMPLE = re.compile(r'^(?:[\w\s&|<>=!+\-*.]|\.len\(\)|\.is_empty\(\))*(?:,\s*"[^"{}]*"\s*)?$')


def profile_dependent():
    """Whether builds without debug assertions can differ in more than leaving out a harmless test."""
    for p in sources():
        if not p.endswith('.rs') or '/src/' not in p:
            continue
        with open(p) as f:
            t = f.read()
        t = re.sub(r'//[^\n]*', '', t)
        if 'debug_assertions' in t or 'overflow_checks' in t:
            return True
        for m in re.finditer(r'debug_assert\w*!\s*[({\[]', t):
            i, depth = m.end(), 1
            while i < len(t) and depth:
                depth += (t[i] in '([{') - (t[i] in ')]}')
                i += 1
            if not SIMPLE.match(t[m.end():i - 1]):
                return True
    return False


ADD = re.compile(r'#\[cfg\(feature\s*=\s*"(\w+)"\)\]\s*(?:(?:///[^\n]*|#\[[^\]]*\])\s*)*(?:pub(?:\([^)]*\))? )?(?:fn|mod|struct|enum|trait|const|static|use|impl)\b')


def feature_dependent():
    """The features that do more than add items."""
    out = set()
    for p in sources():
        if not p.endswith('.rs') or '/src/' not in p:
            continue
        with open(p) as f:
            t = f.read()
        t = re.sub(r'(?<!/)//(?!/)[^\n]*', '', t)
        t = t.split('#[cfg(test)]\nmod ')[0]
        t = ADD.sub('', t)
        out |= set(re.findall(r'\bfeature\s*=\s*"(\w+)"', re.sub(r'//[^\n]*', '', t)))
    return out


def driver_env(out, roots, target, release=False):
    e = env()
    e.update(MIRDUMP_OUT=out, MIRDUMP_POKER='poker', MIRDUMP_ROOTS=roots, LD_LIBRARY_PATH=os.path.join(sysroot(), 'lib'),
             RUSTC_WRAPPER=driver(), RUSTFLAGS=FLAGS % ('off' if release else 'on'), CARGO_TARGET_DIR=target)
    return e


FN = re.compile(r'^ *pub (?:const )?fn (\w+)')


def prune(text, out):
    """Remove the root functions the compiler rejects; returns (text, {function: error})."""
    lines = text.split('\n')
    errors = {}
    for part in re.split(r'^(?=error|warning)', out, flags=re.M):
        m = re.search(r'^\s*(?:-->|:::) src/lib\.rs:(\d+):', part, re.M)
        if m is None or not part.startswith('error'):
            continue
        ln = int(m.group(1)) - 1
        msg = part.split('\n')[0]
        start = ln
        while start >= 0 and not FN.match(lines[start]):
            start -= 1
        if start < 0:
            raise BuildFailed(out)
        errors.setdefault(start, msg)
    if not errors:
        raise BuildFailed(out)
    gone = {}
    drop = set()
    for s, msg in errors.items():
        gone[FN.match(lines[s]).group(1)] = msg
        depth = 0
        i = s
        while True:
            depth += lines[i].count('{') - lines[i].count('}')
            drop.add(i)
            if depth == 0:
                break
            i += 1
    return '\n'.join('' if i in drop else l for i, l in enumerate(lines)), gone


STATIC_ROOT = '''
pub fn ev_static(_e: &Evaluator, c: &[Card]) -> Result<Eval, EvalError> { poker::evaluate::static_lookup::evaluate(c) }
pub fn ev_static_vec(_e: &Evaluator, c: Vec<Card>) -> Result<Eval, EvalError> { poker::evaluate::static_lookup::evaluate(c) }
pub fn ev_static_arr5(_e: &Evaluator, c: [Card; 5]) -> Result<Eval, EvalError> { poker::evaluate::static_lookup::evaluate(c) }
'''
TABLES = ('FLUSH_LOOKUP', 'UNSUITED_LOOKUP')
STUB = '''fn main() {
    let p = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("codegen.rs");
    std::fs::write(p, %s).unwrap();
}
'''


def toml(v):
    if isinstance(v, dict):
        return '{ %s }' % ', '.join('%s = %s' % (k, toml(x)) for k, x in v.items())
    if isinstance(v, list):
        return '[%s]' % ', '.join(toml(x) for x in v)
    return json.dumps(v)


def static_copy():
    """The crate's sources as a package whose static_lookup feature builds here.

    Only the download is replaced: the generated file declares the two tables, empty; the analyser
    supplies their contents."""
    import tomllib
    d = os.path.join(WORK, 'static-repo')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, 'src'), os.path.join(d, 'src'))
    for f in ('README.md',):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), d)
    with open(os.path.join(REPO, 'Cargo.toml'), 'rb') as f:
        m = tomllib.load(f)
    deps = m.get('dependencies', {})
    out = ['[package]', 'build = "stub.rs"']
    out += ['%s = %s' % (k, toml(v)) for k, v in m['package'].items() if k in ('name', 'version', 'edition')]
    for sec in ('lib', 'dependencies'):
        if m.get(sec):
            out += ['[%s]' % sec] + ['%s = %s' % (k, toml(v)) for k, v in m[sec].items()]
    feats = m.get('features', {})
    out += ['[features]']
    for k, v in feats.items():
        v = [x for x in v if x in feats or re.sub(r'^dep:|[?]?/.*$', '', x) in deps]
        out.append('%s = %s' % (k, toml(v)))
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write('\n'.join(out) + '\n')
    gen = ''.join('pub static %s: ::phf::Map<i32, crate::evaluate::meta::Meta> = ::phf::Map::new();\n' % t for t in TABLES)
    with open(os.path.join(d, 'stub.rs'), 'w') as f:
        f.write(STUB % json.dumps(gen))
    return d


def dump(extra='', release=False, static=False, bare=False):
    """(path of the directory with the dumps, {rejected root: error}).

    extra: more root functions; release: as compiled without debug assertions;
    static: with the static_lookup feature; bare: without default features."""
    if static:
        extra += STATIC_ROOT
    with Lock('build'):
        exe = driver()
        roots = os.path.join(VERIF, 'roots')
        key = digest(sources() + [os.path.join(roots, f) for f in ('Cargo.toml', 'Cargo.lock', 'src/lib.rs')],
                     exe + REPO)
        if extra:
            key += '-' + hashlib.sha256(extra.encode()).hexdigest()[:8]
        if release:
            key += '-release'
        if static:
            key += '-static'
        if bare:
            key += '-bare'
        out = os.path.join(WORK, 'dump-' + key)
        done = os.path.join(out, 'done.json')
        if os.path.exists(done):
            with open(done) as f:
                return out, json.load(f)
        for d in sorted(os.listdir(WORK)):
            if d.startswith('dump-') and not d.startswith('dump-' + key[:16]):
                shutil.rmtree(os.path.join(WORK, d), ignore_errors=True)
        os.makedirs(out)
        crate = os.path.join(WORK, 'roots-static' if static else 'roots-bare' if bare else 'roots')
        shutil.rmtree(crate, ignore_errors=True)
        shutil.copytree(roots, crate, ignore=shutil.ignore_patterns('target'))
        p = os.path.join(crate, 'Cargo.toml')
        with open(p) as f:
            t = f.read()
        with open(p, 'w') as f:
            f.write(t.replace('{ path = "/repo" }', '{ path = "%s", features = ["static_lookup"] }' % static_copy()) if static
                    else t.replace('{ path = "/repo" }', '{ path = "%s", default-features = false }' % REPO) if bare
                    else t.replace('"/repo"', '"%s"' % REPO))
        e = driver_env(out, 'vroots', os.path.join(WORK, 'target-static' if static else 'target-bare' if bare else 'target-release' if release else 'target'), release)
        gone = {}
        lib = os.path.join(crate, 'src/lib.rs')
        if extra:
            with open(lib, 'a') as f:
                f.write(extra)
        for _ in range(12):
            # cargo compares times: make sure both crates are seen by the driver
            rc, log = sh(['cargo', '+nightly', 'clean', '--offline', '-p', 'vroots', '-p', 'poker'], cwd=crate, env=e)
            rc, log = sh(['cargo', '+nightly', 'check', '--offline'], cwd=crate, env=e)
            if rc == 0:
                break
            if 'could not compile `vroots`' not in log:
                raise BuildFailed(log)
            with open(lib) as f:
                t = f.read()
            t, g = prune(t, log)
            gone.update(g)
            with open(lib, 'w') as f:
                f.write(t)
        else:
            raise BuildFailed(log)
        for f in ('vroots.mono.json', 'poker.poly.json'):
            if not os.path.exists(os.path.join(out, f)):
                raise BuildFailed('the driver wrote no %s:\n%s' % (f, log))
            if static:
                p = os.path.join(out, f)
                with open(p) as h:
                    t = h.read().replace(os.path.join(WORK, 'static-repo'), REPO)
                with open(p, 'w') as h:
                    h.write(t)
        with open(done + '.tmp', 'w') as f:
            json.dump(gone, f)
        os.rename(done + '.tmp', done)
        return out, gone


def witness(name, default_features):
    """Compile a witness file against the crate: (ok, [(line, message)], log).

    The lines are those of the witness; an error in the crate itself has line None."""
    src = os.path.join(VERIF, 'witness', name + '.rs')
    with Lock('witness'):
        tag = name + ('' if default_features else '-nodefault')
        crate = os.path.join(WORK, 'witness-' + tag)
        os.makedirs(os.path.join(crate, 'src'), exist_ok=True)
        with open(os.path.join(crate, 'Cargo.toml'), 'w') as f:
            f.write('[package]\nname = "witness_%s"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
                    'poker = { path = "%s", default-features = %s }\n' % (name, REPO, 'true' if default_features else 'false'))
        lock = os.path.join(VERIF, 'roots/Cargo.lock')
        shutil.copy(lock, os.path.join(crate, 'Cargo.lock'))
        shutil.copy(src, os.path.join(crate, 'src/lib.rs'))
        e = env()
        e['CARGO_TARGET_DIR'] = os.path.join(WORK, 'target-witness')
        sh(['cargo', '+nightly', 'clean', '--offline', '-p', 'witness_' + name, '-p', 'poker'], cwd=crate, env=e)
        rc, log = sh(['cargo', '+nightly', 'check', '--offline', '--message-format', 'json'], cwd=crate, env=e)
        errs = []
        for line in log.splitlines():
            if not line.startswith('{'):
                continue
            try:
                m = json.loads(line)
            except ValueError:
                continue
            m2 = m.get('message')
            if m.get('reason') != 'compiler-message' or m2.get('level') != 'error' or not m2.get('spans'):
                continue
            mine = m['target']['name'].startswith('witness')
            sp = next((x for x in m2['spans'] if x['is_primary']), m2['spans'][0])
            while mine and sp['file_name'] != 'src/lib.rs' and sp.get('expansion'):
                sp = sp['expansion']['span']
            errs.append((sp['line_start'] if mine and sp['file_name'] == 'src/lib.rs' else None, m2['message'],
                         '%s:%d' % (sp['file_name'], sp['line_start'])))
        return rc == 0, errs, log


if __name__ == '__main__':
    print(dump())
