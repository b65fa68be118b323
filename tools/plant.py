#!/usr/bin/env python3
"""Validate planted bugs and write them to /verif/seeded.

    plant.py SPEC.py [ID...]        validate (build, stable tests, demo on both trees) and write seeded/<id>/
    plant.py --checks SPEC.py|all [ID...]   run the quick check of each planted bug's property against it

A spec file defines PLANTS: a list of dict(id, property, needs, breaks, edits=[(file, old, new)], demo=<main.rs text>,
features=[...], and optionally kind='miri' with target=... or release=True).

Everything happens in copies of /repo under /tmp/plantw.
"""
import json, os, re, runpy, shutil, subprocess, sys, threading, time, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('PLANTW', '/tmp/plantw')
SNAP = W + '/snap%d' % os.getpid()
ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')

DEMO = '''#!/bin/bash
# Runs the program beside this file against the crate in the current directory: 0 if it finds nothing wrong.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f "$here/Cargo.lock" ] && cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
rpds = {{ path = "$repo"{features} }}
archery = {{ version = "1.2.2", features = ["triomphe"] }}
{deps}{profile}
EOF
export HOME=${{HOME:-/root}} CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" CARGO_TERM_COLOR=never RUSTC_WRAPPER=
cd "$d" || exit 2
{pre}{limit}cargo {tool} --offline -q{args}
'''


def demo_sh(p):
    feats = p.get('features', [])
    f = ', features = [%s]' % ', '.join('"%s"' % x for x in feats) if feats else ''
    if p.get('nodefault'):
        f = ', default-features = false' + f
    deps = ''
    if 'serde' in feats:
        deps += 'serde = { version = "1", features = ["derive"] }\nserde_json = "1"\n'
    if 'rayon' in feats:
        deps += 'rayon = "1"\n'
    tool, args, pre = 'run', ' --release' if p.get('release') else '', ''
    if p.get('kind') == 'miri':
        tool = '+nightly miri run'
        if p.get('target'):
            args = ' --target ' + p['target']
        pre = 'export MIRIFLAGS="%s"\n' % p.get('miriflags', '-Zmiri-disable-isolation')
    return DEMO.format(features=f, deps=deps, profile=p.get('profile', ''), pre=pre, limit=p.get('limit', 'timeout 250 '),
                       tool=tool, args=args)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def apply(p, repo):
    for f, old, new in p['edits']:
        path = os.path.join(repo, f)
        s = open(path).read()
        n = s.count(old)
        if n != 1:
            return '%s: %d matches for %r' % (f, n, old[:80])
        open(path, 'w').write(s.replace(old, new))


def stable(repo):
    log = repo + '/target/vp/cargo-test.log'
    os.makedirs(repo + '/target/vp', exist_ok=True)
    try:
        r = subprocess.run(['cargo', 'test', '--workspace', '--all-features', '--no-fail-fast', '--offline', '--', '--test-threads', '8'],
                           cwd=repo, env=ENV, stdout=open(log, 'w'), stderr=subprocess.STDOUT, timeout=400)
    except subprocess.TimeoutExpired:
        return ['TIMEOUT']
    out = repo + '/target/vp/out.json'
    sh(['python3', '/opt/vp/results.py', out, 'cargo:' + log])
    passed = set(json.load(open(out))['passed'])
    return sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - passed)


def build(repo):
    for c in (['test', '--workspace', '--all-features', '--lib', '--bins', '--tests', '--benches', '--no-run', '--offline'],
              ['check', '--lib', '--no-default-features', '--offline'], ['check', '--lib', '--offline']):
        r = sh(['cargo'] + c, cwd=repo, env=ENV)
        if r.returncode:
            return r.stdout[-3000:]


def demo(d, repo):
    env = {k: v for k, v in os.environ.items() if not k.startswith('CARGO') and k != 'RUSTUP_TOOLCHAIN'}
    try:
        r = sh(['bash', d + '/demo.sh'], cwd=repo, env=env, timeout=300)
        return r.returncode, r.stdout[-600:]
    except subprocess.TimeoutExpired:
        return -999, 'TIMEOUT'


def validate(p, w):
    repo = w + '/repo'
    sh(['git', 'checkout', '-q', '--', '.'], cwd=repo)
    err = apply(p, repo)
    if err:
        return 'EDIT ' + err
    diff = sh(['git', 'diff', '--no-color'], cwd=repo).stdout
    err = build(repo)
    if err:
        return 'BUILD ' + err
    missing = stable(repo)
    if missing:
        return 'TESTS FAIL: ' + ' '.join(missing[:6])
    d = w + '/demo/' + p['id']
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/main.rs', 'w').write(p['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(demo_sh(p))
    os.chmod(d + '/demo.sh', 0o755)
    # a lock file of its own
    t = w + '/lock'
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t + '/src')
    shutil.copy(d + '/main.rs', t + '/src/main.rs')
    m = re.search(r'cat > "\$d/Cargo.toml" <<EOF\n(.*?)\nEOF\n', demo_sh(p), re.S).group(1).replace('$repo', repo)
    open(t + '/Cargo.toml', 'w').write(m)
    shutil.copy(VERIF + '/harness/Cargo.lock', t + '/Cargo.lock')
    r = sh(['cargo', 'generate-lockfile', '--offline'], cwd=t, env=ENV) if not os.path.exists(t + '/Cargo.lock') else sh(['cargo', 'tree', '--offline'], cwd=t, env=ENV)
    shutil.copy(t + '/Cargo.lock', d + '/Cargo.lock')
    rc, out = demo(d, repo)
    sh(['git', 'checkout', '-q', '--', '.'], cwd=repo)
    rc0, out0 = demo(d, repo)
    if rc0 != 0:
        return 'DEMO FAILS ON CLEAN rc=%s %s' % (rc0, out0)
    if rc == 0:
        return 'DEMO PASSES WITH THE BUG'
    s = VERIF + '/seeded/' + p['id']
    shutil.rmtree(s, ignore_errors=True)
    shutil.copytree(d, s)
    open(s + '/patch.diff', 'w').write(diff)
    json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(s + '/meta.json', 'w'), indent=1)
    open(s + '/meta.json', 'a').write('\n')
    return 'OK (demo rc=%s: %s)' % (rc, out.strip().replace('\n', ' | ')[:160])


def pool(items, fn, n):
    q = queue.Queue()
    for i in items:
        q.put(i)
    lock = threading.Lock()

    def run(k):
        w = '%s/%d' % (W, k)
        if not os.path.exists(w + '/repo/.git'):
            os.makedirs(w, exist_ok=True)
            sh(['cp', '-a', '/repo', w + '/repo'])
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                return
            try:
                r = fn(i, w)
            except Exception as e:
                r = 'EXCEPTION %r' % e
            with lock:
                print(i['id'], i['property'], r, flush=True)
    ts = [threading.Thread(target=run, args=(k,)) for k in range(min(n, len(items)))]
    [t.start() for t in ts]
    [t.join() for t in ts]


def run_check(p, w):
    repo, v = w + '/repo', w + '/verif'
    os.makedirs(v, exist_ok=True)
    sh(['bash', '-c', 'cd %s && tar cf - --exclude=./harness/target --exclude=./clients/target --exclude=./seeded --exclude=./evidence --exclude=./replays --exclude=./.git . | tar xf - -C %s' % (SNAP, v)])
    for f in ('harness', 'clients/free', 'clients/refmac'):
        f = f'{v}/{f}/Cargo.toml'
        s = open(f).read()
        open(f, 'w').write(s.replace('"/repo"', '"%s"' % repo))
    sh(['git', 'checkout', '-q', '--', '.'], cwd=repo)
    r = sh(['git', 'apply', VERIF + '/seeded/' + p['id'] + '/patch.diff'], cwd=repo)
    if r.returncode:
        return 'APPLY ' + r.stdout
    t = time.time()
    try:
        r = sh(['python3', 'check.py', p.get('check', p['property'])], cwd=v, env=dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick'), timeout=1200)
    except subprocess.TimeoutExpired:
        return 'TIMEOUT'
    finally:
        sh(['git', 'checkout', '-q', '--', '.'], cwd=repo)
    viol = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
    return '%s rc=%d %.0fs %s' % ('CAUGHT' if r.returncode == 1 and viol else 'MISSED', r.returncode, time.time() - t,
                                  (viol[0] if viol else r.stdout[-300:])[:120])


if __name__ == '__main__':
    a = sys.argv[1:]
    checks = '--checks' in a
    as_check = [x[5:] for x in a if x.startswith('--as=')]
    a = [x for x in a if not x.startswith('--')]
    if checks:
        if not a:
            a = sorted(os.listdir(VERIF + '/seeded'))
        plants = [dict(id=i, property=json.load(open(VERIF + '/seeded/%s/meta.json' % i))['property']) for i in a]
        if as_check:
            plants = [dict(p, check=c) for p in plants for c in as_check]
        # The working tree as it is now.
        os.makedirs(SNAP)
        sh(['bash', '-c', 'cd %s && tar cf - --exclude=./harness/target --exclude=./clients/target --exclude=./seeded --exclude=./evidence --exclude=./replays --exclude=./.git . | tar xf - -C %s' % (VERIF, SNAP)])
        try:
            pool(plants, run_check, int(os.environ.get('J', '3')))
        finally:
            shutil.rmtree(SNAP)
        sys.exit()
    plants = []
    for f in [x for x in a if x.endswith('.py')]:
        plants += runpy.run_path(f)['PLANTS']
    ids = [x for x in a if not x.endswith('.py')]
    if ids:
        plants = [p for p in plants if p['id'] in ids]
    # the copies must be at /repo's HEAD
    head = sh(['git', 'rev-parse', 'HEAD'], cwd='/repo').stdout
    for k in range(8):
        r = '%s/%d/repo' % (W, k)
        if os.path.exists(r) and sh(['git', 'rev-parse', 'HEAD'], cwd=r).stdout != head:
            shutil.rmtree(r)
    pool(plants, validate, int(os.environ.get('J', '4')))
