#!/usr/bin/env python3
"""Systematic mutants of the crate, to find what the checks miss.

  mutate.py gen OUT.json            list the mutants of /repo's sources
  mutate.py tests OUT.json [J]      keep the mutants that build and that the test suite does not notice (in copies)
  mutate.py checks OUT.json [J]     run the quick checks on the survivors until one notices

Works in copies under /tmp/mut; results are written back to OUT.json as it goes.
"""
import json, os, queue, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/mut'
FILES = ['src/list/mod.rs', 'src/vector/mod.rs', 'src/queue/mod.rs', 'src/stack/mod.rs', 'src/map/hash_trie_map/mod.rs',
         'src/map/hash_trie_map/sparse_array_usize/mod.rs', 'src/map/hash_trie_map/rayon.rs', 'src/map/red_black_tree_map/mod.rs',
         'src/set/hash_trie_set/mod.rs', 'src/set/red_black_tree_set/mod.rs', 'src/utils/mod.rs']
SUBS = [(r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']),
        (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ 1\b', ['', ' + 2']), (r' - 1\b', ['', ' - 2']), (r' \+ ', [' - ']), (r' - ', [' + ']),
        (r' \* ', [' + ']), (r' / ', [' * ']), (r' << ', [' >> ']), (r' >> ', [' << ']), (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ']),
        (r' & ', [' | ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r'\b2\b', ['1', '3']),
        (r'\bleft\b', ['right']), (r'\bright\b', ['left']), (r'\bRed\b', ['Black']), (r'\bBlack\b', ['Red']), (r'\bLess\b', ['Greater']),
        (r'\bGreater\b', ['Less']), (r'\.rev\(\)', ['']), (r'\.\.=', ['..']), (r'\bIncluded\b', ['Excluded']), (r'\bExcluded\b', ['Included']),
        (r'is_some\(\)', ['is_none()']), (r'is_none\(\)', ['is_some()']), (r'is_empty\(\)', ['is_empty() == false']), (r'\bfirst\b', ['last']),
        (r'\blast\b', ['first']), (r'\bmin\b', ['max']), (r'\bmax\b', ['min']), (r'\bnext_back\b', ['next']), (r'\.next\(\)', ['.next_back()']),
        (r'\ball\(', ['any(']), (r'\bany\(', ['all(']), (r'_mut\(', ['(']), (r'\bfold\b', ['rfold']), (r'!(?=[a-z(])', ['']),
        (r'\bforward_index\b', ['backward_index']), (r'\bbackward_index\b', ['forward_index']), (r'\bSome\([a-z_]+\)$', ['None'])]


def gen(out):
    ms = []
    for f in FILES:
        lines = open('/repo/' + f).read().split('\n')
        intest = False
        for i, l in enumerate(lines):
            s = l.strip()
            if re.match(r'#\[cfg\(test\)\]', s):
                continue
            if not s or s.startswith(('//', '#', 'use ', 'pub use', 'mod ', 'pub mod', 'impl', 'where', 'debug_assert', 'type ', 'pub type', '}', ')')) or 'fn ' in s and s.endswith('{') and '=' not in s:
                continue
            seen = set()

            def add(new, why):
                if new != l and new not in seen:
                    seen.add(new)
                    ms.append(dict(id=len(ms), file=f, line=i + 1, old=l, new=new, why=why))
            code = l.split(' // ')[0]
            for pat, reps in SUBS:
                for m in re.finditer(pat, code):
                    for r in reps:
                        add(l[:m.start()] + r + l[m.end():], pat)
            m = re.match(r'^(\s*(?:\} else )?(?:if|while) )(?!let)(.*)( \{)$', l)
            if m:
                add(f'{m[1]}!({m[2]}){m[3]}', 'negate')
                add(f'{m[1]}true{m[3]}', 'true')
                add(f'{m[1]}false{m[3]}', 'false')
            if s.endswith(';') and not s.startswith(('let ', 'return', 'break', 'continue', '}', ')', '.', 'const ')) and (re.match(r'^[a-z_\.]+(\(|\.| [-+]?= |::)', s)):
                add(re.match(r'\s*', l)[0] + ';', 'delete')
            m = re.match(r'^(\s*)(\w+(?:::\w+)*(?:\(.*\))?) (=>) (.*),$', l)
            if m and m[4] not in ('{',):
                add(f'{m[1]}{m[2]} if false => {m[4]},', 'arm')
    json.dump(ms, open(out, 'w'), indent=0)
    print(len(ms), 'mutants')


def worker_dir(k):
    d = f'{W}/w{k}'
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=d + '/repo')
    subprocess.run(['git', 'fetch', '-q', '/repo', 'HEAD'], cwd=d + '/repo')
    subprocess.run(['git', 'checkout', '-q', 'FETCH_HEAD'], cwd=d + '/repo')
    return d


def apply(m, repo):
    p = f'{repo}/{m["file"]}'
    ls = open(p).read().split('\n')
    assert ls[m['line'] - 1] == m['old'], m
    ls[m['line'] - 1] = m['new']
    open(p, 'w').write('\n'.join(ls))


ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', CARGO_PROFILE_DEV_OPT_LEVEL='1', CARGO_PROFILE_TEST_OPT_LEVEL='1', CARGO_PROFILE_DEV_DEBUG='0', CARGO_PROFILE_TEST_DEBUG='0')


def run_tests(m, repo):
    key = m['file'].split('/')[-2]
    if key in ('map', 'hash_trie_map'):
        key = 'hash_trie_map::test'
    t = run_some(m, repo, [key])
    return run_some(m, repo, []) if t == 'survives' else t


def run_some(m, repo, flt):
    try:
        r = subprocess.run(['cargo', 'test', '--lib', '--all-features', '--offline', '-q'] + flt + ['--', '--test-threads', '2'], cwd=repo, env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=120)
    except subprocess.TimeoutExpired:
        subprocess.run(['pkill', '-f', repo + '/target/debug'])
        return 'timeout'
    if r.returncode == 0:
        return 'survives'
    return 'nobuild' if 'could not compile' in r.stdout else 'killed'


def pool(ms, j, f, out):
    q = queue.Queue()
    for m in ms:
        q.put(m)
    lock = threading.Lock()
    allm = json.load(open(out))
    n = [0]

    def w(k):
        d = worker_dir(k)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            f(m, d)
            with lock:
                allm[m['id']] = m
                n[0] += 1
                if n[0] % 20 == 0 or 'checks' in m:
                    json.dump(allm, open(out + '.tmp', 'w'), indent=0)
                    os.replace(out + '.tmp', out)
                    print(n[0], '/', len(ms), m['file'], m['line'], m.get('tests'), m.get('checks'), flush=True)
    ts = [threading.Thread(target=w, args=(k,)) for k in range(j)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    json.dump(allm, open(out, 'w'), indent=0)


def tests(out, j):
    ms = [m for m in json.load(open(out)) if 'tests' not in m]

    def f(m, d):
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=d + '/repo')
        apply(m, d + '/repo')
        m['tests'] = run_tests(m, d + '/repo')
    pool(ms, j, f, out)


ORDER = {'list': 'C02 C01 C20 C08 C09 C04 C12 C13 C14 C21 C22 C23 C24 C15 C11 C10 C17 C16 C25',
         'vector': 'C03 C01 C20 C08 C09 C12 C13 C14 C21 C22 C23 C24 C15 C11 C10 C17 C16 C25',
         'queue': 'C04 C01 C20 C08 C09 C12 C13 C14 C21 C22 C23 C24 C15 C11 C10 C17 C16 C25',
         'stack': 'C02 C01 C20 C08 C09 C12 C13 C14 C21 C22 C23 C24 C15 C11 C10 C17 C16 C25',
         'hash_trie_map': 'C05 C01 C20 C08 C09 C07 C12 C13 C14 C18 C21 C22 C23 C24 C15 C11 C10 C17 C16 C25',
         'hash_trie_set': 'C07 C01 C20 C08 C09 C12 C13 C14 C21 C22 C23 C24 C11 C10 C17 C16 C25',
         'red_black_tree_map': 'C06 C01 C20 C08 C09 C07 C12 C13 C14 C21 C22 C23 C24 C15 C11 C10 C17 C16 C25',
         'red_black_tree_set': 'C07 C01 C20 C08 C09 C12 C13 C14 C21 C22 C23 C24 C11 C10 C17 C16 C25',
         'utils': 'C05 C06 C13 C12 C14'}


def checks(out, j):
    ms = [m for m in json.load(open(out)) if m.get('tests') == 'survives' and 'checks' not in m]
    # The harness names /repo: a copy of /verif with the path replaced.
    def prep(k):
        d = worker_dir(k)
        v = d + '/verif'
        if not os.path.exists(v):
            os.makedirs(v)
        for x in ('check.py', 'checks.py', 'clients.py', 'known_findings.txt'):
            shutil.copy(f'{V}/{x}', v)
        subprocess.run(['rsync', '-a', '--exclude', 'target', V + '/harness', V + '/clients', v], check=False) if shutil.which('rsync') else \
            subprocess.run(f'cd {V} && tar cf - --exclude target harness clients | tar xf - -C {v}', shell=True, check=True)
        subprocess.run(f"grep -rl /repo --include=Cargo.toml {v} | xargs sed -i 's#\"/repo\"#\"{d}/repo\"#'", shell=True, check=True)
        os.makedirs(v + '/evidence', exist_ok=True)
    [prep(k) for k in range(j)]

    def f(m, d):
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=d + '/repo')
        apply(m, d + '/repo')
        key = next(k for k in ('list', 'vector', 'queue', 'stack', 'hash_trie_map', 'hash_trie_set', 'red_black_tree_map', 'red_black_tree_set', 'utils') if f'/{k}/' in m['file'])
        m['checks'] = 'NONE'
        bad = []
        for c in m.get('order', ORDER[key]).split():
            try:
                r = subprocess.run(['python3', 'check.py', c], cwd=d + '/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=900)
            except subprocess.TimeoutExpired:
                bad.append(c + ':timeout')
                continue
            if r.returncode == 1:
                m['checks'] = c
                break
            if r.returncode != 0:
                bad.append(c + ':' + r.stdout[-200:])
        m['inconclusive'] = bad
    pool(ms, j, f, out)


a = sys.argv
{'gen': lambda: gen(a[2]), 'tests': lambda: tests(a[2], int(a[3]) if len(a) > 3 else 4), 'checks': lambda: checks(a[2], int(a[3]) if len(a) > 3 else 2)}[a[1]]()
