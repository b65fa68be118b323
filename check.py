#!/usr/bin/env python3
"""Builds, runs and judges one check.

  check.py C05 [--tier quick|thorough]   run the check (exit 0 held, 1 violated, 2 no verdict)
  check.py --replay FILE                 run again what a replay file describes

Every part of a check is a program of harness/ (or a tool run of it) that executes the crate as it is in
/repo's working tree under a workload, with monitors watching; it writes a JSON report.  This script spawns the
shards, tells crashes and hangs apart from harness trouble, aggregates, and writes evidence/<id>.json.
"""
import array, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, 'harness')
sys.path.insert(0, ROOT)
import clients  # noqa: E402
from checks import CHECKS  # noqa: E402

TRIPLE = 'x86_64-unknown-linux-gnu'
MIRI_TARGET = {'miri': TRIPLE, 'miri32': 'i686-unknown-linux-gnu', 'miribe': 's390x-unknown-linux-gnu',
               'mirips': TRIPLE, 'miritb': TRIPLE}
MIRI_FLAGS = {
    'miri': '', 'miri32': '', 'miribe': '', 'miritb': '-Zmiri-tree-borrows', 'mirips': '-Zmiri-many-seeds=0..4'}


def sh_env(extra=None):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS', 'MIRIFLAGS', 'RUSTC_WRAPPER'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e.update(extra or {})
    return e


class Trouble(Exception):
    pass


# Which element types of typed.rs a program needs compiled in.
TYPED = {'c01': ['typed_all'], 'c02': ['typed_list'], 'c03': ['typed_vector'], 'c04': ['typed_queue'], 'c05': ['typed_hash'],
         'c06': ['typed_tree'], 'c07': ['typed_hash', 'typed_tree'], 'c09': ['typed_all'], 'c12': ['typed_all'],
         'c20': ['typed_all']}


def plan_build(p):
    """(build command or None, environment, argv prefix of a shard) of a part."""
    feats = p.get('features', []) + TYPED.get(p['bin'], [])
    f = ['--features', ','.join(feats)] if feats else []
    if p.get('nodefault'):
        f = ['--no-default-features'] + f
    kind = p.get('build', 'release')
    tgt = os.path.join(HARNESS, 'target', kind + ('-nd' if p.get('nodefault') else ''))
    b = p['bin']
    env = {'CARGO_TARGET_DIR': tgt}
    if kind == 'release':
        return (['cargo', 'build', '--release', '--offline', '--bin', b] + f, env, [f'{tgt}/release/{b}'])
    if kind == 'plain':
        return (['cargo', 'build', '--profile', 'plain', '--offline', '--bin', b] + f, env, [f'{tgt}/plain/{b}'])
    if kind == 'dev':
        return (['cargo', 'build', '--offline', '--bin', b] + f, env, [f'{tgt}/debug/{b}'])
    if kind == 'asan':
        # Without the debug assertions of the crate, with those of the standard library for unsafe functions.
        env['RUSTFLAGS'] = '-Zsanitizer=address -Cforce-frame-pointers=yes -Zub-checks=yes'
        return (['cargo', '+nightly', 'build', '--profile', 'plain', '--offline', '--target', TRIPLE, '--bin', b] + f, env,
                [f'{tgt}/{TRIPLE}/plain/{b}'])
    if kind == 'msan':
        env['RUSTFLAGS'] = '-Zsanitizer=memory -Zsanitizer-memory-track-origins -Cforce-frame-pointers=yes'
        return (['cargo', '+nightly', 'build', '--profile', 'plain', '--offline', '-Zbuild-std', '--target', TRIPLE, '--bin', b]
                + f, env, [f'{tgt}/{TRIPLE}/plain/{b}'])
    if kind == 'tsan':
        env['RUSTFLAGS'] = '-Zsanitizer=thread -Cforce-frame-pointers=yes'
        return (['cargo', '+nightly', 'build', '--release', '--offline', '-Zbuild-std', '--target', TRIPLE, '--bin', b]
                + f, env, [f'{tgt}/{TRIPLE}/release/{b}'])
    if kind in MIRI_TARGET:
        t = MIRI_TARGET[kind]
        tgt = os.path.join(HARNESS, 'target', 'miri')
        env['CARGO_TARGET_DIR'] = tgt
        env['MIRIFLAGS'] = ('-Zmiri-disable-isolation ' + MIRI_FLAGS[kind] + ' ' + p.get('miriflags', '')).strip()
        run = ['cargo', '+nightly', 'miri', 'run', '-q', '--offline', '--target', t, '--bin', b] + f
        run += (['--profile', p['profile']] if p.get('profile') else []) + ['--']
        # Running no case builds the sysroot and the program.
        return (run + ['--scale', '0', '--out', '/dev/null'], env, run)
    raise Trouble(f'unknown build {kind}')


def build(p):
    cmd, env, prefix = plan_build(p)
    t = time.time()
    r = subprocess.run(cmd, cwd=HARNESS, env=sh_env(env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors='replace')
    if r.returncode != 0:
        # Nothing is run in the build of a tool run, so this is no verdict on the code.
        raise Trouble(f'cannot build {p["bin"]} ({p.get("build", "release")}):\n' + r.stdout[-6000:])
    return prefix, env, time.time() - t


def limits(mem_mb, core=True):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem_mb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        os.setpgid(0, 0)
    return f


def run_env(p, env):
    e = sh_env(env)
    e['ASAN_OPTIONS'] = 'exitcode=99:detect_leaks=1:abort_on_error=0:allocator_may_return_null=1'
    e['LSAN_OPTIONS'] = 'exitcode=99'
    e['MSAN_OPTIONS'] = 'exitcode=99'
    e['TSAN_OPTIONS'] = 'exitcode=99:halt_on_error=0:second_deadlock_stack=1:history_size=4'
    return e


def spawn(p, prefix, env, args, err, only=None):
    kind = p.get('build', 'release')
    cmd = prefix + args
    mem = 0 if kind in ('asan', 'tsan', 'msan') or kind in MIRI_TARGET else p.get('mem_mb', 3500)
    return subprocess.Popen(cmd, cwd=HARNESS, env=run_env(p, env), stdin=subprocess.DEVNULL,
                            stdout=subprocess.DEVNULL, stderr=err, preexec_fn=limits(mem))


def kill(pr):
    try:
        os.killpg(pr.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


SANITIZER = re.compile(r'(ERROR: AddressSanitizer[^\n]*|ERROR: LeakSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|'
                       r'WARNING: MemorySanitizer[^\n]*|error: Undefined Behavior[^\n]*|error: memory leaked[^\n]*|error: unsupported operation[^\n]*|'
                       r'error: deadlock[^\n]*|error: abnormal termination[^\n]*|error: the evaluated program[^\n]*)')


def tail(path, n=5000):
    with open(path, 'rb') as f:
        return f.read()[-n:].decode('utf8', 'replace')


def head_of_report(text):
    m = SANITIZER.search(text)
    return m.group(1) if m else None


def describe_exit(rc):
    if rc < 0:
        try:
            return signal.Signals(-rc).name
        except ValueError:
            return f'signal {-rc}'
    if rc == 134:
        return 'SIGABRT'
    if rc == 139:
        return 'SIGSEGV'
    return f'exit status {rc}'


def crashed(rc):
    return rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE, -signal.SIGTRAP, 134,
                  139)


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.spec = CHECKS[pid]
        self.counters, self.samples, self.notes = {}, [], []
        self.evals = 0
        self.distinct = set()
        self.violations, self.findings, self.trouble = [], [], []
        self.tmp = tempfile.mkdtemp(prefix='rpds-check-')

    def args(self, p, shard, n, out, case=None):
        a = ['--seed', str(self.seed), '--tier', self.tier, '--shard', str(shard), '--nshards', str(n), '--out', out]
        if p.get('mode'):
            a += ['--mode', p['mode']]
        if p.get('scale'):
            a += ['--scale', str(p['scale'])]
        if p.get('thorough_scale') and self.tier == 'thorough':
            a += ['--scale', str(p['thorough_scale'])]
        if case is not None:
            a += ['--case', str(case)]
        return a

    # For clients.py
    def count(self, k, n):
        self.counters[k] = self.counters.get(k, 0) + int(n)

    def viol(self, case, msg, trace):
        self.violation(dict(bin='clients.py'), self.now, None, None, case, msg, trace)

    def part(self, p):
        if p.get('clients'):
            self.now = p['name']
            t = time.time()
            try:
                getattr(clients, p['clients'])(self, self.tier, self.seed, self.tmp)
            except clients.Trouble as e:
                self.trouble.append(str(e))
            print(f'{self.pid}: {self.now} took {time.time() - t:.1f} s', flush=True)
            return
        prefix, env, bt = build(p)
        name = p.get('name', p['bin'])
        print(f'{self.pid}: {name} built in {bt:.1f} s', flush=True)
        n = p.get('shards', 8)
        wall = p.get('wall', 600) if self.tier == 'quick' else p.get('wall_thorough', 10800)
        procs = []
        t = time.time()
        for s in range(n):
            out = f'{self.tmp}/{name}.{s}.json'
            err = open(out + '.err', 'wb')
            procs.append((s, out, spawn(p, prefix, env, self.args(p, s, n, out), err)))
        deadline = t + wall
        for s, out, pr in procs:
            try:
                pr.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                kill(pr)
                pr.wait()
                self.trouble.append(f'{name} shard {s}: no answer in {wall} s')
        for s, out, pr in procs:
            self.judge(p, prefix, env, name, s, n, out, pr.returncode)
        print(f'{self.pid}: {name} ran for {time.time() - t:.1f} s', flush=True)

    def read_case(self, out):
        try:
            with open(out + '.case') as f:
                return int(f.read().strip())
        except (OSError, ValueError):
            return None

    def judge(self, p, prefix, env, name, s, n, out, rc):
        err = tail(out + '.err')
        sanit = head_of_report(tail(out + '.err', 1 << 20))
        if rc == 0 and not sanit:
            try:
                self.merge(p, out)
            except (OSError, ValueError) as e:
                self.trouble.append(f'{name} shard {s}: no report ({e})')
            return
        if rc == -signal.SIGKILL:
            if not any(f'{name} shard {s}:' in x for x in self.trouble):
                self.trouble.append(f'{name} shard {s}: killed (memory?)')
            return
        case = self.read_case(out)
        if sanit and 'unsupported operation' not in sanit and 'deadlock' not in sanit:
            full = tail(out + '.err', 1 << 20)
            at = full.find(sanit)
            self.violation(p, name, s, n, case, sanit, full[at:at + 6000].splitlines())
            return
        if rc == 98:
            self.trouble.append(f'{name} shard {s}: harness fault, case {case}: {err[-800:]}')
            return
        if crashed(rc) or rc == 97:
            what = 'an operation does not terminate' if rc == 97 else f'the process crashed ({describe_exit(rc)})'
            if case is None:
                self.trouble.append(f'{name} shard {s}: {what} outside any case: {err[-800:]}')
                return
            rc2, err2 = self.again(p, prefix, env, name, s, n, case)
            if rc2 == rc or crashed(rc2) and crashed(rc):
                self.violation(p, name, s, n, case, f'{what}, again when run alone', (err2 or err).splitlines()[-40:])
            elif crashed(rc) and 'memory allocation' not in err:
                self.violation(p, name, s, n, case, f'{what}; not again when run alone', err.splitlines()[-40:])
            else:
                self.trouble.append(f'{name} shard {s}: {what} in case {case}, not reproduced ({describe_exit(rc2)}): {err[-800:]}')
            return
        self.trouble.append(f'{name} shard {s}: {describe_exit(rc)}: {err[-1500:]}')

    def again(self, p, prefix, env, name, s, n, case):
        out = f'{self.tmp}/{name}.{s}.again.json'
        with open(out + '.err', 'wb') as err:
            pr = spawn(p, prefix, env, self.args(p, s, n, out, case), err)
            try:
                pr.wait(300)
            except subprocess.TimeoutExpired:
                kill(pr)
                pr.wait()
        return pr.returncode, tail(out + '.err')

    def merge(self, p, out):
        with open(out) as f:
            d = json.load(f)
        for k, v in d['counters'].items():
            if k.startswith('max_'):
                self.counters[k] = max(v, self.counters.get(k, 0))
            else:
                self.counters[k] = self.counters.get(k, 0) + v
        self.evals += d['evals']
        pre = p.get('name', p['bin'])
        if os.path.exists(out + '.fp'):
            a = array.array('Q')
            with open(out + '.fp', 'rb') as f:
                a.frombytes(f.read())
            self.distinct.update(a)
        self.samples += [f'[{pre}] {x}' for x in d['samples']]
        self.notes += d['notes']
        for f in d['findings']:
            self.findings.append(f)
        for v in d['violations']:
            self.violation(p, pre, None, None, v['case'], v['msg'], v['trace'])

    def violation(self, p, name, s, n, case, msg, trace):
        self.violations.append(dict(part=name, bin=p['bin'], build=p.get('build', 'release'), case=case, message=msg,
                                    trace=trace))

    def known(self):
        out = {}
        try:
            with open(os.path.join(ROOT, 'known_findings.txt')) as f:
                for l in f:
                    m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l)
                    if m and m.group(1) == self.pid:
                        out[m.group(2)] = m.group(3).strip()
        except OSError:
            pass
        return out

    def finish(self, t0):
        spec = self.spec
        known = self.known()
        seen = {}
        for f in self.findings:
            i, _, what = f.partition(' ')
            if i in known:
                seen[i] = known[i]
            else:
                self.violations.append(dict(part='', bin='', build='', case=None, message=f'{what} (not a known finding)',
                                            trace=[]))
        for k, n in spec.get('need', {}).items():
            if self.counters.get(k, 0) < n and not self.violations and not self.trouble:
                self.trouble.append(f'observed too little: {k} = {self.counters.get(k, 0)}, at least {n} needed')
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.distinct), rule=spec['rule'],
                   samples=(self.samples[:8] or ['none']), observed=dict(sorted(self.counters.items())))
        if self.notes:
            cov['notes'] = sorted(set(self.notes))[:20]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=spec.get('level', 'exploration'), coverage=cov,
                  assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for i, what in sorted(seen.items()):
            print(f'KNOWN-FINDING: property={self.pid} {what}')
        for x in self.trouble:
            print('TROUBLE:', x)
        if self.violations:
            os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
            for i, v in enumerate(self.violations[:5]):
                path = os.path.join(ROOT, 'replays', f'{self.pid}-{self.tier}-{self.seed}-{i}.json')
                with open(path, 'w') as f:
                    json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, **v), f, indent=1)
                    f.write('\n')
                print(f'VIOLATION property={self.pid} replay={path}')
                print('  ' + v['message'][:1500].replace('\n', '\n  '))
            return 1
        if self.trouble:
            return 2
        print(f'{self.pid}: held; {self.evals} evaluations, {len(self.distinct)} distinct non-trivial cases, '
              f'{time.time() - t0:.1f} s')
        return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        with open(a[1]) as f:
            v = json.load(f)
        r = Run(v['property'], v['tier'], v['seed'])
        for p in r.spec['parts']:
            if p.get('clients') and p['name'] == v['part']:
                r.now = p['name']
                getattr(clients, p['clients'])(r, r.tier, r.seed, r.tmp, v['case'])
                for x in r.violations:
                    print(x['message'])
                    print('\n'.join('  ' + t for t in x['trace']))
            elif p.get('name', p.get('bin')) == v['part'] and v['case'] is not None:
                prefix, env, _ = build(p)
                out = r.tmp + '/replay.json'
                with open(out + '.err', 'wb') as err:
                    pr = spawn(p, prefix, env, r.args(p, 0, 1, out, v['case']), err)
                    pr.wait()
                print(describe_exit(pr.returncode), tail(out + '.err'))
                if os.path.exists(out):
                    for x in json.load(open(out))['violations']:
                        print(x['msg'])
                        print('\n'.join('  ' + t for t in x['trace']))
        shutil.rmtree(r.tmp, ignore_errors=True)
        return 0
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    only = a[a.index('--part') + 1] if '--part' in a else None
    t0 = time.time()
    r = Run(pid, tier, seed)
    try:
        parts = [p for p in r.spec['parts'] if tier == 'thorough' or not p.get('thorough_only')]
        if only:
            parts = [p for p in parts if p.get('name', p.get('bin')) == only]
        for p in parts:
            try:
                r.part(p)
            except Trouble as e:
                r.trouble.append(str(e))
            if r.violations:
                break
        return r.finish(t0)
    finally:
        shutil.rmtree(r.tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
