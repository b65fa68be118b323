"""Check C25: client programs of the crate, compiled, linked and executed; what they print is compared.

(a) Hosted clients.  Random programs, each in its own hostile environment (edition, imports, prelude, shadowed names),
    using the construction macros with random element expressions.  The oracle is the text the generator says the
    program prints.  Every program is first built against a control, refmac: the same crate with its macros written with
    absolute paths only.  A program of which the control does not build, or prints something else, says nothing.
(b) Freestanding clients.  One program (clients/free), without the standard library existing at all (core and alloc built
    from source), with its own allocator, doing a workload over the eight collections.  The oracle is the transcript of
    the same program hosted, with the standard features; the control is the same program without rpds.
"""
import hashlib, json, os, random, subprocess, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
CL = os.path.join(ROOT, 'clients')
TGT = os.path.join(CL, 'target')

SEQ = ['list', 'stack', 'queue', 'vector', 'ht_set', 'rbt_set']
MAP = ['ht_map', 'rbt_map']
MACROS = [m + s for m in SEQ + MAP for s in ('', '_sync')]
TYPES = dict(list='List', stack='Stack', queue='Queue', vector='Vector', ht_set='HashTrieSet', rbt_set='RedBlackTreeSet',
             ht_map='HashTrieMap', rbt_map='RedBlackTreeMap')
SHADOWS = ([f'pub struct {t}{s};' for t in TYPES.values() for s in ('', 'Sync')] +
           ['pub struct Some;', 'pub struct Ok;', 'pub enum Option {}', 'pub struct Vec;', 'pub struct Box;', 'pub struct String;',
            'pub struct Default;', 'pub struct Iterator;', 'pub struct IntoIterator;', 'pub struct FromIterator;', 'pub struct Clone;',
            'pub struct Extend;', 'pub struct From;', 'pub struct Into;', 'pub struct RcK;', 'pub struct ArcTK;', 'pub struct ArcK;',
            'pub struct SharedPointer;', 'pub struct Self_;',
            'pub fn drop(_: ()) {}', 'pub fn insert_mut() {}', 'pub fn new() {}', 'pub fn push_mut() {}',
            'pub mod archery {}', 'pub mod core {}', 'pub mod std {}', 'pub mod alloc {}', 'pub mod list {}', 'pub mod vector {}',
            'pub mod queue {}', 'pub mod stack {}', 'pub mod map {}', 'pub mod set {}', 'pub mod iter {}', 'pub mod __private {}',
            'pub type Map = (); ', 'pub trait Sync {}', 'pub trait Send {}', 'pub trait Eq {}', 'pub trait Hash {}'])
# Traits whose methods are named as those of the crate: the inherent ones come first.
TRAITS = ['pub trait Ext { fn push_back_mut(&mut self, _: i32) {} fn enqueue_mut(&mut self, _: i32) {} '
          'fn push_mut(&mut self, _: i32) {} fn insert_mut(&mut self, _: i32) {} fn push_front_mut(&mut self, _: i32) {} '
          'fn reverse_mut(&mut self) {} }\nimpl<T> Ext for T {}']
LOCALMACROS = ['vec', 'panic', 'assert', 'assert_eq', 'debug_assert', 'matches', 'list_reverse', 'write', 'unreachable', 'format']


def h64(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), 'little')


class Gen:
    def __init__(self, rng, env):
        self.r, self.env, self.id, self.expect, self.tickn = rng, env, 0, [], 0
        self.macros = {}

    def nid(self):
        self.id += 1
        return self.id

    # (source, debug text, sort key) of one element of a kind
    def value(self, kind, names):
        r = self.r
        if kind == 'int':
            n = r.randrange(-50, 50)
            s = f'{n}i32'
        elif kind == 'char':
            n = r.choice('abcdefgxyz')
            return self.expr(repr(n), 'char', names), f"'{n}'", n
        elif kind == 'str':
            n = ''.join(r.choice('abcxyz') for _ in range(r.randrange(0, 6)))
            return self.expr(f'"{n}"', "&'static str", names), f'"{n}"', n
        elif kind == 'string':
            n = ''.join(r.choice('abcxyz') for _ in range(r.randrange(0, 6)))
            return self.expr(f'<::std::string::String as ::std::convert::From<&str>>::from("{n}")', '::std::string::String',
                             names), f'"{n}"', n
        elif kind == 'tuple':
            a, b = r.randrange(100), r.randrange(100)
            return self.expr(f'({a}u8, {b}u64)', '(u8, u64)', names), f'({a}, {b})', (a, b)
        elif kind == 'unit':
            return self.expr('()', '()', names), '()', ()
        return self.expr(s, 'i32', names, n), str(n), n

    def expr(self, s, ty, names, n=None):
        r = self.r
        self.tickn += 1
        s = f'::clienth::tick({self.tickn}, {s})'
        k = r.randrange(14)
        if k == 0:
            return f'(|| {s})()'
        if k == 1:
            x = r.choice(names)
            return f'{{ let {x}: {ty} = {s}; {x} }}'
        if k == 2:
            x = r.choice(names)
            return f'match {s} {{ {x} => {x} }}'
        if k == 3:
            return f'if true {{ {s} }} else {{ loop {{}} }}'
        if k == 4:
            return f'loop {{ break {s} }}'
        if k == 5 and self.env['question']:
            return f'::std::option::Option::Some({s})?'
        if k == 6 and n is not None:
            inner = self.r.choice([m for m in SEQ if not m.startswith('rbt') and not m.startswith('ht')])
            get = 'size' if inner == 'stack' else 'len'
            return f'({s} + {self.call(inner, ["1u8", "2", "3"])}.{get}() as i32 - 3)'
        if k == 7 and n is not None:
            x = r.choice(names)
            return f'(|{x}: i32| {x} + 1 - 1)({s})'
        if k == 8:
            return f'(({s}))'
        if k == 9:
            return f'{{ #[allow(unused)] struct List; #[allow(unused)] fn q() {{}} {s} }}'
        return s

    def call(self, macro, args):
        r = self.r
        o, c = r.choice(['[]', '()', '{}'])
        return f'{self.env["path"]}{self.env["names"].get(macro, macro)}!{o}{", ".join(args)}{c}'

    def scenario(self):
        r = self.r
        m = r.choice(MACROS)
        base = m.replace('_sync', '')
        names = ['l', 's', 'v', 'q', 'm', 'c', 'e', 'k', 'h', 't', 'list', 'x', 'map', 'set']
        n = r.choice([0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 7, 11, 20]) if r.randrange(12) else r.choice([64, 128, 129, 200])
        kind = r.choice(['int', 'int', 'int', 'char', 'str', 'string', 'tuple', 'unit'])
        if kind == 'unit' and base in ('ht_set', 'rbt_set', 'ht_map', 'rbt_map') and n > 1:
            kind = 'int'
        vkind = r.choice(['int', 'str', 'string', 'unit'])
        tyof = dict(int='i32', char='char', str="&'static str", string='::std::string::String', tuple='(u8, u64)', unit='()')
        t0 = self.tickn
        args, shown = [], []
        for _ in range(n):
            if base in MAP:
                ks, kd, kk = self.value(kind, names)
                vs, vd, vv = self.value(vkind, names)
                args.append(f'{ks} => {vs}')
                shown.append((kd, vd, kk))
            else:
                s, d, k = self.value(kind, names)
                args.append(s)
                shown.append((d, None, k))
        ticks = list(range(t0 + 1, self.tickn + 1))
        call = self.call(m, args)
        # The shown contents
        if base in ('list', 'queue', 'vector'):
            out = [d for d, _, _ in shown]
        elif base == 'stack':
            out = [d for d, _, _ in reversed(shown)]
        else:
            last = {}
            for d, v, k in shown:
                last[k] = (d, v)
            out = []
            for k in sorted(last):
                d, v = last[k]
                out.append(d if v is None else f'({d}, {v})')
        i = self.nid()
        full = TYPES[base] + ('Sync' if m.endswith('_sync') else '')
        e = self.env
        ann = ''
        if n == 0 or r.randrange(4) == 0:
            params = tyof[kind] + (', ' + tyof[vkind] if base in MAP else '')
            ann = f': ::{e["crate"]}::{full}<{params}>'
        show = 'show_sorted' if base.startswith('ht_') else 'show'
        name = r.choice(names)
        body = []
        # Locals with the names the macros use, alive around the call.
        for x in r.sample(names, r.randrange(0, 4)):
            if x != name:
                body.append(f'#[allow(unused)] let {x} = {r.randrange(9)}u8;')
        form = r.randrange(5)
        if form == 0:
            body.append(f'let {name}{ann} = {{ {call} }};')
        elif form == 1 and ann == '':
            body.append(f'let {name} = match {call} {{ {r.choice(names)} if false => loop {{}}, z => z }};')
        elif form == 2:
            body.append(f'let {name}{ann};\n        {name} = {call};')
        elif form == 3 and ann == '':
            mac = f'local_{i}'
            self.macros[mac] = f'macro_rules! {mac} {{ ($($t:tt)*) => {{ $($t)* }}; }}'
            body.append(f'let {name} = {mac}!({call});')
        else:
            body.append(f'let {name}{ann} = {call};')
        body.append(f'::clienth::{show}({i}, &{name});')
        self.expect.append(f'{i} [{", ".join(out)}]')
        body.append(f'::clienth::ticks({i});')
        self.expect.append(f'{i} evaluated [{", ".join(map(str, ticks))}]')
        size = len(out)
        get = 'len' if base in ('list', 'queue', 'vector') else 'size'
        body.append(f'::clienth::len({i}, {name}.{get}());')
        self.expect.append(f'{i} len {size}')
        if m.endswith('_sync'):
            body.append(f'::clienth::is_sync(&{name});')
        if e['question']:
            head, end = f'fn s{i}() -> ::std::option::Option<()>', '::std::option::Option::Some(())'
        else:
            head, end = f'fn s{i}()', ''
        return i, f'    {head} {{\n        ' + '\n        '.join(body) + f'\n        {end}\n    }}', m, n, kind


def environment(r):
    ed = r.choice(['2015', '2018', '2021', '2021', '2024', '2024'])
    e = dict(edition=ed, question=r.randrange(2) == 0, names={}, attrs=[], root=[], uses=[], shadows=[], crate='rpds')
    style = r.choice(['path', 'path', 'use', 'macro_use', 'glob', 'renamed', 'as', 'reexport'])
    if ed == '2015':
        style = r.choice(['macro_use', 'macro_use_some'])
        e['root'].append('extern crate clienth;')
    if style == 'renamed':
        e['crate'] = 'persist'
        style = r.choice(['path', 'use'])
    elif style == 'reexport':
        e['crate'] = 'facade::inner'
        style = r.choice(['path', 'use'])
    e['path'] = ''
    if style == 'path':
        e['path'] = f'::{e["crate"]}::'
    elif style == 'use':
        e['uses'].append(f'use ::{e["crate"]}::{{{", ".join(MACROS)}}};')
    elif style == 'as':
        e['names'] = {m: f'my_{m}' for m in MACROS}
        e['uses'] += [f'use ::{e["crate"]}::{m} as my_{m};' for m in MACROS]
    elif style == 'glob':
        e['uses'].append(f'use ::{e["crate"]}::*;')
    elif style == 'macro_use':
        e['root'].append('#[macro_use] extern crate rpds;')
    elif style == 'macro_use_some':
        e['root'].append(f'#[macro_use({", ".join(MACROS)})] extern crate rpds;')
    e['style'] = style
    if r.randrange(3) == 0 and not style.startswith('macro_use'):
        e['attrs'].append('#![no_implicit_prelude]')
    if r.randrange(4) == 0:
        e['attrs'].append('#![forbid(unsafe_code)]')
    if r.randrange(6) == 0:
        e['attrs'].append('#![recursion_limit = "48"]')
    k = r.choice([0, 0, 2, 6, len(SHADOWS)])
    sh = r.sample(SHADOWS, min(k, len(SHADOWS)))
    if ed == '2015':
        sh = [x for x in sh if not x.startswith('pub mod')]
    if style == 'use':
        # The import of a macro imports the module of the same name.
        sh = [x for x in sh if x not in ('pub mod list {}', 'pub mod vector {}', 'pub mod queue {}', 'pub mod stack {}')]
    e['shadows'] = sh
    if r.randrange(4) == 0:
        e['shadows'] = sh + TRAITS
    lm = [] if style in ('macro_use', 'macro_use_some') else r.sample(LOCALMACROS, r.choice([0, 0, 3, len(LOCALMACROS)]))
    e['localmacros'] = [f'#[allow(unused_macros)] macro_rules! {x} {{ ($($t:tt)*) => {{ compile_error!("shadowed {x}") }}; }}' for x in lm]
    return e


def program(seed):
    r = random.Random(seed)
    e = environment(r)
    g = Gen(r, e)
    fns, used = [], []
    for _ in range(r.randrange(6, 12)):
        i, f, m, n, k = g.scenario()
        fns.append((i, f))
        used.append((m, n, k))
    # What std's own macros need stays out of shadowed scopes: the body is a module of its own.
    src = ['#![allow(warnings)]'] + e['attrs'] + e['root']
    src += e['localmacros'] if e['localmacros'] else []
    src += list(g.macros.values())
    src += ['mod w {', '    #[allow(unused_imports)] use super::*;' if e['edition'] != '2015' else ''] + ['    ' + x for x in e['uses']]
    src += ['    ' + x for x in e['shadows']]
    src += [f for _, f in fns]
    src += ['    pub fn run() {'] + [f'        s{i}();' for i, _ in fns] + ['    }', '}', 'fn main() { self::w::run() }', '']
    return e, '\n'.join(src), '\n'.join(g.expect) + '\n', used


def env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS', 'MIRIFLAGS', 'RUSTC_WRAPPER'):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    return e


class Trouble(Exception):
    pass


def cargo(d, args, extra=None):
    ev = env()
    ev.update(extra or {})
    return subprocess.run(['cargo'] + args, cwd=d, env=ev, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')


def libs():
    """Paths of the rlibs of rpds and refmac, of the same build."""
    t = os.path.join(TGT, 'host')
    r = cargo(os.path.join(CL, 'refmac'), ['build', '--offline', '--message-format=json'], {'CARGO_TARGET_DIR': t})
    out = {}
    for l in r.stdout.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get('reason') == 'compiler-artifact':
            for f in d['filenames']:
                if f.endswith('.rlib'):
                    out[d['target']['name'].replace('-', '_')] = f
    if r.returncode or 'rpds' not in out or 'refmac' not in out:
        raise Trouble('the crate does not build: ' + r.stderr[-3000:])
    return out, os.path.join(t, 'debug', 'deps')


def rustc(args, cwd):
    return subprocess.run(['rustc', '--cap-lints', 'allow'] + args, cwd=cwd, env=env(), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors='replace')


def hosted(run, tier, seed, tmp, only=None):
    lib, deps = libs()
    h = os.path.join(tmp, 'libclienth.rlib')
    r = rustc(['--edition', '2021', '--crate-type', 'rlib', '--crate-name', 'clienth', os.path.join(CL, 'helper', 'lib.rs'), '-o', h], tmp)
    if r.returncode:
        raise Trouble('the helper does not build: ' + r.stdout[-2000:])
    for which in ('rpds', 'refmac'):
        d = os.path.join(tmp, which)
        os.makedirs(d)
        with open(os.path.join(d, 'facade.rs'), 'w') as f:
            f.write('pub extern crate rpds as inner;\n')
        r = rustc(['--edition', '2021', '--crate-type', 'rlib', '--crate-name', 'facade', 'facade.rs', '--extern', f'rpds={lib[which]}',
                   '-L', f'dependency={deps}', '-L', f'dependency={os.path.dirname(lib["refmac"])}'], d)
        if r.returncode:
            raise Trouble('the facade does not build: ' + r.stdout[-2000:])
    n = 120 if tier == 'quick' else 4000
    t_end = time.time() + (150 if tier == 'quick' else 3000)

    def build_and_run(which, i, e, src):
        d = os.path.join(tmp, which)
        f = os.path.join(d, f'p{i}.rs')
        with open(f, 'w') as x:
            x.write(src)
        ext = ['--extern', f'clienth={h}']
        if e['crate'] == 'rpds':
            ext += ['--extern', f'rpds={lib[which]}']
        elif e['crate'] == 'persist':
            ext += ['--extern', f'persist={lib[which]}']
        else:
            ext += ['--extern', f'facade={d}/libfacade.rlib']
        r = rustc(['--edition', e['edition'], f'p{i}.rs', '-o', f'p{i}', '-Cdebuginfo=0', '-L', f'dependency={deps}', '-L',
                   f'dependency={os.path.dirname(lib["refmac"])}', '-L', f'dependency={d}', '-L', f'dependency={tmp}'] + ext, d)
        if r.returncode:
            return None, r.stdout
        try:
            p = subprocess.run([os.path.join(d, f'p{i}')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60, errors='replace')
            out = p.stdout if p.returncode == 0 else p.stdout + f'\nexit status {p.returncode}\n'
        except subprocess.TimeoutExpired:
            out = 'no answer in 60 s\n'
        os.remove(os.path.join(d, f'p{i}'))
        return out, ''

    def case(i):
        if time.time() > t_end:
            return None
        e, src, expect, used = program(seed * 1000003 + i)
        got, log = build_and_run('rpds', i, e, src)
        if got == expect:
            return i, e, used, 'ok', None
        ref, reflog = build_and_run('refmac', i, e, src)
        if ref != expect:
            return i, e, used, 'unusable', (reflog or ref or '')[:1500]
        if got is None:
            return i, e, used, 'bad', (f'client program {i} does not compile, although the same program with the macros written '
                                       'with absolute paths does and prints what it should', src, log)
        k = next((a, b) for a, b in zip(got.splitlines() + ['(end)'], expect.splitlines() + ['(end)']) if a != b)
        return i, e, used, 'bad', (f'client program {i} printed {k[0]!r} instead of {k[1]!r}', src, got)

    ids = [only] if only is not None else range(n)
    with ThreadPoolExecutor(8) as ex:
        for x in ex.map(case, ids):
            if x is None:
                run.count('programs_not_run', 1)
                continue
            i, e, used, st, info = x
            run.count(f'programs_{st}', 1)
            if st == 'unusable':
                run.notes.append(f'program {i}: ' + info[:300])
                run.trouble.append(f'client program {i} says nothing (the control fails): {info}')
                continue
            run.count(f'edition_{e["edition"]}', 1)
            run.count(f'style_{e["style"]}', 1)
            run.count('crate_' + e['crate'].replace('::', '_'), 1)
            run.count('shadowed_names', len(e['shadows']))
            run.count('no_implicit_prelude', '#![no_implicit_prelude]' in e['attrs'])
            for m, k, kind in used:
                run.count('macro_' + m, 1)
                run.count(f'elements_{kind}', k)
                run.count('empty', k == 0)
                run.count('more_than_127_elements', k > 127)
                run.evals += 3
            run.distinct.add(h64((e['edition'], e['style'], e['crate'], used)))
            if len(run.samples) < 5:
                run.samples.append(f'[hosted] edition {e["edition"]}, {e["style"]}, crate named {e["crate"]}, {len(e["shadows"])} shadowed names, {used[:3]}')
            if st == 'bad':
                msg, src, log = info
                run.viol(i, msg, (src + '\n----\n' + log[:4000]).splitlines())


FREE_CFG = [('', []), ('serde', ['--features', 'serde'])]


def freestanding(run, tier, seed, tmp, only=None):
    d = os.path.join(CL, 'free')
    triple = 'x86_64-unknown-linux-gnu'
    std = ['-Zbuild-std=core,alloc,compiler_builtins', '-Zbuild-std-features=compiler-builtins-mem', '--target', triple]
    scale = '1' if tier == 'quick' else '40'

    def go(exe):
        try:
            p = subprocess.run([exe, str(seed), scale], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        except subprocess.TimeoutExpired:
            return 'no answer in 600 s', ''
        return p.returncode, p.stdout.decode('utf8', 'replace')

    for prof in (['--release'],) if tier == 'quick' else (['--release'], []):
        pd = 'release' if prof else 'debug'
        t = os.path.join(TGT, 'free')
        ev = {'CARGO_TARGET_DIR': t, 'RUSTFLAGS': '-Clink-arg=-lc'}
        # Control: the toolchain can build and run a freestanding program at all.
        r = cargo(d, ['+nightly', 'build', '--offline', '--bin', 'control', '--no-default-features'] + prof + std, ev)
        if r.returncode:
            raise Trouble('no freestanding program builds: ' + r.stderr[-2000:])
        c = go(f'{t}/{triple}/{pd}/control')
        if c != (0, 'control\n'):
            raise Trouble(f'the freestanding control program does not work: {c}')
        for name, f in FREE_CFG:
            f = ['--features', 'rpds' + (',' + name if name else '')]
            what = f'freestanding client ({name or "no feature"}, {pd})'
            # Hosted reference: the same workload with the standard library and the default features.
            th = os.path.join(TGT, 'freehost')
            rh = cargo(d, ['build', '--offline', '--bin', 'hosted', '--features', 'hosted' + (',' + name if name else '')] + prof, {'CARGO_TARGET_DIR': th})
            if rh.returncode:
                raise Trouble('the hosted reference does not build: ' + rh.stderr[-2000:])
            want = go(f'{th}/{pd}/hosted')
            if want[0] != 0:
                raise Trouble(f'the hosted reference does not work: {want[0]} {want[1][-500:]}')
            r = cargo(d, ['+nightly', 'build', '--offline', '--bin', 'free'] + f + prof + std, ev)
            run.evals += 1
            if r.returncode:
                run.viol(None, f'{what}: does not build without the standard library, although a freestanding program does and the hosted one works',
                         r.stderr[-6000:].splitlines())
                continue
            got = go(f'{t}/{triple}/{pd}/free')
            if got != want:
                a, b = got[1].splitlines(), want[1].splitlines()
                k = next((i for i in range(max(len(a), len(b))) if a[i:i + 1] != b[i:i + 1]), -1)
                run.viol(None, f'{what}: exit {got[0]}, line {k} is {a[k:k + 1]}, hosted {b[k:k + 1]}', a[max(0, k - 10):k + 3])
                continue
            n = got[1].count('\n')
            run.count('freestanding_transcript_lines', n)
            run.count('freestanding_programs', 1)
            run.evals += n
            for l in got[1].splitlines():
                run.distinct.add(h64((name, pd, l)))
            run.samples.append(f'[{what}] {n} lines, last: {got[1].splitlines()[-1]}')
