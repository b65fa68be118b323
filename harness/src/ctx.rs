//! Case driver, coverage counters and reporting of one shard of one check.

use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Args {
    pub seed: u64,
    pub thorough: bool,
    pub shard: u64,
    pub nshards: u64,
    pub only: Option<u64>,
    pub out: Option<String>,
    pub mode: String,
    /// Scales the number of cases, in percent.
    pub scale: u64,
}

pub fn args() -> Args {
    let mut a = Args {
        seed: 1,
        thorough: false,
        shard: 0,
        nshards: 1,
        only: None,
        out: None,
        mode: String::new(),
        scale: 100,
    };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().unwrap_or_default();
        match k.as_str() {
            "--seed" => a.seed = v().parse().unwrap_or(1),
            "--tier" => a.thorough = v() == "thorough",
            "--shard" => a.shard = v().parse().unwrap_or(0),
            "--nshards" => a.nshards = v().parse().unwrap_or(1),
            "--case" => a.only = v().parse().ok(),
            "--out" => a.out = Some(v()),
            "--mode" => a.mode = v(),
            "--scale" => a.scale = v().parse().unwrap_or(100),
            _ => {}
        }
    }
    a
}

pub struct Viol {
    pub case: u64,
    pub msg: String,
    pub trace: Vec<String>,
}

pub struct Ctx {
    pub args: Args,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub viol: Vec<Viol>,
    pub findings: Vec<String>,
    pub notes: Vec<String>,
    pub tracing: bool,
    pub trace: Vec<String>,
    fp: u64,
    nontrivial: bool,
    pub evals: u64,
}

pub type Res = Result<(), String>;

/// Fails a monitor with a message.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); }
    }};
}

impl Ctx {
    pub fn new(args: Args) -> Ctx {
        Ctx {
            args,
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            viol: vec![],
            findings: vec![],
            notes: vec![],
            tracing: false,
            trace: vec![],
            fp: 0,
            nontrivial: false,
            evals: 0,
        }
    }
    #[inline]
    pub fn count(&mut self, k: &str, n: u64) {
        if self.tracing {
            return;
        }
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let c = self.counters.entry(format!("max_{k}")).or_insert(0);
        *c = (*c).max(n);
    }
    /// One evaluation of the property's oracle.
    #[inline]
    pub fn eval(&mut self) {
        if !self.tracing {
            self.evals += 1;
        }
    }
    #[inline]
    pub fn t(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            self.trace.push(f());
        }
    }
    /// Mix something that characterises the case into its fingerprint.
    #[inline]
    pub fn fp(&mut self, x: u64) {
        self.fp = crate::rng::mix(self.fp ^ x);
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

/// Text kept in place, so that remembering a panic does not disturb the allocator balance.
struct Text {
    len: usize,
    bytes: [u8; 1024],
}
impl Text {
    const fn new() -> Text {
        Text { len: 0, bytes: [0; 1024] }
    }
    fn set(&mut self, s: &str) {
        self.len = s.len().min(1024);
        self.bytes[..self.len].copy_from_slice(&s.as_bytes()[..self.len]);
    }
    fn get(&self) -> String {
        String::from_utf8_lossy(&self.bytes[..self.len]).into_owned()
    }
}
static LAST_PANIC: Mutex<(Text, Text)> = Mutex::new((Text::new(), Text::new()));

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        // An injected panic must not disturb the allocator balance.
        if info.payload().is::<crate::tok::Injected>() {
            return;
        }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let p = info.payload();
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else if p.is::<crate::tok::Budget>() {
            "callback budget exhausted: the operation does not terminate".to_string()
        } else {
            "(injected)".to_string()
        };
        if let Ok(mut l) = LAST_PANIC.lock() {
            l.0.set(&msg);
            l.1.set(&loc);
        }
    }));
}

pub fn last_panic() -> (String, String) {
    LAST_PANIC.lock().map(|l| (l.0.get(), l.1.get())).unwrap_or_default()
}

/// Runs `f`, turning a panic into a description of it.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => {
            let (m, l) = last_panic();
            Err(format!("panic: {m} at {l}"))
        }
    }
}

fn harness_fault(loc: &str) -> bool {
    loc.starts_with("src/") && !loc.starts_with("src/../") || loc.contains("/verif/harness/")
}

fn mark(case: u64, out: &Option<String>) {
    use std::os::unix::fs::FileExt;
    static F: Mutex<Option<std::fs::File>> = Mutex::new(None);
    if let Some(o) = out.as_ref().filter(|p| *p != "/dev/null") {
        if let Ok(mut g) = F.lock() {
            if g.is_none() {
                *g = std::fs::File::create(format!("{o}.case")).ok();
            }
            if let Some(f) = g.as_ref() {
                let _ = f.write_at(format!("{case:020}").as_bytes(), 0);
            }
        }
    }
}

fn cpu_ticks_of(tid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = s.rsplit_once(')')?.1;
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

static CURRENT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(u64::MAX);

/// Ends the process with status 97 when one case uses more than `secs` seconds of CPU in the main thread.
fn watchdog(secs: u64) {
    use std::sync::atomic::Ordering::Relaxed;
    let pid = std::process::id();
    std::thread::spawn(move || {
        let mut cur = u64::MAX;
        let mut start = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let c = CURRENT.load(Relaxed);
            let t = cpu_ticks_of(pid).unwrap_or(0);
            if c != cur {
                cur = c;
                start = t;
            } else if c != u64::MAX && t.saturating_sub(start) > secs * 100 {
                eprintln!("HANG case {c}: more than {secs} s of CPU");
                std::process::exit(97);
            }
        }
    });
}

pub struct Plan {
    pub quick: u64,
    pub thorough: u64,
    /// CPU seconds a single case may use: two orders of magnitude above what it needs.
    pub hang_secs: u64,
}

/// Runs the cases of this shard and writes its report; the process status is 0 unless the harness itself failed.
pub fn run(plan: Plan, mut f: impl FnMut(&mut Ctx, u64, &mut Rng) -> Res) {
    let a = args();
    if std::env::var_os("RPDS_LOUD").is_none() {
        quiet_panics();
    }
    let mut ctx = Ctx::new(a.clone());
    let n = if a.thorough { plan.thorough } else { plan.quick } * a.scale / 100;
    if !cfg!(miri) {
        watchdog(plan.hang_secs);
    }

    let a = &a;
    let list: Box<dyn Iterator<Item = u64>> = match a.only {
        Some(c) => Box::new(std::iter::once(c)),
        None => Box::new((0..n).filter(|c| crate::rng::mix(*c) % a.nshards == a.shard)),
    };
    for case in list {
        mark(case, &a.out);
        CURRENT.store(case, std::sync::atomic::Ordering::Relaxed);
        ctx.fp = 0;
        ctx.nontrivial = false;
        let mut rng = Rng::of(&[a.seed, 0xc0de, case]);
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut ctx, case, &mut rng)));
        let msg = outcome(r);
        if ctx.nontrivial {
            let v = ctx.fp;
            ctx.distinct.insert(v);
        }
        ctx.count("cases", 1);
        if let Some(msg) = msg {
            // Run it again to see what led there.
            ctx.tracing = true;
            ctx.trace.clear();
            let mut rng = Rng::of(&[a.seed, 0xc0de, case]);
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut ctx, case, &mut rng)));
            let again = outcome(r);
            ctx.tracing = false;
            let mut trace = std::mem::take(&mut ctx.trace);
            if trace.len() > 400 {
                let cut = trace.len() - 400;
                trace.drain(..cut);
                trace.insert(0, format!("({cut} earlier steps)"));
            }
            trace.push(format!("replayed in the same process: {}", again.as_deref().unwrap_or("held")));
            ctx.viol.push(Viol { case, msg, trace });
            if ctx.viol.len() >= 3 {
                break;
            }
        }
    }
    CURRENT.store(u64::MAX, std::sync::atomic::Ordering::Relaxed);
    finish(ctx);
}

fn outcome(r: std::thread::Result<Res>) -> Option<String> {
    match r {
        Ok(Ok(())) => None,
        Ok(Err(m)) => Some(m),
        Err(_) => {
            let (m, l) = last_panic();
            if harness_fault(&l) && !m.contains("callback budget") {
                eprintln!("HARNESS FAULT: {m} at {l}");
                std::process::exit(98);
            }
            Some(format!("unexpected panic: {m} at {l}"))
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}

pub fn finish(ctx: Ctx) {
    let mut o = String::new();
    o.push_str("{\"counters\":{");
    o.push_str(
        &ctx.counters.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(","),
    );
    let _ = write!(o, "}},\"evals\":{},", ctx.evals);
    if let Some(p) = ctx.args.out.as_ref().filter(|p| *p != "/dev/null") {
        let fps: Vec<u8> = ctx.distinct.iter().flat_map(|x| x.to_le_bytes()).collect();
        std::fs::write(format!("{p}.fp"), fps).expect("cannot write the report");
    }
    let _ = write!(o, "\"samples\":{},", list(&ctx.samples));
    let _ = write!(o, "\"findings\":{},", list(&ctx.findings));
    let _ = write!(o, "\"notes\":{},", list(&ctx.notes));
    let v: Vec<String> = ctx
        .viol
        .iter()
        .map(|v| format!("{{\"case\":{},\"msg\":{},\"trace\":{}}}", v.case, esc(&v.msg), list(&v.trace)))
        .collect();
    let _ = write!(o, "\"violations\":[{}]}}", v.join(","));
    match &ctx.args.out {
        Some(p) => {
            let mut f = std::fs::File::create(p).expect("cannot write the report");
            f.write_all(o.as_bytes()).expect("cannot write the report");
        }
        None => println!("{o}"),
    }
}
