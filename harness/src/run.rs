//! Running the cases of a property: workers, watchdog, shrinking, replay and evidence.

use crate::choice::{hash_bytes, mix, Src};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Err: what was observed that must not be.
pub type Res = Result<(), String>;

pub struct Ctx {
    pub counters: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub samples: Vec<String>,
    pub index: u64,
    pub thorough: bool,
    pub seed: u64,
    /// Text describing the case, for the replay file.
    pub about: String,
    /// Said once about what could not be decided.
    pub undecided: Vec<String>,
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool) -> Ctx {
        Ctx {
            counters: BTreeMap::new(),
            hashes: HashSet::new(),
            samples: Vec::new(),
            index: 0,
            thorough,
            seed,
            about: String::new(),
            undecided: Vec::new(),
        }
    }
    pub fn count(&mut self, what: &str) {
        self.add(what, 1)
    }
    pub fn add(&mut self, what: &str, n: u64) {
        match self.counters.get_mut(what) {
            Some(c) => *c += n,
            None => {
                self.counters.insert(what.to_string(), n);
            }
        }
    }
    /// A non-trivial case, known by its content.
    pub fn nontrivial(&mut self, data: &[u8]) {
        self.hashes.insert(hash_bytes(data));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 && (self.index % 7 == 3 || self.index < 2) {
            let s = f();
            let s: String = s.chars().take(600).collect();
            self.samples.push(s);
        }
    }
    pub fn about(&mut self, s: impl Into<String>) {
        self.about = s.into();
    }
}

pub struct Family {
    pub name: &'static str,
    pub run: fn(&mut Ctx, &mut Src) -> Res,
    /// Number of cases, quick and thorough.
    pub cases: (u64, u64),
    /// Can the case be shrunk by shortening its choices?
    pub shrink: bool,
    /// Can cases run in several threads at once?
    pub together: bool,
}

impl Family {
    /// Measures or uses something the whole process shares.
    pub const fn alone(mut self) -> Family {
        self.together = false;
        self
    }
}

pub const fn fam(
    name: &'static str,
    run: fn(&mut Ctx, &mut Src) -> Res,
    quick: u64,
    thorough: u64,
) -> Family {
    Family { name, run, cases: (quick, thorough), shrink: true, together: true }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub families: Vec<Family>,
    pub assumptions: &'static [&'static str],
    /// Counters that must not be zero at the end.
    pub needs: &'static [&'static str],
    /// Extra step run by the parent (sanitizers and the like).
    pub extra: Option<fn(&mut Extra) -> Result<(), String>>,
}

/// What the extra step of the parent works with.
pub struct Extra {
    pub thorough: bool,
    pub seed: u64,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, String)>,
}

static PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

thread_local! {
    static OWN_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static TOGETHER: Cell<bool> = const { Cell::new(false) };
}

/// Is this thread one of several that run cases at once?
pub fn in_company() -> bool {
    TOGETHER.with(|t| t.get())
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("(no message)")
        };
        let _ = OWN_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = Some((loc.clone(), msg.clone()));
            }
        });
        if let Ok(mut p) = PANIC.lock() {
            *p = Some((loc, msg));
        }
    }));
}

pub fn last_panic() -> (String, String) {
    match OWN_PANIC.with(|p| p.borrow_mut().take()) {
        Some(p) => p,
        None => PANIC.lock().ok().and_then(|mut p| p.take()).unwrap_or_default(),
    }
}

/// Run something in a thread of its own; a panic of it is passed on as if it were one of this thread.
/// The caller waits, so that nothing is touched by two threads at once. None: no thread to be had.
pub fn in_thread<T>(stack: usize, f: impl FnOnce() -> T) -> Option<T> {
    struct Lent<X>(X);
    // SAFETY: used by one thread at a time only, as this one waits for the other
    unsafe impl<X> Send for Lent<X> {}
    let lent = Lent(f);
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(stack).spawn_scoped(s, move || {
            let lent = lent;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(lent.0));
            let p = if r.is_err() { Some(last_panic()) } else { None };
            Lent((r, p))
        });
        let Lent((r, p)) = match h {
            Ok(h) => h.join().unwrap_or_else(|p| std::panic::resume_unwind(p)),
            Err(_) => return None,
        };
        match r {
            Ok(v) => Some(v),
            Err(e) => {
                OWN_PANIC.with(|o| *o.borrow_mut() = p);
                std::panic::resume_unwind(e)
            }
        }
    })
}

/// Is this a place in the harness?
fn in_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/harness/")
}

pub enum Outcome {
    Fine,
    Violation(String),
    HarnessError(String),
}

pub fn run_case(f: &Family, ctx: &mut Ctx, src: &mut Src) -> Outcome {
    ctx.about.clear();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (f.run)(ctx, src)));
    match r {
        Ok(Ok(())) => Outcome::Fine,
        Ok(Err(e)) => Outcome::Violation(e),
        Err(p) => {
            if p.downcast_ref::<crate::real::UserPanic>().is_some() {
                return Outcome::HarnessError("a panic on purpose got out".into());
            }
            let (loc, msg) = last_panic();
            if in_harness(&loc) {
                Outcome::HarnessError(format!("{}: {}", loc, msg))
            } else {
                Outcome::Violation(format!("panic at {}: {}", loc, msg))
            }
        }
    }
}

pub fn case_seed(seed: u64, family: &str, index: u64) -> u64 {
    mix(seed ^ mix(hash_bytes(family.as_bytes()) ^ mix(index)))
}

#[derive(Clone)]
pub struct Found {
    pub family: String,
    pub index: u64,
    pub seed: u64,
    pub thorough: bool,
    pub choices: Option<Vec<u64>>,
    pub detail: String,
    pub about: String,
    /// Seen while other threads ran cases at the same time, and only then.
    pub together: bool,
    /// Seen in the build without debug assertions and overflow checks.
    pub plain: bool,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

impl Found {
    fn text(&self, prop: &str) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "property\t{}", prop);
        let _ = writeln!(s, "family\t{}", self.family);
        let _ = writeln!(s, "index\t{}", self.index);
        let _ = writeln!(s, "seed\t{}", self.seed);
        let _ = writeln!(s, "thorough\t{}", self.thorough);
        if let Some(ref c) = self.choices {
            let l: Vec<String> = c.iter().map(|v| v.to_string()).collect();
            let _ = writeln!(s, "choices\t{}", l.join(" "));
        }
        if self.together {
            let _ = writeln!(s, "together\ttrue");
        }
        if self.plain {
            let _ = writeln!(s, "plain\ttrue");
        }
        let _ = writeln!(s, "detail\t{}", esc(&self.detail));
        let _ = writeln!(s, "about\t{}", esc(&self.about));
        s
    }
    fn read(text: &str) -> Option<(String, Found)> {
        let mut m = BTreeMap::new();
        for l in text.lines() {
            if let Some((k, v)) = l.split_once('\t') {
                m.insert(k.to_string(), v.to_string());
            }
        }
        Some((
            m.get("property")?.clone(),
            Found {
                family: m.get("family")?.clone(),
                index: m.get("index")?.parse().ok()?,
                seed: m.get("seed")?.parse().ok()?,
                thorough: m.get("thorough")? == "true",
                choices: m
                    .get("choices")
                    .map(|c| c.split_whitespace().filter_map(|v| v.parse().ok()).collect()),
                detail: unesc(m.get("detail").map(|s| &s[..]).unwrap_or("")),
                about: unesc(m.get("about").map(|s| &s[..]).unwrap_or("")),
                together: m.get("together").is_some(),
                plain: m.get("plain").is_some(),
            },
        ))
    }
}

fn fails(f: &Family, found: &Found, choices: Vec<u64>) -> Option<(Vec<u64>, String, String)> {
    let mut ctx = Ctx::new(found.seed, found.thorough);
    ctx.index = found.index;
    let mut src = Src::replay(choices);
    match run_case(f, &mut ctx, &mut src) {
        Outcome::Violation(d) => Some((src.record, d, ctx.about)),
        _ => None,
    }
}

/// Make a failing case smaller.
fn shrink(f: &Family, mut found: Found, until: Instant) -> Found {
    let Some(mut best) = found.choices.clone() else { return found };
    let mut again = true;
    while again && Instant::now() < until {
        again = false;
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < best.len() && Instant::now() < until {
                let mut c = best.clone();
                let end = (at + size).min(c.len());
                c.drain(at..end);
                if let Some((r, d, a)) = fails(f, &found, c) {
                    if r.len() < best.len() {
                        best = r;
                        found.detail = d;
                        found.about = a;
                        again = true;
                        continue;
                    }
                }
                at += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            if Instant::now() >= until {
                break;
            }
            for v in [0, best.get(i).copied().unwrap_or(0) / 2] {
                if i < best.len() && best[i] > v {
                    let mut c = best.clone();
                    c[i] = v;
                    if let Some((r, d, a)) = fails(f, &found, c) {
                        if r.len() < best.len() || (r.len() == best.len() && r < best) {
                            best = r;
                            found.detail = d;
                            found.about = a;
                            again = true;
                        }
                    }
                }
            }
        }
    }
    found.choices = Some(best);
    found
}

/// Run on a thread with a big stack, so that nothing of the harness limits what is tried.
pub fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    match std::thread::Builder::new().stack_size(1 << 30).spawn(f).map(|h| h.join()) {
        Ok(Ok(v)) => v,
        Ok(Err(_)) => {
            let (l, m) = last_panic();
            eprintln!("harness error: {}: {}", l, m);
            std::process::exit(3)
        }
        Err(e) => {
            eprintln!("harness error: no thread: {}", e);
            std::process::exit(3)
        }
    }
}

/// For trying the checks on many changes: run part of the cases only.
fn scale() -> f64 {
    std::env::var("VERIF_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0)
}

fn scaled(cases: u64) -> u64 {
    ((cases as f64 * scale()).ceil() as u64).max(1)
}

fn limit_for(thorough: bool) -> Duration {
    Duration::from_secs(match (thorough, cfg!(debug_assertions)) {
        (true, true) => 660,
        (true, false) => 60,
        (false, true) => 150,
        (false, false) => 40,
    })
}

pub struct WorkerArgs {
    pub number: u64,
    pub of: u64,
    pub seed: u64,
    pub thorough: bool,
    pub dir: PathBuf,
    /// Position to start from: family and index.
    pub from: (usize, u64),
}

pub fn worker(prop: &Prop, a: WorkerArgs) -> i32 {
    if a.number == a.of {
        return company(prop, a);
    }
    crate::alloc::CAP.store(3 << 30, Ordering::Relaxed);
    let start = Instant::now();
    let mut ctx = Ctx::new(a.seed, a.thorough);
    let progress = match fs::File::create(a.dir.join(format!("progress{}", a.number))) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("harness error: progress file: {}", e);
            return 3;
        }
    };
    let mut code = 0;
    let mut evaluations = 0u64;
    let mut short = false;
    'all: for (fi, f) in prop.families.iter().enumerate() {
        if fi < a.from.0 {
            continue;
        }
        let total = scaled(if a.thorough { f.cases.1 } else { f.cases.0 });
        let mut i = a.number;
        while i < total {
            if fi == a.from.0 && i < a.from.1 {
                i += a.of;
                continue;
            }
            if start.elapsed() > limit_for(a.thorough) {
                short = true;
                break 'all;
            }
            let mut b = [0u8; 24];
            b[..8].copy_from_slice(&(fi as u64 + 1).to_le_bytes());
            b[8..16].copy_from_slice(&i.to_le_bytes());
            b[16..].copy_from_slice(&evaluations.to_le_bytes());
            let _ = progress.write_all_at(&b, 0);
            ctx.index = i;
            let mut src = Src::seeded(case_seed(a.seed, f.name, i));
            evaluations += 1;
            *ctx.counters.entry(format!("cases of {}", f.name)).or_insert(0) += 1;
            match run_case(f, &mut ctx, &mut src) {
                Outcome::Fine => {}
                Outcome::HarnessError(e) => {
                    eprintln!("harness error in {} case {}: {}", f.name, i, e);
                    code = 3;
                    break 'all;
                }
                Outcome::Violation(detail) => {
                    let found = Found {
                        family: f.name.into(),
                        index: i,
                        seed: a.seed,
                        thorough: a.thorough,
                        choices: if f.shrink { Some(src.record.clone()) } else { None },
                        detail,
                        about: ctx.about.clone(),
                        together: false,
                        plain: !cfg!(debug_assertions),
                    };
                    let file = a.dir.join(format!("found{}", a.number));
                    let _ = fs::write(&file, found.text(prop.id));
                    let small = if f.shrink {
                        shrink(f, found.clone(), Instant::now() + Duration::from_secs(4))
                    } else {
                        found
                    };
                    let _ = fs::write(&file, small.text(prop.id));
                    code = 1;
                    break 'all;
                }
            }
            i += a.of;
        }
    }
    if !report(&ctx, evaluations, short, &a) {
        return 3;
    }
    code
}

fn report(ctx: &Ctx, evaluations: u64, short: bool, a: &WorkerArgs) -> bool {
    let mut out = String::new();
    let _ = writeln!(out, "evaluations\t{}", evaluations);
    if short {
        let _ = writeln!(out, "short\t1");
    }
    for (k, v) in &ctx.counters {
        let _ = writeln!(out, "counter\t{}\t{}", esc(k), v);
    }
    for s in &ctx.samples {
        let _ = writeln!(out, "sample\t{}", esc(s));
    }
    for s in &ctx.undecided {
        let _ = writeln!(out, "undecided\t{}", esc(s));
    }
    for h in &ctx.hashes {
        let _ = writeln!(out, "hash\t{:x}", h);
    }
    fs::write(a.dir.join(format!("result{}", a.number)), out).is_ok()
}

/// One in so many cases is run again while other threads run cases, too.
const SHARE: u64 = 16;
const THREADS: u64 = 8;

/// The harness and the library built without debug assertions and overflow checks.
const PLAIN: &str = "/verif/target/plain/monitor";

struct Joined {
    done: u64,
    overlapped: u64,
    found: Option<Found>,
    error: Option<String>,
    short: bool,
}

/// Run some of the cases of a property again, in several threads of one process at once.
pub fn company(prop: &Prop, a: WorkerArgs) -> i32 {
    crate::alloc::CAP.store(12 << 30, Ordering::Relaxed);
    let start = Instant::now();
    let limit = Duration::from_secs(if a.thorough { 150 } else { 40 });
    let progress = match fs::File::create(a.dir.join(format!("progress{}", a.number))) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("harness error: progress file: {}", e);
            return 3;
        }
    };
    let stop = AtomicBool::new(false);
    let total_done = AtomicU64::new(0);
    let running = AtomicU64::new(0);
    let begin = std::sync::Barrier::new(THREADS as usize);
    let joined: Vec<Joined> = std::thread::scope(|scope| {
        let mut threads = Vec::new();
        for t in 0..THREADS {
            let (stop, total_done, running, begin, progress, a) = (&stop, &total_done, &running, &begin, &progress, &a);
            let body = move || {
                TOGETHER.with(|c| c.set(true));
                let mut ctx = Ctx::new(a.seed, a.thorough);
                let mut j = Joined { done: 0, overlapped: 0, found: None, error: None, short: false };
                begin.wait();
                'all: for f in prop.families.iter().filter(|f| f.together) {
                    let total = scaled(if a.thorough { f.cases.1 } else { f.cases.0 });
                    let mut k = t;
                    loop {
                        let i = k * SHARE + mix(k) % SHARE;
                        k += THREADS;
                        if i >= total {
                            break;
                        }
                        if stop.load(Ordering::Relaxed) {
                            break 'all;
                        }
                        if start.elapsed() > limit {
                            j.short = true;
                            break 'all;
                        }
                        let others = running.fetch_add(1, Ordering::Relaxed);
                        j.done += 1;
                        if others > 0 {
                            j.overlapped += 1;
                        }
                        ctx.index = i;
                        let mut src = Src::seeded(case_seed(a.seed, f.name, i));
                        let r = run_case(f, &mut ctx, &mut src);
                        running.fetch_sub(1, Ordering::Relaxed);
                        match r {
                            Outcome::Fine => {}
                            Outcome::HarnessError(e) => {
                                j.error = Some(format!("{} case {}: {}", f.name, i, e));
                                stop.store(true, Ordering::Relaxed);
                                break 'all;
                            }
                            Outcome::Violation(detail) => {
                                j.found = Some(Found {
                                    family: f.name.into(),
                                    index: i,
                                    seed: a.seed,
                                    thorough: a.thorough,
                                    choices: if f.shrink { Some(src.record.clone()) } else { None },
                                    detail,
                                    about: ctx.about.clone(),
                                    together: true,
            plain: false,
                                });
                                stop.store(true, Ordering::Relaxed);
                                break 'all;
                            }
                        }
                        let n = total_done.fetch_add(1, Ordering::Relaxed) + 1;
                        let mut b = [0u8; 24];
                        b[16..].copy_from_slice(&n.to_le_bytes());
                        let _ = progress.write_all_at(&b, 0);
                    }
                }
                j
            };
            match std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(scope, body) {
                Ok(h) => threads.push(h),
                Err(e) => {
                    eprintln!("harness error: no thread: {}", e);
                    std::process::exit(3)
                }
            }
        }
        threads
            .into_iter()
            .map(|h| match h.join() {
                Ok(j) => j,
                Err(_) => Joined { done: 0, overlapped: 0, found: None, error: Some("a thread panicked".into()), short: false },
            })
            .collect()
    });
    let mut ctx = Ctx::new(a.seed, a.thorough);
    let mut code = 0;
    ctx.add("cases run in several threads at once", joined.iter().map(|j| j.done).sum());
    ctx.add("cases begun while others ran", joined.iter().map(|j| j.overlapped).sum());
    if joined.iter().any(|j| j.short) {
        ctx.count("runs in several threads stopped by time");
    }
    for j in joined {
        if let Some(e) = j.error {
            eprintln!("harness error in company: {}", e);
            code = 3;
        }
        let Some(mut found) = j.found else { continue };
        // perhaps it needs no company
        if let Some(f) = prop.families.iter().find(|f| f.name == found.family) {
            let mut ctx = Ctx::new(found.seed, found.thorough);
            ctx.index = found.index;
            let mut src = Src::seeded(case_seed(found.seed, f.name, found.index));
            if let Outcome::Violation(_) = run_case(f, &mut ctx, &mut src) {
                found.together = false;
                if f.shrink {
                    found = shrink(f, found, Instant::now() + Duration::from_secs(4));
                }
            } else {
                found.detail = format!("while other threads use the library as well: {}", found.detail);
            }
        }
        let _ = fs::write(a.dir.join(format!("found{}", a.number)), found.text(prop.id));
        if code == 0 {
            code = 1;
        }
    }
    if !report(&ctx, 0, false, &a) {
        return 3;
    }
    code
}

/// What was seen in several threads at once is looked for in the same way.
fn joint(prop: &Prop, found: &Found, quiet: bool) -> i32 {
    let dir = PathBuf::from(format!("/verif/scratch/joint-{}", std::process::id()));
    let _ = fs::create_dir_all(&dir);
    let mut code = 0;
    let mut said = String::new();
    for _ in 0..5 {
        let a = WorkerArgs {
            number: 1,
            of: 1,
            seed: found.seed,
            thorough: found.thorough,
            dir: dir.clone(),
            from: (0, 0),
        };
        code = company(prop, a);
        if code != 0 {
            said = fs::read_to_string(dir.join("found1")).unwrap_or_default();
            break;
        }
    }
    let _ = fs::remove_dir_all(&dir);
    if !quiet {
        match code {
            0 => println!("{} was not violated in five runs with several threads", prop.id),
            _ => println!("{} is violated:\n{}", prop.id, said),
        }
    }
    code
}

/// Run a single case again, by itself.
pub fn one(prop: &Prop, found: &Found, quiet: bool) -> i32 {
    if found.together {
        return joint(prop, found, quiet);
    }
    crate::alloc::CAP.store(3 << 30, Ordering::Relaxed);
    let Some(f) = prop.families.iter().find(|f| f.name == found.family) else {
        eprintln!("no such family: {}", found.family);
        return 3;
    };
    let mut ctx = Ctx::new(found.seed, found.thorough);
    ctx.index = found.index;
    let mut src = match found.choices {
        Some(ref c) => Src::replay(c.clone()),
        None => Src::seeded(case_seed(found.seed, &found.family, found.index)),
    };
    match run_case(f, &mut ctx, &mut src) {
        Outcome::Fine => {
            if !quiet {
                println!("{} holds on this case\n{}", prop.id, ctx.about);
            }
            0
        }
        Outcome::Violation(d) => {
            if !quiet {
                println!("{} is violated: {}\n{}", prop.id, d, ctx.about);
            }
            1
        }
        Outcome::HarnessError(e) => {
            eprintln!("harness error: {}", e);
            3
        }
    }
}

pub fn replay(props: &dyn Fn(&str) -> Option<Prop>, path: &Path) -> i32 {
    let Ok(text) = fs::read_to_string(path) else {
        eprintln!("cannot read {}", path.display());
        return 3;
    };
    let Some((id, found)) = Found::read(&text) else {
        println!("{}", text);
        return 3;
    };
    if found.plain && cfg!(debug_assertions) {
        return match Command::new(PLAIN).arg("replay").arg(path).status() {
            Ok(s) => s.code().unwrap_or(1),
            Err(e) => {
                eprintln!("{}: {}", PLAIN, e);
                3
            }
        };
    }
    match props(&id) {
        Some(p) => one(&p, &found, false),
        None => 3,
    }
}

fn cpu_secs(pid: u32) -> f64 {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let v: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| v.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

/// Are all threads of the process waiting for something?
fn all_asleep(pid: u32) -> bool {
    let Ok(tasks) = fs::read_dir(format!("/proc/{}/task", pid)) else { return false };
    let mut n = 0;
    for t in tasks.flatten() {
        let s = fs::read_to_string(t.path().join("stat")).unwrap_or_default();
        let rest = s.rsplit(')').next().unwrap_or("");
        if rest.split_whitespace().next() != Some("S") {
            return false;
        }
        n += 1;
    }
    n > 0
}

/// Seconds of sleep without any work, seen at every look, that count as waiting for ever.
const BLOCKED: u64 = 40;

/// Finds processes that wait for something that never comes.
struct Blocked {
    cpu: f64,
    since: Instant,
    looks: u64,
}

impl Blocked {
    fn new() -> Blocked {
        Blocked { cpu: -1.0, since: Instant::now(), looks: 0 }
    }
    fn look(&mut self, pid: u32) -> bool {
        let cpu = cpu_secs(pid);
        if cpu - self.cpu > 0.015 || self.cpu < 0.0 || !all_asleep(pid) {
            self.cpu = cpu;
            self.since = Instant::now();
            self.looks = 0;
        }
        self.looks += 1;
        self.looks > 5 * BLOCKED && self.since.elapsed() > Duration::from_secs(BLOCKED)
    }
}

enum End {
    Exit(std::process::ExitStatus),
    Time,
    Blocked,
}

/// Run a command until it ends, has used this much CPU time, or waits for ever.
fn run_watched(cmd: &mut Command, cpu: f64) -> Result<End, String> {
    let mut child = cmd.spawn().map_err(|e| e.to_string())?;
    let start = Instant::now();
    let mut blocked = Blocked::new();
    loop {
        if let Some(s) = child.try_wait().map_err(|e| e.to_string())? {
            return Ok(End::Exit(s));
        }
        let end = if cpu_secs(child.id()) > cpu {
            Some(End::Time)
        } else if blocked.look(child.id()) {
            Some(End::Blocked)
        } else {
            None
        };
        let late = start.elapsed().as_secs_f64() > cpu * 10.0 + 60.0;
        if end.is_some() || late {
            let _ = child.kill();
            let _ = child.wait();
            return end.ok_or_else(|| "no CPU time to be had".into());
        }
        std::thread::sleep(Duration::from_millis(50));
    }
}

/// The cases in several threads at once: what is wrong, if anything.
fn watch_company(prop: &Prop, n: u64, seed: u64, thorough: bool, dir: &Path) -> Result<Option<Found>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut k = spawn(&exe, prop.id, n, n, seed, thorough, dir).map_err(|e| format!("no worker: {}", e))?;
    let mut blocked = Blocked::new();
    let case = |detail: String| {
        Ok(Some(Found {
            family: "several threads at once".into(),
            index: 0,
            seed,
            thorough,
            choices: None,
            detail,
            about: "a run of cases in several threads".into(),
            together: true,
            plain: false,
        }))
    };
    loop {
        std::thread::sleep(Duration::from_millis(30));
        if let Some(status) = k.child.try_wait().map_err(|e| e.to_string())? {
            return match status.code() {
                Some(0) => Ok(None),
                Some(1) => fs::read_to_string(dir.join(format!("found{}", n)))
                    .ok()
                    .and_then(|t| Found::read(&t))
                    .map(|(_, f)| Some(f))
                    .ok_or_else(|| "no report by the threads".into()),
                // many cases at once may need more than there is
                Some(c) if c == crate::alloc::OOM_STATUS => Ok(None),
                Some(c) => {
                    let e = fs::read_to_string(dir.join(format!("stderr{}", n))).unwrap_or_default();
                    Err(format!("the threads ended with {}: {}", c, e))
                }
                None if status.signal() == Some(9) => Ok(None),
                None => case(format!(
                    "with several threads at once the process crashed with signal {}",
                    status.signal().unwrap_or(0)
                )),
            };
        }
        let p = read_progress(dir, n).unwrap_or((0, 0, 0));
        let cpu = cpu_secs(k.child.id());
        if p != k.last {
            k.last = p;
            k.cpu_at = cpu;
            k.wall_at = Instant::now();
        }
        let end = if cpu - k.cpu_at > 25.0 * THREADS as f64 {
            case("with several threads at once cases do not end".into())
        } else if blocked.look(k.child.id()) {
            case("with several threads at once all of them wait for ever".into())
        } else if k.wall_at.elapsed() > Duration::from_secs(400) {
            Err("no CPU time for the threads".into())
        } else {
            continue;
        };
        let _ = k.child.kill();
        let _ = k.child.wait();
        return end;
    }
}

struct Child {
    number: u64,
    blocked: Blocked,
    child: std::process::Child,
    last: (u64, u64, u64),
    cpu_at: f64,
    wall_at: Instant,
}

fn spawn(exe: &Path, prop: &str, n: u64, of: u64, seed: u64, thorough: bool, dir: &Path) -> std::io::Result<Child> {
    let err = fs::File::create(dir.join(format!("stderr{}", n)))?;
    let child = Command::new(exe)
        .args(["worker", prop, &n.to_string(), &of.to_string(), &seed.to_string()])
        .arg(if thorough { "thorough" } else { "quick" })
        .arg(dir)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(err)
        .spawn()?;
    Ok(Child { number: n, blocked: Blocked::new(), child, last: (0, 0, 0), cpu_at: 0.0, wall_at: Instant::now() })
}

fn read_progress(dir: &Path, n: u64) -> Option<(u64, u64, u64)> {
    let mut f = fs::File::open(dir.join(format!("progress{}", n))).ok()?;
    let mut b = [0u8; 24];
    f.read_exact(&mut b).ok()?;
    let u = |i: usize| {
        let mut x = [0u8; 8];
        x.copy_from_slice(&b[i..i + 8]);
        u64::from_le_bytes(x)
    };
    Some((u(0), u(8), u(16)))
}

/// Run a command until it ends or has used this much CPU time (ten times as much wall time).
pub fn run_limited(cmd: &mut Command, cpu: f64) -> Result<(std::process::ExitStatus, bool), String> {
    let mut child = cmd.spawn().map_err(|e| e.to_string())?;
    let start = Instant::now();
    loop {
        match child.try_wait().map_err(|e| e.to_string())? {
            Some(s) => return Ok((s, false)),
            None => {
                if cpu_secs(child.id()) > cpu {
                    let _ = child.kill();
                    let s = child.wait().map_err(|e| e.to_string())?;
                    return Ok((s, true));
                }
                if start.elapsed().as_secs_f64() > cpu * 10.0 + 60.0 {
                    let _ = child.kill();
                    let _ = child.wait();
                    return Err("no CPU time to be had".into());
                }
                std::thread::sleep(Duration::from_millis(50));
            }
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn known(id: &str) -> Vec<String> {
    let mut v = Vec::new();
    if let Ok(s) = fs::read_to_string("/verif/known-findings.txt") {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                if let Some((p, sig)) = r.split_once(' ') {
                    if p == id {
                        v.push(sig.trim().to_string());
                    }
                }
            }
        }
    }
    v
}

pub fn check(prop: &Prop, seed: u64, thorough: bool) -> i32 {
    let start = Instant::now();
    let workers: u64 = std::env::var("VERIF_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or(8);
    let base = PathBuf::from("/verif/scratch");
    let dir = base.join(format!("{}-{}", prop.id, std::process::id()));
    if let Err(e) = fs::create_dir_all(&dir) {
        eprintln!("harness error: {}: {}", dir.display(), e);
        return 3;
    }
    let code = check_in(prop, seed, thorough, workers, &dir, start);
    let _ = fs::remove_dir_all(&dir);
    code
}

/// Run workers over the cases (every so many of them) and see to it that they end.
#[allow(clippy::too_many_arguments)]
fn crew(
    prop: &Prop,
    exe: &Path,
    workers: u64,
    of: u64,
    seed: u64,
    thorough: bool,
    dir: &Path,
    found: &mut Vec<Found>,
    trouble: &mut Vec<String>,
) {
    let mut kids = Vec::new();
    for n in 0..workers {
        match spawn(exe, prop.id, n, of, seed, thorough, dir) {
            Ok(c) => kids.push(c),
            Err(e) => trouble.push(format!("no worker: {}", e)),
        }
    }
    let mut stuck: Vec<(u64, &'static str)> = Vec::new();
    while !kids.is_empty() {
        std::thread::sleep(Duration::from_millis(30));
        let mut i = 0;
        while i < kids.len() {
            let k = &mut kids[i];
            match k.child.try_wait() {
                Ok(Some(status)) => {
                    let n = k.number;
                    kids.remove(i);
                    match status.code() {
                        Some(0) => {}
                        Some(1) => {}
                        Some(c) if c == crate::alloc::OOM_STATUS => stuck.push((n, "memory")),
                        Some(c) => {
                            let e = fs::read_to_string(dir.join(format!("stderr{}", n))).unwrap_or_default();
                            trouble.push(format!("worker {} ended with {}: {}", n, c, e));
                        }
                        None => {
                            let _ = status.signal();
                            stuck.push((n, "crash"));
                        }
                    }
                    continue;
                }
                Ok(None) => {
                    let p = read_progress(dir, k.number).unwrap_or((0, 0, 0));
                    let cpu = cpu_secs(k.child.id());
                    if k.blocked.look(k.child.id()) {
                        let _ = k.child.kill();
                        let _ = k.child.wait();
                        let n = k.number;
                        kids.remove(i);
                        stuck.push((n, "blocked"));
                        continue;
                    }
                    if p != k.last {
                        k.last = p;
                        k.cpu_at = cpu;
                        k.wall_at = Instant::now();
                    } else if cpu - k.cpu_at > 25.0 {
                        let _ = k.child.kill();
                        let _ = k.child.wait();
                        let n = k.number;
                        kids.remove(i);
                        stuck.push((n, "time"));
                        continue;
                    } else if k.wall_at.elapsed() > Duration::from_secs(400) {
                        let _ = k.child.kill();
                        let _ = k.child.wait();
                        trouble.push(format!("worker {} made no progress", k.number));
                        kids.remove(i);
                        continue;
                    }
                }
                Err(e) => {
                    trouble.push(e.to_string());
                    kids.remove(i);
                    continue;
                }
            }
            i += 1;
        }
    }
    let mut have = HashSet::new();
    for n in 0..workers {
        if let Ok(t) = fs::read_to_string(dir.join(format!("found{}", n))) {
            if let Some((_, f)) = Found::read(&t) {
                found.push(f);
                have.insert(n);
            }
        }
    }
    stuck.sort();
    for (n, why) in stuck.iter().copied().take(3) {
        if have.contains(&n) || !found.is_empty() {
            continue;
        }
        let Some((fi, index, _)) = read_progress(dir, n) else {
            trouble.push(format!("worker {} failed ({}) before its first case", n, why));
            continue;
        };
        if fi == 0 || fi as usize > prop.families.len() {
            trouble.push(format!("worker {} failed ({}) outside of a case", n, why));
            continue;
        }
        let f = &prop.families[fi as usize - 1];
        let mut case = Found {
            family: f.name.into(),
            index,
            seed,
            thorough,
            choices: None,
            detail: String::new(),
            about: String::new(),
            together: false,
            plain: !cfg!(debug_assertions),
        };
        let path = dir.join(format!("again{}", n));
        let _ = fs::write(&path, case.text(prop.id));
        let mut cmd = Command::new(exe);
        cmd.arg("again").arg(&path).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        match run_watched(&mut cmd, 60.0) {
            Ok(End::Time) => {
                case.detail = "the case does not end: stopped after 60 s of CPU time by itself".into();
                found.push(case);
            }
            Ok(End::Blocked) => {
                case.detail = format!("the case does not end: it waits for ever (nothing done for {} s by itself)", BLOCKED);
                found.push(case);
            }
            Ok(End::Exit(s)) => match s.code() {
                Some(0) => trouble.push(format!(
                    "worker {} failed ({}) at {} case {}, which is fine by itself",
                    n, why, f.name, index
                )),
                Some(1) => {
                    case.detail = "violated when run again by itself".into();
                    found.push(case);
                }
                Some(c) if c == crate::alloc::OOM_STATUS => {
                    case.detail = "the case allocates without bound: stopped at 3 GiB".into();
                    found.push(case);
                }
                Some(c) => trouble.push(format!("case run again ended with {}", c)),
                None => {
                    case.detail = format!(
                        "the process crashed with signal {} (stack overrun or invalid memory access)",
                        s.signal().unwrap_or(0)
                    );
                    found.push(case);
                }
            },
            Err(e) => trouble.push(e),
        }
    }
}

fn check_in(prop: &Prop, seed: u64, thorough: bool, workers: u64, dir: &Path, start: Instant) -> i32 {
    let mut found: Vec<Found> = Vec::new();
    let mut trouble: Vec<String> = Vec::new();
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(e) => {
            eprintln!("harness error: {}", e);
            return 3;
        }
    };
    crew(prop, &exe, workers, workers, seed, thorough, dir, &mut found, &mut trouble);
    let company = prop.families.iter().any(|f| f.together);
    if company && found.is_empty() && trouble.is_empty() {
        match watch_company(prop, workers, seed, thorough, dir) {
            Ok(f) => found.extend(f),
            Err(e) => trouble.push(e),
        }
    }
    // the build without debug assertions and overflow checks
    let beside = PathBuf::from(PLAIN);
    let aside = dir.join("plain");
    if scale() >= 1.0 && found.is_empty() && trouble.is_empty() {
        let mut none = Vec::new();
        match fs::create_dir_all(&aside) {
            Ok(()) => crew(prop, &beside, workers, workers * SHARE, seed, thorough, &aside, &mut found, &mut none),
            Err(e) => trouble.push(e.to_string()),
        }
        for f in &mut found {
            f.plain = true;
            f.detail.push_str(" (in a build without debug assertions)");
        }
        trouble.extend(none.into_iter().map(|t| format!("without debug assertions: {}", t)));
    }
    // gather
    let mut evaluations = 0u64;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut undecided: Vec<String> = Vec::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut short = 0;
    for n in 0..workers + 1 {
        let text = fs::read_to_string(dir.join(format!("result{}", n))).unwrap_or_default();
        for l in text.lines() {
            let mut p = l.splitn(3, '\t');
            match (p.next(), p.next(), p.next()) {
                (Some("evaluations"), Some(v), _) => evaluations += v.parse::<u64>().unwrap_or(0),
                (Some("short"), _, _) => short += 1,
                (Some("counter"), Some(k), Some(v)) => {
                    *counters.entry(unesc(k)).or_insert(0) += v.parse::<u64>().unwrap_or(0)
                }
                (Some("sample"), Some(s), _) => {
                    if samples.len() < 6 {
                        samples.push(unesc(s))
                    }
                }
                (Some("undecided"), Some(s), _) => undecided.push(unesc(s)),
                (Some("hash"), Some(h), _) => {
                    if let Ok(h) = u64::from_str_radix(h, 16) {
                        hashes.insert(h);
                    }
                }
                _ => {}
            }
        }
    }
    for n in 0..workers {
        let text = fs::read_to_string(aside.join(format!("result{}", n))).unwrap_or_default();
        let v = text.lines().find_map(|l| l.strip_prefix("evaluations\t")).and_then(|v| v.parse::<u64>().ok());
        *counters.entry("cases run without debug assertions".into()).or_insert(0) += v.unwrap_or(0);
        evaluations += v.unwrap_or(0);
    }
    let mut violations: Vec<(String, String)> = Vec::new(); // detail, replay
    let replays = PathBuf::from("/verif/replays");
    let _ = fs::create_dir_all(&replays);
    let known = known(prop.id);
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    for f in &found {
        if let Some(k) = known.iter().find(|k| f.detail.contains(&k[..])) {
            *known_hit.entry(k.clone()).or_insert(0) += 1;
            continue;
        }
        let text = f.text(prop.id);
        let path = replays.join(format!("{}-{:016x}.txt", prop.id, hash_bytes(text.as_bytes())));
        let _ = fs::write(&path, &text);
        violations.push((
            format!("[{} case {}] {}\n    {}", f.family, f.index, f.detail, f.about),
            path.display().to_string(),
        ));
    }
    if let (Some(extra), true, true) = (prop.extra, violations.is_empty(), scale() >= 1.0) {
        let mut x = Extra {
            thorough,
            seed,
            counters: BTreeMap::new(),
            samples: Vec::new(),
            violations: Vec::new(),
        };
        if let Err(e) = extra(&mut x) {
            trouble.push(e);
        }
        for (k, v) in x.counters {
            *counters.entry(k).or_insert(0) += v;
        }
        samples.extend(x.samples);
        for (d, t) in x.violations {
            if let Some(k) = known.iter().find(|k| d.contains(&k[..])) {
                *known_hit.entry(k.clone()).or_insert(0) += 1;
                continue;
            }
            let path = replays.join(format!("{}-{:016x}.txt", prop.id, hash_bytes(t.as_bytes())));
            let _ = fs::write(&path, &t);
            violations.push((d, path.display().to_string()));
        }
    }
    if violations.is_empty() && trouble.is_empty() {
        if hashes.is_empty() || evaluations == 0 {
            trouble.push("nothing was observed".into());
        }
        for n in prop.needs.iter().chain(&["cases run without debug assertions"]).filter(|_| scale() >= 1.0) {
            if counters.get(*n).copied().unwrap_or(0) == 0 {
                trouble.push(format!("never observed: {}", n));
            }
        }
    }
    // evidence
    let mut s = String::from("{\n");
    let _ = writeln!(s, "  \"property\": {},", json_str(prop.id));
    let _ = writeln!(s, "  \"tier\": \"{}\",", if thorough { "thorough" } else { "quick" });
    let _ = writeln!(s, "  \"seed\": {},", seed);
    let _ = writeln!(s, "  \"level\": \"exploration\",");
    let _ = writeln!(s, "  \"coverage\": {{");
    let _ = writeln!(s, "    \"evaluations\": {},", evaluations);
    let _ = writeln!(s, "    \"distinct_nontrivial\": {},", hashes.len());
    let _ = writeln!(s, "    \"rule\": {},", json_str(prop.rule));
    let _ = writeln!(s, "    \"observed\": {{");
    let n = counters.len();
    for (i, (k, v)) in counters.iter().enumerate() {
        let _ = writeln!(s, "      {}: {}{}", json_str(k), v, if i + 1 < n { "," } else { "" });
    }
    let _ = writeln!(s, "    }},");
    let _ = writeln!(s, "    \"workers_stopped_by_time\": {},", short);
    let l: Vec<String> = undecided.iter().map(|x| json_str(x)).collect();
    let _ = writeln!(s, "    \"undecided\": [{}],", l.join(", "));
    let l: Vec<String> = samples.iter().map(|x| format!("      {}", json_str(x))).collect();
    let _ = writeln!(s, "    \"samples\": [\n{}\n    ]", l.join(",\n"));
    let _ = writeln!(s, "  }},");
    let l: Vec<String> = prop.assumptions.iter().map(|x| json_str(x)).collect();
    let _ = writeln!(s, "  \"assumptions\": [{}],", l.join(", "));
    let _ = writeln!(s, "  \"wall_s\": {:.1},", start.elapsed().as_secs_f64());
    let _ = writeln!(s, "  \"violations\": {}", violations.len());
    s.push_str("}\n");
    let _ = fs::create_dir_all("/verif/evidence");
    if let Err(e) = fs::write(format!("/verif/evidence/{}.json", prop.id), s) {
        trouble.push(format!("evidence: {}", e));
    }
    for (k, n) in &known_hit {
        println!("KNOWN-FINDING: property={} {} ({} times)", prop.id, k, n);
    }
    let mut out = std::io::stdout();
    if !violations.is_empty() {
        for (d, r) in violations.iter().take(3) {
            println!("VIOLATION property={} replay={}", prop.id, r);
            println!("  {}", d.chars().take(1500).collect::<String>());
        }
        let _ = out.flush();
        return 1;
    }
    if !trouble.is_empty() {
        for t in &trouble {
            eprintln!("error: {}", t);
        }
        return 3;
    }
    println!(
        "{} held on {} cases ({} distinct and non-trivial) in {:.1} s",
        prop.id,
        evaluations,
        hashes.len(),
        start.elapsed().as_secs_f64()
    );
    0
}

/// Entry for a single case given by a file, without output.
pub fn again(props: &dyn Fn(&str) -> Option<Prop>, path: &Path) -> i32 {
    match fs::read_to_string(path).ok().and_then(|t| Found::read(&t)) {
        Some((id, f)) => props(&id).map(|p| one(&p, &f, true)).unwrap_or(3),
        None => 3,
    }
}
