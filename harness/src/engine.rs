//! Exhaustive runner: walks every case of every family of a property on the real code, in a fixed
//! simplest-first order, in parallel, with a watchdog, and writes evidence and replay files.
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static HASH_SEED: Cell<u64> = const { Cell::new(0) };
    static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) };
}

/// Every hash map of the process takes its keys from here, so hash order is a function of the seed
/// a thread sets before its first map: no nondeterminism is left to chance.
///
/// # Safety
/// Called by the standard library with a valid buffer.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let seed = HASH_SEED.try_with(|s| s.get()).unwrap_or(0);
    let mut x = seed.wrapping_add(1).wrapping_mul(0x9E3779B97F4A7C15) | 1;
    for i in 0..len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *buf.add(i) = (x >> 24) as u8;
    }
    len as isize
}

pub fn set_hash_seed(s: u64) {
    HASH_SEED.with(|c| c.set(s));
}

/// Run `f` on a fresh thread whose hash maps are keyed by `seed`.
pub fn with_hash_seed<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        s.spawn(move || {
            set_hash_seed(seed);
            f()
        })
        .join()
        .unwrap()
    })
}

/// Call the code under test; a panic becomes `Err(message)`.
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.take()).unwrap_or_else(|| "panic".into()))
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
}

impl Ctx {
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.tier == Tier::Quick {
            quick
        } else {
            thorough
        }
    }
}

static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
fn now_ms() -> u64 {
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64
}

/// Per-thread record of what was covered.
#[derive(Default)]
pub struct Rec {
    pub transitions: u64,
    /// When the current step began (watched by the watchdog).
    beat: std::sync::Arc<AtomicU64>,
    pub states: Vec<u64>,
    pub labels: BTreeMap<String, u64>,
}

impl Rec {
    pub fn step(&mut self) {
        self.steps(1);
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
        if self.transitions & 15 < n {
            self.beat.store(now_ms(), SeqCst);
        }
    }
    pub fn state<T: std::hash::Hash>(&mut self, t: &T) {
        self.states.push(fnv(t));
        if self.states.len() > 4_000_000 {
            self.states.sort_unstable();
            self.states.dedup();
        }
    }
    pub fn label(&mut self, l: &str) {
        if let Some(x) = self.labels.get_mut(l) {
            *x += 1;
        } else {
            self.labels.insert(l.to_string(), 1);
        }
    }
}

struct Fnv(u64);
impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 33;
        x = x.wrapping_mul(0xff51afd7ed558ccd);
        x ^ (x >> 33)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_i64(&mut self, x: i64) {
        self.0 = (self.0 ^ x as u64).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29);
    }
    fn write_u64(&mut self, x: u64) {
        self.write_i64(x as i64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_i64(x as i64)
    }
}
pub fn fnv<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

pub type Run<'a> = Box<dyn Fn(&[usize], &mut Rec) -> Result<(), String> + Sync + Send + 'a>;
pub type Desc<'a> = Box<dyn Fn(&[usize]) -> String + Sync + Send + 'a>;

/// A family of cases: the full product of its dimensions.
pub struct Fam<'a> {
    pub name: &'static str,
    pub dims: Vec<usize>,
    pub run: Run<'a>,
    pub desc: Desc<'a>,
}

impl Fam<'_> {
    fn len(&self) -> usize {
        self.dims.iter().product()
    }
    fn decode(&self, mut i: usize) -> Vec<usize> {
        let mut out = vec![0; self.dims.len()];
        for (k, d) in self.dims.iter().enumerate().rev() {
            out[k] = i % d;
            i /= d;
        }
        out
    }
}

pub type Post<'a> = Box<dyn Fn(&BTreeMap<String, u64>) -> Result<(), String> + Sync + Send + 'a>;

pub struct Space<'a> {
    pub fams: Vec<Fam<'a>>,
    pub bounds: String,
    pub assumptions: Vec<String>,
    /// Condition on the whole run (labels seen), checked after all cases held.
    pub post: Option<Post<'a>>,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Found {
    index: usize,
    key: String,
    msg: String,
}

fn locate(space: &Space, mut g: usize) -> (usize, usize) {
    for (k, f) in space.fams.iter().enumerate() {
        if g < f.len() {
            return (k, g);
        }
        g -= f.len();
    }
    panic!("index out of range")
}

fn key_of(space: &Space, g: usize) -> String {
    let (k, i) = locate(space, g);
    let f = &space.fams[k];
    format!("{}{:?}", f.name, f.decode(i))
}

fn desc_of(space: &Space, g: usize) -> String {
    let (k, i) = locate(space, g);
    let f = &space.fams[k];
    format!("{} {}", f.name, call(|| (f.desc)(&f.decode(i))).unwrap_or_default())
}

fn run_one(space: &Space, g: usize, rec: &mut Rec) -> Result<(), String> {
    let (k, i) = locate(space, g);
    let f = &space.fams[k];
    let ix = f.decode(i);
    match call(|| (f.run)(&ix, rec)) {
        Ok(r) => r,
        Err(m) => Err(format!("stopped with an error: {}", m)),
    }
}

fn write_replay(ctx: &Ctx, space: &Space, g: usize, msg: &str, n: usize) -> String {
    let dir = "evidence/replay";
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{}/{}-{}.json", dir, ctx.prop, n);
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"index\": {},\n \"key\": {},\n \"case\": {},\n \"failure\": {},\n \"rerun\": \"./check.sh replay {}\"\n}}\n",
        jstr(&ctx.prop),
        if ctx.tier == Tier::Quick { "quick" } else { "thorough" },
        ctx.seed,
        g,
        jstr(&key_of(space, g)),
        jstr(&desc_of(space, g)),
        jstr(msg),
        path
    );
    let _ = std::fs::write(&path, body);
    path
}

/// Replay one case by global index; returns the exit code.
pub fn replay(ctx: &Ctx, space: &Space, g: usize) -> i32 {
    install_hook();
    set_hash_seed(ctx.seed);
    println!("case {} {}", key_of(space, g), desc_of(space, g));
    let mut rec = Rec::default();
    match run_one(space, g, &mut rec) {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(m) => {
            println!("fails: {}", m);
            1
        }
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let l = info.location().map(|l| format!(" [{}:{}]", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| p.set(Some(m + &l)));
    }));
}

/// Known findings: (property, case key) pairs, read from the committed file; never written.
fn known(prop: &str) -> Vec<String> {
    std::fs::read_to_string("known_findings.txt")
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, rest) = l.split_once(' ')?;
            let k = rest.strip_prefix("case=")?;
            (p == prop).then(|| k.split(" :: ").next().unwrap().trim().to_string())
        })
        .collect()
}

fn journal_path(ctx: &Ctx) -> String {
    format!("evidence/.running-{}", ctx.prop)
}

/// The exploring process died (abort, stack overflow, out of memory): rerun each case that was in
/// progress on its own and report those that kill the process again.
pub fn after_crash(ctx: &Ctx, space: &Space, dies: impl Fn(usize) -> bool) -> i32 {
    let j = std::fs::read(journal_path(ctx)).unwrap_or_default();
    let mut gs: Vec<usize> = j.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap()) as usize).filter(|x| *x > 0).map(|x| x - 1).collect();
    gs.sort_unstable();
    for g in gs {
        if dies(g) {
            let msg = "the process died instead of returning";
            let path = write_replay(ctx, space, g, msg, 0);
            println!("case {} {}: {}", key_of(space, g), desc_of(space, g), msg);
            println!("VIOLATION property={} replay={}", ctx.prop, path);
            let total = space.fams.iter().map(|f| f.len()).sum();
            write_evidence(ctx, space, total, 0, 0, 0, &BTreeMap::new(), 1, 0.0, false);
            return 1;
        }
    }
    eprintln!("exploration died without a reproducible case");
    2
}

pub fn explore(ctx: &Ctx, space: &Space) -> i32 {
    install_hook();
    std::hint::black_box(getrandom as *const () as usize);
    now_ms();
    let t0 = Instant::now();
    let total: usize = space.fams.iter().map(|f| f.len()).sum();
    let limit = Duration::from_secs(std::env::var("VERIF_CASE_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(30));
    let nt = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let known_hits: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let recs: Mutex<Vec<Rec>> = Mutex::new(vec![]);
    let ran = AtomicUsize::new(0);
    let cur: Vec<(AtomicUsize, std::sync::Arc<AtomicU64>)> = (0..nt).map(|_| (AtomicUsize::new(usize::MAX), Default::default())).collect();
    let chunk = (total / (nt * 64)).clamp(1, 256);
    let kn = known(&ctx.prop);
    let _ = std::fs::create_dir_all("evidence");
    let journal = std::fs::File::create(journal_path(ctx)).ok();
    std::thread::scope(|s| {
        for w in 0..nt {
            let (next, stop, found, known_hits, recs, ran, cur, kn, journal) = (&next, &stop, &found, &known_hits, &recs, &ran, &cur[w], &kn, &journal);
            s.spawn(move || {
                set_hash_seed(ctx.seed);
                let mut rec = Rec { beat: cur.1.clone(), ..Default::default() };
                let mut n = 0;
                'o: loop {
                    let a = next.fetch_add(chunk, SeqCst);
                    if a >= total {
                        break;
                    }
                    for g in a..(a + chunk).min(total) {
                        if stop.load(SeqCst) {
                            break 'o;
                        }
                        cur.1.store(now_ms(), SeqCst);
                        cur.0.store(g, SeqCst);
                        if let Some(f) = journal {
                            use std::os::unix::fs::FileExt;
                            let _ = f.write_at(&(g as u64 + 1).to_le_bytes(), 8 * w as u64);
                        }
                        let r = run_one(space, g, &mut rec);
                        cur.0.store(usize::MAX, SeqCst);
                        n += 1;
                        if let Err(msg) = r {
                            let key = key_of(space, g);
                            if kn.contains(&key) {
                                known_hits.lock().unwrap().push(Found { index: g, key, msg });
                            } else {
                                let mut v = found.lock().unwrap();
                                v.push(Found { index: g, key, msg });
                                if v.len() >= std::env::var("VERIF_MAX_VIOLATIONS").ok().and_then(|x| x.parse().ok()).unwrap_or(5) {
                                    stop.store(true, SeqCst);
                                }
                            }
                        }
                    }
                }
                ran.fetch_add(n, SeqCst);
                rec.states.sort_unstable();
                rec.states.dedup();
                recs.lock().unwrap().push(rec);
            });
        }
        let (cur, done, t0) = (&cur, &done, &t0);
        let recs = &recs;
        s.spawn(move || {
            // watchdog: a case that does not come back is a violation
            loop {
                std::thread::sleep(Duration::from_millis(50));
                if done.load(SeqCst) || recs.lock().unwrap().len() == nt {
                    break;
                }
                for c in cur.iter() {
                    let (g, st) = (c.0.load(SeqCst), c.1.load(SeqCst));
                    if g != usize::MAX && now_ms() > st + limit.as_millis() as u64 && c.0.load(SeqCst) == g {
                        let msg = format!("no answer within {} s", limit.as_secs());
                        let path = write_replay(ctx, space, g, &msg, 0);
                        println!("case {} {}: {}", key_of(space, g), desc_of(space, g), msg);
                        println!("VIOLATION property={} replay={}", ctx.prop, path);
                        write_evidence(ctx, space, total, 0, 0, 0, &BTreeMap::new(), 1, t0.elapsed().as_secs_f64(), false);
                        std::process::exit(1);
                    }
                }
            }
        });
    });
    done.store(true, SeqCst);
    let mut all: Vec<u64> = vec![];
    let mut transitions = 0;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    for r in recs.into_inner().unwrap() {
        transitions += r.transitions;
        all.extend(r.states);
        for (k, v) in r.labels {
            *labels.entry(k).or_default() += v;
        }
    }
    all.sort_unstable();
    all.dedup();
    let ran = ran.into_inner();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.index);
    let mut known_hits = known_hits.into_inner().unwrap();
    known_hits.sort_by_key(|f| f.index);
    for k in &known_hits {
        println!("KNOWN-FINDING: property={} case={} {}", ctx.prop, k.key, k.msg);
    }
    let mut violations = found.len();
    if found.is_empty() {
        if let Some(p) = &space.post {
            if let Err(m) = p(&labels) {
                violations = 1;
                let dir = "evidence/replay";
                let _ = std::fs::create_dir_all(dir);
                let path = format!("{}/{}-run.json", dir, ctx.prop);
                let _ = std::fs::write(
                    &path,
                    format!("{{\"property\": {}, \"seed\": {}, \"failure\": {}, \"rerun\": \"./check.sh {} (whole run)\"}}\n", jstr(&ctx.prop), ctx.seed, jstr(&m), ctx.prop),
                );
                println!("{}", m);
                println!("VIOLATION property={} replay={}", ctx.prop, path);
            }
        }
    }
    for (n, f) in found.iter().enumerate() {
        let path = write_replay(ctx, space, f.index, &f.msg, n);
        println!("case {} {}: {}", f.key, desc_of(space, f.index), f.msg);
        println!("VIOLATION property={} replay={}", ctx.prop, path);
    }
    let _ = std::fs::remove_file(journal_path(ctx));
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(ctx, space, total, ran, all.len(), transitions, &labels, violations, wall, ran == total);
    println!(
        "{} {}: cases {}/{} states {} transitions {} violations {} known {} in {:.1}s",
        ctx.prop,
        if ctx.tier == Tier::Quick { "quick" } else { "thorough" },
        ran,
        total,
        all.len(),
        transitions,
        violations,
        known_hits.len(),
        wall
    );
    for (k, v) in labels.iter().take(40) {
        println!("  {}: {}", k, v);
    }
    if violations > 0 {
        1
    } else {
        0
    }
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    ctx: &Ctx,
    space: &Space,
    total: usize,
    ran: usize,
    states: usize,
    transitions: u64,
    labels: &BTreeMap<String, u64>,
    violations: usize,
    wall: f64,
    exhaustive: bool,
) {
    let _ = std::fs::create_dir_all("evidence");
    let mut samples = vec![];
    let mut base = 0;
    for f in &space.fams {
        let n = f.len();
        for i in [0, n / 2] {
            if n > 0 && samples.len() < 12 {
                samples.push(jstr(&format!("{} {}", key_of(space, base + i), desc_of(space, base + i))));
            }
        }
        base += n;
    }
    samples.dedup();
    let fams: Vec<String> = space.fams.iter().map(|f| format!("{{\"family\": {}, \"dims\": {:?}}}", jstr(f.name), f.dims)).collect();
    let lab: Vec<String> = labels.iter().take(300).map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    let asm: Vec<String> = space.assumptions.iter().map(|s| jstr(s)).collect();
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"cases_in_bounds\": {},\n  \"bounds\": {},\n  \"families\": [{}],\n  \"outcomes\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        jstr(&ctx.prop),
        if ctx.tier == Tier::Quick { "quick" } else { "thorough" },
        ctx.seed,
        states,
        transitions,
        ran,
        exhaustive,
        total,
        jstr(&space.bounds),
        fams.join(", "),
        lab.join(", "),
        samples.join(", "),
        asm.join(", "),
        wall,
        violations
    );
    let _ = std::fs::write(format!("evidence/{}.json", ctx.prop), body);
}
