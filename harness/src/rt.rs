//! Runtime of the monitors: seeded random source, counters, verdicts, evidence.
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

/// SplitMix64 based random source: every random choice of a check comes from VERIF_SEED.
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn sub(seed: u64, a: u64, b: u64) -> Rng {
        let mut r = Rng::new(seed);
        let x = r.next() ^ a.wrapping_mul(0xD134_2543_DE82_EF95);
        let mut r = Rng::new(x);
        let y = r.next() ^ b.wrapping_mul(0xA076_1D64_78BD_642F);
        Rng::new(y)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub struct Violation {
    pub sig: String,
    pub detail: String,
}
/// Result of one case: Err is an observed violation.
pub type Case = Result<(), Violation>;

pub fn viol<T>(sig: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation {
        sig: sig.into(),
        detail: detail.into(),
    })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) { return $crate::rt::viol($sig, format!($($arg)*)); }
    };
}

thread_local! {
    static PANIC_INFO: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}
static LAST_ANY: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if std::env::var("VH_TRACE").is_ok() {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC_INFO.with(|p| *p.borrow_mut() = Some((loc.clone(), msg.clone())));
        if let Ok(mut l) = LAST_ANY.lock() {
            *l = Some((loc, msg));
        }
    }));
}

/// Run `f` and turn a panic into (location, message)
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    PANIC_INFO.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let own = PANIC_INFO.with(|p| p.borrow_mut().take());
            let other = LAST_ANY.lock().ok().and_then(|mut l| l.take());
            Err(own.or(other).unwrap_or_default())
        }
    }
}

pub fn is_harness_location(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/harness/src/")
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub id: &'static str,
    pub seed: u64,
    pub tier: Tier,
    pub only_case: Option<(String, u64)>,
    shard: (u64, u64),
    start: Instant,
    deadline: Instant,
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    pub evaluations: u64,
    samples: Vec<Value>,
    max_samples: usize,
    known: Vec<(String, String)>,
    known_hit: BTreeMap<String, String>,
    violations: Vec<Value>,
    pub harness_errors: Vec<String>,
    max_viol: usize,
    progress: Option<std::fs::File>,
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

// ---- watchdog: bounded progress of a single case, in CPU time of this process
static CASE_NR: AtomicU64 = AtomicU64::new(0);
static WATCH: AtomicBool = AtomicBool::new(true);
pub const EXIT_NO_PROGRESS: i32 = 97;

fn cpu_ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit_once(')').map(|x| x.1).unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}

/// Switch the no-progress watchdog off for cases which wait for other processes
pub fn watchdog(on: bool) {
    WATCH.store(on, SeqCst);
}

pub fn start_watchdog() {
    let cpu_limit: u64 = std::env::var("VH_CASE_CPU").ok().and_then(|s| s.parse().ok()).unwrap_or(150) * 100;
    let idle_limit: u64 = std::env::var("VH_CASE_IDLE").ok().and_then(|s| s.parse().ok()).unwrap_or(90);
    std::thread::spawn(move || {
        let mut case = u64::MAX;
        let mut start_ticks = 0;
        let mut last_ticks = 0;
        let mut last_active = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = CASE_NR.load(SeqCst);
            let t = cpu_ticks();
            if c != case || !WATCH.load(SeqCst) || c == 0 {
                case = c;
                start_ticks = t;
                last_ticks = t;
                last_active = Instant::now();
                continue;
            }
            if t > last_ticks + 4 {
                last_ticks = t;
                last_active = Instant::now();
            }
            if t - start_ticks > cpu_limit || last_active.elapsed().as_secs() > idle_limit {
                eprintln!("watchdog: no progress ({} CPU ticks, idle {} s)", t - start_ticks, last_active.elapsed().as_secs());
                std::process::exit(EXIT_NO_PROGRESS);
            }
        }
    });
}

pub fn load_known(id: &str) -> Vec<(String, String)> {
    // Lines: "open: property=<id> sig=<signature> | <what fails>"; "fixed:" lines suppress nothing.
    let mut known = vec![];
    let file = std::env::var("VH_KNOWN").map(PathBuf::from).unwrap_or_else(|_| verif_dir().join("known_findings.txt"));
    if let Ok(s) = std::fs::read_to_string(file) {
        let head = format!("open: property={id} sig=");
        for l in s.lines() {
            if let Some((sig, what)) = l.strip_prefix(&head).and_then(|r| r.split_once(" | ")) {
                known.push((sig.trim().to_string(), what.trim().to_string()));
            }
        }
    }
    known
}

impl Ctx {
    pub fn new(id: &'static str, shard: (u64, u64)) -> Ctx {
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let cap = std::env::var("VH_CAP")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if tier == Tier::Quick { 240 } else { 1800 });
        Ctx {
            id,
            seed,
            tier,
            only_case: None,
            shard,
            start: Instant::now(),
            deadline: Instant::now() + Duration::from_secs(cap),
            counters: BTreeMap::new(),
            maxima: BTreeMap::new(),
            distinct: HashSet::new(),
            evaluations: 0,
            samples: vec![],
            max_samples: 4,
            known: load_known(id),
            known_hit: BTreeMap::new(),
            violations: vec![],
            harness_errors: vec![],
            max_viol: std::env::var("VH_MAXVIOL").ok().and_then(|s| s.parse().ok()).unwrap_or(5),
            progress: None,
        }
    }
    pub fn set_progress_file(&mut self, p: &std::path::Path) {
        self.progress = std::fs::File::create(p).ok();
    }
    /// number of cases: quick or thorough
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    pub fn out_of_time(&self) -> bool {
        Instant::now() > self.deadline
    }
    pub fn count(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.to_string()).or_default() += n;
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let e = self.maxima.entry(name.to_string()).or_default();
        *e = (*e).max(n);
    }
    /// Record a distinct and non-trivial case by its description.
    pub fn distinct(&mut self, desc: &str) {
        self.distinct.insert(hash_str(desc));
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < self.max_samples {
            self.samples.push(v);
        }
    }
    pub fn report(&mut self, group: &str, case: u64, v: Violation) {
        if let Some((s, what)) = self.known.iter().find(|(s, _)| *s == v.sig) {
            self.known_hit.entry(s.clone()).or_insert_with(|| what.clone());
            self.count(&format!("known_finding_hits:{}", v.sig), 1);
            return;
        }
        let p = write_replay(self.id, self.seed, group, case, &v);
        eprintln!("[{}] {} case {}: {}: {}", self.id, group, case, v.sig, v.detail);
        self.violations.push(json!({"signature": v.sig, "group": group, "case": case, "replay": p}));
    }
    pub fn too_many(&self) -> bool {
        self.violations.len() >= self.max_viol
    }
    /// Run one case under panic guard.
    pub fn case(&mut self, group: &str, idx: u64, f: impl FnOnce(&mut Ctx, &mut Rng) -> Case) {
        if let Some((g, c)) = &self.only_case {
            if g != group || *c != idx {
                return;
            }
        } else if (hash_str(group).wrapping_add(idx)) % self.shard.1 != self.shard.0 {
            return;
        }
        self.evaluations += 1;
        if let Some(f) = &self.progress {
            use std::os::unix::fs::FileExt;
            let mut b = format!("{group}:{idx}").into_bytes();
            b.resize(100, b' ');
            let _ = f.write_all_at(&b, 0);
        }
        CASE_NR.fetch_add(1, SeqCst);
        let mut rng = Rng::sub(self.seed, hash_str(group), idx);
        let r = guarded(|| f(self, &mut rng));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(v)) => self.report(group, idx, v),
            Err((loc, msg)) => {
                if is_harness_location(&loc) {
                    self.harness_errors.push(format!("{group}:{idx} {loc}: {msg}"));
                } else {
                    self.report(
                        group,
                        idx,
                        Violation {
                            sig: format!("panic@{}", short_loc(&loc)),
                            detail: format!("panic at {loc}: {msg}"),
                        },
                    );
                }
            }
        }
        watchdog(true);
    }
    /// Run `n` cases
    pub fn cases(&mut self, group: &str, n: u64, mut f: impl FnMut(&mut Ctx, &mut Rng) -> Case) {
        for i in 0..n {
            if self.out_of_time() || self.too_many() {
                self.count(&format!("stopped_early:{group}"), 1);
                break;
            }
            self.case(group, i, &mut f);
        }
    }
    /// Result of a shard as JSON
    pub fn into_json(self) -> Value {
        json!({
            "counters": self.counters, "maxima": self.maxima,
            "distinct": self.distinct.iter().collect::<Vec<_>>(),
            "evaluations": self.evaluations, "samples": self.samples,
            "known_hit": self.known_hit, "violations": self.violations,
            "harness_errors": self.harness_errors,
        })
    }
}

pub fn write_replay(id: &str, seed: u64, group: &str, case: u64, v: &Violation) -> String {
    let dir = verif_dir().join("out").join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{id}-{group}-{seed}-{case}.json"));
    let val = json!({"property": id, "group": group, "case": case, "seed": seed,
        "signature": v.sig, "detail": v.detail,
        "rerun": format!("VERIF_SEED={seed} {}/bin/check {id} --case {group}:{case}", verif_dir().display())});
    let text = serde_json::to_string_pretty(&val).unwrap_or_default();
    if std::fs::write(&p, &text).is_err() {
        // without write permission: the supervisor moves it to its final place
        if let Ok(d) = std::env::var("VH_SHARD_DIR") {
            let _ = std::fs::write(PathBuf::from(d).join(format!("replay-{id}-{group}-{seed}-{case}.json")), &text);
        }
    }
    p.display().to_string()
}

/// Run the shards of a check as child processes and merge what they observed.
pub fn supervise(id: &'static str, level: &str, rule: &str, min_distinct: u64, shards: u64, unprivileged: bool, only_case: Option<String>) -> i32 {
    let start = Instant::now();
    let ctx = Ctx::new(id, (0, 1));
    let (seed, tier, known) = (ctx.seed, ctx.tier, ctx.known);
    let dir = scratch();
    let mut exe = std::env::current_exe().expect("exe");
    let tmp = dir.path().join("tmp");
    std::fs::create_dir(&tmp).expect("tmp");
    let known_copy = dir.path().join("known.txt");
    let _ = std::fs::copy(verif_dir().join("known_findings.txt"), &known_copy);
    // workloads with hostile file names run as an unprivileged user which can only write to scratch files
    use std::os::unix::fs::{MetadataExt, PermissionsExt};
    let unprivileged = unprivileged && std::fs::metadata("/proc/self").map(|m| m.uid() == 0).unwrap_or(false);
    if unprivileged {
        let c = dir.path().join("vh");
        std::fs::copy(&exe, &c).expect("copy exe");
        exe = c;
        for p in [dir.path(), tmp.as_path()] {
            std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o777)).expect("chmod");
        }
    }
    let n = if only_case.is_some() { 1 } else { shards };
    let mut children = vec![];
    for i in 0..n {
        let mut c = std::process::Command::new(&exe);
        c.arg(id).env("VH_SHARD", format!("{i}/{n}")).env("VH_SHARD_DIR", dir.path()).env("TMPDIR", &tmp).env("VH_SCRATCH", &tmp).env("VH_KNOWN", &known_copy);
        if unprivileged {
            use std::os::unix::process::CommandExt;
            c.uid(65534).gid(65534).current_dir(&tmp);
        }
        if let Some(oc) = &only_case {
            c.arg("--case").arg(oc);
        }
        children.push((i, c.spawn().expect("spawn shard")));
    }
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut evaluations = 0;
    let mut samples: Vec<Value> = vec![];
    let mut known_hit: BTreeMap<String, String> = BTreeMap::new();
    let mut violations: Vec<Value> = vec![];
    let mut errors: Vec<String> = vec![];
    for (i, mut c) in children {
        let st = c.wait().expect("wait");
        let res = std::fs::read_to_string(dir.path().join(format!("res-{i}.json"))).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok());
        match res {
            Some(v) => {
                for (k, n) in v["counters"].as_object().into_iter().flatten() {
                    *counters.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
                }
                for (k, n) in v["maxima"].as_object().into_iter().flatten() {
                    let e = counters.entry(k.clone()).or_default();
                    *e = (*e).max(n.as_u64().unwrap_or(0));
                }
                distinct.extend(v["distinct"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()));
                evaluations += v["evaluations"].as_u64().unwrap_or(0);
                for s in v["samples"].as_array().into_iter().flatten() {
                    if samples.len() < 4 {
                        samples.push(s.clone());
                    }
                }
                for (k, w) in v["known_hit"].as_object().into_iter().flatten() {
                    known_hit.insert(k.clone(), w.as_str().unwrap_or("").to_string());
                }
                violations.extend(v["violations"].as_array().into_iter().flatten().cloned());
                errors.extend(v["harness_errors"].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(|s| s.to_string())));
            }
            None => {
                use std::os::unix::process::ExitStatusExt;
                let cur = std::fs::read_to_string(dir.path().join(format!("cur-{i}"))).unwrap_or_default();
                let cur = cur.trim().to_string();
                let (g, k) = cur.rsplit_once(':').map(|(g, k)| (g.to_string(), k.parse().unwrap_or(0))).unwrap_or((cur.clone(), 0));
                let sig = match (st.code(), st.signal()) {
                    (Some(EXIT_NO_PROGRESS), _) => Some("no-progress".to_string()),
                    (_, Some(s)) if s == 6 || s == 11 || s == 7 || s == 4 || s == 8 => Some(format!("crash-signal-{s}")),
                    _ => None,
                };
                match sig {
                    Some(sig) if !cur.is_empty() => {
                        let v = Violation { sig, detail: format!("the process executing case {cur} ended with {st:?} instead of finishing the operation") };
                        if let Some((s, w)) = known.iter().find(|(s, _)| *s == v.sig) {
                            known_hit.insert(s.clone(), w.clone());
                        } else {
                            let p = write_replay(id, seed, &g, k, &v);
                            eprintln!("[{id}] {cur}: {}: {}", v.sig, v.detail);
                            violations.push(json!({"signature": v.sig, "group": g, "case": k, "replay": p}));
                        }
                    }
                    _ => errors.push(format!("shard {i} ended with {st:?} at case {cur:?}")),
                }
            }
        }
    }
    for e in std::fs::read_dir(dir.path()).into_iter().flatten().flatten() {
        if let Some(n) = e.file_name().to_str().and_then(|n| n.strip_prefix("replay-").map(|n| n.to_string())) {
            let to = verif_dir().join("out").join("replays");
            let _ = std::fs::create_dir_all(&to);
            let _ = std::fs::copy(e.path(), to.join(n));
        }
    }
    let mut code = 0;
    for (s, what) in &known_hit {
        println!("KNOWN-FINDING: property={id} {what} [{s}]");
    }
    if let Some(p) = violations.first() {
        println!("VIOLATION property={id} replay={}", p["replay"].as_str().unwrap_or("?"));
        code = 1;
    }
    if !errors.is_empty() {
        for e in errors.iter().take(5) {
            eprintln!("HARNESS ERROR {e}");
        }
        if code == 0 {
            code = 2;
        }
    }
    if only_case.is_none() && code == 0 && (distinct.len() as u64) < min_distinct {
        eprintln!("INCONCLUSIVE: only {} distinct non-trivial cases observed (< {min_distinct})", distinct.len());
        code = 2;
    }
    if samples.is_empty() {
        samples.push(json!("(no sample recorded)"));
    }
    let ev = json!({
        "property": id,
        "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": seed,
        "level": level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct.len(),
            "rule": rule,
            "samples": samples,
            "observed": counters,
            "harness_errors": errors.len(),
            "known_findings_seen": known_hit.keys().collect::<Vec<_>>(),
        },
        "violations": violations.len(),
        "wall_s": start.elapsed().as_secs_f64(),
    });
    if only_case.is_none() {
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap_or_default() + "\n");
    }
    println!("[{id}] evaluations={evaluations} distinct={} violations={} wall={:.1}s exit={code}", distinct.len(), violations.len(), start.elapsed().as_secs_f64());
    code
}

pub fn short_loc(loc: &str) -> String {
    // file name without line so that unrelated edits do not change the signature
    let f = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
    let parts: Vec<&str> = f.split('/').collect();
    let n = parts.len();
    parts[n.saturating_sub(2)..].join("/")
}

/// scratch directory on /dev/shm when possible (fast), removed on drop
pub fn scratch() -> tempfile::TempDir {
    let base = if let Ok(s) = std::env::var("VH_SCRATCH") {
        PathBuf::from(s)
    } else if std::path::Path::new("/dev/shm").is_dir() && std::env::var("VH_NOSHM").is_err() {
        PathBuf::from("/dev/shm")
    } else {
        std::env::temp_dir()
    };
    tempfile::Builder::new()
        .prefix("vh-")
        .tempdir_in(&base)
        .or_else(|_| tempfile::Builder::new().prefix("vh-").tempdir())
        .expect("scratch dir")
}
