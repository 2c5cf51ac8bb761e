//! C07 (kills) and C08 (I/O errors): histories executed by child processes with a fault at one file system operation.
use crate::corpus::*;
use crate::gmodel::*;
use crate::rt::*;
use crate::store::*;
use crate::c13::read_xml;
use graphannis::corpusstorage::ExportFormat;
use graphannis::model::AnnotationComponentType;
use graphannis::update::GraphUpdate;
use graphannis::{AnnotationGraph, CorpusStorage};
use serde_json::json;
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::str::FromStr;
use std::time::{Duration, Instant};

type Contents = BTreeMap<String, Model>;

#[derive(Clone, Debug)]
enum Step {
    /// update list for a corpus (the empty name for single graphs)
    Update(String, Vec<U>, bool),
    Sync,
    Persist,
    Optimize(String, bool),
    Reopen,
    Create(String, bool),
    Unload(String),
    Preload(String),
}

struct Plan {
    storage: bool,
    scfg: SCfg,
    disk: bool,
    /// applied without faults before
    setup: Vec<Step>,
    steps: Vec<Step>,
    /// contents before step i (the last one: at the end)
    states: Vec<Contents>,
    /// an update list that can be applied to each state
    more: Vec<Vec<U>>,
}

fn plan(seed: u64, storage: bool, with_create: bool) -> Plan {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let valid = |t: &str| AnnotationComponentType::from_str(t).is_ok();
    let disk = rng.chance(35);
    let names: Vec<&str> = if storage { vec!["c", "a/b"] } else { vec![""] };
    let arbitrary = rng.chance(35);
    let gcfg = gen_cfg(rng, false);
    let ccfg = Cfg { docs: (1, 2), texts: (1, 1), toks: (1, 5), segs: 1, ..Default::default() };
    let mut infos: BTreeMap<String, Info> = BTreeMap::new();
    let mut cur: Contents = BTreeMap::new();
    let mut list = |rng: &mut Rng, cur: &mut Contents, n: &str| -> Vec<U> {
        let m = cur.entry(n.to_string()).or_default();
        if arbitrary {
            let k = rng.range(1, 25);
            let mut m2 = m.clone();
            let e = gen_events(rng, &gcfg, &mut m2, k, &valid);
            for x in &e {
                m.apply(x, &valid);
            }
            e
        } else {
            let e = match infos.get_mut(n) {
                Some(i) => gen_edit(rng, &ccfg, i, m).0,
                None => {
                    let (e, i) = gen_corpus(rng, "c", &ccfg);
                    infos.insert(n.to_string(), i);
                    e
                }
            };
            for x in &e {
                m.apply(x, &valid);
            }
            e
        }
    };
    let mut setup = vec![];
    if storage {
        setup.push(Step::Create("c".into(), disk));
        cur.entry("c".into()).or_default();
    }
    if rng.chance(90) {
        let l = list(rng, &mut cur, names[0]);
        setup.push(Step::Update(names[0].into(), l, true));
    } else {
        cur.entry(names[0].into()).or_default();
    }
    if !storage {
        if rng.chance(40) {
            setup.push(Step::Optimize("".into(), rng.chance(50)));
        }
        setup.push(Step::Persist);
        // a log without synchronisation
        if rng.chance(30) {
            let l = list(rng, &mut cur, "");
            setup.push(Step::Update("".into(), l, true));
        }
    }
    let mut steps = vec![];
    let mut states = vec![];
    for _ in 0..rng.range(2, 6) {
        states.push(cur.clone());
        let n = rng.pick(&names).to_string();
        let exists = cur.contains_key(&n);
        let s = if storage {
            match rng.below(12) {
                0 if exists => Step::Unload(n),
                1 if exists => Step::Preload(n),
                2 if exists => Step::Optimize(n, rng.chance(40)),
                3 => Step::Reopen,
                4 if !exists && with_create => {
                    cur.insert(n.clone(), Model::default());
                    Step::Create(n, rng.chance(40))
                }
                _ if exists || with_create => {
                    let l = list(rng, &mut cur, &n);
                    Step::Update(n, l, true)
                }
                _ => {
                    let l = list(rng, &mut cur, "c");
                    Step::Update("c".into(), l, true)
                }
            }
        } else {
            match rng.below(10) {
                0..=2 => Step::Sync,
                3 => Step::Persist,
                4 => Step::Reopen,
                5 => Step::Optimize(n, rng.chance(40)),
                _ => {
                    let l = list(rng, &mut cur, "");
                    Step::Update("".into(), l, rng.chance(70))
                }
            }
        };
        steps.push(s);
    }
    if !storage && rng.chance(70) {
        states.push(cur.clone());
        steps.push(Step::Sync);
    }
    states.push(cur.clone());
    // a list that does not depend on the content
    let more = states.iter().enumerate().map(|(i, _)| vec![add_node(&format!("more{i}"), "node"), add_node("more", "node"), edge("Pointing", "more", "m", "more", &format!("more{i}")), label("more", "ns", "nr", &format!("{i}"))]).collect();
    Plan { storage, scfg: SCfg::random(rng), disk, setup, steps, states, more }
}

enum Target {
    Graph(Box<AnnotationGraph>),
    Storage(Option<CorpusStorage>),
}

/// writing the list to its temporary file can fail, too
fn try_update(l: &[U]) -> Result<GraphUpdate, String> {
    let mut u = GraphUpdate::new();
    for e in l {
        u.add_event(e.clone()).map_err(es)?;
    }
    Ok(u)
}

fn es(e: impl std::fmt::Display) -> String {
    e.to_string()
}

impl Target {
    fn open(p: &Plan, dir: &Path) -> Result<Target, String> {
        if p.storage {
            Ok(Target::Storage(Some(p.scfg.open(dir).map_err(|v| v.detail)?)))
        } else {
            let mut g = AnnotationGraph::new(false).map_err(es)?;
            g.open(dir).map_err(es)?;
            Ok(Target::Graph(Box::new(g)))
        }
    }
    fn exec(&mut self, p: &Plan, dir: &Path, s: &Step) -> Result<(), String> {
        match self {
            Target::Graph(g) => match s {
                Step::Update(_, l, stats) => {
                    let mut u = try_update(l)?;
                    if *stats { g.apply_update(&mut u, |_| {}) } else { g.apply_update_keep_statistics(&mut u, |_| {}) }.map_err(es)
                }
                Step::Sync => g.background_sync_wal_updates().map_err(es),
                Step::Persist => g.persist_to(dir).map_err(es),
                Step::Optimize(_, d) => g.optimize_impl(*d).map_err(es),
                Step::Reopen => {
                    let mut n = AnnotationGraph::new(false).map_err(es)?;
                    n.open(dir).map_err(es)?;
                    **g = n;
                    Ok(())
                }
                _ => Ok(()),
            },
            Target::Storage(cs) => {
                if cs.is_none() {
                    *cs = Some(p.scfg.open(dir).map_err(|v| v.detail)?);
                }
                let c = cs.as_ref().unwrap();
                match s {
                    Step::Update(n, l, _) => c.apply_update(n, &mut try_update(l)?).map_err(es),
                    Step::Optimize(n, d) => c.reoptimize_implementation(n, *d).map_err(es),
                    Step::Create(n, d) => c.create_empty_corpus(n, *d).map_err(es).map(|_| ()),
                    Step::Unload(n) => c.unload(n).map_err(es),
                    Step::Preload(n) => c.preload(n).map_err(es),
                    Step::Reopen => {
                        *cs = None;
                        *cs = Some(p.scfg.open(dir).map_err(|v| v.detail)?);
                        Ok(())
                    }
                    _ => Ok(()),
                }
            }
        }
    }
    /// complete content by corpus; the token coverage index is compared with the expected one
    fn content(&mut self, scratch: &Path) -> Result<Contents, Violation> {
        match self {
            Target::Graph(g) => {
                if let Err(e) = g.ensure_loaded_all() {
                    return viol("content-unreadable", e.to_string());
                }
                Ok([(String::new(), observe(g, false)?)].into())
            }
            Target::Storage(cs) => {
                let mut r = BTreeMap::new();
                let Some(cs) = cs else { return viol("content-unreadable", "the storage is closed") };
                let f = scratch.join(format!("content-{}.graphml", std::process::id()));
                for i in cs.list().map_err(|e| Violation { sig: "content-unreadable".into(), detail: format!("list: {e}") })? {
                    if let Err(e) = cs.export_to_fs(&[&i.name], &f, ExportFormat::GraphML) {
                        return viol("content-unreadable", format!("corpus {:?}: {e}", i.name));
                    }
                    let xml = std::fs::read_to_string(&f).map_err(serr)?;
                    let m = read_xml(&xml).map_err(|e| Violation { sig: "content-unreadable".into(), detail: e })?.0;
                    r.insert(i.name, m);
                }
                let _ = std::fs::remove_file(f);
                Ok(r)
            }
        }
    }
}

fn diff(exp: &Contents, got: &Contents) -> Option<String> {
    for (n, m) in exp {
        match got.get(n) {
            None => return Some(format!("corpus {n:?} is missing")),
            Some(g) => {
                if let Some(d) = m.diff(g) {
                    return Some(format!("corpus {n:?}: {d}"));
                }
            }
        }
    }
    got.keys().find(|n| !exp.contains_key(*n)).map(|n| format!("unexpected corpus {n:?}"))
}

fn short(s: &Step) -> String {
    let t = format!("{s:?}");
    if std::env::var("VH_FULL").is_ok() { t } else { t.chars().take(160).collect() }
}

// ---- child processes

unsafe extern "C" {
    fn dlsym(handle: *mut std::ffi::c_void, name: *const std::ffi::c_char) -> *mut std::ffi::c_void;
}
static ARMED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);
fn armed() -> bool {
    ARMED.load(std::sync::atomic::Ordering::SeqCst)
}
pub fn arm(on: bool) {
    ARMED.store(on, std::sync::atomic::Ordering::SeqCst);
    let p = unsafe { dlsym(std::ptr::null_mut(), c"fss_arm".as_ptr()) };
    if !p.is_null() {
        let f: extern "C" fn(i32) = unsafe { std::mem::transmute(p) };
        f(on as i32);
    }
}

/// vh --fault-child run|check|recover seed storage create dir scratch ack
pub fn child(a: &[String]) -> i32 {
    let (mode, seed, storage, create) = (a[0].as_str(), a[1].parse::<u64>().unwrap(), a[2] == "1", a[3] == "1");
    let (dir, scratch, ack) = (Path::new(&a[4]), Path::new(&a[5]), Path::new(&a[6]));
    let p = plan(seed, storage, create);
    let mut ackf = std::fs::OpenOptions::new().create(true).append(true).open(ack).expect("ack file");
    let r = guarded(|| match mode {
        "run" => {
            let mut t = Target::open(&p, dir).map_err(|e| Violation { sig: "open-failed".into(), detail: e })?;
            for (i, s) in p.steps.iter().enumerate() {
                if let Err(e) = t.exec(&p, dir, s) {
                    return viol("step-failed", format!("{i} {}: {e}", short(s)));
                }
                ackf.write_all(b"a").unwrap();
            }
            drop(t);
            Ok(())
        }
        "recover" => {
            let mut t = Target::open(&p, dir).map_err(|e| Violation { sig: "open-failed".into(), detail: e })?;
            let _ = t.content(scratch)?;
            if !p.storage {
                t.exec(&p, dir, &Step::Sync).map_err(|e| Violation { sig: "step-failed".into(), detail: e })?;
            }
            Ok(())
        }
        "check" => check_child(&p, dir, scratch),
        _ => panic!("mode"),
    });
    let v = match r {
        Ok(Ok(())) => return 0,
        Ok(Err(v)) => v,
        Err((l, m)) => Violation { sig: if is_harness_location(&l) { format!("HARNESS {l}") } else { format!("panic:{}", short_loc(&l)) }, detail: m },
    };
    println!("{}\u{1}{}", v.sig, v.detail);
    1
}

/// Execute a plan with failing operations and compare the content after each step
fn check_child(p: &Plan, dir: &Path, scratch: &Path) -> Case {
    // the content as it is defined by the reported results
    let mut log = vec![];
    let mut t = match Target::open(p, dir) {
        Ok(t) => t,
        Err(e) => {
            log.push(format!("open failed: {e}"));
            arm(false);
            Target::open(p, dir).map_err(|e| Violation { sig: "open-after-fault-failed".into(), detail: format!("{e}; {}", log.join("; ")) })?
        }
    };
    let valid = |t: &str| AnnotationComponentType::from_str(t).is_ok();
    let mut exp = p.states[0].clone();
    let mut failed = 0;
    for s in &p.steps {
        let r = t.exec(p, dir, s);
        log.push(format!("{} -> {}", short(s), match &r { Ok(()) => "ok".to_string(), Err(e) => format!("failed: {e}") }));
        let applies = |exp: &mut Contents| match s {
            Step::Update(n, l, _) => {
                let m = exp.entry(n.clone()).or_default();
                for e in l {
                    m.apply(e, &valid);
                }
            }
            Step::Create(n, _) => {
                exp.entry(n.clone()).or_default();
            }
            _ => {}
        };
        let mut unknown = None;
        match &r {
            Ok(()) => applies(&mut exp),
            Err(_) => {
                failed += 1;
                if let Step::Update(n, ..) | Step::Create(n, _) = s
                    && !exp.contains_key(n)
                {
                    // creating a corpus failed: it may be there, but it must be empty
                    unknown = Some(n.clone());
                }
                // a single graph that could not be restored after a failure is closed
                let closed = matches!(&t, Target::Graph(g) if !g.has_location());
                if closed {
                    log.push("closed".into());
                    arm(false);
                    if let Err(e) = t.exec(p, dir, &Step::Reopen) {
                        return viol("open-after-fault-failed", format!("{e}; {}", log.join("; ")));
                    }
                }
                if matches!(s, Step::Reopen) {
                    arm(false);
                    if let Err(e) = t.exec(p, dir, s) {
                        return viol("open-after-fault-failed", format!("{e}; {}", log.join("; ")));
                    }
                }
            }
        }
        let mut got = match t.content(scratch) {
            Ok(g) => g,
            Err(v) if p.storage && armed() => {
                // the corpus could not be loaded because of the faults
                log.push(format!("not readable: {}", v.detail));
                arm(false);
                let g = t.content(scratch).map_err(|v| Violation { sig: v.sig, detail: format!("{}; {}", v.detail, log.join("; ")) })?;
                arm(true);
                g
            }
            Err(v) => return viol(v.sig, format!("{}; {}", v.detail, log.join("; "))),
        };
        if let Some(n) = &unknown
            && got.get(n).is_some_and(|m| m.nodes.is_empty())
        {
            got.remove(n);
            // what is there stays there
            exp.insert(n.clone(), Model::default());
            got.insert(n.clone(), Model::default());
        }
        if let Some(d) = diff(&exp, &got) {
            return viol("content-after-fault", format!("{d}; {}", log.join("; ")));
        }
    }
    arm(false);
    log.push("no more faults".into());
    // later operations succeed
    for n in exp.keys().cloned().collect::<Vec<_>>() {
        for l in [&p.more[0], &p.more[1]] {
            if let Err(e) = t.exec(p, dir, &Step::Update(n.clone(), l.clone(), true)) {
                return viol("update-after-fault-failed", format!("corpus {n:?}: {e}; {}", log.join("; ")));
            }
            for e in l {
                exp.get_mut(&n).unwrap().apply(e, &valid);
            }
            if !p.storage && failed % 2 == 0 && let Err(e) = t.exec(p, dir, &Step::Sync) {
                return viol("sync-after-fault-failed", format!("{e}; {}", log.join("; ")));
            }
        }
    }
    let got = t.content(scratch).map_err(|v| Violation { sig: v.sig, detail: format!("{}; {}", v.detail, log.join("; ")) })?;
    if let Some(d) = diff(&exp, &got) {
        return viol("content-after-fault", format!("at the end: {d}; {}", log.join("; ")));
    }
    drop(t);
    let mut t = Target::open(p, dir).map_err(|e| Violation { sig: "open-after-fault-failed".into(), detail: format!("{e}; {}", log.join("; ")) })?;
    let got = t.content(scratch).map_err(|v| Violation { sig: v.sig, detail: format!("reopened: {}; {}", v.detail, log.join("; ")) })?;
    if let Some(d) = diff(&exp, &got) {
        return viol("content-after-reopen", format!("{d}; {}", log.join("; ")));
    }
    Ok(())
}

// ---- parent

fn copy_dir(from: &Path, to: &Path) -> std::io::Result<()> {
    std::fs::create_dir_all(to)?;
    for e in std::fs::read_dir(from)? {
        let e = e?;
        let t = to.join(e.file_name());
        if e.file_type()?.is_dir() {
            copy_dir(&e.path(), &t)?;
        } else {
            std::fs::copy(e.path(), t)?;
        }
    }
    Ok(())
}

struct Fault {
    mode: &'static str,
    at: u64,
    n: u64,
    err: i32,
    kinds: &'static str,
    after: bool,
    torn: bool,
    reads: bool,
    short: bool,
    /// faults also in the directory for temporary files
    tmp: bool,
}
impl Fault {
    fn count() -> Fault {
        Fault { mode: "count", at: 0, n: 0, err: 0, kinds: "", after: false, torn: false, reads: false, short: false, tmp: false }
    }
}
struct Out {
    code: Option<i32>,
    killed: bool,
    out: String,
    ops: Vec<String>,
    acked: usize,
}

struct Runner {
    seed: u64,
    storage: bool,
    create: bool,
    base: PathBuf,
    shim: PathBuf,
}
impl Runner {
    fn run(&self, mode: &str, dir: &Path, f: &Fault) -> Result<Out, Violation> {
        let ack = self.base.join("ack");
        let ops = self.base.join("ops");
        let _ = std::fs::remove_file(&ack);
        let _ = std::fs::remove_file(&ops);
        let mut c = Command::new(std::env::current_exe().map_err(serr)?);
        c.args(["--fault-child", mode, &self.seed.to_string(), if self.storage { "1" } else { "0" }, if self.create { "1" } else { "0" }]);
        c.arg(dir).arg(&self.base).arg(&ack);
        c.env("LD_PRELOAD", &self.shim).env("FSS_DIR", dir).env("FSS_MODE", f.mode).env("FSS_AT", f.at.to_string()).env("FSS_N", f.n.to_string()).env("FSS_ERR", f.err.to_string()).env("FSS_OUT", &ops);
        if !f.kinds.is_empty() {
            c.env("FSS_KINDS", f.kinds);
        }
        if f.after {
            c.env("FSS_AFTER", "1");
        }
        if f.torn {
            c.env("FSS_TORN", "1");
        }
        if f.reads {
            c.env("FSS_READS", "1");
        }
        if f.short {
            c.env("FSS_SHORT", "1");
        }
        // faults are injected in all directories whose path starts with the one of the data directory
        let tmp = self.base.join(if f.tmp { "run-tmp" } else { "tmp" });
        std::fs::create_dir_all(&tmp).map_err(serr)?;
        c.env("TMPDIR", tmp);
        c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(if std::env::var("VH_FULL").is_ok() { Stdio::inherit() } else { Stdio::null() });
        if std::env::var("VH_KEEP").is_ok() {
            println!("{:?} {:?}", c.get_envs().collect::<Vec<_>>(), c.get_args().collect::<Vec<_>>());
            copy_dir(&self.base, Path::new("/tmp/vh_keep")).map_err(serr)?;
        }
        let mut ch = c.spawn().map_err(serr)?;
        let start = Instant::now();
        let mut delay = 1;
        let st = loop {
            if let Some(s) = ch.try_wait().map_err(serr)? {
                break Some(s);
            }
            if start.elapsed() > Duration::from_secs(60) {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(delay));
            delay = (delay + 1).min(5);
        };
        let mut out = String::new();
        use std::io::Read;
        let _ = ch.stdout.take().unwrap().read_to_string(&mut out);
        use std::os::unix::process::ExitStatusExt;
        Ok(Out {
            killed: st.is_some_and(|s| s.signal() == Some(9)),
            code: st.and_then(|s| s.code().or(s.signal().map(|x| 1000 + x))),
            out,
            ops: std::fs::read_to_string(&ops).unwrap_or_default().lines().map(|s| s.to_string()).collect(),
            acked: std::fs::metadata(&ack).map(|m| m.len() as usize).unwrap_or(0),
        })
    }
}

fn child_violation(o: &Out, what: &str) -> Case {
    if let Some((sig, d)) = o.out.trim_end().split_once('\u{1}') {
        if sig.starts_with("HARNESS") {
            panic!("child: {sig} {d}");
        }
        return viol(sig, format!("{d}; {what}"));
    }
    match o.code {
        None => viol("hang", format!("no end within 60 s; {what}")),
        Some(0) => Ok(()),
        Some(c) => viol("child-died", format!("status {c}; {what}")),
    }
}

fn template(p: &Plan, dir: &Path) -> Case {
    if p.storage {
        let mut t = Target::open(p, dir).map_err(serr)?;
        for s in &p.setup {
            t.exec(p, dir, s).map_err(serr)?;
        }
    } else {
        let mut t = Target::Graph(Box::new(AnnotationGraph::with_default_graphstorages(p.disk).map_err(serr)?));
        for s in &p.setup {
            t.exec(p, dir, s).map_err(serr)?;
        }
    }
    Ok(())
}

fn shim() -> PathBuf {
    PathBuf::from(std::env::var("VH_SHIM").unwrap_or_else(|_| verif_dir().join("target/fsshim.so").to_string_lossy().to_string()))
}

fn setup(rng: &mut Rng, storage: bool, with_create: bool) -> Result<(tempfile::TempDir, Runner, Plan, PathBuf), Violation> {
    let base = scratch();
    let seed = rng.next();
    let p = plan(seed, storage, with_create);
    let tmpl = base.path().join("template");
    template(&p, &tmpl)?;
    let r = Runner { seed, storage, create: with_create, base: base.path().to_path_buf(), shim: shim() };
    if !r.shim.is_file() {
        panic!("the shim {} does not exist", r.shim.display());
    }
    Ok((base, r, p, tmpl))
}

/// C07
pub fn kills(ctx: &mut Ctx, rng: &mut Rng, storage: bool) -> Case {
    let (_base, r, p, tmpl) = { let cr = storage && rng.chance(50); setup(rng, storage, cr)? };
    let run = r.base.join("run");
    copy_dir(&tmpl, &run).map_err(serr)?;
    let steps: Vec<String> = p.steps.iter().map(short).collect();
    let o = r.run("run", &run, &Fault { mode: "kill", at: u64::MAX >> 1, ..Fault::count() })?;
    child_violation(&o, &format!("without fault; {steps:?}"))?;
    verify(ctx, &p, &run, &r.base, p.steps.len(), &format!("without fault; {steps:?}"), None)?;
    std::fs::remove_dir_all(&run).map_err(serr)?;
    let total = count_ops(&r, &tmpl, "run", false, false)?;
    ctx.max("operations_in_history", total);
    let limit = ctx.n(24, 400);
    let mut points: Vec<u64> = (1..=total).collect();
    if points.len() as u64 > limit {
        rng.shuffle(&mut points);
        points.truncate(limit as usize);
    }
    for at in points {
        let f = Fault { mode: "kill", at, after: rng.chance(30), torn: rng.chance(50), ..Fault::count() };
        copy_dir(&tmpl, &run).map_err(serr)?;
        let o = r.run("run", &run, &f)?;
        if !o.killed {
            // the number of operations of histories with background threads is not always the same
            child_violation(&o, &format!("fault at {at} of {total} not reached; {steps:?}"))?;
        } else {
            ctx.count("kills", 1);
            ctx.count(&format!("killed_at_{}", o.ops.first().and_then(|s| s.split(' ').nth(1)).unwrap_or("none")), 1);
        }
        let mut what = format!("killed at operation {at} of {total} ({}{}), {} of the steps {steps:?} were acknowledged", o.ops.join(","), if f.after { " after" } else if f.torn { " torn" } else { "" }, o.acked);
        let acked = if o.killed { o.acked } else { p.steps.len() };
        // second kill during the recovery
        if rng.chance(40) {
            let n = count_ops(&r, &run, "recover", false, false)?;
            if n > 0 {
                for _ in 0..rng.range(1, 3) {
                    let at = rng.range(1, n as usize) as u64;
                    let o = r.run("recover", &run, &Fault { mode: "kill", at, after: rng.chance(30), torn: rng.chance(50), ..Fault::count() })?;
                    what.push_str(&format!("; recovery killed at operation {at} of {n} ({})", o.ops.join(",")));
                    if o.killed {
                        ctx.count("kills_during_recovery", 1);
                    } else {
                        child_violation(&o, &what)?;
                    }
                }
            }
        }
        let creating = match p.steps.get(acked) {
            Some(Step::Create(n, _) | Step::Update(n, ..)) if !p.states[acked].contains_key(n) => Some(n.clone()),
            _ => None,
        };
        verify(ctx, &p, &run, &r.base, acked, &what, creating)?;
        std::fs::remove_dir_all(&run).map_err(serr)?;
    }
    if total > 10 {
        ctx.distinct(&format!("{steps:?} {}", r.seed));
    }
    ctx.sample(json!({"steps": steps.iter().map(|s| s.chars().take(50).collect::<String>()).collect::<Vec<_>>(), "operations": total}));
    Ok(())
}

fn count_ops(r: &Runner, tmpl: &Path, mode: &str, reads: bool, tmp: bool) -> Result<u64, Violation> {
    // a fault number that is never reached with all operations reported
    let d = r.base.join("run");
    let saved = d.is_dir();
    if saved {
        std::fs::rename(&d, r.base.join("saved")).map_err(serr)?;
    }
    let tmpl = if saved && tmpl == d { r.base.join("saved") } else { tmpl.to_path_buf() };
    let tmpl = &tmpl;
    copy_dir(tmpl, &d).map_err(serr)?;
    let o = r.run(mode, &d, &Fault { reads, tmp, ..Fault::count() })?;
    std::fs::remove_dir_all(&d).map_err(serr)?;
    if saved {
        std::fs::rename(r.base.join("saved"), &d).map_err(serr)?;
    }
    Ok(o.ops.last().and_then(|l| l.split(' ').next()).and_then(|n| n.parse().ok()).unwrap_or(0))
}

/// Open what is left on the disk and compare it with the acknowledged content or the one of the next step
fn verify(ctx: &mut Ctx, p: &Plan, dir: &Path, scratch: &Path, acked: usize, what: &str, creating: Option<String>) -> Case {
    let valid = |t: &str| AnnotationComponentType::from_str(t).is_ok();
    let body = || -> Result<usize, Violation> {
        let mut t = Target::open(p, dir).map_err(|e| Violation { sig: "open-failed".into(), detail: format!("{e}; {what}") })?;
        if let (Some(n), Target::Storage(Some(cs))) = (&creating, &t) {
            // A corpus that was just being created may be unusable, but it can be created again
            if cs.preload(n).is_err() {
                let _ = cs.delete(n);
                match cs.create_empty_corpus(n, false) {
                    Ok(true) => {
                        cs.delete(n).map_err(serr)?;
                    }
                    r => return viol("creation-not-repeatable", format!("{r:?}; {what}")),
                }
            }
        }
        let mut got = t.content(scratch).map_err(|v| Violation { sig: v.sig, detail: format!("{}; {what}", v.detail) })?;
        if let Some(n) = &creating
            && got.get(n).is_some_and(|m| m.nodes.is_empty())
            && !p.states[acked].contains_key(n)
            && p.states.get(acked + 1).and_then(|s| s.get(n)).is_none_or(|m| !m.nodes.is_empty())
        {
            // created, but still empty
            got.remove(n);
        }
        let next = (acked + 1).min(p.states.len() - 1);
        let j = match diff(&p.states[acked], &got) {
            None => acked,
            Some(d) => match diff(&p.states[next], &got) {
                None => next,
                Some(d2) => return viol("wrong-state-after-kill", format!("compared to the last acknowledged state: {d}; compared to the next state: {d2}; {what}")),
            },
        };
        // the recovered state can be used
        let mut exp = p.states[j].clone();
        for n in exp.keys().cloned().collect::<Vec<_>>() {
            let l = &p.more[0];
            if let Err(e) = t.exec(p, dir, &Step::Update(n.clone(), l.clone(), true)) {
                return viol("update-after-recovery-failed", format!("{e}; {what}"));
            }
            for e in l {
                exp.get_mut(&n).unwrap().apply(e, &valid);
            }
        }
        if !p.storage {
            t.exec(p, dir, &Step::Sync).map_err(|e| Violation { sig: "sync-after-recovery-failed".into(), detail: format!("{e}; {what}") })?;
        }
        drop(t);
        let mut t = Target::open(p, dir).map_err(|e| Violation { sig: "open-failed".into(), detail: format!("second time: {e}; {what}") })?;
        let mut got = t.content(scratch).map_err(|v| Violation { sig: v.sig, detail: format!("second time: {}; {what}", v.detail) })?;
        if let Some(n) = &creating
            && !exp.contains_key(n)
            && got.get(n).is_some_and(|m| m.nodes.is_empty())
        {
            got.remove(n);
        }
        if let Some(d) = diff(&exp, &got) {
            return viol("wrong-state-after-recovery", format!("{d}; {what}"));
        }
        Ok(j)
    };
    match guarded(body) {
        Ok(Ok(j)) => {
            ctx.count(if j == acked { "recovered_acknowledged_state" } else { "recovered_next_state" }, 1);
            Ok(())
        }
        Ok(Err(v)) => Err(v),
        Err((l, m)) => {
            if is_harness_location(&l) {
                panic!("{l}: {m}");
            }
            viol(format!("panic:{}", short_loc(&l)), format!("{m}; {what}"))
        }
    }
}

/// C08
pub fn faults(ctx: &mut Ctx, rng: &mut Rng, storage: bool) -> Case {
    let (_base, r, p, tmpl) = { let cr = storage && rng.chance(50); setup(rng, storage, cr)? };
    let steps: Vec<String> = p.steps.iter().map(short).collect();
    let reads = storage && rng.chance(40);
    let tmp = rng.chance(30);
    let total = count_ops(&r, &tmpl, "check", reads, tmp)?;
    ctx.max("operations_in_history", total);
    let run = r.base.join("run");
    let limit = ctx.n(24, 400);
    let mut points: Vec<u64> = (1..=total).collect();
    if points.len() as u64 > limit {
        rng.shuffle(&mut points);
        points.truncate(limit as usize);
    }
    for at in points {
        let (err, kinds) = *rng.pick(&[(5, ""), (5, ""), (28, "open write mkdir truncate"), (28, "write"), (13, "open mkdir rename unlink rmdir"), (5, "fsync rename"), (5, "rename"), (5, "unlink rmdir"), (24, "open ropen"), (24, "ropen")]);
        if kinds == "ropen" && !reads {
            continue;
        }
        let short = kinds.contains("write") && rng.chance(50);
        let n = *rng.pick(&[1, 1, 2, 3, 8, 30, 1 << 40]);
        copy_dir(&tmpl, &run).map_err(serr)?;
        let o = r.run("check", &run, &Fault { mode: "fail", at, n, err, kinds, reads, tmp, short, ..Fault::count() })?;
        ctx.count("runs_with_faults", 1);
        if o.ops.is_empty() {
            ctx.count("fault_not_reached", 1);
        }
        for l in &o.ops {
            ctx.count(&format!("failed_{}", l.split(' ').nth(1).unwrap_or("")), 1);
        }
        let ops: Vec<_> = o.ops.iter().take(12).cloned().collect();
        child_violation(&o, &format!("failing operations {ops:?} ({} in total), errno {err}, from {at} for {n} operations of the kinds {kinds:?}; history {steps:?}", o.ops.len()))?;
        std::fs::remove_dir_all(&run).map_err(serr)?;
    }
    if total > 10 {
        ctx.distinct(&format!("{steps:?} {}", r.seed));
    }
    ctx.sample(json!({"steps": steps.iter().map(|s| s.chars().take(50).collect::<String>()).collect::<Vec<_>>(), "operations": total}));
    Ok(())
}

pub fn run_kills(ctx: &mut Ctx) {
    ctx.cases("graph", ctx.n(110, 3000), |c, r| kills(c, r, false));
    ctx.cases("storage", ctx.n(110, 3000), |c, r| kills(c, r, true));
}
pub fn run_faults(ctx: &mut Ctx) {
    ctx.cases("graph", ctx.n(160, 3000), |c, r| faults(c, r, false));
    ctx.cases("storage", ctx.n(160, 3000), |c, r| faults(c, r, true));
}
