//! C28: a data directory is only used by one process at a time.
use crate::corpus::*;
use crate::gmodel::*;
use crate::rt::*;
use crate::store::*;
use graphannis::CorpusStorage;
use graphannis::corpusstorage::{QueryLanguage, ResultOrder};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Duration;

pub fn run(ctx: &mut Ctx) {
    ctx.cases("order", ctx.n(60, 3000), order_case);
    ctx.cases("simultaneous", ctx.n(40, 1500), simultaneous_case);
    ctx.cases("race", ctx.n(24, 800), race_case);
}

#[repr(C)]
struct Ts(i64, i64);
unsafe extern "C" {
    fn clock_gettime(c: i32, t: *mut Ts) -> i32;
}
/// monotonic time shared by all processes
fn now() -> u64 {
    let mut t = Ts(0, 0);
    unsafe { clock_gettime(1, &mut t) };
    t.0 as u64 * 1_000_000_000 + t.1 as u64
}

fn open(dir: &Path, kind: u64) -> Result<CorpusStorage, String> {
    match kind % 3 {
        0 => CorpusStorage::with_auto_cache_size(dir, kind % 2 == 0),
        k => CorpusStorage::with_cache_strategy(dir, graphannis::corpusstorage::CacheStrategy::FixedMaxMemory(if k == 1 { 0 } else { 1000 }), kind % 2 == 0),
    }
    .map_err(|e| format!("{e:?}"))
}

fn nodes(cs: &CorpusStorage) -> Result<BTreeSet<String>, String> {
    let mut r = BTreeSet::new();
    for c in cs.list().map_err(|e| e.to_string())? {
        r.insert(format!("<{}>", c.name));
        r.extend(cs.find(sq(&[&c.name], "annis:node_name", QueryLanguage::AQL, None), 0, None, ResultOrder::NotSorted).map_err(|e| e.to_string())?.into_iter().map(|n| n.trim_start_matches("annis::node_name::").to_string()));
    }
    Ok(r)
}
fn add(cs: &CorpusStorage, n: &str) -> Result<(), String> {
    let mut u = events_to_update(&[add_node(n, "node")]);
    cs.apply_update("c", &mut u).map_err(|e| e.to_string())
}

/// vh --lock-child serve DIR  |  race DIR SEED ROUNDS LOG NAME
pub fn child(a: &[String]) -> i32 {
    let dir = PathBuf::from(&a[1]);
    if a[0] == "race" {
        let mut rng = Rng::new(a[2].parse().unwrap());
        let mut log = std::fs::OpenOptions::new().create(true).append(true).open(&a[4]).unwrap();
        for r in 0..a[3].parse::<u64>().unwrap() {
            std::thread::sleep(Duration::from_micros(rng.below(2500) as u64));
            match open(&dir, rng.next()) {
                Err(e) => {
                    log.write_all(format!("refused {e}\n").replace("\n\n", "\n").as_bytes()).unwrap();
                }
                Ok(cs) => {
                    log.write_all(format!("open {}\n", now()).as_bytes()).unwrap();
                    match nodes(&cs) {
                        Ok(n) => log.write_all(format!("seen {}\n", n.into_iter().collect::<Vec<_>>().join(" ")).as_bytes()).unwrap(),
                        Err(e) => log.write_all(format!("failed {e}\n").as_bytes()).unwrap(),
                    }
                    if rng.chance(70) {
                        let n = format!("{}-{r}", a[5]);
                        log.write_all(format!("start {n}\n").as_bytes()).unwrap();
                        match add(&cs, &n) {
                            Ok(()) => log.write_all(format!("added {n} {}\n", now()).as_bytes()).unwrap(),
                            Err(e) => log.write_all(format!("failed {e}\n").as_bytes()).unwrap(),
                        }
                    }
                    std::thread::sleep(Duration::from_micros(rng.below(3000) as u64));
                    log.write_all(format!("close {}\n", now()).as_bytes()).unwrap();
                    drop(cs);
                }
            }
        }
        log.write_all(b"end\n").unwrap();
        return 0;
    }
    let mut cs: Option<CorpusStorage> = None;
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let mut w = l.splitn(2, ' ');
        let (cmd, arg) = (w.next().unwrap(), w.next().unwrap_or(""));
        let r: Result<String, String> = match cmd {
            "open" => {
                let (kind, at) = arg.split_once(' ').unwrap();
                let at: u64 = at.parse().unwrap();
                while now() < at {
                    std::hint::spin_loop();
                }
                match open(&dir, kind.parse().unwrap()) {
                    Ok(c) => {
                        if cs.is_some() {
                            Err("HARNESS second storage".into())
                        } else {
                            cs = Some(c);
                            Ok(String::new())
                        }
                    }
                    Err(e) => Err(e),
                }
            }
            // a second time in the same process
            "again" => open(&dir, arg.parse().unwrap()).map(|_| String::new()),
            "add" => add(cs.as_ref().unwrap(), arg).map(|_| String::new()),
            "read" => nodes(cs.as_ref().unwrap()).map(|n| n.into_iter().collect::<Vec<_>>().join(" ")),
            "close" => {
                cs = None;
                Ok(String::new())
            }
            x => Err(format!("HARNESS {x}")),
        };
        let mut o = std::io::stdout().lock();
        match r {
            Ok(s) => writeln!(o, "ok {s}").unwrap(),
            Err(e) => writeln!(o, "err {}", e.replace('\n', " ")).unwrap(),
        }
        o.flush().unwrap();
    }
    0
}

struct Server {
    ch: Child,
    i: Option<ChildStdin>,
    o: BufReader<ChildStdout>,
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
    }
}
fn command(dir: &Path, delays: bool) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    if delays {
        c.env("LD_PRELOAD", verif_dir().join("target/fsshim.so")).env("FSS_DIR", dir).env("FSS_MODE", "delay").env("FSS_KINDS", "open unlink");
    }
    c
}
impl Server {
    fn new(dir: &Path, delays: bool) -> Server {
        let mut ch = command(dir, delays).args(["--lock-child", "serve"]).arg(dir).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
        let (i, o) = (ch.stdin.take(), BufReader::new(ch.stdout.take().unwrap()));
        Server { ch, i, o }
    }
    fn send(&mut self, s: &str) {
        let _ = writeln!(self.i.as_mut().unwrap(), "{s}");
        let _ = self.i.as_mut().unwrap().flush();
    }
    fn answer(&mut self) -> Result<Result<String, String>, Violation> {
        let mut l = String::new();
        let _ = self.o.read_line(&mut l);
        match l.trim_end().split_once(' ').unwrap_or((l.trim_end(), "")) {
            ("ok", x) => Ok(Ok(x.to_string())),
            ("err", x) => {
                assert!(!x.starts_with("HARNESS"), "{x}");
                Ok(Err(x.to_string()))
            }
            _ => viol("process-died", format!("answer {l:?}, {:?}", self.ch.wait())),
        }
    }
    fn ask(&mut self, s: &str) -> Result<Result<String, String>, Violation> {
        self.send(s);
        self.answer()
    }
}

type Snapshot = BTreeMap<PathBuf, Option<Vec<u8>>>;
fn snapshot(dir: &Path) -> Snapshot {
    fn go(d: &Path, r: &mut Snapshot) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                r.insert(p.clone(), None);
                go(&p, r);
            } else {
                r.insert(p.clone(), std::fs::read(&p).ok());
            }
        }
    }
    let mut r = Snapshot::new();
    go(dir, &mut r);
    r
}
/// content of all files when the background work is finished
fn quiet_snapshot(dir: &Path) -> Snapshot {
    let mut a = snapshot(dir);
    let mut same = 0;
    for _ in 0..400 {
        std::thread::sleep(Duration::from_millis(10));
        let b = snapshot(dir);
        same = if a == b { same + 1 } else { 0 };
        a = b;
        if same >= 3 {
            break;
        }
    }
    a
}

fn refused(r: &Result<String, String>) -> bool {
    matches!(r, Err(e) if e.contains("LockCorpusDirectory"))
}

/// Opening, closing, killing in a random order
fn order_case(ctx: &mut Ctx, rng: &mut Rng) -> Case {
    let scr = scratch();
    let dir = if rng.chance(30) { scr.path().join("not/yet/there") } else { scr.path().join("data") };
    let n = 3;
    let mut servers: Vec<Server> = (0..n).map(|_| Server::new(&dir, rng.chance(30))).collect();
    let mut own: Option<CorpusStorage> = None;
    // index n is this process
    let mut holder: Option<usize> = None;
    let mut content: BTreeSet<String> = BTreeSet::new();
    let mut log: Vec<String> = vec![];
    let mut changes = 0;
    let steps = rng.range(10, 25);
    for step in 0..steps {
        let what = |log: &[String]| log.join(", ");
        let kind = rng.next() >> 3;
        match (holder, rng.below(10)) {
            (None, _) => {
                let a = rng.below(n + 1);
                log.push(format!("{a} opens"));
                let r = if a == n {
                    match open(&dir, kind) {
                        Ok(c) => {
                            own = Some(c);
                            Ok(String::new())
                        }
                        Err(e) => Err(e),
                    }
                } else {
                    servers[a].ask(&format!("open {kind} 0"))?
                };
                check!(r.is_ok(), "open-failed", "{r:?}: {}", what(&log));
                holder = Some(a);
                ctx.count("opened", 1);
                let got = if a == n { nodes(own.as_ref().unwrap()) } else { servers[a].ask("read")?.map(|s| s.split_whitespace().map(|x| x.to_string()).collect()) };
                match got {
                    Ok(g) => check!(g == content, "content-differs", "{g:?} instead of {content:?}: {}", what(&log)),
                    Err(e) => return viol("read-failed", format!("{e}: {}", what(&log))),
                }
                if content.is_empty() && a == n {
                    own.as_ref().unwrap().create_empty_corpus("c", rng.chance(40)).map_err(serr)?;
                    content.insert("<c>".into());
                }
            }
            (Some(h), 0..4) => {
                // somebody else (or the holder again)
                let a = rng.below(n + 1);
                let files = rng.chance(50).then(|| quiet_snapshot(&dir));
                let r = if a == n {
                    match open(&dir, kind) {
                        Ok(_) => Ok(String::new()),
                        Err(e) => Err(e),
                    }
                } else if a == h {
                    servers[a].ask(&format!("again {kind}"))?
                } else {
                    servers[a].ask(&format!("open {kind} 0"))?
                };
                log.push(format!("{a} tries to open, {h} has it"));
                check!(r.is_err(), "second-holder", "{}", what(&log));
                check!(refused(&r), "unexpected-error", "{r:?}: {}", what(&log));
                if let Some(f) = files {
                    let g = snapshot(&dir);
                    check!(f == g, "files-changed-by-refused-open", "{:?}: {}", f.keys().chain(g.keys()).filter(|k| f.get(*k) != g.get(*k)).collect::<Vec<_>>(), what(&log));
                    ctx.count("snapshots_compared", 1);
                }
                ctx.count("refused", 1);
            }
            (Some(h), 4..7) => {
                let x = format!("n{step}");
                log.push(format!("{h} adds {x}"));
                let r = if h == n { add(own.as_ref().unwrap(), &x).map(|_| String::new()) } else { servers[h].ask(&format!("add {x}"))? };
                check!(r.is_ok(), "update-failed", "{r:?}: {}", what(&log));
                content.insert("<c>".into());
                content.insert(x);
                changes += 1;
            }
            (Some(h), _) => {
                if h == n || rng.chance(50) {
                    log.push(format!("{h} closes"));
                    if h == n {
                        own = None;
                    } else {
                        let r = servers[h].ask("close")?;
                        check!(r.is_ok(), "close-failed", "{r:?}");
                    }
                } else {
                    log.push(format!("{h} is killed"));
                    if rng.chance(40) {
                        std::thread::sleep(Duration::from_micros(rng.below(20000) as u64));
                    }
                    let _ = servers[h].ch.kill();
                    let _ = servers[h].ch.wait();
                    servers[h] = Server::new(&dir, rng.chance(30));
                    ctx.count("killed_holders", 1);
                }
                holder = None;
            }
        }
    }
    if changes > 0 {
        ctx.distinct(&log.join(","));
    }
    ctx.sample(json!({"history": log}));
    Ok(())
}

/// Several processes and threads open at the same time
fn simultaneous_case(ctx: &mut Ctx, rng: &mut Rng) -> Case {
    let scr = scratch();
    let dir = scr.path().join("data");
    let n = rng.range(2, 6);
    let delays = rng.chance(50);
    let mut servers: Vec<Server> = (0..n).map(|_| Server::new(&dir, delays)).collect();
    let mut content: BTreeSet<String> = BTreeSet::new();
    let mut winners = vec![];
    for round in 0..5 {
        let t = now() + 8_000_000;
        for s in servers.iter_mut() {
            s.send(&format!("open {} {t}", rng.next() >> 3));
        }
        let kinds: Vec<u64> = (0..rng.below(4)).map(|_| rng.next()).collect();
        let threads: Vec<Result<CorpusStorage, String>> = std::thread::scope(|s| {
            let h: Vec<_> = kinds
                .iter()
                .map(|k| {
                    let dir = &dir;
                    s.spawn(move || {
                        while now() < t {
                            std::hint::spin_loop();
                        }
                        open(dir, *k)
                    })
                })
                .collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut won = vec![];
        for (i, s) in servers.iter_mut().enumerate() {
            let r = s.answer()?;
            if r.is_ok() {
                won.push(i);
            } else {
                check!(refused(&r), "unexpected-error", "{r:?}");
            }
        }
        let (tw, te): (Vec<_>, Vec<_>) = threads.into_iter().partition(|r| r.is_ok());
        for e in te {
            let e = e.map(|_| String::new());
            check!(refused(&e), "unexpected-error", "{e:?}");
        }
        let all = won.len() + tw.len();
        check!(all <= 1, "second-holder", "{all} of {} simultaneous attempts succeeded (processes {won:?}, threads {})", n + kinds.len(), tw.len());
        // nobody closes the storage at the same time
        check!(all == 1, "nobody-opened", "all {} attempts failed", n + kinds.len());
        ctx.count("simultaneous_attempts", (n + kinds.len()) as u64);
        let x = format!("r{round}");
        content.insert("<c>".into());
        content.insert(x.clone());
        let got = if let Some(i) = won.first() {
            let r = servers[*i].ask(&format!("add {x}"))?;
            check!(r.is_ok(), "update-failed", "{r:?}");
            let r = servers[*i].ask("read")?.map(|s| s.split_whitespace().map(|x| x.to_string()).collect::<BTreeSet<_>>());
            if rng.chance(50) {
                servers[*i].ask("close")?.map_err(serr)?;
            } else {
                servers[*i] = Server::new(&dir, delays);
            }
            r
        } else {
            let cs = tw.into_iter().next().unwrap().map_err(serr)?;
            let r = add(&cs, &x);
            check!(r.is_ok(), "update-failed", "{r:?}");
            nodes(&cs)
        };
        match got {
            Ok(g) => check!(g == content, "content-differs", "{g:?} instead of {content:?}"),
            Err(e) => return viol("read-failed", e),
        }
        winners.push(won.first().copied().unwrap_or(n));
    }
    ctx.distinct(&format!("{n} {winners:?} {delays}"));
    Ok(())
}

/// Processes open and close the storage all the time, some of them are killed
fn race_case(ctx: &mut Ctx, rng: &mut Rng) -> Case {
    let scr = scratch();
    let dir = scr.path().join("data");
    {
        let cs = open(&dir, 1).map_err(serr)?;
        cs.create_empty_corpus("c", rng.chance(40)).map_err(serr)?;
    }
    let n = rng.range(3, 6);
    let rounds = rng.range(15, 40);
    let delays = rng.chance(75);
    let kills = rng.chance(50);
    let mut ch: Vec<(String, Child)> = vec![];
    let start = |rng: &mut Rng, name: String| -> (String, Child) {
        let c = command(&dir, delays)
            .args(["--lock-child", "race"])
            .arg(&dir)
            .arg(rng.next().to_string())
            .arg(rounds.to_string())
            .arg(scr.path().join(&name))
            .arg(&name)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        (name, c)
    };
    for i in 0..n {
        ch.push(start(rng, format!("p{i}")));
    }
    let mut names: Vec<String> = ch.iter().map(|c| c.0.clone()).collect();
    let mut killed: BTreeSet<String> = BTreeSet::new();
    if kills {
        for k in 0..rng.range(1, 5) {
            std::thread::sleep(Duration::from_micros(rng.range(1000, 60000) as u64));
            let i = rng.below(ch.len());
            let _ = ch[i].1.kill();
            let _ = ch[i].1.wait();
            killed.insert(ch[i].0.clone());
            let name = format!("k{k}");
            names.push(name.clone());
            ch[i] = start(rng, name);
        }
    }
    for (name, c) in &mut ch {
        let st = c.wait().unwrap();
        check!(st.success(), "process-died", "{name}: {st}");
    }
    // offline: all intervals of ownership and what was seen in them
    struct Hold {
        who: String,
        from: u64,
        to: u64,
        seen: Option<BTreeSet<String>>,
        started: Option<String>,
        added: bool,
    }
    let mut holds: Vec<Hold> = vec![];
    let mut refusals = 0u64;
    for name in &names {
        let text = std::fs::read_to_string(scr.path().join(name)).unwrap_or_default();
        if !killed.contains(name) {
            assert!(text.ends_with("end\n"), "log of {name}");
        }
        for l in text.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "open" => {
                    let t = v.parse().unwrap();
                    holds.push(Hold { who: name.clone(), from: t, to: t, seen: None, started: None, added: false });
                }
                "seen" => holds.last_mut().unwrap().seen = Some(v.split_whitespace().map(|s| s.to_string()).collect()),
                "start" => holds.last_mut().unwrap().started = Some(v.to_string()),
                "added" => {
                    let h = holds.last_mut().unwrap();
                    h.added = true;
                    h.to = v.split_once(' ').unwrap().1.parse().unwrap();
                }
                "close" => holds.last_mut().unwrap().to = v.parse().unwrap(),
                "refused" => {
                    check!(v.contains("LockCorpusDirectory"), "unexpected-error", "{name}: {v}");
                    refusals += 1;
                }
                "failed" => return viol("failed-while-open", format!("{name}: {v}")),
                _ => {}
            }
        }
    }
    holds.sort_by_key(|h| h.from);
    let mut must: BTreeSet<String> = BTreeSet::from(["<c>".to_string()]);
    let mut may: BTreeSet<String> = BTreeSet::new();
    for (i, h) in holds.iter().enumerate() {
        if i > 0 {
            let p = holds[..i].iter().max_by_key(|p| p.to).unwrap();
            check!(p.to <= h.from, "second-holder", "{} had it from {} to {}, {} from {} to {} ({n} processes, delays {delays}, kills {kills})", p.who, p.from, p.to, h.who, h.from, h.to);
        }
        if let Some(s) = &h.seen {
            let missing: Vec<_> = must.difference(s).collect();
            check!(missing.is_empty(), "content-lost", "{} does not see {missing:?}", h.who);
            let extra: Vec<_> = s.iter().filter(|x| !must.contains(*x) && !may.contains(*x)).collect();
            check!(extra.is_empty(), "content-unexpected", "{} sees {extra:?}", h.who);
            // what was seen once stays
            let decided: Vec<String> = may.iter().filter(|x| s.contains(*x)).cloned().collect();
            must.extend(decided);
            may.clear();
        }
        if let Some(x) = &h.started {
            if h.added {
                must.insert(x.clone());
            } else {
                may.insert(x.clone());
            }
        }
    }
    let cs = open(&dir, 1).map_err(|e| Violation { sig: "open-failed".into(), detail: e })?;
    let s = nodes(&cs).map_err(|e| Violation { sig: "read-failed".into(), detail: e })?;
    check!(must.is_subset(&s), "content-lost", "at the end: {:?}", must.difference(&s).collect::<Vec<_>>());
    ctx.count("ownerships", holds.len() as u64);
    ctx.count("refused", refusals);
    ctx.count("killed_processes", killed.len() as u64);
    ctx.count("handovers_between_processes", holds.windows(2).filter(|w| w[0].who != w[1].who).count() as u64);
    ctx.distinct(&holds.iter().map(|h| h.who.clone()).collect::<Vec<_>>().join(" "));
    Ok(())
}
