//! C17: concurrent requests see complete updates in a consistent order.
use crate::c13::read_xml;
use crate::c14::write_xml;
use crate::corpus::*;
use crate::gmodel::*;
use crate::rt::*;
use crate::store::*;
use graphannis::CorpusStorage;
use graphannis::corpusstorage::{ExportFormat, FrequencyDefEntry, ImportFormat, QueryLanguage, ResultOrder};
use graphannis::errors::{GraphAnnisError};
use graphannis::model::AnnotationComponentType;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::str::FromStr;
use std::sync::Barrier;
use std::sync::atomic::{AtomicU64, Ordering};

pub fn run(ctx: &mut Ctx) {
    // pauses at file operations widen the windows between them
    let so = verif_dir().join("target/fsshim.so");
    if std::env::var_os("FSS_MODE").is_none() && so.exists() {
        let base = std::env::var("VH_SCRATCH").unwrap_or_else(|_| "/dev/shm".into());
        let e = std::process::Command::new(std::env::current_exe().unwrap())
            .args(std::env::args_os().skip(1))
            .env("LD_PRELOAD", so)
            .env("FSS_MODE", "delay")
            .env("FSS_DELAYED", "1")
            .env("FSS_READS", "1")
            .env("FSS_KINDS", "open ropen unlink rename mkdir")
            .env("FSS_DIR", base)
            .exec();
        panic!("harness: exec failed: {e}");
    }
    ctx.cases("histories", ctx.n(240, 12000), case);
}

pub const NODES: usize = 4;

/// State of a corpus: applied updates and the last one
type State = Option<(BTreeSet<u16>, u16)>;

#[derive(Clone, Debug)]
enum Op {
    Update(u16),
    Create(bool),
    Delete,
    /// content, overwrite, disk
    Import(u16, bool, bool),
    Reoptimize(bool),
    Unload,
    Preload,
    Read(u8),
    List,
}

#[derive(Clone, Debug, PartialEq)]
enum Obs {
    /// write acknowledged
    Done,
    Flag(bool),
    /// corpus does not exist
    Missing,
    Exists(bool),
    /// everything
    Full(BTreeSet<u16>, u16),
    Set(BTreeSet<u16>),
    Count(usize),
    /// updates and value
    Last(Option<u16>),
    /// import refused
    Refused,
    /// no statement about the state
    Nothing,
}

#[derive(Clone, Debug)]
struct Event {
    thread: usize,
    corpus: usize,
    op: Op,
    obs: Obs,
    inv: u64,
    res: u64,
}

/// Updates with number k >= 1; the content with number k has all nodes, too
fn events(k: u16) -> Vec<U> {
    let mut r = vec![];
    let u = format!("u{k}");
    r.push(add_node(&u, "node"));
    r.push(label(&u, "", "upd", &k.to_string()));
    for i in 0..NODES {
        let n = format!("n{i}");
        r.push(add_node(&n, "node"));
        r.push(label(&n, "", "val", &k.to_string()));
        r.push(label(&n, "annis", "tok", &format!("t{k}")));
        if i > 0 {
            r.push(edge("Ordering", "annis", "", &format!("n{}", i - 1), &n));
        }
        r.push(edge("Pointing", "x", "dep", &u, &n));
        if i < 2 {
            r.push(edge("Coverage", "annis", "", &u, &n));
        }
    }
    r
}

fn full(m: &Model) -> Result<Obs, String> {
    let mut set = BTreeSet::new();
    let mut vals: BTreeSet<String> = BTreeSet::new();
    let mut n = 0;
    let key = |n: &str| ("".to_string(), n.to_string());
    for (name, l) in &m.nodes {
        let g = |k: &str| l.iter().find(|(a, _)| a.0 == key(k).0 && a.1 == k).map(|x| x.1.to_string());
        if let Some(u) = g("upd") {
            let k: u16 = u.parse().map_err(|_| format!("value {u}"))?;
            if *name != format!("u{k}") {
                return Err(format!("node {name} with update {k}"));
            }
            set.insert(k);
        } else if let Some(v) = g("val") {
            vals.insert(v);
            n += 1;
        } else if name.starts_with('u') || name.starts_with('n') {
            return Err(format!("node {name} without label"));
        }
    }
    if set.is_empty() && vals.is_empty() {
        return Ok(Obs::Full(set, 0));
    }
    if vals.len() != 1 || n != NODES {
        return Err(format!("{n} nodes with the values {vals:?}, updates {set:?}"));
    }
    let last: u16 = vals.iter().next().unwrap().parse().unwrap_or(0);
    let dep = m.edges.get(&("Pointing".into(), "x".into(), "dep".into())).map(|e| e.len()).unwrap_or(0);
    if dep != set.len() * NODES {
        return Err(format!("{dep} edges with the updates {set:?}"));
    }
    Ok(Obs::Full(set, last))
}

enum Res {
    Obs(Obs),
    /// part of an update or inconsistent
    Partial(String),
    Failed(String),
    Panic(String, String),
}

fn execute(cs: &CorpusStorage, name: &str, names: &[String], op: &Op, scr: &Path, id: u64) -> Vec<(Option<usize>, Res)> {
    let r = guarded(|| -> Result<Result<Vec<(Option<usize>, Obs)>, String>, GraphAnnisError> {
        let one = |o| Ok(Ok(vec![(None, o)]));
        let s = [name];
        let nums = |l: &Vec<String>| -> BTreeSet<u16> { l.iter().filter_map(|x| x.rsplit("upd::").next().and_then(|x| x.trim_start_matches('u').parse().ok())).collect() };
        match op {
            Op::Update(k) => {
                let mut u = events_to_update(&events(*k));
                cs.apply_update(name, &mut u)?;
                one(Obs::Done)
            }
            Op::Create(d) => one(Obs::Flag(cs.create_empty_corpus(name, *d)?)),
            Op::Delete => one(Obs::Flag(cs.delete(name)?)),
            Op::Import(k, over, disk) => {
                let f = scr.join(format!("in{k}.graphml"));
                match cs.import_from_fs(&f, ImportFormat::GraphML, Some(name.to_string()), *disk, *over, |_| {}) {
                    Ok(_) => one(Obs::Done),
                    Err(GraphAnnisError::CorpusExists(_)) => one(Obs::Refused),
                    Err(e) => Err(e),
                }
            }
            Op::Reoptimize(d) => {
                cs.reoptimize_implementation(name, *d)?;
                one(Obs::Exists(true))
            }
            Op::Unload => {
                cs.unload(name)?;
                one(Obs::Nothing)
            }
            Op::Preload => {
                cs.preload(name)?;
                one(Obs::Exists(true))
            }
            Op::List => {
                let l: BTreeSet<String> = cs.list()?.into_iter().map(|c| c.name).collect();
                Ok(Ok(names.iter().enumerate().map(|(i, n)| (Some(i), Obs::Exists(l.contains(n)))).collect()))
            }
            Op::Read(0) => {
                let g = cs.subgraph_for_query(name, "upd | val", QueryLanguage::AQL, None)?;
                let m = observe(&g, false).map_err(|v| GraphAnnisError::Io(std::io::Error::other(v.detail)))?;
                match full(&m) {
                    Ok(o) => one(o),
                    Err(e) => Ok(Err(e)),
                }
            }
            Op::Read(1) => one(Obs::Set(nums(&cs.find(sq(&s, "upd", QueryLanguage::AQL, None), 0, None, ResultOrder::Normal)?))),
            Op::Read(2) => one(Obs::Count(cs.count(sq(&s, "upd", QueryLanguage::AQL, None))? as usize)),
            Op::Read(3) => {
                let t = cs.frequency(sq(&s, "val", QueryLanguage::AQL, None), vec![FrequencyDefEntry { ns: None, name: "val".into(), node_ref: "1".into() }])?;
                let t: BTreeMap<String, usize> = t.into_iter().map(|r| (r.values[0].clone(), r.count)).collect();
                match t.len() {
                    0 => one(Obs::Last(None)),
                    1 if t.values().next() == Some(&NODES) => one(Obs::Last(t.keys().next().unwrap().parse().ok())),
                    _ => Ok(Err(format!("table {t:?}"))),
                }
            }
            Op::Read(4) => {
                let n = cs.count(sq(&s, "upd ->dep val", QueryLanguage::AQL, None))? as usize;
                if n % NODES != 0 {
                    return Ok(Err(format!("{n} edges")));
                }
                one(Obs::Count(n / NODES))
            }
            Op::Read(5) => {
                let l = cs.list_node_annotations(name, true, false)?;
                one(Obs::Set(l.iter().filter(|a| a.key.name == "upd").filter_map(|a| a.val.parse().ok()).collect()))
            }
            Op::Read(6) => {
                let f = scr.join(format!("out{id}"));
                std::fs::create_dir_all(&f)?;
                let f = f.join("x.graphml");
                cs.export_to_fs(&[name], &f, ExportFormat::GraphML)?;
                let (m, _) = read_xml(&std::fs::read_to_string(&f)?).map_err(|e| GraphAnnisError::Io(std::io::Error::other(e)))?;
                match full(&m) {
                    Ok(o) => one(o),
                    Err(e) => Ok(Err(e)),
                }
            }
            // index of the covered text and the order in one query
            Op::Read(7) => {
                let n = cs.count(sq(&s, "upd _l_ tok . tok . tok . tok", QueryLanguage::AQL, None))? as usize;
                one(Obs::Count(n))
            }
            Op::Read(8) => {
                let e = cs.count_extra(sq(&s, "tok _=_ val . val . val . val", QueryLanguage::AQL, None))?;
                if e.match_count > 1 {
                    return Ok(Err(format!("{} matches of the text", e.match_count)));
                }
                one(if e.match_count == 0 { Obs::Last(None) } else { Obs::Nothing })
            }
            Op::Read(9) => {
                let i = cs.info(name)?;
                // (exists, the rest is only an estimation)
                let _ = i.load_status;
                one(Obs::Nothing)
            }
            Op::Read(_) => {
                let c = cs.list_components(name, Some(AnnotationComponentType::Pointing), Some("dep"))?;
                one(if c.is_empty() { Obs::Nothing } else { Obs::Exists(true) })
            }
        }
    });
    match r {
        Err((l, m)) => vec![(None, Res::Panic(l, m))],
        Ok(Err(GraphAnnisError::NoSuchCorpus(_))) => vec![(None, Res::Obs(Obs::Missing))],
        Ok(Err(e)) => {
            vec![(None, Res::Failed(format!("{e} ({e:?})")))]
        }
        Ok(Ok(Err(p))) => vec![(None, Res::Partial(p))],
        Ok(Ok(Ok(l))) => l.into_iter().map(|(c, o)| (c, Res::Obs(o))).collect(),
    }
}

/// Does the observation fit to the state, and what is the next state?
fn step(s: &State, op: &Op, o: &Obs) -> Option<State> {
    let read = |b: bool| b.then(|| s.clone());
    match (op, o) {
        (Op::Update(k), Obs::Done) => {
            let (mut set, _) = s.clone().unwrap_or_default();
            set.insert(*k);
            Some(Some((set, *k)))
        }
        (Op::Create(_), Obs::Flag(new)) => (*new == s.is_none()).then(|| s.clone().or_else(|| Some((BTreeSet::new(), 0)))),
        (Op::Delete, Obs::Flag(existed)) => (*existed == s.is_some()).then_some(None),
        (Op::Import(k, over, _), Obs::Done) => (*over || s.is_none()).then(|| Some((BTreeSet::from([*k]), *k))),
        (Op::Import(_, over, _), Obs::Refused) => read(!*over && s.is_some()),
        (_, Obs::Missing) => read(s.is_none()),
        (_, Obs::Exists(b)) => read(s.is_some() == *b),
        (_, Obs::Full(set, last)) => read(s.as_ref().is_some_and(|x| x.0 == *set && x.1 == *last)),
        // annotations of a missing corpus are an empty list
        (Op::Read(5), Obs::Set(set)) if set.is_empty() && s.is_none() => read(true),
        (_, Obs::Set(set)) => read(s.as_ref().map(|x| &x.0) == Some(set)),
        (_, Obs::Count(n)) => read(s.as_ref().is_some_and(|x| x.0.len() == *n)),
        (_, Obs::Last(l)) => read(s.as_ref().is_some_and(|x| if x.1 == 0 { l.is_none() } else { *l == Some(x.1) })),
        (_, Obs::Nothing) => read(true),
        _ => None,
    }
}

/// Search for a sequential order (Wing and Gong); None if the budget is exhausted
fn linearizable(ev: &[Event], budget: &mut usize) -> Option<Result<usize, usize>> {
    assert!(ev.len() <= 192);
    let n = ev.len();
    type Mask = [u64; 3];
    let has = |m: &Mask, i: usize| m[i / 64] >> (i % 64) & 1 == 1;
    let mut seen: HashSet<(Mask, State)> = HashSet::new();
    let mut stack: Vec<(Mask, State, usize)> = vec![([0; 3], None, 0)];
    let mut deepest = 0;
    while let Some((mut m, s, mut done)) = stack.pop() {
        // reads (and requests without effect) that fit are executed at once
        loop {
            let limit = (0..n).filter(|i| !has(&m, *i)).map(|i| ev[i].res).min().unwrap_or(u64::MAX);
            let mut any = false;
            for i in 0..n {
                if !has(&m, i) && ev[i].inv < limit && step(&s, &ev[i].op, &ev[i].obs).as_ref() == Some(&s) {
                    m[i / 64] |= 1 << (i % 64);
                    done += 1;
                    any = true;
                }
            }
            if !any {
                break;
            }
        }
        deepest = deepest.max(done);
        if done == n {
            return Some(Ok(seen.len()));
        }
        if !seen.insert((m, s.clone())) {
            continue;
        }
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        let limit = (0..n).filter(|i| !has(&m, *i)).map(|i| ev[i].res).min().unwrap_or(u64::MAX);
        for i in 0..n {
            if !has(&m, i) && ev[i].inv < limit {
                // the first update creates the empty corpus in a step of its own
                if s.is_none() && matches!((&ev[i].op, &ev[i].obs), (Op::Update(_), Obs::Done)) {
                    stack.push((m, Some((BTreeSet::new(), 0)), done));
                }
                if let Some(t) = step(&s, &ev[i].op, &ev[i].obs) {
                    let mut m2 = m;
                    m2[i / 64] |= 1 << (i % 64);
                    stack.push((m2, t, done + 1));
                }
            }
        }
    }
    Some(Err(deepest))
}

fn gen_op(rng: &mut Rng, mix: usize, next: &mut u16, imports: &mut Vec<u16>) -> Op {
    let write = |next: &mut u16| {
        *next += 1;
        *next
    };
    let r = rng.below(100);
    // management of corpora only in a part of the histories
    let (upd, manage) = match mix {
        0 => (45, 0),
        1 => (25, 12),
        2 => (10, 40),
        _ => (70, 4),
    };
    if r < upd {
        Op::Update(write(next))
    } else if r < upd + manage {
        match rng.below(5) {
            0 => Op::Create(rng.chance(40)),
            1 | 2 => Op::Delete,
            _ => {
                let k = write(next);
                imports.push(k);
                Op::Import(k, rng.chance(70), rng.chance(30))
            }
        }
    } else {
        match rng.below(20) {
            0 | 1 => Op::Unload,
            2 => Op::Preload,
            3 => Op::Reoptimize(rng.chance(40)),
            4 => Op::List,
            _ => Op::Read(rng.below(11) as u8),
        }
    }
}

fn case(ctx: &mut Ctx, rng: &mut Rng) -> Case {
    let scr = scratch();
    let data = scr.path().join("data");
    let cfg = SCfg::random(rng);
    let names: Vec<String> = ["c", "d"][..rng.range(1, 2)].iter().map(|s| s.to_string()).collect();
    let threads = rng.range(2, 6);
    let mix = rng.below(4);
    let per = rng.range(4, 14);
    let delay = rng.chance(50);
    let mut next = 0;
    let mut imports = vec![];
    let valid = |t: &str| AnnotationComponentType::from_str(t).is_ok();
    // (corpus, pause before in microseconds)
    let plans: Vec<Vec<(usize, Op, u64)>> = (0..threads)
        .map(|_| {
            (0..per)
                .map(|_| {
                    let pause = if rng.chance(50) { 0 } else { rng.below(3000) as u64 };
                    (rng.below(names.len()), gen_op(rng, mix, &mut next, &mut imports), pause)
                })
                .collect()
        })
        .collect();
    for k in &imports {
        let mut m = Model::default();
        for e in events(*k) {
            m.apply(&e, &valid);
        }
        std::fs::write(scr.path().join(format!("in{k}.graphml")), write_xml(&m, None)).map_err(serr)?;
    }
    let mut cs = cfg.open(&data)?;
    let clock = AtomicU64::new(1);
    let tick = || clock.fetch_add(1, Ordering::SeqCst);
    let mut log: Vec<Event> = vec![];
    let mut bad: Vec<(usize, Op, Res)> = vec![];
    let mut record = |thread: usize, c: usize, op: &Op, inv: u64, res: u64, l: Vec<(Option<usize>, Res)>, bad: &mut Vec<(usize, Op, Res)>| {
        for (k, r) in l {
            match r {
                Res::Obs(obs) => log.push(Event { thread, corpus: k.unwrap_or(c), op: op.clone(), obs, inv, res }),
                r => bad.push((thread, op.clone(), r)),
            }
        }
    };
    // often there is already something
    for (c, n) in names.iter().enumerate() {
        if rng.chance(70) {
            next += 1;
            let mut ops = vec![Op::Update(next)];
            if rng.chance(40) {
                ops.insert(0, Op::Create(rng.chance(50)));
            }
            if rng.chance(30) {
                ops.push(Op::Reoptimize(rng.chance(50)));
            }
            for op in ops {
                let inv = tick();
                let r = execute(&cs, n, &names, &op, scr.path(), inv);
                record(99, c, &op, inv, tick(), r, &mut bad);
            }
        }
    }
    if rng.chance(40) {
        drop(cs);
        cs = cfg.open(&data)?;
    }
    let barrier = Barrier::new(threads);
    crate::crash::arm(delay);
    let results: Vec<Vec<(usize, Op, u64, u64, Vec<(Option<usize>, Res)>)>> = std::thread::scope(|s| {
        let (cs, names, scr, barrier, tick) = (&cs, &names, scr.path(), &barrier, &tick);
        let hs: Vec<_> = plans
            .iter()
            .map(|p| {
                s.spawn(move || {
                    barrier.wait();
                    p.iter()
                        .map(|(c, op, pause)| {
                            if *pause > 0 {
                                std::thread::sleep(std::time::Duration::from_micros(*pause));
                            }
                            let inv = tick();
                            let r = execute(cs, &names[*c], names, op, scr, inv);
                            (*c, op.clone(), inv, tick(), r)
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    crate::crash::arm(false);
    for (t, l) in results.into_iter().enumerate() {
        for (c, op, inv, res, r) in l {
            record(t, c, &op, inv, res, r, &mut bad);
        }
    }
    // what is there in the end, also after a restart
    for round in 0..2 {
        for (c, n) in names.iter().enumerate() {
            for op in [Op::Read(0), Op::List, Op::Read(7), Op::Read(5)] {
                let inv = tick();
                let r = execute(&cs, n, &names, &op, scr.path(), inv);
                record(100 + round, c, &op, inv, tick(), r, &mut bad);
            }
        }
        if round == 0 {
            drop(cs);
            cs = cfg.open(&data)?;
        }
    }
    drop(cs);
    log.sort_by_key(|e| e.inv);
    let show = |c: usize| -> String {
        format!("{cfg:?}, delay {delay}, {threads} threads: ", ) + &log.iter().filter(|e| e.corpus == c).map(|e| format!("{}:{}-{} {:?}={:?}", e.thread, e.inv, e.res, e.op, e.obs)).collect::<Vec<_>>().join("; ")
    };
    if let Some((t, op, r)) = bad.into_iter().next() {
        let (sig, d) = match r {
            Res::Partial(p) => ("partial-update".to_string(), p),
            Res::Failed(e) => (format!("failed:{}", format!("{op:?}").split('(').next().unwrap()), e),
            Res::Panic(l, m) => (format!("panic:{}", short_loc(&l)), m),
            Res::Obs(_) => unreachable!(),
        };
        return viol(sig, format!("{d}; {op:?} by {t}; {}; {}", show(0), if names.len() > 1 { show(1) } else { "".into() }));
    }
    let mut overlapping = 0;
    for c in 0..names.len() {
        let ev: Vec<Event> = log.iter().filter(|e| e.corpus == c).cloned().collect();
        overlapping += ev.iter().enumerate().map(|(i, a)| ev[..i].iter().filter(|b| b.res > a.inv).count()).sum::<usize>();
        let mut budget = 200_000;
        match linearizable(&ev, &mut budget) {
            None => ctx.count("undecided_histories", 1),
            Some(Ok(states)) => {
                ctx.count("linearized_histories", 1);
                ctx.max("states_of_search", states as u64);
            }
            Some(Err(d)) => return viol("no-sequential-order", format!("only {d} of {} requests fit: {}", ev.len(), show(c))),
        }
    }
    ctx.count("requests", log.len() as u64);
    ctx.count("overlapping_pairs", overlapping as u64);
    if overlapping > 3 {
        // the observed interleaving
        ctx.distinct(&log.iter().map(|e| format!("{}{:?}{:?}{}", e.thread, e.op, e.obs, e.inv)).collect::<String>());
    }
    ctx.sample(json!({"config": format!("{cfg:?}"), "threads": threads, "delay": delay, "history": log.iter().take(25).map(|e| format!("{}:{}-{} {} {:?} {:?}", e.thread, e.inv, e.res, names[e.corpus], e.op, e.obs)).collect::<Vec<_>>()}));
    Ok(())
}
