//! C23: a program in C under memory checkers gets the same answers as the library.
use crate::aql::*;
use crate::c05::few_paths;
use crate::corpus::*;
use crate::gmodel::*;
use crate::rt::*;
use crate::store::*;
use graphannis::corpusstorage::*;
use graphannis::errors::GraphAnnisError;
use graphannis::model::{AnnotationComponent, AnnotationComponentType as CT};
use graphannis::update::UpdateEvent;
use graphannis::{AnnotationGraph, CorpusStorage};
use serde_json::json;
use std::collections::BTreeMap;
use std::io::Write;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn run(ctx: &mut Ctx) {
    ctx.cases("asan", ctx.n(280, 6000), |c, r| case(c, r, false));
    ctx.cases("valgrind", ctx.n(16, 400), |c, r| case(c, r, true));
}

const TYPES: [CT; 7] = [CT::Coverage, CT::Dominance, CT::Pointing, CT::Ordering, CT::LeftToken, CT::RightToken, CT::PartOf];
const ORDERS: [ResultOrder; 4] = [ResultOrder::Normal, ResultOrder::Inverted, ResultOrder::Randomized, ResultOrder::NotSorted];
const NODE_TYPES: [&str; 4] = ["node", "corpus", "datasource", "file"];
/// additional edges, which depend on the order of the matches for subgraphs of queries
const GAP: &str = "datasource-gap";
/// value of the types in the header
fn tnum(t: CT) -> usize {
    match t {
        CT::Coverage => 0,
        CT::Dominance => 2,
        CT::Pointing => 3,
        CT::Ordering => 4,
        CT::LeftToken => 5,
        CT::RightToken => 6,
        CT::PartOf => 7,
    }
}

/// What the driver has to print for a command
enum Exp {
    Lines(Vec<String>),
    /// any order
    Bag(Vec<String>),
    /// words after the first in any order
    Words(String),
    /// only the number of matches
    Len(usize),
    /// part of the dump of a graph (number of the type, content)
    /// and if the edges over gaps are compared
    Graph(usize, Model, Vec<String>, bool),
    Any,
}
type Errs = Vec<(String, String)>;

struct Job {
    script: Vec<String>,
    exp: Vec<(Exp, Option<Errs>)>,
    rng: Rng,
    /// errors are not requested
    noerr: usize,
}
fn hex(b: &[u8]) -> String {
    if b.is_empty() { "=".into() } else { b.iter().map(|b| format!("{b:02x}")).collect() }
}
fn h(s: &str) -> String {
    hex(s.as_bytes())
}
/// how a string gets to C: strings with a null character are empty
fn c(s: &str) -> String {
    if s.contains('\0') { "=".into() } else { h(s) }
}
fn errs(e: &GraphAnnisError) -> Errs {
    let kind: &'static str = e.into();
    let mut l = vec![(kind.to_string(), e.to_string())];
    let mut x = std::error::Error::source(e);
    while let Some(s) = x {
        l.push(("Cause".into(), s.to_string()));
        x = s.source();
    }
    l
}
impl Job {
    fn cmd(&mut self, line: String, e: Exp) {
        self.script.push(line);
        self.exp.push((e, Some(vec![])));
    }
    /// command that can fail: expected lines for success and failure
    fn ask<T>(&mut self, line: String, r: &Result<T, GraphAnnisError>, ok: impl FnOnce(&T) -> Exp, fail: &str) {
        let silent = self.rng.chance(self.noerr);
        self.script.push(format!("{line}{}", if silent { " noerr" } else { " err" }));
        let l = match r {
            Ok(v) => (ok(v), vec![]),
            Err(e) => (Exp::Lines(if fail.is_empty() { vec![] } else { vec![fail.into()] }), errs(e)),
        };
        self.exp.push((l.0, Some(if silent { vec![] } else { l.1 })));
    }
}
fn bool_line<T>(_: &T) -> Exp {
    Exp::Lines(vec!["1".into()])
}

fn names_line(v: &[String]) -> String {
    let mut l = v.len().to_string();
    for x in v {
        l += " ";
        l += &c(x);
    }
    l
}

fn event_cmd(u: usize, e: &UpdateEvent) -> String {
    let (name, a): (&str, Vec<&String>) = match e {
        UpdateEvent::AddNode { node_name, node_type } => ("an", vec![node_name, node_type]),
        UpdateEvent::DeleteNode { node_name } => ("dn", vec![node_name]),
        UpdateEvent::AddNodeLabel { node_name, anno_ns, anno_name, anno_value } => ("al", vec![node_name, anno_ns, anno_name, anno_value]),
        UpdateEvent::DeleteNodeLabel { node_name, anno_ns, anno_name } => ("dl", vec![node_name, anno_ns, anno_name]),
        UpdateEvent::AddEdge { source_node, target_node, layer, component_type, component_name } => ("ae", vec![source_node, target_node, layer, component_type, component_name]),
        UpdateEvent::DeleteEdge { source_node, target_node, layer, component_type, component_name } => ("de", vec![source_node, target_node, layer, component_type, component_name]),
        UpdateEvent::AddEdgeLabel { source_node, target_node, layer, component_type, component_name, anno_ns, anno_name, anno_value } => {
            ("ael", vec![source_node, target_node, layer, component_type, component_name, anno_ns, anno_name, anno_value])
        }
        UpdateEvent::DeleteEdgeLabel { source_node, target_node, layer, component_type, component_name, anno_ns, anno_name } => {
            ("del", vec![source_node, target_node, layer, component_type, component_name, anno_ns, anno_name])
        }
    };
    format!("{name} {u} {}", a.iter().map(|x| h(x)).collect::<Vec<_>>().join(" "))
}

fn has_nul(e: &UpdateEvent) -> bool {
    format!("{e:?}").contains("\\0")
}

fn case(ctx: &mut Ctx, rng: &mut Rng, valgrind: bool) -> Case {
    let scr = scratch();
    // same length, so that messages differ only in the path
    let (da, db) = (scr.path().join("lib"), scr.path().join("cpi"));
    for d in [&da, &db] {
        std::fs::create_dir(d).map_err(serr)?;
        std::fs::create_dir(d.join("x")).map_err(serr)?;
    }
    let pc = |p: &str| h(&db.join(p).to_string_lossy());
    let cfg = SCfg { percent: false, ..SCfg::random(rng) };
    let mut j = Job { script: vec![], exp: vec![], rng: Rng::new(rng.next()), noerr: *rng.pick(&[0, 15, 100]) };
    let mut cs: Option<CorpusStorage> = Some(cfg.open(&da.join("data"))?);
    j.cmd(format!("open 0 {} {} {}", pc("data"), cfg.cache, cfg.parallel as u8), Exp::Lines(vec!["1".into()]));
    let gc = Cfg {
        docs: (1, 2),
        toks: (0, if valgrind { 4 } else { 9 }),
        hostile: rng.chance(40),
        ..Default::default()
    };
    let corpora: Vec<String> = rng.pick(&[vec!["a"], vec!["a", "b"], vec!["Kör pus/%", "b"]]).iter().map(|s| s.to_string()).collect();
    let mut model: BTreeMap<String, Model> = BTreeMap::new();
    let valid = |t: &str| <CT as std::str::FromStr>::from_str(t).is_ok();
    let mut infos = BTreeMap::new();
    for n in &corpora {
        let (e, info) = gen_corpus(rng, "root", &gc);
        infos.insert(n.clone(), info);
        if e.iter().any(has_nul) {
            continue;
        }
        let mut m = Model::default();
        j.cmd("unew 0".into(), Exp::Lines(vec![]));
        for x in &e {
            m.apply(x, &valid);
            j.cmd(event_cmd(0, x), Exp::Lines(vec![]));
        }
        if !few_paths(&m) {
            return Ok(());
        }
        let r = cs.as_ref().unwrap().apply_update(n, &mut events_to_update(&e));
        j.ask(format!("apply 0 0 {}", h(n)), &r, |_| Exp::Lines(vec![]), "");
        j.cmd("ufree 0".into(), Exp::Lines(vec![]));
        model.insert(n.clone(), m);
    }
    // objects of the caller
    let mut vecs: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    let mut graphs: BTreeMap<usize, (AnnotationGraph, bool)> = BTreeMap::new();
    let mut freqs: BTreeMap<usize, FrequencyTable<String>> = BTreeMap::new();
    let mut mats: BTreeMap<usize, Vec<[String; 3]>> = BTreeMap::new();
    let mut comps: BTreeMap<usize, Vec<AnnotationComponent>> = BTreeMap::new();
    let mut descs: BTreeMap<usize, Vec<QueryAttributeDescription>> = BTreeMap::new();
    let mut exported: Vec<String> = vec![];
    let steps = if valgrind { 14 } else { rng.range(10, 60) };
    let mut kinds = std::collections::BTreeSet::new();
    for step in 0..steps {
        // a corpus that exists, mostly
        let corpus = if rng.chance(88) { rng.pick(&corpora).clone() } else { rng.pick(&["missing", "", "a/../b", "b "]).to_string() };
        let corpus_arg = if corpus.is_empty() && rng.chance(50) { "-".to_string() } else { h(&corpus) };
        let m = model.get(&corpus).cloned().unwrap_or_default();
        let q = match rng.below(12) {
            0 => rng.pick(&["tok &", "", "x=\"", "#1 . #2", "tok . tok . ", "node=", "\u{fffd}", "a:b:c", "tok=/[/"]).to_string(),
            1 => "node".into(),
            2 => "tok | node".into(),
            _ if m.nodes.is_empty() => "tok".into(),
            _ => gen_query(rng, &Pools::new(&m), 2, true).text,
        };
        if q.contains('\0') {
            continue;
        }
        let (lang, ln) = if rng.chance(12) { (QueryLanguage::AQLQuirksV3, 1) } else { (QueryLanguage::AQL, 0) };
        // selection of corpora as a vector of strings
        let sel: Vec<String> = match rng.below(5) {
            0 => corpora.clone(),
            1 if rng.chance(30) => vec![],
            _ => vec![corpus.clone()],
        };
        let slot = rng.below(6);
        let op = rng.below(30);
        if (2..=9).contains(&op) {
            j.cmd("vnew 15".into(), Exp::Lines(vec![]));
            for x in &sel {
                j.cmd(format!("vpush 15 {}", if x.is_empty() && rng.chance(50) { "-".into() } else { h(x) }), Exp::Lines(vec![]));
            }
        }
        if cs.is_none() && op < 26 {
            // reopen; sometimes the same directory a second time
            let r = CorpusStorage::with_cache_strategy(&da.join("data"), CacheStrategy::FixedMaxMemory(cfg.cache), cfg.parallel);
            j.ask(format!("open 0 {} {} {}", pc("data"), cfg.cache, cfg.parallel as u8), &r, bool_line, "0");
            cs = Some(r.map_err(serr)?);
        }
        let s = cs.as_ref();
        kinds.insert(op);
        match op {
            0 => {
                // update of an existing (or new) corpus
                let ev = if let (Some(i), true) = (infos.get_mut(&corpus), rng.chance(70)) { gen_edit(rng, &gc, i, &m).0 } else { vec![add_node("root/n", "node"), edge("Nonsense", "", "", "root/n", "x"), del_node("gone")] };
                if ev.iter().any(has_nul) || (corpus.is_empty() && rng.chance(90)) {
                    continue;
                }
                let mut m2 = m.clone();
                for e in &ev {
                    m2.apply(e, &valid);
                }
                if !few_paths(&m2) {
                    continue;
                }
                j.cmd("unew 1".into(), Exp::Lines(vec![]));
                for e in &ev {
                    j.cmd(event_cmd(1, e), Exp::Lines(vec![]));
                }
                let r = s.unwrap().apply_update(&corpus, &mut events_to_update(&ev));
                j.ask(format!("apply 0 1 {corpus_arg}"), &r, |_| Exp::Lines(vec![]), "");
                if r.is_ok() {
                    model.insert(corpus.clone(), m2);
                }
                // an update that is never applied
                if rng.chance(20) {
                    j.cmd(event_cmd(1, &add_node("later", "node")), Exp::Lines(vec![]));
                }
                j.cmd("ufree 1".into(), Exp::Lines(vec![]));
            }
            1 => {
                // strings are bytes
                let b: Vec<u8> = (0..rng.below(6)).map(|_| *rng.pick(&[b'a', b' ', 0xff, 0xc3, 0xb6, b'%', 0xe2, 0x82])).collect();
                let v = vecs.entry(slot).or_insert_with(|| {
                    j.cmd(format!("vnew {slot}"), Exp::Lines(vec![]));
                    vec![]
                });
                v.push(String::from_utf8_lossy(&b).to_string());
                j.cmd(format!("vpush {slot} {}", hex(&b)), Exp::Lines(vec![]));
                j.cmd(format!("vdump {slot}"), Exp::Lines(vec![names_line(v)]));
            }
            2 => {
                let r = s.unwrap().count(sq(&sel, &q, lang, None));
                j.ask(format!("count 0 15 {} {ln}", h(&q)), &r, |n| Exp::Lines(vec![n.to_string()]), "0");
            }
            3 => {
                let r = s.unwrap().count_extra(sq(&sel, &q, lang, None));
                j.ask(format!("extra 0 15 {} {ln}", h(&q)), &r, |n| Exp::Lines(vec![format!("{} {}", n.match_count, n.document_count)]), "0 0");
            }
            4..=6 => {
                let offset = if rng.chance(50) { 0 } else { rng.below(8) };
                let limit = match rng.below(4) {
                    0 => Some(usize::MAX >> rng.below(2)),
                    1 | 2 => Some(rng.below(10)),
                    _ => None,
                };
                let o = if rng.chance(60) { 0 } else { rng.below(4) };
                let r = s.unwrap().find(sq(&sel, &q, lang, None), offset, limit, ORDERS[o]);
                let cmd = format!("find 0 15 {} {ln} {offset} {} {o} {slot}", h(&q), limit.map(|l| l.to_string()).unwrap_or("-".into()));
                if vecs.remove(&slot).is_some() {
                    j.cmd(format!("vfree {slot}"), Exp::Lines(vec![]));
                }
                // the order of the corpora is random, too
                if o == 2 && r.is_err() && sel.len() > 1 {
                    j.cmd(cmd, Exp::Any);
                    j.exp.last_mut().unwrap().1 = None;
                    j.cmd(format!("vfree {slot}"), Exp::Lines(vec![]));
                    j.cmd("vfree 15".into(), Exp::Lines(vec![]));
                    continue;
                }
                let whole = offset == 0 && limit.is_none_or(|l| l > 1_000_000);
                j.ask(
                    cmd,
                    &r,
                    |v| match o {
                        2 | 3 if !whole => Exp::Len(v.len()),
                        2 | 3 => Exp::Words(names_line(v)),
                        _ => Exp::Lines(vec![names_line(v)]),
                    },
                    "null",
                );
                if let Ok(v) = r
                    && o < 2
                {
                    vecs.insert(slot, v);
                }
            }
            7 => {
                let r = s.unwrap().validate_query(&sel, &q, lang);
                j.ask(format!("validate 0 15 {} {ln}", h(&q)), &r, |b| Exp::Lines(vec![(*b as u8).to_string()]), "0");
            }
            8 => {
                // also entries which are not valid
                let def = rng.pick(&["1:tok", "1:annis:node_type,1:tok", "2:tok,1:pos", "nonsense,1:lemma", "", "1:", "1:x,1:annis:tok", "9:tok,1:tok"]).to_string();
                let entries: Vec<FrequencyDefEntry> = def.split(',').filter_map(|d| d.parse().ok()).collect();
                let r = s.unwrap().frequency(sq(&sel, &q, lang, None), entries);
                j.ask(format!("freq {slot} 0 15 {} {ln} {}", h(&q), h(&def)), &r, bool_line, "0");
                freqs.remove(&slot);
                if let Ok(t) = r {
                    freqs.insert(slot, t);
                }
            }
            9 => {
                let n = step;
                // only one corpus in a plain file
                let f = [ExportFormat::GraphML, ExportFormat::GraphMLZip, ExportFormat::GraphMLDirectory][rng.below(3)];
                let fnum = match f {
                    ExportFormat::GraphML => 0,
                    ExportFormat::GraphMLZip => 1,
                    ExportFormat::GraphMLDirectory => 2,
                };
                let name = match fnum {
                    0 => format!("x/e{n}.graphml"),
                    1 => format!("x/e{n}.zip"),
                    _ => format!("x/e{n}"),
                };
                let r = s.unwrap().export_to_fs(&sel, &da.join(&name), f);
                j.ask(format!("export 0 15 {} {fnum}", pc(&name)), &r, |_| Exp::Lines(vec![]), "");
                if r.is_ok() && fnum == 0 && sel.len() == 1 {
                    exported.push(name);
                }
            }
            10 | 11 => {
                let file = if rng.chance(85) && !exported.is_empty() { rng.pick(&exported).clone() } else { "x/none.graphml".into() };
                let name = match rng.below(3) {
                    0 => None,
                    1 => Some(rng.pick(&corpora).clone()),
                    _ => Some("new".to_string()),
                };
                let (disk, over) = (rng.chance(30), rng.chance(70));
                let (fmt, fnum) = if rng.chance(90) { (ImportFormat::GraphML, 1) } else { (ImportFormat::RelANNIS, 0) };
                let r = s.unwrap().import_from_fs(&da.join(&file), fmt, name.clone(), disk, over, |_| ());
                let nm = name.map(|n| h(&n)).unwrap_or("-".into());
                j.ask(format!("import 0 {} {fnum} {nm} {} {}", pc(&file), disk as u8, over as u8), &r, |n| Exp::Lines(vec![format!(" {}", c(n))]), " -");
                if let Ok(n) = r {
                    model.remove(&n);
                    let g = s.unwrap().subgraph_for_query(&n, "node", QueryLanguage::AQL, None);
                    if let Ok(g) = g {
                        model.insert(n, observe(&g, false)?);
                    }
                }
            }
            12 => {
                let ids: Vec<String> = match vecs.get(&slot) {
                    Some(v) if !v.is_empty() && rng.chance(60) => v.clone(),
                    _ => {
                        let k = rng.below(3);
                        let extra = rng.chance(15);
                        (0..k).filter_map(|_| m.nodes.keys().nth(rng.below(m.nodes.len().max(1))).cloned()).chain(extra.then(|| "salt::x::nothing".to_string())).collect()
                    }
                };
                if ids.iter().any(|i| i.contains('\0')) {
                    continue;
                }
                j.cmd("vnew 14".into(), Exp::Lines(vec![]));
                for x in &ids {
                    j.cmd(format!("vpush 14 {}", h(x)), Exp::Lines(vec![]));
                }
                let (l, r) = (*rng.pick(&[0, 1, 3, usize::MAX]), *rng.pick(&[0, 1, 5, usize::MAX]));
                let seg = rng.pick(&[None, None, Some("seg0".to_string()), Some("nothing".into()), Some("".into())]).clone();
                let rs = s.unwrap().subgraph(&corpus, ids.clone(), l, r, seg.clone());
                j.ask(format!("subgraph {slot} 0 {corpus_arg} 14 {l} {r} {}", seg.map(|s| h(&s)).unwrap_or("-".into())), &rs, bool_line, "0");
                j.cmd("vfree 14".into(), Exp::Lines(vec![]));
                graphs.remove(&slot);
                if let Ok(g) = rs {
                    graphs.insert(slot, (g, true));
                }
            }
            13 => {
                let ids: Vec<String> = (0..rng.below(3)).map(|_| rng.pick(&["root", "root/d0", "root/doc0", "nothing"]).to_string()).collect();
                j.cmd("vnew 14".into(), Exp::Lines(vec![]));
                for x in &ids {
                    j.cmd(format!("vpush 14 {}", h(x)), Exp::Lines(vec![]));
                }
                let r = s.unwrap().subcorpus_graph(&corpus, ids);
                j.ask(format!("subcorpus {slot} 0 {corpus_arg} 14"), &r, bool_line, "0");
                j.cmd("vfree 14".into(), Exp::Lines(vec![]));
                graphs.remove(&slot);
                if let Ok(g) = r {
                    graphs.insert(slot, (g, false));
                }
            }
            14 => {
                let r = s.unwrap().corpus_graph(&corpus);
                j.ask(format!("corpusgraph {slot} 0 {corpus_arg}"), &r, bool_line, "0");
                graphs.remove(&slot);
                if let Ok(g) = r {
                    graphs.insert(slot, (g, false));
                }
            }
            15 | 16 => {
                let t = rng.below(7);
                let r = s.unwrap().subgraph_for_query(&corpus, &q, lang, (op == 16).then(|| TYPES[t].clone()));
                j.ask(
                    if op == 15 { format!("querygraph {slot} 0 {corpus_arg} {} {ln}", h(&q)) } else { format!("querygraphtype {slot} 0 {corpus_arg} {} {ln} {t}", h(&q)) },
                    &r,
                    bool_line,
                    "0",
                );
                graphs.remove(&slot);
                // the additional edges over gaps depend on the order of the matches
                if let Ok(g) = r {
                    graphs.insert(slot, (g, false));
                }
            }
            17 => {
                let r = s.unwrap().list();
                if vecs.remove(&slot).is_some() {
                    j.cmd(format!("vfree {slot}"), Exp::Lines(vec![]));
                }
                let l: Vec<String> = r.as_ref().map(|l| l.iter().map(|i| i.name.clone()).collect()).unwrap_or_default();
                j.ask(format!("list 0 {slot}"), &r, |_| Exp::Words(names_line(&l)), "null");
                j.cmd(format!("vfree {slot}"), Exp::Lines(vec![]));
            }
            18 | 19 => {
                let (v, f) = (rng.chance(60), rng.chance(40));
                // ties between values are open
                let f = f && v && false || (f && !v);
                let key = |a: graphannis::graph::Annotation| [a.key.ns.to_string(), a.key.name.to_string(), a.val.to_string()];
                let r = if op == 18 {
                    let r = s.unwrap().list_node_annotations(&corpus, v, f);
                    j.ask(format!("nodeannos {slot} 0 {corpus_arg} {} {}", v as u8, f as u8), &r, bool_line, "0");
                    r
                } else {
                    let all = s.unwrap().list_components(&corpus, None, None).unwrap_or_default();
                    let comp = if all.is_empty() || rng.chance(15) { AnnotationComponent::new(CT::Pointing, "x".into(), "y".into()) } else { rng.pick(&all).clone() };
                    if comp.layer.contains('\0') || comp.name.contains('\0') {
                        continue;
                    }
                    let t = TYPES.iter().position(|t| *t == comp.get_type()).unwrap();
                    let r = s.unwrap().list_edge_annotations(&corpus, &comp, v, f);
                    j.ask(format!("edgeannos {slot} 0 {corpus_arg} {t} {} {} {} {}", h(&comp.name), h(&comp.layer), v as u8, f as u8), &r, bool_line, "0");
                    r
                };
                mats.remove(&slot);
                if let Ok(l) = r {
                    mats.insert(slot, l.into_iter().map(key).collect());
                }
            }
            20 => {
                let t = rng.below(7);
                let r = s.unwrap().list_components(&corpus, Some(TYPES[t].clone()), None);
                j.ask(format!("components {slot} 0 {corpus_arg} {t}"), &r, bool_line, "0");
                comps.remove(&slot);
                if let Ok(l) = r {
                    comps.insert(slot, l);
                }
            }
            21 => {
                let r = s.unwrap().node_descriptions(&q, lang);
                j.ask(format!("descr {slot} 0 {} {ln}", h(&q)), &r, bool_line, "0");
                descs.remove(&slot);
                if let Ok(l) = r {
                    descs.insert(slot, l);
                }
            }
            22 => {
                let r = s.unwrap().unload(&corpus);
                j.ask(format!("unload 0 {corpus_arg}"), &r, |_| Exp::Lines(vec![]), "");
            }
            23 if rng.chance(50) => {
                let r = s.unwrap().delete(&corpus);
                j.ask(format!("delete 0 {corpus_arg}"), &r, |b| Exp::Lines(vec![(*b as u8).to_string()]), "0");
                if r.is_ok() {
                    model.remove(&corpus);
                }
            }
            23 => {
                // a second storage with the same directory is refused
                let r = CorpusStorage::with_cache_strategy(&da.join("data"), CacheStrategy::FixedMaxMemory(cfg.cache), cfg.parallel).map(|_| ());
                j.ask(format!("open 1 {} 1000 0", pc("data")), &r, bool_line, "0");
                if r.is_ok() {
                    return viol("harness:second-storage", "second storage opened");
                }
            }
            24 => j.cmd("nulls".into(), Exp::Lines(vec![])),
            25 => {
                let r = CorpusStorage::with_auto_cache_size(&da.join("auto"), true).map(|_| ());
                j.ask(format!("openauto 2 {} 1", pc("auto")), &r, bool_line, "0");
                j.cmd("close 2".into(), Exp::Lines(vec![]));
            }
            // the storage is closed while its results are still in use
            26 => {
                if cs.take().is_some() {
                    j.cmd("close 0".into(), Exp::Lines(vec![]));
                }
            }
            _ => {}
        }
        if (2..=9).contains(&op) {
            j.cmd("vfree 15".into(), Exp::Lines(vec![]));
        }
        // look at the objects now or later
        if rng.chance(60) || step + 1 == steps {
            let last = step + 1 == steps;
            let free = move |rng: &mut Rng| last || rng.chance(40);
            for k in 0..6 {
                if !last && k != slot && rng.chance(80) {
                    continue;
                }
                if let Some(v) = vecs.get(&k) {
                    j.cmd(format!("vdump {k}"), Exp::Lines(vec![names_line(v)]));
                    if free(rng) {
                        j.cmd(format!("vfree {k}"), Exp::Lines(vec![]));
                        vecs.remove(&k);
                    }
                }
                if let Some((g, gaps)) = graphs.get(&k) {
                    let mut om = observe(g, true)?.normalized();
                    if !gaps {
                        om.edges.retain(|k, _| k.2 != GAP);
                    }
                    for (i, t) in NODE_TYPES.iter().enumerate() {
                        let mut cl = vec![];
                        for ty in TYPES {
                            for c2 in g.get_all_components(Some(ty.clone()), None) {
                                cl.push(format!("c {} {} {} {}", tnum(ty.clone()), tnum(c2.get_type()), c(&c2.layer), c(&c2.name)));
                            }
                        }
                        j.cmd(format!("gdump {k} {}", h(t)), Exp::Graph(i, om.clone(), cl, *gaps));
                    }
                    if free(rng) {
                        j.cmd(format!("gfree {k}"), Exp::Lines(vec![]));
                        graphs.remove(&k);
                    }
                }
                if let Some(t) = freqs.get(&k) {
                    let mut l = vec![format!("{} {}", t.len(), t.first().map(|r| r.values.len()).unwrap_or(0))];
                    for r in t {
                        l.push(format!("r {}{}", r.count, r.values.iter().map(|v| format!(" {}", c(v))).collect::<String>()));
                    }
                    j.cmd(format!("fdump {k}"), Exp::Bag(l));
                    if free(rng) {
                        j.cmd(format!("ffree {k}"), Exp::Lines(vec![]));
                        freqs.remove(&k);
                    }
                }
                if let Some(t) = mats.get(&k) {
                    // entries with a null character are left out
                    let t: Vec<&[String; 3]> = t.iter().filter(|r| r.iter().all(|x| !x.contains('\0'))).collect();
                    let mut l = vec![format!("{} {}", t.len(), if t.is_empty() { 0 } else { 3 })];
                    for r in t {
                        l.push(format!("r {} {} {}", h(&r[0]), h(&r[1]), h(&r[2])));
                    }
                    j.cmd(format!("mdump {k}"), Exp::Bag(l));
                    if free(rng) {
                        j.cmd(format!("mfree {k}"), Exp::Lines(vec![]));
                        mats.remove(&k);
                    }
                }
                if let Some(t) = comps.get(&k) {
                    let l = t.iter().map(|x| format!("c {} {} {}", tnum(x.get_type()), c(&x.layer), c(&x.name))).collect();
                    j.cmd(format!("cdump {k}"), Exp::Bag(l));
                    if free(rng) {
                        j.cmd(format!("cfree {k}"), Exp::Lines(vec![]));
                        comps.remove(&k);
                    }
                }
                if let Some(t) = descs.get(&k) {
                    let l = t.iter().map(|d| format!("q {} {} {} {}", d.alternative, c(&d.query_fragment), c(&d.variable), d.anno_name.as_ref().map(|a| c(a)).unwrap_or("-".into()))).collect();
                    j.cmd(format!("qdump {k}"), Exp::Lines(l));
                    if free(rng) {
                        j.cmd(format!("qfree {k}"), Exp::Lines(vec![]));
                        descs.remove(&k);
                    }
                }
            }
        }
    }
    if cs.take().is_some() {
        j.cmd("close 0".into(), Exp::Lines(vec![]));
    }
    // what the program left on disk is readable
    let out = run_driver(&j.script, scr.path(), valgrind)?;
    judge(ctx, &j, &out, &da.to_string_lossy(), &db.to_string_lossy())?;
    let mut names = vec![];
    for d in [&da, &db] {
        let s = cfg.open(&d.join("data"))?;
        let mut l: Vec<(String, Model)> = vec![];
        for i in s.list().map_err(serr)? {
            let g = s.subgraph_for_query(&i.name, "node", QueryLanguage::AQL, None).map_err(serr)?;
            l.push((i.name.clone(), observe(&g, false)?.normalized()));
        }
        l.sort_by(|a, b| a.0.cmp(&b.0));
        names.push(l);
    }
    for (a, b) in names[0].iter().zip(&names[1]) {
        if a.0 != b.0 {
            return viol("stored-corpora", format!("{} instead of {}", b.0, a.0));
        }
        if let Some(d) = a.1.diff(&b.1) {
            return viol("stored-content", format!("{}: {d}", a.0));
        }
    }
    if names[0].len() != names[1].len() {
        return viol("stored-corpora", format!("{} instead of {} corpora", names[1].len(), names[0].len()));
    }
    ctx.count("commands", j.script.len() as u64);
    ctx.count("failing_commands", j.exp.iter().filter(|e| e.1.as_ref().is_some_and(|l| !l.is_empty())).count() as u64);
    if valgrind {
        ctx.count("commands_under_valgrind", j.script.len() as u64);
    }
    ctx.distinct(&format!("{:?}", j.script));
    ctx.sample(json!({"valgrind": valgrind, "kinds": format!("{kinds:?}"), "script": j.script.iter().rev().take(20).rev().collect::<Vec<_>>()}));
    Ok(())
}

fn run_driver(script: &[String], dir: &std::path::Path, valgrind: bool) -> Result<String, Violation> {
    let base = verif_dir().join("target/capi");
    let mut cmd = if valgrind {
        let mut c = Command::new("valgrind");
        c.args(["-q", "--error-exitcode=99", "--leak-check=no", "--fair-sched=yes"]).arg(base.join("driver-plain"));
        c
    } else {
        Command::new(base.join("driver-asan"))
    };
    let (fo, fe) = (dir.join("out.txt"), dir.join("err.txt"));
    cmd.env("ASAN_OPTIONS", "exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:detect_invalid_pointer_pairs=2:allocator_may_return_null=1")
        .env("TMPDIR", dir)
        .current_dir(dir)
        .stdin(Stdio::piped())
        .stdout(std::fs::File::create(&fo).map_err(serr)?)
        .stderr(std::fs::File::create(&fe).map_err(serr)?);
    let mut ch = cmd.spawn().unwrap_or_else(|e| panic!("harness: driver not started: {e}"));
    let mut text = script.join("\n");
    text.push('\n');
    let mut stdin = ch.stdin.take().unwrap();
    std::thread::spawn(move || {
        let _ = stdin.write_all(text.as_bytes());
    });
    watchdog(false);
    let t = Instant::now();
    let status = loop {
        if let Some(s) = ch.try_wait().map_err(serr)? {
            break s;
        }
        if t.elapsed() > Duration::from_secs(if valgrind { 300 } else { 120 }) {
            let _ = ch.kill();
            let _ = ch.wait();
            watchdog(true);
            let e = std::fs::read_to_string(&fe).unwrap_or_default();
            let at = e.lines().rev().find(|l| l.starts_with("at ")).unwrap_or("").to_string();
            return viol("no-answer", format!("{at}: {}", command(script, &at)));
        }
        std::thread::sleep(Duration::from_millis(3));
    };
    watchdog(true);
    let e = String::from_utf8_lossy(&std::fs::read(&fe).map_err(serr)?).to_string();
    let at = e.lines().rev().find(|l| l.starts_with("at ")).unwrap_or("").to_string();
    if status.code() == Some(9) {
        panic!("harness: {}", e.lines().last().unwrap_or(""));
    }
    let report: Vec<&str> = e.lines().filter(|l| !l.starts_with("at ")).collect();
    let memory = report.iter().find(|l| l.contains("AddressSanitizer") || (valgrind && l.starts_with("==")));
    if status.code() != Some(0) || memory.is_some() {
        let kind = match memory {
            Some(l) => {
                let w: Vec<&str> = l.split_whitespace().collect();
                let what = if valgrind { w.iter().skip(1).take(3).cloned().collect::<Vec<_>>().join("-") } else { w.iter().skip_while(|x| !x.contains("AddressSanitizer")).nth(1).unwrap_or(&"").to_string() };
                format!("memory:{what}")
            }
            None => "crash".into(),
        };
        let name = at.split(' ').nth(2).unwrap_or("").to_string();
        return viol(format!("{kind}:{name}"), format!("{status}; {at}: {}; {}", command(script, &at), report.iter().take(45).cloned().collect::<Vec<_>>().join(" / ")));
    }
    Ok(String::from_utf8_lossy(&std::fs::read(&fo).map_err(serr)?).to_string())
}

fn unhex(s: &str) -> String {
    match s {
        "-" => "NULL".into(),
        "=" => "".into(),
        _ => {
            let b: Vec<u8> = (0..s.len() / 2).filter_map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect();
            String::from_utf8_lossy(&b).to_string()
        }
    }
}
fn readable(l: &str) -> String {
    l.split(' ').map(|w| if w.len() > 1 && w.len() % 2 == 0 && w.bytes().all(|b| b.is_ascii_hexdigit()) && w.bytes().any(|b| b.is_ascii_alphabetic() || w.len() > 4) { format!("{:?}", unhex(w)) } else { w.into() }).collect::<Vec<_>>().join(" ")
}
fn command(script: &[String], at: &str) -> String {
    at.split(' ').nth(1).and_then(|n| n.parse::<usize>().ok()).and_then(|n| script.get(n)).map(|l| readable(l)).unwrap_or_default()
}

fn judge(ctx: &mut Ctx, j: &Job, out: &str, da: &str, db: &str) -> Case {
    let mut parts: Vec<Vec<&str>> = vec![];
    for l in out.lines() {
        if l.starts_with("> ") {
            parts.push(vec![]);
        } else if let Some(p) = parts.last_mut() {
            p.push(l);
        }
    }
    if out.lines().last() != Some("end") || parts.len() != j.script.len() {
        return viol("incomplete", format!("{} of {} commands answered", parts.len(), j.script.len()));
    }
    let mut names: BTreeMap<String, String> = BTreeMap::new();
    let mut got = Model::default();
    let mut edges: Vec<(String, String, CompKey, Labels)> = vec![];
    for (i, (p, (exp, want_errs))) in parts.iter().zip(&j.exp).enumerate() {
        let cmd = j.script[i].split(' ').next().unwrap();
        let what = || readable(&j.script[i]).chars().take(600).collect::<String>();
        let mut p: Vec<&str> = p.clone();
        if i + 1 == parts.len() {
            p.pop();
        }
        let e = p.pop().unwrap_or("");
        if p.iter().any(|l| l.contains("OUTSIDE")) || e.contains("OUTSIDE") {
            return viol(format!("outside:{cmd}"), format!("something is returned for an index behind the end by {}", what()));
        }
        // errors
        let ew: Vec<String> = e.split(' ').skip(2).map(unhex).collect();
        let ge: Errs = ew.chunks(2).filter(|c| c.len() == 2).map(|c| (c[0].clone(), c[1].replace(db, da))).collect();
        if let Some(w) = want_errs
            && ge != *w
        {
            return viol(format!("errors:{cmd}"), format!("errors {ge:?} instead of {w:?} from {}", what()));
        }
        ctx.count("answers_compared", 1);
        match exp {
            Exp::Any => {}
            Exp::Lines(l) => {
                if p.len() != l.len() || p.iter().zip(l).any(|(a, b)| a != b) {
                    return viol(format!("answer:{cmd}"), format!("{:?} instead of {:?} from {}", p.iter().map(|x| readable(x)).collect::<Vec<_>>(), l.iter().map(|x| readable(x)).collect::<Vec<_>>(), what()));
                }
            }
            Exp::Bag(l) => {
                let mut a: Vec<&str> = p.clone();
                let mut b: Vec<&str> = l.iter().map(|x| x.as_str()).collect();
                a.sort();
                b.sort();
                if a != b {
                    return viol(format!("answer:{cmd}"), format!("{:?} instead of {:?} from {}", a.iter().map(|x| readable(x)).collect::<Vec<_>>(), b.iter().map(|x| readable(x)).collect::<Vec<_>>(), what()));
                }
            }
            Exp::Words(l) => {
                let f = |x: &str| {
                    let mut w: Vec<String> = x.split(' ').map(|s| s.to_string()).collect();
                    w.sort();
                    w
                };
                if p.len() != 1 || f(p[0]) != f(l) {
                    return viol(format!("answer:{cmd}"), format!("{:?} instead of {:?} from {}", p.iter().map(|x| readable(x)).collect::<Vec<_>>(), readable(l), what()));
                }
            }
            Exp::Len(n) => {
                if p.len() != 1 || p[0].split(' ').count() != n + 1 {
                    return viol(format!("answer:{cmd}"), format!("{:?} instead of {n} entries from {}", p, what()));
                }
            }
            Exp::Graph(part, want, cl, gaps) => {
                if *part == 0 {
                    names.clear();
                    got = Model::default();
                    edges.clear();
                }
                let mut node: Option<(String, Labels)> = None;
                let mut comp: Vec<String> = vec![];
                let flush = |node: &mut Option<(String, Labels)>, names: &mut BTreeMap<String, String>, got: &mut Model| -> Case {
                    if let Some((id, l)) = node.take() {
                        let Some(name) = l.get(&("annis".into(), "node_name".into())).cloned() else {
                            return viol("graph:unnamed-node", format!("{l:?}"));
                        };
                        if got.nodes.insert(name.clone(), l).is_some() {
                            return viol("graph:repeated-node", name);
                        }
                        names.insert(id, name);
                    }
                    Ok(())
                };
                for l in &p {
                    let w: Vec<&str> = l.split(' ').collect();
                    match w[0] {
                        "n" => {
                            flush(&mut node, &mut names, &mut got)?;
                            node = Some((w[1].to_string(), Labels::new()));
                        }
                        "a" => {
                            let dup = node.as_mut().unwrap().1.insert((unhex(w[1]), unhex(w[2])), unhex(w[3]));
                            if dup.is_some() {
                                return viol("graph:repeated-annotation", l.to_string());
                            }
                        }
                        "e" => {
                            let ty = TYPES.iter().find(|t| tnum((*t).clone()).to_string() == w[3]);
                            let ty = ty.map(|t| t.to_string()).unwrap_or(w[3].into());
                            edges.push((w[1].into(), w[2].into(), (ty, unhex(w[4]), unhex(w[5])), Labels::new()));
                        }
                        "b" if w.len() == 4 => {
                            edges.last_mut().unwrap().3.insert((unhex(w[1]), unhex(w[2])), unhex(w[3]));
                        }
                        "c" => comp.push(l.to_string()),
                        _ => return viol("graph:output", l.to_string()),
                    }
                }
                flush(&mut node, &mut names, &mut got)?;
                comp.sort();
                let mut cl = cl.clone();
                if !gaps {
                    let g = h(GAP);
                    comp.retain(|c| !c.ends_with(&g));
                    cl.retain(|c| !c.ends_with(&g));
                    edges.retain(|e| e.2.2 != GAP);
                }
                cl.sort();
                if comp != cl {
                    return viol("answer:gdump", format!("components {comp:?} instead of {cl:?}"));
                }
                if *part + 1 == NODE_TYPES.len() {
                    for (s, t, k, l) in edges.drain(..) {
                        let f = |x: &String| names.get(x).cloned().unwrap_or(format!("unknown node {x}"));
                        if got.edges.entry(k).or_default().insert((f(&s), f(&t)), l).is_some() {
                            return viol("graph:repeated-edge", format!("{} {}", f(&s), f(&t)));
                        }
                    }
                    if let Some(d) = want.diff(&got.clone().normalized()) {
                        return viol("answer:gdump", format!("{d}; {}", what()));
                    }
                    ctx.count("graphs_compared", 1);
                }
            }
        }
    }
    Ok(())
}
