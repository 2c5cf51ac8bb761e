//! C18: corpus management behaves like a map from names to contents.
use crate::c01::tail;
use crate::c05::few_paths;
use crate::c13::read_xml;
use crate::corpus::*;
use crate::gmodel::*;
use crate::rt::*;
use crate::store::*;
use graphannis::corpusstorage::{ExportFormat, ImportFormat, LoadStatus, QueryLanguage, ResultOrder};
use graphannis::model::AnnotationComponentType;
use graphannis::{AnnotationGraph, CorpusStorage};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::str::FromStr;

pub fn run(ctx: &mut Ctx) {
    ctx.cases("plain", ctx.n(240, 8000), |c, r| case(c, r, false));
    ctx.cases("names", ctx.n(240, 8000), |c, r| case(c, r, true));
}

const PLAIN: &[&str] = &["c", "C", "c2", "corpus", "x.y"];
const NAMES: &[&str] = &[
    "c", "C", "a b", "\u{e4}", "a\u{308}", "a/b", "a%2Fb", "a%252Fb", "x:y", "c.graphml", "current", "backup", "files", "..x", ".hidden", "#x", "\u{65e5}\u{672c}", "~", "-", "\\", "a\\b", "a*", "a\nb",
    "\u{0}", "%", "%00", "{x}", "c/", "/c", " ", ".", "..", "...", "", "db.lock", "../c", "/tmp/x", "corpus-config.toml", "c|d", "\u{1F600}",
];

struct State {
    corpora: BTreeMap<String, (Model, Option<Info>)>,
    /// names for which creating failed
    rejected: BTreeSet<String>,
}

fn content_of_file(path: &Path) -> Result<Model, Violation> {
    let xml = std::fs::read_to_string(path).map_err(serr)?;
    read_xml(&xml).map(|x| x.0).map_err(|e| Violation { sig: "export-malformed".into(), detail: e })
}

fn same_but_size(m: &Model) -> Model {
    m.clone().normalized()
}

fn observe_all(ctx: &mut Ctx, rng: &mut Rng, cs: &CorpusStorage, st: &State, tmp: &Path, log: &[String]) -> Case {
    let infos = cs.list().map_err(|e| Violation { sig: "list-failed".into(), detail: format!("{e}; {}", tail(log)) })?;
    let mut names: Vec<String> = infos.iter().map(|i| i.name.clone()).collect();
    names.sort();
    let exp: Vec<String> = st.corpora.keys().cloned().collect();
    check!(names == exp, "wrong-corpus-list", "listed {names:?}, expected {exp:?}; {}", tail(log));
    ctx.count("lists", 1);
    for (name, (m, _)) in &st.corpora {
        if !rng.chance(50) {
            continue;
        }
        let what = || format!("corpus {name:?} after {}", tail(log));
        match rng.below(5) {
            0 => {
                let f = tmp.join("x.graphml");
                if let Err(e) = cs.export_to_fs(&[name], &f, ExportFormat::GraphML) {
                    return viol("export-failed", format!("{e}; {}", what()));
                }
                let got = content_of_file(&f)?;
                if let Some(d) = same_but_size(m).diff(&got) {
                    return viol("content-differs", format!("{d}; exported {}", what()));
                }
                ctx.count("full_reads", 1);
            }
            1 => {
                let q = "annis:node_name";
                let got = find(cs, &[name.clone()], q, QueryLanguage::AQL, ResultOrder::NotSorted).map_err(|e| Violation { sig: "query-failed".into(), detail: format!("{e}; {}", what()) })?;
                let exp: BTreeSet<String> = m.nodes.keys().map(|n| format!("annis::node_name::{n}")).collect();
                let n = got.len();
                let got: BTreeSet<String> = got.into_iter().collect();
                check!(got == exp && n == exp.len(), "query-differs", "query {q}: {} of {} nodes; {}", n, exp.len(), what());
                ctx.count("queries", 1);
            }
            2 => {
                for (t, op, l) in [("Pointing", "->dep", "dep"), ("Pointing", "->anaphoric", "anaphoric"), ("Dominance", ">secedge", "secedge")] {
                    let q = format!("node {op} node");
                    let edges: BTreeSet<&(String, String)> = m.edges.iter().filter(|(k, _)| k.0 == t && k.2 == l).flat_map(|(_, e)| e.keys()).collect();
                    let is_node = |n: &String| m.nodes[n].get(&("annis".to_string(), "node_type".to_string())).is_some_and(|t| t == "node");
                    let exp = edges.iter().filter(|e| is_node(&e.0) && is_node(&e.1)).count() as u64;
                    match cs.count(sq(&[name], &q, QueryLanguage::AQL, None)) {
                        Ok(n) => check!(n == exp, "query-differs", "query {q}: {n} matches, {exp} edges; {}", what()),
                        Err(e) => return viol("query-failed", format!("{q}: {e}; {}", what())),
                    }
                    ctx.count("queries", 1);
                }
            }
            3 => {
                let keys: BTreeSet<(String, String)> = m.nodes.values().flat_map(|l| l.keys().cloned()).collect();
                let got = cs.list_node_annotations(name, false, false).map_err(serr)?;
                let got: BTreeSet<(String, String)> = got.into_iter().map(|a| (a.key.ns.to_string(), a.key.name.to_string())).collect();
                check!(got == keys, "listing-differs", "keys {got:?} instead of {keys:?}; {}", what());
                ctx.count("listings", 1);
            }
            _ => {
                let i = cs.info(name).map_err(serr)?;
                check!(i.name == *name, "info-name", "{}; {}", i.name, what());
            }
        }
    }
    // several corpora at once
    if !st.corpora.is_empty() && rng.chance(30) {
        let mut sel: Vec<String> = st.corpora.keys().filter(|_| rng.chance(60)).cloned().collect();
        rng.shuffle(&mut sel);
        let exp: usize = sel.iter().map(|n| st.corpora[n].0.nodes.len()).sum();
        match cs.count(sq(&sel, "annis:node_name", QueryLanguage::AQL, None)) {
            Ok(n) => check!(n == exp as u64, "query-differs", "{n} nodes in {sel:?}, expected {exp}; {}", tail(log)),
            Err(e) => return viol("query-failed", format!("{e}; {sel:?} {}", tail(log))),
        }
    }
    // corpora which do not exist
    for _ in 0..2 {
        let n = rng.pick(NAMES).to_string();
        if st.corpora.contains_key(&n) {
            continue;
        }
        match rng.below(6) {
            0 => check!(cs.count(sq(&[&n], "node", QueryLanguage::AQL, None)).is_err(), "missing-corpus-answered", "count for missing corpus {n:?} succeeded; {}", tail(log)),
            1 => check!(cs.find(sq(&[&n], "node", QueryLanguage::AQL, None), 0, None, ResultOrder::Normal).is_err(), "missing-corpus-answered", "find for missing corpus {n:?} succeeded; {}", tail(log)),
            2 => {
                let _ = cs.info(&n);
            }
            3 => {
                let _ = cs.list_components(&n, None, None);
                check!(cs.list_node_annotations(&n, true, false).map(|r| r.is_empty()).unwrap_or(true), "missing-corpus-answered", "annotations of missing corpus {n:?}; {}", tail(log));
            }
            4 => {
                let _ = cs.unload(&n);
                check!(cs.preload(&n).is_err(), "missing-corpus-answered", "preload of missing corpus {n:?} succeeded; {}", tail(log));
            }
            _ => {
                check!(cs.reoptimize_implementation(&n, false).is_err(), "missing-corpus-answered", "optimising missing corpus {n:?} succeeded; {}", tail(log));
            }
        }
        ctx.count("requests_for_missing_corpora", 1);
    }
    Ok(())
}

fn case(ctx: &mut Ctx, rng: &mut Rng, hostile: bool) -> Case {
    let valid = |t: &str| AnnotationComponentType::from_str(t).is_ok();
    let outer = scratch();
    // the data directory is deep enough for relative names
    let dir = outer.path().join("area/l1/l2/data");
    std::fs::create_dir_all(&dir).map_err(serr)?;
    let tmp = outer.path().join("tmp");
    std::fs::create_dir_all(&tmp).map_err(serr)?;
    std::fs::write(outer.path().join("area/l1/l2/outside"), "x").map_err(serr)?;
    let mut cfg = SCfg::random(rng);
    let mut cs = Some(cfg.open(&dir)?);
    let pool: Vec<String> = {
        let mut p: Vec<&str> = if hostile { NAMES.to_vec() } else { PLAIN.to_vec() };
        rng.shuffle(&mut p);
        p.into_iter().take(4).map(|s| s.to_string()).collect()
    };
    let gc = Cfg { hostile: rng.chance(30), segs: 1, ..Default::default() };
    let mut st = State { corpora: BTreeMap::new(), rejected: BTreeSet::new() };
    let mut log: Vec<String> = vec![format!("{cfg:?}")];
    let mut changes = 0;
    for _ in 0..rng.range(5, 22) {
        let n = rng.pick(&pool).clone();
        let s = cs.as_ref().unwrap();
        match rng.below(16) {
            0 | 1 => {
                let disk = rng.chance(40);
                log.push(format!("create {n:?} disk={disk}"));
                match s.create_empty_corpus(&n, disk) {
                    Ok(new) => {
                        check!(new != st.corpora.contains_key(&n), "create-result", "create_empty_corpus({n:?}) = {new}, the corpora are {:?}; {}", st.corpora.keys().collect::<Vec<_>>(), tail(&log));
                        st.corpora.entry(n).or_default();
                    }
                    Err(e) => {
                        check!(n.is_empty() || n == "db.lock", "create-failed", "{n:?}: {e}; {}", tail(&log));
                        st.rejected.insert(n);
                    }
                }
            }
            2..=5 => {
                let old = st.corpora.get(&n).cloned().unwrap_or_default();
                let (mut m, mut info) = old;
                let evs = match &mut info {
                    Some(i) => gen_edit(rng, &gc, i, &m).0,
                    None => {
                        let (e, i) = {
                            let root = if rng.chance(70) { "c" } else { "d" };
                            gen_corpus(rng, root, &gc)
                        };
                        info = Some(i);
                        e
                    }
                };
                for e in &evs {
                    m.apply(e, &valid);
                }
                if !few_paths(&m) {
                    ctx.count("skipped_too_many_paths", 1);
                    break;
                }
                log.push(format!("update {n:?} {evs:?}"));
                match s.apply_update(&n, &mut events_to_update(&evs)) {
                    Ok(()) => {
                        st.corpora.insert(n, (m, info));
                        changes += 1;
                    }
                    Err(e) => {
                        check!(n.is_empty() || n == "db.lock", "update-failed", "{n:?}: {e}; {}", tail(&log));
                        st.rejected.insert(n);
                    }
                }
            }
            6 | 7 => {
                log.push(format!("delete {n:?}"));
                match s.delete(&n) {
                    Ok(r) => check!(r == st.corpora.contains_key(&n), "delete-result", "delete({n:?}) = {r}, the corpora are {:?}; {}", st.corpora.keys().collect::<Vec<_>>(), tail(&log)),
                    Err(e) => check!(st.rejected.contains(&n) || n.is_empty() || n == "db.lock", "delete-failed", "{n:?}: {e}; {}", tail(&log)),
                }
                st.corpora.remove(&n);
            }
            8 => {
                if st.corpora.contains_key(&n) || rng.chance(20) {
                    log.push(format!("unload {n:?}"));
                    s.unload(&n).map_err(serr)?;
                    if st.corpora.contains_key(&n) {
                        let i = s.info(&n).map_err(serr)?;
                        check!(i.load_status == LoadStatus::NotLoaded, "load-status", "loaded after unload; {}", tail(&log));
                    }
                }
            }
            9 => {
                if st.corpora.contains_key(&n) {
                    log.push(format!("preload {n:?}"));
                    if let Err(e) = s.preload(&n) {
                        return viol("preload-failed", format!("{e}; {}", tail(&log)));
                    }
                }
            }
            10 => {
                if st.corpora.contains_key(&n) {
                    let disk = rng.chance(40);
                    log.push(format!("reoptimize {n:?} disk={disk}"));
                    if let Err(e) = s.reoptimize_implementation(&n, disk) {
                        return viol("reoptimize-failed", format!("{e}; {}", tail(&log)));
                    }
                }
            }
            11 | 12 => {
                // copy a corpus under another name
                let Some(src) = st.corpora.keys().nth(rng.below(st.corpora.len().max(1))).cloned() else { continue };
                let f = tmp.join("copy.graphml");
                if let Err(e) = s.export_to_fs(&[&src], &f, ExportFormat::GraphML) {
                    return viol("export-failed", format!("{src:?}: {e}; {}", tail(&log)));
                }
                let overwrite = rng.chance(50);
                let disk = rng.chance(30);
                log.push(format!("import copy of {src:?} as {n:?} overwrite={overwrite} disk={disk}"));
                match s.import_from_fs(&f, ImportFormat::GraphML, Some(n.clone()), disk, overwrite, |_| {}) {
                    Ok(r) => {
                        check!(r == n, "import-name", "{r:?} instead of {n:?}; {}", tail(&log));
                        check!(overwrite || !st.corpora.contains_key(&n), "import-replaced-corpus", "importing {n:?} without overwriting succeeded; {}", tail(&log));
                        let c = st.corpora[&src].clone();
                        st.corpora.insert(n, c);
                        changes += 1;
                    }
                    Err(e) => {
                        check!((!overwrite && st.corpora.contains_key(&n)) || n.is_empty() || n == "db.lock", "import-failed", "{n:?}: {e}; {}", tail(&log));
                    }
                }
            }
            13 => {
                log.push("restart".into());
                cs = None;
                // everything is on the disk now
                let mut found: BTreeSet<String> = BTreeSet::new();
                for e in std::fs::read_dir(&dir).map_err(serr)? {
                    let e = e.map_err(serr)?;
                    if e.path().is_dir() {
                        let mut g = AnnotationGraph::new(false).map_err(serr)?;
                        if let Err(x) = g.open(&e.path()) {
                            return viol("directory-unreadable", format!("{:?}: {x}; {}", e.file_name(), tail(&log)));
                        }
                        g.ensure_loaded_all().map_err(serr)?;
                        let got = observe(&g, false)?;
                        // identify by content: the encoding of names is not part of the property
                        let c: Vec<&String> = st.corpora.iter().filter(|(n, (m, _))| !found.contains(*n) && m.diff(&got).is_none()).map(|x| x.0).collect();
                        match c.first() {
                            Some(n) => {
                                found.insert(n.to_string());
                            }
                            None => return viol("content-on-disk", format!("directory {:?} has a content that is not the one of any (remaining) corpus of {:?}; {}", e.file_name(), st.corpora.keys().collect::<Vec<_>>(), tail(&log))),
                        }
                        ctx.count("directories_checked", 1);
                    }
                }
                check!(found.len() == st.corpora.len(), "content-on-disk", "{} directories for {} corpora; {}", found.len(), st.corpora.len(), tail(&log));
                cfg = SCfg::random(rng);
                cs = Some(cfg.open(&dir)?);
            }
            _ => {}
        }
        observe_all(ctx, rng, cs.as_ref().unwrap(), &st, &tmp, &log)?;
        let out = outer.path().join("area/l1/l2");
        let mut entries: Vec<_> = std::fs::read_dir(&out).map_err(serr)?.filter_map(|e| e.ok()).map(|e| e.file_name()).collect();
        entries.sort();
        check!(entries == ["data", "outside"], "files-outside", "{entries:?}; {}", tail(&log));
    }
    drop(cs);
    if changes >= 2 {
        ctx.distinct(&format!("{log:?}"));
    }
    ctx.count("operations", log.len() as u64);
    ctx.sample(json!({"steps": log.iter().map(|l| l.chars().take(80).collect::<String>()).collect::<Vec<_>>()}));
    Ok(())
}
