//! C27: metadata listings.
use crate::c01::tail;
use crate::c05::few_paths;
use crate::corpus::*;
use crate::gmodel::*;
use crate::rt::*;
use crate::store::*;
use graphannis::corpusstorage::LoadStatus;
use graphannis::graph::{Annotation, Component};
use graphannis::model::AnnotationComponentType;
use graphannis::{AnnotationGraph, CorpusStorage};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

pub fn run(ctx: &mut Ctx) {
    ctx.cases("graphs", ctx.n(400, 12000), |c, r| case(c, r, false));
    ctx.cases("corpora", ctx.n(400, 12000), |c, r| case(c, r, true));
}

/// key -> value -> count
type Counts = BTreeMap<(String, String), BTreeMap<String, u64>>;

fn counts<'a>(items: impl Iterator<Item = &'a Labels>) -> Counts {
    let mut r = Counts::new();
    for l in items {
        for (k, v) in l {
            *r.entry(k.clone()).or_default().entry(v.clone()).or_default() += 1;
        }
    }
    r
}

fn check_annos(what: &str, expected: &Counts, list: &dyn Fn(bool, bool) -> Result<Vec<Annotation>, String>) -> Case {
    let get = |values: bool, frequent: bool| -> Result<Vec<(String, String, String)>, Violation> {
        match list(values, frequent) {
            Ok(r) => Ok(r.into_iter().map(|a| (a.key.ns.to_string(), a.key.name.to_string(), a.val.to_string())).collect()),
            Err(e) => viol("listing-failed", format!("{what} values={values} most_frequent={frequent}: {e}")),
        }
    };
    for frequent in [false, true] {
        let got = get(false, frequent)?;
        let set: BTreeSet<_> = got.iter().cloned().collect();
        check!(set.len() == got.len(), "listed-twice", "{what} keys: {got:?}");
        let exp: BTreeSet<_> = expected.keys().map(|k| (k.0.clone(), k.1.clone(), String::new())).collect();
        check!(set == exp, "wrong-keys", "{what}: listed {set:?}, occurring {exp:?}");
    }
    let got = get(true, false)?;
    let set: BTreeSet<_> = got.iter().cloned().collect();
    check!(set.len() == got.len(), "listed-twice", "{what} values: {got:?}");
    let exp: BTreeSet<_> = expected.iter().flat_map(|(k, v)| v.keys().map(move |v| (k.0.clone(), k.1.clone(), v.clone()))).collect();
    if set != exp {
        return viol("wrong-values", format!("{what}: not listed {:?}, listed but not occurring {:?}", exp.difference(&set).collect::<Vec<_>>(), set.difference(&exp).collect::<Vec<_>>()));
    }
    let got = get(true, true)?;
    check!(got.len() == expected.len(), "most-frequent-number", "{what}: {} most frequent values for {} keys: {got:?}", got.len(), expected.len());
    for (ns, name, v) in got {
        let Some(e) = expected.get(&(ns.clone(), name.clone())) else {
            return viol("wrong-keys", format!("{what}: most frequent value for {ns}::{name} which does not occur"));
        };
        let max = e.values().max().unwrap();
        check!(e.get(&v) == Some(max), "not-most-frequent", "{what}: {v:?} is listed as most frequent value of {ns}::{name}, but the counts are {e:?}");
    }
    Ok(())
}

fn comp(c: &CompKey) -> Component<AnnotationComponentType> {
    Component::new(AnnotationComponentType::from_str(&c.0).unwrap(), c.1.as_str().into(), c.2.as_str().into())
}
fn key(c: &Component<AnnotationComponentType>) -> CompKey {
    (c.get_type().to_string(), c.layer.to_string(), c.name.to_string())
}

struct Corpus {
    name: String,
    m: Model,
    /// components mentioned in updates
    seen: BTreeSet<CompKey>,
}

fn check_corpus(ctx: &mut Ctx, rng: &mut Rng, cs: &CorpusStorage, c: &Corpus, what: &str, fresh_stats: bool) -> Case {
    let what = format!("corpus {:?} {what}", c.name);
    let m = c.m.clone().normalized();
    let mut parts: Vec<usize> = (0..4).collect();
    rng.shuffle(&mut parts);
    for p in parts {
        match p {
            0 => {
                check_annos(&format!("node annotations of {what}"), &counts(m.nodes.values()), &|v, f| cs.list_node_annotations(&c.name, v, f).map_err(|e| e.to_string()))?;
                ctx.count("node_listings", 1);
            }
            1 => {
                let mut cands: BTreeSet<CompKey> = c.seen.clone();
                cands.insert(("Pointing".into(), "does".into(), "not exist".into()));
                for k in cands {
                    if AnnotationComponentType::from_str(&k.0).is_err() {
                        continue;
                    }
                    let empty = BTreeMap::new();
                    let exp = counts(m.edges.get(&k).unwrap_or(&empty).values());
                    check_annos(&format!("edge annotations {k:?} of {what}"), &exp, &|v, f| cs.list_edge_annotations(&c.name, &comp(&k), v, f).map_err(|e| e.to_string()))?;
                    ctx.count("edge_listings", 1);
                }
            }
            2 => {
                let all = cs.list_components(&c.name, None, None).map_err(serr)?;
                let set: BTreeSet<CompKey> = all.iter().map(key).collect();
                check!(set.len() == all.len(), "component-listed-twice", "{what}: {all:?}");
                for k in m.edges.keys() {
                    check!(set.contains(k), "component-missing", "{what}: component {k:?} has {} edges but only {set:?} are listed", m.edges[k].len());
                }
                for k in &set {
                    // empty components may be listed when they were used or always exist
                    check!(is_derived(k) || c.seen.contains(k) || k.1 == "annis", "component-invented", "{what}: component {k:?} is listed but was never used");
                }
                for t in ["Coverage", "Dominance", "Pointing", "Ordering", "PartOf", "LeftToken", "RightToken"] {
                    let ty = AnnotationComponentType::from_str(t).unwrap();
                    let got: BTreeSet<CompKey> = cs.list_components(&c.name, Some(ty), None).map_err(serr)?.iter().map(key).collect();
                    let exp: BTreeSet<CompKey> = set.iter().filter(|k| k.0 == t).cloned().collect();
                    check!(got == exp, "component-filter", "{what}: components with type {t}: {got:?} instead of {exp:?}");
                }
                let names: BTreeSet<String> = set.iter().map(|k| k.2.clone()).chain(["".to_string(), "de".to_string()]).collect();
                for n in names {
                    let got: BTreeSet<CompKey> = cs.list_components(&c.name, None, Some(&n)).map_err(serr)?.iter().map(key).collect();
                    let exp: BTreeSet<CompKey> = set.iter().filter(|k| k.2 == n).cloned().collect();
                    check!(got == exp, "component-filter", "{what}: components with name {n:?}: {got:?} instead of {exp:?}");
                    let ty = *rng.pick(&["Coverage", "Pointing", "Ordering"]);
                    let got: BTreeSet<CompKey> = cs.list_components(&c.name, AnnotationComponentType::from_str(ty).ok(), Some(&n)).map_err(serr)?.iter().map(key).collect();
                    let exp: BTreeSet<CompKey> = set.iter().filter(|k| k.2 == n && k.0 == ty).cloned().collect();
                    check!(got == exp, "component-filter", "{what}: components with type {ty} and name {n:?}: {got:?} instead of {exp:?}");
                }
                ctx.count("component_listings", 1);
            }
            _ => {
                let info = cs.info(&c.name).map_err(serr)?;
                check!(info.name == c.name, "info-name", "{what}: {}", info.name);
                let comps: BTreeSet<CompKey> = info.graphstorages.iter().map(|g| key(&g.component)).collect();
                check!(comps.len() == info.graphstorages.len(), "component-listed-twice", "info of {what}");
                if info.load_status == LoadStatus::NotLoaded {
                    ctx.count("info_not_loaded", 1);
                } else {
                    for k in m.edges.keys() {
                        check!(comps.contains(k), "component-missing", "info of {what}: component {k:?} is missing, listed: {comps:?}");
                    }
                }
                let mut partial = false;
                for g in &info.graphstorages {
                    let k = key(&g.component);
                    if g.load_status == LoadStatus::FullyLoaded {
                        let n: usize = m.edges.get(&k).map(|e| e.values().map(|l| l.len()).sum()).unwrap_or(0);
                        check!(g.number_of_annotations == n, "info-annotation-count", "{what}: {} annotations in {k:?} reported, {n} exist", g.number_of_annotations);
                        check!(!g.implementation.is_empty(), "info-implementation", "{what}: no implementation for {k:?}");
                    } else {
                        partial = true;
                    }
                }
                match info.load_status {
                    LoadStatus::FullyLoaded => check!(!partial, "info-load-status", "{what}: fully loaded with unloaded components"),
                    LoadStatus::PartiallyLoaded => check!(partial, "info-load-status", "{what}: partially loaded, but all components are loaded"),
                    _ => {}
                }
                // sizes are part of the statistics
                if let Some(s) = &info.global_stats
                    && fresh_stats
                {
                    let v = serde_json::to_value(s).unwrap_or_default();
                    let tok = v.pointer("/corpus_size/Token/base_token_count").and_then(|x| x.as_u64());
                    let has_order = comps.contains(&("Ordering".to_string(), "annis".to_string(), "".to_string()));
                    if let (Some(tok), true) = (tok, has_order) {
                        let cov: BTreeSet<&String> = m.edges.iter().filter(|(k, _)| k.0 == "Coverage" && !is_derived(k)).flat_map(|(_, e)| e.keys().map(|e| &e.0)).collect();
                        let n = m.nodes.iter().filter(|(n, l)| l.contains_key(&("annis".to_string(), "tok".to_string())) && !cov.contains(n)).count() as u64;
                        check!(tok == n, "info-token-count", "{what}: {tok} tokens reported, {n} exist");
                        ctx.count("token_counts_checked", 1);
                    }
                    if let Some(seg) = v.pointer("/corpus_size/Token/segmentation_count").and_then(|x| x.as_object()) {
                        for (name, k) in seg {
                            let cands: Vec<u64> = m
                                .edges
                                .iter()
                                .filter(|(c, _)| c.0 == "Ordering" && c.2 == *name)
                                .map(|(_, e)| e.keys().flat_map(|e| [&e.0, &e.1]).collect::<BTreeSet<_>>().len() as u64)
                                .collect();
                            check!(cands.iter().any(|c| Some(*c) == k.as_u64()) || (k.as_u64() == Some(0) && comps.iter().any(|c| c.0 == "Ordering" && c.2 == *name && !m.edges.get(c).is_some_and(|e| !e.is_empty()))), "info-segmentation-count", "{what}: segmentation {name:?} has {k} nodes, but the components with this name have {cands:?}");
                            ctx.count("segmentation_counts_checked", 1);
                        }
                    }
                }
                ctx.count("infos", 1);
            }
        }
    }
    Ok(())
}

fn case(ctx: &mut Ctx, rng: &mut Rng, corpora: bool) -> Case {
    let valid = |t: &str| AnnotationComponentType::from_str(t).is_ok();
    let dir = scratch();
    let mut cfg = SCfg::random(rng);
    let mut cs = Some(cfg.open(dir.path())?);
    let mut all: Vec<Corpus> = vec![];
    let gc = Cfg { hostile: rng.chance(50), segs: 2, ..Default::default() };
    let gg = gen_cfg(rng, false);
    let mut infos = vec![];
    let mut log: Vec<String> = vec![format!("{cfg:?}")];
    for i in 0..rng.range(1, 2) {
        let name = if i == 0 { rng.pick(&["c", "B c", "\u{e4}/x", "a::b"]).to_string() } else { "other".to_string() };
        let disk = rng.chance(40);
        cs.as_ref().unwrap().create_empty_corpus(&name, disk).map_err(serr)?;
        log.push(format!("create {name:?} disk={disk}"));
        all.push(Corpus { name, m: Model::default(), seen: BTreeSet::new() });
        infos.push(None);
    }
    let mut fresh = true;
    for step in 0..rng.range(3, 12) {
        let i = rng.below(all.len());
        let c = &mut all[i];
        let s = cs.as_ref().unwrap();
        match if step < 1 { 0 } else { rng.below(12) } {
            0..=4 => {
                let evs: Vec<U> = if !corpora {
                    let n = rng.range(1, 60);
                    let mut m = c.m.clone();
                    gen_events(rng, &gg, &mut m, n, &valid)
                } else if let Some(info) = &mut infos[i] {
                    gen_edit(rng, &gc, info, &c.m).0
                } else {
                    let (e, info) = gen_corpus(rng, "c", &gc);
                    infos[i] = Some(info);
                    e
                };
                let mut m = c.m.clone();
                for e in &evs {
                    m.apply(e, &valid);
                    if let U::AddEdge { component_type, layer, component_name, .. } = e {
                        c.seen.insert((component_type.clone(), layer.clone(), component_name.clone()));
                    }
                    if let U::DeleteEdge { component_type, layer, component_name, .. } | U::AddEdgeLabel { component_type, layer, component_name, .. } | U::DeleteEdgeLabel { component_type, layer, component_name, .. } = e {
                        c.seen.insert((component_type.clone(), layer.clone(), component_name.clone()));
                    }
                }
                if !few_paths(&m) {
                    ctx.count("skipped_too_many_paths", 1);
                    break;
                }
                log.push(format!("update {:?} {evs:?}", c.name));
                c.m = m;
                let how = rng.below(3);
                if how == 0 {
                    // only the log is written, as if the process had ended before the synchronisation
                    log.push("as write-ahead log only".into());
                    cs = None;
                    let name: String = all[i].name.clone();
                    {
                        let mut g = AnnotationGraph::new(false).map_err(serr)?;
                        let d = std::fs::read_dir(dir.path()).map_err(serr)?.filter_map(|e| e.ok()).filter(|e| e.path().is_dir());
                        let d: Vec<_> = d.filter(|e| (e.file_name() == "other") == (name == "other")).collect();
                        check!(d.len() == 1, "corpus-directory", "{name:?}: {d:?}");
                        g.open(&d[0].path()).map_err(serr)?;
                        let mut u = events_to_update(&evs);
                        g.apply_update(&mut u, |_| {}).map_err(serr)?;
                    }
                    cs = Some(cfg.open(dir.path())?);
                    ctx.count("log_only_updates", 1);
                } else {
                    apply(s, &all[i].name, &evs)?;
                }
                fresh = true;
            }
            5 => {
                s.unload(&c.name).map_err(serr)?;
                log.push(format!("unload {:?}", c.name));
                let info = s.info(&c.name).map_err(serr)?;
                check!(info.load_status == LoadStatus::NotLoaded, "info-load-status", "loaded after unloading; {}", tail(&log));
            }
            6 => {
                s.preload(&c.name).map_err(serr)?;
                log.push(format!("preload {:?}", c.name));
                let info = s.info(&c.name).map_err(serr)?;
                check!(info.load_status == LoadStatus::FullyLoaded, "info-load-status", "not fully loaded after preloading; {}", tail(&log));
            }
            7 | 8 => {
                let disk = rng.chance(40);
                s.reoptimize_implementation(&c.name, disk).map_err(serr)?;
                log.push(format!("reoptimize {:?} disk={disk}", c.name));
                let info = s.info(&c.name).map_err(serr)?;
                if let (Some(size), Some(stats)) = (&info.config.corpus_size, &info.global_stats) {
                    let v = serde_json::to_value(stats).unwrap_or_default();
                    let tok = v.pointer("/corpus_size/Token/base_token_count").and_then(|x| x.as_u64());
                    check!(tok.is_none() || tok == Some(size.quantity), "config-corpus-size", "configured size {size:?}, tokens {tok:?}; {}", tail(&log));
                }
            }
            9 => {
                cs = None;
                cfg = SCfg::random(rng);
                cs = Some(cfg.open(dir.path())?);
                log.push(format!("restart {cfg:?}"));
            }
            _ => {
                let _ = s.count(sq(&[&c.name], rng.pick(&["tok", "node", "node _o_ node", "node ->dep node"]), graphannis::corpusstorage::QueryLanguage::AQL, None));
                log.push("query".into());
            }
        }
        let s = cs.as_ref().unwrap();
        for c in &all {
            if rng.chance(60) {
                check_corpus(ctx, rng, s, c, &format!("after {}", tail(&log)), fresh)?;
            }
        }
        let names: BTreeSet<String> = s.list().map_err(serr)?.into_iter().map(|i| i.name).collect();
        check!(names == all.iter().map(|c| c.name.clone()).collect(), "wrong-corpus-list", "{names:?}; {}", tail(&log));
    }
    for c in &all {
        check_corpus(ctx, rng, cs.as_ref().unwrap(), c, &format!("at the end of {}", tail(&log)), fresh)?;
    }
    let s = cs.as_ref().unwrap();
    check!(s.list_node_annotations("no such corpus", true, false).is_ok_and(|r| r.is_empty()), "missing-corpus", "annotations of a missing corpus");
    if all.iter().any(|c| c.m.n_edges() > 0) {
        ctx.distinct(&format!("{log:?}"));
    }
    ctx.sample(json!({"steps": log.iter().map(|l| l.chars().take(100).collect::<String>()).collect::<Vec<_>>()}));
    Ok(())
}

