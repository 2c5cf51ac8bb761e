//! C06: saving and loading a graph preserves it completely.
use crate::c01::{compare, tail};
use crate::c05::{few_paths, shaped};
use crate::gmodel::*;
use crate::rt::*;
use graphannis_core::graph::Graph;
use graphannis_core::graph::update::UpdateEvent;
use graphannis_core::types::{ComponentType, DefaultComponentType};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

pub fn run(ctx: &mut Ctx) {
    let n = ctx.n(900, 20000);
    ctx.cases("core", n, |ctx, rng| history::<DefaultComponentType>(ctx, rng, true));
    ctx.cases("annis", n, |ctx, rng| history::<graphannis::model::AnnotationComponentType>(ctx, rng, false));
}

const NAMES: &[&str] = &[
    "", "dep", "a b", "a/b", "..", ".", "../..", "../../../up", "default_layer", "default_ns", "a%2Fb", "a%b", "%", "\u{e4}\u{df}", "\u{65e5}\u{672c}", "A", "a", "a:b", "a\\b", "x\ny", "x\0y", "a.b", "b*?", " ", "\"q\"", "impl.cfg", "component.bin", "edge_stats.toml", "nodes_diskmap_v1",
    "CON", "tab\t", "~", "\u{7f}",
];

fn name(rng: &mut Rng, root: &Path) -> String {
    match rng.below(20) {
        0 => root.join("outside/evil").to_string_lossy().to_string(),
        1 => format!("../../../../../{}", rng.pick(&["evil", "../evil", "sentinel"])),
        2 => "n".repeat(rng.range(20, 200)),
        _ => rng.pick(NAMES).to_string(),
    }
}

/// every path below `root` except for the given directories, with file contents
pub fn snapshot(root: &Path, except: &[&Path]) -> BTreeMap<String, Vec<u8>> {
    let mut r = BTreeMap::new();
    let mut todo = vec![root.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).unwrap().flatten() {
            let p = e.path();
            if except.contains(&p.as_path()) {
                continue;
            }
            let rel = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
            if p.is_dir() {
                r.insert(rel, vec![]);
                todo.push(p);
            } else {
                r.insert(rel, std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    r
}

struct Live<CT: ComponentType> {
    g: Graph<CT>,
    model: Model,
    at: Option<usize>,
}

fn history<CT: ComponentType>(ctx: &mut Ctx, rng: &mut Rng, core_only: bool) -> Case
where
    <CT as std::str::FromStr>::Err: std::fmt::Debug,
{
    let valid = |t: &str| CT::from_str(t).is_ok();
    let root = scratch();
    let root = root.path();
    // deep enough that no generated name leads out of the scratch directory
    let area = root.join("l1/l2/l3/l4/l5/l6/l7/l8/l9/l10/l11/l12/l13/l14/l15/l16");
    std::fs::create_dir_all(&area).unwrap();
    std::fs::create_dir_all(root.join("outside")).unwrap();
    std::fs::write(root.join("sentinel"), "x").unwrap();
    let dirs: Vec<_> = (0..3).map(|i| area.join(format!("d{i}"))).collect();
    let except: Vec<&Path> = dirs.iter().map(|d| d.as_path()).collect();
    let before = snapshot(root, &except);
    let mut on_disk: Vec<Option<Model>> = vec![None; 3];

    let (mut evs, mut cfg, _) = shaped(rng, core_only, 2);
    // add components with unusual names
    for _ in 0..rng.range(1, 4) {
        let k = (cfg.comps[rng.below(cfg.comps.len())].0.clone(), name(rng, root), name(rng, root));
        let k = if rng.chance(30) { (k.0, rng.pick(&cfg.comps).1.clone(), k.2) } else { k };
        if cfg.comps.contains(&k) {
            continue;
        }
        for _ in 0..rng.range(1, 4) {
            let (a, b) = (rng.pick(&cfg.names).clone(), rng.pick(&cfg.names).clone());
            evs.push(UpdateEvent::AddEdge { source_node: a.clone(), target_node: b.clone(), layer: k.1.clone(), component_type: k.0.clone(), component_name: k.2.clone() });
            if rng.chance(50) {
                evs.push(UpdateEvent::AddEdgeLabel { source_node: a, target_node: b, layer: k.1.clone(), component_type: k.0.clone(), component_name: k.2.clone(), anno_ns: "".into(), anno_name: "l".into(), anno_value: rng.pick(HOSTILE).to_string() });
            }
        }
        cfg.comps.push(k);
    }
    for h in HOSTILE.iter().take(rng.below(HOSTILE.len())) {
        evs.push(UpdateEvent::AddNodeLabel { node_name: rng.pick(&cfg.names).clone(), anno_ns: "h".into(), anno_name: rng.pick(&["x", "y", "a/b"]).to_string(), anno_value: h.to_string() });
    }
    let mut log = vec![format!("components {:?}", cfg.comps)];
    let er = |what: &str, log: &[String], e: String| Violation { sig: format!("{what}-failed"), detail: format!("{e}; {}", tail(log)) };
    let mut start = Model::default();
    for e in &evs {
        start.apply(e, &valid);
        log.push(format!("{e:?}"));
    }
    if !core_only && !few_paths(&start) {
        return Ok(());
    }
    let mut live: Vec<Live<CT>> = vec![];
    for i in 0..2 {
        let disk = rng.chance(50);
        let mut g: Graph<CT> = Graph::with_default_graphstorages(disk).map_err(|e| er("create", &log, e.to_string()))?;
        let mut model = Model::default();
        if i == 0 {
            g.apply_update(&mut events_to_update(&evs), |_| {}).map_err(|e| er("update", &log, e.to_string()))?;
            model = start.clone();
        }
        live.push(Live { g, model, at: None });
        log.push(format!("graph {i} disk={disk}"));
    }
    let mut loads = 0;
    let steps = rng.range(4, 12);
    for step in 0..steps {
        let i = if step == 0 { 0 } else { rng.below(2) };
        let d = rng.below(3);
        // a directory is only used by the one graph that has it as its location
        let taken = live.iter().enumerate().any(|(j, l)| j != i && l.at == Some(d));
        let dir = &dirs[d];
        match rng.below(if step == 0 { 5 } else { 16 }) {
            0..=2 if !taken => {
                log.push(format!("graph {i} save_to {d}"));
                live[i].g.save_to(dir).map_err(|e| er("save", &log, e.to_string()))?;
                on_disk[d] = Some(live[i].model.clone());
                ctx.count("save_to", 1);
            }
            3..=4 if !taken => {
                log.push(format!("graph {i} persist_to {d}"));
                live[i].g.persist_to(dir).map_err(|e| er("persist", &log, e.to_string()))?;
                on_disk[d] = Some(live[i].model.clone());
                live[i].at = Some(d);
                ctx.count("persist_to", 1);
            }
            5..=9 if !taken && on_disk[d].is_some() => {
                let import = rng.chance(35);
                log.push(format!("graph {i} {} {d}", if import { "import" } else { "open" }));
                if rng.chance(50) {
                    live[i].g = Graph::new(rng.chance(50)).map_err(|e| er("create", &log, e.to_string()))?;
                }
                let g = &mut live[i].g;
                if import { g.import(dir) } else { g.open(dir) }.map_err(|e| er("open", &log, e.to_string()))?;
                live[i].model = on_disk[d].clone().unwrap();
                live[i].at = if import { None } else { Some(d) };
                loads += 1;
                ctx.count(if import { "import" } else { "open" }, 1);
                // the components are known without loading them
                let listed: BTreeSet<CompKey> = live[i].g.get_all_components(None, None).iter().map(comp_key).collect();
                for (k, e) in &live[i].model.edges {
                    check!(e.is_empty() || listed.contains(k), "component-lost", "component {k:?} is not listed after loading: {listed:?}; {}", tail(&log));
                }
                let mut all = live[i].g.get_all_components(None, None);
                rng.shuffle(&mut all);
                match rng.below(4) {
                    0 => live[i].g.ensure_loaded_all().map_err(|e| er("load", &log, e.to_string()))?,
                    1 => {
                        all.truncate(2);
                        for c in all {
                            live[i].g.ensure_loaded(&c).map_err(|e| er("load", &log, e.to_string()))?;
                        }
                    }
                    2 => {
                        all.truncate(2);
                        let l = live[i].g.ensure_loaded_parallel(&all).map_err(|e| er("load", &log, e.to_string()))?;
                        check!(l.len() <= all.len(), "load-result", "{l:?} reported as loaded");
                    }
                    _ => {}
                }
            }
            10..=12 => {
                let n = rng.range(1, 10);
                let mut m = live[i].model.clone();
                let evs = gen_events(rng, &cfg, &mut m, n, &valid);
                if !core_only && !few_paths(&m) {
                    break;
                }
                live[i].model = m;
                log.push(format!("graph {i} update {evs:?}"));
                live[i].g.apply_update(&mut events_to_update(&evs), |_| {}).map_err(|e| er("update", &log, e.to_string()))?;
                if let Some(d) = live[i].at {
                    on_disk[d] = Some(live[i].model.clone());
                    ctx.count("updates_with_location", 1);
                }
            }
            13 => {
                log.push(format!("graph {i} optimize"));
                let disk = rng.chance(50);
                live[i].g.optimize_impl(disk).map_err(|e| er("optimize", &log, e.to_string()))?;
            }
            14 if live[i].at.is_some() => {
                log.push(format!("graph {i} background_sync"));
                live[i].g.background_sync_wal_updates().map_err(|e| er("sync", &log, e.to_string()))?;
                ctx.count("background_sync", 1);
            }
            _ => continue,
        }
        let after = snapshot(root, &except);
        check!(before == after, "written-outside", "files outside of the given directories changed: {:?} -> {:?}; {}", before.keys(), after.keys(), tail(&log));
        if rng.chance(60) {
            let l = &mut live[i];
            l.g.ensure_loaded_all().map_err(|e| er("load", &log, e.to_string()))?;
            compare(&l.g, &l.model, &log)?;
        }
    }
    for l in live.iter_mut() {
        l.g.ensure_loaded_all().map_err(|e| er("load", &log, e.to_string()))?;
        compare(&l.g, &l.model, &log)?;
    }
    drop(live);
    for (d, m) in on_disk.iter().enumerate() {
        if let Some(m) = m {
            log.push(format!("final load of {d}"));
            let mut g: Graph<CT> = Graph::new(rng.chance(50)).map_err(|e| er("create", &log, e.to_string()))?;
            #[allow(deprecated)]
            g.load_from(&dirs[d], true).map_err(|e| er("open", &log, e.to_string()))?;
            compare(&g, m, &log)?;
            loads += 1;
        }
    }
    ctx.count("loads", loads);
    ctx.count("components", cfg.comps.len() as u64);
    if loads > 0 && start.n_edges() > 0 {
        ctx.distinct(&format!("{log:?}"));
    }
    ctx.sample(json!({"components": cfg.comps.iter().map(|c| format!("{:?}", c).chars().take(80).collect::<String>()).collect::<Vec<_>>(), "loads": loads}));
    Ok(())
}
