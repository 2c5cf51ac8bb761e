//! C05: statistics and storage optimisation never change graph content.
use crate::c01::{compare, tail};
use crate::c04;
use crate::gmodel::*;
use crate::rt::*;
use graphannis_core::graph::Graph;
use graphannis_core::graph::update::UpdateEvent;
use graphannis_core::types::{ComponentType, DefaultComponentType};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

pub fn run(ctx: &mut Ctx) {
    let n = ctx.n(1300, 30000);
    ctx.cases("core", n, |ctx, rng| history::<DefaultComponentType>(ctx, rng, true));
    ctx.cases("annis", n, |ctx, rng| history::<graphannis::model::AnnotationComponentType>(ctx, rng, false));
}

/// Events that create components of the given shapes; the returned configuration is for later random updates
pub fn shaped(rng: &mut Rng, core_only: bool, max_comps: usize) -> (Vec<UpdateEvent>, GenCfg, Vec<String>) {
    let mut cfg = gen_cfg(rng, core_only);
    cfg.names.clear();
    let mut evs = vec![];
    let mut shapes = vec![];
    let mut ids = BTreeSet::new();
    let mut edge_evs = vec![];
    cfg.comps.truncate(max_comps);
    for c in cfg.comps.clone() {
        let shape = *rng.pick(&["chain", "chain", "forest", "pathtree", "pathtree", "dag", "cyclic", "any"]);
        shapes.push(format!("{shape}:{}", c.0));
        let es = c04::gen_edges(rng, shape);
        for ((s, t), l) in c04::label(rng, es) {
            ids.insert(s);
            ids.insert(t);
            edge_evs.push(UpdateEvent::AddEdge { source_node: format!("n{s}"), target_node: format!("n{t}"), layer: c.1.clone(), component_type: c.0.clone(), component_name: c.2.clone() });
            for ((ns, name), v) in l {
                edge_evs.push(UpdateEvent::AddEdgeLabel { source_node: format!("n{s}"), target_node: format!("n{t}"), layer: c.1.clone(), component_type: c.0.clone(), component_name: c.2.clone(), anno_ns: ns, anno_name: name, anno_value: v });
            }
        }
    }
    ids.insert(0);
    if rng.chance(40) {
        let m = *ids.iter().next_back().unwrap();
        for i in 0..rng.below(30) as u64 {
            ids.insert(m + 1 + i);
        }
    }
    let mut names: Vec<String> = ids.iter().map(|i| format!("n{i}")).collect();
    if rng.chance(50) {
        rng.shuffle(&mut names);
    }
    for n in &names {
        evs.push(UpdateEvent::AddNode { node_name: n.clone(), node_type: rng.pick(&cfg.types).clone() });
        if rng.chance(30) {
            let (ns, name) = rng.pick(&cfg.anno_keys).clone();
            evs.push(UpdateEvent::AddNodeLabel { node_name: n.clone(), anno_ns: ns, anno_name: name, anno_value: rng.pick(&cfg.values).clone() });
        }
    }
    evs.extend(edge_evs);
    cfg.names = names;
    cfg.names.push("new1".into());
    (evs, cfg, shapes)
}

/// Reachability answers of every loaded component agree with its model edges
pub fn audit_components<CT: ComponentType>(ctx: &mut Ctx, rng: &mut Rng, g: &Graph<CT>, model: &Model, log: &[String]) -> Result<Vec<String>, Violation>
where
    <CT as std::str::FromStr>::Err: std::fmt::Debug,
{
    let mut used = vec![];
    let na = g.get_node_annos();
    let empty = BTreeMap::new();
    for c in g.get_all_components(None, None) {
        let k = comp_key(&c);
        if is_derived(&k) {
            continue;
        }
        let Some(gs) = g.get_graphstorage(&c) else { return viol("not-loaded", format!("{k:?} not loaded; {}", tail(log))) };
        used.push(gs.serialization_id());
        let mut es = BTreeMap::new();
        for ((s, t), l) in model.edges.get(&k).unwrap_or(&empty) {
            let s = na.get_node_id_from_name(s).ok().flatten();
            let t = na.get_node_id_from_name(t).ok().flatten();
            let (Some(s), Some(t)) = (s, t) else { return viol("node-id-lookup", format!("node of an edge in {k:?} not found; {}", tail(log))) };
            es.insert((s, t), l.clone());
        }
        if let Some(rel) = c04::Rel::new(es) {
            c04::audit(ctx, &rel, gs.as_ref(), rng, &format!("{k:?} as {}", gs.serialization_id())).map_err(|v| Violation { sig: v.sig, detail: format!("{}; {}", v.detail, tail(log)) })?;
            ctx.count("components_audited", 1);
        }
    }
    Ok(used)
}

/// The number of paths through coverage and dominance edges together is small
/// (the implementation enumerates them when it derives the token coverage)
pub fn few_paths(m: &Model) -> bool {
    let mut ids: BTreeMap<&str, u64> = BTreeMap::new();
    for n in m.nodes.keys() {
        let l = ids.len() as u64;
        ids.insert(n, l);
    }
    let mut es = BTreeMap::new();
    for (k, e) in &m.edges {
        if k.0 == "Coverage" || k.0 == "Dominance" {
            for (s, t) in e.keys() {
                es.insert((ids[s.as_str()], ids[t.as_str()]), Default::default());
            }
        }
    }
    c04::Rel::new(es).is_some()
}

fn history<CT: ComponentType>(ctx: &mut Ctx, rng: &mut Rng, core_only: bool) -> Case
where
    <CT as std::str::FromStr>::Err: std::fmt::Debug,
{
    let valid = |t: &str| CT::from_str(t).is_ok();
    let (evs, cfg, shapes) = shaped(rng, core_only, 3);
    let disk = rng.chance(45);
    let mut log = vec![format!("disk={disk} {shapes:?}")];
    let er = |what: &str, log: &[String], e: String| Violation { sig: format!("{what}-failed"), detail: format!("{e}; {}", tail(log)) };
    let mut g: Graph<CT> = if core_only { Graph::new(disk) } else { Graph::with_default_graphstorages(disk) }.map_err(|e| er("create", &log, e.to_string()))?;
    let mut model = Model::default();
    for e in &evs {
        model.apply(e, &valid);
        log.push(format!("{e:?}"));
    }
    if !core_only && !few_paths(&model) {
        ctx.count("skipped_too_many_paths", 1);
        return Ok(());
    }
    let mut u = events_to_update(&evs);
    g.apply_update(&mut u, |_| {}).map_err(|e| er("update", &log, e.to_string()))?;
    compare(&g, &model, &log)?;
    let home = scratch();
    if rng.chance(25) {
        log.push("persist_to".into());
        g.persist_to(home.path()).map_err(|e| er("persist", &log, e.to_string()))?;
    }
    let mut all_used = BTreeSet::new();
    for step in 0..rng.range(2, 6) {
        match rng.below(if step == 0 { 4 } else { 9 }) {
            0..=3 => {
                let d = rng.chance(50);
                log.push(format!("optimize_impl({d})"));
                g.optimize_impl(d).map_err(|e| er("optimize", &log, e.to_string()))?;
                ctx.count("optimize_impl", 1);
            }
            4 => {
                log.push("calculate_all_statistics".into());
                g.calculate_all_statistics().map_err(|e| er("statistics", &log, e.to_string()))?;
            }
            5 => {
                let c = key_comp::<CT>(rng.pick(&cfg.comps));
                log.push(format!("optimize_gs_impl {c}"));
                g.optimize_gs_impl(&c).map_err(|e| er("optimize-gs", &log, e.to_string()))?;
                ctx.count("optimize_gs_impl", 1);
            }
            6 => {
                let all = g.get_all_components(None, None);
                if !all.is_empty() {
                    let c = rng.pick(&all).clone();
                    log.push(format!("calculate_component_statistics {c}"));
                    g.calculate_component_statistics(&c).map_err(|e| er("statistics", &log, e.to_string()))?;
                }
            }
            _ => {
                let n = rng.range(1, 12);
                let evs = gen_events(rng, &cfg, &mut model, n, &valid);
                if !core_only && !few_paths(&model) {
                    ctx.count("skipped_too_many_paths", 1);
                    break;
                }
                log.extend(evs.iter().map(|e| format!("{e:?}")));
                let mut u = events_to_update(&evs);
                let keep = rng.chance(50);
                log.push(format!("apply(keep_statistics={keep})"));
                let r = if keep { g.apply_update_keep_statistics(&mut u, |_| {}) } else { g.apply_update(&mut u, |_| {}) };
                r.map_err(|e| er("update", &log, e.to_string()))?;
                ctx.count("updates_on_optimised", 1);
            }
        }
        compare(&g, &model, &log)?;
        for u in audit_components(ctx, rng, &g, &model, &log)? {
            ctx.count(&format!("storage:{u}"), 1);
            all_used.insert(u);
        }
    }
    ctx.max("max_nodes", model.nodes.len() as u64);
    ctx.max("max_edges", model.n_edges() as u64);
    if model.n_edges() > 0 {
        ctx.distinct(&format!("{log:?}"));
    }
    ctx.sample(json!({"shapes": shapes, "storages_used": all_used, "edges": model.n_edges()}));
    Ok(())
}
