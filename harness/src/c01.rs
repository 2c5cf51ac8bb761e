//! C01: applying update lists == sequential reference model.
use crate::gmodel::*;
use crate::rt::*;

use graphannis_core::graph::Graph;
use graphannis_core::types::{ComponentType, DefaultComponentType};
use serde_json::json;

pub fn run(ctx: &mut Ctx) {
    let n = ctx.n(4000, 80000);
    ctx.cases("core", n, |ctx, rng| history::<DefaultComponentType>(ctx, rng, true));
    let n = ctx.n(4000, 80000);
    ctx.cases("annis", n, |ctx, rng| history::<graphannis::model::AnnotationComponentType>(ctx, rng, false));
}

fn history<CT: ComponentType>(ctx: &mut Ctx, rng: &mut Rng, core_only: bool) -> Case {
    let cfg = gen_cfg(rng, core_only);
    let valid = |t: &str| CT::from_str(t).is_ok();
    let disk = rng.chance(45);
    let mut g: Graph<CT> = if core_only && rng.chance(50) { Graph::new(disk) } else { Graph::with_default_graphstorages(disk) }
        .map_err(|e| Violation { sig: "create".into(), detail: e.to_string() })?;
    let mut model = Model::default();
    let batches = rng.range(1, 6);
    let mut log = vec![format!("disk={disk}")];
    let mut kinds = std::collections::BTreeMap::new();
    let mut total = 0;
    for b in 0..batches {
        let n = if b == 0 { rng.range(10, 60) + cfg.names.len() } else { rng.range(1, 40) };
        let evs = gen_events(rng, &cfg, &mut model, n, &valid);
        for e in &evs {
            *kinds.entry(event_kind(e)).or_insert(0u64) += 1;
            log.push(format!("{e:?}"));
        }
        total += evs.len();
        let mut u = events_to_update(&evs);
        let r = if rng.chance(50) { g.apply_update(&mut u, |_| {}) } else { g.apply_update_keep_statistics(&mut u, |_| {}) };
        if let Err(e) = r {
            return viol("update-failed", format!("a valid update list was rejected: {e}; {}", tail(&log)));
        }
        compare(&g, &model, &log)?;
        // change the implementation between the batches: later batches have to work on any implementation
        match rng.below(5) {
            0 => {
                let d = rng.chance(50);
                log.push(format!("optimize_impl({d})"));
                g.optimize_impl(d).map_err(|e| Violation { sig: "optimize".into(), detail: format!("{e}; {}", tail(&log)) })?;
                compare(&g, &model, &log)?;
                ctx.count("optimize_between_batches", 1);
            }
            1 => {
                log.push("calculate_all_statistics".into());
                g.calculate_all_statistics().map_err(|e| Violation { sig: "statistics".into(), detail: e.to_string() })?;
                compare(&g, &model, &log)?;
            }
            _ => {}
        }
    }
    for (k, v) in kinds {
        ctx.count(&format!("events:{k}"), v);
    }
    ctx.count("events", total as u64);
    ctx.count("batches", batches as u64);
    ctx.count(if disk { "disk_based" } else { "in_memory" }, 1);
    ctx.max("max_nodes", model.nodes.len() as u64);
    ctx.max("max_edges", model.n_edges() as u64);
    if model.nodes.len() >= 2 && model.n_edges() >= 1 {
        ctx.distinct(&format!("{:?}", log));
    }
    ctx.sample(json!({"history_head": log.iter().take(8).collect::<Vec<_>>(), "final_nodes": model.nodes.len(), "final_edges": model.n_edges()}));
    Ok(())
}

pub fn tail(log: &[String]) -> String {
    if std::env::var("VH_FULL").is_ok() {
        return log.join(" ; ");
    }
    let s = log.join(" ; ");
    if s.len() > 6000 { format!("{}...", s.chars().take(6000).collect::<String>()) } else { s }
}

pub fn compare<CT: ComponentType>(g: &Graph<CT>, model: &Model, log: &[String]) -> Case {
    let obs = observe(g, false).map_err(|v| Violation { sig: v.sig, detail: format!("{}; history: {}", v.detail, tail(log)) })?;
    // the default components of an annotation graph exist but are empty: normalized away
    if let Some(d) = model.diff(&obs) {
        return viol("content-mismatch", format!("{d}; history: {}", tail(log)));
    }
    audit_node_search(g, model).map_err(|v| Violation { sig: v.sig, detail: format!("{}; history: {}", v.detail, tail(log)) })?;
    Ok(())
}
