//! C12: the derived token coverage index does not depend on the edit history.
use crate::c01::tail;
use crate::corpus::*;
use crate::gmodel::*;
use crate::rt::*;
use graphannis::AnnotationGraph;
use serde_json::json;
use std::collections::BTreeSet;

pub fn run(ctx: &mut Ctx) {
    let n = ctx.n(3200, 60000);
    ctx.cases("edit", n, |c, r| history(c, r, false, false));
    ctx.cases("rebuild", n / 4, |c, r| history(c, r, true, false));
    // nodes that cover token which are far apart
    ctx.cases("long", n / 100, |c, r| history(c, r, false, true));
}

fn er(e: impl std::fmt::Display) -> Violation {
    Violation { sig: "update-failed".into(), detail: e.to_string() }
}

fn compare_index(obs: &Idx, exp: &Idx, ambiguous: &BTreeSet<String>, what: &str, log: &[String]) -> Case {
    for k in ["inherited", "left", "right"] {
        let f = |x: &BTreeSet<(String, String)>| -> BTreeSet<(String, String)> { x.iter().filter(|e| k == "inherited" || !ambiguous.contains(&e.0)).cloned().collect() };
        let (o, e) = (f(&obs[k]), f(&exp[k]));
        if o != e {
            let missing: Vec<_> = e.difference(&o).take(5).collect();
            let extra: Vec<_> = o.difference(&e).take(5).collect();
            return viol(format!("index-{k}"), format!("{what}: {k} index edges missing {missing:?}, spurious {extra:?}; history: {}", tail(log)));
        }
    }
    Ok(())
}

fn history(ctx: &mut Ctx, rng: &mut Rng, rebuild: bool, long: bool) -> Case {
    let valid = |t: &str| <graphannis::model::AnnotationComponentType as std::str::FromStr>::from_str(t).is_ok();
    let cfg = if long {
        Cfg { docs: (1, 1), texts: (1, 1), toks: (60, 400), spans: (4, 12), segs: 0, ..Default::default() }
    } else {
        Cfg { docs: (1, 2), texts: (1, 2), ..Default::default() }
    };
    let (evs, mut info) = gen_corpus(rng, "c", &cfg);
    let mut g = AnnotationGraph::with_default_graphstorages(rng.chance(30)).map_err(er)?;
    let mut m = Model::default();
    let mut log = vec![];
    let mut lists: Vec<Vec<U>> = vec![evs];
    if rebuild {
        // the initial corpus in several lists (the texts stay complete chains of what exists)
        let all = lists.pop().unwrap();
        let (nodes, edges): (Vec<U>, Vec<U>) = all.into_iter().partition(|e| matches!(e, U::AddNode { .. } | U::AddNodeLabel { .. }));
        let (order, mut other): (Vec<U>, Vec<U>) = edges.into_iter().partition(|e| matches!(e, U::AddEdge { component_type, .. } | U::DeleteEdge { component_type, .. } if component_type == "Ordering"));
        let mut nodes_first = nodes;
        nodes_first.extend(order);
        lists.push(nodes_first);
        // edge labels must stay behind their edge: shuffle blocks
        let mut blocks: Vec<Vec<U>> = vec![];
        for e in other.drain(..) {
            if matches!(e, U::AddEdgeLabel { .. }) && !blocks.is_empty() { blocks.last_mut().unwrap().push(e) } else { blocks.push(vec![e]) }
        }
        rng.shuffle(&mut blocks);
        let k = rng.range(1, 12);
        for b in blocks.chunks(k) {
            lists.push(b.concat());
        }
    }
    let mut kinds = BTreeSet::new();
    let n_edits = rng.range(1, 8);
    let mut li = 0;
    let mut edits = 0;
    loop {
        if li == lists.len() {
            if edits == n_edits {
                break;
            }
            edits += 1;
            let mut l = vec![];
            for _ in 0..rng.range(1, 4) {
                // later edits in the list see the effect of the earlier ones
                let mut preview = m.clone();
                for e in &l {
                    preview.apply(e, &valid);
                }
                let (e, k) = gen_edit(rng, &cfg, &mut info, &preview);
                kinds.insert(k);
                ctx.count(&format!("edit:{k}"), 1);
                l.extend(e);
            }
            lists.push(l);
        }
        let l = &lists[li];
        li += 1;
        log.push(format!("list {l:?}"));
        for e in l {
            m.apply(e, &valid);
        }
        let mut u = events_to_update(l);
        if rng.chance(70) { g.apply_update(&mut u, |_| {}) } else { g.apply_update_keep_statistics(&mut u, |_| {}) }.map_err(er)?;
        if rng.chance(10) {
            log.push("optimize".into());
            g.optimize_impl(rng.chance(40)).map_err(er)?;
        }
        let obs = observed_index(&observe(&g, true).map_err(|v| Violation { sig: v.sig, detail: format!("{}; history: {}", v.detail, tail(&log)) })?);
        let (exp, amb) = expected_index(&m);
        compare_index(&obs, &exp, &amb, "after the edits", &log)?;
        ctx.count("index_edges_compared", (exp["inherited"].len() + exp["left"].len() + exp["right"].len()) as u64);
        ctx.count("ambiguous_nodes", amb.len() as u64);
    }
    // the same content in one list
    let mut g2 = AnnotationGraph::with_default_graphstorages(rng.chance(30)).map_err(er)?;
    g2.apply_update(&mut events_to_update(&m.to_events()), |_| {}).map_err(er)?;
    let obs2 = observed_index(&observe(&g2, true)?);
    let (exp, amb) = expected_index(&m);
    compare_index(&obs2, &exp, &amb, "built with one list", &log)?;
    if !exp["left"].is_empty() {
        ctx.distinct(&format!("{log:?}"));
    }
    ctx.sample(json!({"lists": lists.len(), "kinds": kinds, "nodes": m.nodes.len(), "inherited": exp["inherited"].len()}));
    Ok(())
}
