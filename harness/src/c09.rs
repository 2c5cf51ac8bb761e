//! C09: query results are exactly the matches the query language defines.
use crate::aql::*;
use crate::c01::tail;
use crate::c05::few_paths;
use crate::corpus::*;
use crate::gmodel::*;
use crate::rt::*;
use graphannis::AnnotationGraph;
use graphannis::aql;
use graphannis_core::graph::NODE_NAME_KEY;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

pub fn run(ctx: &mut Ctx) {
    let n = ctx.n(900, 20000);
    ctx.cases("small", n, |c, r| corpus_case(c, r, false));
    ctx.cases("large", n / 30, |c, r| corpus_case(c, r, true));
}

pub fn valid(t: &str) -> bool {
    <graphannis::model::AnnotationComponentType as std::str::FromStr>::from_str(t).is_ok()
}

/// Execute and map to (node name, key) tuples
pub fn execute(g: &AnnotationGraph, q: &aql::Disjunction, parallel: bool, ev: &Ev) -> Result<Vec<Vec<Hit>>, String> {
    let name_id: BTreeMap<&str, usize> = ev.names.iter().enumerate().map(|(i, n)| (*n, i)).collect();
    let key_id: BTreeMap<(&str, &str), usize> = ev.keys.iter().enumerate().map(|(i, k)| ((k.0.as_str(), k.1.as_str()), i)).collect();
    let it = aql::execute_query_on_graph(g, q, parallel, None).map_err(|e| e.to_string())?;
    let mut res = vec![];
    for m in it {
        let m = m.map_err(|e| e.to_string())?;
        let mut t = vec![];
        for x in m.iter() {
            let n = g.get_node_annos().get_value_for_item(&x.node, &NODE_NAME_KEY).map_err(|e| e.to_string())?.ok_or("node without name in result")?;
            let n = *name_id.get(n.as_ref()).ok_or(format!("unknown node {n} in result"))?;
            let k = *key_id.get(&(x.anno_key.ns.as_str(), x.anno_key.name.as_str())).ok_or(format!("unknown key {:?} in result", x.anno_key))?;
            t.push((n, k));
        }
        res.push(t);
        if res.len() > 200_000 {
            return Err("more than 200000 results".into());
        }
    }
    Ok(res)
}

pub fn check_result(ev: &Ev, q: &Query, exp: &BTreeMap<Vec<Hit>, T>, obs: &[Vec<Hit>], how: &str, log: &str) -> Case {
    let ops: BTreeSet<&str> = q.alts.iter().flat_map(|c| c.ops.iter().map(|b| b.op.kind())).collect();
    let kinds = ops.into_iter().collect::<Vec<_>>().join("+");
    let mut seen = BTreeSet::new();
    for o in obs {
        if !seen.insert(o) {
            return viol(format!("duplicate:{kinds}"), format!("query `{}` ({how}): duplicate match {}; {log}", q.text, ev.show(o)));
        }
        if !exp.contains_key(o) {
            return viol(format!("spurious:{kinds}"), format!("query `{}` ({how}): match {} is not a match; expected {} sure matches, got {}; {log}", q.text, ev.show(o), exp.values().filter(|t| **t == T::Yes).count(), obs.len()));
        }
    }
    for (e, t) in exp {
        if *t == T::Yes && !seen.contains(e) {
            return viol(format!("missing:{kinds}"), format!("query `{}` ({how}): match {} is missing; got {} results; {log}", q.text, ev.show(e), obs.len()));
        }
    }
    Ok(())
}

fn is_plain(s: &str) -> bool {
    s.chars().all(|c| c.is_ascii_alphanumeric())
}

/// Keep the matches of which the first node is part of a document with this metadata.
fn metadata_filter(ev: &Ev, q: &Query, exp: BTreeMap<Vec<Hit>, T>, meta: &[Spec]) -> BTreeMap<Vec<Hit>, T> {
    exp.into_iter()
        .filter_map(|(t, s)| {
            let r = s.min(ev.in_document_with(t[0], &q.alts[0].nodes[0].spec, meta));
            (r != T::No).then_some((t, r))
        })
        .collect()
}

fn corpus_case(ctx: &mut Ctx, rng: &mut Rng, large: bool) -> Case {
    let er = |e: String| Violation { sig: "setup-failed".into(), detail: e };
    // texts with more than 50 tokens (the limit of unbounded operators in the compatibility mode)
    let long = large && rng.chance(25);
    let cfg = if long {
        Cfg { docs: (1, 2), texts: (1, 1), toks: (55, 80), spans: (2, 8), structs: (1, 4), pointing: (1, 6), segs: 1, ..Default::default() }
    } else if large {
        Cfg { docs: (2, 4), texts: (1, 2), toks: (10, 40), spans: (2, 12), structs: (2, 14), pointing: (2, 25), segs: 2, ..Default::default() }
    } else {
        Cfg { docs: (1, 2), texts: (1, 2), segs: 2, toks: (0, *rng.pick(&[3, 6, 8])), hostile: rng.chance(20), ..Default::default() }
    };
    let (mut evs, _) = gen_corpus(rng, "c", &cfg);
    // nodes which are not part of any component
    if rng.chance(30) {
        for i in 0..rng.range(1, 40) {
            let n = format!("c#lone{i}");
            evs.push(add_node(&n, "node"));
            annos(rng, &cfg, &n, &mut evs);
        }
    }
    let mut m = Model::default();
    for e in &evs {
        m.apply(e, &valid);
    }
    if !few_paths(&m) {
        ctx.count("skipped_too_many_paths", 1);
        return Ok(());
    }
    let Some(ev) = Ev::new(&m) else {
        ctx.count("skipped_too_many_paths", 1);
        return Ok(());
    };
    let disk = rng.chance(30);
    let mut g = AnnotationGraph::with_default_graphstorages(disk).map_err(|e| er(e.to_string()))?;
    let mut u = events_to_update(&evs);
    g.apply_update(&mut u, |_| {}).map_err(|e| er(e.to_string()))?;
    let prep = match rng.below(4) {
        0 => "none",
        1 => {
            g.calculate_all_statistics().map_err(|e| er(e.to_string()))?;
            "statistics"
        }
        x => {
            let d = x == 3;
            g.optimize_impl(d).map_err(|e| er(e.to_string()))?;
            if d { "optimize(disk)" } else { "optimize(memory)" }
        }
    };
    let corpus_log = || format!("graph disk={disk} prep={prep}; corpus: {}", tail(&evs.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>()));
    let p = Pools::new(&m);
    for i in 0..if large { 25 } else { 14 } {
        let mut q = gen_query(rng, &p, if large { 3 } else { 4 }, true);
        let unbounded = long && i < 4;
        if unbounded {
            let seg = if p.segs.is_empty() || i < 2 { None } else { Some(rng.pick(&p.segs).clone()) };
            let (op, text) = if i % 2 == 0 { (Op::Prec(seg.clone(), (1, None)), ".") } else { (Op::Near(seg.clone(), (1, None)), "^") };
            let node = || QNode { spec: Spec::Tok, opt: false, var: None };
            let text = format!("tok {text}{}* tok", seg.unwrap_or_default());
            q = Query { alts: vec![Conj { nodes: vec![node(), node()], ops: vec![BinOp { l: 0, r: 1, neg: false, op }], ..Default::default() }], text };
        }
        let mut budget = if large { 3_000_000 } else { 400_000 };
        let Some(exp) = ev.eval(&q, &mut budget) else {
            ctx.count("skipped_queries_too_large", 1);
            continue;
        };
        let log = corpus_log();
        // the compatibility mode has other rules for the same text
        let quirks = rng.chance(if unbounded { 60 } else { 25 });
        let (q, exp) = if quirks {
            let Some(mut q) = q.quirks() else { continue };
            let mut meta = vec![];
            if rng.chance(if exp.is_empty() { 10 } else { 60 }) && q.alts.iter().all(|c| !c.nodes[0].opt) {
                for _ in 0..rng.range(1, 2) {
                    let neg = rng.chance(25);
                    let docs: Vec<&String> = p.values.get(&("annis".to_string(), "doc".to_string())).into_iter().flatten().filter(|d| is_plain(d)).collect();
                    let s = match rng.below(8) {
                        0 | 1 if !docs.is_empty() => Spec::Anno(Some("annis".into()), "doc".into(), Some((neg, Txt::Exact(rng.pick(&docs).to_string())))),
                        0..=3 => Spec::Anno(None, "genre".into(), Some((neg, Txt::Re(rng.pick(&["n.*", "news|blog", "b[a-z]*"]).to_string())))),
                        4 | 5 => Spec::Anno(None, "language".into(), Some((neg, Txt::Exact("de".into())))),
                        _ => Spec::Anno(None, "genre".into(), Some((neg, Txt::Exact(rng.pick(&["news", "blog"]).to_string())))),
                    };
                    q.text = format!("{} & meta::{}", q.text, s.render());
                    meta.push(s);
                }
            }
            let Some(mut exp) = ev.eval(&q, &mut budget) else {
                ctx.count("skipped_queries_too_large", 1);
                continue;
            };
            if !meta.is_empty() {
                exp = metadata_filter(&ev, &q, exp, &meta);
                ctx.count("legacy_metadata_queries", 1);
            }
            ctx.count("queries_in_quirks_mode", 1);
            (q, exp)
        } else {
            (q, exp)
        };
        let log = if quirks { format!("quirks mode; {log}") } else { log };
        let d = match guarded(|| aql::parse(&q.text, quirks)) {
            Err(x) => return viol("parse-panic", format!("query `{}`: {} {}", q.text, x.0, x.1)),
            Ok(Err(e)) => return viol("rejected", format!("query `{}` rejected: {e}", q.text)),
            Ok(Ok(d)) => d,
        };
        for parallel in [false, true] {
            let how = format!("parallel={parallel} disk={disk} prep={prep}");
            let obs = match guarded(|| execute(&g, &d, parallel, &ev)) {
                Err(x) => return viol(format!("panic:{}", x.1), format!("query `{}` ({how}): {}; {log}", q.text, x.0)),
                Ok(Err(e)) => return viol("execution-failed", format!("query `{}` ({how}): {e}; {log}", q.text)),
                Ok(Ok(o)) => o,
            };
            check_result(&ev, &q, &exp, &obs, &how, &log)?;
            ctx.count("executions", 1);
            ctx.count("matches_compared", obs.len() as u64);
        }
        let sure = exp.values().filter(|t| **t == T::Yes).count();
        ctx.count("queries", 1);
        ctx.count("undecided_tuples", (exp.len() - sure) as u64);
        if sure > 0 {
            ctx.count("queries_with_matches", 1);
            for c in &q.alts {
                for b in &c.ops {
                    ctx.count(&format!("nonempty:{}{}", if b.neg { "!" } else { "" }, b.op.kind()), 1);
                }
                if c.nodes.iter().any(|n| n.opt) {
                    ctx.count("nonempty:optional", 1);
                }
            }
            ctx.distinct(&format!("{}#{}", q.text, m.fingerprint()));
        }
        if q.alts.len() > 1 {
            ctx.count("disjunctions", 1);
        }
        ctx.max("max_results", exp.len() as u64);
        ctx.sample(json!({"query": q.text, "results": sure, "nodes": ev.node_count(), "prep": prep, "disk": disk}));
    }
    Ok(())
}
