//! C15: subgraph extraction.
use crate::aql::*;
use crate::c01::tail;
use crate::c05::few_paths;
use crate::corpus::*;
use crate::gmodel::*;
use crate::rt::*;
use crate::store::*;
use graphannis::corpusstorage::{QueryLanguage, ResultOrder};
use graphannis::model::AnnotationComponentType;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

pub fn run(ctx: &mut Ctx) {
    let n = ctx.n(2400, 12000);
    ctx.cases("small", n, |c, r| sub_case(c, r, false));
    ctx.cases("large", n / 20, |c, r| sub_case(c, r, true));
}

type Pairs = BTreeSet<(String, String)>;

/// Expected content for the given nodes, restricted to one component type if given
fn induced(m: &Model, nodes: &BTreeSet<String>, ctype: Option<&str>) -> Model {
    let mut r = Model::default();
    for n in nodes {
        if let Some(l) = m.nodes.get(n) {
            r.nodes.insert(n.clone(), l.clone());
        }
    }
    for (k, es) in &m.edges {
        if is_derived(k) || ctype.is_some_and(|t| t != k.0) {
            continue;
        }
        let sel: BTreeMap<_, _> = es.iter().filter(|((a, b), _)| nodes.contains(a) && nodes.contains(b)).map(|(e, l)| (e.clone(), l.clone())).collect();
        if !sel.is_empty() {
            r.edges.insert(k.clone(), sel);
        }
    }
    r
}

struct Facts<'a> {
    m: &'a Model,
    d: Derived,
    chains: BTreeMap<usize, Vec<String>>,
    covering: BTreeMap<String, BTreeSet<String>>,
    parents: BTreeMap<String, Vec<String>>,
}
impl<'a> Facts<'a> {
    fn new(m: &'a Model) -> Facts<'a> {
        let d = derive(m);
        let mut chains: BTreeMap<usize, Vec<(usize, String)>> = BTreeMap::new();
        for (n, (c, i)) in &d.pos {
            chains.entry(*c).or_default().push((*i, n.clone()));
        }
        let chains = chains
            .into_iter()
            .map(|(c, mut v)| {
                v.sort();
                (c, v.into_iter().map(|x| x.1).collect())
            })
            .collect();
        let mut covering: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        for (n, ts) in &d.covered {
            for t in ts {
                if t != n {
                    covering.entry(t.clone()).or_default().insert(n.clone());
                }
            }
        }
        let mut parents: BTreeMap<String, Vec<String>> = BTreeMap::new();
        if let Some(es) = m.edges.get(&("PartOf".into(), "annis".into(), "".into())) {
            for (a, b) in es.keys() {
                parents.entry(a.clone()).or_default().push(b.clone());
            }
        }
        Facts { m, d, chains, covering, parents }
    }
    fn ancestors(&self, n: &str) -> BTreeSet<String> {
        let mut r = BTreeSet::new();
        let mut todo = vec![n.to_string()];
        while let Some(x) = todo.pop() {
            for p in self.parents.get(&x).into_iter().flatten() {
                if r.insert(p.clone()) {
                    todo.push(p.clone());
                }
            }
        }
        r
    }
    /// chain, first and last position of the context of a node
    fn region(&self, n: &str, left: usize, right: usize, seg: Option<&str>) -> Option<(usize, usize, usize)> {
        let ps: Vec<(usize, usize)> = self.d.covered.get(n)?.iter().filter_map(|t| self.d.pos.get(t).copied()).collect();
        let (c, _) = *ps.first()?;
        let (mut lo, mut hi) = (ps.iter().map(|p| p.1).min()?, ps.iter().map(|p| p.1).max()?);
        match seg {
            None => {
                lo = lo.saturating_sub(left);
                hi = hi.saturating_add(right).min(self.chains[&c].len() - 1);
            }
            Some(s) => {
                let ord: Pairs = self.m.edges.get(&("Ordering".into(), "default_ns".into(), s.into())).map(|e| e.keys().cloned().collect()).unwrap_or_default();
                let next: BTreeMap<&String, &String> = ord.iter().map(|(a, b)| (a, b)).collect();
                let prev: BTreeMap<&String, &String> = ord.iter().map(|(a, b)| (b, a)).collect();
                let tokens: Vec<&String> = self.d.covered[n].iter().collect();
                let span = |x: &str| -> Option<(usize, usize)> {
                    let p: Vec<usize> = self.d.covered.get(x)?.iter().filter_map(|t| self.d.pos.get(t).map(|p| p.1)).collect();
                    Some((*p.iter().min()?, *p.iter().max()?))
                };
                // the segmentation must follow the text
                let chain = |x: &str| -> Option<usize> { self.d.covered.get(x)?.iter().find_map(|t| self.d.pos.get(t).map(|p| p.0)) };
                for (a, b) in &ord {
                    match (span(a), span(b)) {
                        (Some(x), Some(y)) if chain(a) == chain(b) && x.1 < y.0 => {}
                        _ => return Some((usize::MAX, 0, 0)),
                    }
                }
                let mut segs: Vec<(usize, String)> = tokens
                    .iter()
                    .flat_map(|t| self.covering.get(*t).into_iter().flatten())
                    .filter(|x| next.contains_key(x) || prev.contains_key(x))
                    .filter_map(|x| span(x).map(|s| (s.0, x.clone())))
                    .collect();
                segs.sort();
                if let (Some(first), Some(last)) = (segs.first().cloned(), segs.last().cloned()) {
                    let (mut a, mut b) = (first.1, last.1);
                    for _ in 0..left.min(100000) {
                        match prev.get(&a) {
                            Some(p) => a = p.to_string(),
                            None => break,
                        }
                    }
                    for _ in 0..right.min(100000) {
                        match next.get(&b) {
                            Some(p) => b = p.to_string(),
                            None => break,
                        }
                    }
                    lo = span(&a)?.0;
                    hi = span(&b)?.1;
                    if lo > hi {
                        return Some((usize::MAX, 0, 0)); // segmentation does not follow the text
                    }
                }
            }
        }
        Some((c, lo, hi))
    }
}

fn sub_case(ctx: &mut Ctx, rng: &mut Rng, large: bool) -> Case {
    let valid = |t: &str| <AnnotationComponentType as std::str::FromStr>::from_str(t).is_ok();
    let gc = if large {
        Cfg { docs: (2, 4), texts: (1, 2), toks: (20, 80), spans: (5, 20), structs: (5, 20), pointing: (2, 30), segs: 2, ..Default::default() }
    } else {
        Cfg { docs: (1, 3), texts: (1, 2), toks: (0, *rng.pick(&[3, 6, 15])), segs: 2, hostile: rng.chance(30), ..Default::default() }
    };
    let dir = scratch();
    let cfg = SCfg::random(rng);
    let mut cs = Some(cfg.open(dir.path())?);
    let c = "c";
    let (mut e, mut info) = gen_corpus(rng, c, &gc);
    let mut m = Model::default();
    for x in &e {
        m.apply(x, &valid);
    }
    let initial = e.len();
    let mut cuts: Vec<usize> = (0..initial).collect();
    for _ in 0..rng.below(5) {
        let (mut x, _) = gen_edit(rng, &gc, &mut info, &m);
        x.retain(|e| !matches!(e, U::DeleteNodeLabel { anno_ns, anno_name, .. } if anno_ns == "annis" && anno_name == "tok"));
        for x in &x {
            m.apply(x, &valid);
        }
        e.extend(x);
        if !expected_index(&m).1.is_empty() {
            ctx.count("skipped_unconnected_coverage", 1);
            return Ok(());
        }
        cuts.push(e.len());
    }
    if !few_paths(&m) {
        ctx.count("skipped_too_many_paths", 1);
        return Ok(());
    }
    let mut log = vec![format!("{cfg:?}")];
    cs.as_ref().unwrap().create_empty_corpus(c, rng.chance(40)).map_err(serr)?;
    for part in split_at(rng, &e, &cuts, 3) {
        apply(cs.as_ref().unwrap(), c, part)?;
    }
    if rng.chance(50) {
        cs.as_ref().unwrap().reoptimize_implementation(c, rng.chance(40)).map_err(serr)?;
        log.push("reoptimize".into());
    }
    if rng.chance(60) {
        // components have to be loaded on demand
        cs = None;
        cs = Some(cfg.open(dir.path())?);
        log.push("restart".into());
    }
    let cs = cs.as_ref().unwrap();
    log.extend(e.iter().map(|e| format!("{e:?}")));
    let f = Facts::new(&m);
    let gap = ("Ordering".to_string(), "annis".to_string(), "datasource-gap".to_string());
    let names: Vec<String> = m.nodes.keys().cloned().collect();
    let anno: Vec<String> = m.nodes.iter().filter(|(_, l)| l.get(&("annis".to_string(), "node_type".to_string())).is_some_and(|t| t == "node")).map(|x| x.0.clone()).collect();
    'requests: for _ in 0..if large { 6 } else { 8 } {
        if anno.is_empty() {
            break;
        }
        match rng.below(8) {
            // ------------------------------------------------- context around nodes
            0..=4 => {
                let k = *rng.pick(&[1, 1, 1, 2, 2, 3, 4]);
                let mut ids: Vec<String> = (0..k).map(|_| if rng.chance(95) { rng.pick(&anno).clone() } else { rng.pick(&names).clone() }).collect();
                if rng.chance(10) {
                    let dup = ids[0].clone();
                    ids.push(dup);
                }
                let pick = |rng: &mut Rng| *rng.pick(&[0, 0, 1, 1, 2, 3, 5, 10, 1000, usize::MAX]);
                let (l, r) = (pick(rng), pick(rng));
                let segs: Vec<String> = m.edges.keys().filter(|k| k.0 == "Ordering" && k.1 == "default_ns").map(|k| k.2.clone()).collect();
                let seg = if rng.chance(30) && !segs.is_empty() { Some(rng.pick(&segs).clone()) } else { None };
                let what = || format!("subgraph({ids:?}, {l}, {r}, {seg:?}): {}", tail(&log));
                let g = match guarded(|| cs.subgraph(c, ids.clone(), l, r, seg.clone())) {
                    Err(x) => return viol(format!("panic:{}", short_loc(&x.0)), format!("{} {}", x.1, what())),
                    Ok(g) => g,
                };
                if m.edges.get(&("Ordering".into(), "annis".into(), "".into())).is_none_or(|e| e.is_empty()) {
                    ctx.count("without_token_order", 1);
                    continue;
                }
                let g = match g {
                    Ok(g) => g,
                    Err(e) => return viol("subgraph-fails", format!("{e}; {}", what())),
                };
                let mut nodes: BTreeSet<String> = ids.iter().cloned().collect();
                let mut regions: Vec<(usize, usize, usize)> = vec![];
                for n in &ids {
                    nodes.extend(f.ancestors(n));
                    if let Some((c, lo, hi)) = f.region(n, l, r, seg.as_deref()) {
                        if c == usize::MAX {
                            ctx.count("skipped_malformed_segmentation", 1);
                            continue 'requests;
                        }
                        for t in &f.chains[&c][lo..=hi] {
                            nodes.insert(t.clone());
                            nodes.extend(f.covering.get(t).into_iter().flatten().cloned());
                        }
                        regions.push((c, lo, hi));
                    }
                }
                let mut exp = induced(&m, &nodes, None);
                // gaps between the regions of one text
                regions.sort();
                let mut merged: Vec<(usize, usize, usize)> = vec![];
                for r in regions {
                    match merged.last_mut() {
                        Some(p) if p.0 == r.0 && r.1 <= p.2 + 1 => p.2 = p.2.max(r.2),
                        _ => merged.push(r),
                    }
                }
                let mut gaps = Pairs::new();
                for w in merged.windows(2) {
                    if w[0].0 == w[1].0 {
                        gaps.insert((f.chains[&w[0].0][w[0].2].clone(), f.chains[&w[1].0][w[1].1].clone()));
                    }
                }
                if !gaps.is_empty() {
                    ctx.count("with_gaps", 1);
                    exp.edges.insert(gap.clone(), gaps.into_iter().map(|e| (e, Labels::new())).collect());
                }
                let obs = observe(&g, true)?;
                if let Some(x) = exp.diff(&obs) {
                    return viol(if x.contains("datasource-gap") { "gap-edges" } else { "context-subgraph" }, format!("{x}; {}", what()));
                }
                ctx.count("context_subgraphs", 1);
                ctx.max("largest_subgraph", exp.nodes.len() as u64);
                if exp.n_edges() > 2 && exp.nodes.len() < m.nodes.len() {
                    ctx.distinct(&format!("{ids:?}{l}{r}{seg:?}{}", m.fingerprint()));
                }
                ctx.sample(json!({"ids": ids, "left": l, "right": r, "segmentation": seg, "nodes": exp.nodes.len(), "edges": exp.n_edges(), "corpus_nodes": m.nodes.len()}));
            }
            // ------------------------------------------------- documents
            5 => {
                let corpora: Vec<String> = names.iter().filter(|n| !n.contains('#')).cloned().collect();
                let ids: Vec<String> = (0..rng.range(1, 2)).map(|_| rng.pick(&corpora).clone()).collect();
                let arg: Vec<String> = ids.iter().map(|i| if rng.chance(20) { format!("salt:/{i}") } else { i.clone() }).collect();
                let what = || format!("subcorpus_graph({arg:?}): {}", tail(&log));
                let g = match guarded(|| cs.subcorpus_graph(c, arg.clone())) {
                    Err(x) => return viol(format!("panic:{}", short_loc(&x.0)), format!("{} {}", x.1, what())),
                    Ok(Err(e)) => return viol("subcorpus-fails", format!("{e}; {}", what())),
                    Ok(Ok(g)) => g,
                };
                let nodes: BTreeSet<String> = m
                    .nodes
                    .iter()
                    .filter(|(n, l)| {
                        let t = l.get(&("annis".to_string(), "node_type".to_string())).map(|x| x.as_str()).unwrap_or("");
                        (t == "node" || t == "datasource") && f.ancestors(n).iter().any(|a| ids.contains(a))
                    })
                    .map(|x| x.0.clone())
                    .collect();
                let mut obs = observe(&g, true)?;
                let exp = induced(&m, &nodes, None);
                obs.edges.remove(&gap);
                if let Some(x) = exp.diff(&obs) {
                    return viol("subcorpus-subgraph", format!("{x}; {}", what()));
                }
                ctx.count("subcorpus_graphs", 1);
                if exp.n_edges() > 2 && exp.nodes.len() < m.nodes.len() {
                    ctx.distinct(&format!("{ids:?}{}", m.fingerprint()));
                }
            }
            // ------------------------------------------------- corpus structure
            6 => {
                let g = match guarded(|| cs.corpus_graph(c)) {
                    Err(x) => return viol(format!("panic:{}", short_loc(&x.0)), format!("corpus_graph: {} {}", x.1, tail(&log))),
                    Ok(Err(e)) => return viol("corpus-graph-fails", format!("{e}; {}", tail(&log))),
                    Ok(Ok(g)) => g,
                };
                let nodes: BTreeSet<String> = m.nodes.iter().filter(|(_, l)| l.get(&("annis".to_string(), "node_type".to_string())).is_some_and(|t| t == "corpus")).map(|x| x.0.clone()).collect();
                let exp = induced(&m, &nodes, Some("PartOf"));
                if let Some(x) = exp.diff(&observe(&g, true)?) {
                    return viol("corpus-structure", format!("{x}; {}", tail(&log)));
                }
                ctx.count("corpus_graphs", 1);
            }
            // ------------------------------------------------- query
            _ => {
                let p = Pools::new(&m);
                let q = gen_query(rng, &p, 3, true);
                let filter = if rng.chance(50) { None } else { Some(rng.pick(&[AnnotationComponentType::Coverage, AnnotationComponentType::Dominance, AnnotationComponentType::Pointing, AnnotationComponentType::Ordering, AnnotationComponentType::PartOf]).clone()) };
                let what = || format!("subgraph_for_query(`{}`, {filter:?}): {}", q.text, tail(&log));
                let g = match guarded(|| cs.subgraph_for_query(c, &q.text, QueryLanguage::AQL, filter.clone())) {
                    Err(x) => return viol(format!("panic:{}", short_loc(&x.0)), format!("{} {}", x.1, what())),
                    Ok(g) => g,
                };
                let lines = find(cs, &[c.to_string()], &q.text, QueryLanguage::AQL, ResultOrder::NotSorted);
                let (g, lines) = match (g, lines) {
                    (Ok(g), Ok(l)) => (g, l),
                    (Err(_), Err(_)) => {
                        ctx.count("rejected_queries", 1);
                        continue;
                    }
                    (Err(e), Ok(_)) => return viol("query-subgraph-fails", format!("{e}; {}", what())),
                    (Ok(_), Err(e)) => return viol("query-subgraph-succeeds", format!("find failed with {e}; {}", what())),
                };
                let nodes: BTreeSet<String> = lines.iter().flat_map(|l| l.split(' ')).map(|p| p.rsplit("::").next().unwrap_or(p).to_string()).collect();
                if nodes.iter().any(|n| !m.nodes.contains_key(n)) {
                    continue;
                }
                let t = filter.as_ref().map(|t| t.to_string());
                let exp = induced(&m, &nodes, t.as_deref());
                let mut obs = observe(&g, true)?;
                obs.edges.remove(&gap);
                if let Some(x) = exp.diff(&obs) {
                    return viol("query-subgraph", format!("{x}; {}", what()));
                }
                ctx.count("query_subgraphs", 1);
                if exp.n_edges() > 0 {
                    ctx.distinct(&format!("{}{filter:?}{}", q.text, m.fingerprint()));
                }
            }
        }
    }
    Ok(())
}
