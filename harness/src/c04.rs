//! C04: every graph storage == plain edge relation with simple paths.
use crate::rt::*;
use graphannis_core::annostorage::AnnotationStorage;
use graphannis_core::annostorage::inmemory::AnnoStorageImpl;
use graphannis_core::graph::storage::{
    EdgeContainer, GraphStorage, WriteableGraphStorage, adjacencylist::AdjacencyListStorage, dense_adjacency::DenseAdjacencyListStorage, disk_adjacency::DiskAdjacencyListStorage, disk_path::DiskPathStorage,
    linear::LinearGraphStorage, prepost::PrePostOrderStorage, union::UnionEdgeContainer,
};
use graphannis_core::types::{AnnoKey, Annotation, Edge, NodeID};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Bound;
use std::path::Path;

pub type Labels = BTreeMap<(String, String), String>;
#[derive(Default, Clone)]
pub struct Rel {
    pub edges: BTreeMap<(NodeID, NodeID), Labels>,
    out: BTreeMap<NodeID, BTreeSet<NodeID>>,
    inv: BTreeMap<NodeID, BTreeSet<NodeID>>,
    nodes: BTreeSet<NodeID>,
    /// lengths of all simple paths
    lens: BTreeMap<NodeID, BTreeMap<NodeID, BTreeSet<usize>>>,
    cyclic: bool,
    depth: usize,
    paths: usize,
}

impl Rel {
    pub fn new(edges: BTreeMap<(NodeID, NodeID), Labels>) -> Option<Rel> {
        let mut r = Rel { edges, ..Default::default() };
        for (s, t) in r.edges.keys() {
            r.out.entry(*s).or_default().insert(*t);
            r.inv.entry(*t).or_default().insert(*s);
            r.nodes.insert(*s);
            r.nodes.insert(*t);
        }
        let mut budget = 60_000usize;
        for n in r.nodes.clone() {
            let mut path = vec![n];
            let mut m = BTreeMap::new();
            r.cyclic |= walk(&r.out, &mut path, &mut m, &mut budget);
            if budget == 0 {
                return None;
            }
            r.depth = r.depth.max(m.values().flat_map(|x: &BTreeSet<usize>| x.iter().copied()).max().unwrap_or(0));
            r.lens.insert(n, m);
        }
        r.paths = 60_000 - budget;
        Some(r)
    }
    /// some simple path from `a` to `b` has a length in the range
    pub fn has_path(&self, a: NodeID, b: NodeID, min: usize, max: Option<usize>) -> bool {
        self.lens.get(&a).and_then(|m| m.get(&b)).is_some_and(|l| l.range(min..=max.unwrap_or(usize::MAX).max(min)).next().is_some())
    }
    pub fn targets(&self, a: NodeID) -> usize {
        self.out.get(&a).map(|x| x.len()).unwrap_or(0)
    }
    pub fn out_of(&self, a: NodeID) -> impl Iterator<Item = NodeID> + '_ {
        self.out.get(&a).into_iter().flatten().copied()
    }
    fn max_out(&self) -> usize {
        self.out.values().map(|x| x.len()).max().unwrap_or(0)
    }
    fn max_in(&self) -> usize {
        self.inv.values().map(|x| x.len()).max().unwrap_or(0)
    }
}
fn walk(out: &BTreeMap<NodeID, BTreeSet<NodeID>>, path: &mut Vec<NodeID>, m: &mut BTreeMap<NodeID, BTreeSet<usize>>, budget: &mut usize) -> bool {
    if *budget == 0 {
        return false;
    }
    *budget -= 1;
    let n = *path.last().unwrap();
    m.entry(n).or_default().insert(path.len() - 1);
    let mut cyclic = false;
    if let Some(o) = out.get(&n) {
        for t in o {
            if path.contains(t) {
                cyclic = true;
            } else {
                path.push(*t);
                cyclic |= walk(out, path, m, budget);
                path.pop();
            }
        }
    }
    cyclic
}

pub fn run(ctx: &mut Ctx) {
    let n = ctx.n(500, 15000);
    for shape in ["chain", "forest", "pathtree", "dag", "cyclic", "any"] {
        ctx.cases(shape, n, |c, r| case(c, r, shape));
    }
    let n = ctx.n(300, 8000);
    ctx.cases("write", n, write_case);
}

pub fn gen_edges(rng: &mut Rng, shape: &str) -> BTreeSet<(NodeID, NodeID)> {
    let n = match shape {
        "chain" => *rng.pick(&[2, 3, 5, 9, 16, 17, 40, 254, 255, 256, 300]),
        "forest" | "pathtree" => *rng.pick(&[2, 3, 4, 6, 10, 16, 30, 70]),
        "dag" => *rng.pick(&[3, 4, 5, 7, 10, 14]),
        _ => *rng.pick(&[2, 3, 4, 5, 6, 7]),
    };
    let mut ids: Vec<NodeID> = match rng.below(4) {
        0 | 1 => (0..n as u64).collect(),
        2 => (0..n as u64).map(|i| i * 7 + 3).collect(),
        _ => (0..n as u64).map(|i| 250 + i * if i > 3 { 9 } else { 1 }).collect(),
    };
    if rng.chance(60) {
        rng.shuffle(&mut ids);
    }
    let mut e = BTreeSet::new();
    match shape {
        "chain" => {
            let brk = *rng.pick(&[0, 5, 30]);
            for i in 1..n {
                if !rng.chance(brk) {
                    e.insert((ids[i - 1], ids[i]));
                }
            }
        }
        "forest" => {
            let w = rng.range(1, 6);
            for i in 1..n {
                if rng.chance(92) {
                    let p = i - 1 - rng.below(w.min(i));
                    e.insert((ids[p], ids[i]));
                }
            }
        }
        "pathtree" => {
            // every node has at most one outgoing edge
            let w = rng.range(1, 6);
            for i in 1..n {
                if rng.chance(92) {
                    let p = i - 1 - rng.below(w.min(i));
                    e.insert((ids[i], ids[p]));
                }
            }
        }
        "dag" => {
            let p = rng.range(10, 45) as u32;
            for i in 0..n {
                for j in i + 1..n {
                    if rng.chance(p as _) {
                        e.insert((ids[i], ids[j]));
                    }
                }
            }
        }
        "cyclic" => {
            let k = rng.range(2, n);
            for i in 0..k {
                e.insert((ids[i], ids[(i + 1) % k]));
            }
            if rng.chance(50) {
                for _ in 0..rng.below(6) {
                    let (a, b) = (*rng.pick(&ids), *rng.pick(&ids));
                    if a != b {
                        e.insert((a, b));
                    }
                }
            } else {
                for i in k..n {
                    e.insert((ids[i], ids[rng.below(i)]));
                }
            }
        }
        _ => {
            for _ in 0..rng.below(14) {
                let (a, b) = (*rng.pick(&ids), *rng.pick(&ids));
                if a != b {
                    e.insert((a, b));
                }
            }
        }
    }
    e
}

fn err(e: impl std::fmt::Display) -> Violation {
    Violation { sig: "storage-error".into(), detail: e.to_string() }
}

pub fn label(rng: &mut Rng, e: BTreeSet<(NodeID, NodeID)>) -> BTreeMap<(NodeID, NodeID), Labels> {
    let p = *rng.pick(&[0, 30, 90]);
    e.into_iter()
        .map(|x| {
            let mut l = Labels::new();
            if rng.chance(p) {
                for _ in 0..rng.range(1, 3) {
                    l.insert((rng.pick(&["", "ns"]).to_string(), rng.pick(&["deprel", "x"]).to_string()), format!("v{}", rng.below(5)));
                }
            }
            (x, l)
        })
        .collect()
}

fn fill(rel: &Rel, gs: &mut dyn WriteableGraphStorage, rng: &mut Rng, ctx: &mut Ctx) -> Case {
    let mut es: Vec<_> = rel.edges.iter().collect();
    rng.shuffle(&mut es);
    for ((s, t), l) in es {
        if rng.chance(10) {
            // a temporary edge that is removed again
            let x = Edge { source: *t, target: s + 1 };
            if !rel.edges.contains_key(&(x.source, x.target)) {
                gs.add_edge(x.clone()).map_err(err)?;
                gs.add_edge_annotation(x.clone(), Annotation { key: AnnoKey { ns: "".into(), name: "tmp".into() }, val: "x".into() }).map_err(err)?;
                gs.delete_edge(&x).map_err(err)?;
                ctx.count("temporary_edges", 1);
            }
        }
        let e = Edge { source: *s, target: *t };
        gs.add_edge(e.clone()).map_err(err)?;
        for ((ns, name), v) in l {
            gs.add_edge_annotation(e.clone(), Annotation { key: AnnoKey { ns: ns.into(), name: name.into() }, val: v.clone() }).map_err(err)?;
        }
    }
    if rng.chance(70) {
        gs.calculate_statistics().map_err(err)?;
    }
    Ok(())
}

fn nodes(it: impl Iterator<Item = graphannis_core::errors::Result<NodeID>>, what: &str) -> Result<Vec<NodeID>, Violation> {
    let mut v = it.collect::<Result<Vec<_>, _>>().map_err(|e| Violation { sig: "storage-error".into(), detail: format!("{what}: {e}") })?;
    v.sort();
    Ok(v)
}

fn bound(rng: &mut Rng, depth: usize) -> (usize, Bound<usize>) {
    let d = depth + 3;
    let min = match rng.below(10) {
        0..=3 => 1,
        4..=5 => 0,
        6 => *rng.pick(&[usize::MAX, usize::MAX - 1, 1 << 40]),
        _ => rng.below(d),
    };
    let max = match rng.below(10) {
        0..=2 => Bound::Unbounded,
        3..=4 => Bound::Included(min),
        5..=6 => Bound::Included(rng.below(d)),
        7 => Bound::Included(min.saturating_add(rng.below(4))),
        8 => Bound::Included(*rng.pick(&[usize::MAX, usize::MAX - 1, 1 << 40])),
        _ => Bound::Excluded(1 + rng.below(d)),
    };
    (min, max)
}
fn inside(l: usize, min: usize, max: Bound<usize>) -> bool {
    l >= min
        && match max {
            Bound::Unbounded => true,
            Bound::Included(m) => l <= m,
            Bound::Excluded(m) => l < m,
        }
}

fn audit_container(rel: &Rel, gs: &dyn EdgeContainer, who: &str) -> Case {
    let exp: Vec<NodeID> = rel.out.keys().copied().collect();
    let got = nodes(gs.source_nodes(), "source_nodes")?;
    check!(got == exp, "source-nodes", "{who}: sources {got:?} instead of {exp:?}");
    let exp: Vec<NodeID> = rel.out.keys().copied().filter(|n| !rel.inv.contains_key(n)).collect();
    let got = nodes(gs.root_nodes(), "root_nodes")?;
    check!(got == exp, "root-nodes", "{who}: roots {got:?} instead of {exp:?}");
    let mut all = rel.nodes.clone();
    let m = all.last().copied().unwrap_or(0);
    all.extend([0, 1, m + 1, m + 1000, u64::MAX / 2]);
    let none = BTreeSet::new();
    for n in all {
        let exp: Vec<_> = rel.out.get(&n).unwrap_or(&none).iter().copied().collect();
        let got = nodes(gs.get_outgoing_edges(n), "outgoing")?;
        check!(got == exp, "outgoing", "{who}: outgoing edges of {n}: {got:?} instead of {exp:?}");
        let h = gs.has_outgoing_edges(n).map_err(err)?;
        check!(h == !exp.is_empty(), "has-outgoing", "{who}: has_outgoing_edges({n}) = {h}");
        let exp: Vec<_> = rel.inv.get(&n).unwrap_or(&none).iter().copied().collect();
        let got = nodes(gs.get_ingoing_edges(n), "ingoing")?;
        check!(got == exp, "ingoing", "{who}: ingoing edges of {n}: {got:?} instead of {exp:?}");
        let h = gs.has_ingoing_edges(n).map_err(err)?;
        check!(h == !exp.is_empty(), "has-ingoing", "{who}: has_ingoing_edges({n}) = {h}");
    }
    Ok(())
}

pub fn audit(ctx: &mut Ctx, rel: &Rel, gs: &dyn GraphStorage, rng: &mut Rng, who: &str) -> Case {
    audit_container(rel, gs.as_edgecontainer(), who)?;
    // labels
    let annos = gs.get_anno_storage();
    let mut total = 0;
    for ((s, t), l) in &rel.edges {
        let e = Edge { source: *s, target: *t };
        let got: Labels = annos.get_annotations_for_item(&e).map_err(err)?.into_iter().map(|a| ((a.key.ns, a.key.name), a.val)).collect();
        check!(&got == l, "edge-labels", "{who}: labels of {s}->{t}: {got:?} instead of {l:?}");
        total += l.len();
    }
    let got = annos.number_of_annotations().map_err(err)?;
    check!(got == total, "edge-labels", "{who}: {got} edge labels instead of {total}");
    // reachability
    let all: Vec<NodeID> = rel.nodes.iter().copied().collect();
    if all.is_empty() {
        return Ok(());
    }
    let mut sample = all.clone();
    rng.shuffle(&mut sample);
    sample.truncate(25);
    for s in sample {
        for _ in 0..3 {
            let (min, max) = bound(rng, rel.depth);
            ctx.count("reachability_queries", 1);
            let exp: Vec<NodeID> = rel.lens[&s].iter().filter(|(_, l)| l.iter().any(|l| inside(*l, min, max))).map(|x| *x.0).collect();
            let got = nodes(gs.find_connected(s, min, max), "find_connected")?;
            check!(got == exp, "find-connected", "{who}: find_connected({s}, {min}, {max:?}) = {got:?} instead of {exp:?}; edges {:?}", rel.edges.keys().take(40).collect::<Vec<_>>());
            let exp: Vec<NodeID> = all.iter().copied().filter(|n| rel.lens[n].get(&s).is_some_and(|l| l.iter().any(|l| inside(*l, min, max)))).collect();
            let got = nodes(gs.find_connected_inverse(s, min, max), "find_connected_inverse")?;
            check!(got == exp, "find-connected-inverse", "{who}: find_connected_inverse({s}, {min}, {max:?}) = {got:?} instead of {exp:?}; edges {:?}", rel.edges.keys().take(40).collect::<Vec<_>>());
            for _ in 0..4 {
                let t = if rng.chance(50) { *rng.pick(&rel.lens[&s].keys().copied().collect::<Vec<_>>()) } else { *rng.pick(&all) };
                if s == t && gs.serialization_id().starts_with("DiskPath") {
                    // by its own tests this storage does not define a connection of a node with itself
                    continue;
                }
                let l = rel.lens[&s].get(&t);
                let exp = l.is_some_and(|l| l.iter().any(|l| inside(*l, min, max)));
                let got = gs.is_connected(s, t, min, max).map_err(err)?;
                check!(got == exp, "is-connected", "{who}: is_connected({s}, {t}, {min}, {max:?}) = {got}; path lengths {l:?}; edges {:?}", rel.edges.keys().take(40).collect::<Vec<_>>());
                let exp = l.and_then(|l| l.first().copied());
                let got = gs.distance(s, t).map_err(err)?;
                check!(got == exp, "distance", "{who}: distance({s}, {t}) = {got:?} instead of {exp:?}; edges {:?}", rel.edges.keys().take(40).collect::<Vec<_>>());
            }
        }
        // nodes that are not part of the component
        let foreign = *rng.pick(&[all.last().unwrap() + 1, 1 << 33]);
        let got = nodes(gs.find_connected(foreign, 1, Bound::Unbounded), "find_connected")?;
        check!(got.is_empty(), "foreign-node", "{who}: {got:?} reachable from foreign node {foreign}");
        let got = nodes(gs.find_connected_inverse(foreign, 1, Bound::Unbounded), "find_connected_inverse")?;
        check!(got.is_empty(), "foreign-node", "{who}: {got:?} connected to foreign node {foreign}");
        let got = gs.is_connected(s, foreign, 0, Bound::Unbounded).map_err(err)? || gs.is_connected(foreign, s, 0, Bound::Unbounded).map_err(err)?;
        check!(!got, "foreign-node", "{who}: foreign node {foreign} is connected with {s}");
        let got = gs.distance(s, foreign).map_err(err)?;
        check!(got.is_none(), "foreign-node", "{who}: distance of foreign node {foreign} to {s} is {got:?}");
    }
    Ok(())
}

type Make = fn() -> Result<Box<dyn GraphStorage>, String>;
type Load = fn(&Path) -> Result<Box<dyn GraphStorage>, String>;
fn imp<G: GraphStorage + Default + 'static>() -> (Make, Load) {
    (|| Ok(Box::new(G::default())), |p| G::load_from(p).map(|g| Box::new(g) as Box<dyn GraphStorage>).map_err(|e| e.to_string()))
}

fn impls(rel: &Rel, max_id: NodeID) -> Vec<(&'static str, (Make, Load))> {
    let mut v: Vec<(&'static str, (Make, Load))> = vec![("AdjacencyList", imp::<AdjacencyListStorage>())];
    v.push(("DiskAdjacency", (|| DiskAdjacencyListStorage::new().map(|g| Box::new(g) as Box<dyn GraphStorage>).map_err(|e| e.to_string()), |p| DiskAdjacencyListStorage::load_from(p).map(|g| Box::new(g) as Box<dyn GraphStorage>).map_err(|e| e.to_string()))));
    if rel.edges.is_empty() {
        return v;
    }
    if rel.max_out() <= 1 {
        v.push(("DenseAdjacency", imp::<DenseAdjacencyListStorage>()));
        if !rel.cyclic && rel.depth <= 15 && max_id < 100_000 {
            v.push(("DiskPath", (|| DiskPathStorage::new().map(|g| Box::new(g) as Box<dyn GraphStorage>).map_err(|e| e.to_string()), |p| DiskPathStorage::load_from(p).map(|g| Box::new(g) as Box<dyn GraphStorage>).map_err(|e| e.to_string()))));
        }
    }
    if !rel.cyclic {
        v.push(("PrePost64/64", imp::<PrePostOrderStorage<u64, u64>>()));
        v.push(("PrePost64/32", imp::<PrePostOrderStorage<u64, u32>>()));
        v.push(("PrePost32/32", imp::<PrePostOrderStorage<u32, u32>>()));
        v.push(("PrePost16/32", imp::<PrePostOrderStorage<u16, u32>>()));
        if rel.depth < 255 {
            v.push(("PrePost64/8", imp::<PrePostOrderStorage<u64, u8>>()));
            v.push(("PrePost32/8", imp::<PrePostOrderStorage<u32, u8>>()));
            v.push(("PrePost16/8", imp::<PrePostOrderStorage<u16, u8>>()));
        }
        if rel.max_out() <= 1 && rel.max_in() <= 1 {
            v.push(("Linear64", imp::<LinearGraphStorage<u64>>()));
            v.push(("Linear32", imp::<LinearGraphStorage<u32>>()));
            v.push(("Linear16", imp::<LinearGraphStorage<u16>>()));
            if rel.depth < 255 {
                v.push(("Linear8", imp::<LinearGraphStorage<u8>>()));
            }
        }
    }
    v
}

fn case(ctx: &mut Ctx, rng: &mut Rng, shape: &str) -> Case {
    let e = gen_edges(rng, shape);
    let Some(rel) = Rel::new(label(rng, e)) else {
        ctx.count("skipped_too_many_paths", 1);
        return Ok(());
    };
    let mut node_annos = AnnoStorageImpl::<NodeID>::new();
    let old = rng.chance(20);
    let extra: &[NodeID] = if old { &[1, 2, 3, 9] } else { &[] };
    for n in rel.nodes.iter().chain(extra) {
        node_annos.insert(*n, Annotation { key: AnnoKey { ns: "annis".into(), name: "node_name".into() }, val: format!("n{n}") }).map_err(err)?;
    }
    let max_id = rel.nodes.last().copied().unwrap_or(0);
    let mut built: Vec<(String, Box<dyn GraphStorage>)> = vec![];
    // base storages filled by adding edges
    let mut base = AdjacencyListStorage::new();
    fill(&rel, &mut base, rng, ctx)?;
    audit(ctx, &rel, &base, rng, "AdjacencyList (filled)")?;
    let mut dbase = DiskAdjacencyListStorage::new().map_err(err)?;
    if rng.chance(50) {
        fill(&rel, &mut dbase, rng, ctx)?;
        audit(ctx, &rel, &dbase, rng, "DiskAdjacency (filled)")?;
        built.push(("DiskAdjacency".into(), Box::new(dbase)));
    }
    built.push(("AdjacencyList".into(), Box::new(base)));
    let mut cand = impls(&rel, max_id);
    rng.shuffle(&mut cand);
    if rel.edges.len() > 60 {
        cand.truncate(5);
    }
    for (name, (make, load)) in cand {
        let (from, orig) = rng.pick(&built);
        let who = format!("{name} copied from {from}");
        let mut gs = make().map_err(err)?;
        if old && rng.chance(60) {
            // existing content has to be replaced
            let mut other = AdjacencyListStorage::new();
            for (s, t) in [(1, 2), (2, 3), (9, 1)] {
                other.add_edge(Edge { source: s, target: t }).map_err(err)?;
                other.add_edge_annotation(Edge { source: s, target: t }, Annotation { key: AnnoKey { ns: "".into(), name: "old".into() }, val: "x".into() }).map_err(err)?;
            }
            gs.copy(&node_annos, &other).map_err(err)?;
            ctx.count("copied_over_content", 1);
        }
        gs.copy(&node_annos, orig.as_ref()).map_err(err)?;
        audit(ctx, &rel, gs.as_ref(), rng, &who)?;
        ctx.count(&format!("storage_{}", name.split(|c: char| c.is_ascii_digit()).next().unwrap_or("")), 1);
        if rng.chance(50) {
            let d = scratch();
            gs.save_to(d.path()).map_err(err)?;
            let mut gs2 = load(d.path()).map_err(err)?;
            check!(gs2.serialization_id() == gs.serialization_id(), "serialization-id", "{} loaded as {}", gs.serialization_id(), gs2.serialization_id());
            audit(ctx, &rel, gs2.as_ref(), rng, &format!("{who}, saved and loaded"))?;
            ctx.count("saved_and_loaded", 1);
            if rng.chance(30) {
                let d2 = scratch();
                gs2.save_to(d2.path()).map_err(err)?;
                drop(gs2);
                drop(d);
                gs2 = load(d2.path()).map_err(err)?;
                audit(ctx, &rel, gs2.as_ref(), rng, &format!("{who}, saved and loaded twice"))?;
            }
        }
        built.push((who.chars().take(60).collect(), gs));
    }
    // union of two storages that share the edges
    let mut a = AdjacencyListStorage::new();
    let mut b = AdjacencyListStorage::new();
    for (s, t) in rel.edges.keys() {
        let e = Edge { source: *s, target: *t };
        let w = rng.below(3);
        if w != 0 {
            a.add_edge(e.clone()).map_err(err)?;
        }
        if w != 1 {
            b.add_edge(e).map_err(err)?;
        }
    }
    audit_container(&rel, &UnionEdgeContainer::new(vec![&a, &b]), "union")?;
    if !rel.edges.is_empty() {
        ctx.distinct(&format!("{:?}", rel.edges));
        ctx.count("edges", rel.edges.len() as u64);
        ctx.max("max_path_length", rel.depth as u64);
        ctx.count(if rel.cyclic { "cyclic_graphs" } else { "acyclic_graphs" }, 1);
        ctx.sample(json!({"shape": shape, "edges": rel.edges.keys().take(10).collect::<Vec<_>>(), "storages": built.iter().map(|x| x.0.clone()).collect::<Vec<_>>()}));
    }
    Ok(())
}

/// Random write histories on the writable storages, with saving and loading in between.
fn write_case(ctx: &mut Ctx, rng: &mut Rng) -> Case {
    let disk = rng.chance(50);
    let make = || -> Result<Box<dyn WriteableGraphStorage>, Violation> {
        Ok(if disk { Box::new(DiskAdjacencyListStorage::new().map_err(err)?) } else { Box::new(AdjacencyListStorage::new()) })
    };
    let who = if disk { "DiskAdjacency" } else { "AdjacencyList" };
    let mut gs = make()?;
    let mut edges: BTreeMap<(NodeID, NodeID), Labels> = BTreeMap::new();
    let n = rng.range(2, 7) as u64;
    let mut dirs = vec![];
    let steps = rng.range(5, 60);
    for _ in 0..steps {
        let (s, t) = (rng.below(n as usize) as u64, rng.below(n as usize) as u64);
        let e = Edge { source: s, target: t };
        let k = (rng.pick(&["", "ns"]).to_string(), rng.pick(&["deprel", "x"]).to_string());
        let key = AnnoKey { ns: k.0.clone().into(), name: k.1.clone().into() };
        match rng.below(100) {
            0..=39 => {
                gs.add_edge(e).map_err(err)?;
                if s != t {
                    edges.entry((s, t)).or_default();
                }
            }
            40..=59 => {
                let v = format!("v{}", rng.below(4));
                gs.add_edge_annotation(e, Annotation { key, val: v.clone() }).map_err(err)?;
                if let Some(l) = edges.get_mut(&(s, t)) {
                    l.insert(k, v);
                }
            }
            60..=74 => {
                gs.delete_edge(&e).map_err(err)?;
                edges.remove(&(s, t));
            }
            75..=82 => {
                gs.delete_edge_annotation(&e, &key).map_err(err)?;
                if let Some(l) = edges.get_mut(&(s, t)) {
                    l.remove(&k);
                }
            }
            83..=88 => {
                gs.delete_node(s).map_err(err)?;
                edges.retain(|(a, b), _| *a != s && *b != s);
            }
            89..=91 => {
                gs.calculate_statistics().map_err(err)?;
            }
            92 => {
                gs.clear().map_err(err)?;
                edges.clear();
            }
            93..=96 => {
                let d = scratch();
                gs.save_to(d.path()).map_err(err)?;
                gs = if disk { Box::new(DiskAdjacencyListStorage::load_from(d.path()).map_err(err)?) } else { Box::new(AdjacencyListStorage::load_from(d.path()).map_err(err)?) };
                dirs.push(d);
                ctx.count("saved_and_loaded", 1);
            }
            _ => {
                let rel = Rel::new(edges.clone()).ok_or_else(|| err("too many paths"))?;
                audit(ctx, &rel, &*gs as &dyn GraphStorage, rng, who)?;
            }
        }
    }
    let rel = Rel::new(edges.clone()).ok_or_else(|| err("too many paths"))?;
    audit(ctx, &rel, &*gs as &dyn GraphStorage, rng, who)?;
    ctx.count("write_operations", steps as u64);
    if !edges.is_empty() {
        ctx.distinct(&format!("{disk}{edges:?}"));
    }
    Ok(())
}
