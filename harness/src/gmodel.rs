//! Reference model of an annotation graph: nodes and edges by name, with labels.
//! It is written from the documentation of the update events, not from the implementation.
use crate::rt::*;
use graphannis_core::annostorage::ValueSearch;
use graphannis_core::graph::Graph;
use graphannis_core::graph::update::{GraphUpdate, UpdateEvent};
use graphannis_core::types::{AnnoKey, Component, ComponentType, Edge, NodeID};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

pub type Labels = BTreeMap<(String, String), String>;
pub type CompKey = (String, String, String); // type, layer, name

#[derive(Clone, Default, PartialEq, Eq, Debug)]
pub struct Model {
    pub nodes: BTreeMap<String, Labels>,
    pub edges: BTreeMap<CompKey, BTreeMap<(String, String), Labels>>,
}

impl Model {
    pub fn apply(&mut self, e: &UpdateEvent, valid_type: &dyn Fn(&str) -> bool) {
        match e {
            UpdateEvent::AddNode { node_name, node_type } => {
                if !self.nodes.contains_key(node_name) {
                    let mut l = Labels::new();
                    l.insert(("annis".into(), "node_name".into()), node_name.clone());
                    l.insert(("annis".into(), "node_type".into()), node_type.clone());
                    self.nodes.insert(node_name.clone(), l);
                }
            }
            UpdateEvent::DeleteNode { node_name } => {
                self.nodes.remove(node_name);
                for es in self.edges.values_mut() {
                    es.retain(|(s, t), _| s != node_name && t != node_name);
                }
            }
            UpdateEvent::AddNodeLabel { node_name, anno_ns, anno_name, anno_value } => {
                if let Some(l) = self.nodes.get_mut(node_name) {
                    l.insert((anno_ns.clone(), anno_name.clone()), anno_value.clone());
                }
            }
            UpdateEvent::DeleteNodeLabel { node_name, anno_ns, anno_name } => {
                if let Some(l) = self.nodes.get_mut(node_name) {
                    l.remove(&(anno_ns.clone(), anno_name.clone()));
                }
            }
            UpdateEvent::AddEdge { source_node, target_node, layer, component_type, component_name } => {
                // self loops are not representable and ignored
                if source_node != target_node
                    && valid_type(component_type)
                    && self.nodes.contains_key(source_node)
                    && self.nodes.contains_key(target_node)
                {
                    self.edges
                        .entry((component_type.clone(), layer.clone(), component_name.clone()))
                        .or_default()
                        .entry((source_node.clone(), target_node.clone()))
                        .or_default();
                }
            }
            UpdateEvent::DeleteEdge { source_node, target_node, layer, component_type, component_name } => {
                if let Some(es) = self.edges.get_mut(&(component_type.clone(), layer.clone(), component_name.clone())) {
                    es.remove(&(source_node.clone(), target_node.clone()));
                }
            }
            UpdateEvent::AddEdgeLabel { source_node, target_node, layer, component_type, component_name, anno_ns, anno_name, anno_value } => {
                if let Some(es) = self.edges.get_mut(&(component_type.clone(), layer.clone(), component_name.clone()))
                    && let Some(l) = es.get_mut(&(source_node.clone(), target_node.clone()))
                {
                    l.insert((anno_ns.clone(), anno_name.clone()), anno_value.clone());
                }
            }
            UpdateEvent::DeleteEdgeLabel { source_node, target_node, layer, component_type, component_name, anno_ns, anno_name } => {
                if let Some(es) = self.edges.get_mut(&(component_type.clone(), layer.clone(), component_name.clone()))
                    && let Some(l) = es.get_mut(&(source_node.clone(), target_node.clone()))
                {
                    l.remove(&(anno_ns.clone(), anno_name.clone()));
                }
            }
        }
    }
    pub fn normalized(mut self) -> Model {
        self.edges.retain(|_, e| !e.is_empty());
        self
    }
    pub fn n_edges(&self) -> usize {
        self.edges.values().map(|e| e.len()).sum()
    }
    pub fn diff(&self, other: &Model) -> Option<String> {
        let a = self.clone().normalized();
        let b = other.clone().normalized();
        for (n, l) in &a.nodes {
            match b.nodes.get(n) {
                None => return Some(format!("node {n:?} expected but missing")),
                Some(l2) if l2 != l => return Some(format!("labels of node {n:?}: expected {l:?}, observed {l2:?}")),
                _ => {}
            }
        }
        for n in b.nodes.keys() {
            if !a.nodes.contains_key(n) {
                return Some(format!("node {n:?} observed but not expected"));
            }
        }
        let empty = BTreeMap::new();
        let comps: BTreeSet<_> = a.edges.keys().chain(b.edges.keys()).collect();
        for c in comps {
            let ea = a.edges.get(c).unwrap_or(&empty);
            let eb = b.edges.get(c).unwrap_or(&empty);
            for (e, l) in ea {
                match eb.get(e) {
                    None => return Some(format!("edge {e:?} in {c:?} expected but missing")),
                    Some(l2) if l2 != l => return Some(format!("labels of edge {e:?} in {c:?}: expected {l:?}, observed {l2:?}")),
                    _ => {}
                }
            }
            for e in eb.keys() {
                if !ea.contains_key(e) {
                    return Some(format!("edge {e:?} in {c:?} observed but not expected"));
                }
            }
        }
        None
    }
    /// canonical text form
    pub fn fingerprint(&self) -> u64 {
        hash_str(&format!("{:?}", self.clone().normalized()))
    }
    /// The update events which create this graph from scratch
    pub fn to_events(&self) -> Vec<UpdateEvent> {
        let mut r = vec![];
        for (n, l) in &self.nodes {
            r.push(UpdateEvent::AddNode {
                node_name: n.clone(),
                node_type: l.get(&("annis".to_string(), "node_type".to_string())).cloned().unwrap_or("node".into()),
            });
            for ((ns, name), v) in l {
                if ns == "annis" && (name == "node_name" || name == "node_type") {
                    continue;
                }
                r.push(UpdateEvent::AddNodeLabel {
                    node_name: n.clone(),
                    anno_ns: ns.clone(),
                    anno_name: name.clone(),
                    anno_value: v.clone(),
                });
            }
        }
        for ((t, layer, name), es) in &self.edges {
            for ((s, tg), l) in es {
                r.push(UpdateEvent::AddEdge {
                    source_node: s.clone(),
                    target_node: tg.clone(),
                    layer: layer.clone(),
                    component_type: t.clone(),
                    component_name: name.clone(),
                });
                for ((ns, an), v) in l {
                    r.push(UpdateEvent::AddEdgeLabel {
                        source_node: s.clone(),
                        target_node: tg.clone(),
                        layer: layer.clone(),
                        component_type: t.clone(),
                        component_name: name.clone(),
                        anno_ns: ns.clone(),
                        anno_name: an.clone(),
                        anno_value: v.clone(),
                    });
                }
            }
        }
        r
    }
}

pub fn events_to_update(ev: &[UpdateEvent]) -> GraphUpdate {
    let mut u = GraphUpdate::new();
    for e in ev {
        u.add_event(e.clone()).expect("add_event");
    }
    u
}

/// Components which are calculated by the corpus model and not part of the user data
pub fn is_derived(c: &CompKey) -> bool {
    c.0 == "LeftToken" || c.0 == "RightToken" || (c.0 == "Coverage" && c.1 == "annis" && c.2 == "inherited-coverage")
}

pub fn comp_key<CT: ComponentType>(c: &Component<CT>) -> CompKey {
    (c.get_type().to_string(), c.layer.clone(), c.name.clone())
}
pub fn key_comp<CT: ComponentType>(k: &CompKey) -> Component<CT>
where
    <CT as FromStr>::Err: std::fmt::Debug,
{
    let t = CT::from_str(&k.0).ok().expect("component type");
    Component::new(t, k.1.clone(), k.2.clone())
}

fn e2s(e: impl std::fmt::Display) -> Violation {
    Violation { sig: "read-error".into(), detail: format!("reading the graph failed: {e}") }
}

/// Read the complete content of a graph through its public read API and cross-check the
/// different ways to read the same fact.
pub fn observe<CT: ComponentType>(g: &Graph<CT>, keep_derived: bool) -> Result<Model, Violation> {
    let mut m = Model::default();
    let na = g.get_node_annos();
    let mut id2name: BTreeMap<NodeID, String> = BTreeMap::new();
    let name_key = AnnoKey { ns: "annis".into(), name: "node_name".into() };
    for r in na.exact_anno_search(Some("annis"), "node_name", ValueSearch::Any) {
        let r = r.map_err(e2s)?;
        let name = match na.get_value_for_item(&r.node, &name_key).map_err(e2s)? {
            Some(n) => n.to_string(),
            None => return viol("search-value-mismatch", format!("node {} found by name search has no name", r.node)),
        };
        if let Some(old) = id2name.insert(r.node, name.clone()) {
            return viol("duplicate-search-result", format!("node {} found twice ({old:?}, {name:?})", r.node));
        }
        let mut labels = Labels::new();
        for a in na.get_annotations_for_item(&r.node).map_err(e2s)? {
            if labels.insert((a.key.ns.clone(), a.key.name.clone()), a.val.clone()).is_some() {
                return viol("duplicate-label", format!("node {name:?} has label {:?} twice", a.key));
            }
        }
        if m.nodes.insert(name.clone(), labels).is_some() {
            return viol("duplicate-node-name", format!("two nodes named {name:?}"));
        }
        let id = na.get_node_id_from_name(&name).map_err(e2s)?;
        check!(id == Some(r.node), "node-id-lookup", "node {name:?} has ID {} but lookup by name gives {id:?}", r.node);
        check!(na.has_node_name(&name).map_err(e2s)?, "node-id-lookup", "has_node_name is false for {name:?}");
    }
    // every node must be marked as node by the node_type label and vice versa
    let mut by_type = BTreeSet::new();
    for r in na.exact_anno_search(Some("annis"), "node_type", ValueSearch::Any) {
        by_type.insert(r.map_err(e2s)?.node);
    }
    let ids: BTreeSet<NodeID> = id2name.keys().copied().collect();
    check!(ids == by_type, "node-type-index", "nodes with a name {ids:?} != nodes with a type {by_type:?}");
    let n_annos: usize = m.nodes.values().map(|l| l.len()).sum();
    let reported = na.number_of_annotations().map_err(e2s)?;
    check!(n_annos == reported, "number-of-annotations", "{n_annos} node labels exist but {reported} are reported");
    if let Some(l) = na.get_largest_item().map_err(e2s)? {
        if let Some(max) = ids.iter().next_back() {
            check!(l >= *max, "largest-item", "largest item {l} is smaller than node ID {max}");
        }
    }

    for c in g.get_all_components(None, None) {
        let k = comp_key(&c);
        if !keep_derived && is_derived(&k) {
            continue;
        }
        let gs = match g.get_graphstorage(&c) {
            Some(gs) => gs,
            None => return viol("component-not-loaded", format!("component {k:?} is not loaded")),
        };
        let mut es: BTreeMap<(String, String), Labels> = BTreeMap::new();
        let mut raw: BTreeSet<(NodeID, NodeID)> = BTreeSet::new();
        let mut n_e_annos = 0;
        let mut sources = BTreeSet::new();
        for s in gs.source_nodes() {
            let s = s.map_err(e2s)?;
            check!(sources.insert(s), "duplicate-source", "source node {s} listed twice in {k:?}");
            let sname = match id2name.get(&s) {
                Some(n) => n.clone(),
                None => return viol("dangling-edge", format!("component {k:?} has source node {s} which does not exist")),
            };
            let mut n_out = 0;
            for t in gs.get_outgoing_edges(s) {
                let t = t.map_err(e2s)?;
                n_out += 1;
                check!(raw.insert((s, t)), "duplicate-edge", "edge {s}->{t} listed twice in {k:?}");
                let tname = match id2name.get(&t) {
                    Some(n) => n.clone(),
                    None => return viol("dangling-edge", format!("component {k:?} has edge {sname:?} -> {t} to a node which does not exist")),
                };
                let mut labels = Labels::new();
                for a in gs.get_anno_storage().get_annotations_for_item(&Edge { source: s, target: t }).map_err(e2s)? {
                    n_e_annos += 1;
                    labels.insert((a.key.ns, a.key.name), a.val);
                }
                es.insert((sname.clone(), tname), labels);
            }
            check!(n_out > 0, "empty-source", "source node {s} in {k:?} has no outgoing edges");
            check!(gs.has_outgoing_edges(s).map_err(e2s)?, "has-outgoing", "has_outgoing_edges is false for {s} in {k:?}");
        }
        // the same edges must be visible from the target side, and no node without edges has some
        let mut raw_in = BTreeSet::new();
        for id in &ids {
            for s in gs.get_ingoing_edges(*id) {
                raw_in.insert((s.map_err(e2s)?, *id));
            }
            if !sources.contains(id) {
                check!(gs.get_outgoing_edges(*id).next().is_none(), "source-nodes-incomplete", "node {id} has outgoing edges in {k:?} but is not listed as source");
            }
            let exp_in = raw.iter().any(|(_, t)| t == id);
            let got_in = gs.has_ingoing_edges(*id).map_err(e2s)?;
            check!(exp_in == got_in, "has-ingoing", "has_ingoing_edges({id}) = {got_in} in {k:?} ({})", gs.serialization_id());
        }
        check!(raw == raw_in, "in-out-mismatch", "outgoing edges {raw:?} != ingoing edges {raw_in:?} in {k:?} ({})", gs.serialization_id());
        let rep = gs.get_anno_storage().number_of_annotations().map_err(e2s)?;
        check!(rep == n_e_annos, "stale-edge-label", "{n_e_annos} edge labels on existing edges but {rep} stored in {k:?}");
        // the search over edge labels must agree
        let mut found = 0;
        for key in gs.get_anno_storage().annotation_keys().map_err(e2s)? {
            for r in gs.get_anno_storage().exact_anno_search(Some(&key.ns), &key.name, ValueSearch::Any) {
                r.map_err(e2s)?;
                found += 1;
            }
        }
        check!(found == n_e_annos, "edge-label-search", "search finds {found} edge labels, {n_e_annos} exist in {k:?}");
        m.edges.insert(k, es);
    }
    Ok(m)
}

/// Search consistency of node labels: every (key, value) found by exact search exactly on the nodes that have it.
pub fn audit_node_search<CT: ComponentType>(g: &Graph<CT>, m: &Model) -> Case {
    let na = g.get_node_annos();
    let name_key = AnnoKey { ns: "annis".into(), name: "node_name".into() };
    let mut expected: BTreeMap<(String, String), BTreeMap<String, BTreeSet<String>>> = BTreeMap::new();
    for (n, ls) in &m.nodes {
        for (k, v) in ls {
            expected.entry(k.clone()).or_default().entry(v.clone()).or_default().insert(n.clone());
        }
    }
    let mut keys: BTreeSet<(String, String)> = BTreeSet::new();
    for k in na.annotation_keys().map_err(e2s)? {
        keys.insert((k.ns, k.name));
    }
    let exp_keys: BTreeSet<_> = expected.keys().cloned().collect();
    check!(keys == exp_keys, "annotation-keys", "annotation keys: expected {exp_keys:?}, observed {keys:?}");
    for ((ns, name), vals) in &expected {
        let total: usize = vals.values().map(|s| s.len()).sum();
        let cnt = na.number_of_annotations_by_name(Some(ns), name).map_err(e2s)?;
        check!(cnt == total, "count-by-name", "{ns}:{name}: {total} labels exist, {cnt} reported");
        for (v, nodes) in vals {
            let mut got = BTreeSet::new();
            for r in na.exact_anno_search(Some(ns), name, ValueSearch::Some(v)) {
                let r = r.map_err(e2s)?;
                let n = na.get_value_for_item(&r.node, &name_key).map_err(e2s)?.map(|x| x.to_string()).unwrap_or_default();
                check!(got.insert(n.clone()), "duplicate-search-result", "{ns}:{name}={v:?} finds {n:?} twice");
            }
            check!(&got == nodes, "exact-search", "{ns}:{name}={v:?}: expected {nodes:?}, found {got:?}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- generators

pub const HOSTILE: &[&str] = &[
    "", "a", "b", "A", "ab", "abc", "b c", "ä", "ää", "Straße", "\u{1F600}", "日本", "x\"y", "a&b<c>", "tab\tx", "nl\nx", "a/b", "a::b", "x#y", "%41", "..", "'", "\\", "a.b*", " ", "zz\u{10FFFF}",
];

pub struct GenCfg {
    pub names: Vec<String>,
    pub types: Vec<String>,
    pub comps: Vec<CompKey>,
    pub anno_keys: Vec<(String, String)>,
    pub values: Vec<String>,
    /// percentage of node removals
    pub del: usize,
}

pub fn gen_cfg(rng: &mut Rng, core_only: bool) -> GenCfg {
    let n = if rng.chance(12) { rng.range(15, 90) } else { rng.range(3, 14) };
    let mut names: Vec<String> = (0..n).map(|i| format!("n{i}")).collect();
    for _ in 0..rng.below(4) {
        let h = rng.pick(HOSTILE).to_string();
        let s = if rng.chance(50) { format!("c/d{}#{h}", rng.below(3)) } else { h };
        if !s.is_empty() && !names.contains(&s) {
            names.push(s);
        }
    }
    let types = vec!["node".to_string(), "corpus".into(), "t\u{e4}".into()];
    let all_types: &[&str] = if core_only { &["Edge"] } else { &["Coverage", "Dominance", "Pointing", "Ordering", "PartOf"] };
    let mut comps = vec![];
    for _ in 0..rng.range(1, 4) {
        let layer = rng.pick(&["", "l1", "default_ns", "annis", "L 2", "ä"]).to_string();
        let name = rng.pick(&["", "dep", "edge", "x y", "é"]).to_string();
        let k = (rng.pick(all_types).to_string(), layer, name);
        if !comps.contains(&k) {
            comps.push(k);
        }
    }
    let mut anno_keys = vec![];
    for _ in 0..rng.range(1, 4) {
        let k = (rng.pick(&["", "ns", "ns2", "n"]).to_string(), rng.pick(&["pos", "lemma", "p", "pos2", "ö"]).to_string());
        if !anno_keys.contains(&k) {
            anno_keys.push(k);
        }
    }
    let mut values = vec![];
    for _ in 0..rng.range(1, 6) {
        values.push(rng.pick(HOSTILE).to_string());
    }
    let del = *rng.pick(&[0, 1, 2, 4, 8]);
    GenCfg { names, types, comps, anno_keys, values, del }
}

pub fn gen_event(rng: &mut Rng, cfg: &GenCfg) -> UpdateEvent {
    let n = |rng: &mut Rng| {
        if rng.chance(3) { "does-not-exist".to_string() } else { rng.pick(&cfg.names).clone() }
    };
    let c = rng.pick(&cfg.comps).clone();
    let ctype = if rng.chance(1) { "NoSuchType".to_string() } else { c.0.clone() };
    let k = rng.pick(&cfg.anno_keys).clone();
    let v = rng.pick(&cfg.values).clone();
    if rng.chance(cfg.del) {
        return UpdateEvent::DeleteNode { node_name: n(rng) };
    }
    match rng.below(100) {
        0..=32 => UpdateEvent::AddNode { node_name: rng.pick(&cfg.names).clone(), node_type: rng.pick(&cfg.types).clone() },
        33..=47 => UpdateEvent::AddNodeLabel { node_name: n(rng), anno_ns: k.0, anno_name: k.1, anno_value: v },
        48..=53 => UpdateEvent::DeleteNodeLabel { node_name: n(rng), anno_ns: k.0, anno_name: k.1 },
        54..=76 => UpdateEvent::AddEdge { source_node: n(rng), target_node: n(rng), layer: c.1, component_type: ctype, component_name: c.2 },
        77..=82 => UpdateEvent::DeleteEdge { source_node: n(rng), target_node: n(rng), layer: c.1, component_type: ctype, component_name: c.2 },
        83..=94 => UpdateEvent::AddEdgeLabel { source_node: n(rng), target_node: n(rng), layer: c.1, component_type: ctype, component_name: c.2, anno_ns: k.0, anno_name: k.1, anno_value: v },
        _ => UpdateEvent::DeleteEdgeLabel { source_node: n(rng), target_node: n(rng), layer: c.1, component_type: ctype, component_name: c.2, anno_ns: k.0, anno_name: k.1 },
    }
}
/// Edge label events on edges that exist, so that they are not all no-ops
pub fn gen_events(rng: &mut Rng, cfg: &GenCfg, model: &mut Model, n: usize, valid: &dyn Fn(&str) -> bool) -> Vec<UpdateEvent> {
    let mut r = vec![];
    for _ in 0..n {
        let mut e = gen_event(rng, cfg);
        if rng.chance(70) {
            // retarget edge events to existing edges
            let pick = |rng: &mut Rng, t: &str, l: &str, nme: &str| -> Option<(String, String)> {
                let es = model.edges.get(&(t.to_string(), l.to_string(), nme.to_string()))?;
                if es.is_empty() { return None; }
                es.keys().nth(rng.below(es.len())).cloned()
            };
            match &mut e {
                UpdateEvent::DeleteEdge { source_node, target_node, layer, component_type, component_name }
                | UpdateEvent::AddEdgeLabel { source_node, target_node, layer, component_type, component_name, .. }
                | UpdateEvent::DeleteEdgeLabel { source_node, target_node, layer, component_type, component_name, .. } => {
                    if let Some((s, t)) = pick(rng, component_type, layer, component_name) {
                        *source_node = s;
                        *target_node = t;
                    }
                }
                _ => {}
            }
        }
        model.apply(&e, valid);
        r.push(e);
    }
    r
}

pub fn event_kind(e: &UpdateEvent) -> &'static str {
    match e {
        UpdateEvent::AddNode { .. } => "AddNode",
        UpdateEvent::DeleteNode { .. } => "DeleteNode",
        UpdateEvent::AddNodeLabel { .. } => "AddNodeLabel",
        UpdateEvent::DeleteNodeLabel { .. } => "DeleteNodeLabel",
        UpdateEvent::AddEdge { .. } => "AddEdge",
        UpdateEvent::DeleteEdge { .. } => "DeleteEdge",
        UpdateEvent::AddEdgeLabel { .. } => "AddEdgeLabel",
        UpdateEvent::DeleteEdgeLabel { .. } => "DeleteEdgeLabel",
    }
}
