//! Generator of annotated corpora (texts, tokens, spans, trees, pointing relations, segmentations)
//! and of edits that keep them well-formed.
use crate::gmodel::*;
use crate::rt::*;
use graphannis_core::graph::update::UpdateEvent;
use std::collections::{BTreeMap, BTreeSet};

pub type U = UpdateEvent;

pub fn add_node(n: &str, t: &str) -> U {
    U::AddNode { node_name: n.into(), node_type: t.into() }
}
pub fn del_node(n: &str) -> U {
    U::DeleteNode { node_name: n.into() }
}
pub fn label(n: &str, ns: &str, name: &str, v: &str) -> U {
    U::AddNodeLabel { node_name: n.into(), anno_ns: ns.into(), anno_name: name.into(), anno_value: v.into() }
}
pub fn del_label(n: &str, ns: &str, name: &str) -> U {
    U::DeleteNodeLabel { node_name: n.into(), anno_ns: ns.into(), anno_name: name.into() }
}
pub fn edge(t: &str, layer: &str, name: &str, a: &str, b: &str) -> U {
    U::AddEdge { source_node: a.into(), target_node: b.into(), layer: layer.into(), component_type: t.into(), component_name: name.into() }
}
pub fn del_edge(t: &str, layer: &str, name: &str, a: &str, b: &str) -> U {
    U::DeleteEdge { source_node: a.into(), target_node: b.into(), layer: layer.into(), component_type: t.into(), component_name: name.into() }
}
pub fn edge_label(t: &str, layer: &str, name: &str, a: &str, b: &str, ns: &str, an: &str, v: &str) -> U {
    U::AddEdgeLabel { source_node: a.into(), target_node: b.into(), layer: layer.into(), component_type: t.into(), component_name: name.into(), anno_ns: ns.into(), anno_name: an.into(), anno_value: v.into() }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub docs: (usize, usize),
    pub texts: (usize, usize),
    pub toks: (usize, usize),
    pub spans: (usize, usize),
    pub structs: (usize, usize),
    pub pointing: (usize, usize),
    pub segs: usize,
    pub subcorpora: bool,
    /// labels which are unusual but valid
    pub hostile: bool,
    pub whitespace: bool,
    pub discontinuous: bool,
}
impl Default for Cfg {
    fn default() -> Cfg {
        Cfg { docs: (1, 2), texts: (1, 1), toks: (0, 8), spans: (0, 4), structs: (0, 5), pointing: (0, 5), segs: 1, subcorpora: true, hostile: false, whitespace: false, discontinuous: true }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Text {
    pub name: String,
    pub doc: String,
    pub toks: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Info {
    pub corpus: String,
    pub docs: Vec<String>,
    pub texts: Vec<Text>,
    /// structural nodes with the index of their text, in an order where edges only lead to earlier ones
    pub structs: Vec<(String, usize)>,
    pub spans: Vec<(String, usize)>,
    /// segmentation name -> nodes
    pub segs: Vec<(String, Vec<String>)>,
    pub counter: usize,
}

pub const POS: &[&str] = &["NN", "VV", "DET", "NE"];
pub const WORDS: &[&str] = &["the", "cat", "Cat", "saw", "a", "dog", "das", "\u{df}t", ".", "cats"];
pub const COV: &[(&str, &str)] = &[("annis", ""), ("default_ns", ""), ("default_ns", "cov2")];
pub const DOM: &[(&str, &str)] = &[("syntax", ""), ("syntax", "edge"), ("syntax", "secedge"), ("rst", "edge")];
pub const POINT: &[(&str, &str)] = &[("dep", "dep"), ("ref", "anaphoric"), ("default_ns", "")];

pub fn word(rng: &mut Rng, cfg: &Cfg) -> String {
    if cfg.hostile && rng.chance(20) { rng.pick(HOSTILE).to_string() } else { rng.pick(WORDS).to_string() }
}
pub fn annos(rng: &mut Rng, cfg: &Cfg, n: &str, ev: &mut Vec<U>) {
    if rng.chance(75) {
        ev.push(label(n, rng.pick(&["default_ns", "default_ns", "ns2", ""]), "pos", rng.pick(POS)));
    }
    if rng.chance(50) {
        let w = word(rng, cfg);
        ev.push(label(n, "default_ns", "lemma", &w));
    }
    if rng.chance(15) {
        ev.push(label(n, "other", "pos", rng.pick(POS)));
    }
    if cfg.hostile && rng.chance(20) {
        ev.push(label(n, rng.pick(&["", "h-ns", "\u{e4}"]), rng.pick(&["a.b", "x_y", "n1"]), rng.pick(HOSTILE)));
    }
}

impl Info {
    pub fn fresh(&mut self, doc: &str, kind: &str) -> String {
        self.counter += 1;
        format!("{doc}#{kind}{}", self.counter)
    }
    pub fn all_tokens(&self) -> Vec<String> {
        self.texts.iter().flat_map(|t| t.toks.iter().cloned()).collect()
    }
    pub fn text_of(&self, i: usize) -> &Text {
        &self.texts[i]
    }
    /// nodes that may be the target of a structural edge from text `t`, earlier than struct `limit`
    pub fn targets(&self, t: usize, limit: usize) -> Vec<String> {
        let mut v = self.texts[t].toks.clone();
        v.extend(self.spans.iter().filter(|s| s.1 == t).map(|s| s.0.clone()));
        v.extend(self.structs.iter().take(limit).filter(|s| s.1 == t).map(|s| s.0.clone()));
        v
    }
    pub fn new_token(&mut self, rng: &mut Rng, cfg: &Cfg, t: usize, pos: usize, ev: &mut Vec<U>) {
        let (doc, tname) = (self.texts[t].doc.clone(), self.texts[t].name.clone());
        let n = self.fresh(&doc, "tok");
        ev.push(add_node(&n, "node"));
        let w = word(rng, cfg);
        ev.push(label(&n, "annis", "tok", &w));
        if cfg.whitespace {
            ev.push(label(&n, "annis", "tok-whitespace-after", if rng.chance(80) { " " } else { "" }));
        }
        annos(rng, cfg, &n, ev);
        ev.push(edge("PartOf", "annis", "", &n, if tname.is_empty() { &doc } else { &tname }));
        let toks = self.texts[t].toks.clone();
        let (before, after) = (pos.checked_sub(1).map(|p| toks[p].clone()), toks.get(pos).cloned());
        if let (Some(b), Some(a)) = (&before, &after) {
            ev.push(del_edge("Ordering", "annis", "", b, a));
        }
        if let Some(b) = &before {
            ev.push(edge("Ordering", "annis", "", b, &n));
        }
        if let Some(a) = &after {
            ev.push(edge("Ordering", "annis", "", &n, a));
        }
        self.texts[t].toks.insert(pos, n);
    }
    pub fn pick_tokens(&self, rng: &mut Rng, cfg: &Cfg, t: usize) -> Vec<String> {
        let toks = &self.texts[t].toks;
        if toks.is_empty() {
            return vec![];
        }
        if toks.len() > 30 && rng.chance(50) {
            // token which are far apart, in any order
            let mut v: Vec<String> = (0..rng.range(2, 5)).map(|_| rng.pick(toks).clone()).collect();
            v.sort();
            v.dedup();
            return v;
        }
        let a = rng.below(toks.len());
        let b = (a + rng.below(4)).min(toks.len() - 1);
        let mut v: Vec<String> = toks[a..=b].to_vec();
        if cfg.discontinuous && v.len() > 2 && rng.chance(30) {
            let x = 1 + rng.below(v.len() - 2);
            v.remove(x);
        }
        v
    }
    pub fn new_span(&mut self, rng: &mut Rng, cfg: &Cfg, t: usize, ev: &mut Vec<U>) {
        let toks = self.pick_tokens(rng, cfg, t);
        if toks.is_empty() {
            return;
        }
        let (doc, tname) = (self.texts[t].doc.clone(), self.texts[t].name.clone());
        let n = self.fresh(&doc, "span");
        ev.push(add_node(&n, "node"));
        annos(rng, cfg, &n, ev);
        ev.push(edge("PartOf", "annis", "", &n, if tname.is_empty() { &doc } else { &tname }));
        let c = *rng.pick(COV);
        for x in toks {
            ev.push(edge("Coverage", c.0, c.1, &n, &x));
        }
        self.spans.push((n, t));
    }
    pub fn new_struct(&mut self, rng: &mut Rng, cfg: &Cfg, t: usize, ev: &mut Vec<U>) {
        let targets = self.targets(t, usize::MAX);
        let (doc, tname) = (self.texts[t].doc.clone(), self.texts[t].name.clone());
        let n = self.fresh(&doc, "struct");
        ev.push(add_node(&n, "node"));
        annos(rng, cfg, &n, ev);
        ev.push(edge("PartOf", "annis", "", &n, if tname.is_empty() { &doc } else { &tname }));
        if !targets.is_empty() {
            let base = rng.below(targets.len());
            for _ in 0..rng.below(4) {
                // mostly neighbouring targets
                let x = if rng.chance(70) { &targets[(base + rng.below(3)) % targets.len()] } else { rng.pick(&targets) }.clone();
                self.dominance(rng, cfg, &n, &x, ev);
            }
        }
        self.structs.push((n, t));
    }
    pub fn dominance(&self, rng: &mut Rng, _cfg: &Cfg, a: &str, b: &str, ev: &mut Vec<U>) {
        let c = *rng.pick(DOM);
        ev.push(edge("Dominance", c.0, c.1, a, b));
        if rng.chance(40) {
            ev.push(edge_label("Dominance", c.0, c.1, a, b, rng.pick(&["tiger", ""]), "func", rng.pick(&["SB", "OA", "HD"])));
        }
        if rng.chance(30) {
            let c2 = *rng.pick(DOM);
            ev.push(edge("Dominance", c2.0, c2.1, a, b));
        }
    }
    pub fn new_pointing(&mut self, rng: &mut Rng, _cfg: &Cfg, ev: &mut Vec<U>) {
        let t = rng.below(self.texts.len().max(1));
        if self.texts.is_empty() {
            return;
        }
        let v = if rng.chance(85) { self.targets(t, usize::MAX) } else { (0..self.texts.len()).flat_map(|t| self.targets(t, usize::MAX)).collect() };
        if v.len() < 2 {
            return;
        }
        let (a, b) = (rng.pick(&v).clone(), rng.pick(&v).clone());
        let c = *rng.pick(POINT);
        ev.push(edge("Pointing", c.0, c.1, &a, &b));
        if rng.chance(50) {
            ev.push(edge_label("Pointing", c.0, c.1, &a, &b, rng.pick(&["default_ns", "", "ns2"]), "deprel", rng.pick(&["subj", "obj", "det"])));
        }
    }
    /// one segmentation over a text: nodes with an own token label covering some tokens
    pub fn new_segmentation(&mut self, rng: &mut Rng, cfg: &Cfg, t: usize, name: &str, ev: &mut Vec<U>) {
        let toks = self.texts[t].toks.clone();
        let (doc, tname) = (self.texts[t].doc.clone(), self.texts[t].name.clone());
        let mut i = 0;
        let mut prev: Option<String> = None;
        let mut nodes = vec![];
        while i < toks.len() {
            let k = rng.range(1, 3).min(toks.len() - i);
            if rng.chance(85) {
                let n = self.fresh(&doc, name);
                ev.push(add_node(&n, "node"));
                let w = word(rng, cfg);
                ev.push(label(&n, "annis", "tok", &w));
                ev.push(label(&n, "default_ns", name, &w));
                ev.push(edge("PartOf", "annis", "", &n, if tname.is_empty() { &doc } else { &tname }));
                for x in &toks[i..i + k] {
                    ev.push(edge("Coverage", "default_ns", "", &n, x));
                }
                if let Some(p) = &prev {
                    ev.push(edge("Ordering", "default_ns", name, p, &n));
                }
                prev = Some(n.clone());
                nodes.push(n);
            }
            i += k;
        }
        self.segs.push((name.to_string(), nodes));
    }
}

/// Events for a whole corpus named `corpus`
pub fn gen_corpus(rng: &mut Rng, corpus: &str, cfg: &Cfg) -> (Vec<U>, Info) {
    let mut ev = vec![];
    let mut info = Info { corpus: corpus.into(), ..Default::default() };
    ev.push(add_node(corpus, "corpus"));
    ev.push(label(corpus, "annis", "tok-lang", "x"));
    if rng.chance(50) {
        ev.push(label(corpus, "", "language", rng.pick(&["de", "en"])));
    }
    let sub = if cfg.subcorpora && rng.chance(40) {
        let s = format!("{corpus}/sub");
        ev.push(add_node(&s, "corpus"));
        ev.push(edge("PartOf", "annis", "", &s, corpus));
        Some(s)
    } else {
        None
    };
    for d in 0..rng.range(cfg.docs.0, cfg.docs.1) {
        let parent = match &sub {
            Some(s) if rng.chance(60) => s.clone(),
            _ => corpus.to_string(),
        };
        let dname = match rng.below(6) {
            0 => format!("Doc{d}"),
            1 if cfg.hostile => format!("d%20{d}"),
            _ => format!("doc{d}"),
        };
        let doc = format!("{parent}/{dname}");
        ev.push(add_node(&doc, "corpus"));
        ev.push(label(&doc, "annis", "doc", &dname));
        if rng.chance(60) {
            ev.push(label(&doc, "", "genre", rng.pick(&["news", "blog"])));
        }
        ev.push(edge("PartOf", "annis", "", &doc, &parent));
        info.docs.push(doc.clone());
        for t in 0..rng.range(cfg.texts.0, cfg.texts.1) {
            let name = if rng.chance(70) { format!("{doc}#text{t}") } else { String::new() };
            if !name.is_empty() {
                ev.push(add_node(&name, "datasource"));
                ev.push(edge("PartOf", "annis", "", &name, &doc));
            }
            info.texts.push(Text { name, doc: doc.clone(), toks: vec![] });
            let ti = info.texts.len() - 1;
            for p in 0..rng.range(cfg.toks.0, cfg.toks.1) {
                info.new_token(rng, cfg, ti, p, &mut ev);
            }
            for _ in 0..rng.range(cfg.spans.0, cfg.spans.1) {
                info.new_span(rng, cfg, ti, &mut ev);
            }
            for _ in 0..rng.range(cfg.structs.0, cfg.structs.1) {
                info.new_struct(rng, cfg, ti, &mut ev);
            }
            for s in 0..cfg.segs {
                if rng.chance(40) {
                    info.new_segmentation(rng, cfg, ti, ["seg", "norm"][s % 2], &mut ev);
                }
            }
        }
    }
    for _ in 0..rng.range(cfg.pointing.0, cfg.pointing.1) {
        info.new_pointing(rng, cfg, &mut ev);
    }
    (ev, info)
}

/// A small set of events which changes the corpus and keeps the token order of each text a chain
pub fn gen_edit(rng: &mut Rng, cfg: &Cfg, info: &mut Info, model: &Model) -> (Vec<U>, &'static str) {
    let mut ev = vec![];
    if info.texts.is_empty() {
        return (ev, "none");
    }
    let t = rng.below(info.texts.len());
    let existing = |rng: &mut Rng, types: &[&str]| -> Option<(CompKey, (String, String))> {
        let mut all: Vec<(CompKey, (String, String))> = vec![];
        for (k, e) in &model.edges {
            if types.contains(&k.0.as_str()) {
                all.extend(e.keys().map(|x| (k.clone(), x.clone())));
            }
        }
        if all.is_empty() { None } else { Some(all[rng.below(all.len())].clone()) }
    };
    let kind = match rng.below(17) {
        0 => {
            let p = rng.below(info.texts[t].toks.len() + 1);
            info.new_token(rng, cfg, t, p, &mut ev);
            "insert-token"
        }
        1 if info.texts[t].toks.len() > 1 => {
            let p = rng.below(info.texts[t].toks.len());
            let n = info.texts[t].toks.remove(p);
            ev.push(del_node(&n));
            let toks = &info.texts[t].toks;
            if p > 0 && p < toks.len() {
                ev.push(edge("Ordering", "annis", "", &toks[p - 1], &toks[p]));
            }
            "delete-token"
        }
        16 if info.texts[t].toks.len() > 2 => {
            // move a token to another position in the text
            let p = rng.below(info.texts[t].toks.len());
            let old = info.texts[t].toks.clone();
            let n = info.texts[t].toks.remove(p);
            let q = rng.below(info.texts[t].toks.len() + 1);
            info.texts[t].toks.insert(q, n);
            let new = &info.texts[t].toks;
            let pairs = |v: &[String]| -> Vec<(String, String)> { v.windows(2).map(|w| (w[0].clone(), w[1].clone())).collect() };
            let (o, n) = (pairs(&old), pairs(new));
            let mut es: Vec<U> = o.iter().filter(|x| !n.contains(x)).map(|(a, b)| del_edge("Ordering", "annis", "", a, b)).collect();
            es.extend(n.iter().filter(|x| !o.contains(x)).map(|(a, b)| edge("Ordering", "annis", "", a, b)));
            ev.extend(es);
            "move-token"
        }
        2 | 3 => {
            info.new_span(rng, cfg, t, &mut ev);
            "add-span"
        }
        4 | 5 => {
            info.new_struct(rng, cfg, t, &mut ev);
            "add-struct"
        }
        6 | 7 => {
            // new structural edge between existing nodes
            let own: Vec<usize> = (0..info.structs.len()).filter(|i| info.structs[*i].1 == t).collect();
            if !own.is_empty() {
                let i = *rng.pick(&own);
                let ts = info.targets(t, i);
                if !ts.is_empty() {
                    let x = rng.pick(&ts).clone();
                    info.dominance(rng, cfg, &info.structs[i].0, &x, &mut ev);
                }
            }
            "add-dominance"
        }
        8 => {
            let own: Vec<String> = info.spans.iter().filter(|s| s.1 == t).map(|s| s.0.clone()).collect();
            if !own.is_empty() && !info.texts[t].toks.is_empty() {
                let c = *rng.pick(COV);
                ev.push(edge("Coverage", c.0, c.1, rng.pick(&own), rng.pick(&info.texts[t].toks)));
            }
            "add-coverage"
        }
        9 | 10 => {
            if let Some((k, (a, b))) = existing(rng, &["Coverage", "Dominance"]) {
                ev.push(del_edge(&k.0, &k.1, &k.2, &a, &b));
            }
            "delete-edge"
        }
        11 => {
            let mut all: Vec<String> = info.spans.iter().chain(&info.structs).map(|s| s.0.clone()).collect();
            rng.shuffle(&mut all);
            if let Some(n) = all.first() {
                ev.push(del_node(n));
                if rng.chance(50) {
                    // the same name again, as a new node
                    ev.push(add_node(n, "node"));
                    if let Some(ti) = info.spans.iter().find(|s| &s.0 == n).map(|s| s.1) {
                        for x in info.pick_tokens(rng, cfg, ti) {
                            ev.push(edge("Coverage", "default_ns", "", n, &x));
                        }
                    } else if let Some(i) = info.structs.iter().position(|s| &s.0 == n) {
                        let ts = info.targets(info.structs[i].1, i);
                        if !ts.is_empty() {
                            let x = rng.pick(&ts).clone();
                            info.dominance(rng, cfg, n, &x, &mut ev);
                        }
                    }
                } else {
                    info.spans.retain(|s| &s.0 != n);
                    info.structs.retain(|s| &s.0 != n);
                }
            }
            "delete-node"
        }
        12 => {
            if let Some(n) = info.texts[t].toks.get(rng.below(info.texts[t].toks.len().max(1))) {
                let has = model.nodes.get(n).is_some_and(|l| l.contains_key(&("annis".into(), "tok".into())));
                ev.push(if has && rng.chance(40) { del_label(n, "annis", "tok") } else { label(n, "annis", "tok", rng.pick(WORDS)) });
            }
            "token-label"
        }
        13 => {
            info.new_pointing(rng, cfg, &mut ev);
            "add-pointing"
        }
        14 => {
            if let Some((k, (a, b))) = existing(rng, &["Pointing"]) {
                ev.push(del_edge(&k.0, &k.1, &k.2, &a, &b));
            }
            "delete-pointing"
        }
        _ => {
            let all: Vec<&String> = model.nodes.keys().collect();
            if !all.is_empty() {
                let n = all[rng.below(all.len())];
                annos(rng, cfg, n, &mut ev);
            }
            "labels"
        }
    };
    (ev, kind)
}

/// Derived facts, computed from the content alone
pub struct Derived {
    pub tokens: BTreeSet<String>,
    /// position in the base token order: (chain, index)
    pub pos: BTreeMap<String, (usize, usize)>,
    /// every node with the tokens it covers (tokens cover themselves)
    pub covered: BTreeMap<String, BTreeSet<String>>,
    pub direct_cov: BTreeMap<String, BTreeSet<String>>,
}

pub fn derive(m: &Model) -> Derived {
    let mut direct_cov: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut text_cov: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for (k, es) in &m.edges {
        if is_derived(k) {
            continue;
        }
        for (a, b) in es.keys() {
            if k.0 == "Coverage" {
                direct_cov.entry(a.clone()).or_default().insert(b.clone());
            }
            if k.0 == "Coverage" || k.0 == "Dominance" {
                text_cov.entry(a.clone()).or_default().insert(b.clone());
            }
        }
    }
    let tok_key = ("annis".to_string(), "tok".to_string());
    let tokens: BTreeSet<String> = m.nodes.iter().filter(|(n, l)| l.contains_key(&tok_key) && !direct_cov.contains_key(*n)).map(|x| x.0.clone()).collect();
    let mut covered = BTreeMap::new();
    for n in m.nodes.keys() {
        let mut seen: BTreeSet<&String> = BTreeSet::new();
        let mut todo = vec![n];
        let mut c = BTreeSet::new();
        while let Some(x) = todo.pop() {
            if !seen.insert(x) {
                continue;
            }
            if tokens.contains(x) {
                c.insert(x.clone());
            }
            todo.extend(text_cov.get(x).into_iter().flatten());
        }
        covered.insert(n.clone(), c);
    }
    let mut pos = BTreeMap::new();
    let ord = m.edges.get(&("Ordering".into(), "annis".into(), "".into()));
    let mut next = BTreeMap::new();
    let mut has_in = BTreeSet::new();
    for (a, b) in ord.into_iter().flat_map(|o| o.keys()) {
        next.insert(a.clone(), b.clone());
        has_in.insert(b.clone());
    }
    let mut chain = 0;
    for n in m.nodes.keys() {
        if has_in.contains(n) || (!next.contains_key(n) && !tokens.contains(n)) {
            continue;
        }
        chain += 1;
        let mut i = 0;
        let mut cur = Some(n.clone());
        while let Some(x) = cur {
            if pos.contains_key(&x) {
                break;
            }
            pos.insert(x.clone(), (chain, i));
            i += 1;
            cur = next.get(&x).cloned();
        }
    }
    Derived { tokens, pos, covered, direct_cov }
}

/// The edges of the derived components (inherited coverage, left and right token)
pub type Idx = BTreeMap<&'static str, BTreeSet<(String, String)>>;
pub fn expected_index(m: &Model) -> (Idx, BTreeSet<String>) {
    let d = derive(m);
    let mut r: Idx = [("inherited", BTreeSet::new()), ("left", BTreeSet::new()), ("right", BTreeSet::new())].into();
    let mut ambiguous = BTreeSet::new();
    for (n, c) in &d.covered {
        if d.tokens.contains(n) || c.is_empty() {
            continue;
        }
        for t in c {
            if !d.direct_cov.get(n).is_some_and(|x| x.contains(t)) {
                r.get_mut("inherited").unwrap().insert((n.clone(), t.clone()));
            }
        }
        let mut v: Vec<(usize, usize, &String)> = c.iter().filter_map(|t| d.pos.get(t).map(|p| (p.0, p.1, t))).collect();
        v.sort();
        if v.len() < c.len() || v.first().map(|x| x.0) != v.last().map(|x| x.0) {
            ambiguous.insert(n.clone());
            continue;
        }
        r.get_mut("left").unwrap().insert((n.clone(), v[0].2.clone()));
        r.get_mut("right").unwrap().insert((n.clone(), v[v.len() - 1].2.clone()));
    }
    (r, ambiguous)
}

pub fn observed_index(m: &Model) -> Idx {
    let mut r: Idx = [("inherited", BTreeSet::new()), ("left", BTreeSet::new()), ("right", BTreeSet::new())].into();
    for (k, es) in &m.edges {
        if is_derived(k) {
            let w = match k.0.as_str() {
                "LeftToken" => "left",
                "RightToken" => "right",
                _ => "inherited",
            };
            r.get_mut(w).unwrap().extend(es.keys().cloned());
        }
    }
    r
}
