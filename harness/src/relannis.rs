//! Generator for corpora in the relANNIS format together with the content they describe.
use crate::corpus::{WORDS, edge, edge_label};
use crate::gmodel::*;
use crate::rt::*;
use graphannis::model::AnnotationComponentType;
use graphannis_core::graph::update::UpdateEvent as U;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::str::FromStr;

pub type Rows = Vec<Vec<Option<String>>>;

#[derive(Default, Clone)]
pub struct RelAnnis {
    pub v33: bool,
    pub name: String,
    /// table name (without extension) -> rows
    pub tables: BTreeMap<&'static str, Rows>,
    /// order of rows defines the result
    pub properties: Option<String>,
    /// path below ExtData -> bytes
    pub ext: BTreeMap<String, Vec<u8>>,
    pub model: Model,
    /// node of linked file -> bytes
    pub linked: BTreeMap<String, Vec<u8>>,
    pub config: Value,
}

pub fn escape(rng: &mut Rng, s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            '"' | '\'' | '`' | '$' if rng.chance(30) => {
                r.push('\\');
                r.push(c);
            }
            c => r.push(c),
        }
    }
    r
}

pub fn table_text(rng: &mut Rng, rows: &Rows) -> String {
    let mut s = String::new();
    for r in rows {
        let l: Vec<String> = r.iter().map(|c| c.as_ref().map_or("NULL".to_string(), |c| escape(rng, c))).collect();
        s.push_str(&l.join("\t"));
        s.push('\n');
    }
    s
}

impl RelAnnis {
    pub fn file(&self, table: &str) -> String {
        format!("{table}.{}", if self.v33 { "annis" } else { "tab" })
    }
    pub fn texts(&self, rng: &mut Rng) -> BTreeMap<String, Vec<u8>> {
        let mut r = BTreeMap::new();
        for (t, rows) in &self.tables {
            r.insert(self.file(t), table_text(rng, rows).into_bytes());
        }
        if self.v33 {
            r.insert("annis.version".into(), b"3.3".to_vec());
        }
        if let Some(p) = &self.properties {
            r.insert("ExtData/corpus.properties".into(), p.clone().into_bytes());
        }
        for (p, b) in &self.ext {
            r.insert(format!("ExtData/{p}"), b.clone());
        }
        r
    }
    pub fn write(&self, rng: &mut Rng, dir: &Path) -> std::io::Result<()> {
        for (p, b) in self.texts(rng) {
            let p = dir.join(p);
            std::fs::create_dir_all(p.parent().unwrap())?;
            std::fs::write(p, b)?;
        }
        Ok(())
    }
    pub fn shuffle(&mut self, rng: &mut Rng) {
        for (n, rows) in &mut self.tables {
            // the order of example queries is the one of the table
            if *n != "example_queries" {
                rng.shuffle(rows);
            }
        }
    }
}

fn norm(s: &str) -> String {
    s.bytes().map(|b| if b < 0x20 || b >= 0x7f || b":/ %\\<>\"|?*".contains(&b) { format!("%{b:02X}") } else { (b as char).to_string() }).collect()
}

fn o(s: impl Into<String>) -> Option<String> {
    Some(s.into())
}
fn num(n: usize) -> Option<String> {
    Some(n.to_string())
}

const SPECIAL: &[&str] = &["a b", "\u{e4}", "x:y", "100%", "q\"q", "it's", "$x", "a\\b", "\\n", "tab\there", "line\nbreak", "`", "<x>", "\u{65e5}\u{672c}", "r\rx"];

fn val(rng: &mut Rng, hostile: bool) -> String {
    if hostile && rng.chance(25) { rng.pick(SPECIAL).to_string() } else { rng.pick(&["NN", "x", "news", "1", "A"]).to_string() }
}
fn name(rng: &mut Rng, hostile: bool) -> String {
    if hostile && rng.chance(15) { rng.pick(&["\u{e4}nno", "a b", "x:y", "p%", "n'"]).to_string() } else { rng.pick(&["pos", "lemma", "cat", "infstat"]).to_string() }
}

/// value that is used for NULL
fn null() -> String {
    char::MAX.to_string()
}

struct N {
    id: usize,
    full: String,
}

pub fn gen_relannis(rng: &mut Rng, hostile: bool) -> RelAnnis {
    let v33 = rng.chance(60);
    let mut r = RelAnnis { v33, ..Default::default() };
    let mut ev: Vec<U> = vec![];
    r.name = if hostile && rng.chance(40) { rng.pick(&["my corpus", "c\u{e4}", "a/b", "x:y", "50%", "q'q"]).to_string() } else { rng.pick(&["rel", "corpus1"]).to_string() };
    let top = norm(&r.name);
    for t in ["corpus", "corpus_annotation", "text", "node", "node_annotation", "component", "rank", "edge_annotation"] {
        r.tables.insert(t, vec![]);
    }
    let mut ids: Vec<usize> = (0..400).collect();
    rng.shuffle(&mut ids);
    let mut fresh = move |_: &str| ids.pop().unwrap_or(9999);
    // --- corpus structure: (name, children)
    let add = |ev: &mut Vec<U>, n: &str, t: &str| ev.push(U::AddNode { node_name: n.into(), node_type: t.into() });
    let label = |ev: &mut Vec<U>, n: &str, ns: &str, k: &str, v: &str| ev.push(U::AddNodeLabel { node_name: n.into(), anno_ns: ns.into(), anno_name: k.into(), anno_value: v.into() });
    add(&mut ev, &top, "corpus");
    label(&mut ev, &top, "annis", "relannis-version", if v33 { "3.3" } else { "3.2" });
    let mut docs: Vec<(usize, String)> = vec![];
    let mut corpora: Vec<(usize, String)> = vec![];
    let mut counter = 0;
    let mut used = BTreeSet::new();
    // (id, name, type, children) as a tree
    struct C {
        id: usize,
        name: String,
        full: String,
        doc: bool,
        children: Vec<C>,
    }
    let ndocs = rng.range(1, 3);
    let mut root = C { id: fresh("corpus"), name: r.name.clone(), full: top.clone(), doc: false, children: vec![] };
    let only_top = rng.chance(5);
    if !only_top {
        for d in 0..ndocs {
            let mut dn = if hostile && rng.chance(40) { rng.pick(&["doc 1", "d\u{f6}c", "a/b", "d:1", "..", "d\\"]).to_string() } else { format!("doc{d}") };
            if !used.insert(dn.clone()) {
                dn = format!("doc{d}x");
                used.insert(dn.clone());
            }
            let doc = |full: String, id: usize| C { id, name: dn.clone(), full, doc: true, children: vec![] };
            if rng.chance(30) {
                let sn = format!("sub{}", rng.below(2));
                let i = match root.children.iter().position(|c| c.name == sn && !c.doc) {
                    Some(i) => i,
                    None => {
                        let full = format!("{top}/{sn}");
                        let id = fresh("corpus");
                        root.children.push(C { id, name: sn, full, doc: false, children: vec![] });
                        root.children.len() - 1
                    }
                };
                let full = format!("{}/{}", root.children[i].full, norm(&dn));
                let id = fresh("corpus");
                let dd = doc(full, id);
                root.children[i].children.push(dd);
            } else {
                let id = fresh("corpus");
                let dd = doc(format!("{top}/{}", norm(&dn)), id);
                root.children.push(dd);
            }
        }
    }
    fn walk(c: &C, parent: Option<&C>, pre: &mut usize, rows: &mut Rows, ev: &mut Vec<U>, all: &mut Vec<(usize, String, String, bool)>) {
        let my = *pre;
        *pre += 1;
        for x in &c.children {
            walk(x, Some(c), pre, rows, ev, all);
        }
        let post = *pre;
        *pre += 1;
        rows.push(vec![num(c.id), o(c.name.clone()), o(if c.doc { "DOCUMENT" } else { "CORPUS" }), None, num(my), num(post), o(if parent.is_none() { "TRUE" } else { "FALSE" })]);
        if let Some(p) = parent {
            ev.push(U::AddNode { node_name: c.full.clone(), node_type: "corpus".into() });
            if c.children.is_empty() {
                ev.push(U::AddNodeLabel { node_name: c.full.clone(), anno_ns: "annis".into(), anno_name: "doc".into(), anno_value: c.name.clone() });
            }
            ev.push(edge("PartOf", "annis", "", &c.full, &p.full));
        }
        all.push((c.id, c.full.clone(), c.name.clone(), c.children.is_empty()));
    }
    let mut all = vec![];
    let mut rows = vec![];
    let mut pre = 0;
    // parents are added before their children
    let mut ev2 = vec![];
    walk(&root, None, &mut pre, &mut rows, &mut ev2, &mut all);
    ev.extend(ev2.iter().filter(|e| matches!(e, U::AddNode { .. })).cloned());
    ev.extend(ev2.iter().filter(|e| !matches!(e, U::AddNode { .. })).cloned());
    if !v33 && rng.chance(50) {
        for x in &mut rows {
            x.pop();
        }
    }
    r.tables.insert("corpus", rows);
    for (id, full, cname, leaf) in &all {
        for _ in 0..rng.below(3) {
            let k = rng.pick(&["genre", "year", "tit le", "author"]).to_string();
            let ns = rng.chance(40).then(|| rng.pick(&["meta", "m:x"]).to_string());
            if r.tables["corpus_annotation"].iter().any(|x| x[0] == num(*id) && x[2].as_ref() == Some(&k) && x[1] == ns) {
                continue;
            }
            let v = rng.chance(90).then(|| val(rng, hostile));
            label(&mut ev, full, ns.as_deref().unwrap_or(""), &k, v.as_deref().unwrap_or(&null()));
            r.tables.get_mut("corpus_annotation").unwrap().push(vec![num(*id), ns, o(k), v]);
        }
        if *leaf {
            docs.push((*id, full.clone()));
        } else {
            corpora.push((*id, full.clone()));
        }
        // linked files
        for _ in 0..rng.below(3) {
            if !rng.chance(40) {
                continue;
            }
            let f = rng.pick(&["a.wav", "b c.txt", "\u{e4}.pdf"]).to_string();
            let bytes: Vec<u8> = (0..rng.below(200)).map(|_| rng.next() as u8).collect();
            if *full == top {
                r.ext.insert(f.clone(), bytes.clone());
            } else if *cname == ".." || cname.contains(['/', '\\']) {
                // not inside of the folder
                continue;
            } else {
                r.ext.insert(format!("{cname}/{f}"), bytes.clone());
            }
            let n = format!("{full}/{f}");
            r.linked.insert(n.clone(), bytes);
        }
    }
    // --- texts and nodes
    let has_seg_columns = v33 || rng.chance(60);
    let mut nodes_of_doc: Vec<Vec<N>> = vec![];
    let mut tok_of_text: Vec<(usize, Vec<usize>)> = vec![];
    let mut structural: Vec<(usize, String, usize, BTreeSet<usize>, Vec<(usize, String)>)> = vec![];
    let mut text_counter = 0;
    for (cid, full) in &docs {
        let mut here: Vec<N> = vec![];
        for t in 0..rng.range(1, 2) {
            let tname = if hostile && rng.chance(30) { format!("te xt{t}") } else { format!("text{t}") };
            let text_full = format!("{full}#{}", norm(&tname));
            let text_id = if v33 { t } else { text_counter };
            text_counter += 1;
            // text
            let ntok = rng.below(9);
            if !v33 && ntok == 0 {
                continue;
            }
            let mut text = String::new();
            let mut len = 0usize;
            let mut toks: Vec<(usize, String)> = vec![];
            let mut pos: Vec<(usize, usize)> = vec![];
            let space = |rng: &mut Rng| -> String { rng.pick(&["", " ", " ", " ", "  ", "\n", " \t ", "--", "\u{a0}\u{a0}\u{e4}"]).to_string() };
            let lead = if rng.chance(60) { String::new() } else { space(rng) };
            text.push_str(&lead);
            len += lead.chars().count();
            let mut spaces = vec![];
            for i in 0..ntok {
                let mut w = rng.pick(WORDS).to_string();
                if hostile && rng.chance(15) {
                    w = rng.pick(&["\u{e4}\u{f6}", "\"", "\\", "$", "a'b", "\u{1F600}", "x y"]).to_string();
                }
                let l = w.chars().count();
                pos.push((len, len + l));
                text.push_str(&w);
                len += l;
                let s = if i + 1 == ntok && rng.chance(50) { String::new() } else { space(rng) };
                text.push_str(&s);
                len += s.chars().count();
                spaces.push(s);
                toks.push((0, w));
            }
            r.tables.get_mut("text").unwrap().push(if v33 { vec![num(*cid), num(text_id), o(tname.clone()), o(text.clone())] } else { vec![num(text_id), o(tname.clone()), o(text.clone())] });
            add(&mut ev, &text_full, "datasource");
            ev.push(edge("PartOf", "annis", "", &text_full, full));
            let mut new_node = |rng: &mut Rng, ev: &mut Vec<U>, kind: &str| -> (usize, String, String) {
                let id = fresh("node");
                counter += 1;
                let n = if hostile && rng.chance(10) { format!("{kind} \u{e4}:/{counter}") } else { format!("{kind}{counter}") };
                let f = format!("{full}#{n}");
                ev.push(U::AddNode { node_name: f.clone(), node_type: "node".into() });
                (id, n, f)
            };
            // token
            let mut row = |rng: &mut Rng, ev: &mut Vec<U>, r: &mut RelAnnis, id: usize, n: &str, f: &str, l: usize, rr: usize, tok: Option<usize>, lt: usize, rt: usize, seg: Option<(usize, String)>, span: Option<String>| {
                let layer = match rng.below(4) {
                    0 => None,
                    1 => o("default_ns"),
                    2 => o(""),
                    _ => o("l\u{e4}"),
                };
                if let Some(x) = &layer
                    && !x.is_empty()
                {
                    ev.push(U::AddNodeLabel { node_name: f.into(), anno_ns: "annis".into(), anno_name: "layer".into(), anno_value: x.clone() });
                }
                let mut c = vec![num(id), num(text_id), num(*cid), layer, o(n), num(l), num(rr), tok.map(|x| x.to_string())];
                if v33 {
                    c.extend([num(lt), num(rt), seg.as_ref().map(|s| s.0.to_string()), seg.map(|s| s.1), span, o("TRUE")]);
                } else if has_seg_columns {
                    c.extend([seg.as_ref().map(|s| s.1.clone()), seg.as_ref().map(|s| s.0.to_string()), seg.map(|s| s.0.to_string()), o("t"), span]);
                } else {
                    c.extend([o("t"), span]);
                }
                r.tables.get_mut("node").unwrap().push(c);
                ev.push(edge("PartOf", "annis", "", f, &text_full));
            };
            let mut tok_names = vec![];
            for i in 0..ntok {
                let (id, n, f) = new_node(rng, &mut ev, "tok");
                row(rng, &mut ev, &mut r, id, &n, &f, pos[i].0, pos[i].1, Some(i), i, i, None, Some(toks[i].1.clone()));
                label(&mut ev, &f, "annis", "tok", &toks[i].1);
                if i == 0 && !lead.is_empty() {
                    label(&mut ev, &f, "annis", "tok-whitespace-before", &lead);
                }
                label(&mut ev, &f, "annis", "tok-whitespace-after", &spaces[i]);
                if i > 0 {
                    let p: &String = tok_names.last().unwrap();
                    ev.push(edge("Ordering", "annis", "", p, &f));
                }
                toks[i].0 = id;
                tok_names.push(f.clone());
                here.push(N { id, full: f });
            }
            tok_of_text.push((tok_of_text.len(), toks.iter().map(|t| t.0).collect()));
            if ntok == 0 {
                continue;
            }
            // segmentation nodes
            if has_seg_columns {
                for sname in ["seg", "s\u{e4}g"] {
                    if !rng.chance(30) {
                        continue;
                    }
                    let mut i = 0;
                    let mut idx = 0;
                    let mut prev: Option<String> = None;
                    while i < ntok {
                        let e = (i + rng.below(3)).min(ntok - 1);
                        let (id, n, f) = new_node(rng, &mut ev, "seg");
                        let w = rng.pick(WORDS).to_string();
                        let direct = v33 && rng.chance(50);
                        row(rng, &mut ev, &mut r, id, &n, &f, pos[i].0, pos[e].1, None, i, e, Some((idx, sname.to_string())), direct.then(|| w.clone()));
                        if direct {
                            label(&mut ev, &f, "annis", "tok", &w);
                        } else if rng.chance(85) {
                            let v = rng.chance(80).then(|| w.clone());
                            if v.is_some() {
                                label(&mut ev, &f, "annis", "tok", &w);
                            }
                            label(&mut ev, &f, "segns", sname, v.as_deref().unwrap_or(&null()));
                            r.tables.get_mut("node_annotation").unwrap().push(vec![num(id), o("segns"), o(sname), v]);
                        }
                        if let Some(p) = &prev {
                            ev.push(edge("Ordering", "default_ns", sname, p, &f));
                        }
                        prev = Some(f.clone());
                        structural.push((id, f.clone(), nodes_of_doc.len(), (i..=e).collect(), toks.iter().map(|t| t.0).zip(tok_names.iter().cloned()).collect()));
                        here.push(N { id, full: f });
                        i = e + 1 + rng.below(2);
                        idx += 1 + rng.below(2);
                    }
                }
            }
            // spans and structures
            for _ in 0..rng.below(6) {
                let a = rng.below(ntok);
                let b = rng.range(a, ntok - 1);
                let (id, n, f) = new_node(rng, &mut ev, "n");
                row(rng, &mut ev, &mut r, id, &n, &f, pos[a].0, pos[b].1, None, a, b, None, None);
                structural.push((id, f.clone(), nodes_of_doc.len(), (a..=b).collect(), toks.iter().map(|t| t.0).zip(tok_names.iter().cloned()).collect()));
                here.push(N { id, full: f });
            }
        }
        nodes_of_doc.push(here);
    }
    // node annotations
    for here in &nodes_of_doc {
        for n in here {
            let mut keys = BTreeSet::new();
            for _ in 0..rng.below(3) {
                let ns = rng.chance(70).then(|| rng.pick(&["default_ns", "morph", "x/y"]).to_string());
                let k = name(rng, hostile);
                if !keys.insert((ns.clone(), k.clone())) {
                    continue;
                }
                let v = rng.chance(90).then(|| val(rng, hostile));
                label(&mut ev, &n.full, ns.as_deref().unwrap_or(""), &k, v.as_deref().unwrap_or(&null()));
                r.tables.get_mut("node_annotation").unwrap().push(vec![num(n.id), ns, o(k), v]);
            }
            if rng.chance(10) {
                // text values of token are in the node table
                r.tables.get_mut("node_annotation").unwrap().push(vec![num(n.id), o("annis"), o("tok"), o("other")]);
            }
        }
    }
    // --- components and ranks
    let mut ranks: usize = rng.below(5);
    let mut explicit: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    let mut parentless: BTreeMap<usize, (String, String)> = BTreeMap::new();
    let by_id: BTreeMap<usize, String> = nodes_of_doc.iter().flatten().map(|n| (n.id, n.full.clone())).collect();
    let mut cid = rng.below(3);
    let mut labels: BTreeSet<(String, usize, usize, Option<String>, String)> = BTreeSet::new();
    for (di, here) in nodes_of_doc.iter().enumerate() {
        if here.is_empty() {
            continue;
        }
        for _ in 0..rng.range(1, 5) {
            let short = *rng.pick(&["c", "c", "d", "d", "p"]);
            let ctype = match short {
                "c" => "Coverage",
                "d" => "Dominance",
                _ => "Pointing",
            };
            let layer = match rng.below(4) {
                0 => None,
                1 => o("l:x"),
                _ => o(rng.pick(&["default_ns", "syntax"]).to_string()),
            };
            let cname = match rng.below(3) {
                0 => None,
                _ => o(rng.pick(&["edge", "dep", "c d"]).to_string()),
            };
            let (l, n) = (layer.clone().unwrap_or_default(), cname.clone().unwrap_or_default());
            let my = cid;
            cid += rng.range(1, 3);
            r.tables.get_mut("component").unwrap().push(vec![num(my), o(short), layer, cname]);
            // edges
            let st: Vec<&(usize, String, usize, BTreeSet<usize>, Vec<(usize, String)>)> = structural.iter().filter(|s| s.2 == di).collect();
            let mut es: BTreeSet<(usize, usize)> = BTreeSet::new();
            match short {
                "c" => {
                    for s in &st {
                        match rng.below(4) {
                            0 => {}
                            1 => {
                                // without the tokens: only the root is given
                                if !parentless.contains_key(&s.0) {
                                    parentless.insert(s.0, (l.clone(), n.clone()));
                                    es.insert((usize::MAX, s.0));
                                }
                            }
                            k => {
                                for i in &s.3 {
                                    if k == 2 || rng.chance(60) {
                                        es.insert((s.0, s.4[*i].0));
                                    }
                                }
                            }
                        }
                    }
                }
                "d" => {
                    // only to nodes after this one in the list: no cycles
                    for i in 0..st.len() {
                        for _ in 0..rng.below(3) {
                            if rng.chance(50) && i + 1 < st.len() {
                                let t = rng.range(i + 1, st.len() - 1);
                                es.insert((st[i].0, st[t].0));
                            } else if !st[i].4.is_empty() {
                                let t = rng.below(st[i].4.len());
                                es.insert((st[i].0, st[i].4[t].0));
                            }
                        }
                    }
                }
                _ => {
                    for _ in 0..rng.below(4) {
                        let a = rng.pick(here).id;
                        let b = rng.pick(here).id;
                        if a != b {
                            es.insert((a, b));
                        }
                    }
                }
            }
            // every node gets one rank row as root or for each incoming edge; parents refer to any row of the parent node
            let mut rows_of: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
            let mut todo: Vec<(usize, Option<usize>, usize)> = vec![]; // rank, parent node, node
            let targets: BTreeSet<usize> = es.iter().map(|e| e.1).collect();
            for (a, b) in &es {
                if *a == usize::MAX {
                    ranks += rng.range(1, 3);
                    todo.push((ranks, None, *b));
                    rows_of.entry(*b).or_default().push(ranks);
                    continue;
                }
                if !rows_of.contains_key(a) && !targets.contains(a) {
                    ranks += rng.range(1, 3);
                    todo.push((ranks, None, *a));
                    rows_of.entry(*a).or_default().push(ranks);
                    if short == "c" {
                        parentless.entry(*a).or_insert((l.clone(), n.clone()));
                    }
                }
                for _ in 0..if rng.chance(15) { 2 } else { 1 } {
                    ranks += rng.range(1, 3);
                    todo.push((ranks, Some(*a), *b));
                    rows_of.entry(*b).or_default().push(ranks);
                }
                if short == "c" {
                    explicit.entry(*a).or_default().insert(*b);
                }
                ev.push(edge(ctype, &l, &n, &by_id[a], &by_id[b]));
            }
            for (rank, parent, node) in todo {
                let p = parent.map(|p| rng.pick(&rows_of[&p]).to_string());
                let mut c = vec![num(rank)];
                c.push(num(rng.below(500)));
                if v33 {
                    c.push(num(rng.below(500)));
                }
                c.extend([num(node), num(my), p, num(rng.below(3))]);
                r.tables.get_mut("rank").unwrap().push(c);
                if let Some(a) = parent {
                    for _ in 0..rng.below(2) {
                        let ns = rng.chance(60).then(|| rng.pick(&["default_ns", "e"]).to_string());
                        let k = name(rng, hostile);
                        if !labels.insert((format!("{short}/{l}/{n}"), a, node, ns.clone(), k.clone())) {
                            continue;
                        }
                        let v = rng.chance(90).then(|| val(rng, hostile));
                        ev.push(edge_label(ctype, &l, &n, &by_id[&a], &by_id[&node], ns.as_deref().unwrap_or(""), &k, v.as_deref().unwrap_or(&null())));
                        r.tables.get_mut("edge_annotation").unwrap().push(vec![num(rank), ns, o(k), v]);
                    }
                }
            }
        }
    }
    if rng.chance(20) {
        r.tables.get_mut("component").unwrap().push(vec![num(cid + 5), None, None, None]);
    }
    // coverage that is given by the positions
    for (id, f, _, tk, names) in &structural {
        let ex = explicit.get(id);
        for i in tk {
            if ex.is_some_and(|e| e.contains(&names[*i].0)) {
                continue;
            }
            let (l, n) = if ex.is_some_and(|e| !e.is_empty()) { ("annis".to_string(), "autogenerated-coverage".to_string()) } else { parentless.get(id).cloned().unwrap_or_default() };
            ev.push(edge("Coverage", &l, &n, f, &names[*i].1));
        }
    }
    // --- linked files
    // --- configuration
    let mut cfg_rules: Vec<(i64, Value)> = vec![];
    let rule = |layer: Option<&str>, element: Option<&str>, vis: &str, name: &str, visibility: &str, mappings: &[(&str, &str)]| -> Value {
        let mut v = json!({"layer": layer, "element": element, "vis_type": vis, "display_name": name, "visibility": visibility});
        if !mappings.is_empty() {
            v["mappings"] = mappings.iter().map(|(a, b)| (a.to_string(), json!(b))).collect::<serde_json::Map<_, _>>().into();
        }
        v
    };
    let mut config = json!({"context": {"default": 5, "sizes": [0, 1, 2, 5, 10], "max": null, "segmentation": null}, "view": {"page_size": 10, "base_text_segmentation": null}});
    if rng.chance(60) {
        let defaults: Vec<(i64, Value)> = vec![
            (-1, rule(None, None, "kwic", "kwic", "permanent", &[])),
            (101, rule(Some("tiger"), Some("node"), "tree", "tree", "hidden", &[])),
            (102, rule(Some("exmaralda"), Some("node"), "grid", "exmaralda", "hidden", &[])),
            (103, rule(Some("mmax"), Some("node"), "grid", "mmax", "hidden", &[])),
            (104, rule(Some("mmax"), Some("edge"), "discourse", "coref", "hidden", &[])),
            (105, rule(Some("urml"), Some("node"), "grid", "urml", "hidden", &[])),
        ];
        let mut dead: BTreeSet<i64> = BTreeSet::new();
        let with_vis = v33 || rng.chance(50);
        let mut rows: Rows = vec![];
        let mut orders = BTreeSet::new();
        for _ in 0..rng.below(5) {
            let layer = match rng.below(5) {
                0 => None,
                x => Some(["syntax", "tiger", "mmax", "urml"][x - 1]),
            };
            let element = *rng.pick(&[None, Some("node"), Some("edge")]);
            let vis = *rng.pick(&["tree", "grid", "discourse", "kwic"]);
            let dname = *rng.pick(&["tree", "my view", "coref", "urml", "kwic", "mmax"]);
            let visibility = if with_vis { *rng.pick(&["hidden", "visible", "permanent", "preloaded", "removed", "removed", "unknown"]) } else { "hidden" };
            let order = rng.below(300) as i64 - 20;
            if !orders.insert(order) || (101..=105).contains(&order) || order == -1 {
                continue;
            }
            let mappings: Vec<(&str, &str)> = [("a", "b"), ("node_key", "cat"), ("x", "1:2")].into_iter().filter(|_| rng.chance(30)).collect();
            let map_text = if mappings.is_empty() { if rng.chance(50) { None } else { o("") } } else { o(mappings.iter().map(|(a, b)| format!("{a}:{b}")).collect::<Vec<_>>().join(";")) };
            let mut c = vec![o(r.name.clone()), o("NULL"), layer.map(|s| s.to_string()), element.map(|s| s.to_string()), o(vis), o(dname)];
            c[1] = None;
            if with_vis {
                c.push(o(visibility));
            }
            c.extend([num(0), map_text]);
            let oc = c.len() - 2;
            c[oc] = Some(order.to_string());
            rows.push(c);
            if visibility == "removed" {
                for (ord, d) in &defaults {
                    let x = rule(layer, element, vis, dname, d["visibility"].as_str().unwrap(), &[]);
                    if x == *d {
                        dead.insert(*ord);
                    }
                }
            } else {
                for (ord, d) in &defaults {
                    if layer.is_some() && d["layer"].as_str() == layer {
                        dead.insert(*ord);
                    }
                }
                cfg_rules.push((order, rule(layer, element, vis, dname, if visibility == "unknown" { "hidden" } else { visibility }, &mappings)));
            }
        }
        cfg_rules.extend(defaults.into_iter().filter(|(o, _)| !dead.contains(o)));
        cfg_rules.sort_by_key(|x| x.0);
        if !cfg_rules.is_empty() {
            config["visualizers"] = cfg_rules.into_iter().map(|x| x.1).collect();
        }
        r.tables.insert("resolver_vis_map", rows);
    }
    if rng.chance(50) {
        let mut rows: Rows = vec![];
        let mut exp = vec![];
        for _ in 0..rng.below(4) {
            let q = rng.pick(&["tok", "node & pos=\"NN\"", "tok=/a\\.b/", "cat > \"x\""]).to_string();
            let d = val(rng, hostile);
            exp.push(json!({"query": q, "description": d, "query_language": "AQL"}));
            rows.push(vec![o(q), o(d), o("tok"), o("{}"), o(r.name.clone())]);
        }
        if !exp.is_empty() {
            config["example_queries"] = exp.into();
        }
        r.tables.insert("example_queries", rows);
    }
    if rng.chance(60) {
        let mut p = String::new();
        let mut lines: Vec<String> = vec![];
        let max = rng.range(1, 40);
        let mut has_max = false;
        if rng.chance(60) {
            lines.push(format!("max-context={max}"));
            config["context"]["max"] = json!(max);
            has_max = true;
        }
        if rng.chance(50) {
            let s = rng.range(1, 12);
            lines.push(format!("context-steps={s}"));
            let m = if has_max { max } else { s };
            config["context"]["sizes"] = (1..).map(|i| i * s).take_while(|x| *x <= m).collect::<Vec<usize>>().into();
        }
        if rng.chance(50) {
            let d = rng.below(20);
            lines.push(format!("default-context={d}"));
            config["context"]["default"] = json!(d);
        }
        if rng.chance(50) {
            let d = rng.range(1, 20);
            lines.push(format!("results-per-page={d}"));
            config["view"]["page_size"] = json!(d);
        }
        if rng.chance(30) {
            lines.push("default-context-segmentation=seg".into());
            config["context"]["segmentation"] = json!("seg");
        }
        if rng.chance(30) {
            lines.push("default-base-text-segmentation=seg".into());
            config["view"]["base_text_segmentation"] = json!("seg");
        }
        if rng.chance(30) {
            lines.push("hidden_annos=pos, lemma,cat".into());
            config["view"]["hidden_annos"] = json!(["pos", "lemma", "cat"]);
        }
        match rng.below(4) {
            0 => {
                lines.push("virtual_tokenization_from_namespace=true".into());
                config["view"]["timeline_strategy"] = json!({"strategy": "ImplicitFromNamespace"});
            }
            1 => {
                lines.push("virtual_tokenization_mapping=a=seg,b=x=y".into());
                config["view"]["timeline_strategy"] = json!({"strategy": "ImplicitFromMapping", "mappings": {"a": "seg", "b": "x=y"}});
            }
            _ => {}
        }
        lines.push("# comment".into());
        lines.push("unknown=1".into());
        rng.shuffle(&mut lines);
        for l in lines {
            p.push_str(&l);
            p.push('\n');
        }
        r.linked.insert(format!("{top}/corpus.properties"), p.clone().into_bytes());
        r.properties = Some(p);
    }
    for n in r.linked.keys() {
        add(&mut ev, n, "file");
        label(&mut ev, n, "annis", "file", "<linked>");
        let parent = all.iter().map(|x| &x.1).filter(|f| n.strip_prefix(f.as_str()).is_some_and(|x| x.starts_with('/') && !x[1..].contains('/'))).next().unwrap();
        ev.push(edge("PartOf", "annis", "", n, parent));
    }
    r.config = config;
    let valid = |t: &str| AnnotationComponentType::from_str(t).is_ok();
    let mut m = Model::default();
    // events for nodes first
    for e in ev.iter().filter(|e| matches!(e, U::AddNode { .. } | U::AddNodeLabel { .. })) {
        m.apply(e, &valid);
    }
    for e in ev.iter().filter(|e| !matches!(e, U::AddNode { .. } | U::AddNodeLabel { .. })) {
        m.apply(e, &valid);
    }
    r.model = m.normalized();
    r
}
