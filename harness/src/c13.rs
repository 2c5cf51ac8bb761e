//! C13: GraphML export and import.
use crate::c01::tail;
use crate::corpus::*;
use crate::gmodel::*;
use crate::rt::*;
use graphannis::model::AnnotationComponentType;
use graphannis_core::graph::Graph;
use graphannis_core::graph::serialization::graphml;
use graphannis_core::types::{ComponentType, DefaultComponentType};
use serde_json::json;
use std::collections::BTreeMap;

pub fn run(ctx: &mut Ctx) {
    ctx.cases("core", ctx.n(6000, 60000), |c, r| roundtrip::<DefaultComponentType>(c, r, true));
    ctx.cases("annis", ctx.n(6000, 60000), |c, r| roundtrip::<AnnotationComponentType>(c, r, false));
    ctx.cases("foreign", ctx.n(6000, 60000), foreign);
}

const KEY_TEXT: &[&str] = &["p", "pos", "ö", "a b", "x:y", "a::b", "100%", "%41", "<k>", "a&b", "q\"q", "日本", "k'", "::", "a/b"];
const LONG: &[&str] = &["", " ", "  x  ", "\n", "a\nb", "\t", "a\r\nb", "]]>", "&amp;", "<!-- c -->", "<![CDATA[x]]>", "&#10;", "ä<b>\"'&", "\u{feff}x", "x\u{a0}", "\u{1F600}\u{10fffd}"];
const CONFIGS: &[&str] = &["", "[context]\ndefault = 5\n", "a = \"]]>\"", "]]>", "]]]]>>", "x < y & z > '\"'\n", "ä\u{1F600}", "<![CDATA[ x ]]>", "  \n "];

/// replace the texts of a generated configuration by ones which are difficult for XML
fn hostile_cfg(rng: &mut Rng, core_only: bool) -> GenCfg {
    let mut c = gen_cfg(rng, core_only);
    if rng.chance(70) {
        for k in &mut c.anno_keys {
            if rng.chance(50) {
                k.0 = rng.pick(KEY_TEXT).to_string();
            }
            if rng.chance(50) {
                k.1 = rng.pick(KEY_TEXT).to_string();
            }
        }
        if !c.anno_keys.is_empty() && rng.chance(50) {
            // names that have a special meaning, but in another namespace (or the other way round)
            let i = rng.below(c.anno_keys.len());
            let k = rng.pick(&[("my", "node_name"), ("", "node_name"), ("", "node_type"), ("my", "node_type"), ("my", "tok"), ("annis", "tok"), ("annis", "lang"), ("annis", "node")]);
            c.anno_keys[i] = (k.0.to_string(), k.1.to_string());
        }
        c.anno_keys.sort();
        c.anno_keys.dedup();
        for v in &mut c.values {
            if rng.chance(60) {
                *v = rng.pick(LONG).to_string();
            }
        }
        for (i, n) in c.names.iter_mut().enumerate() {
            if rng.chance(15) {
                *n = format!("{}{i}{}", rng.pick(LONG), rng.pick(KEY_TEXT));
            }
        }
        for t in &mut c.types {
            if rng.chance(20) {
                *t = rng.pick(LONG).to_string();
            }
        }
        for k in &mut c.comps {
            if rng.chance(30) {
                k.1 = rng.pick(&["l<1>", "a&b", "x\"", "a/b", "/", "%2F", "ä ö", "l:l", "'"]).to_string();
            }
            if rng.chance(30) {
                k.2 = rng.pick(&["n<1>", "a&b", "x\"", "a/b", "/x", "%2F", "ä ö", "n:n", "'"]).to_string();
            }
        }
        c.comps.sort();
        c.comps.dedup();
    }
    c
}

fn ge<T, E: std::fmt::Display>(r: Result<T, E>, sig: &str, what: &str) -> Result<T, Violation> {
    r.map_err(|e| Violation { sig: sig.into(), detail: format!("{e}; {what}") })
}

fn export<CT: ComponentType>(g: &Graph<CT>, config: Option<&str>, stable: bool, what: &str) -> Result<String, Violation> {
    let mut out: Vec<u8> = vec![];
    let r = if stable { graphml::export_stable_order(g, config, &mut out, |_| {}) } else { graphml::export(g, config, &mut out, |_| {}) };
    ge(r, "export-failed", what)?;
    ge(String::from_utf8(out), "export-not-utf8", what)
}

fn import<CT: ComponentType>(xml: &str, disk: bool, what: &str) -> Result<(Graph<CT>, Option<String>), Violation> {
    match guarded(|| graphml::import::<CT, _, _>(xml.as_bytes(), disk, |_| {})) {
        Ok(r) => ge(r, "import-failed", &format!("{what}; document: {}", xml.chars().take(3000).collect::<String>())),
        Err((l, m)) => viol(format!("panic:{}", short_loc(&l)), format!("{m}; {what}")),
    }
}

/// An own small reader for the exported documents: GraphML semantics with standard XML unescaping
pub fn read_xml(xml: &str) -> Result<(Model, Option<String>), String> {
    let mut m = Model::default();
    let mut config = None;
    let mut keys: BTreeMap<String, (String, String)> = BTreeMap::new();
    let mut rest = xml;
    let mut stack: Vec<(String, BTreeMap<String, String>)> = vec![];
    let mut text = String::new();
    let mut labels: Vec<(String, String)> = vec![];
    let unescape = |s: &str| -> Result<String, String> {
        let mut r = String::new();
        let mut s = s;
        while let Some(p) = s.find('&') {
            r.push_str(&s[..p]);
            let e = s[p..].find(';').ok_or("unterminated entity")? + p;
            match &s[p + 1..e] {
                "lt" => r.push('<'),
                "gt" => r.push('>'),
                "amp" => r.push('&'),
                "quot" => r.push('"'),
                "apos" => r.push('\''),
                n if n.starts_with("#x") => r.push(u32::from_str_radix(&n[2..], 16).ok().and_then(char::from_u32).ok_or("bad reference")?),
                n if n.starts_with('#') => r.push(n[1..].parse().ok().and_then(char::from_u32).ok_or("bad reference")?),
                n => return Err(format!("unknown entity {n:?}")),
            }
            s = &s[e + 1..];
        }
        r.push_str(s);
        Ok(r)
    };
    let decode = |s: &str| -> String {
        let b = s.as_bytes();
        let mut r = vec![];
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'%'
                && let Some(h) = s.get(i + 1..i + 3)
                && let Ok(x) = u8::from_str_radix(h, 16)
            {
                r.push(x);
                i += 3;
            } else {
                r.push(b[i]);
                i += 1;
            }
        }
        String::from_utf8(r).unwrap_or(s.to_string())
    };
    while !rest.is_empty() {
        let Some(p) = rest.find('<') else {
            if !rest.trim().is_empty() {
                return Err("text after the root element".into());
            }
            break;
        };
        if rest[..p].contains("]]>") {
            return Err("]]> in text".into());
        }
        text.push_str(&unescape(&rest[..p])?);
        rest = &rest[p..];
        if let Some(r) = rest.strip_prefix("<?") {
            rest = &r[r.find("?>").ok_or("unterminated declaration")? + 2..];
            continue;
        }
        if let Some(r) = rest.strip_prefix("<![CDATA[") {
            let e = r.find("]]>").ok_or("unterminated CDATA")?;
            text.push_str(&r[..e]);
            rest = &r[e + 3..];
            continue;
        }
        // a tag: find its end outside of quotes
        let mut quote = None;
        let mut e = None;
        for (i, c) in rest.char_indices() {
            match (quote, c) {
                (None, '>') => {
                    e = Some(i);
                    break;
                }
                (None, '"' | '\'') => quote = Some(c),
                (Some(q), c) if c == q => quote = None,
                (Some(_), '<') => return Err("< in attribute value".into()),
                _ => {}
            }
        }
        let e = e.ok_or("unterminated tag")?;
        let tag = &rest[1..e];
        rest = &rest[e + 1..];
        let (closing, tag) = match tag.strip_prefix('/') {
            Some(t) => (true, t),
            None => (false, tag),
        };
        let (empty, tag) = match tag.strip_suffix('/') {
            Some(t) => (true, t),
            None => (false, tag),
        };
        let name = tag.split(|c: char| c.is_whitespace()).next().unwrap().to_string();
        if !closing {
            let mut atts = BTreeMap::new();
            let mut a = tag[name.len()..].trim_start();
            while !a.is_empty() {
                let q = a.find('=').ok_or("attribute without value")?;
                let key = a[..q].trim().to_string();
                let v = a[q + 1..].trim_start();
                let quote = v.chars().next().ok_or("attribute without value")?;
                if quote != '"' && quote != '\'' {
                    return Err("attribute without quotes".into());
                }
                let end = v[1..].find(quote).ok_or("unterminated attribute")? + 1;
                if atts.insert(key, unescape(&v[1..end])?).is_some() {
                    return Err("attribute given twice".into());
                }
                a = v[end + 1..].trim_start();
            }
            text.clear();
            if name == "node" || name == "edge" {
                labels.clear();
            }
            if name == "key" {
                let q = atts.get("attr.name").ok_or("key without name")?;
                let k = match q.split_once("::") {
                    Some((ns, n)) => (decode(ns), decode(n)),
                    None => (String::new(), decode(q)),
                };
                if keys.insert(atts.get("id").ok_or("key without id")?.clone(), k).is_some() {
                    return Err("key ID declared twice".into());
                }
            }
            stack.push((name.clone(), atts));
        }
        if closing || empty {
            let (n, atts) = stack.pop().ok_or("closing tag without start")?;
            if n != name {
                return Err(format!("<{n}> closed by </{name}>"));
            }
            let get = |k: &str| atts.get(k).cloned().ok_or_else(|| format!("{name} without {k}"));
            match name.as_str() {
                "data" => {
                    let parent = stack.last().map(|s| s.0.as_str()).unwrap_or("");
                    if parent == "graph" {
                        config = Some(text.clone());
                    } else {
                        labels.push((get("key")?, text.clone()));
                    }
                    text.clear();
                }
                "node" => {
                    let id = get("id")?;
                    let mut l = Labels::new();
                    l.insert(("annis".into(), "node_name".into()), id.clone());
                    for (k, v) in labels.drain(..) {
                        if l.insert(keys.get(&k).ok_or("undeclared key")?.clone(), v).is_some() {
                            return Err(format!("label given twice for node {id:?}"));
                        }
                    }
                    if m.nodes.insert(id.clone(), l).is_some() {
                        return Err(format!("node {id:?} given twice"));
                    }
                }
                "edge" => {
                    let c = get("label")?;
                    let c: Vec<&str> = c.splitn(3, '/').collect();
                    if c.len() != 3 {
                        return Err(format!("component {c:?}"));
                    }
                    let mut l = Labels::new();
                    for (k, v) in labels.drain(..) {
                        l.insert(keys.get(&k).ok_or("undeclared key")?.clone(), v);
                    }
                    let (s, t) = (get("source")?, get("target")?);
                    if !m.nodes.contains_key(&s) || !m.nodes.contains_key(&t) {
                        return Err(format!("edge {s:?} -> {t:?} without nodes"));
                    }
                    if m.edges.entry((c[0].into(), decode(c[1]), c[2].into())).or_default().insert((s, t), l).is_some() {
                        return Err("edge given twice".into());
                    }
                }
                _ => {}
            }
        }
    }
    if !stack.is_empty() {
        return Err("element not closed".into());
    }
    Ok((m, config))
}

fn roundtrip<CT: ComponentType>(ctx: &mut Ctx, rng: &mut Rng, core_only: bool) -> Case {
    let valid = |t: &str| CT::from_str(t).is_ok();
    let disk = rng.chance(40);
    let mut g: Graph<CT> = ge(Graph::with_default_graphstorages(disk), "create", "")?;
    let mut model = Model::default();
    let mut log = vec![];
    let cfg = hostile_cfg(rng, core_only);
    let corpus = if !core_only && rng.chance(40) { Some(Cfg { hostile: true, segs: 2, ..Default::default() }) } else { None };
    let mut info = None;
    for _ in 0..rng.range(1, 3) {
        let evs = match (&corpus, &mut info) {
            (Some(c), None) => {
                let (e, i) = gen_corpus(rng, "c", c);
                info = Some(i);
                e
            }
            (Some(c), Some(i)) => gen_edit(rng, c, i, &model).0,
            _ => {
                let n = rng.range(5, 80);
                let mut m = model.clone();
                gen_events(rng, &cfg, &mut m, n, &valid)
            }
        };
        for e in &evs {
            model.apply(e, &valid);
        }
        log.push(format!("{evs:?}"));
        ge(g.apply_update(&mut events_to_update(&evs), |_| {}), "update-failed", &tail(&log))?;
        if rng.chance(40) {
            let d = rng.chance(40);
            log.push(format!("optimize disk={d}"));
            ge(g.optimize_impl(d), "optimize-failed", &tail(&log))?;
        }
    }
    let config = if rng.chance(60) { Some(rng.pick(CONFIGS).to_string()) } else { None };
    let what = || format!("config={config:?} disk={disk} {}", tail(&log));
    let before = observe(&g, false).map_err(|v| Violation { sig: v.sig, detail: format!("{}; {}", v.detail, what()) })?;
    let stable = rng.chance(50);
    let xml = export(&g, config.as_deref(), stable, &what())?;
    ctx.max("largest_document", xml.len() as u64);
    match read_xml(&xml) {
        Err(e) => return viol("document-malformed", format!("{e}; {}; document {}", what(), xml.chars().take(4000).collect::<String>())),
        Ok((m, c)) => {
            if let Some(d) = before.diff(&m) {
                return viol("document-differs", format!("{d}; {}", what()));
            }
            check!(c == config, "document-config", "configuration in the document: {c:?}; {}", what());
        }
    }
    let disk2 = rng.chance(30);
    let (g2, c2) = import::<CT>(&xml, disk2, &what())?;
    let after = observe(&g2, false).map_err(|v| Violation { sig: v.sig, detail: format!("imported graph: {}; {}", v.detail, what()) })?;
    if let Some(d) = before.diff(&after) {
        return viol("roundtrip-differs", format!("{d}; disk={disk2} stable={stable} {}", what()));
    }
    check!(c2 == config, "config-differs", "exported {config:?}, imported {c2:?}; {}", what());
    ctx.count("round_trips", 1);
    // stable order
    let s1 = export(&g, config.as_deref(), true, &what())?;
    let s1b = export(&g, config.as_deref(), true, &what())?;
    check!(s1 == s1b, "export-not-deterministic", "two stable exports differ; {}", what());
    let (g3, _) = import::<CT>(&s1, rng.chance(30), &what())?;
    let s2 = export(&g3, config.as_deref(), true, &what())?;
    if s1 != s2 {
        let l = s1.lines().zip(s2.lines()).find(|(a, b)| a != b);
        return viol("reexport-differs", format!("stable export of the imported graph differs: {l:?}; {}", what()));
    }
    if rng.chance(50) {
        ge(g.optimize_impl(rng.chance(50)), "optimize-failed", &what())?;
        let s4 = export(&g, config.as_deref(), true, &what())?;
        if s1 != s4 {
            let l = s1.lines().zip(s4.lines()).find(|(a, b)| a != b);
            return viol("export-depends-on-storage", format!("stable export after optimisation differs: {l:?}; {}", what()));
        }
        ctx.count("exports_of_other_storages", 1);
    }
    if model.n_edges() > 0 {
        ctx.distinct(&format!("{log:?}"));
    }
    ctx.sample(json!({"nodes": model.nodes.len(), "edges": model.n_edges(), "document_bytes": xml.len()}));
    Ok(())
}

/// Documents with the same content in another form
fn foreign(ctx: &mut Ctx, rng: &mut Rng) -> Case {
    let valid = |t: &str| <AnnotationComponentType as std::str::FromStr>::from_str(t).is_ok();
    let cfg = hostile_cfg(rng, false);
    let mut model = Model::default();
    let n = rng.range(5, 60);
    gen_events(rng, &cfg, &mut model, n, &valid);
    // no '/' in the layer: the notation of components in foreign documents has no escape for it
    let model = Model { nodes: model.nodes, edges: model.edges.into_iter().filter(|(k, _)| !k.1.contains(['/', '%'])).collect() }.normalized();
    fn esc(rng: &mut Rng, s: &str, attr: Option<char>) -> String {
        let mut r = String::new();
        for c in s.chars() {
            match c {
                '<' => r.push_str("&lt;"),
                '&' => r.push_str(rng.pick(&["&amp;", "&#38;", "&#x26;"])),
                '>' if rng.chance(50) || attr.is_none() => r.push_str("&gt;"),
                c if Some(c) == attr => r.push_str(if c == '"' { "&quot;" } else { "&apos;" }),
                '\n' | '\t' | '\r' => r.push_str(&format!("&#{};", c as u32)),
                c if rng.chance(3) => r.push_str(&format!("&#x{:X};", c as u32)),
                c => r.push(c),
            }
        }
        r
    }
    fn text(rng: &mut Rng, s: &str) -> String {
        // one text as several parts
        let chars: Vec<char> = s.chars().collect();
        let mut r = String::new();
        let mut i = 0;
        loop {
            if rng.chance(8) {
                r.push_str("<!-- a <comment> -->");
            }
            if rng.chance(5) {
                r.push_str("<?pi x?>");
            }
            if i >= chars.len() {
                break;
            }
            let e = (i + rng.range(1, 12)).min(chars.len());
            let part: String = chars[i..e].iter().collect();
            if rng.chance(15) && !part.contains("]]>") && !part.contains('\r') {
                r.push_str(&format!("<![CDATA[{part}]]>"));
            } else {
                r.push_str(&esc(rng, &part, None));
            }
            i = e;
        }
        r
    }
    fn tag(rng: &mut Rng, name: &str, mut atts: Vec<(String, String)>) -> String {
        rng.shuffle(&mut atts);
        let mut r = format!("<{name}");
        for (k, v) in atts {
            let q = *rng.pick(&['"', '\'']);
            let sp = rng.pick(&[" ", "\n  ", "  "]).to_string();
            r.push_str(&format!("{sp}{k}={q}{}{q}", esc(rng, &v, Some(q))));
        }
        r
    }
    let a = |k: &str, v: &str| (k.to_string(), v.to_string());
    let ws = |rng: &mut Rng| rng.pick(&["", "\n", "\n    ", " "]).to_string();
    let config = if rng.chance(50) { Some(rng.pick(&CONFIGS[1..8]).to_string()) } else { None };
    let mut doc = String::new();
    if rng.chance(70) {
        doc.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
    }
    if rng.chance(20) {
        doc.push_str("<!-- comment --> \n");
    }
    let root_atts = if rng.chance(50) { vec![a("xmlns", "http://graphml.graphdrawing.org/xmlns")] } else { vec![] };
    doc.push_str(&tag(rng, "graphml", root_atts));
    doc.push('>');
    // keys
    let mut keys: Vec<(String, String)> = model.nodes.values().chain(model.edges.values().flat_map(|e| e.values())).flat_map(|l| l.keys().cloned()).filter(|k| k.0 != "annis" || k.1 != "node_name").collect();
    keys.sort();
    keys.dedup();
    rng.shuffle(&mut keys);
    let enc = |s: &str| -> String { s.bytes().map(|b| if b.is_ascii_alphanumeric() || b"_-./'\"<>&".contains(&b) { (b as char).to_string() } else { format!("%{b:02X}") }).collect() };
    let mut ids = BTreeMap::new();
    let mut kdecl = vec![];
    if config.is_some() {
        kdecl.push(vec![a("id", "k0"), a("for", "graph"), a("attr.name", "configuration"), a("attr.type", "string")]);
    }
    for (i, k) in keys.iter().enumerate() {
        let id = if rng.chance(50) { format!("k{}", i + 1) } else { format!("d<{i}") };
        let q = if k.0.is_empty() { enc(&k.1) } else { format!("{}::{}", enc(&k.0), enc(&k.1)) };
        kdecl.push(vec![a("id", &id), a("for", rng.pick(&["node", "edge", "all"])), a("attr.name", &q), a("attr.type", "string")]);
        ids.insert(k.clone(), id);
    }
    rng.shuffle(&mut kdecl);
    for k in kdecl {
        doc.push_str(&ws(rng));
        doc.push_str(&tag(rng, "key", k));
        doc.push_str(if rng.chance(50) { "/>" } else { "></key>" });
    }
    doc.push_str(&ws(rng));
    doc.push_str(&tag(rng, "graph", vec![a("edgedefault", "directed"), a("id", "G")]));
    doc.push('>');
    if let Some(c) = &config {
        doc.push_str(&ws(rng));
        doc.push_str(&tag(rng, "data", vec![a("key", "k0")]));
        doc.push_str(&format!("><![CDATA[{}]]></data>", c.replace("]]>", "]]]]><![CDATA[>")));
    }
    let data = |rng: &mut Rng, l: &Labels| -> String {
        let mut l: Vec<_> = l.iter().filter(|(k, _)| k.0 != "annis" || k.1 != "node_name").collect();
        rng.shuffle(&mut l);
        let mut r = String::new();
        for (k, v) in l {
            r.push_str(&ws(rng));
            r.push_str(&tag(rng, "data", vec![a("key", &ids[k])]));
            if v.is_empty() && rng.chance(50) {
                r.push_str("/>");
            } else {
                r.push('>');
                r.push_str(&text(rng, v));
                r.push_str("</data>");
            }
        }
        r
    };
    let mut parts: Vec<String> = vec![];
    for (n, l) in &model.nodes {
        let mut s = tag(rng, "node", vec![a("id", n)]);
        s.push('>');
        s.push_str(&data(rng, l));
        s.push_str(&ws(rng));
        s.push_str("</node>");
        parts.push(s);
    }
    let mut e_nr = 0;
    for (c, es) in &model.edges {
        for ((s, t), l) in es {
            let mut atts = vec![a("source", s), a("target", t), a("label", &format!("{}/{}/{}", c.0, c.1, c.2))];
            if rng.chance(70) {
                atts.push(a("id", &format!("e{e_nr}")));
            }
            e_nr += 1;
            let mut x = tag(rng, "edge", atts);
            if l.is_empty() && rng.chance(50) {
                x.push_str("/>");
            } else {
                x.push('>');
                x.push_str(&data(rng, l));
                x.push_str("</edge>");
            }
            parts.push(x);
        }
    }
    rng.shuffle(&mut parts);
    for p in parts {
        doc.push_str(&ws(rng));
        doc.push_str(&p);
        if rng.chance(5) {
            doc.push_str("<!-- <node id='x'/> -->");
        }
    }
    doc.push_str("</graph></graphml>");
    doc.push_str(&ws(rng));
    let what = || format!("document {}", if std::env::var("VH_FULL").is_ok() { doc.clone() } else { doc.chars().take(5000).collect() });
    let (g, c) = import::<AnnotationComponentType>(&doc, rng.chance(30), &what())?;
    let got = observe(&g, false).map_err(|v| Violation { sig: v.sig, detail: format!("{}; {}", v.detail, what()) })?;
    if let Some(d) = model.diff(&got) {
        return viol("foreign-differs", format!("{d}; {}", what()));
    }
    check!(c == config, "config-differs", "{config:?} was read as {c:?}; {}", what());
    ctx.count("foreign_documents", 1);
    if model.n_edges() > 0 {
        ctx.distinct(&doc);
    }
    Ok(())
}
