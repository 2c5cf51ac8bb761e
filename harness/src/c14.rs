//! C14: export and import of corpora with configuration and linked files.
use crate::c01::tail;
use crate::c05::few_paths;
use crate::c13::read_xml;
use crate::corpus::*;
use crate::gmodel::*;
use crate::rt::*;
use crate::store::*;
use graphannis::CorpusStorage;
use graphannis::corpusstorage::{ExportFormat, ImportFormat, QueryLanguage, ResultOrder};
use graphannis::model::AnnotationComponentType;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::str::FromStr;

pub fn run(ctx: &mut Ctx) {
    ctx.cases("directory", ctx.n(160, 5000), |c, r| case(c, r, 0));
    ctx.cases("zip", ctx.n(200, 5000), |c, r| case(c, r, 1));
    ctx.cases("file", ctx.n(80, 3000), |c, r| case(c, r, 2));
}

pub type Files = BTreeMap<String, Vec<u8>>;

/// All files below a directory with their content
pub fn tree(dir: &Path) -> Files {
    fn rec(dir: &Path, base: &Path, r: &mut Files) {
        let Ok(it) = std::fs::read_dir(dir) else { return };
        for e in it.flatten() {
            let p = e.path();
            let rel = p.strip_prefix(base).unwrap().to_string_lossy().to_string();
            match e.file_type() {
                Ok(t) if t.is_dir() => rec(&p, base, r),
                _ => {
                    r.insert(rel, std::fs::read(&p).unwrap_or_default());
                }
            }
        }
    }
    let mut r = Files::new();
    rec(dir, dir, &mut r);
    r
}

pub fn xml_escape(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '<' => r.push_str("&lt;"),
            '>' => r.push_str("&gt;"),
            '&' => r.push_str("&amp;"),
            '"' => r.push_str("&quot;"),
            '\n' | '\t' | '\r' => r.push_str(&format!("&#{};", c as u32)),
            c => r.push(c),
        }
    }
    r
}

fn percent(s: &str, keep: &str) -> String {
    s.bytes().map(|b| if b.is_ascii_alphanumeric() || keep.as_bytes().contains(&b) { (b as char).to_string() } else { format!("%{b:02X}") }).collect()
}

pub fn unpercent(s: &str) -> String {
    let b = s.as_bytes();
    let mut r = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() && s.is_char_boundary(i + 3) {
            if let Ok(x) = u8::from_str_radix(&s[i + 1..i + 3], 16) {
                r.push(x);
                i += 3;
                continue;
            }
        }
        r.push(b[i]);
        i += 1;
    }
    String::from_utf8_lossy(&r).to_string()
}

/// A plain GraphML document of the content
pub fn write_xml(m: &Model, config: Option<&str>) -> String {
    let mut keys: BTreeSet<(String, String)> = m.nodes.values().chain(m.edges.values().flat_map(|e| e.values())).flat_map(|l| l.keys().cloned()).collect();
    keys.remove(&("annis".to_string(), "node_name".to_string()));
    let mut s = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<graphml>\n");
    if config.is_some() {
        s.push_str("<key id=\"k0\" for=\"graph\" attr.name=\"configuration\" attr.type=\"string\"/>\n");
    }
    let mut ids = BTreeMap::new();
    for (i, k) in keys.iter().enumerate() {
        let n = percent(&k.1, "_-.");
        let q = if k.0.is_empty() { n } else { format!("{}::{n}", percent(&k.0, "_-.")) };
        s.push_str(&format!("<key id=\"k{}\" for=\"node\" attr.name=\"{}\" attr.type=\"string\"/>\n", i + 1, xml_escape(&q)));
        ids.insert(k.clone(), i + 1);
    }
    s.push_str("<graph edgedefault=\"directed\" parse.order=\"nodesfirst\" parse.nodeids=\"free\" parse.edgeids=\"canonical\">\n");
    if let Some(c) = config {
        s.push_str(&format!("<data key=\"k0\"><![CDATA[{}]]></data>\n", c.replace("]]>", "]]]]><![CDATA[>")));
    }
    let data = |l: &Labels| -> String { l.iter().filter(|(k, _)| ids.contains_key(*k)).map(|(k, v)| format!("<data key=\"k{}\">{}</data>", ids[k], xml_escape(v))).collect() };
    for (n, l) in &m.nodes {
        s.push_str(&format!("<node id=\"{}\">{}</node>\n", xml_escape(n), data(l)));
    }
    let mut i = 0;
    for (c, es) in &m.edges {
        for ((a, b), l) in es {
            s.push_str(&format!("<edge id=\"e{i}\" source=\"{}\" target=\"{}\" label=\"{}/{}/{}\">{}</edge>\n", xml_escape(a), xml_escape(b), c.0, xml_escape(&c.1), xml_escape(&c.2), data(l)));
            i += 1;
        }
    }
    s.push_str("</graph>\n</graphml>\n");
    s
}

const TYPE: (&str, &str) = ("annis", "node_type");
const FILE: (&str, &str) = ("annis", "file");
fn key(k: (&str, &str)) -> (String, String) {
    (k.0.to_string(), k.1.to_string())
}

pub fn relative(v: &str) -> bool {
    Path::new(v).file_name().is_some() && Path::new(v).components().all(|c| matches!(c, std::path::Component::Normal(_) | std::path::Component::CurDir))
}

/// Content without the values that link to existing files, and the bytes of the linked files
pub fn split_files(m: &Model, files: &Path) -> (Model, BTreeMap<String, Vec<u8>>, BTreeSet<String>) {
    let mut m = m.clone().normalized();
    let mut linked = BTreeMap::new();
    let mut used = BTreeSet::new();
    for (n, l) in &mut m.nodes {
        if l.get(&key(TYPE)).is_some_and(|t| t == "file")
            && let Some(v) = l.get(&key(FILE))
        {
            let p = if Path::new(v).starts_with(files) { PathBuf::from(v) } else { files.join(v) };
            let rel = p.strip_prefix(files).map(|p| p.to_string_lossy().to_string()).unwrap_or_default();
            if relative(&rel) && p.is_file() {
                linked.insert(n.clone(), std::fs::read(&p).unwrap_or_default());
                used.insert(Path::new(&rel).components().collect::<PathBuf>().to_string_lossy().to_string());
                l.insert(key(FILE), "<linked>".into());
            }
        }
    }
    (m, linked, used)
}

#[derive(Clone)]
pub struct Corpus {
    content: Model,
    linked: BTreeMap<String, Vec<u8>>,
    /// configuration without the corpus size
    config: Value,
    size: Option<Value>,
}

fn config_of(v: &Value) -> (Value, Value) {
    let mut v = v.clone();
    let size = v.get_mut("corpus_size").map(|x| x.take()).unwrap_or(Value::Null);
    if let Some(o) = v.as_object_mut() {
        o.remove("corpus_size");
    }
    (v, size)
}

fn gen_config(rng: &mut Rng) -> String {
    let mut s = String::new();
    let txt = |rng: &mut Rng| rng.pick(&["pos", "a::b", "\u{e4}\u{1F600}", "]]>", "<b> & \\\"x\\\"", "", "x.y", "[a]", "#x", "tok=\\\"x\\\" & node"]).to_string();
    s.push_str(&format!("[context]\ndefault = {}\nsizes = [{}]\n", rng.below(20), (0..rng.below(4)).map(|i| i.to_string()).collect::<Vec<_>>().join(",")));
    if rng.chance(50) {
        s.push_str(&format!("max = {}\n", rng.below(50)));
    }
    if rng.chance(50) {
        s.push_str("segmentation = \"seg\"\n");
    }
    s.push_str(&format!("[view]\npage_size = {}\n", rng.range(1, 100)));
    if rng.chance(30) {
        s.push_str(&format!("base_text_segmentation = \"{}\"\n", txt(rng)));
    }
    if rng.chance(50) {
        s.push_str(&format!("hidden_annos = [\"{}\", \"{}\"]\n", txt(rng), txt(rng)));
    }
    if rng.chance(30) {
        s.push_str(&format!("corpus_annotation_order = [\"{}\", \"{}\"]\n", txt(rng), txt(rng)));
    }
    match rng.below(4) {
        0 => s.push_str("timeline_strategy = {strategy = \"ImplicitFromNamespace\"}\n"),
        1 => s.push_str(&format!("timeline_strategy = {{strategy = \"ImplicitFromMapping\", mappings = {{\"{}\" = \"x\"}}}}\n", txt(rng))),
        _ => {}
    }
    for _ in 0..rng.below(3) {
        s.push_str(&format!("[[example_queries]]\nquery = \"{}\"\ndescription = \"{}\"\nquery_language = \"{}\"\n", txt(rng), txt(rng), rng.pick(&["AQL", "AQLQuirksV3"])));
    }
    for _ in 0..rng.below(3) {
        s.push_str(&format!("[[visualizers]]\nvis_type = \"{}\"\ndisplay_name = \"{}\"\nvisibility = \"{}\"\n", txt(rng), txt(rng), rng.pick(&["hidden", "visible", "permanent", "preloaded"])));
        if rng.chance(50) {
            s.push_str(&format!("element = \"{}\"\nlayer = \"{}\"\n", rng.pick(&["node", "edge"]), txt(rng)));
        }
        if rng.chance(50) {
            s.push_str(&format!("[visualizers.mappings]\n\"{}\" = \"{}\"\n", txt(rng), txt(rng)));
        }
    }
    if rng.chance(20) {
        s.push_str(&format!("[corpus_size]\nquantity = {}\nunit = {{name = \"tokens\"}}\n", rng.below(100)));
    }
    s
}

const NAMES: &[&str] = &["c", "C", "a b", "\u{e4}", "a/b", "a%2Fb", "x:y", "c.graphml", "current", "files", "..x", "#x", "\u{65e5}\u{672c}", "\\", "a*", "a\nb", "%", "{x}", ".", "..", "../c", "/tmp/x", "corpus.annis", "corpus.tab", "x.GRAPHML"];
/// last part of the name of a node for a linked file
const FILE_NODES: &[&str] = &["audio.wav", "a b.txt", "sub/x.pdf", "\u{e4}.jpg", "%41", "y.graphml", "Z.GraphML", "corpus.tab", "corpus.annis", "../up", "..", ".", "x//y", "/abs", "sub/../x", "%escaped/q", "x\ny", "\\w", "tr/"];
const LINKS: &[&str] = &["a.wav", "dir/b.txt", "dir/deep/c.bin", "\u{e4} x.jpg", "%41.txt", "same", "Same", "back\\slash", "note.txt"];

/// Write a corpus as it is given to a user: a GraphML document with files next to it. Returns what is expected after importing.
fn gen_document(ctx: &mut Ctx, rng: &mut Rng, dir: &Path, file: &str, hostile: bool) -> Result<Option<Corpus>, Violation> {
    let valid = |t: &str| AnnotationComponentType::from_str(t).is_ok();
    let gc = Cfg { hostile: hostile && rng.chance(30), segs: 1, ..Default::default() };
    let root = rng.pick(&["c", "root"]).to_string();
    let (mut evs, info) = gen_corpus(rng, &root, &gc);
    let mut parents = info.docs.clone();
    parents.push(root.clone());
    let mut used: BTreeSet<String> = BTreeSet::new();
    for _ in 0..rng.below(5) {
        let n = if hostile && rng.chance(60) { rng.pick(FILE_NODES).to_string() } else { format!("{}/{}", rng.pick(&parents), rng.pick(&FILE_NODES[..6])) };
        // no name that needs a directory with the name of another file
        if !used.insert(n.clone()) || used.iter().any(|u| *u != n && (Path::new(u).starts_with(&n) || Path::new(&n).starts_with(u))) {
            continue;
        }
        evs.push(add_node(&n, if rng.chance(95) { "file" } else { "node" }));
        evs.push(edge("PartOf", "annis", "", &n, rng.pick(&parents)));
        let v = match rng.below(10) {
            0 => format!("missing-{}", rng.below(9)),
            1 if hostile => rng.pick(&["../outside", "..", "", "/etc/hostname", "dir", "dir/../../outside", "./a.wav"]).to_string(),
            2 => dir.join(rng.pick(LINKS)).to_string_lossy().to_string(),
            _ => rng.pick(LINKS).to_string(),
        };
        if rng.chance(95) {
            evs.push(label(&n, "annis", "file", &v));
            if v != "dir" && !v.contains("..") && relative(&v) | v.starts_with(dir.to_str().unwrap()) && !v.starts_with("missing") && rng.chance(90) {
                let p = dir.join(&v);
                std::fs::create_dir_all(p.parent().unwrap()).map_err(serr)?;
                let size = *rng.pick(&[0usize, 1, 10, 100, 5000, 100000]);
                let bytes: Vec<u8> = (0..size).map(|_| rng.next() as u8).collect();
                std::fs::write(&p, bytes).map_err(serr)?;
            }
        }
    }
    let _ = std::fs::create_dir_all(dir.join("dir"));
    if rng.chance(50) {
        // not linked
        std::fs::write(dir.join("other.txt"), "x").map_err(serr)?;
    }
    let mut m = Model::default();
    for e in &evs {
        m.apply(e, &valid);
    }
    if !few_paths(&m) {
        ctx.count("skipped_too_many_paths", 1);
        return Ok(None);
    }
    let config = rng.chance(75).then(|| gen_config(rng));
    std::fs::write(dir.join(file), write_xml(&m, config.as_deref())).map_err(serr)?;
    let (content, linked, _) = split_files(&m, &std::fs::canonicalize(dir).map_err(serr)?);
    let config = match &config {
        Some(s) => parse_config(s)?,
        None => parse_config("")?,
    };
    let (config, _) = config_of(&config);
    Ok(Some(Corpus { content, linked, config, size: None }))
}

/// values of the configuration with the documented defaults
fn parse_config(s: &str) -> Result<Value, Violation> {
    let t: toml::Value = toml::from_str(s).map_err(|e| Violation { sig: "harness-config".into(), detail: format!("{e} {s}") })?;
    let mut v = serde_json::to_value(&t).unwrap();
    let o = v.as_object_mut().unwrap();
    o.remove("corpus_size");
    o.insert("corpus_size".into(), Value::Null);
    let c = o.entry("context").or_insert(json!({"default": 5, "sizes": [0, 1, 2, 5, 10]}));
    let c = c.as_object_mut().unwrap();
    c.entry("max").or_insert(Value::Null);
    c.entry("segmentation").or_insert(Value::Null);
    let w = o.entry("view").or_insert(json!({"page_size": 10}));
    w.as_object_mut().unwrap().entry("base_text_segmentation").or_insert(Value::Null);
    if let Some(vis) = o.get_mut("visualizers").and_then(|v| v.as_array_mut()) {
        for x in vis {
            let x = x.as_object_mut().unwrap();
            x.entry("element").or_insert(Value::Null);
            x.entry("layer").or_insert(Value::Null);
        }
    }
    Ok(v)
}

/// The directory of a corpus in the data directory
pub fn corpus_dir(data: &Path, name: &str) -> Option<PathBuf> {
    std::fs::read_dir(data).ok()?.flatten().find(|e| e.path().is_dir() && !e.file_name().to_string_lossy().starts_with('#') && unpercent(&e.file_name().to_string_lossy()) == name).map(|e| e.path())
}

/// What a corpus in a storage really is
fn read_corpus(cs: &CorpusStorage, data: &Path, name: &str, tmp: &Path) -> Result<Corpus, Violation> {
    let x = tmp.join("read");
    std::fs::create_dir_all(&x).map_err(serr)?;
    let f = x.join("out.xml");
    cs.export_to_fs(&[name], &f, ExportFormat::GraphML).map_err(|e| Violation { sig: "export-failed".into(), detail: format!("{name:?}: {e}") })?;
    let (m, _) = read_xml(&std::fs::read_to_string(&f).map_err(serr)?).map_err(|e| Violation { sig: "export-malformed".into(), detail: e })?;
    std::fs::remove_dir_all(&x).map_err(serr)?;
    let Some(dir) = corpus_dir(data, name) else { return viol("no-directory", format!("no directory for {name:?}")) };
    let (content, linked, _) = split_files(&m, &dir.join("files"));
    let info = cs.info(name).map_err(|e| Violation { sig: "info-failed".into(), detail: e.to_string() })?;
    let (config, size) = config_of(&serde_json::to_value(&info.config).map_err(serr)?);
    Ok(Corpus { content, linked, config, size: Some(size) })
}

fn same(exp: &Corpus, got: &Corpus, what: &dyn Fn() -> String) -> Case {
    if let Some(d) = exp.content.diff(&got.content) {
        return viol("content-differs", format!("{d}; {}", what()));
    }
    let names = |c: &Corpus| c.linked.keys().cloned().collect::<Vec<_>>();
    check!(names(exp) == names(got), "linked-files", "files for nodes {:?} instead of {:?}; {}", names(got), names(exp), what());
    for (n, b) in &exp.linked {
        check!(got.linked[n] == *b, "linked-file-bytes", "file of node {n:?} has {} bytes, expected {}; {}", got.linked[n].len(), b.len(), what());
    }
    check!(exp.config == got.config, "config-differs", "{} instead of {}; {}", got.config, exp.config, what());
    if let (Some(a), Some(b)) = (&exp.size, &got.size) {
        check!(a == b, "corpus-size-differs", "{b} instead of {a}; {}", what());
    }
    Ok(())
}

const QUERIES: &[&str] = &["tok", "node", "annis:node_name", "node _i_ tok", "node _o_ node", "node > node", "node -> node", "tok . tok", "pos", "tok @* annis:doc", "annis:node_type=\"file\"", "node & node & #1 >edge #2"];

fn answers(cs: &CorpusStorage, corpora: &[String], qs: &[&str]) -> Vec<Result<Vec<String>, String>> {
    qs.iter().map(|q| find(cs, corpora, q, QueryLanguage::AQL, ResultOrder::Normal)).collect()
}

fn case(ctx: &mut Ctx, rng: &mut Rng, format: usize) -> Case {
    let hostile = rng.chance(60);
    let outer = scratch();
    let base = std::fs::canonicalize(outer.path()).map_err(serr)?;
    let sub = |n: &str| -> Result<PathBuf, Violation> {
        let p = base.join(n);
        std::fs::create_dir_all(&p).map_err(serr)?;
        Ok(p)
    };
    let a_dir = sub("a/data")?;
    let tmp = sub("tmp")?;
    std::fs::write(base.join("outside"), "outside").map_err(serr)?;
    std::fs::write(tmp.join("outside"), "outside").map_err(serr)?;
    let cfg_a = SCfg::random(rng);
    let mut log = vec![format!("{cfg_a:?}")];
    let mut a = cfg_a.open(&a_dir)?;
    let mut corpora: BTreeMap<String, Corpus> = BTreeMap::new();
    for i in 0..if format == 2 { 1 } else { rng.range(1, 3) } {
        let name = if hostile { rng.pick(NAMES).to_string() } else { format!("corpus{i}") };
        if corpora.contains_key(&name) {
            continue;
        }
        let d = sub(&format!("tmp/src{i}"))?;
        // the file name defines the name of the corpus
        let own_name = rng.chance(40);
        let file = if own_name { "doc.graphml".to_string() } else { format!("{}.graphml", percent(&name, "_-")) };
        let Some(exp) = gen_document(ctx, rng, &d, &file, hostile)? else { return Ok(()) };
        let disk = rng.chance(30);
        log.push(format!("import {name:?} from {file} disk={disk} files for {:?}", exp.linked.keys().collect::<Vec<_>>()));
        match a.import_from_fs(&d.join(&file), ImportFormat::GraphML, own_name.then(|| name.clone()), disk, false, |_| {}) {
            Ok(n) => check!(n == name, "imported-name", "{n:?} instead of {name:?}; {}", tail(&log)),
            Err(e) => return viol("import-failed", format!("{e}; {}", tail(&log))),
        }
        let got = read_corpus(&a, &a_dir, &name, &tmp)?;
        same(&exp, &got, &|| format!("import of {name:?}; {}", tail(&log)))?;
        let cd = corpus_dir(&a_dir, &name).unwrap();
        let on_disk: BTreeSet<String> = tree(&cd.join("files")).into_keys().collect();
        check!(on_disk.len() <= exp.linked.len(), "unlinked-files", "{on_disk:?} for {} linked files; {}", exp.linked.len(), tail(&log));
        std::fs::remove_dir_all(&d).map_err(serr)?;
        corpora.insert(name, got);
        ctx.count("documents_imported", 1);
        ctx.count("linked_files", exp.linked.len() as u64);
    }
    // changes which leave files that are not linked any more
    let mut updated = BTreeSet::new();
    for (n, c) in corpora.iter_mut() {
        if c.linked.is_empty() || !rng.chance(30) {
            continue;
        }
        let node = c.linked.keys().nth(rng.below(c.linked.len())).unwrap().clone();
        let ev = if rng.chance(50) { del_node(&node) } else { del_label(&node, "annis", "file") };
        log.push(format!("update {n:?} {ev:?}"));
        apply(&a, n, &[ev.clone()])?;
        c.content.apply(&ev, &|t| AnnotationComponentType::from_str(t).is_ok());
        c.linked.remove(&node);
        c.size = None;
        updated.insert(n.clone());
        ctx.count("files_unlinked", 1);
    }
    if rng.chance(30) {
        log.push("restart".into());
        drop(a);
        a = SCfg::random(rng).open(&a_dir)?;
    }
    // export
    let mut sel: Vec<String> = corpora.keys().filter(|_| format == 2 || rng.chance(80)).cloned().collect();
    if sel.is_empty() {
        sel = corpora.keys().cloned().collect();
    }
    rng.shuffle(&mut sel);
    let before_export = tree(&a_dir);
    let out = sub("out")?;
    let target = match format {
        0 => out.clone(),
        1 => out.join("x.zip"),
        _ => out.join(format!("{}.graphml", percent(&sel[0], "_-"))),
    };
    log.push(format!("export {sel:?}"));
    let f = [ExportFormat::GraphMLDirectory, ExportFormat::GraphMLZip, ExportFormat::GraphML][format];
    if let Err(e) = a.export_to_fs(&sel, &target, f) {
        return viol("export-failed", format!("{e}; {}", tail(&log)));
    }
    if updated.is_empty() {
        // export only reads
        let after = tree(&a_dir);
        let d: Vec<&String> = before_export.keys().chain(after.keys()).filter(|k| before_export.get(*k) != after.get(*k)).collect();
        check!(d.is_empty(), "export-changed-data", "{d:?}; {}", tail(&log));
    }
    // the exported files are the documents and the linked files
    let exported: Files = if format == 1 {
        let mut r = Files::new();
        let mut z = zip::ZipArchive::new(std::fs::File::open(&target).map_err(serr)?).map_err(serr)?;
        for i in 0..z.len() {
            let mut f = z.by_index(i).map_err(serr)?;
            let mut b = vec![];
            std::io::Read::read_to_end(&mut f, &mut b).map_err(serr)?;
            check!(r.insert(f.name().to_string(), b).is_none(), "duplicate-entry", "{:?}; {}", f.name(), tail(&log));
        }
        r
    } else {
        tree(&out)
    };
    let mut documents = vec![];
    let mut claimed: BTreeSet<String> = BTreeSet::new();
    for (k, v) in &exported {
        let p = Path::new(k);
        let stem = unpercent(&p.file_stem().unwrap().to_string_lossy());
        let dirname = p.parent().map(|p| unpercent(&p.to_string_lossy())).unwrap_or_default();
        if p.extension().is_some_and(|x| x == "graphml") && sel.contains(&stem) && (if sel.len() > 1 { dirname == stem } else { dirname.is_empty() }) {
            documents.push(k.clone());
            claimed.insert(k.clone());
            let (m, _) = read_xml(&String::from_utf8_lossy(v)).map_err(|e| Violation { sig: "export-malformed".into(), detail: e })?;
            for l in m.nodes.values() {
                if l.get(&key(TYPE)).is_some_and(|t| t == "file")
                    && let Some(v) = l.get(&key(FILE))
                    && relative(v)
                {
                    claimed.insert(p.parent().unwrap().join(v).components().filter(|c| *c != std::path::Component::CurDir).collect::<PathBuf>().to_string_lossy().to_string());
                }
            }
        }
    }
    check!(documents.len() == sel.len(), "exported-documents", "{documents:?} for {sel:?}, files {:?}; {}", exported.keys().collect::<Vec<_>>(), tail(&log));
    let extra: Vec<&String> = exported.keys().filter(|k| !claimed.contains(*k)).collect();
    check!(extra.is_empty(), "exported-other-files", "{extra:?}; {}", tail(&log));
    check!(std::fs::read(base.join("outside")).ok().as_deref() == Some(b"outside"), "outside-changed", "{}", tail(&log));
    ctx.count("exports", 1);

    // import into another storage
    let b_dir = sub("b/data")?;
    let cfg_b = SCfg::random(rng);
    let mut b = cfg_b.open(&b_dir)?;
    let mut in_b: BTreeMap<String, Corpus> = BTreeMap::new();
    for (i, n) in sel.iter().enumerate() {
        // an old corpus with this name
        if rng.chance(30) {
            let d = sub(&format!("tmp/old{i}"))?;
            let Some(exp) = gen_document(ctx, rng, &d, "old.graphml", false)? else { continue };
            log.push(format!("other storage: import old {n:?}"));
            b.import_from_fs(&d.join("old.graphml"), ImportFormat::GraphML, Some(n.clone()), rng.chance(30), false, |_| {}).map_err(serr)?;
            std::fs::remove_dir_all(&d).map_err(serr)?;
            let got = read_corpus(&b, &b_dir, n, &tmp)?;
            same(&exp, &got, &|| format!("import of old {n:?}; {}", tail(&log)))?;
            in_b.insert(n.clone(), got);
        }
    }
    let copy = sub("copy")?;
    let moved = |d: &str| copy.join(d);
    for (k, v) in &exported {
        if format != 1 {
            let p = moved(k);
            std::fs::create_dir_all(p.parent().unwrap()).map_err(serr)?;
            std::fs::write(p, v).map_err(serr)?;
        }
    }
    for overwrite in [false, true] {
        let disk = rng.chance(30);
        let conflicts: Vec<&String> = sel.iter().filter(|n| in_b.contains_key(*n)).collect();
        let must_fail = !overwrite && !conflicts.is_empty();
        if overwrite && !in_b.is_empty() && rng.chance(30) {
            log.push("other storage: restart".into());
            drop(b);
            b = SCfg::random(rng).open(&b_dir)?;
        }
        log.push(format!("other storage: import overwrite={overwrite} disk={disk}"));
        if format == 1 {
            let r = b.import_all_from_zip(std::fs::File::open(&target).map_err(serr)?, disk, overwrite, |_| {});
            match r {
                Ok(mut names) => {
                    check!(!must_fail, "import-replaced-corpus", "existing corpora {conflicts:?}; {}", tail(&log));
                    names.sort();
                    let mut e = sel.clone();
                    e.sort();
                    check!(names == e, "imported-names", "{names:?} instead of {e:?}; {}", tail(&log));
                    for n in &sel {
                        in_b.insert(n.clone(), corpora[n].clone());
                    }
                }
                Err(e) => check!(must_fail, "import-failed", "{e}; {}", tail(&log)),
            }
        } else {
            for d in &documents {
                let n = unpercent(&Path::new(d).file_stem().unwrap().to_string_lossy());
                let exists = in_b.contains_key(&n);
                match b.import_from_fs(&moved(d), ImportFormat::GraphML, None, disk, overwrite, |_| {}) {
                    Ok(r) => {
                        check!(overwrite || !exists, "import-replaced-corpus", "{n:?}; {}", tail(&log));
                        check!(r == n, "imported-name", "{r:?} instead of {n:?}; {}", tail(&log));
                        in_b.insert(n.clone(), corpora[&n].clone());
                    }
                    Err(e) => check!(exists && !overwrite, "import-failed", "{n:?}: {e}; {}", tail(&log)),
                }
            }
        }
        if must_fail {
            ctx.count("rejected_imports", 1);
        }
        if rng.chance(30) {
            log.push("other storage: restart".into());
            drop(b);
            b = SCfg::random(rng).open(&b_dir)?;
        }
        let mut names: Vec<String> = b.list().map_err(serr)?.into_iter().map(|i| i.name).collect();
        names.sort();
        check!(names == in_b.keys().cloned().collect::<Vec<_>>(), "corpus-list", "{names:?} instead of {:?}; {}", in_b.keys().collect::<Vec<_>>(), tail(&log));
        for (n, c) in &in_b {
            let got = read_corpus(&b, &b_dir, n, &tmp)?;
            same(c, &got, &|| format!("corpus {n:?} after import overwrite={overwrite}; {}", tail(&log)))?;
            let cd = corpus_dir(&b_dir, n).unwrap();
            let on_disk = tree(&cd.join("files")).len();
            check!(on_disk <= c.linked.len(), "unlinked-files", "{on_disk} files for {} links of {n:?}; {}", c.linked.len(), tail(&log));
            ctx.count("corpora_compared", 1);
        }
        let junk: Vec<String> = std::fs::read_dir(&b_dir).map_err(serr)?.flatten().map(|e| e.file_name().to_string_lossy().to_string()).filter(|n| n != "db.lock" && !in_b.contains_key(&unpercent(n))).collect();
        check!(junk.is_empty(), "left-over-files", "{junk:?}; {}", tail(&log));
    }
    // same answers
    let qs: Vec<&str> = (0..4).map(|_| *rng.pick(QUERIES)).collect();
    let mut same_corpora = sel.clone();
    same_corpora.sort();
    let ra = answers(&a, &same_corpora, &qs);
    let rb = answers(&b, &same_corpora, &qs);
    for ((q, x), y) in qs.iter().zip(&ra).zip(&rb) {
        check!(x == y, "query-differs", "{q}: {x:?} in the first, {y:?} in the second storage; {}", tail(&log));
        ctx.count("queries", 1);
    }
    let files: usize = sel.iter().map(|n| corpora[n].linked.len()).sum();
    if files > 0 {
        ctx.distinct(&format!("{log:?} {}", sel.iter().map(|n| corpora[n].content.fingerprint()).fold(0u64, |a, b| a.wrapping_mul(31).wrapping_add(b))));
    }
    ctx.sample(json!({"corpora": sel, "linked_files": files}));
    Ok(())
}
