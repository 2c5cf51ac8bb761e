//! C20: damaged and hostile data for imports and in the data directory.
use crate::c01::tail;
use crate::c13::read_xml;
use crate::c14::*;
use crate::corpus::*;
use crate::gmodel::*;
use crate::relannis::*;
use crate::rt::*;
use crate::store::*;
use graphannis::CorpusStorage;
use graphannis::corpusstorage::{ExportFormat, ImportFormat, QueryLanguage, ResultOrder};
use graphannis::model::AnnotationComponentType;
use serde_json::json;
use std::collections::BTreeMap;
use std::io::Write;
use std::path::Path;
use std::str::FromStr;

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
unsafe extern "C" {
    fn setrlimit(resource: i32, limit: *const RLimit) -> i32;
}

/// Memory that runs away ends the process (RLIMIT_AS = 9)
pub fn limit_memory(gib: u64) {
    let l = RLimit { cur: gib << 30, max: gib << 30 };
    unsafe { setrlimit(9, &l) };
}

pub fn run(ctx: &mut Ctx) {
    limit_memory(6);
    ctx.cases("graphml", ctx.n(700, 30000), |c, r| import_case(c, r, 0));
    ctx.cases("graph", ctx.n(200, 8000), |c, r| import_case(c, r, 1));
    ctx.cases("relannis", ctx.n(700, 30000), |c, r| import_case(c, r, 2));
    ctx.cases("zip", ctx.n(500, 20000), |c, r| import_case(c, r, 3));
    ctx.cases("saved", ctx.n(400, 20000), saved_case);
    ctx.cases("deep", ctx.n(8, 64), deep_case);
}

/// Damage of a byte sequence
pub fn damage(rng: &mut Rng, b: &mut Vec<u8>) -> String {
    if b.is_empty() {
        b.extend_from_slice(b"\xff");
        return "inserted".into();
    }
    let i = rng.below(b.len());
    let l = 1 + { let m = *rng.pick(&[1, 4, 40, 400]); rng.below(m) }.min(b.len() - i);
    let e = (i + l).min(b.len());
    match rng.below(9) {
        0 => {
            b.truncate(i);
            format!("truncated at {i}")
        }
        1 => {
            b[i] ^= 1 << rng.below(8);
            format!("bit of {i} flipped")
        }
        2 => {
            b.drain(i..e);
            format!("{i}..{e} removed")
        }
        3 => {
            let c: Vec<u8> = b[i..e].to_vec();
            let j = rng.below(b.len());
            b.splice(j..j, c);
            format!("{i}..{e} inserted at {j}")
        }
        4 => {
            let r: Vec<u8> = (0..rng.range(1, 9)).map(|_| rng.next() as u8).collect();
            b.splice(i..i, r);
            format!("random bytes at {i}")
        }
        5 => {
            for x in &mut b[i..e] {
                *x = 0;
            }
            format!("{i}..{e} zeroed")
        }
        6 => {
            // numbers
            let n: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_digit()).collect();
            if n.is_empty() {
                b[i] = 0xff;
            } else {
                let j = *rng.pick(&n);
                let v = rng.pick(&["-1", "99999999999999999999", "4294967295", "0", "1e9", "NULL", "", "x", "18446744073709551615", "2147483648"]);
                b.splice(j..j + 1, v.bytes());
            }
            "number replaced".into()
        }
        7 => {
            for x in &mut b[i..e] {
                *x = 0xff;
            }
            format!("{i}..{e} set to 0xff")
        }
        _ => {
            let j = rng.below(b.len());
            b.swap(i, j);
            format!("{i} and {j} swapped")
        }
    }
}

/// Documents with a damaged structure
fn damage_xml(rng: &mut Rng, xml: &str) -> (String, String) {
    let mut lines: Vec<String> = xml.lines().map(|s| s.to_string()).collect();
    let i = rng.below(lines.len());
    let what;
    match rng.below(16) {
        0 => {
            what = format!("line removed: {}", lines.remove(i));
        }
        1 => {
            let l = lines[i].clone();
            what = format!("line repeated: {l}");
            let j = rng.below(lines.len());
            lines.insert(j, l);
        }
        2 => {
            let j = rng.below(lines.len());
            lines.swap(i, j);
            what = format!("lines {i} and {j} swapped");
        }
        3 => {
            // an attribute
            let attrs = ["id=", "key=", "source=", "target=", "label=", "attr.name=", "for=", "attr.type="];
            let a = *rng.pick(&attrs);
            let k: Vec<usize> = (0..lines.len()).filter(|i| lines[*i].contains(a)).collect();
            if k.is_empty() {
                what = "nothing".into();
            } else {
                let k = *rng.pick(&k);
                lines[k] = match rng.below(3) {
                    0 => lines[k].replacen(a, "other=", 1),
                    1 => lines[k].replacen(a, &format!("{a}\"double\" {a}"), 1),
                    _ => {
                        let p = lines[k].find(a).unwrap() + a.len() + 1;
                        let e = lines[k][p..].find('"').map(|e| p + e).unwrap_or(lines[k].len());
                        let v = rng.pick(&["", "Coverage/", "Unknown/a/b", "LeftToken/annis/", "RightToken/annis/", "PartOf/annis/", "Coverage/a/b/c/d", "//", "k0", "k1", "annis::node_name", "annis::node_type", "%", "%ff%fe", "annis::tok", "&#0;", "&unknown;", "c/doc0", "c"]);
                        format!("{}{}{}", &lines[k][..p], v, &lines[k][e..])
                    }
                };
                what = format!("attribute: {}", lines[k]);
            }
        }
        4 => {
            let n = *rng.pick(&[100usize, 10000, 100000]);
            lines.insert(i, "<node id=\"n\">".repeat(n));
            if rng.chance(50) {
                lines.insert(i + 1, "</node>".repeat(n));
            }
            what = format!("{n} nested elements");
        }
        5 => {
            lines.insert(1.min(lines.len()), "<!DOCTYPE x [<!ENTITY a \"aaaaaaaaaa\"><!ENTITY b \"&a;&a;&a;&a;&a;&a;&a;&a;&a;&a;\">]>".into());
            lines[i] = lines[i].replace("</", "&b;&b;</");
            what = "entities".into();
        }
        6 => {
            lines.insert(i, "<data key=\"k1\">text</data>".into());
            what = "data at wrong place".into();
        }
        7 => {
            lines.insert(i, rng.pick(&["<node/>", "<edge/>", "<key/>", "<edge source=\"a\"/>", "<edge source=\"a\" target=\"b\"/>", "<edge source=\"\" target=\"\" label=\"\"/>", "<node id=\"\"/>", "<graph>", "</graph>", "<x:y/>", "]]>", "<![CDATA[", "<!--", "<?", "&", "&lt", "<node id=a/>", "<node id=\"a\" id=\"b\"/>"]).to_string());
            what = format!("inserted {}", lines[i]);
        }
        8 => {
            lines.truncate(i);
            what = "end missing".into();
        }
        9 => {
            lines[0] = rng.pick(&["<?xml version=\"1.0\" encoding=\"UTF-16\"?>", "<?xml version=\"9.9\"?>", "<?xml?>", "\u{feff}", "x"]).to_string();
            what = format!("start {}", lines[0]);
        }
        10 => {
            lines[i] = lines[i].replace("k1\"", "k0\"");
            what = "key of configuration".into();
        }
        11 => {
            let c = rng.pick(&["not toml", "context = 1", "[context]\ndefault = -1\nsizes=[]", "[view]\npage_size = 99999999999999999999999", "[[visualizers]]\n", "a = [", "[corpus_size]\nquantity = 1\nunit = {name = \"unknown\"}"]);
            let k = lines.iter().position(|l| l.starts_with("<graph ")).unwrap_or(0);
            lines.insert(0, "<!-- -->".into());
            lines.insert(k + 2, format!("<data key=\"k0\"><![CDATA[{c}]]></data>"));
            what = format!("configuration {c}");
        }
        12 => {
            let l = "x".repeat(*rng.pick(&[300, 5000, 3_000_000]));
            lines.insert(i, format!("<node id=\"{l}\"></node>"));
            what = "long name".into();
        }
        13 => {
            // a link to a file
            let k = lines.iter().position(|l| l.starts_with("<graph ")).unwrap_or(0);
            let n = *rng.pick(&["f", "f/", "/f", "../f", "a\u{1}b", "..", "c"]);
            let long = "l".repeat(300);
            let n = if rng.chance(20) { &long } else { n };
            let v = *rng.pick(&["file.bin", "../outside", "dir", "/dev/zero", "file.bin/x"]);
            lines.insert(k + 1, format!("<node id=\"{n}\"><data key=\"kt\">file</data><data key=\"kf\">{v}</data></node>"));
            if rng.chance(30) {
                lines.insert(k + 2, format!("<node id=\"{n}/below\"><data key=\"kt\">file</data><data key=\"kf\">file.bin</data></node>"));
            }
            lines.insert(k, "<key id=\"kt\" for=\"node\" attr.name=\"annis::node_type\" attr.type=\"string\"/><key id=\"kf\" for=\"node\" attr.name=\"annis::file\" attr.type=\"string\"/>".into());
            what = format!("linked file {v} for {n}");
        }
        _ => {
            let mut b = lines.join("\n").into_bytes();
            let mut w = vec![];
            for _ in 0..rng.range(1, 4) {
                w.push(damage(rng, &mut b));
            }
            return (String::from_utf8_lossy(&b).to_string(), w.join(", "));
        }
    }
    (lines.join("\n"), what)
}

/// Graphs which are not annotation graphs as they are expected
pub fn hostile_graph(rng: &mut Rng) -> Model {
    let valid = |t: &str| AnnotationComponentType::from_str(t).is_ok();
    let mut m = Model::default();
    let n = rng.range(1, 7);
    let names: Vec<String> = (0..n).map(|i| format!("n{i}")).collect();
    let mut ev = vec![];
    for x in &names {
        ev.push(add_node(x, rng.pick(&["node", "node", "corpus", "datasource", "file", "", "other"])));
        if rng.chance(60) {
            ev.push(label(x, "annis", "tok", "t"));
        }
        if rng.chance(30) {
            ev.push(label(x, "annis", rng.pick(&["doc", "layer", "tok-whitespace-after", "file"]), "v"));
        }
    }
    for _ in 0..rng.range(1, 12) {
        let t = *rng.pick(&["Coverage", "Dominance", "Pointing", "Ordering", "PartOf", "LeftToken", "RightToken", "Coverage", "Ordering", "PartOf"]);
        let (l, c) = *rng.pick(&[("annis", ""), ("", ""), ("default_ns", "seg"), ("annis", "autogenerated-coverage"), ("annis", "datasource-gap")]);
        ev.push(edge(t, l, c, rng.pick(&names), rng.pick(&names)));
    }
    for e in &ev {
        m.apply(e, &valid);
    }
    m
}

/// Tables with wrong cells and rows
fn damage_tables(rng: &mut Rng, r: &mut RelAnnis, log: &mut Vec<String>) {
    for _ in 0..rng.range(1, 4) {
        let ts: Vec<&'static str> = r.tables.iter().filter(|(_, r)| !r.is_empty()).map(|t| *t.0).collect();
        if ts.is_empty() {
            break;
        }
        let t = *rng.pick(&ts);
        let rows = r.tables.get_mut(t).unwrap();
        if rows.is_empty() {
            continue;
        }
        let i = rng.below(rows.len());
        match rng.below(10) {
            0 => {
                rows.remove(i);
                log.push(format!("{t} row {i} removed"));
            }
            1 => {
                let x = rows[i].clone();
                rows.push(x);
                log.push(format!("{t} row {i} repeated"));
            }
            2 => {
                rows[i].pop();
                log.push(format!("{t} row {i} shortened"));
            }
            3 => {
                rows[i].push(Some("x".into()));
                log.push(format!("{t} row {i} extended"));
            }
            4 => {
                // all rows: the number of columns stays the same
                for x in rows.iter_mut() {
                    x.pop();
                }
                log.push(format!("{t} column removed"));
            }
            5 => {
                let o: Vec<Option<String>> = rng.pick(rows).clone();
                let j = rng.below(rows[i].len());
                if let Some(v) = o.get(j) {
                    rows[i][j] = v.clone();
                }
                log.push(format!("{t} row {i} column {j} = other row"));
            }
            6 => {
                r.tables.remove(t);
                log.push(format!("{t} missing"));
            }
            _ => {
                let j = rng.below(rows[i].len());
                let v = match rng.below(5) {
                    0 => None,
                    1 => Some(rng.below(12).to_string()),
                    2 => Some("4294967295".to_string()),
                    _ => Some(rng.pick(&["", "-1", "x", "99999999999999999999", "4294967294", "1000000000", "2147483647", "0", "../..", "annis", "node_name", "tok", "c", "o"]).to_string()),
                };
                log.push(format!("{t} row {i} column {j} = {v:?}"));
                rows[i][j] = v;
            }
        }
    }
    if rng.chance(15) {
        r.properties = Some(rng.pick(&["context-steps=0", "max-context=18446744073709551615\ncontext-steps=1", "=\n==\n", "max-context=-1", "hidden_annos=,,,", "virtual_tokenization_mapping====", "\u{0}"]).to_string());
    }
}

pub fn make_zip(entries: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut z = zip::ZipWriter::new(std::io::Cursor::new(vec![]));
    for (n, b) in entries {
        let o = zip::write::SimpleFileOptions::default();
        if n.ends_with('/') {
            let _ = z.add_directory(n.as_str(), o);
        } else if z.start_file(n.as_str(), o).is_ok() {
            let _ = z.write_all(b);
        }
    }
    z.finish().map(|c| c.into_inner()).unwrap_or_default()
}

/// Everything that can be observed of the corpora: content, configuration, files
pub fn observe_storage(cs: &CorpusStorage, data: &Path, tmp: &Path) -> Result<BTreeMap<String, (Model, String, Files)>, Violation> {
    let mut r = BTreeMap::new();
    for i in cs.list().map_err(|e| Violation { sig: "list-failed".into(), detail: e.to_string() })? {
        let x = tmp.join("obs");
        std::fs::create_dir_all(&x).map_err(serr)?;
        let f = x.join("out.xml");
        cs.export_to_fs(&[&i.name], &f, ExportFormat::GraphML).map_err(|e| Violation { sig: "export-failed".into(), detail: format!("{:?}: {e}", i.name) })?;
        let (m, _) = read_xml(&std::fs::read_to_string(&f).map_err(serr)?).map_err(|e| Violation { sig: "export-malformed".into(), detail: e })?;
        std::fs::remove_dir_all(&x).map_err(serr)?;
        let Some(dir) = corpus_dir(data, &i.name) else { return viol("no-directory", format!("no directory for {:?}", i.name)) };
        r.insert(i.name, (m.normalized(), serde_json::to_string(&i.config).map_err(serr)?, tree(&dir.join("files"))));
    }
    Ok(r)
}

fn entries(data: &Path) -> Vec<String> {
    let mut r: Vec<String> = std::fs::read_dir(data).into_iter().flatten().flatten().map(|e| e.file_name().to_string_lossy().to_string()).filter(|n| n != "db.lock").collect();
    r.sort();
    r
}

fn same_storage(a: &BTreeMap<String, (Model, String, Files)>, b: &BTreeMap<String, (Model, String, Files)>, except: &[String], what: &dyn Fn() -> String) -> Case {
    for (n, (m, c, f)) in a.iter().filter(|x| !except.contains(x.0)) {
        match b.get(n) {
            None => return viol("corpus-lost", format!("{n:?}; {}", what())),
            Some((m2, c2, f2)) => {
                if let Some(d) = m.diff(m2) {
                    return viol("corpus-changed", format!("{n:?}: {d}; {}", what()));
                }
                check!(c == c2, "configuration-changed", "{n:?}: {c2} instead of {c}; {}", what());
                check!(f == f2, "linked-files-changed", "{n:?}: {:?} instead of {:?}; {}", f2.keys(), f.keys(), what());
            }
        }
    }
    for n in b.keys() {
        check!(a.contains_key(n) || except.contains(n), "corpus-added", "{n:?}; {}", what());
    }
    Ok(())
}

fn small_doc(rng: &mut Rng, dir: &Path) -> Result<String, Violation> {
    let valid = |t: &str| AnnotationComponentType::from_str(t).is_ok();
    let gc = Cfg { docs: (1, 1), toks: (1, 4), ..Default::default() };
    let (mut ev, _) = gen_corpus(rng, "c", &gc);
    ev.push(add_node("c/f", "file"));
    ev.push(label("c/f", "annis", "file", "file.bin"));
    let mut m = Model::default();
    for e in &ev {
        m.apply(e, &valid);
    }
    std::fs::write(dir.join("file.bin"), format!("content {}", rng.next())).map_err(serr)?;
    let _ = std::fs::create_dir_all(dir.join("dir"));
    Ok(write_xml(&m, rng.chance(60).then_some("[context]\ndefault = 7\nsizes=[1]\n[view]\npage_size=3\n")))
}

fn import_case(ctx: &mut Ctx, rng: &mut Rng, kind: usize) -> Case {
    let outer = scratch();
    let base = std::fs::canonicalize(outer.path()).map_err(serr)?;
    let data = base.join("data");
    let src = base.join("src");
    let tmp = base.join("tmp");
    for d in [&data, &src, &tmp] {
        std::fs::create_dir_all(d).map_err(serr)?;
    }
    std::fs::write(base.join("outside"), "outside").map_err(serr)?;
    let mut cs = SCfg::random(rng).open(&data)?;
    let mut log = vec![];
    for n in ["first", "second", "c"] {
        if rng.chance(70) {
            let x = small_doc(rng, &src)?;
            std::fs::write(src.join("x.graphml"), x).map_err(serr)?;
            cs.import_from_fs(&src.join("x.graphml"), ImportFormat::GraphML, Some(n.into()), rng.chance(30), false, |_| {}).map_err(serr)?;
        }
    }
    let before = observe_storage(&cs, &data, &tmp)?;
    let before_entries = entries(&data);
    // damaged data
    let overwrite = rng.chance(60);
    let disk = rng.chance(30);
    let name = rng.chance(50).then(|| rng.pick(&["first", "new", "c"]).to_string());
    log.push(format!("existing {:?} overwrite={overwrite} disk={disk} name={name:?}", before.keys().collect::<Vec<_>>()));
    let mut damaged_document = |rng: &mut Rng, log: &mut Vec<String>| -> Result<Vec<u8>, Violation> {
        let mut x = small_doc(rng, &src)?;
        for _ in 0..rng.range(1, 2) {
            let (y, w) = damage_xml(rng, &x);
            log.push(w.chars().take(300).collect());
            x = y;
            if x.is_empty() {
                break;
            }
        }
        Ok(x.into_bytes())
    };
    let result: Result<Vec<String>, String> = match kind {
        0 | 1 => {
            let doc = if kind == 0 {
                damaged_document(rng, &mut log)?
            } else {
                let m = hostile_graph(rng);
                log.push(format!("{m:?}"));
                write_xml(&m, None).into_bytes()
            };
            let f = src.join(rng.pick(&["c.graphml", "new.graphml", "x.y"]));
            std::fs::write(&f, &doc).map_err(serr)?;
            if std::env::var("VH_FULL").is_ok() {
                eprintln!("{}", String::from_utf8_lossy(&doc));
            }
            cs.import_from_fs(&f, ImportFormat::GraphML, name.clone(), disk, overwrite, |_| {}).map(|n| vec![n]).map_err(|e| e.to_string())
        }
        2 => {
            let hostile = rng.chance(50);
            let mut r = gen_relannis(rng, hostile);
            let mut files;
            if rng.chance(70) {
                damage_tables(rng, &mut r, &mut log);
                files = r.texts(rng);
            } else {
                files = r.texts(rng);
                for _ in 0..rng.range(1, 3) {
                    let k: Vec<String> = files.keys().cloned().collect();
                    let k = rng.pick(&k).clone();
                    let w = damage(rng, files.get_mut(&k).unwrap());
                    log.push(format!("{k}: {w}"));
                }
            }
            let d = src.join("rel");
            for (p, b) in &files {
                let p = d.join(p);
                std::fs::create_dir_all(p.parent().unwrap()).map_err(serr)?;
                if rng.chance(1) {
                    log.push(format!("{p:?} is a directory"));
                    std::fs::create_dir_all(&p).map_err(serr)?;
                } else {
                    std::fs::write(&p, b).map_err(serr)?;
                }
                if std::env::var("VH_FULL").is_ok() {
                    eprintln!("--- {p:?}\n{}", String::from_utf8_lossy(b));
                }
            }
            cs.import_from_fs(&d, ImportFormat::RelANNIS, name.clone(), disk, overwrite, |_| {}).map(|n| vec![n]).map_err(|e| e.to_string())
        }
        _ => {
            let mut es: Vec<(String, Vec<u8>)> = vec![];
            let n = rng.range(1, 3);
            for i in 0..n {
                let dir = rng.pick(&["", "", "x/", "x.graphml/", "a/../", "../", "/", "c/"]).to_string();
                if rng.chance(30) {
                    let mut r = gen_relannis(rng, false);
                    if rng.chance(50) {
                        damage_tables(rng, &mut r, &mut log);
                    }
                    for (p, b) in r.texts(rng) {
                        es.push((format!("{dir}r{i}/{p}"), b));
                    }
                } else {
                    let doc = if rng.chance(50) { damaged_document(rng, &mut log)? } else { small_doc(rng, &src)?.into_bytes() };
                    let f = rng.pick(&["first", "c", "new", "second", "a%2Fb", "%", "%ff", "..", "db.lock"]).to_string();
                    es.push((format!("{dir}{f}.{}", rng.pick(&["graphml", "GraphML", "xml", "graphml"])), doc));
                    if rng.chance(50) {
                        es.push((format!("{dir}file.bin"), b"zip file".to_vec()));
                    }
                }
            }
            for _ in 0..rng.below(3) {
                es.push((rng.pick(&["dir/", "x.graphml/", "x", "x/y", "corpus.tab", "corpus.annis", "empty.graphml", "../outside", "/abs", "r0", "a\\b", "a//b", "."]).to_string(), vec![]));
            }
            if rng.chance(20) {
                rng.shuffle(&mut es);
            }
            log.push(format!("entries {:?}", es.iter().map(|e| &e.0).collect::<Vec<_>>()));
            let mut z = make_zip(&es);
            if rng.chance(50) {
                for _ in 0..rng.range(1, 3) {
                    let w = if rng.chance(50) {
                        // the central directory
                        let at = z.len().saturating_sub(rng.range(1, 400));
                        let mut end = z.split_off(at);
                        let w = damage(rng, &mut end);
                        z.extend(end);
                        format!("from {at}: {w}")
                    } else {
                        damage(rng, &mut z)
                    };
                    log.push(format!("archive {w}"));
                }
            }
            cs.import_all_from_zip(std::io::Cursor::new(z), disk, overwrite, |_| {}).map_err(|e| e.to_string())
        }
    };
    let what = || format!("{result:?}; {}", tail(&log));
    let after = observe_storage(&cs, &data, &tmp).map_err(|v| Violation { sig: v.sig, detail: format!("{}; {}", v.detail, what()) })?;
    match &result {
        Err(_) => {
            ctx.count("rejected", 1);
            same_storage(&before, &after, &[], &what)?;
            let e = entries(&data);
            check!(e == before_entries, "left-over-files", "{e:?} instead of {before_entries:?}; {}", what());
        }
        Ok(names) => {
            ctx.count("accepted", 1);
            for n in names {
                check!(after.contains_key(n), "imported-corpus-missing", "{n:?}; {}", what());
                check!(overwrite || !before.contains_key(n), "replaced-corpus", "{n:?}; {}", what());
                // the corpus can be used
                let _ = find(&cs, &[n.clone()], "node", QueryLanguage::AQL, ResultOrder::Normal);
                let _ = find(&cs, &[n.clone()], "tok", QueryLanguage::AQL, ResultOrder::Inverted);
                let _ = cs.corpus_graph(n);
                let _ = cs.list_node_annotations(n, true, true);
            }
            same_storage(&before, &after, names, &what)?;
        }
    }
    check!(std::fs::read(base.join("outside")).ok().as_deref() == Some(b"outside"), "outside-changed", "{}", what());
    drop(cs);
    cs = SCfg::random(rng).open(&data)?;
    let again = observe_storage(&cs, &data, &tmp).map_err(|v| Violation { sig: v.sig, detail: format!("{} after restart; {}", v.detail, what()) })?;
    same_storage(&after, &again, &[], &|| format!("after restart; {}", what()))?;
    // a valid corpus can still be imported
    let x = small_doc(rng, &src)?;
    std::fs::write(src.join("x.graphml"), x).map_err(serr)?;
    if let Err(e) = cs.import_from_fs(&src.join("x.graphml"), ImportFormat::GraphML, Some("valid".into()), false, true, |_| {}) {
        return viol("later-import-failed", format!("{e}; {}", what()));
    }
    ctx.distinct(&format!("{log:?}"));
    ctx.sample(json!({"damage": log.iter().map(|l| l.chars().take(100).collect::<String>()).collect::<Vec<_>>(), "accepted": result.is_ok()}));
    Ok(())
}

const TABLE_MAGIC: [u8; 8] = [87, 251, 128, 139, 36, 117, 71, 219];

/// Damaged files in the data directory
fn saved_case(ctx: &mut Ctx, rng: &mut Rng) -> Case {
    let mut table = String::new();
    match guarded(|| saved_inner(ctx, rng, &mut table)) {
        Ok(r) => r,
        // Estimations with absurd numbers from the (readable) statistics: this is not checked in release builds
        Err((loc, msg)) if !is_harness_location(&loc) && table.ends_with("stats.toml") && msg.contains("with overflow") => {
            ctx.count("overflow_of_damaged_statistics", 1);
            Ok(())
        }
        // The crate which reads the table files of disk-based corpora uses assertions
        Err((loc, msg)) if !table.is_empty() && !is_harness_location(&loc) && (loc.contains("/sstable-") || loc.contains("/library/")) => {
            viol("damaged-table-file-panic", format!("{table}: panic at {loc}: {msg}"))
        }
        Err((loc, msg)) if !is_harness_location(&loc) => viol(&format!("panic@{}", short_loc(&loc)), format!("panic at {loc}: {msg}")),
        Err((loc, msg)) => Err(Violation { sig: "harness".into(), detail: format!("{loc}: {msg}") }),
    }
}

fn saved_inner(ctx: &mut Ctx, rng: &mut Rng, table: &mut String) -> Case {
    let outer = scratch();
    let base = std::fs::canonicalize(outer.path()).map_err(serr)?;
    let data = base.join("data");
    let src = base.join("src");
    let tmp = base.join("tmp");
    for d in [&data, &src, &tmp] {
        std::fs::create_dir_all(d).map_err(serr)?;
    }
    let cs = SCfg::random(rng).open(&data)?;
    let mut log = vec![];
    for n in ["first", "second"] {
        let x = small_doc(rng, &src)?;
        std::fs::write(src.join("x.graphml"), x).map_err(serr)?;
        let disk = rng.chance(40);
        log.push(format!("{n} disk={disk}"));
        cs.import_from_fs(&src.join("x.graphml"), ImportFormat::GraphML, Some(n.into()), disk, false, |_| {}).map_err(serr)?;
    }
    let before = observe_storage(&cs, &data, &tmp)?;
    drop(cs);
    let dir = data.join("first");
    let mut files: Vec<String> = tree(&dir).into_keys().collect();
    if rng.chance(15) {
        // updates which have not been applied yet
        let f = dir.join("current/update_log.bin");
        std::fs::write(&f, [1u8; 30]).map_err(serr)?;
        files = vec!["current/update_log.bin".into()];
    }
    for _ in 0..rng.range(1, 2) {
        let f = rng.pick(&files).clone();
        let p = dir.join(&f);
        if std::fs::read(&p).unwrap_or_default().ends_with(&TABLE_MAGIC) || f.ends_with("stats.toml") {
            *table = f.clone();
        }
        match rng.below(8) {
            0 => {
                let _ = std::fs::remove_file(&p);
                log.push(format!("{f} removed"));
            }
            1 => {
                let _ = std::fs::write(&p, b"");
                log.push(format!("{f} empty"));
            }
            2 => {
                let _ = std::fs::remove_file(&p);
                let _ = std::fs::create_dir(&p);
                log.push(format!("{f} is a directory"));
            }
            3 => {
                if let Some(d) = p.parent() {
                    let _ = std::fs::remove_dir_all(d);
                    log.push(format!("directory of {f} removed"));
                }
            }
            _ => {
                let mut b = std::fs::read(&p).unwrap_or_default();
                let w = damage(rng, &mut b);
                let _ = std::fs::write(&p, &b);
                log.push(format!("{f}: {w}"));
            }
        }
    }
    let what = || tail(&log);
    let cs = match SCfg::random(rng).open(&data) {
        Ok(c) => c,
        Err(e) => return viol("storage-not-opened", format!("{}; {}", e.detail, what())),
    };
    let mut outcomes = vec![];
    let listed = cs.list();
    outcomes.push(listed.is_ok());
    if let Ok(l) = &listed {
        check!(l.iter().any(|i| i.name == "second"), "corpus-lost", "second; {}", what());
    }
    let first = vec!["first".to_string()];
    outcomes.push(cs.info("first").is_ok());
    outcomes.push(find(&cs, &first, "node", QueryLanguage::AQL, ResultOrder::Normal).is_ok());
    outcomes.push(find(&cs, &first, "node _i_ tok", QueryLanguage::AQL, ResultOrder::Normal).is_ok());
    outcomes.push(cs.preload("first").is_ok());
    outcomes.push(cs.list_node_annotations("first", true, false).is_ok());
    outcomes.push(cs.list_components("first", None, None).is_ok());
    outcomes.push(cs.corpus_graph("first").is_ok());
    outcomes.push(cs.export_to_fs(&first, &tmp.join("x.graphml"), ExportFormat::GraphML).is_ok());
    let mut u = events_to_update(&[add_node("new", "node"), edge("Pointing", "l", "n", "new", "c")]);
    outcomes.push(cs.apply_update("first", &mut u).is_ok());
    ctx.count(if outcomes.iter().all(|x| *x) { "still_usable" } else { "errors_reported" }, 1);
    // the other corpus is not affected
    let x = tmp.join("obs");
    std::fs::create_dir_all(&x).map_err(serr)?;
    let f = x.join("out.xml");
    if let Err(e) = cs.export_to_fs(&["second"], &f, ExportFormat::GraphML) {
        return viol("other-corpus-unusable", format!("{e}; {}", what()));
    }
    let (m, _) = read_xml(&std::fs::read_to_string(&f).map_err(serr)?).map_err(|e| Violation { sig: "export-malformed".into(), detail: e })?;
    if let Some(d) = before["second"].0.diff(&m) {
        return viol("corpus-changed", format!("second: {d}; {}", what()));
    }
    // the damaged corpus can be replaced
    if rng.chance(50) {
        if let Err(e) = cs.delete("first") {
            return viol("delete-failed", format!("{e}; {}", what()));
        }
    }
    let doc = small_doc(rng, &src)?;
    std::fs::write(src.join("x.graphml"), &doc).map_err(serr)?;
    if let Err(e) = cs.import_from_fs(&src.join("x.graphml"), ImportFormat::GraphML, Some("first".into()), false, true, |_| {}) {
        return viol("later-import-failed", format!("{e}; {}", what()));
    }
    let after = observe_storage(&cs, &data, &tmp).map_err(|v| Violation { sig: v.sig, detail: format!("{}; {}", v.detail, what()) })?;
    check!(after.len() == 2, "corpus-list", "{:?}; {}", after.keys(), what());
    ctx.distinct(&format!("{log:?}"));
    Ok(())
}

/// Long chains in all kinds of components
fn deep_case(ctx: &mut Ctx, rng: &mut Rng) -> Case {
    let outer = scratch();
    let base = std::fs::canonicalize(outer.path()).map_err(serr)?;
    let data = base.join("data");
    std::fs::create_dir_all(&data).map_err(serr)?;
    let cs = SCfg::random(rng).open(&data)?;
    let t = *rng.pick(&["Coverage", "Dominance", "Pointing", "Ordering", "PartOf"]);
    let n = if t == "Coverage" { 1000 } else { 4000 };
    let mut m = Model::default();
    let valid = |t: &str| AnnotationComponentType::from_str(t).is_ok();
    for i in 0..n {
        m.apply(&add_node(&format!("n{i}"), if t == "PartOf" { "corpus" } else { "node" }), &valid);
        if t == "Ordering" || i + 1 == n {
            m.apply(&label(&format!("n{i}"), "annis", "tok", "x"), &valid);
        }
        if i > 0 {
            m.apply(&edge(t, "annis", "", &format!("n{}", i - 1), &format!("n{i}")), &valid);
        }
    }
    let f = base.join("deep.graphml");
    std::fs::write(&f, write_xml(&m, None)).map_err(serr)?;
    let disk = rng.chance(30);
    match cs.import_from_fs(&f, ImportFormat::GraphML, None, disk, false, |_| {}) {
        Ok(_) => {
            let got = find(&cs, &["deep".to_string()], "node", QueryLanguage::AQL, ResultOrder::Normal).map_err(serr)?;
            check!(got.len() == if t == "PartOf" { 0 } else { n }, "deep-content", "{} nodes in a {t} chain of {n}", got.len());
            ctx.count(&format!("deep_chains:{t}"), 1);
        }
        Err(e) => return viol("deep-import-failed", format!("{t} chain of {n}: {e}")),
    }
    Ok(())
}
