//! C21: file access stays inside of the directory of the corpus.
use crate::c14::{Files, tree, write_xml};
use crate::c20::make_zip;
use crate::corpus::*;
use crate::gmodel::*;
use crate::relannis::gen_relannis;
use crate::rt::*;
use crate::store::*;
use graphannis::corpusstorage::{ExportFormat, ImportFormat, QueryLanguage, ResultOrder};
use graphannis::model::AnnotationComponentType;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::path::{Path, PathBuf};
use std::str::FromStr;
use std::time::Duration;

pub fn run(ctx: &mut Ctx) {
    // temporary files of the storage are observed too
    let tmp = scratch();
    unsafe { std::env::set_var("TMPDIR", tmp.path()) };
    ctx.cases("names", ctx.n(240, 8000), case);
}

const SEGMENTS: &[&str] = &["..", "..", "..", "..", ".", "", "a", "b.xml", "%2e%2e", "%2E%2E", "..%2F..", "..\\..", "...", "~", "victim", "files", "current", "secret.txt", "db.lock", "\u{2025}", "..\u{0}", ".. ", " ..", "nodes_diskmap_v1", "#replaced", "#temporary-x"];

fn hostile(rng: &mut Rng, area: &Path) -> String {
    let area = area.to_string_lossy();
    match rng.below(14) {
        0 => format!("{area}/canary/{}", rng.pick(&["x", "secret.txt", "dir/y", ".."])),
        1 => format!("{}{area}/canary/secret.txt", "../".repeat(rng.range(4, 12))),
        2 => "../".repeat(rng.range(1, 5)) + rng.pick(&["canary/secret.txt", "secret.txt", "sib/secret.txt", "data/victim/files/secret.txt", "canary/new", "victim", "x", ""]),
        3 => rng.pick(&[".", "..", "/", "//", "./.", "../", "..", "db.lock", "", "/.", "/..", "\\", "victim/.", "./victim", "victim/", "victim/../victim", "Victim", "victim\u{0}", "victim%2F", "v%69ctim", "%76ictim"]).to_string(),
        4 => "n".repeat(rng.range(200, 300)),
        5 => format!("victim/{}", rng.pick(&["files", "files/secret.txt", "current", "..", "../..", "../../sib"])),
        6 => format!("a/{}secret.txt", "../".repeat(rng.range(2, 6))),
        7 => format!("..\\..\\{}", rng.pick(&["secret.txt", "sib"])),
        _ => {
            let mut s: String = (0..rng.range(1, 6)).map(|_| *rng.pick(SEGMENTS)).collect::<Vec<_>>().join("/");
            if rng.chance(15) {
                s.insert(0, '/');
            }
            s
        }
    }
}
fn harmless(rng: &mut Rng) -> String {
    rng.pick(&["a", "b", "c d", "e.x", "victim2"]).to_string()
}
fn name(rng: &mut Rng, area: &Path) -> String {
    if rng.chance(75) { hostile(rng, area) } else { harmless(rng) }
}

/// a graph with hostile names in all places that are related to files
fn hostile_events(rng: &mut Rng, root: &str, area: &Path) -> Vec<U> {
    let mut r = vec![add_node(root, "corpus"), add_node("d1", "corpus"), edge("PartOf", "annis", "", "d1", root), label("d1", "annis", "doc", "d1")];
    for i in 0..rng.range(1, 5) {
        let n = format!("t{i}");
        r.push(add_node(&n, "node"));
        r.push(label(&n, "annis", "tok", "x"));
        if i > 0 {
            r.push(edge("Ordering", "annis", "", &format!("t{}", i - 1), &n));
        }
        for _ in 0..rng.below(3) {
            let (l, c) = (name(rng, area), name(rng, area));
            r.push(edge(rng.pick(&["Pointing", "Dominance", "Coverage", "Ordering"]), &l, &c, &n, &format!("t{}", rng.below(i + 1))));
            if rng.chance(30) {
                r.push(add_node(&l, "node"));
                r.push(label("t0", &c, &l, &c));
            }
        }
        r.push(edge("Pointing", &name(rng, area), &name(rng, area), "t0", "d1"));
    }
    for _ in 0..rng.below(5) {
        let n = name(rng, area);
        r.push(add_node(&n, "file"));
        r.push(edge("PartOf", "annis", "", &n, "d1"));
        let v = match rng.below(4) {
            0 => rng.pick(&["a.wav", "dir/b.txt", "./a.wav"]).to_string(),
            _ => hostile(rng, area),
        };
        r.push(label(&n, "annis", "file", &v));
    }
    r
}

struct St {
    /// corpus -> entry of the data directory
    dirs: BTreeMap<String, String>,
    secrets: Vec<Vec<u8>>,
}

fn contains(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}

/// Contents of an exported file: the members for a ZIP file
fn contents(bytes: &[u8]) -> Vec<(String, Vec<u8>)> {
    let mut r = vec![("".to_string(), bytes.to_vec())];
    if let Ok(mut z) = zip::ZipArchive::new(std::io::Cursor::new(bytes)) {
        for i in 0..z.len() {
            if let Ok(mut f) = z.by_index(i) {
                let mut b = vec![];
                let _ = f.read_to_end(&mut b);
                r.push((f.name().to_string(), b));
            }
        }
    }
    r
}

fn quiet(dir: &Path) -> Files {
    let mut a = full_tree(dir);
    let mut same = 0;
    for _ in 0..300 {
        std::thread::sleep(Duration::from_millis(7));
        let b = full_tree(dir);
        same = if a == b { same + 1 } else { 0 };
        a = b;
        if same >= 2 {
            break;
        }
    }
    a
}
/// files and directories
fn full_tree(dir: &Path) -> Files {
    fn dirs(d: &Path, base: &Path, r: &mut Files) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            if e.file_type().is_ok_and(|t| t.is_dir()) {
                r.insert(format!("{}/", e.path().strip_prefix(base).unwrap().display()), vec![]);
                dirs(&e.path(), base, r);
            }
        }
    }
    let mut r = tree(dir);
    dirs(dir, dir, &mut r);
    r
}
fn diff(a: &Files, b: &Files) -> Vec<String> {
    let mut r: BTreeSet<&String> = a.keys().chain(b.keys()).collect();
    r.retain(|k| a.get(*k) != b.get(*k));
    r.into_iter().cloned().collect()
}

fn case(ctx: &mut Ctx, rng: &mut Rng) -> Case {
    let scr = scratch();
    let area: PathBuf = scr.path().join("area");
    let data = area.join("l1/l2/data");
    let tmpdir = std::env::temp_dir();
    let mut st = St { dirs: BTreeMap::new(), secrets: vec![] };
    let secret = |rng: &mut Rng, st: &mut St| -> Vec<u8> {
        let s = format!("SECRET-{:016x}-{:016x}", rng.next(), rng.next()).into_bytes();
        st.secrets.push(s.clone());
        s
    };
    for d in ["", "canary", "canary/dir", "sib", "l1", "l1/sib", "l1/l2", "l1/l2/sib", "l1/l2/data"] {
        std::fs::create_dir_all(area.join(d)).map_err(serr)?;
        if d != "l1/l2/data" {
            let s = secret(rng, &mut st);
            std::fs::write(area.join(d).join("secret.txt"), s).map_err(serr)?;
        }
    }
    let cfg = SCfg::random(rng);
    let mut cs = cfg.open(&data)?;
    // corpora which must not be touched, one with a linked file
    let vic = area.join("vic");
    std::fs::create_dir_all(&vic).map_err(serr)?;
    let vs = secret(rng, &mut st);
    std::fs::write(vic.join("secret.txt"), &vs).map_err(serr)?;
    let valid = |t: &str| AnnotationComponentType::from_str(t).is_ok();
    let model = |e: &[U]| {
        let mut m = Model::default();
        for x in e {
            m.apply(x, &valid);
        }
        m
    };
    let vm = model(&[add_node("victim", "corpus"), add_node("secret.txt", "file"), label("secret.txt", "annis", "file", "secret.txt"), edge("PartOf", "annis", "", "secret.txt", "victim")]);
    std::fs::write(vic.join("v.graphml"), write_xml(&vm, None)).map_err(serr)?;
    cs.import_from_fs(&vic.join("v.graphml"), ImportFormat::GraphML, Some("victim".into()), false, false, |_| {}).map_err(serr)?;
    std::fs::remove_dir_all(&vic).map_err(serr)?;
    st.dirs.insert("victim".into(), "victim".into());
    check!(data.join("victim/files/secret.txt").is_file(), "victim-not-stored", "linked file of the victim is missing");
    let mut log: Vec<String> = vec![format!("{cfg:?}")];
    let mut names: Vec<String> = vec![];
    let steps = rng.range(5, 10);
    let mut hostile_ops = 0u64;
    let mut dirty: BTreeSet<String> = BTreeSet::new();
    for step in 0..steps {
        let what = |log: &[String]| log.join("; ");
        let before = quiet(scr.path());
        let n = if !names.is_empty() && rng.chance(60) { rng.pick(&names).clone() } else { name(rng, &area) };
        // what may change besides of the corpora
        let mut target: Option<PathBuf> = None;
        // corpora that can change or be created
        let mut may: BTreeSet<String> = BTreeSet::from([n.clone()]);
        let io = scr.path().join(format!("io{step}"));
        let mut exported: Option<BTreeSet<String>> = None;
        let op = if step > 0 && rng.chance(15) { 11 } else { rng.below(13) };
        let before = if (5..9).contains(&op) || op == 3 || op == 4 {
            std::fs::create_dir_all(io.join("in/dir")).map_err(serr)?;
            quiet(scr.path())
        } else {
            before
        };
        let res: Result<Result<String, String>, (String, String)> = match op {
            0 | 1 => {
                log.push(format!("create {n:?}"));
                let disk = rng.chance(30);
                guarded(|| cs.create_empty_corpus(&n, disk).map(|x| x.to_string()).map_err(|e| e.to_string()))
            }
            2 => {
                let e = hostile_events(rng, &n, &area);
                log.push(format!("update {n:?}: {e:?}"));
                let mut u = events_to_update(&e);
                guarded(|| cs.apply_update(&n, &mut u).map(|_| String::new()).map_err(|e| e.to_string()))
            }
            3 | 4 => {
                // export
                let t = io.join("out").join(rng.pick(&["x.graphml", "x", "x.zip"]));
                std::fs::create_dir_all(io.join("out")).map_err(serr)?;
                let mut sel: Vec<String> = names.iter().filter(|_| rng.chance(50)).cloned().collect();
                sel.push(n.clone());
                sel.sort();
                sel.dedup();
                let (f, fname) = match rng.below(3) {
                    0 => {
                        sel.truncate(1);
                        (ExportFormat::GraphML, "GraphML")
                    }
                    1 => (ExportFormat::GraphMLDirectory, "directory"),
                    _ => (ExportFormat::GraphMLZip, "ZIP"),
                };
                log.push(format!("export {sel:?} as {fname}"));
                target = Some(io.join("out"));
                may.clear();
                exported = Some(sel.iter().cloned().collect());
                guarded(|| cs.export_to_fs(&sel, &t, f).map(|_| String::new()).map_err(|e| e.to_string()))
            }
            5..9 => {
                // import
                let root = name(rng, &area);
                let e = hostile_events(rng, &root, &area);
                let xml = write_xml(&model(&e), None);
                std::fs::write(io.join("in/a.wav"), "sound").map_err(serr)?;
                std::fs::write(io.join("in/dir/b.txt"), "text").map_err(serr)?;
                target = Some(io.clone());
                let given = rng.chance(60).then(|| n.clone());
                let (disk, overwrite) = (rng.chance(30), rng.chance(50));
                match op {
                    5 | 6 => {
                        let f = format!("{}.graphml", rng.pick(&["x", "..x", "%2E%2E%2Fx", "%2e%2e", "%2F%2e%2e%2F", "a%00b"]));
                        std::fs::write(io.join("in").join(&f), xml).map_err(serr)?;
                        log.push(format!("import {f} as {given:?} overwrite {overwrite}: {e:?}"));
                        let (fmt, p) = if rng.chance(70) { (ImportFormat::GraphML, io.join("in").join(&f)) } else { (ImportFormat::RelANNIS, io.join("in")) };
                        guarded(|| cs.import_from_fs(&p, fmt, given, disk, overwrite, |_| {}).map_err(|e| e.to_string()))
                    }
                    7 => {
                        let mut entries: Vec<(String, Vec<u8>)> = vec![("a.wav".into(), b"sound".to_vec())];
                        for _ in 0..rng.range(1, 4) {
                            let mut p = hostile(rng, &area);
                            if rng.chance(60) {
                                p += rng.pick(&[".graphml", "/x.graphml", "/corpus.annis", "/", "/a.wav"]);
                            }
                            let b = if p.ends_with("graphml") { xml.clone().into_bytes() } else { b"escaped".to_vec() };
                            entries.push((p, b));
                        }
                        log.push(format!("import ZIP file {:?} overwrite {overwrite}: {e:?}", entries.iter().map(|e| &e.0).collect::<Vec<_>>()));
                        let z = make_zip(&entries);
                        guarded(|| cs.import_all_from_zip(std::io::Cursor::new(z), disk, overwrite, |_| {}).map(|l| l.join("\u{1}")).map_err(|e| e.to_string()))
                    }
                    _ => {
                        let mut r = gen_relannis(rng, true);
                        let old = r.name.clone();
                        for rows in r.tables.values_mut() {
                            for c in rows.iter_mut().flatten().flatten() {
                                if *c == old && rng.chance(50) {
                                    *c = n.replace(['\t', '\n', '\r', '\\'], "_");
                                } else if r.ext.keys().any(|k| c.contains(k.as_str())) && rng.chance(60) {
                                    *c = hostile(rng, &area).replace(['\t', '\n', '\r', '\\'], "_");
                                }
                            }
                        }
                        r.write(rng, &io.join("in")).map_err(serr)?;
                        log.push(format!("import relANNIS {old:?} as {given:?} overwrite {overwrite}"));
                        guarded(|| cs.import_from_fs(&io.join("in"), ImportFormat::RelANNIS, given, disk, overwrite, |_| {}).map_err(|e| e.to_string()))
                    }
                }
            }
            9 => {
                log.push(format!("delete {n:?}"));
                guarded(|| cs.delete(&n).map(|x| x.to_string()).map_err(|e| e.to_string()))
            }
            10 => {
                log.push(format!("unload, preload, reoptimise {n:?}"));
                let disk = rng.chance(30);
                guarded(|| {
                    let _ = cs.unload(&n);
                    let _ = cs.preload(&n);
                    cs.reoptimize_implementation(&n, disk).map(|_| String::new()).map_err(|e| e.to_string())
                })
            }
            11 => {
                log.push("restart".into());
                drop(cs);
                cs = cfg.open(&data)?;
                Ok(Ok(String::new()))
            }
            _ => {
                log.push(format!("requests for {n:?}"));
                may.clear();
                guarded(|| {
                    let s = [n.as_str()];
                    let _ = cs.info(&n);
                    let _ = cs.find(sq(&s, "tok | node", QueryLanguage::AQL, None), 0, None, ResultOrder::Normal);
                    let _ = cs.list_components(&n, None, None);
                    let _ = cs.list_node_annotations(&n, true, false);
                    let _ = cs.corpus_graph(&n);
                    let _ = cs.subgraph(&n, vec!["t0".into(), n.clone()], 1, 1, None);
                    let _ = cs.subcorpus_graph(&n, vec!["d1".into(), n.clone()]);
                    let _ = cs.list();
                    Ok(String::new())
                })
            }
        };
        let res = match res {
            Ok(r) => r,
            Err((loc, msg)) => return viol(format!("panic:{}", short_loc(&loc)), format!("{msg}: {}", what(&log))),
        };
        ctx.count(if res.is_ok() { "successful_operations" } else { "refused_operations" }, 1);
        hostile_ops += 1;
        let list: Vec<String> = cs.list().map_err(serr)?.into_iter().map(|c| c.name).collect();
        let after = quiet(scr.path());
        // new corpora get a directory of their own, deleted ones lose it
        let top = |f: &Files| -> BTreeSet<String> {
            f.keys()
                .filter_map(|k| k.strip_prefix("area/l1/l2/data/"))
                .filter_map(|k| k.split_once('/').map(|x| x.0.to_string()).or_else(|| (!k.is_empty()).then(|| k.to_string())))
                .filter(|k| k != "db.lock")
                .collect()
        };
        let (t0, t1) = (top(&before), top(&after));
        let added: Vec<String> = t1.difference(&t0).cloned().collect();
        let removed: Vec<String> = t0.difference(&t1).cloned().collect();
        let new: Vec<String> = list.iter().filter(|c| !st.dirs.contains_key(*c)).cloned().collect();
        let gone: Vec<String> = st.dirs.keys().filter(|c| !list.contains(c)).cloned().collect();
        check!(new.len() == added.len(), "shared-directory", "new corpora {new:?}, new entries of the data directory {added:?}: {}", what(&log));
        check!(gone.len() == removed.len(), "wrong-directory-removed", "removed corpora {gone:?}, removed entries {removed:?}: {}", what(&log));
        check!(gone.iter().all(|g| may.contains(g)), "wrong-corpus-removed", "{gone:?}: {}", what(&log));
        for g in &gone {
            let d = st.dirs.remove(g).unwrap();
            check!(removed.contains(&d), "wrong-directory-removed", "corpus {g:?} was in {d:?}, removed {removed:?}: {}", what(&log));
            names.retain(|x| x != g);
        }
        if new.len() == 1 {
            st.dirs.insert(new[0].clone(), added[0].clone());
        } else {
            for c in &new {
                let d = crate::c14::corpus_dir(&data, c).map(|p| p.file_name().unwrap().to_string_lossy().to_string());
                match d {
                    Some(d) if added.contains(&d) => {
                        st.dirs.insert(c.clone(), d);
                    }
                    _ => return viol("shared-directory", format!("no directory for {c:?} in {added:?}: {}", what(&log))),
                }
            }
        }
        names.extend(new.iter().cloned());
        may.extend(new.iter().cloned());
        if let (5..9, Ok(r)) = (op, &res) {
            may.extend(r.split('\u{1}').map(|s| s.to_string()));
        }
        // updates are written in the background, or when the corpus is loaded again
        // (e.g. because a name is too long for a file)
        if op == 2 || op == 10 {
            dirty.insert(n.clone());
        }
        let victim_may = may.contains("victim");
        // nothing else changed
        let allowed: Vec<String> = may.iter().chain(&dirty).filter_map(|c| st.dirs.get(c)).map(|d| format!("area/l1/l2/data/{d}/")).chain(removed.iter().map(|d| format!("area/l1/l2/data/{d}/"))).collect();
        let tgt = target.as_ref().map(|t| format!("{}/", t.strip_prefix(scr.path()).unwrap().display()));
        for d in diff(&before, &after) {
            let ok = allowed.iter().any(|a| d.starts_with(a.as_str())) || tgt.as_ref().is_some_and(|t| d.starts_with(t.as_str())) || op == 11 && d == "area/l1/l2/data/db.lock";
            check!(ok, "changed-outside", "{d:?} changed (result {res:?}): {}", what(&log));
        }
        ctx.count("snapshots_compared", 1);
        ctx.count("files_observed", after.len() as u64);
        // nothing is disclosed
        let vsel = exported.as_ref().is_some_and(|s| s.contains("victim"));
        for (k, b) in after.iter().filter(|(k, b)| before.get(*k) != Some(*b)) {
            for (member, b) in contents(b) {
                for s in &st.secrets {
                    check!(*s == vs && (vsel || victim_may) || !contains(&b, s), "secret-disclosed", "{k:?} {member:?} contains {:?}: {}", String::from_utf8_lossy(s), what(&log));
                }
                let p = Path::new(&member);
                check!(
                    exported.is_none() || !p.is_absolute() && !p.components().any(|c| matches!(c, std::path::Component::ParentDir)),
                    "unsafe-archive-entry",
                    "{member:?}: {}",
                    what(&log)
                );
            }
        }
        // the file with the secret of the victim has the same content as long as it was not replaced
        if victim_may && (op == 9 || (5..9).contains(&op)) {
            st.secrets.retain(|s| *s != vs);
        }
        let _ = std::fs::remove_dir_all(&io);
    }
    // all corpora can still be read after a restart
    drop(cs);
    check!(full_tree(&tmpdir).is_empty(), "temporary-files-left", "{:?}: {}", full_tree(&tmpdir).keys().collect::<Vec<_>>(), log.join("; "));
    let cs = cfg.open(&data)?;
    let mut l: Vec<String> = cs.list().map_err(serr)?.into_iter().map(|c| c.name).collect();
    l.sort();
    let exp: Vec<String> = st.dirs.keys().cloned().collect();
    check!(l == exp, "corpora-after-restart", "{l:?} instead of {exp:?}: {}", log.join("; "));
    for n in &l {
        if let Err(e) = cs.preload(n) {
            return viol("unreadable-corpus", format!("{n:?}: {e}: {}", log.join("; ")));
        }
    }
    if hostile_ops > 0 {
        ctx.distinct(&log.join(";").replace(&*scr.path().to_string_lossy(), ""));
    }
    ctx.count("corpora_with_unusual_names", names.iter().filter(|n| n.contains(['/', '.', '%', '\\'])).count() as u64);
    ctx.sample(json!({"corpora": st.dirs, "log": log.iter().map(|l| l.chars().take(150).collect::<String>()).collect::<Vec<_>>()}));
    Ok(())
}
