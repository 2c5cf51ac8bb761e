//! C22: relANNIS import.
use crate::c05::few_paths;
use crate::c13::read_xml;
use crate::c14::*;
use crate::gmodel::*;
use crate::relannis::*;
use crate::rt::*;
use crate::store::*;
use graphannis::corpusstorage::{ExportFormat, ImportFormat, QueryLanguage, ResultOrder};
use serde_json::json;
use std::io::Write;

pub fn run(ctx: &mut Ctx) {
    ctx.cases("plain", ctx.n(300, 10000), |c, r| case(c, r, false));
    ctx.cases("special", ctx.n(600, 20000), |c, r| case(c, r, true));
}

/// labels for spacing that are empty say the same as no label
fn drop_empty_space(m: &Model) -> Model {
    let mut m = m.clone();
    for l in m.nodes.values_mut() {
        l.retain(|k, v| !(k.0 == "annis" && k.1.starts_with("tok-whitespace") && v.is_empty()));
    }
    m
}

fn case(ctx: &mut Ctx, rng: &mut Rng, hostile: bool) -> Case {
    let mut r = gen_relannis(rng, hostile);
    if !few_paths(&r.model) {
        ctx.count("skipped_too_many_paths", 1);
        return Ok(());
    }
    let outer = scratch();
    let base = std::fs::canonicalize(outer.path()).map_err(serr)?;
    let data = base.join("data");
    std::fs::create_dir_all(&data).map_err(serr)?;
    let cs = SCfg::random(rng).open(&data)?;
    let mut first: Option<Vec<String>> = None;
    let exp = drop_empty_space(&r.model);
    for variant in 0..2 {
        r.shuffle(rng);
        let src = base.join(format!("src{variant}/{}", rng.pick(&["x", "a b", "\u{e4}.tab"])));
        std::fs::create_dir_all(&src).map_err(serr)?;
        let disk = rng.chance(40);
        let as_zip = rng.chance(30);
        let what = || {
            let mut s = format!("v33={} disk={disk} zip={as_zip} name={:?}", r.v33, r.name);
            let full = std::env::var("VH_FULL").is_ok();
            for (t, rows) in &r.tables {
                let x: String = rows.iter().map(|r| r.iter().map(|c| c.clone().unwrap_or("NULL".into())).collect::<Vec<_>>().join("|")).collect::<Vec<_>>().join(" / ");
                s.push_str(&format!("\n  {t}: {}", if full { x } else { x.chars().take(600).collect() }));
            }
            s
        };
        let name = if as_zip {
            let mut z = zip::ZipWriter::new(std::io::Cursor::new(vec![]));
            let prefix = *rng.pick(&["", "dir/", "a/b c/"]);
            let mut files: Vec<_> = r.texts(rng).into_iter().collect();
            rng.shuffle(&mut files);
            for (p, b) in files {
                z.start_file(format!("{prefix}{p}"), zip::write::SimpleFileOptions::default()).map_err(serr)?;
                z.write_all(&b).map_err(serr)?;
            }
            let c = z.finish().map_err(serr)?;
            match cs.import_all_from_zip(c, disk, true, |_| {}) {
                Ok(n) => {
                    check!(n.len() == 1, "imported-names", "{n:?}; {}", what());
                    n[0].clone()
                }
                Err(e) => return viol("import-failed", format!("{e}; {}", what())),
            }
        } else {
            r.write(rng, &src).map_err(serr)?;
            let other = rng.chance(20).then(|| "other".to_string());
            match cs.import_from_fs(&src, ImportFormat::RelANNIS, other.clone(), disk, true, |_| {}) {
                Ok(n) => {
                    if let Some(o) = other {
                        check!(n == o, "imported-names", "{n:?}; {}", what());
                        n
                    } else {
                        check!(n == r.name, "imported-names", "{n:?}; {}", what());
                        n
                    }
                }
                Err(e) => return viol("import-failed", format!("{e}; {}", what())),
            }
        };
        // content
        let out = base.join("out");
        std::fs::create_dir_all(&out).map_err(serr)?;
        let f = out.join("out.xml");
        cs.export_to_fs(&[&name], &f, ExportFormat::GraphML).map_err(|e| Violation { sig: "export-failed".into(), detail: e.to_string() })?;
        let (m, _) = read_xml(&std::fs::read_to_string(&f).map_err(serr)?).map_err(|e| Violation { sig: "export-malformed".into(), detail: e })?;
        std::fs::remove_dir_all(&out).map_err(serr)?;
        let Some(dir) = corpus_dir(&data, &name) else { return viol("no-directory", format!("no directory for {name:?}")) };
        let (content, linked, _) = split_files(&m, &dir.join("files"));
        if let Some(d) = exp.diff(&drop_empty_space(&content)) {
            return viol("content-differs", format!("{d}; {}", what()));
        }
        check!(linked == r.linked, "linked-files", "files for {:?} instead of {:?}; {}", linked.keys(), r.linked.keys(), what());
        let mut c = serde_json::to_value(cs.info(&name).map_err(serr)?.config).map_err(serr)?;
        c.as_object_mut().unwrap().remove("corpus_size");
        check!(c == r.config, "config-differs", "{c} instead of {}; {}", r.config, what());
        // the order of token decides the order of matches
        let got = find(&cs, &[name.clone()], "tok", QueryLanguage::AQL, ResultOrder::Normal).map_err(|e| Violation { sig: "query-failed".into(), detail: e })?;
        match &first {
            Some(f) => check!(*f == got, "query-differs", "{f:?} and {got:?}; {}", what()),
            None => first = Some(got),
        }
        ctx.count("imports", 1);
        ctx.count("nodes_compared", exp.nodes.len() as u64);
        ctx.count("edges_compared", exp.n_edges() as u64);
        ctx.count("linked_files", linked.len() as u64);
        ctx.count(if r.v33 { "version_33" } else { "version_32" }, 1);
    }
    if exp.edges.keys().any(|k| k.0 == "Coverage") {
        ctx.distinct(&format!("{}", exp.fingerprint()));
    }
    ctx.sample(json!({"nodes": exp.nodes.len(), "edges": exp.n_edges(), "v33": r.v33}));
    Ok(())
}
