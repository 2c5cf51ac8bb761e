//! C16: frequency tables.
use crate::aql::*;
use crate::c01::tail;
use crate::c05::few_paths;
use crate::corpus::*;
use crate::gmodel::*;
use crate::rt::*;
use crate::store::*;
use graphannis::corpusstorage::{FrequencyDefEntry, QueryLanguage, ResultOrder};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

pub fn run(ctx: &mut Ctx) {
    let n = ctx.n(400, 10000);
    ctx.cases("small", n, |c, r| freq_case(c, r, false));
    ctx.cases("large", n / 20, |c, r| freq_case(c, r, true));
}

type Table = BTreeMap<Vec<String>, usize>;

fn freq_case(ctx: &mut Ctx, rng: &mut Rng, large: bool) -> Case {
    let valid = |t: &str| <graphannis::model::AnnotationComponentType as std::str::FromStr>::from_str(t).is_ok();
    let gc = if large {
        Cfg { docs: (2, 4), texts: (1, 2), toks: (10, 60), spans: (5, 20), structs: (2, 15), pointing: (2, 30), segs: 1, ..Default::default() }
    } else {
        Cfg { docs: (1, 2), texts: (1, 2), toks: (0, *rng.pick(&[3, 6, 12])), hostile: rng.chance(40), ..Default::default() }
    };
    let corpora: Vec<String> = match rng.below(4) {
        0 => vec!["c".into(), "B".into(), "c2".into()],
        1 => vec!["d".into(), "c".into()],
        _ => vec!["c".into()],
    };
    let dir = scratch();
    let cfg = SCfg::random(rng);
    let cs = cfg.open(dir.path())?;
    let mut models: BTreeMap<String, Model> = BTreeMap::new();
    let mut log = vec![];
    for c in &corpora {
        let (mut e, mut info) = gen_corpus(rng, c, &gc);
        let mut m = Model::default();
        for x in &e {
            m.apply(x, &valid);
        }
        for _ in 0..rng.below(4) {
            let (x, _) = gen_edit(rng, &gc, &mut info, &m);
            for x in &x {
                m.apply(x, &valid);
            }
            e.extend(x);
        }
        if !few_paths(&m) {
            ctx.count("skipped_too_many_paths", 1);
            return Ok(());
        }
        cs.create_empty_corpus(c, rng.chance(40)).map_err(serr)?;
        for part in split(rng, &e, 2) {
            apply(&cs, c, part)?;
        }
        if rng.chance(50) {
            cs.reoptimize_implementation(c, rng.chance(40)).map_err(serr)?;
        }
        log.extend(e.iter().map(|e| format!("{e:?}")));
        models.insert(c.clone(), m);
    }
    let p = Pools::new(&models[&corpora[0]]);
    let mut names: BTreeSet<(String, String)> = models.values().flat_map(|m| m.nodes.values().flat_map(|l| l.keys().cloned())).collect();
    names.insert(("".into(), "does-not-exist".into()));
    names.insert(("unknown".into(), "pos".into()));
    let names: Vec<(String, String)> = names.into_iter().collect();
    for _ in 0..if large { 6 } else { 8 } {
        let q = gen_query(rng, &p, if large { 2 } else { 3 }, true);
        // the variables of each alternative
        let mut vars: Vec<Vec<String>> = vec![];
        let mut offset = 0;
        for a in &q.alts {
            vars.push(a.nodes.iter().enumerate().map(|(i, n)| n.var.clone().unwrap_or_else(|| format!("{}", offset + i + 1))).collect());
            offset += a.nodes.len();
        }
        let all_vars: Vec<String> = vars.iter().flatten().cloned().collect::<BTreeSet<_>>().into_iter().collect();
        let defs: Vec<(Option<String>, String, String)> = (0..rng.below(4))
            .map(|_| {
                let (ns, n) = rng.pick(&names).clone();
                (if rng.chance(50) { None } else { Some(ns) }, n, rng.pick(&all_vars).clone())
            })
            .collect();
        let definition: Vec<FrequencyDefEntry> = defs.iter().map(|(ns, name, var)| FrequencyDefEntry { ns: ns.clone(), name: name.clone(), node_ref: var.clone() }).collect();
        let what = || format!("query `{}` definition {defs:?} {cfg:?} corpora={corpora:?}: {}", q.text, tail(&log));
        let run = |sel: &[String]| -> Result<Result<Vec<(Vec<String>, usize)>, String>, Violation> {
            match guarded(|| cs.frequency(sq(sel, &q.text, QueryLanguage::AQL, None), definition.clone()).map_err(|e| e.to_string())) {
                Err(x) => viol(format!("panic:{}", short_loc(&x.0)), format!("{} {}", x.1, what())),
                Ok(r) => Ok(r.map(|t| t.into_iter().map(|r| (r.values, r.count)).collect())),
            }
        };
        let mut sum: Table = BTreeMap::new();
        let mut failed = false;
        let mut sels: Vec<Vec<String>> = corpora.iter().map(|c| vec![c.clone()]).collect();
        if corpora.len() > 1 {
            let mut all = corpora.clone();
            rng.shuffle(&mut all);
            sels.push(all);
        }
        for sel in &sels {
            let rows = match run(sel)? {
                Ok(r) => r,
                Err(e) => {
                    let c = cs.count(sq(sel, &q.text, QueryLanguage::AQL, None));
                    check!(c.is_err(), "frequency-fails", "{e}, but the query has {:?} matches; {}", c.ok(), what());
                    ctx.count("rejected_queries", 1);
                    failed = true;
                    break;
                }
            };
            ctx.count("tables", 1);
            ctx.count("rows", rows.len() as u64);
            let table: Table = rows.iter().cloned().collect();
            check!(table.len() == rows.len(), "duplicate-row", "{rows:?}; {}", what());
            check!(rows.windows(2).all(|w| w[0].1 >= w[1].1), "rows-not-ordered", "{:?}; {}", rows.iter().map(|r| r.1).collect::<Vec<_>>(), what());
            check!(rows.iter().all(|r| r.0.len() == defs.len() && r.1 > 0), "row-shape", "{rows:?}; {}", what());
            let total: usize = rows.iter().map(|r| r.1).sum();
            let count = cs.count(sq(sel, &q.text, QueryLanguage::AQL, None)).map_err(serr)?;
            check!(total as u64 == count, "sum-differs", "sum {total}, {count} matches; {}", what());
            if sel.len() > 1 {
                check!(table == sum, "several-corpora", "{table:?} instead of {sum:?}; {}", what());
                ctx.count("combined_tables", 1);
                continue;
            }
            for (k, n) in &table {
                *sum.entry(k.clone()).or_default() += n;
            }
            // expected table from the single alternatives and the plain content
            let m = &models[&sel[0]];
            let mut exp: Table = BTreeMap::new();
            let mut seen: BTreeSet<String> = BTreeSet::new();
            let mut open = false;
            for (ai, a) in q.alts.iter().enumerate() {
                let (text, map) = if q.alts.len() == 1 {
                    (q.text.clone(), vec![(0, (0..a.nodes.iter().filter(|n| !n.opt).count()).collect::<Vec<_>>())])
                } else {
                    reformulate(rng, &Query { alts: vec![a.clone()], text: String::new() })
                };
                let lines = match find(&cs, sel, &text, QueryLanguage::AQL, ResultOrder::NotSorted) {
                    Ok(l) => l,
                    Err(_) => {
                        open = true;
                        break;
                    }
                };
                let out: Vec<usize> = (0..a.nodes.len()).filter(|i| !a.nodes[*i].opt).collect();
                for l in lines {
                    let parts: Vec<&str> = l.split(' ').collect();
                    if parts.len() != map[0].1.len() {
                        open = true;
                        break;
                    }
                    let mut cols = vec![""; parts.len()];
                    for (i, p) in parts.iter().enumerate() {
                        cols[map[0].1[i]] = p;
                    }
                    if !seen.insert(cols.join(" ")) {
                        open = true; // found by several alternatives
                        break;
                    }
                    let mut tuple = vec![];
                    for (ns, name, var) in &defs {
                        let col = vars[ai].iter().position(|v| v == var).and_then(|i| out.iter().position(|o| *o == i));
                        let mut v = String::new();
                        if let Some(c) = col {
                            let node = cols[c].rsplit("::").next().unwrap_or("");
                            let Some(labels) = m.nodes.get(node) else {
                                open = true;
                                break;
                            };
                            let vals: Vec<&String> = labels.iter().filter(|(k, _)| k.1 == *name && ns.as_ref().is_none_or(|n| *n == k.0)).map(|x| x.1).collect();
                            if vals.len() > 1 {
                                open = true; // unqualified name with several annotations
                                break;
                            }
                            v = vals.first().map(|v| v.to_string()).unwrap_or_default();
                        }
                        tuple.push(v);
                    }
                    *exp.entry(tuple).or_default() += 1;
                }
            }
            if open {
                ctx.count("tables_without_expected_rows", 1);
            } else {
                check!(exp == table, "table", "{table:?} instead of {exp:?}; {}", what());
                ctx.count("tables_compared", 1);
                if table.len() > 1 && !defs.is_empty() {
                    ctx.distinct(&format!("{}{defs:?}{}", q.text, m.fingerprint()));
                }
            }
        }
        if !failed {
            ctx.sample(json!({"query": q.text, "definition": format!("{defs:?}"), "rows": sum.len(), "table": sum.iter().take(4).map(|(k, n)| format!("{k:?}: {n}")).collect::<Vec<_>>()}));
        }
    }
    Ok(())
}
