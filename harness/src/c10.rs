//! C10: results do not depend on plan, storage, cache or parallel settings.
use crate::aql::*;
use crate::c01::tail;
use crate::c05::few_paths;
use crate::c09::valid;
use crate::corpus::*;
use crate::gmodel::*;
use crate::rt::*;
use crate::store::*;
use graphannis::CorpusStorage;
use graphannis::corpusstorage::{QueryLanguage, ResultOrder};
use serde_json::json;

pub fn run(ctx: &mut Ctx) {
    let n = ctx.n(220, 4000);
    ctx.cases("small", n, |c, r| config_case(c, r, false));
    ctx.cases("large", n / 25, |c, r| config_case(c, r, true));
}

/// One step that must not change any result
fn neutral_step(rng: &mut Rng, dir: &std::path::Path, cs: &mut Option<CorpusStorage>, cfg: &mut SCfg, corpora: &[String], log: &mut Vec<String>) -> Case {
    let c = rng.pick(corpora);
    let s = cs.as_ref().unwrap();
    match rng.below(8) {
        0 | 1 => {
            let disk = rng.chance(50);
            log.push(format!("reoptimize({c},disk={disk})"));
            s.reoptimize_implementation(c, disk).map_err(serr)?;
        }
        2 => {
            log.push(format!("unload({c})"));
            s.unload(c).map_err(serr)?;
        }
        3 => {
            log.push(format!("preload({c})"));
            s.preload(c).map_err(serr)?;
        }
        4 | 5 => {
            *cs = None;
            *cfg = SCfg::random(rng);
            log.push(format!("restart({cfg:?})"));
            *cs = Some(cfg.open(dir)?);
        }
        6 => {
            log.push("find tok".into());
            find(s, corpora, "tok", QueryLanguage::AQL, ResultOrder::NotSorted).map_err(serr)?;
        }
        _ => {}
    }
    Ok(())
}

fn config_case(ctx: &mut Ctx, rng: &mut Rng, large: bool) -> Case {
    let gc = if large {
        Cfg { docs: (2, 4), texts: (1, 2), toks: (10, 50), spans: (2, 15), structs: (2, 15), pointing: (2, 30), segs: 2, ..Default::default() }
    } else {
        Cfg { docs: (1, 2), texts: (1, 2), segs: 2, toks: (0, *rng.pick(&[3, 6, 10])), hostile: rng.chance(20), ..Default::default() }
    };
    let corpora: Vec<String> = if rng.chance(30) { vec!["c".into(), "d x".into()] } else { vec!["c".into()] };
    let mut evs = vec![];
    let mut allowed = vec![];
    let mut models = vec![];
    for c in &corpora {
        // updates are only split where the coverage of each node is connected
        let mut cuts = vec![];
        let (mut e, mut info) = gen_corpus(rng, c.replace(' ', "%20").as_str(), &gc);
        let mut m = Model::default();
        for x in &e {
            m.apply(x, &valid);
        }
        let initial = e.len();
        for _ in 0..rng.below(6) {
            let (mut x, _) = gen_edit(rng, &gc, &mut info, &m);
            // every element of a token chain is a token
            x.retain(|e| !matches!(e, U::DeleteNodeLabel { anno_ns, anno_name, .. } if anno_ns == "annis" && anno_name == "tok"));
            for x in &x {
                m.apply(x, &valid);
            }
            e.extend(x);
            if !expected_index(&m).1.is_empty() {
                ctx.count("skipped_unconnected_coverage", 1);
                return Ok(());
            }
            cuts.push(e.len());
        }
        cuts.extend(0..initial);
        if !few_paths(&m) {
            ctx.count("skipped_too_many_paths", 1);
            return Ok(());
        }
        models.push(m);
        evs.push(e);
        allowed.push(cuts);
    }
    let p = Pools::new(&models[0]);
    let queries: Vec<Query> = (0..if large { 12 } else { 8 }).map(|_| gen_query(rng, &p, if large { 3 } else { 4 }, true)).collect();

    // configurations: the first one is the reference
    let mut stores = vec![];
    for k in 0..4 {
        let dir = scratch();
        let mut cfg = if k == 0 { SCfg { parallel: false, cache: 1000, percent: false } } else { SCfg::random(rng) };
        let mut log = vec![format!("{cfg:?}")];
        let mut cs = Some(cfg.open(dir.path())?);
        for ((c, e), cuts) in corpora.iter().zip(&evs).zip(&allowed) {
            let disk = k > 0 && rng.chance(50);
            cs.as_ref().unwrap().create_empty_corpus(c, disk).map_err(serr)?;
            log.push(format!("create({c},disk={disk})"));
            for part in split_at(rng, e, cuts, if k == 0 { 1 } else { 4 }) {
                apply(cs.as_ref().unwrap(), c, part)?;
                log.push(format!("update({})", part.len()));
                if k > 0 && rng.chance(60) {
                    neutral_step(rng, dir.path(), &mut cs, &mut cfg, std::slice::from_ref(c), &mut log)?;
                }
            }
        }
        stores.push((dir, cs, cfg, log));
    }
    for q in &queries {
        let lang = if rng.chance(15) { QueryLanguage::AQLQuirksV3 } else { QueryLanguage::AQL };
        let mut base: Option<(Vec<String>, u64)> = None;
        for k in 0..stores.len() {
            let (dir, cs, cfg, log) = &mut stores[k];
            if k > 0 && rng.chance(25) {
                neutral_step(rng, dir.path(), cs, cfg, &corpora, log)?;
            }
            let s = cs.as_ref().unwrap();
            let order = if k == 0 { ResultOrder::NotSorted } else { *rng.pick(&[ResultOrder::Normal, ResultOrder::NotSorted, ResultOrder::Inverted, ResultOrder::Randomized]) };
            let log = log.clone();
            let what = || format!("query `{}` {lang:?} order={order:?}; configuration: {}; corpora: {}", q.text, tail(&log), tail(&evs.iter().flatten().map(|e| format!("{e:?}")).collect::<Vec<_>>()));
            let kinds = || q.alts.iter().flat_map(|c| c.ops.iter().map(|b| b.op.kind())).collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>().join("+");
            let mut r = match guarded(|| find(s, &corpora, &q.text, lang, order)) {
                Err(x) => return viol(format!("panic:{}", short_loc(&x.0)), format!("{} {}", x.1, what())),
                Ok(Err(e)) => vec![format!("error: {e}")],
                Ok(Ok(r)) => r,
            };
            r.sort();
            let n = match guarded(|| s.count(sq(&corpora, &q.text, lang, None))) {
                Err(x) => return viol(format!("panic:{}", short_loc(&x.0)), format!("count: {} {}", x.1, what())),
                Ok(Err(_)) => u64::MAX,
                Ok(Ok(n)) => n,
            };
            ctx.count("executions", 1);
            match &base {
                None => {
                    if n == u64::MAX {
                        ctx.count("rejected_queries", 1);
                    } else {
                        check!(n == r.len() as u64, format!("count-differs:{}", kinds()), "count {n}, but {} matches; {}", r.len(), what());
                    }
                    base = Some((r, n));
                }
                Some((b, bn)) => {
                    if *b != r {
                        let missing: Vec<&String> = b.iter().filter(|x| !r.contains(x)).take(3).collect();
                        let more: Vec<&String> = r.iter().filter(|x| !b.contains(x)).take(3).collect();
                        if std::env::var("VH_PLAN").is_ok() {
                            for q in std::env::var("VH_Q").unwrap_or_default().split(';') {
                                let mut a = find(stores[k].1.as_ref().unwrap(), &corpora, q, lang, ResultOrder::Normal);
                                let mut b = find(stores[0].1.as_ref().unwrap(), &corpora, q, lang, ResultOrder::Normal);
                                if let (Ok(a), Ok(b)) = (&mut a, &mut b) {
                                    let (x, y) = (a.clone(), b.clone());
                                    a.retain(|i| !y.contains(i));
                                    b.retain(|i| !x.contains(i));
                                }
                                eprintln!("Q {q}: only {k}: {a:?}\nonly 0: {b:?}");
                            }
                            eprintln!("PLAN {}", stores[k].1.as_ref().unwrap().plan(&corpora, &q.text, lang).unwrap_or_default());
                            eprintln!("PLAN0 {}", stores[0].1.as_ref().unwrap().plan(&corpora, &q.text, lang).unwrap_or_default());
                        }
                        return viol(format!("result-depends-on-configuration:{}", kinds()), format!("{} instead of {} matches, missing {missing:?}, additional {more:?}; {}", r.len(), b.len(), what()));
                    }
                    check!(n == *bn, format!("count-depends-on-configuration:{}", kinds()), "count {n} instead of {bn}; {}", what());
                }
            }
        }
        let (b, bn) = base.unwrap();
        if bn != u64::MAX && bn > 0 {
            ctx.count("queries_with_matches", 1);
            ctx.distinct(&format!("{}#{}", q.text, models[0].fingerprint()));
        }
        ctx.count("queries", 1);
        // other formulations on one of the configurations
        if bn == u64::MAX || !matches!(lang, QueryLanguage::AQL) {
            continue;
        }
        for _ in 0..2 {
            let (text, map) = reformulate(rng, q);
            let k = rng.below(stores.len());
            let s = stores[k].1.as_ref().unwrap();
            let what = || format!("query `{text}` instead of `{}`; configuration: {}; corpora: {}", q.text, tail(&stores[k].3), tail(&evs.iter().flatten().map(|e| format!("{e:?}")).collect::<Vec<_>>()));
            let r = match guarded(|| find(s, &corpora, &text, lang, ResultOrder::NotSorted)) {
                Err(x) => return viol(format!("panic:{}", short_loc(&x.0)), format!("{} {}", x.1, what())),
                Ok(Err(e)) => return viol("formulation-rejected", format!("{e}; {}", what())),
                Ok(Ok(r)) => r,
            };
            ctx.count("formulations", 1);
            let identity = map.iter().all(|(_, m)| m.iter().enumerate().all(|(i, x)| i == *x));
            if map.len() == 1 || identity {
                let mut r: Vec<String> = r
                    .into_iter()
                    .map(|l| {
                        if identity {
                            return l;
                        }
                        let parts: Vec<&str> = l.split(' ').collect();
                        let mut o = vec![""; parts.len()];
                        for (i, p) in parts.iter().enumerate() {
                            o[map[0].1[i]] = p;
                        }
                        o.join(" ")
                    })
                    .collect();
                r.sort();
                if r != b {
                    let missing: Vec<&String> = b.iter().filter(|x| !r.contains(x)).take(3).collect();
                    let more: Vec<&String> = r.iter().filter(|x| !b.contains(x)).take(3).collect();
                    return viol("result-depends-on-formulation", format!("{} instead of {} matches, missing {missing:?}, additional {more:?}; {}", r.len(), b.len(), what()));
                }
            } else {
                ctx.count("formulations_not_compared", 1);
            }
        }
        ctx.sample(json!({"query": q.text, "results": bn, "configurations": stores.iter().map(|s| tail(&s.3)).collect::<Vec<_>>()}));
    }
    Ok(())
}
