//! C25: a query with a timeout gives the complete result or reports that the timeout was reached.
use crate::aql::*;
use crate::c01::tail;
use crate::c05::few_paths;
use crate::corpus::*;
use crate::gmodel::*;
use crate::rt::*;
use crate::store::*;
use graphannis::CorpusStorage;
use graphannis::corpusstorage::{FrequencyDefEntry, QueryLanguage, ResultOrder};
use graphannis::errors::GraphAnnisError;
use serde_json::json;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

pub fn run(ctx: &mut Ctx) {
    crate::c20::limit_memory(6);
    ctx.cases("queries", ctx.n(48, 3000), timeout_case);
    ctx.cases("heavy", ctx.n(24, 300), heavy_case);
}

#[derive(Clone, PartialEq, Debug)]
enum Answer {
    Count(u64),
    Extra(u64, u64),
    Matches(Vec<String>),
    Table(BTreeMap<Vec<String>, usize>),
    Timeout,
    Error(String),
}
impl Answer {
    fn short(&self) -> String {
        match self {
            Answer::Matches(m) => format!("{} matches {:?}", m.len(), m.iter().take(4).collect::<Vec<_>>()),
            Answer::Table(t) => format!("{} rows with sum {}", t.len(), t.values().sum::<usize>()),
            x => format!("{x:?}"),
        }
    }
    fn is_empty(&self) -> bool {
        match self {
            Answer::Matches(m) => m.is_empty(),
            Answer::Table(t) => t.is_empty(),
            _ => false,
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Req {
    Count,
    Extra,
    Find(ResultOrder, usize, Option<usize>),
    Frequency,
}

fn ask(cs: &CorpusStorage, sel: &[String], q: &str, lang: QueryLanguage, req: Req, def: &[FrequencyDefEntry], timeout: Option<Duration>) -> Result<Answer, Violation> {
    let s = sq(sel, q, lang, timeout);
    let r = guarded(|| -> Result<Answer, GraphAnnisError> {
        Ok(match req {
            Req::Count => Answer::Count(cs.count(s)?),
            Req::Extra => {
                let e = cs.count_extra(s)?;
                Answer::Extra(e.match_count, e.document_count)
            }
            Req::Find(order, offset, limit) => {
                let mut m = cs.find(s, offset, limit, order)?;
                if matches!(order, ResultOrder::NotSorted | ResultOrder::Randomized) {
                    m.sort();
                }
                Answer::Matches(m)
            }
            Req::Frequency => Answer::Table(cs.frequency(s, def.to_vec())?.into_iter().map(|r| (r.values, r.count)).collect()),
        })
    });
    match r {
        Err(x) => viol(format!("panic:{}", short_loc(&x.0)), format!("{} {req:?} {q}", x.1)),
        Ok(Ok(a)) => Ok(a),
        Ok(Err(GraphAnnisError::Timeout)) => Ok(Answer::Timeout),
        Ok(Err(e)) => Ok(Answer::Error(e.to_string())),
    }
}

fn timeout_case(ctx: &mut Ctx, rng: &mut Rng) -> Case {
    let valid = |t: &str| <graphannis::model::AnnotationComponentType as std::str::FromStr>::from_str(t).is_ok();
    let size = *rng.pick(&[20, 60, 150, 300]);
    let gc = Cfg { docs: (1, 6), texts: (1, 2), toks: (size / 4, size), spans: (2, size / 4), structs: (2, size / 4), pointing: (2, size / 4), segs: 1, ..Default::default() };
    let corpora: Vec<String> = if rng.chance(40) { vec!["c".into(), "B".into(), "a".into()] } else { vec!["c".into()] };
    let dir = scratch();
    let cfg = SCfg::random(rng);
    let cs = cfg.open(dir.path())?;
    let mut models = vec![];
    let mut log = vec![];
    let mut infos = vec![];
    for c in &corpora {
        let (e, info) = gen_corpus(rng, c, &gc);
        let mut m = Model::default();
        for x in &e {
            m.apply(x, &valid);
        }
        if !few_paths(&m) {
            ctx.count("skipped_too_many_paths", 1);
            return Ok(());
        }
        cs.create_empty_corpus(c, rng.chance(40)).map_err(serr)?;
        apply(&cs, c, &e)?;
        if rng.chance(50) {
            cs.reoptimize_implementation(c, rng.chance(40)).map_err(serr)?;
        }
        log.extend(e.iter().map(|e| format!("{e:?}")));
        models.push(m);
        infos.push(info);
    }
    let p = Pools::new(&models[0]);
    let start = Instant::now();
    for qi in 0..10 {
        if start.elapsed() > Duration::from_secs(12) {
            break;
        }
        let (text, var) = if rng.chance(40) {
            // with many matches
            let q = rng.pick(&["tok .* tok", "node _=_ node", "node _o_ node", "tok ^1,40 tok", "tok & tok & #1 == #2", "node > node | tok . tok | node _i_ tok", "annis:node_name & annis:node_type & #1 _ident_ #2", "node @* node", "tok .1,5 tok & #2 .1,5 tok", "tok & tok & #1 != #2", "node & node & #1 ->dep* #2"]).to_string();
            (q, "1".to_string())
        } else {
            let q = gen_query(rng, &p, 3, true);
            let v = q.alts[0].nodes[0].var.clone().unwrap_or_else(|| "1".into());
            (q.text.clone(), v)
        };
        let def = vec![FrequencyDefEntry { ns: None, name: "tok".into(), node_ref: var.clone() }, FrequencyDefEntry { ns: Some("annis".into()), name: "node_name".into(), node_ref: var }];
        let lang = if rng.chance(15) { QueryLanguage::AQLQuirksV3 } else { QueryLanguage::AQL };
        let sel: Vec<String> = if rng.chance(50) {
            let mut s = corpora.clone();
            rng.shuffle(&mut s);
            s
        } else {
            vec![rng.pick(&corpora).clone()]
        };
        let what = |req: &Req| format!("{req:?} `{text}` {lang:?} in {sel:?} {cfg:?}: {}", tail(&log));
        // a query that needs too long is only used to see that the timeout ends it
        let mut matches = 0;
        let t = Instant::now();
        match ask(&cs, &sel, &text, lang, Req::Count, &def, Some(Duration::from_millis(400)))? {
            Answer::Timeout => {
                check!(t.elapsed() < Duration::from_secs(60), "timeout-ignored", "timeout of 0.4 s reported after {:?}: {}", t.elapsed(), what(&Req::Count));
                ctx.count("too_slow", 1);
                continue;
            }
            Answer::Error(_) => {
                ctx.count("rejected_queries", 1);
                continue;
            }
            Answer::Count(n) => matches = n,
            _ => {}
        }
        let reqs = [
            Req::Count,
            Req::Extra,
            Req::Frequency,
            Req::Find(ResultOrder::NotSorted, 0, None),
            Req::Find(*rng.pick(&[ResultOrder::Normal, ResultOrder::Inverted]), 0, None),
            Req::Find(ResultOrder::Randomized, 0, None),
            Req::Find(ResultOrder::Normal, rng.below(30), Some(rng.below(2000))),
        ];
        for req in reqs {
            // (sorting many matches takes very long)
            if rng.chance(30) || (matches > 15000 && matches!(req, Req::Find(ResultOrder::Normal | ResultOrder::Inverted, ..))) {
                continue;
            }
            if start.elapsed() > Duration::from_secs(20) {
                break;
            }
            if std::env::var_os("VH_TRACE").is_some() {
                eprintln!("{req:?} `{text}` {:?}", start.elapsed());
            }
            let t = Instant::now();
            let full = ask(&cs, &sel, &text, lang, req, &def, None)?;
            let needed = t.elapsed();
            check!(full != Answer::Timeout, "timeout-without-timeout", "{}", what(&req));
            if let Answer::Error(e) = full {
                return viol("failed-after-success", format!("{e}: {}", what(&req)));
            }
            ctx.max("milliseconds_needed", needed.as_millis() as u64);
            let mut timeouts = vec![Duration::ZERO, Duration::from_nanos(1), Duration::MAX, Duration::from_secs(3600)];
            for _ in 0..6 {
                timeouts.push(needed.mul_f64(rng.below(1300) as f64 / 1000.0));
            }
            for _ in 0..2 {
                timeouts.push(Duration::from_nanos(1 << rng.range(8, 22)));
            }
            if needed > Duration::from_millis(800) {
                timeouts.truncate(7);
            }
            for to in timeouts {
                let got = ask(&cs, &sel, &text, lang, req, &def, Some(to))?;
                ctx.count("requests_with_timeout", 1);
                match &got {
                    Answer::Timeout => {
                        ctx.count("timeouts", 1);
                        check!(to < Duration::from_secs(3600), "generous-timeout", "timeout {to:?} reported as reached: {}", what(&req));
                        if to > Duration::from_nanos(1) {
                            ctx.distinct(&format!("{text} {req:?} {to:?}"));
                        }
                    }
                    Answer::Error(e) => return viol("error", format!("timeout {to:?}: {e}: {}", what(&req))),
                    got => {
                        ctx.count("complete_results", 1);
                        check!(*got == full, "partial-result", "timeout {to:?} (needed {needed:?}): {} instead of {}: {}", got.short(), full.short(), what(&req));
                        // (nothing is left to do for an empty result or a page without entries)
                        check!(to != Duration::ZERO || full.is_empty(), "zero-timeout", "not reported, got {}: {}", got.short(), what(&req));
                    }
                }
            }
            let again = ask(&cs, &sel, &text, lang, req, &def, None)?;
            check!(again == full, "different-after-timeout", "{} instead of {}: {}", again.short(), full.short(), what(&req));
        }
        // the storage can be changed after timeouts
        if qi % 5 == 4 {
            let i = rng.below(corpora.len());
            let (x, _) = gen_edit(rng, &gc, &mut infos[i], &models[i]);
            apply(&cs, &corpora[i], &x)?;
            let mut m = models[i].clone();
            for e in &x {
                m.apply(e, &valid);
            }
            let n = ask(&cs, &[corpora[i].clone()], "annis:node_name", QueryLanguage::AQL, Req::Count, &[], None)?;
            check!(n == Answer::Count(m.nodes.len() as u64), "update-after-timeout", "{n:?} nodes instead of {}: {}", m.nodes.len(), tail(&log));
            log.extend(x.iter().map(|e| format!("{e:?}")));
            models[i] = m;
        }
    }
    ctx.sample(json!({"config": format!("{cfg:?}"), "corpora": corpora, "nodes": models[0].nodes.len()}));
    Ok(())
}

/// Queries which would need hours must end soon after the timeout
fn heavy_case(ctx: &mut Ctx, rng: &mut Rng) -> Case {
    let n = rng.range(1000, 2500);
    let mut ev = vec![add_node("c", "corpus"), add_node("c/d", "corpus"), label("c/d", "annis", "doc", "d"), edge("PartOf", "annis", "", "c/d", "c"), add_node("c/d#t", "datasource"), edge("PartOf", "annis", "", "c/d#t", "c/d")];
    for i in 0..n {
        let t = format!("c/d#t{i}");
        ev.push(add_node(&t, "node"));
        ev.push(label(&t, "annis", "tok", "a"));
        ev.push(label(&t, "", "pos", "NN"));
        ev.push(label(&t, "", "id", &format!("{i}")));
        ev.push(edge("PartOf", "annis", "", &t, "c/d#t"));
        if i > 0 {
            ev.push(edge("Ordering", "annis", "", &format!("c/d#t{}", i - 1), &t));
        }
    }
    let dir = scratch();
    let cfg = SCfg::random(rng);
    let cs = cfg.open(dir.path())?;
    cs.create_empty_corpus("c", rng.chance(30)).map_err(serr)?;
    apply(&cs, "c", &ev)?;
    let sel = vec!["c".to_string()];
    let def = vec![FrequencyDefEntry { ns: None, name: "id".into(), node_ref: "1".into() }];
    for _ in 0..3 {
        let q = *rng.pick(&[
            "tok .* tok .* tok .* tok",
            "id .* id .* id .* id & #1 == #4",
            "tok ^* tok ^* tok ^* tok",
            "pos .* pos .* pos .* pos & #1 != #4",
            "tok .1,50 tok & tok .1,50 tok & #1 .1,500 #3 & #2 ^* #4 & pos .* pos & #4 .* #6",
            "id .1,50 id & id .1,50 id & #1 .1,500 #3 & #2 == #4 & id .1,500 id & #6 ^* #3 & #5 == #4",
            "tok @* node & node @* node & tok @ node & #3 @* #2 & #2 @* #4 & #5 @* #4 & tok .* tok .* tok .* tok & #7 .* #1",
            "tok=\"a\" . pos | pos .* pos .* pos .* pos & #3 == #6",
        ]);
        let req = *rng.pick(&[Req::Count, Req::Extra, Req::Frequency, Req::Find(ResultOrder::NotSorted, 0, None), Req::Find(ResultOrder::Normal, 0, Some(10)), Req::Find(ResultOrder::Randomized, 0, Some(10)), Req::Find(ResultOrder::NotSorted, 1 << 40, Some(1))]);
        let to = Duration::from_millis(*rng.pick(&[0, 1, 10, 100, 300]));
        if std::env::var_os("VH_TRACE").is_some() {
            eprintln!("{req:?} `{q}` {to:?} {cfg:?} {n}");
        }
        let t = Instant::now();
        let got = ask(&cs, &sel, q, QueryLanguage::AQL, req, &def, Some(to))?;
        let needed = t.elapsed();
        ctx.max("milliseconds_until_timeout", needed.as_millis() as u64);
        ctx.count("heavy_requests", 1);
        let what = || format!("{req:?} `{q}` timeout {to:?}, {n} token, {cfg:?}, after {needed:?}: {}", got.short());
        check!(needed < Duration::from_secs(60), "timeout-ignored", "{}", what());
        match &got {
            Answer::Timeout => ctx.count("heavy_timeouts", 1),
            Answer::Error(_) => return viol("error", what()),
            // the result can't be complete
            _ => return viol("partial-result", what()),
        }
        ctx.distinct(&format!("{q} {req:?} {to:?} {n}"));
        let c = ask(&cs, &sel, "tok", QueryLanguage::AQL, Req::Count, &[], None)?;
        check!(c == Answer::Count(n as u64), "different-after-timeout", "{c:?} instead of {n} token; {}", what());
    }
    Ok(())
}
