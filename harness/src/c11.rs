//! C11: ordering and pagination.
use crate::aql::*;
use crate::c01::tail;
use crate::c05::few_paths;
use crate::corpus::*;
use crate::gmodel::*;
use crate::rt::*;
use crate::store::*;
use graphannis::corpusstorage::{QueryLanguage, ResultOrder};
use serde_json::json;
use std::cmp::Ordering;
use std::collections::BTreeMap;

pub fn run(ctx: &mut Ctx) {
    let n = ctx.n(64, 4000);
    ctx.cases("small", n, |c, r| order_case(c, r, false));
    ctx.cases("large", n / 12, |c, r| order_case(c, r, true));
}

fn path_cmp(a: &str, b: &str) -> Ordering {
    let parts = |s: &str| -> Vec<String> { s.rsplit_once('#').map_or(s, |x| x.0).split('/').filter(|p| !p.is_empty()).map(|p| p.to_string()).collect() };
    parts(a).cmp(&parts(b))
}

/// What the documented order demands for two different nodes (None: left open)
fn node_cmp(d: &Derived, left: &BTreeMap<String, String>, a: &str, b: &str) -> Option<Ordering> {
    if a == b {
        return None;
    }
    let p = path_cmp(a, b);
    if p != Ordering::Equal {
        return Some(p);
    }
    match (left.get(a).and_then(|t| d.pos.get(t)), left.get(b).and_then(|t| d.pos.get(t))) {
        (Some(x), Some(y)) if x.0 == y.0 => Some(x.1.cmp(&y.1).then(a.cmp(b))),
        (None, None) => Some(a.cmp(b)),
        _ => None,
    }
}

fn nodes_of(line: &str) -> Vec<String> {
    line.split(' ').map(|p| p.rsplit("::").next().unwrap_or(p).to_string()).collect()
}

fn order_case(ctx: &mut Ctx, rng: &mut Rng, large: bool) -> Case {
    let valid = |t: &str| <graphannis::model::AnnotationComponentType as std::str::FromStr>::from_str(t).is_ok();
    let gc = if large {
        Cfg { docs: (2, 5), texts: (1, 3), toks: (10, 60), spans: (5, 20), structs: (2, 15), pointing: (2, 30), segs: 2, ..Default::default() }
    } else {
        Cfg { docs: (1, 3), texts: (1, 3), segs: 2, toks: (0, *rng.pick(&[3, 6, 12])), ..Default::default() }
    };
    let corpora: Vec<String> = match rng.below(4) {
        0 => vec!["c".into(), "B".into(), "c2".into()],
        1 => vec!["d".into(), "c".into()],
        _ => vec!["c".into()],
    };
    let mut evs = vec![];
    let mut models = BTreeMap::new();
    let mut allowed = vec![];
    for c in &corpora {
        let mut cuts = vec![];
        let (mut e, mut info) = gen_corpus(rng, c, &gc);
        let mut m = Model::default();
        for x in &e {
            m.apply(x, &valid);
        }
        let initial = e.len();
        for _ in 0..rng.below(5) {
            let (mut x, _) = gen_edit(rng, &gc, &mut info, &m);
            x.retain(|e| !matches!(e, U::DeleteNodeLabel { anno_ns, anno_name, .. } if anno_ns == "annis" && anno_name == "tok"));
            for x in &x {
                m.apply(x, &valid);
            }
            e.extend(x);
            if !expected_index(&m).1.is_empty() {
                ctx.count("skipped_unconnected_coverage", 1);
                return Ok(());
            }
            cuts.push(e.len());
        }
        cuts.extend(0..initial);
        if !few_paths(&m) {
            ctx.count("skipped_too_many_paths", 1);
            return Ok(());
        }
        models.insert(c.clone(), m);
        evs.push(e);
        allowed.push(cuts);
    }
    let p = Pools::new(&models[&corpora[0]]);
    let mut queries: Vec<String> = (0..if large { 4 } else { 5 }).map(|_| gen_query(rng, &p, if large { 2 } else { 3 }, true).text).collect();
    for q in ["tok", "node", "annis:node_type=\"node\" . annis:node_type=\"node\"", "pos", "lemma _o_ tok", "node & node & #1 _i_ #2", "tok .1,4 tok", "tok | tok . tok", "node _o_ node | node", "tok .1,3 tok . tok | tok .1,3 tok | tok"] {
        if rng.chance(30) {
            queries.push(q.into());
        }
    }
    if large {
        // nested loops over optional nodes are very slow in large corpora
        queries.retain(|q| !q.contains('?'));
    }
    let mut stores = vec![];
    for k in 0..2 {
        let dir = scratch();
        let cfg = SCfg::random(rng);
        let cs = cfg.open(dir.path())?;
        for ((c, e), cuts) in corpora.iter().zip(&evs).zip(&allowed) {
            cs.create_empty_corpus(c, rng.chance(40)).map_err(serr)?;
            for part in split_at(rng, e, cuts, if k == 0 { 1 } else { 4 }) {
                apply(&cs, c, part)?;
            }
            if rng.chance(50) {
                cs.reoptimize_implementation(c, rng.chance(40)).map_err(serr)?;
            }
        }
        stores.push((dir, cs, cfg));
    }
    // derived facts per corpus
    let derived: BTreeMap<&String, (Derived, BTreeMap<String, String>)> = models
        .iter()
        .map(|(c, m)| {
            let d = derive(m);
            let left = d.covered.iter().filter_map(|(n, c)| c.iter().filter(|t| d.pos.contains_key(*t)).min_by_key(|t| d.pos[*t]).map(|t| (n.clone(), t.clone()))).collect();
            (c, (d, left))
        })
        .collect();
    for q in &queries {
        // the compatibility mode has an own order of documents and spelling of node names, but is consistent as well
        let quirks = rng.chance(20);
        let lang = || if quirks { QueryLanguage::AQLQuirksV3 } else { QueryLanguage::AQL };
        let mut normal: Option<Vec<String>> = None;
        for order in [ResultOrder::Normal, ResultOrder::Inverted, ResultOrder::NotSorted, ResultOrder::Randomized] {
            let k = rng.below(stores.len());
            let (_, cs, cfg) = &stores[k];
            let what = || format!("query `{q}` quirks={quirks} order={order:?} {cfg:?} corpora={corpora:?}: {}", tail(&evs.iter().flatten().map(|e| format!("{e:?}")).collect::<Vec<_>>()));
            let get = |off: usize, lim: Option<usize>| -> Result<Result<Vec<String>, String>, Violation> {
                match guarded(|| cs.find(sq(&corpora, q, lang(), None), off, lim, order).map_err(|e| e.to_string())) {
                    Err(x) => viol(format!("panic:{}", short_loc(&x.0)), format!("find offset={off} limit={lim:?}: {} {}", x.1, what())),
                    Ok(r) => Ok(r),
                }
            };
            if order == ResultOrder::Normal && cs.count(sq(&corpora, q, lang(), None)).unwrap_or(0) > if large { 800 } else { 200 } {
                ctx.count("skipped_large_results", 1);
                break;
            }
            let full = match get(0, None)? {
                Ok(f) => f,
                Err(_) => {
                    ctx.count("rejected_queries", 1);
                    break;
                }
            };
            ctx.count(if quirks { "full_lists_quirks_mode" } else { "full_lists" }, 1);
            ctx.max("largest_list", full.len() as u64);
            let ok = |r: Result<Vec<String>, String>, w: String| -> Result<Vec<String>, Violation> {
                match r {
                    Ok(r) => Ok(r),
                    Err(e) => viol("page-failed", format!("{w}: {e}")),
                }
            };
            let unique: std::collections::BTreeSet<&String> = full.iter().collect();
            // several alternatives can report the same match
            if !q.contains('|') {
                check!(unique.len() == full.len(), "duplicate-match", "{} of {} matches are different; {}", unique.len(), full.len(), what());
            }
            let count = cs.count(sq(&corpora, q, lang(), None)).map_err(serr)?;
            check!(count == full.len() as u64, "count-differs", "count {count}, {} results; {}", full.len(), what());
            match order {
                ResultOrder::Normal => {
                    // documented order
                    let mut sorted_corpora = corpora.clone();
                    sorted_corpora.sort();
                    let corpus_of = |l: &str| -> usize {
                        let n = nodes_of(l);
                        let c = n[0].split(['/', '#']).next().unwrap_or("").to_string();
                        sorted_corpora.iter().position(|x| *x == c).unwrap_or(usize::MAX)
                    };
                    for w in full.windows(2).take(if quirks { 0 } else { usize::MAX }) {
                        let (a, b) = (corpus_of(&w[0]), corpus_of(&w[1]));
                        check!(a <= b, "corpora-mixed", "{:?} before {:?}; {}", w[0], w[1], what());
                        if a != b {
                            continue;
                        }
                        let (d, left) = &derived[&sorted_corpora[a]];
                        let (x, y) = (nodes_of(&w[0]), nodes_of(&w[1]));
                        let mut decided = false;
                        for (i, (n1, n2)) in x.iter().zip(&y).enumerate() {
                            match node_cmp(d, left, n1, n2) {
                                Some(Ordering::Less) => {
                                    decided = true;
                                    break;
                                }
                                Some(Ordering::Greater) => return viol("not-sorted", format!("{:?} before {:?} ({n1} and {n2}); {}", w[0], w[1], what())),
                                _ if n1 == n2 => {
                                    // different annotations of one node
                                    if w[0].split(' ').nth(i) != w[1].split(' ').nth(i) {
                                        break;
                                    }
                                }
                                _ => break,
                            }
                        }
                        // matches with more nodes precede shorter ones with the same nodes
                        let (l1, l2): (Vec<&str>, Vec<&str>) = (w[0].split(' ').collect(), w[1].split(' ').collect());
                        if l1.len() < l2.len() && l2.starts_with(&l1) {
                            return viol("shorter-match-first", format!("{:?} before {:?}; {}", w[0], w[1], what()));
                        }
                        ctx.count(if l2.len() < l1.len() && l1.starts_with(&l2) { "adjacent_pairs_of_different_size" } else if decided { "adjacent_pairs_ordered" } else { "adjacent_pairs_open" }, 1);
                    }
                    // a node does not appear in several separated positions: equal first columns are adjacent
                    let mut seen = std::collections::BTreeSet::new();
                    let mut prev = "";
                    for l in &full {
                        let first = l.split(' ').next().unwrap_or("");
                        if first != prev {
                            check!(seen.insert(first), "first-node-not-grouped", "{first} appears at separate positions; {}", what());
                        }
                        prev = first;
                    }
                    // texts are not interleaved
                    for cn in corpora.iter().take(if quirks { 0 } else { usize::MAX }) {
                        let (d, left) = &derived[cn];
                        let mut last = None;
                        let mut seen = std::collections::BTreeSet::new();
                        for l in &full {
                            let n = nodes_of(l);
                            let key = left.get(&n[0]).and_then(|t| d.pos.get(t)).map(|x| x.0);
                            if n[0].split(['/', '#']).next() != Some(cn) {
                                continue;
                            }
                            if last != Some(key) {
                                if key.is_some() {
                                    check!(seen.insert(key), "texts-interleaved", "{l} (text {key:?}) is separated from the other matches in this text; {}", what());
                                }
                                last = Some(key);
                            }
                        }
                        ctx.max("texts_with_matches", seen.len() as u64);
                    }
                    normal = Some(full.clone());
                    for _ in 0..2 {
                        let again = ok(get(0, None)?, what())?;
                        check!(again == full, "order-not-stable", "{} {}", diff(&full, &again), what());
                    }
                    let other = &stores[1 - k].1;
                    if let Ok(o) = find(other, &corpora, q, lang(), order) {
                        check!(o == full, "order-depends-on-configuration", "{} {}", diff(&full, &o), what());
                    }
                }
                ResultOrder::Inverted => {
                    let mut r = full.clone();
                    r.reverse();
                    let n = normal.as_ref().unwrap();
                    check!(*n == r, "inverted-is-not-the-reverse", "{} {}", diff(n, &r), what());
                }
                _ => {
                    let (mut a, mut b) = (full.clone(), normal.clone().unwrap());
                    a.sort();
                    b.sort();
                    check!(a == b, "not-a-permutation", "{} {}", diff(&b, &a), what());
                }
            }
            if full.len() > 1 {
                ctx.distinct(&format!("{q}#{order:?}#{}", models[&corpora[0]].fingerprint()));
            }
            // pages
            if matches!(order, ResultOrder::Randomized | ResultOrder::NotSorted) {
                // a page is any selection of the matches
                for (off, lim) in [(0, Some(2)), (1, None), (full.len(), Some(3)), (full.len() / 2, Some(full.len()))] {
                    let pg = ok(get(off, lim)?, what())?;
                    let exp = full.len().saturating_sub(off).min(lim.unwrap_or(usize::MAX));
                    check!(pg.len() == exp, "page-size", "offset={off} limit={lim:?}: {} of {} results; {}", pg.len(), full.len(), what());
                    let mut rest = full.clone();
                    for l in &pg {
                        let i = rest.iter().position(|x| x == l);
                        check!(i.is_some(), "page-content", "offset={off} limit={lim:?}: {l} is not (that often) a result; {}", what());
                        rest.swap_remove(i.unwrap());
                    }
                }
                continue;
            }
            let size = *rng.pick(&[1, 2, 3, 7, 10, 50]);
            let size = size.max(full.len().div_ceil(8));
            let mut all = vec![];
            let mut off = 0;
            while off < full.len() {
                let pg = ok(get(off, Some(size))?, what())?;
                ctx.count("pages", 1);
                check!(pg.len() == size.min(full.len() - off), "page-size", "offset={off} limit={size}: {} of {} results; {}", pg.len(), full.len(), what());
                all.extend(pg);
                off += size;
            }
            check!(all == full, "pages-differ", "page size {size}: {} {}", diff(&full, &all), what());
            for _ in 0..3 {
                let off = *rng.pick(&[0, 1, full.len() / 2, full.len().saturating_sub(1), full.len(), full.len() + 1, full.len() + 1000, usize::MAX, usize::MAX - 1]);
                let lim = *rng.pick(&[None, None, Some(0), Some(1), Some(full.len()), Some(full.len() + 1), Some(1 << 40), Some(usize::MAX), Some(usize::MAX - 1)]);
                let pg = ok(get(off, lim)?, what())?;
                let a = off.min(full.len());
                let b = a.saturating_add(lim.unwrap_or(usize::MAX)).min(full.len());
                check!(pg[..] == full[a..b], "page-differs", "offset={off} limit={lim:?}: {} {}", diff(&full[a..b], &pg), what());
                ctx.count("pages", 1);
            }
        }
        ctx.count("queries", 1);
        ctx.sample(json!({"query": q, "results": normal.as_ref().map(|n| n.len()), "first": normal.as_ref().map(|n| n.iter().take(3).cloned().collect::<Vec<_>>())}));
    }
    Ok(())
}

fn diff(a: &[String], b: &[String]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("lengths {} and {}, first difference at {i}: {:?} / {:?};", a.len(), b.len(), a.iter().skip(i).take(3).collect::<Vec<_>>(), b.iter().skip(i).take(3).collect::<Vec<_>>())
}
