//! C02: label storages == map from (item, namespace, name) to value.
use crate::rt::*;
use graphannis_core::annostorage::{AnnotationStorage, Match, ValueSearch, inmemory, ondisk};
use graphannis_core::types::{AnnoKey, Annotation, Edge, NodeID};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

type Map<T> = BTreeMap<T, BTreeMap<(String, String), String>>;

const VALUES: &[&str] = &[
    "", "a", "b", "A", "ab", "abc", "abd", "a b", "\u{e4}", "\u{f6}", "\u{e4}x", "\u{f6}x", "Stra\u{df}e", "\u{1F600}", "\u{65e5}\u{672c}", "x\"y", "a\nb", "\u{10FFFF}", "\u{10FFFF}z", "a\u{10FFFF}b", "a\u{0}b", "a\u{0}", "\u{0}", "100", "99", ".", "a.c", "aaaa", "zzz", "\u{7f}",
];
const PATTERNS: &[&str] = &[
    "a", "a.*", ".*", "a|b", "[ab]", "ab?c?", "\u{e4}|\u{f6}", "[\u{e4}\u{f6}]", "[\u{e4}\u{f6}]x", "(a|ab)(c|d)?", "a\\.c", ".+", "", "(?i)a", "[^a]*", "a{4}", "\\p{L}+", "x.*|y.*", "ab.", ".b.*", "\u{e4}.*", "(", "[", "*", "\\d+", "a$", "^a", "(?s).*", "a\u{10FFFF}.*", "abc|abd",
];

pub fn run(ctx: &mut Ctx) {
    let n = ctx.n(700, 30000);
    ctx.cases("node-mem", n, |c, r| history::<NodeID>(c, r, false));
    ctx.cases("edge-mem", n / 2, |c, r| history::<Edge>(c, r, false));
    ctx.cases("node-disk", n, |c, r| history::<NodeID>(c, r, true));
    ctx.cases("edge-disk", n / 2, |c, r| history::<Edge>(c, r, true));
}

pub trait Item: Ord + Clone + Debug + Default + Send + Sync + 'static {
    fn pool(rng: &mut Rng) -> Vec<Self>;
    fn node(&self) -> NodeID;
    fn make(disk: bool) -> Box<dyn AnnotationStorage<Self>>;
    fn open(path: std::path::PathBuf) -> Result<Box<dyn AnnotationStorage<Self>>, String>;
}
impl Item for NodeID {
    fn pool(rng: &mut Rng) -> Vec<Self> {
        let big = [255, 256, 65535, 65536, 1 << 32, u64::MAX - 1];
        (0..rng.range(2, 10)).map(|i| if rng.chance(15) { *rng.pick(&big) } else { i as u64 }).collect()
    }
    fn node(&self) -> NodeID {
        *self
    }
    fn make(disk: bool) -> Box<dyn AnnotationStorage<Self>> {
        if disk { Box::new(ondisk::AnnoStorageImpl::<NodeID>::new(None).expect("new")) } else { Box::new(inmemory::AnnoStorageImpl::<NodeID>::new()) }
    }
    fn open(path: std::path::PathBuf) -> Result<Box<dyn AnnotationStorage<Self>>, String> {
        ondisk::AnnoStorageImpl::<NodeID>::new(Some(path)).map(|x| Box::new(x) as Box<dyn AnnotationStorage<Self>>).map_err(|e| e.to_string())
    }
}
impl Item for Edge {
    fn pool(rng: &mut Rng) -> Vec<Self> {
        (0..rng.range(2, 10)).map(|_| Edge { source: *rng.pick(&[0, 1, 2, 256, 1 << 40]), target: *rng.pick(&[0, 1, 2, 3, 257]) }).collect()
    }
    fn node(&self) -> NodeID {
        self.source
    }
    fn make(disk: bool) -> Box<dyn AnnotationStorage<Self>> {
        if disk { Box::new(ondisk::AnnoStorageImpl::<Edge>::new(None).expect("new")) } else { Box::new(inmemory::AnnoStorageImpl::<Edge>::new()) }
    }
    fn open(path: std::path::PathBuf) -> Result<Box<dyn AnnotationStorage<Self>>, String> {
        ondisk::AnnoStorageImpl::<Edge>::new(Some(path)).map(|x| Box::new(x) as Box<dyn AnnotationStorage<Self>>).map_err(|e| e.to_string())
    }
}

fn err(e: impl std::fmt::Display) -> Violation {
    Violation { sig: "storage-error".into(), detail: e.to_string() }
}

fn history<T: Item>(ctx: &mut Ctx, rng: &mut Rng, disk: bool) -> Case {
    let pool = T::pool(rng);
    let mut keys = BTreeSet::new();
    for _ in 0..rng.range(1, 6) {
        keys.insert((rng.pick(&["", "n", "ns", "ns2", "\u{e4}", "annis"]).to_string(), rng.pick(&["p", "pos", "pos2", "po", "lemma", "\u{f6}"]).to_string()));
    }
    let keys: Vec<_> = keys.into_iter().collect();
    let mut values = vec![];
    for _ in 0..rng.range(1, 8) {
        values.push(rng.pick(VALUES).to_string());
    }
    let mut s = T::make(disk);
    let mut m: Map<T> = Map::new();
    let mut log: Vec<String> = vec![];
    let mut dirs = vec![];
    let nops = rng.range(3, 60);
    let wrap = |v: Violation, log: &[String]| Violation { sig: v.sig, detail: format!("{}; operations: {}", v.detail, crate::c01::tail(log)) };
    for _ in 0..nops {
        let it = rng.pick(&pool).clone();
        let k = rng.pick(&keys).clone();
        let key = AnnoKey { ns: k.0.clone(), name: k.1.clone() };
        match rng.below(100) {
            0..=61 => {
                let v = rng.pick(&values).clone();
                log.push(format!("insert {it:?} {k:?}={v:?}"));
                s.insert(it.clone(), Annotation { key, val: v.clone() }).map_err(|e| wrap(err(e), &log))?;
                m.entry(it).or_default().insert(k, v);
            }
            62..=80 => {
                log.push(format!("remove {it:?} {k:?}"));
                let got = s.remove_annotation_for_item(&it, &key).map_err(|e| wrap(err(e), &log))?.map(|x| x.to_string());
                let exp = m.get_mut(&it).and_then(|l| l.remove(&k));
                if got != exp {
                    return viol("remove-result", format!("remove returned {got:?} instead of {exp:?}; operations: {}", crate::c01::tail(&log)));
                }
            }
            81..=90 => {
                log.push(format!("remove_item {it:?}"));
                let got = s.remove_item(&it).map_err(|e| wrap(err(e), &log))?;
                let exp = m.remove(&it).is_some_and(|l| !l.is_empty());
                if got != exp {
                    return viol("remove-result", format!("remove_item returned {got:?} instead of {exp:?}; operations: {}", crate::c01::tail(&log)));
                }
            }
            91..=92 => {
                log.push("clear".into());
                s.clear().map_err(|e| wrap(err(e), &log))?;
                m.clear();
                ctx.count("clear", 1);
            }
            93..=95 => {
                log.push("calculate_statistics".into());
                s.calculate_statistics().map_err(|e| wrap(err(e), &log))?;
                guesses(&*s, &m, rng).map_err(|e| wrap(e, &log))?;
                ctx.count("statistics", 1);
            }
            _ => {
                let d = scratch();
                s.save_annotations_to(d.path()).map_err(|e| wrap(err(e), &log))?;
                let mut s2 = if disk && rng.chance(50) {
                    log.push("save and open".into());
                    T::open(d.path().join(ondisk::SUBFOLDER_NAME)).map_err(|e| wrap(err(e), &log))?
                } else {
                    log.push("save and load".into());
                    let mut s2 = T::make(disk);
                    if rng.chance(30) {
                        // loading replaces old content
                        s2.insert(it.clone(), Annotation { key: key.clone(), val: "old".into() }).map_err(|e| wrap(err(e), &log))?;
                        if disk {
                            s2 = T::make(disk);
                        }
                    }
                    s2.load_annotations_from(d.path()).map_err(|e| wrap(err(e), &log))?;
                    s2
                };
                std::mem::swap(&mut s, &mut s2);
                // the old storage must not depend on the saved one
                audit(&*s2, &m, &pool, &keys, &values, rng).map_err(|e| wrap(e, &log))?;
                dirs.push(d);
                ctx.count("save_load", 1);
            }
        }
        if rng.chance(12) {
            audit(&*s, &m, &pool, &keys, &values, rng).map_err(|e| wrap(e, &log))?;
        }
    }
    audit(&*s, &m, &pool, &keys, &values, rng).map_err(|e| wrap(e, &log))?;
    ctx.count("operations", nops as u64);
    let n: usize = m.values().map(|l| l.len()).sum();
    ctx.max("max_labels", n as u64);
    if n > 0 {
        ctx.distinct(&format!("{disk}{log:?}"));
        ctx.sample(json!({"disk": disk, "operations": log.iter().take(10).collect::<Vec<_>>(), "final_labels": n}));
    }
    drop(s);
    Ok(())
}

fn guesses<T: Item>(s: &dyn AnnotationStorage<T>, m: &Map<T>, rng: &mut Rng) -> Case {
    let all: BTreeSet<(String, String)> = m.values().flat_map(|l| l.keys().cloned()).collect();
    for (ns, name) in all {
        let total = m.values().filter(|l| l.contains_key(&(ns.clone(), name.clone()))).count();
        let p = *rng.pick(PATTERNS);
        let g = s.guess_max_count_regex(Some(&ns), &name, p).map_err(err)?;
        check!(g <= total, "estimate-too-large", "estimated {g} of {total} labels for pattern {p:?}");
        let g = s.guess_max_count(Some(&ns), &name, "", "\u{10FFFF}").map_err(err)?;
        check!(g <= total, "estimate-too-large", "estimated {g} of {total} labels");
        if let Some(v) = s.guess_most_frequent_value(Some(&ns), &name).map_err(err)? {
            check!(m.values().any(|l| l.get(&(ns.clone(), name.clone())).map(|x| x.as_str()) == Some(&*v)), "most-frequent-not-existing", "{v:?} is not a value of {ns}:{name}");
        }
    }
    Ok(())
}

fn collect(it: impl Iterator<Item = graphannis_core::errors::Result<Match>>) -> Result<Vec<(NodeID, String, String)>, Violation> {
    let mut r = vec![];
    for x in it {
        let x = x.map_err(err)?;
        r.push((x.node, x.anno_key.ns.clone(), x.anno_key.name.clone()));
    }
    r.sort();
    Ok(r)
}

pub fn audit<T: Item>(s: &dyn AnnotationStorage<T>, m: &Map<T>, pool: &[T], keys: &[(String, String)], values: &[String], rng: &mut Rng) -> Case {
    let total: usize = m.values().map(|l| l.len()).sum();
    let n = s.number_of_annotations().map_err(err)?;
    check!(n == total, "number-of-annotations", "{n} instead of {total}");
    check!(s.is_empty().map_err(err)? == (total == 0), "is-empty", "is_empty wrong with {total} labels");
    let all: BTreeSet<(String, String)> = m.values().flat_map(|l| l.keys().cloned()).collect();
    let mut got: Vec<_> = s.annotation_keys().map_err(err)?.into_iter().map(|k| (k.ns, k.name)).collect();
    got.sort();
    check!(got == all.iter().cloned().collect::<Vec<_>>(), "annotation-keys", "keys {got:?} instead of {all:?}");
    if total > 0 {
        let max = m.iter().filter(|(_, l)| !l.is_empty()).map(|(k, _)| k.clone()).max().unwrap();
        let l = s.get_largest_item().map_err(err)?;
        check!(l.as_ref().is_some_and(|l| *l >= max), "largest-item", "largest item {l:?} but {max:?} exists");
    }
    let empty = BTreeMap::new();
    let mut names: BTreeSet<String> = keys.iter().map(|k| k.1.clone()).collect();
    names.insert("po".into());
    for it in pool {
        let exp = m.get(it).unwrap_or(&empty);
        let mut got: Vec<_> = s.get_annotations_for_item(it).map_err(err)?.into_iter().map(|a| ((a.key.ns, a.key.name), a.val)).collect();
        got.sort();
        check!(got == exp.clone().into_iter().collect::<Vec<_>>(), "labels-of-item", "labels of {it:?}: {got:?} instead of {exp:?}");
        let mut got: Vec<_> = s.get_all_keys_for_item(it, None, None).map_err(err)?.into_iter().map(|k| (k.ns.clone(), k.name.clone())).collect();
        got.sort();
        check!(got == exp.keys().cloned().collect::<Vec<_>>(), "keys-of-item", "keys of {it:?}: {got:?} instead of {:?}", exp.keys());
        for name in &names {
            let mut got: Vec<_> = s.get_all_keys_for_item(it, None, Some(name)).map_err(err)?.into_iter().map(|k| (k.ns.clone(), k.name.clone())).collect();
            got.sort();
            let e: Vec<_> = exp.keys().filter(|k| &k.1 == name).cloned().collect();
            check!(got == e, "keys-of-item", "keys of {it:?} with name {name:?}: {got:?} instead of {e:?}");
        }
        for k in keys {
            let key = AnnoKey { ns: k.0.clone(), name: k.1.clone() };
            let got = s.get_value_for_item(it, &key).map_err(err)?.map(|v| v.to_string());
            check!(got.as_ref() == exp.get(k), "value-of-item", "value of {it:?} {k:?}: {got:?} instead of {:?}", exp.get(k));
            let has = s.has_value_for_item(it, &key).map_err(err)?;
            check!(has == exp.contains_key(k), "has-value", "has_value of {it:?} {k:?}: {has}");
            let got = s.get_all_keys_for_item(it, Some(&k.0), Some(&k.1)).map_err(err)?;
            check!(got.len() == exp.contains_key(k) as usize, "keys-of-item", "qualified keys of {it:?} {k:?}: {got:?}");
        }
    }
    // items with matching keys
    let items: Vec<T> = { let mut v = pool.to_vec(); rng.shuffle(&mut v); v };
    for name in &names {
        let it = items.clone().into_iter().map(Ok);
        let got = collect(s.get_keys_for_iterator(None, Some(name), Box::new(it)).map_err(err)?.into_iter().map(Ok))?;
        let mut exp: Vec<_> = items.iter().flat_map(|i| m.get(i).into_iter().flat_map(|l| l.keys()).filter(|k| &k.1 == name).map(|k| (i.node(), k.0.clone(), k.1.clone()))).collect();
        exp.sort();
        check!(got == exp, "keys-for-iterator", "name {name:?}: {got:?} instead of {exp:?}");
    }
    let got = collect(s.get_keys_for_iterator(None, None, Box::new(items.clone().into_iter().map(Ok))).map_err(err)?.into_iter().map(Ok))?;
    let mut exp: Vec<_> = items.iter().flat_map(|i| m.get(i).into_iter().flat_map(|l| l.keys()).map(|k| (i.node(), k.0.clone(), k.1.clone()))).collect();
    exp.sort();
    check!(got == exp, "keys-for-iterator", "all: {got:?} instead of {exp:?}");
    for k in keys {
        let got = collect(s.get_keys_for_iterator(Some(&k.0), Some(&k.1), Box::new(items.clone().into_iter().map(Ok))).map_err(err)?.into_iter().map(Ok))?;
        let mut exp: Vec<_> = items.iter().filter(|i| m.get(i).is_some_and(|l| l.contains_key(k))).map(|i| (i.node(), k.0.clone(), k.1.clone())).collect();
        exp.sort();
        check!(got == exp, "keys-for-iterator", "{k:?}: {got:?} instead of {exp:?}");
    }
    // searches
    let select = |ns: Option<&str>, name: &str, f: &dyn Fn(&str) -> bool| -> Vec<(NodeID, String, String)> {
        let mut r: Vec<_> = m
            .iter()
            .flat_map(|(i, l)| l.iter().filter(|(k, v)| k.1 == name && ns.is_none_or(|ns| ns == k.0) && f(v)).map(|(k, _)| (i.node(), k.0.clone(), k.1.clone())))
            .collect();
        r.sort();
        r
    };
    let mut nss: Vec<Option<String>> = keys.iter().map(|k| Some(k.0.clone())).collect();
    nss.sort();
    nss.dedup();
    nss.push(None);
    nss.push(Some("nope".into()));
    let mut vals: BTreeSet<String> = values.iter().cloned().collect();
    vals.insert(rng.pick(VALUES).to_string());
    for name in &names {
        let got = s.get_qnames(name).map_err(err)?.into_iter().map(|k| (k.ns, k.name)).collect::<BTreeSet<_>>();
        let exp: BTreeSet<_> = all.iter().filter(|k| &k.1 == name).cloned().collect();
        check!(got == exp, "qnames", "qualified names of {name:?}: {got:?} instead of {exp:?}");
        for ns in &nss {
            let ns = ns.as_deref();
            let exp = select(ns, name, &|_| true);
            let c = s.number_of_annotations_by_name(ns, name).map_err(err)?;
            check!(c == exp.len(), "count-by-name", "{ns:?}:{name}: {c} instead of {}", exp.len());
            let got = collect(s.exact_anno_search(ns, name, ValueSearch::Any))?;
            check!(got == exp, "search-any", "{ns:?}:{name}: {got:?} instead of {exp:?}");
            for v in &vals {
                let got = collect(s.exact_anno_search(ns, name, ValueSearch::Some(v)))?;
                let exp = select(ns, name, &|x| x == v);
                check!(got == exp, "search-value", "{ns:?}:{name}={v:?}: {got:?} instead of {exp:?}");
                let got = collect(s.exact_anno_search(ns, name, ValueSearch::NotSome(v)))?;
                let exp = select(ns, name, &|x| x != v);
                check!(got == exp, "search-not-value", "{ns:?}:{name}!={v:?}: {got:?} instead of {exp:?}");
            }
            for _ in 0..rng.below(3) {
                let p = *rng.pick(PATTERNS);
                if let Ok(re) = regex::Regex::new(p) {
                    // whole value match, decided with a wrapped copy of the pattern
                    let full = regex::Regex::new(&format!("^(?:{p})$")).expect("pattern");
                    drop(re);
                    let exp = select(ns, name, &|x| full.is_match(x));
                    let got = collect(s.regex_anno_search(ns, name, p, false))?;
                    check!(got == exp, "search-regex", "{ns:?}:{name}=/{p}/: {got:?} instead of {exp:?}");
                    let exp = select(ns, name, &|x| !full.is_match(x));
                    let got = collect(s.regex_anno_search(ns, name, p, true))?;
                    check!(got == exp, "search-not-regex", "{ns:?}:{name}!=/{p}/: {got:?} instead of {exp:?}");
                } else {
                    let got = collect(s.regex_anno_search(ns, name, p, false))?;
                    check!(got.is_empty(), "search-invalid-regex", "{p:?} finds {got:?}");
                }
            }
        }
    }
    for k in keys {
        let key = AnnoKey { ns: k.0.clone(), name: k.1.clone() };
        let mut freq: BTreeMap<String, usize> = BTreeMap::new();
        for l in m.values() {
            if let Some(v) = l.get(k) {
                *freq.entry(v.clone()).or_default() += 1;
            }
        }
        let mut got: Vec<_> = s.get_all_values(&key, false).map_err(err)?.into_iter().map(|v| v.to_string()).collect();
        got.sort();
        check!(got == freq.keys().cloned().collect::<Vec<_>>(), "all-values", "{k:?}: {got:?} instead of {freq:?}");
        let got: Vec<_> = s.get_all_values(&key, true).map_err(err)?.into_iter().map(|v| v.to_string()).collect();
        let mut sorted = got.clone();
        sorted.sort();
        check!(sorted == freq.keys().cloned().collect::<Vec<_>>(), "all-values", "{k:?} by frequency: {got:?} instead of {freq:?}");
        check!(got.windows(2).all(|w| freq[&w[0]] >= freq[&w[1]]), "most-frequent-first", "{k:?}: {got:?} is not ordered by descending frequency {freq:?}");
    }
    Ok(())
}
