//! C03: DiskMap == sorted map.
use crate::rt::*;
use graphannis_core::serializer::KeySerializer;
use graphannis_core::types::Edge;
use graphannis_core::util::disk_collections::{DiskMap, EvictionStrategy};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::json;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::ops::Bound;
use transient_btree_index::BtreeConfig;

pub trait Key: KeySerializer + Serialize + DeserializeOwned + Clone + Send + Sync + Ord + Debug + 'static {
    fn pick(rng: &mut Rng, n: usize) -> Self;
    const FIXED: Option<usize>;
}
impl Key for u64 {
    fn pick(rng: &mut Rng, n: usize) -> Self {
        let i = rng.below(n) as u64;
        match i % 4 {
            0 => i,
            1 => i << 8,
            2 => i << 32,
            _ => u64::MAX - i,
        }
    }
    const FIXED: Option<usize> = Some(8);
}
impl Key for u32 {
    fn pick(rng: &mut Rng, n: usize) -> Self {
        let i = rng.below(n) as u32;
        if i % 2 == 0 { i } else { i << 16 }
    }
    const FIXED: Option<usize> = Some(4);
}
impl Key for String {
    fn pick(rng: &mut Rng, n: usize) -> Self {
        let i = rng.below(n);
        match i % 7 {
            0 => "\u{0}".into(),
            1 => "a".repeat(i),
            2 => format!("a{}", i),
            3 => format!("\u{e4}{}", i),
            4 => format!("\u{10FFFF}{i}"),
            5 => format!("{i}\u{0}x"),
            _ => "long".repeat(200) + &i.to_string(),
        }
    }
    const FIXED: Option<usize> = None;
}
impl Key for Vec<u8> {
    fn pick(rng: &mut Rng, n: usize) -> Self {
        let i = rng.below(n);
        match i % 5 {
            0 => vec![0],
            1 => vec![0; i.max(1)],
            2 => vec![255; 1 + i % 9],
            3 => vec![1, i as u8, 0],
            _ => vec![i as u8; 1 + i % 3],
        }
    }
    const FIXED: Option<usize> = None;
}
impl Key for Edge {
    fn pick(rng: &mut Rng, n: usize) -> Self {
        Edge { source: u64::pick(rng, n / 3 + 1), target: u64::pick(rng, 6) }
    }
    const FIXED: Option<usize> = Some(16);
}

pub fn run(ctx: &mut Ctx) {
    let n = ctx.n(1500, 40000);
    ctx.cases("u64", n, |c, r| history::<u64>(c, r));
    ctx.cases("u32", n / 2, |c, r| history::<u32>(c, r));
    ctx.cases("string", n, |c, r| history::<String>(c, r));
    ctx.cases("bytes", n, |c, r| history::<Vec<u8>>(c, r));
    ctx.cases("edge", n / 2, |c, r| history::<Edge>(c, r));
}

fn err(e: impl std::fmt::Display, log: &[String]) -> Violation {
    Violation { sig: "map-error".into(), detail: format!("{e}; operations: {}", crate::c01::tail(log)) }
}

fn config<K: Key>(rng: &mut Rng) -> BtreeConfig {
    let mut c = BtreeConfig::default();
    if let (Some(n), true) = (K::FIXED, rng.chance(50)) {
        c = c.fixed_key_size(n);
    }
    c
}

fn history<K: Key>(ctx: &mut Ctx, rng: &mut Rng) -> Case {
    let n = *rng.pick(&[3, 6, 12, 40, 300]);
    let evict = *rng.pick(&[1, 2, 3, 5, 10, 10_000]);
    let cache = *rng.pick(&[0, 4096, 1 << 20]);
    let c = config::<K>(rng);
    let mut d: DiskMap<K, String> = DiskMap::new_temporary(EvictionStrategy::MaximumItems(evict), cache, c);
    let mut m: BTreeMap<K, String> = BTreeMap::new();
    let mut dir = None;
    let mut log = vec![format!("evict={evict}")];
    let nops = if n >= 40 { rng.range(50, 400) } else { rng.range(3, 60) };
    let (mut removed_from_disk, mut reopened) = (0, 0);
    let p_remove = *rng.pick(&[5, 20, 40]);
    for i in 0..nops {
        let k = K::pick(rng, n);
        if rng.chance(p_remove) {
            log.push(format!("remove {k:?}"));
            let got = d.remove(&k).map_err(|e| err(e, &log))?;
            let exp = m.remove(&k);
            if got != exp {
                return viol("remove-result", format!("{got:?} instead of {exp:?}; operations: {}", crate::c01::tail(&log)));
            }
            removed_from_disk += (exp.is_some() && evict < 100) as u64;
        } else {
            match rng.below(100) {
                0..=79 => {
                    let v = if rng.chance(10) { "v".repeat(rng.below(5000)) } else { format!("{i}") };
                    log.push(format!("insert {k:?} ({} bytes)", v.len()));
                    d.insert(k.clone(), v.clone()).map_err(|e| err(e, &log))?;
                    m.insert(k, v);
                }
                80..=84 => {
                    log.push("compact".into());
                    d.compact().map_err(|e| err(e, &log))?;
                }
                85..=86 => {
                    log.push("clear".into());
                    d.clear();
                    m.clear();
                }
                87..=93 => {
                    log.push("write and reopen".into());
                    let t = scratch();
                    let p = t.path().join("sub").join("map.bin");
                    d.write_to(&p).map_err(|e| err(e, &log))?;
                    let c = config::<K>(rng);
                    d = DiskMap::new(Some(&p), EvictionStrategy::MaximumItems(evict), cache, c).map_err(|e| err(e, &log))?;
                    dir = Some(t);
                    reopened += 1;
                }
                _ => {}
            }
        }
        // point queries
        for _ in 0..2 {
            let k = K::pick(rng, n);
            let got = d.get(&k).map_err(|e| err(e, &log))?.map(|v| v.into_owned());
            if got.as_ref() != m.get(&k) {
                return viol("get", format!("get {k:?}: {got:?} instead of {:?}; operations: {}", m.get(&k), crate::c01::tail(&log)));
            }
            let has = d.contains_key(&k).map_err(|e| err(e, &log))?;
            if has != m.contains_key(&k) {
                return viol("contains-key", format!("contains_key {k:?}: {has}; operations: {}", crate::c01::tail(&log)));
            }
        }
        if rng.chance(20) {
            audit(&d, &m, n, rng, &log)?;
        }
    }
    audit(&d, &m, n, rng, &log)?;
    ctx.count("operations", nops as u64);
    ctx.count("removals_below_memory_level", removed_from_disk);
    ctx.count("reopened", reopened);
    ctx.max("max_entries", m.len() as u64);
    if !m.is_empty() {
        ctx.distinct(&format!("{log:?}"));
        ctx.sample(json!({"evict": evict, "operations": log.iter().take(12).collect::<Vec<_>>(), "final_entries": m.len()}));
    }
    drop(d);
    drop(dir);
    Ok(())
}

fn audit<K: Key>(d: &DiskMap<K, String>, m: &BTreeMap<K, String>, n: usize, rng: &mut Rng, log: &[String]) -> Case {
    let got: Result<Vec<_>, _> = d.iter().map_err(|e| err(e, log))?.collect();
    let got = got.map_err(|e| err(e, log))?;
    let exp: Vec<_> = m.clone().into_iter().collect();
    if got != exp {
        return viol("iter", format!("keys {:?} instead of {:?} (or different values); operations: {}", got.iter().map(|x| &x.0).collect::<Vec<_>>(), m.keys(), crate::c01::tail(log)));
    }
    let e = d.is_empty().map_err(|e| err(e, log))?;
    check!(e == m.is_empty(), "is-empty", "is_empty {e} with {} entries; operations: {}", m.len(), crate::c01::tail(log));
    for _ in 0..4 {
        let mut a = K::pick(rng, n);
        let mut b = K::pick(rng, n);
        if b < a {
            std::mem::swap(&mut a, &mut b);
        }
        if a == b && rng.chance(50) {
            continue;
        }
        let lo = match rng.below(3) {
            0 => Bound::Included(a.clone()),
            1 if a != b => Bound::Excluded(a.clone()),
            _ => Bound::Unbounded,
        };
        let hi = match rng.below(3) {
            0 => Bound::Included(b.clone()),
            1 => Bound::Excluded(b.clone()),
            _ => Bound::Unbounded,
        };
        let got: Result<Vec<_>, _> = d.range((lo.clone(), hi.clone())).collect();
        let got = got.map_err(|e| err(e, log))?;
        let exp: Vec<_> = m.range((lo.clone(), hi.clone())).map(|(k, v)| (k.clone(), v.clone())).collect();
        if got != exp {
            return viol("range", format!("range {lo:?}..{hi:?}: keys {:?} instead of {:?}; operations: {}", got.iter().map(|x| &x.0).collect::<Vec<_>>(), exp.iter().map(|x| &x.0).collect::<Vec<_>>(), crate::c01::tail(log)));
        }
    }
    Ok(())
}
