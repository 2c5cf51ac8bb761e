//! Helpers for checks that use the corpus storage.
use crate::gmodel::*;
use crate::rt::*;
use graphannis::CorpusStorage;
use graphannis::corpusstorage::{CacheStrategy, QueryLanguage, ResultOrder, SearchQuery};
use graphannis_core::graph::update::UpdateEvent;
use std::path::Path;
use std::time::Duration;

pub fn serr(e: impl std::fmt::Display) -> Violation {
    Violation { sig: "storage-operation-failed".into(), detail: e.to_string() }
}

#[derive(Clone, Debug)]
pub struct SCfg {
    pub parallel: bool,
    pub cache: usize,
    pub percent: bool,
}
impl SCfg {
    pub fn random(rng: &mut Rng) -> SCfg {
        SCfg { parallel: rng.chance(50), cache: *rng.pick(&[0, 0, 1, 1000]), percent: rng.chance(25) }
    }
    pub fn open(&self, dir: &Path) -> Result<CorpusStorage, Violation> {
        let s = if self.percent { CacheStrategy::PercentOfFreeMemory(if self.cache == 0 { 0.0 } else { 25.0 }) } else { CacheStrategy::FixedMaxMemory(self.cache) };
        CorpusStorage::with_cache_strategy(dir, s, self.parallel).map_err(serr)
    }
}

pub fn sq<'a, S: AsRef<str>>(corpora: &'a [S], query: &'a str, lang: QueryLanguage, timeout: Option<Duration>) -> SearchQuery<'a, S> {
    SearchQuery { corpus_names: corpora, query, query_language: lang, timeout }
}

pub fn find(cs: &CorpusStorage, corpora: &[String], q: &str, lang: QueryLanguage, order: ResultOrder) -> Result<Vec<String>, String> {
    cs.find(sq(corpora, q, lang, None), 0, None, order).map_err(|e| e.to_string())
}

pub fn apply(cs: &CorpusStorage, corpus: &str, evs: &[UpdateEvent]) -> Case {
    let mut u = events_to_update(evs);
    cs.apply_update(corpus, &mut u).map_err(serr)
}

/// Split into 1..=max parts
pub fn split<'a, T>(rng: &mut Rng, v: &'a [T], max: usize) -> Vec<&'a [T]> {
    let mut cuts: Vec<usize> = (0..rng.below(max)).map(|_| rng.below(v.len() + 1)).collect();
    cuts.push(0);
    cuts.push(v.len());
    cuts.sort();
    cuts.windows(2).map(|w| &v[w[0]..w[1]]).collect()
}

/// Split at some of the allowed positions into 1..=max parts
pub fn split_at<'a, T>(rng: &mut Rng, v: &'a [T], allowed: &[usize], max: usize) -> Vec<&'a [T]> {
    let mut cuts: Vec<usize> = (0..rng.below(max)).map(|_| *rng.pick(allowed)).collect();
    cuts.push(0);
    cuts.push(v.len());
    cuts.sort();
    cuts.windows(2).map(|w| &v[w[0]..w[1]]).collect()
}
