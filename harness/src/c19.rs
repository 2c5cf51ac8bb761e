//! C19: any query text is answered or rejected with an error.
use crate::aql::*;
use crate::c01::tail;
use crate::c05::few_paths;
use crate::c09::valid;
use crate::c20::hostile_graph;
use crate::corpus::*;
use crate::gmodel::*;
use crate::rt::*;
use crate::store::*;
use graphannis::CorpusStorage;
use graphannis::corpusstorage::{FrequencyDefEntry, QueryLanguage, ResultOrder};
use graphannis::errors::{AQLError, GraphAnnisError};
use serde_json::json;
use std::time::Duration;

pub fn run(ctx: &mut Ctx) {
    crate::c20::limit_memory(5);
    ctx.cases("queries", ctx.n(500, 30000), query_case);
    ctx.cases("boolean", ctx.n(150, 6000), boolean_case);
    ctx.cases("large", ctx.n(24, 200), large_case);
}

const TOKENS: &[&str] = &[
    "tok", "node", "#1", "#2", "#3", "#x", "x#", "y#", "&", "|", "(", ")", ".", ".*", ".2", ".1,3", ".0", ".s,2", "^", "^*", "^3", "_=_", "_ident_", "_o_", "_i_", "_l_", "_r_", ">", ">*", ">dep", ">2,3", "->dep", "->dep *",
    "->p 2", "@", "@*", "@2", "==", "!=", "!", "?", "=", "\"a\"", "\"\"", "/a/", "/a.*/", "/(/", "/[/", "/\\//", "/a{2,1}/", "pos", "annis:doc", "annis:node_name", "a:b", ":arity=2", ":arity=1,3", ":", "meta::doc=\"d\"", "meta::a!=/x/", "[a=\"b\"]", "[a=/(/]", ",", "*", "0", "1", "%", "_", "-",
    "#0", "#99999999999999999999", ".99999999999999999999", ".18446744073709551615", ".1,18446744073709551615", ".18446744073709551615,0", "^0", "^18446744073709551615", ">0", ">18446744073709551615", ">0,0", "->dep 0", "->dep 0,18446744073709551615", "@0", "@18446744073709551615", ":arity=0", ":arity=99999999999999999999", ".5,2",
    "\n", "\t", "\r\n", "\u{a0}", "é", "𝄞", "\u{0}", "'", "`", ";", "\\",
];
const REGEXES: &[&str] = &[
    "(", "[", "a{2,1}", "*", "+", "?", "a**", "(?P<n>a)(?P<n>b)", "\\", "\\p{Foo}", "(?<=a)b", "\\1", "((a{100}){100}){100}", "a{99999}", "[z-a]", "(?i", "(?x) a # b", "(?s).*", ".*", "", "^a$", "a$", "^", "$", "\\b", "\\Aa\\z", "a|b", "|", "(|a)*", "(a*)*b", "(a+)+$",
    "[[:alpha:]]", "\\d+", "[^a]", "\\x{110000}", "\\u{41}", "[\\d--5]", "(?-u)\\xff", "(?i)A", "a\\/b", ".", "a?", "(?:a)", "[]", "[^]", "a{,2}", "\\Q(\\E", "[\u{0}-\u{10ffff}]", "é.", "(?R)", "\\w{1000}",
];

fn soup(rng: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..rng.range(0, 10) {
        s += *rng.pick(TOKENS);
        if rng.chance(70) {
            s.push(' ');
        }
    }
    s
}

fn mutate(rng: &mut Rng, q: &str) -> String {
    let mut c: Vec<char> = q.chars().collect();
    for _ in 0..rng.range(1, 4) {
        let i = rng.below(c.len() + 1);
        match rng.below(6) {
            0 if i < c.len() => {
                c.remove(i);
            }
            1 => {
                let t: Vec<char> = rng.pick(TOKENS).chars().collect();
                c.splice(i..i, t);
            }
            2 if !c.is_empty() => {
                let j = rng.below(c.len());
                let (a, b) = (i.min(j), i.max(j));
                let x: Vec<char> = c[a..b].to_vec();
                c.splice(i..i, x);
            }
            3 => c.truncate(i),
            4 if i < c.len() => {
                let t: Vec<char> = rng.pick(TOKENS).chars().collect();
                c.splice(i..i + 1, t);
            }
            _ if !c.is_empty() => {
                let (i, j) = (rng.below(c.len()), rng.below(c.len()));
                c.swap(i, j);
            }
            _ => {}
        }
    }
    c.into_iter().collect()
}

fn random_text(rng: &mut Rng) -> String {
    (0..rng.range(0, 40))
        .map(|_| match rng.below(4) {
            0 => char::from_u32(rng.below(0x250) as u32).unwrap_or('x'),
            1 => *rng.pick(&['"', '/', '#', '&', '|', '(', ')', '=', '!', '.', '>', '-', '^', '@', '_', '[', ']', ' ', '?', ':', ',', '*', '%', '\\', '\n']),
            2 => char::from_u32(rng.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
            _ => *rng.pick(&['a', 't', 'o', 'k', 'n', 'd', 'e', '1', '2', '0']),
        })
        .collect()
}

fn extreme(rng: &mut Rng) -> String {
    let n = |rng: &mut Rng| rng.pick(&["0", "1", "2", "5", "00", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551614", "18446744073709551615", "18446744073709551616", "99999999999999999999999999"]).to_string();
    let r = match rng.below(4) {
        0 => "*".to_string(),
        1 => n(rng),
        2 => format!(",{}", n(rng)),
        _ => format!("{},{}", n(rng), n(rng)),
    };
    let op = *rng.pick(&[".", "^", ">", "->dep ", "->p ", "@", ".s ", "^s ", ">dep "]);
    let neg = if rng.chance(25) { "!" } else { "" };
    let a = *rng.pick(&["node", "tok", "pos", "/.*/", "\"\"", "annis:node_type=\"corpus\""]);
    let b = *rng.pick(&["node", "tok", "pos", "tok=/.*/", "annis:doc"]);
    let b = if neg.is_empty() { b.to_string() } else { format!("{b}?") };
    if rng.chance(15) {
        return format!("node & #1:arity={r}");
    }
    format!("{a} {neg}{op}{r} {b}")
}

pub struct Outcome {
    pub valid: bool,
    pub timeout: bool,
    pub n: u64,
    pub error: String,
}

fn cpu() -> f64 {
    #[repr(C)]
    struct Ts(i64, i64);
    unsafe extern "C" {
        fn clock_gettime(c: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts(0, 0);
    unsafe { clock_gettime(2, &mut t) };
    t.0 as f64 + t.1 as f64 / 1e9
}

/// Largest memory use of the process in MB
fn peak_memory() -> u64 {
    let s = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
    s.lines().find_map(|l| l.strip_prefix("VmHWM:")).and_then(|l| l.trim().trim_end_matches("kB").trim().parse::<u64>().ok()).unwrap_or(0) / 1024
}

/// The position of an error is inside of the query
fn check_error(q: &str, e: &GraphAnnisError, what: &dyn Fn() -> String) -> Case {
    let (e, syntax): (&AQLError, bool) = match e {
        GraphAnnisError::AQLSyntaxError(e) => (e, true),
        GraphAnnisError::AQLSemanticError(e) => (e, false),
        _ => return Ok(()),
    };
    check!(!e.desc.is_empty(), "error-without-description", "{}", what());
    match &e.location {
        None => check!(!syntax, "error-without-location", "{e}; {}", what()),
        Some(l) => {
            let lines: Vec<&str> = q.split('\n').collect();
            let mut last = (0, 0);
            for p in [Some(&l.start), l.end.as_ref()].into_iter().flatten() {
                check!(p.line < lines.len() && p.column >= 1 && p.column <= lines[p.line].len() + 1, "error-location-outside", "{e}; {}", what());
                check!((p.line, p.column) >= last, "error-location-reversed", "{e}; {}", what());
                last = (p.line, p.column);
            }
        }
    }
    Ok(())
}

/// Execute everything that takes a query
pub fn execute(ctx: &mut Ctx, rng: &mut Rng, cs: &CorpusStorage, corpora: &[String], q: &str, lang: QueryLanguage, what: &dyn Fn() -> String) -> Result<Outcome, Violation> {
    let limit = Some(Duration::from_millis(1000));
    let started = cpu();
    let quirks = matches!(lang, QueryLanguage::AQLQuirksV3);
    let mut outcomes: Vec<(&str, Result<u64, GraphAnnisError>)> = vec![];
    macro_rules! go {
        ($name:expr, $e:expr) => {
            match guarded(|| $e) {
                Ok(r) => outcomes.push(($name, r)),
                Err((loc, msg)) => return viol(format!("panic:{}", short_loc(&loc)), format!("{}: panic at {loc}: {msg}; {}", $name, what())),
            }
        };
    }
    let parsed = match guarded(|| graphannis::aql::parse(q, quirks)) {
        Ok(r) => r.map(|_| 0).map_err(|e| e),
        Err((loc, msg)) => return viol(format!("panic:{}", short_loc(&loc)), format!("parse: panic at {loc}: {msg}; {}", what())),
    };
    if let Err(e) = &parsed {
        check_error(q, e, what)?;
    }
    go!("validate", cs.validate_query(corpora, q, lang).map(|_| 0));
    go!("plan", cs.plan(corpora, q, lang).map(|_| 0));
    go!("count", cs.count(sq(corpora, q, lang, limit)));
    let n = match &outcomes[2].1 {
        Ok(n) => *n,
        Err(_) => 0,
    };
    go!("count_extra", cs.count_extra(sq(corpora, q, lang, limit)).map(|c| c.match_count));
    let order = *rng.pick(&[ResultOrder::Normal, ResultOrder::Inverted, ResultOrder::NotSorted, ResultOrder::Randomized]);
    go!("find", cs.find(sq(corpora, q, lang, limit), 0, None, order).map(|r| r.len() as u64));
    let offset = rng.below(4);
    let page = rng.below(4);
    go!("find page", cs.find(sq(corpora, q, lang, limit), offset, Some(page), order).map(|r| r.len() as u64));
    // a definition without columns is valid for all queries
    go!("frequency", cs.frequency(sq(corpora, q, lang, limit), vec![]).map(|_| 0));
    let def: Vec<FrequencyDefEntry> = ["1:tok", "1:annis:node_name", "2:tok", "x:tok"].iter().take(rng.range(1, 4)).filter_map(|d| d.parse().ok()).collect();
    go!("frequency columns", cs.frequency(sq(corpora, q, lang, limit), def).map(|_| 0));
    go!("node descriptions", cs.node_descriptions(q, lang).map(|_| 0));
    if n <= 2000 && !outcomes.iter().any(|o| matches!(o.1, Err(GraphAnnisError::Timeout))) {
        go!("subgraph", cs.subgraph_for_query(&corpora[0], q, lang, None).map(|_| 0));
    }
    let used = cpu() - started;
    let rss = peak_memory();
    ctx.max("max_memory_mb", rss);
    if std::env::var("VH_FULL").is_ok() {
        eprintln!("MEM {rss} CPU {used:.1} {n} {q:?}");
    }
    ctx.max("max_cpu_ms_per_query", (used * 1000.0) as u64);
    let timeout = outcomes.iter().any(|o| matches!(o.1, Err(GraphAnnisError::Timeout)));
    // eight requests with one second each on all cores
    check!(used < 120.0, "runs-too-long", "{used} s; {}", what());
    ctx.count("requests", outcomes.len() as u64);
    let validate = match &outcomes[0].1 {
        Ok(_) => None,
        Err(e) => Some(e.to_string()),
    };
    for (name, r) in &outcomes {
        match r {
            Err(GraphAnnisError::Timeout) => {}
            Ok(_) => {
                // the node descriptions only need the query
                if *name == "node descriptions" || *name == "subgraph" {
                    continue;
                }
                if let Some(e) = &validate {
                    return viol(format!("invalid-query-accepted:{name}"), format!("{name} is executed, but the query is rejected with {e}; {}", what()));
                }
            }
            Err(e) => {
                check_error(q, e, what)?;
                match &validate {
                    None if *name == "frequency columns" => {}
                    None => return viol(format!("valid-query-rejected:{name}"), format!("{name}: {e}; {}", what())),
                    Some(v) => check!(*name == "subgraph" || *v == e.to_string(), format!("different-error:{name}"), "{name}: {e}, validation: {v}; {}", what()),
                }
            }
        }
    }
    if parsed.is_err() {
        check!(validate.is_some(), "syntax-error-accepted", "{}", what());
    }
    if !timeout && validate.is_none() {
        for (name, r) in &outcomes[3..5] {
            let m = r.as_ref().copied().unwrap_or_default();
            check!(m == n, format!("number-differs:{name}"), "{name} has {m} matches, count {n}; {}", what());
        }
        let expected = n.saturating_sub(offset as u64).min(page as u64);
        let m = outcomes[5].1.as_ref().copied().unwrap_or_default();
        check!(m == expected, "page-size", "{m} instead of {expected} matches for offset {offset}, limit {page}; {}", what());
    }
    Ok(Outcome { valid: validate.is_none(), timeout, n, error: validate.unwrap_or_default() })
}

fn query_case(ctx: &mut Ctx, rng: &mut Rng) -> Case {
    let dir = scratch();
    let cs = SCfg::random(rng).open(dir.path())?;
    let hostile = rng.chance(35);
    let mut m = Model::default();
    let evs = if hostile {
        m = hostile_graph(rng);
        m.to_events()
    } else {
        let gc = Cfg { docs: (1, 2), texts: (1, 2), segs: 2, toks: (0, *rng.pick(&[3, 6])), hostile: rng.chance(20), ..Default::default() };
        let (e, _) = gen_corpus(rng, "c", &gc);
        for x in &e {
            m.apply(x, &valid);
        }
        e
    };
    if !few_paths(&m) {
        ctx.count("skipped_too_many_paths", 1);
        return Ok(());
    }
    cs.create_empty_corpus("c", rng.chance(40)).map_err(serr)?;
    let mut corpora = vec!["c".to_string()];
    if !evs.is_empty() {
        apply(&cs, "c", &evs)?;
    }
    if rng.chance(30) {
        cs.create_empty_corpus("nothing in it", rng.chance(50)).map_err(serr)?;
        corpora.push("nothing in it".into());
        rng.shuffle(&mut corpora);
    }
    let p = Pools::new(&m);
    let all = cs.count(sq(&corpora, "node", QueryLanguage::AQL, None)).map_err(serr)?;
    for _ in 0..20 {
        let kind = rng.below(12);
        let mut wrong_regex = false;
        let (q, must_be_valid) = match kind {
            0 | 1 => (gen_query(rng, &p, 3, true).text, true),
            2..=5 => {
                let q = gen_query(rng, &p, 3, true).text;
                (mutate(rng, &q), false)
            }
            6 | 7 => (soup(rng), false),
            8 => (random_text(rng), false),
            9 => (extreme(rng), true),
            _ => {
                let x = *rng.pick(REGEXES);
                // inside of a query a regular expression ends with the next unescaped slash
                let r = format!("/{x}/");
                let form = rng.below(7);
                wrong_regex = form < 4 && regex::Regex::new(&format!("^({x})$")).is_err();
                let q = match form {
                    0 => format!("tok={r}"),
                    1 => r.clone(),
                    2 => format!("pos={r}"),
                    3 => format!("annis:node_name!={r}"),
                    4 => format!("node >[a={r}] node"),
                    5 => format!("node ->dep[a!={r}] tok!={r}"),
                    _ => format!("tok!={r} | node"),
                };
                (q, false)
            }
        };
        let lang = if rng.chance(25) { QueryLanguage::AQLQuirksV3 } else { QueryLanguage::AQL };
        let what = || format!("query {q:?} {lang:?}; corpora {corpora:?} with {}", tail(&evs.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>()));
        if std::env::var("VH_FULL").is_ok() {
            eprintln!("{q:?}");
        }
        let o = execute(ctx, rng, &cs, &corpora, &q, lang, &what)?;
        ctx.count(if o.timeout { "timeouts" } else if o.valid { "answered" } else { "rejected" }, 1);
        if must_be_valid && matches!(lang, QueryLanguage::AQL) {
            check!(o.valid, "valid-query-rejected", "{}; {}", o.error, what());
        }
        if wrong_regex {
            check!(!o.valid || o.n == 0, "invalid-regex-matches", "{} matches; {}", o.n, what());
            ctx.count("invalid_regular_expressions", 1);
        }
        if kind == 9 && o.valid && !o.timeout && matches!(lang, QueryLanguage::AQL) {
            // numbers which are larger than the corpus all mean the same
            let small: String = q.replace("18446744073709551615", "B").replace("18446744073709551614", "B").replace("18446744073709551616", "B").replace("99999999999999999999999999", "B").replace("9223372036854775807", "B").replace("9223372036854775808", "B").replace("4294967295", "B").replace("4294967296", "B").replace('B', "100000");
            let x = cs.count(sq(&corpora, &small, lang, None)).map_err(|e| Violation { sig: "valid-query-rejected".into(), detail: format!("{e} for {small}") })?;
            check!(x == o.n, "large-number", "{} matches, but {x} for {small}; {}", o.n, what());
            ctx.count("large_numbers_compared", 1);
        }
        if o.n > 0 {
            ctx.count("queries_with_matches", 1);
        }
        ctx.distinct(&q);
        let again = cs.count(sq(&corpora, "node", QueryLanguage::AQL, None)).map_err(serr)?;
        check!(again == all, "corpus-changed", "{again} instead of {all} nodes after {}", what());
        ctx.sample(json!({"query": q, "valid": o.valid, "error": o.error.chars().take(100).collect::<String>()}));
    }
    Ok(())
}

/// Brackets are the same as writing down all alternatives
fn boolean_case(ctx: &mut Ctx, rng: &mut Rng) -> Case {
    let dir = scratch();
    let cs = SCfg::random(rng).open(dir.path())?;
    let gc = Cfg { docs: (1, 2), toks: (2, 6), ..Default::default() };
    let (evs, _) = gen_corpus(rng, "c", &gc);
    let mut m = Model::default();
    for x in &evs {
        m.apply(x, &valid);
    }
    if !few_paths(&m) {
        return Ok(());
    }
    cs.create_empty_corpus("c", rng.chance(30)).map_err(serr)?;
    apply(&cs, "c", &evs)?;
    let p = Pools::new(&m);
    let corpora = vec!["c".to_string()];
    for _ in 0..6 {
        // every factor defines one variable
        let k = rng.range(1, 3);
        let factors: Vec<Vec<String>> = (0..k).map(|i| (0..rng.range(1, 3)).map(|_| format!("v{i}#{}", gen_spec(rng, &p).render())).collect()).collect();
        let ops: Vec<Vec<String>> = (1..k).map(|i| (0..rng.range(1, 2)).map(|_| format!("#v{} {} #v{i}", i - 1, rng.pick(&[".", ".*", "_=_", "_o_", "_i_", ">", ">*", "_l_", "^*", "_ident_"]))).collect()).collect();
        let bracket = |v: &Vec<String>| if v.len() == 1 { v[0].clone() } else { format!("({})", v.join(" | ")) };
        let mut nested: Vec<String> = factors.iter().map(bracket).collect();
        nested.extend(ops.iter().map(bracket));
        let mut text = nested[0].clone();
        for n in &nested[1..] {
            text = if rng.chance(30) { format!("(({text}) & {n})") } else { format!("{text} & {n}") };
        }
        // all combinations
        let mut all: Vec<Vec<String>> = vec![vec![]];
        for f in factors.iter().chain(&ops) {
            all = all.iter().flat_map(|a| f.iter().map(move |x| a.iter().cloned().chain([x.clone()]).collect())).collect();
        }
        if all.len() > 60 {
            continue;
        }
        let flat = all.iter().map(|a| a.join(" & ")).collect::<Vec<_>>().join(" | ");
        let what = || format!("query `{text}` instead of `{flat}` on {}", tail(&evs.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>()));
        let run = |q: &str| {
            let mut r = cs.find(sq(&corpora, q, QueryLanguage::AQL, None), 0, None, ResultOrder::NotSorted).map_err(|e| Violation { sig: "valid-query-rejected".into(), detail: format!("{e}; {}", what()) })?;
            r.sort();
            Ok(r)
        };
        let (a, b) = (run(&text)?, run(&flat)?);
        check!(a == b, "nested-alternatives", "{} instead of {} matches; {}", a.len(), b.len(), what());
        ctx.count("nested_queries", 1);
        if !a.is_empty() {
            ctx.count("nested_queries_with_matches", 1);
            ctx.distinct(&text);
        }
    }
    Ok(())
}

/// Very large queries
fn large_case(ctx: &mut Ctx, rng: &mut Rng) -> Case {
    let dir = scratch();
    let cs = SCfg::random(rng).open(dir.path())?;
    let gc = Cfg { docs: (1, 1), toks: (2, 4), ..Default::default() };
    let (evs, _) = gen_corpus(rng, "c", &gc);
    cs.create_empty_corpus("c", false).map_err(serr)?;
    apply(&cs, "c", &evs)?;
    let corpora = vec!["c".to_string()];
    let n = *rng.pick(&[100usize, 1000, 5000]);
    let (q, valid) = match rng.below(12) {
        0 => (format!("{}tok{}", "(".repeat(n), ")".repeat(n)), Some(true)),
        1 => (vec!["tok"; n.min(300)].join(" | "), Some(true)),
        2 => (vec!["tok"; n.min(12)].join(" . "), Some(true)),
        3 => ("(".repeat(n), Some(false)),
        4 => (format!("tok=\"{}\"", "x".repeat(n * 100)), Some(true)),
        5 => (format!("tok=/{}a{}/", "(".repeat(n), ")".repeat(n)), None),
        6 => (format!("tok=/{}/", "a|".repeat(n)), None),
        7 => (" ".repeat(n * 10), Some(false)),
        8 => (format!("tok{}", "\n".repeat(n * 10)), Some(true)),
        9 => (format!("tok & {}", "#1 ".repeat(n)), Some(false)),
        10 => (format!("{} & #1 . #2", vec!["(tok | tok)"; 6].join(" & ")), None),
        _ => (format!("{}:{}", "a".repeat(n), "b".repeat(n)), Some(true)),
    };
    let lang = if rng.chance(25) { QueryLanguage::AQLQuirksV3 } else { QueryLanguage::AQL };
    let what = || format!("query of length {} {:?} {lang:?}", q.len(), q.chars().take(60).collect::<String>());
    if std::env::var("VH_FULL").is_ok() {
        eprintln!("{}", what());
    }
    let o = execute(ctx, rng, &cs, &corpora, &q, lang, &what)?;
    if let Some(v) = valid {
        check!(v == o.valid, "large-query", "valid: {} instead of {v}: {}; {}", o.valid, o.error.chars().take(200).collect::<String>(), what());
    }
    ctx.count("large_queries", 1);
    ctx.distinct(&q);
    Ok(())
}
