//! Query generator and reference evaluator for the query language, on the graph model.
//! Written from the user documentation of AQL; it has no planner, no index and no estimates.
use crate::c04::Rel;
use crate::corpus::*;
use crate::gmodel::*;
use crate::rt::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug)]
pub enum Txt {
    Exact(String),
    Re(String),
}
#[derive(Clone, Debug)]
pub enum Spec {
    Node,
    Tok,
    TokVal(bool, Txt),
    AnyTok(Txt),
    Anno(Option<String>, String, Option<(bool, Txt)>),
}
pub type Range = (usize, Option<usize>);
#[derive(Clone, Debug)]
pub struct EdgeAnno {
    pub ns: Option<String>,
    pub name: String,
    pub neg: bool,
    pub val: Txt,
}
#[derive(Clone, Debug)]
pub enum Op {
    Prec(Option<String>, Range),
    Near(Option<String>, Range),
    IdentCov,
    Left,
    Right,
    Overlap,
    Incl,
    Dom(String, Range, Option<EdgeAnno>),
    Point(String, Range, Option<EdgeAnno>),
    PartOf(Range),
    IdentNode,
    Val(bool),
}
#[derive(Clone, Debug)]
pub struct QNode {
    pub spec: Spec,
    pub opt: bool,
    pub var: Option<String>,
}
#[derive(Clone, Debug)]
pub struct BinOp {
    pub l: usize,
    pub r: usize,
    pub neg: bool,
    pub op: Op,
}
#[derive(Clone, Debug, Default)]
pub struct Conj {
    pub nodes: Vec<QNode>,
    pub ops: Vec<BinOp>,
    pub arity: Vec<(usize, Range)>,
    /// rules of the compatibility mode: only directly joined nodes have to be different
    pub quirks: bool,
}
#[derive(Clone, Debug)]
pub struct Query {
    /// nodes of every alternative are in the order of their position in the text
    pub alts: Vec<Conj>,
    pub text: String,
}

impl Query {
    /// The same query text in the compatibility (quirks) mode: precedence and near without an upper bound are limited
    /// to 50, only directly joined nodes must differ and every additional dominance or pointing join of a node adds
    /// another output column for it.
    pub fn quirks(&self) -> Option<Query> {
        let mut q = self.clone();
        for c in &mut q.alts {
            c.quirks = true;
            let mut joins = vec![0; c.nodes.len()];
            for b in &mut c.ops {
                match &mut b.op {
                    Op::Prec(_, r) | Op::Near(_, r) if *r == (1, None) => *r = (1, Some(50)),
                    Op::Dom(..) | Op::Point(..) => {
                        joins[b.l] += 1;
                        joins[b.r] += 1;
                    }
                    _ => {}
                }
            }
            for (i, n) in joins.into_iter().enumerate() {
                for _ in 1..n {
                    if c.nodes[i].opt {
                        return None;
                    }
                    c.nodes.push(QNode { spec: c.nodes[i].spec.clone(), opt: false, var: None });
                    c.ops.push(BinOp { l: i, r: c.nodes.len() - 1, neg: false, op: Op::IdentNode });
                }
            }
        }
        Some(q)
    }
}
impl Txt {
    fn render(&self) -> String {
        match self {
            Txt::Exact(s) => format!("\"{s}\""),
            Txt::Re(s) => format!("/{s}/"),
        }
    }
    pub fn matcher(&self) -> Box<dyn Fn(&str) -> bool> {
        match self {
            Txt::Exact(s) => {
                let s = s.clone();
                Box::new(move |v| v == s)
            }
            Txt::Re(s) => {
                let r = regex::Regex::new(&format!(r"\A(?:{s})\z")).expect("generated regex");
                Box::new(move |v| r.is_match(v))
            }
        }
    }
}
impl Spec {
    pub fn render(&self) -> String {
        let cmp = |n: &bool| if *n { "!=" } else { "=" };
        match self {
            Spec::Node => "node".into(),
            Spec::Tok => "tok".into(),
            Spec::TokVal(n, t) => format!("tok{}{}", cmp(n), t.render()),
            Spec::AnyTok(t) => t.render(),
            Spec::Anno(ns, name, v) => {
                let q = ns.as_ref().map(|n| format!("{n}:")).unwrap_or_default();
                match v {
                    None => format!("{q}{name}"),
                    Some((n, t)) => format!("{q}{name}{}{}", cmp(n), t.render()),
                }
            }
        }
    }
    fn is_token_spec(&self) -> bool {
        matches!(self, Spec::Tok | Spec::TokVal(..) | Spec::AnyTok(_))
    }
}
fn range_text(r: &Range, rng: &mut Rng) -> String {
    match r {
        (1, None) => "*".into(),
        (1, Some(1)) if rng.chance(60) => "".into(),
        (a, Some(b)) if a == b && rng.chance(70) => format!("{}{a}", if rng.chance(50) { "," } else { " " }),
        (a, b) => format!("{}{a},{}", if rng.chance(50) { "," } else { " " }, b.unwrap()),
    }
}
impl Op {
    fn render(&self, rng: &mut Rng) -> String {
        let seg = |s: &Option<String>| s.clone().unwrap_or_default();
        let ea = |e: &EdgeAnno| format!("[{}{}{}{}]", e.ns.as_ref().map(|n| format!("{n}:")).unwrap_or_default(), e.name, if e.neg { "!=" } else { "=" }, e.val.render());
        match self {
            Op::Prec(s, r) => format!(".{}{}", seg(s), range_text(r, rng)),
            Op::Near(s, r) => format!("^{}{}", seg(s), range_text(r, rng)),
            Op::IdentCov => "_=_".into(),
            Op::Left => "_l_".into(),
            Op::Right => "_r_".into(),
            Op::Overlap => "_o_".into(),
            Op::Incl => "_i_".into(),
            Op::Dom(n, _, Some(e)) => format!(">{n}{}", ea(e)),
            Op::Dom(n, r, None) => format!(">{n}{}", range_text(r, rng)),
            Op::Point(n, _, Some(e)) => format!("->{n}{}", ea(e)),
            Op::Point(n, r, None) => format!("->{n}{}", range_text(r, rng)),
            Op::PartOf(r) => format!("@{}", range_text(r, rng)),
            Op::IdentNode => "_ident_".into(),
            Op::Val(n) => if *n { "!=" } else { "==" }.into(),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Prec(None, _) => "precedence",
            Op::Prec(..) => "precedence-seg",
            Op::Near(None, _) => "near",
            Op::Near(..) => "near-seg",
            Op::IdentCov => "identical-coverage",
            Op::Left => "left-aligned",
            Op::Right => "right-aligned",
            Op::Overlap => "overlap",
            Op::Incl => "inclusion",
            Op::Dom(_, _, Some(_)) => "dominance-anno",
            Op::Dom(..) => "dominance",
            Op::Point(_, _, Some(_)) => "pointing-anno",
            Op::Point(..) => "pointing",
            Op::PartOf(_) => "part-of",
            Op::IdentNode => "identical-node",
            Op::Val(_) => "value-comparison",
        }
    }
    fn reflexive(&self) -> bool {
        !matches!(self, Op::IdentCov | Op::Left | Op::Right | Op::Overlap | Op::Incl | Op::PartOf(_))
    }
}

// ---------------------------------------------------------------- generator

const RE: &[&str] = &["NN|VV", "N.*", "[A-Z]+", ".*", "the", "(?i)CAT", "ca(t|ts)", r"\.", ".", "a|dog", "", "cat.", "d[ao][gs]", ".*t", "[^a]*", "NN", "N", r"c\wt", "(the|a)", "VV?", "(?:NN)", "the?", "cat{1}", "^cat$", "x^", r"s\x61w", "\u{df}."];

pub struct Pools {
    /// label values by (ns, name)
    pub values: BTreeMap<(String, String), Vec<String>>,
    pub node_names: Vec<String>,
    pub dom: Vec<String>,
    pub point: Vec<String>,
    pub segs: Vec<String>,
}
impl Pools {
    pub fn new(m: &Model) -> Pools {
        let mut values: BTreeMap<(String, String), BTreeSet<String>> = BTreeMap::new();
        for l in m.nodes.values() {
            for (k, v) in l {
                values.entry(k.clone()).or_default().insert(v.clone());
            }
        }
        let of = |t: &str, l: Option<&str>| -> Vec<String> {
            let s: BTreeSet<String> = m.edges.iter().filter(|(k, e)| k.0 == t && l.is_none_or(|l| k.1 == l) && !e.is_empty()).map(|(k, _)| k.2.clone()).filter(|n| is_id(n)).collect();
            s.into_iter().collect()
        };
        Pools {
            values: values.into_iter().map(|(k, v)| (k, v.into_iter().collect())).collect(),
            node_names: m.nodes.keys().cloned().collect(),
            dom: of("Dominance", None),
            point: of("Pointing", None),
            segs: of("Ordering", Some("default_ns")),
        }
    }
}
fn is_id(n: &str) -> bool {
    n.chars().next().is_some_and(|c| c.is_ascii_alphabetic() || c == '_') && n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-')
}

fn gen_txt(rng: &mut Rng, vals: Option<&Vec<String>>) -> Txt {
    if rng.chance(40) {
        return Txt::Re(rng.pick(RE).to_string());
    }
    if let Some(v) = vals {
        let x = rng.pick(v);
        if !x.contains('"') && rng.chance(90) {
            return Txt::Exact(x.clone());
        }
    }
    Txt::Exact(rng.pick(WORDS).to_string())
}
pub fn gen_spec(rng: &mut Rng, p: &Pools) -> Spec {
    let tokv = p.values.get(&("annis".to_string(), "tok".to_string()));
    match rng.below(20) {
        0..=2 => Spec::Node,
        3..=6 => Spec::Tok,
        7 | 8 => Spec::TokVal(rng.chance(30), gen_txt(rng, tokv)),
        9 => Spec::AnyTok(gen_txt(rng, tokv)),
        10..=13 => Spec::Anno(if rng.chance(30) { Some(rng.pick(&["default_ns", "ns2", "other"]).to_string()) } else { None }, "pos".into(), if rng.chance(40) { None } else { Some((rng.chance(25), gen_txt(rng, Some(&POS.iter().map(|s| s.to_string()).collect())))) }),
        14 | 15 => Spec::Anno(None, "lemma".into(), if rng.chance(40) { None } else { Some((rng.chance(25), gen_txt(rng, p.values.get(&("default_ns".to_string(), "lemma".to_string()))))) }),
        16 => {
            let k = p.values.keys().filter(|k| k.1 != "tok" && k.1 != "node" && is_id(&k.1) && (k.0.is_empty() || is_id(&k.0))).cloned().collect::<Vec<_>>();
            if k.is_empty() {
                return Spec::Tok;
            }
            let k = rng.pick(&k).clone();
            let v = p.values.get(&k);
            Spec::Anno(if k.0.is_empty() || rng.chance(50) { None } else { Some(k.0.clone()) }, k.1.clone(), if rng.chance(50) { None } else { Some((rng.chance(25), gen_txt(rng, v))) })
        }
        17 => Spec::Anno(Some("annis".into()), "doc".into(), if rng.chance(50) { None } else { Some((rng.chance(20), gen_txt(rng, p.values.get(&("annis".to_string(), "doc".to_string()))))) }),
        18 => Spec::Anno(None, "genre".into(), Some((rng.chance(20), Txt::Exact("news".into())))),
        _ => {
            let n = rng.pick(&p.node_names).clone();
            if n.contains('"') { Spec::Node } else { Spec::Anno(Some("annis".into()), "node_name".into(), Some((rng.chance(20), Txt::Exact(n)))) }
        }
    }
}
fn gen_range(rng: &mut Rng) -> Range {
    match rng.below(10) {
        0..=3 => (1, Some(1)),
        4 | 5 => (1, None),
        6 => {
            let a = rng.range(1, 4);
            (a, Some(a + rng.below(4)))
        }
        7 => {
            let a = rng.range(1, 3);
            (a, Some(a))
        }
        8 => (1, Some(rng.range(1, 60))),
        _ => (rng.range(1, 3), Some(50)),
    }
}
fn gen_edge_anno(rng: &mut Rng, dom: bool) -> EdgeAnno {
    let (nss, name, vals): (&[&str], &str, &[&str]) = if dom { (&["tiger"], "func", &["SB", "OA", "HD"]) } else { (&["default_ns", "ns2"], "deprel", &["subj", "obj", "det"]) };
    EdgeAnno {
        ns: if rng.chance(30) { Some(rng.pick(nss).to_string()) } else { None },
        name: name.into(),
        neg: rng.chance(30),
        val: if rng.chance(35) { Txt::Re(rng.pick(&["S.*", ".*", "subj|obj", "[A-Z]+", "SB", "x"]).to_string()) } else { Txt::Exact(rng.pick(vals).to_string()) },
    }
}
pub fn gen_op(rng: &mut Rng, p: &Pools) -> Op {
    let seg = |rng: &mut Rng| if !p.segs.is_empty() && rng.chance(25) { Some(rng.pick(&p.segs).clone()) } else { None };
    match rng.below(18) {
        0..=2 => Op::Prec(seg(rng), gen_range(rng)),
        3 | 4 => Op::Near(seg(rng), gen_range(rng)),
        5 => Op::IdentCov,
        6 => Op::Left,
        7 => Op::Right,
        8 | 9 => Op::Overlap,
        10 => Op::Incl,
        11..=13 => {
            let n = if p.dom.is_empty() || rng.chance(50) { String::new() } else { rng.pick(&p.dom).clone() };
            if rng.chance(30) { Op::Dom(n, (1, Some(1)), Some(gen_edge_anno(rng, true))) } else { Op::Dom(n, gen_range(rng), None) }
        }
        14 | 15 if !p.point.is_empty() => {
            let n = rng.pick(&p.point).clone();
            if rng.chance(30) { Op::Point(n, (1, Some(1)), Some(gen_edge_anno(rng, false))) } else { Op::Point(n, gen_range(rng), None) }
        }
        16 => Op::PartOf(gen_range(rng)),
        17 if rng.chance(40) => Op::IdentNode,
        _ => Op::PartOf((1, None)),
    }
}

/// A conjunction which is connected by binding operators
pub fn gen_conj(rng: &mut Rng, p: &Pools, max_nodes: usize, optional: bool) -> Conj {
    let mut c = Conj::default();
    let n = *rng.pick(&[1, 2, 2, 2, 2, 3, 3, 4]);
    let n = n.min(max_nodes);
    for i in 0..n {
        c.nodes.push(QNode { spec: gen_spec(rng, p), opt: false, var: None });
        if i > 0 {
            let j = if rng.chance(60) { i - 1 } else { rng.below(i) };
            let (l, r) = if rng.chance(75) { (j, i) } else { (i, j) };
            c.ops.push(BinOp { l, r, neg: false, op: gen_op(rng, p) });
        }
    }
    if n > 1 {
        for _ in 0..*rng.pick(&[0, 0, 0, 1, 1, 2]) {
            let l = rng.below(n);
            let mut r = rng.below(n);
            if l == r {
                r = (r + 1) % n;
            }
            let b = match rng.below(5) {
                0 | 1 => BinOp { l, r, neg: false, op: Op::Val(rng.chance(40)) },
                2 | 3 => BinOp { l, r, neg: true, op: gen_op(rng, p) },
                _ => BinOp { l, r, neg: false, op: gen_op(rng, p) },
            };
            c.ops.push(b);
        }
    }
    if rng.chance(15) {
        let r = match rng.below(3) {
            0 => (0, Some(rng.below(3))),
            1 => (1, Some(rng.range(1, 4))),
            _ => {
                let a = rng.below(4);
                (a, Some(a))
            }
        };
        c.arity.push((rng.below(n), r));
    }
    if optional && rng.chance(25) {
        for _ in 0..rng.range(1, 2) {
            let o = c.nodes.len();
            c.nodes.push(QNode { spec: gen_spec(rng, p), opt: true, var: None });
            let y = rng.below(n);
            let (l, r) = if rng.chance(50) { (o, y) } else { (y, o) };
            c.ops.push(BinOp { l, r, neg: true, op: gen_op(rng, p) });
        }
    }
    c
}

enum Item {
    T(String),
    Def(usize),
    Ref(usize),
}
/// Literals of one conjunction; every undefined node gets defined
fn layout(rng: &mut Rng, c: &Conj, defined: &mut Vec<bool>, all_named: bool, only_ops: &[usize], only_nodes: &[usize]) -> Vec<Vec<Item>> {
    let mut lits: Vec<Vec<Item>> = vec![];
    let mut order: Vec<usize> = only_ops.to_vec();
    if rng.chance(60) {
        rng.shuffle(&mut order);
    }
    let inline = if rng.chance(50) { 80 } else { 0 };
    let _ = all_named;
    let mut last_right: Option<usize> = None;
    for o in order {
        let b = &c.ops[o];
        let mut operand = |rng: &mut Rng, i: usize, defined: &mut Vec<bool>| {
            if !defined[i] && only_nodes.contains(&i) && !matches!(b.op, Op::Val(_)) && rng.chance(inline) {
                defined[i] = true;
                Item::Def(i)
            } else {
                Item::Ref(i)
            }
        };
        let neg = if b.neg { "!" } else { "" };
        let t = Item::T(format!(" {neg}{} ", b.op.render(rng)));
        if last_right == Some(b.l) && !matches!(b.op, Op::Val(_)) && rng.chance(60) {
            let r = operand(rng, b.r, defined);
            let l = lits.last_mut().unwrap();
            l.push(t);
            l.push(r);
        } else {
            let l = operand(rng, b.l, defined);
            let r = operand(rng, b.r, defined);
            lits.push(vec![l, t, r]);
        }
        last_right = if matches!(b.op, Op::Val(_)) { None } else { Some(b.r) };
    }
    for (i, r) in &c.arity {
        if only_nodes.contains(i) {
            let t = match r {
                (a, Some(b)) if a == b => format!(":arity={a}"),
                (a, b) => format!(":arity={a},{}", b.unwrap()),
            };
            let at = rng.below(lits.len() + 1);
            lits.insert(at, vec![Item::Ref(*i), Item::T(t)]);
        }
    }
    let mut first = 0;
    for i in only_nodes {
        if !defined[*i] {
            defined[*i] = true;
            let at = if rng.chance(80) { first } else { rng.below(lits.len() + 1) };
            lits.insert(at, vec![Item::Def(*i)]);
            first += 1;
        }
    }
    lits
}
fn join(rng: &mut Rng, lits: Vec<Vec<Item>>) -> Vec<Item> {
    let mut v = vec![];
    let n = lits.len();
    for (i, l) in lits.into_iter().enumerate() {
        v.extend(l);
        if i + 1 < n {
            v.push(Item::T(rng.pick(&[" & ", "&", "\n& ", " &\n\t"]).to_string()));
        }
    }
    v
}
/// Text for the items; also returns the order of definition
fn text_of(rng: &mut Rng, items: &[Item], nodes: &[QNode], offset: usize) -> (String, Vec<usize>) {
    let order: Vec<usize> = items.iter().filter_map(|i| if let Item::Def(d) = i { Some(*d) } else { None }).collect();
    let mut s = String::new();
    for i in items {
        match i {
            Item::T(t) => s.push_str(t),
            Item::Def(d) => {
                let n = &nodes[*d];
                if let Some(v) = &n.var {
                    s.push_str(&format!("{v}#"));
                    if rng.chance(15) {
                        s.push(' ');
                    }
                }
                s.push_str(&n.spec.render());
                if n.opt {
                    s.push('?');
                }
            }
            Item::Ref(d) => match &nodes[*d].var {
                Some(v) => s.push_str(&format!("#{v}")),
                None => s.push_str(&format!("#{}", offset + order.iter().position(|x| x == d).unwrap() + 1)),
            },
        }
    }
    (s, order)
}
fn reorder(c: &Conj, order: &[usize]) -> Conj {
    let pos: HashMap<usize, usize> = order.iter().enumerate().map(|(i, n)| (*n, i)).collect();
    Conj {
        quirks: c.quirks,
        nodes: order.iter().map(|i| c.nodes[*i].clone()).collect(),
        ops: c.ops.iter().map(|b| BinOp { l: pos[&b.l], r: pos[&b.r], neg: b.neg, op: b.op.clone() }).collect(),
        arity: c.arity.iter().map(|(n, r)| (pos[n], *r)).collect(),
    }
}

pub fn gen_query(rng: &mut Rng, p: &Pools, max_nodes: usize, disj: bool) -> Query {
    if disj && rng.chance(12) {
        return gen_nested(rng, p, max_nodes);
    }
    let n_alts = if disj && rng.chance(25) { rng.range(2, 3) } else { 1 };
    let mut alts: Vec<Conj> = vec![];
    let mut texts = vec![];
    let mut offset = 0;
    let same_len = rng.chance(70);
    for a in 0..n_alts {
        let mut c = gen_conj(rng, p, max_nodes, true);
        if a > 0 && rng.chance(20) {
            c = alts[0].clone();
        } else if a > 0 && same_len {
            for _ in 0..8 {
                let f: &Conj = &alts[0];
                if f.nodes.len() == c.nodes.len() {
                    break;
                }
                c = gen_conj(rng, p, max_nodes, true);
            }
        }
        let named = rng.chance(20);
        for (i, n) in c.nodes.iter_mut().enumerate() {
            n.var = if named || rng.chance(8) { Some(format!("{}{}", rng.pick(&["x", "tok1", "N", "abc"]), ["a", "b", "c", "d", "e", "f"][i])) } else { None };
        }
        let mut defined = vec![false; c.nodes.len()];
        let (ops, nodes): (Vec<usize>, Vec<usize>) = ((0..c.ops.len()).collect(), (0..c.nodes.len()).collect());
        let lits = layout(rng, &c, &mut defined, named, &ops, &nodes);
        let items = join(rng, lits);
        let (t, order) = text_of(rng, &items, &c.nodes, offset);
        offset += c.nodes.len();
        alts.push(reorder(&c, &order));
        texts.push(if n_alts > 1 && rng.chance(30) { format!("({t})") } else { t });
    }
    let sep = rng.pick(&[" | ", "|", "\n|\n"]).to_string();
    Query { alts, text: texts.join(&sep) }
}

/// common & (e1 | e2): nodes of the common part with explicit variable names
fn gen_nested(rng: &mut Rng, p: &Pools, max_nodes: usize) -> Query {
    let mut c = gen_conj(rng, p, 2.min(max_nodes), false);
    for (i, n) in c.nodes.iter_mut().enumerate() {
        n.var = Some(format!("c{i}"));
    }
    let base = c.nodes.len();
    let mut defined = vec![false; base];
    let (ops, nodes): (Vec<usize>, Vec<usize>) = ((0..c.ops.len()).collect(), (0..base).collect());
    let l = layout(rng, &c, &mut defined, true, &ops, &nodes);
    let common_items = join(rng, l);
    let (ct, corder) = text_of(rng, &common_items, &c.nodes, 0);
    let first = rng.chance(70);
    let mut alts = vec![];
    let mut texts = vec![];
    for _ in 0..2 {
        let mut e = c.clone();
        let add_node = rng.chance(70);
        if add_node {
            e.nodes.push(QNode { spec: gen_spec(rng, p), opt: false, var: Some("e".into()) });
            let j = rng.below(base);
            e.ops.push(if rng.chance(50) { BinOp { l: j, r: base, neg: false, op: gen_op(rng, p) } } else { BinOp { l: base, r: j, neg: false, op: gen_op(rng, p) } });
        } else if base == 2 {
            e.ops.push(BinOp { l: 0, r: 1, neg: rng.chance(40), op: gen_op(rng, p) });
        } else {
            e.arity.push((0, (rng.below(2), Some(rng.range(2, 3)))));
        }
        let mut defined: Vec<bool> = (0..e.nodes.len()).map(|i| i < base).collect();
        let ops: Vec<usize> = (c.ops.len()..e.ops.len()).collect();
        let nodes: Vec<usize> = (base..e.nodes.len()).collect();
        let mut lits = layout(rng, &e, &mut defined, true, &ops, &nodes);
        if !add_node && base == 1 {
            let (_, (a, b)) = e.arity.last().unwrap();
            lits = vec![vec![Item::Ref(0), Item::T(format!(":arity={a},{}", b.unwrap()))]];
        }
        let items = join(rng, lits);
        let (t, eorder) = text_of(rng, &items, &e.nodes, 0);
        let order: Vec<usize> = if first { corder.iter().chain(&eorder).copied().collect() } else { eorder.iter().chain(&corder).copied().collect() };
        alts.push(reorder(&e, &order));
        texts.push(t);
    }
    let inner = format!("({} | {})", texts[0], texts[1]);
    Query { alts, text: if first { format!("{ct} & {inner}") } else { format!("{inner} & {ct}") } }
}

// ---------------------------------------------------------------- evaluator

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum T {
    No,
    Maybe,
    Yes,
}
use T::*;
fn t(b: bool) -> T {
    if b { Yes } else { No }
}
impl T {
    fn not(self) -> T {
        match self {
            No => Yes,
            Yes => No,
            Maybe => Maybe,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Lr {
    None,
    Unknown,
    Of(usize, usize, usize), // chain, left, right
}
pub type Hit = (usize, usize); // node, key
pub struct Ev<'a> {
    m: &'a Model,
    pub names: Vec<&'a str>,
    labels: Vec<&'a Labels>,
    is_tok: Vec<bool>,
    lr: Vec<Lr>,
    cov: Vec<BTreeSet<usize>>,
    rels: BTreeMap<CompKey, Rel>,
    arity: Vec<usize>,
    pub keys: Vec<(String, String)>,
    key_id: BTreeMap<(String, String), usize>,
    pub sigma: usize,
}
fn in_range(d: usize, r: &Range) -> bool {
    d >= r.0 && r.1.is_none_or(|m| d <= m)
}

impl<'a> Ev<'a> {
    /// None if there are too many paths to enumerate
    pub fn new(m: &'a Model) -> Option<Ev<'a>> {
        let d = derive(m);
        let names: Vec<&str> = m.nodes.keys().map(|s| s.as_str()).collect();
        let id: BTreeMap<&str, usize> = names.iter().enumerate().map(|(i, n)| (*n, i)).collect();
        let mut rels = BTreeMap::new();
        let mut children: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); names.len()];
        for (k, es) in &m.edges {
            let base_order = k.0 == "Ordering" && k.1 == "annis" && k.2.is_empty();
            if is_derived(k) || base_order || k.0 == "Coverage" {
                continue;
            }
            let r = Rel::new(es.iter().map(|((a, b), l)| ((id[a.as_str()] as u64, id[b.as_str()] as u64), l.clone())).collect())?;
            if k.0 == "Dominance" || k.0 == "Pointing" {
                for (a, b) in es.keys() {
                    children[id[a.as_str()]].insert(id[b.as_str()]);
                }
            }
            rels.insert(k.clone(), r);
        }
        let is_tok: Vec<bool> = names.iter().map(|n| d.tokens.contains(*n)).collect();
        let mut lr = vec![];
        let mut cov: Vec<BTreeSet<usize>> = vec![];
        for n in &names {
            let c = &d.covered[*n];
            cov.push(c.iter().map(|t| id[t.as_str()]).collect());
            let v: Vec<(usize, usize)> = c.iter().filter_map(|t| d.pos.get(t).copied()).collect();
            lr.push(if c.is_empty() {
                Lr::None
            } else if v.len() < c.len() || v.iter().any(|x| x.0 != v[0].0) {
                Lr::Unknown
            } else {
                Lr::Of(v[0].0, v.iter().map(|x| x.1).min().unwrap(), v.iter().map(|x| x.1).max().unwrap())
            });
        }
        let mut keys: BTreeSet<(String, String)> = m.nodes.values().flat_map(|l| l.keys().cloned()).collect();
        keys.insert(("annis".into(), "node_type".into()));
        let keys: Vec<_> = keys.into_iter().collect();
        let key_id: BTreeMap<_, _> = keys.iter().cloned().enumerate().map(|(i, k)| (k, i)).collect();
        let sigma = key_id[&("annis".to_string(), "node_type".to_string())];
        Some(Ev { m, labels: m.nodes.values().collect(), names, is_tok, lr, cov, rels, arity: children.iter().map(|c| c.len()).collect(), keys, key_id, sigma })
    }
    pub fn hits(&self, s: &Spec) -> Vec<Hit> {
        let tokk = ("annis".to_string(), "tok".to_string());
        let mut v = vec![];
        for (i, l) in self.labels.iter().enumerate() {
            let hit = match s {
                Spec::Node => l.get(&self.keys[self.sigma]).is_some_and(|x| x == "node"),
                Spec::Tok => self.is_tok[i],
                Spec::TokVal(..) | Spec::AnyTok(_) => false,
                Spec::Anno(..) => false,
            };
            if hit {
                v.push((i, self.sigma));
            }
        }
        match s {
            Spec::TokVal(neg, tx) => {
                let f = tx.matcher();
                for (i, l) in self.labels.iter().enumerate() {
                    if self.is_tok[i] && f(&l[&tokk]) != *neg {
                        v.push((i, self.sigma));
                    }
                }
            }
            Spec::AnyTok(tx) => {
                let f = tx.matcher();
                for (i, l) in self.labels.iter().enumerate() {
                    if l.get(&tokk).is_some_and(|x| f(x)) {
                        v.push((i, self.sigma));
                    }
                }
            }
            Spec::Anno(ns, name, val) => {
                let f = val.as_ref().map(|(n, tx)| (*n, tx.matcher()));
                for (i, l) in self.labels.iter().enumerate() {
                    for (k, x) in l.iter() {
                        if &k.1 == name && ns.as_ref().is_none_or(|n| n == &k.0) && f.as_ref().is_none_or(|(n, f)| f(x) != *n) {
                            v.push((i, self.key_id[k]));
                        }
                    }
                }
            }
            _ => {}
        }
        v
    }
    fn comps(&self, ty: &'static str, name: &'a str) -> impl Iterator<Item = &Rel> + '_ {
        self.rels.iter().filter(move |(k, _)| k.0 == ty && k.2 == name).map(|x| x.1)
    }
    fn edge_op(&self, rels: Vec<&Rel>, a: usize, b: usize, r: &Range, ea: &Option<EdgeAnno>) -> T {
        if a == b && r.0 == 0 {
            return Maybe;
        }
        let (a, b) = (a as u64, b as u64);
        t(rels.iter().any(|rel| {
            rel.has_path(a, b, r.0, r.1)
                && ea.as_ref().is_none_or(|e| {
                    let f = e.val.matcher();
                    rel.edges.get(&(a, b)).is_some_and(|l| l.iter().any(|(k, v)| k.1 == e.name && e.ns.as_ref().is_none_or(|n| n == &k.0) && f(v) != e.neg))
                })
        }))
    }
    /// `lo` directly before `hi` within the range
    fn prec(&self, a: usize, b: usize, r: &Range) -> T {
        match (self.lr[a], self.lr[b]) {
            (Lr::None, _) | (_, Lr::None) => No,
            (Lr::Of(c, _, x), Lr::Of(c2, y, _)) => {
                if c == c2 && x == y && r.0 == 0 {
                    Maybe
                } else {
                    t(c == c2 && y > x && in_range(y - x, r))
                }
            }
            _ => Maybe,
        }
    }
    pub fn op(&self, op: &Op, a: Hit, b: Hit, sa: &Spec, sb: &Spec) -> T {
        let (x, y) = (a.0, b.0);
        let lr2 = |f: &dyn Fn((usize, usize, usize), (usize, usize, usize)) -> T| match (self.lr[x], self.lr[y]) {
            (Lr::None, _) | (_, Lr::None) => No,
            (Lr::Of(a, b, c), Lr::Of(d, e, g)) => f((a, b, c), (d, e, g)),
            _ => Maybe,
        };
        match op {
            Op::Prec(None, r) => self.prec(x, y, r),
            Op::Near(None, r) => self.prec(x, y, r).max(self.prec(y, x, r)),
            Op::Prec(Some(s), r) => self.edge_op(self.rels.get(&("Ordering".into(), "default_ns".into(), s.clone())).into_iter().collect(), x, y, r, &None),
            Op::Near(Some(s), r) => {
                let c: Vec<&Rel> = self.rels.get(&("Ordering".into(), "default_ns".into(), s.clone())).into_iter().collect();
                self.edge_op(c.clone(), x, y, r, &None).max(self.edge_op(c, y, x, r, &None))
            }
            Op::IdentCov => lr2(&|a, b| t(a == b)),
            Op::Left => lr2(&|a, b| t(a.0 == b.0 && a.1 == b.1)),
            Op::Right => lr2(&|a, b| t(a.0 == b.0 && a.2 == b.2)),
            Op::Incl => lr2(&|a, b| t(a.0 == b.0 && a.1 <= b.1 && b.2 <= a.2)),
            Op::Overlap => {
                if self.cov[x].intersection(&self.cov[y]).next().is_some() {
                    return Yes;
                }
                // intervals of discontinuous nodes may overlap without a common token
                lr2(&|a, b| if a.0 == b.0 && a.1 <= b.2 && b.1 <= a.2 { Maybe } else { No })
            }
            Op::Dom(n, r, ea) => self.edge_op(self.comps("Dominance", n).collect(), x, y, r, ea),
            Op::Point(n, r, ea) => self.edge_op(self.comps("Pointing", n).collect(), x, y, r, ea),
            Op::PartOf(r) => self.edge_op(self.rels.get(&("PartOf".into(), "annis".into(), "".into())).into_iter().collect(), x, y, r, &None),
            Op::IdentNode => t(x == y),
            Op::Val(neg) => {
                let val = |h: Hit, s: &Spec| -> Option<&String> {
                    match s {
                        Spec::Node => None,
                        s if s.is_token_spec() => self.labels[h.0].get(&("annis".to_string(), "tok".to_string())),
                        _ => self.labels[h.0].get(&self.keys[h.1]),
                    }
                };
                match (val(a, sa), val(b, sb)) {
                    (Some(p), Some(q)) => t((p == q) != *neg),
                    _ => No,
                }
            }
        }
    }
    /// All result tuples (without the optional nodes); None if the search is too large
    pub fn eval(&self, q: &Query, budget: &mut usize) -> Option<BTreeMap<Vec<Hit>, T>> {
        let mut res = BTreeMap::new();
        for c in &q.alts {
            self.eval_conj(c, budget, &mut res)?;
        }
        Some(res)
    }
    fn eval_conj(&self, c: &Conj, budget: &mut usize, res: &mut BTreeMap<Vec<Hit>, T>) -> Option<()> {
        let hits: Vec<Vec<Hit>> = c.nodes.iter().map(|n| self.hits(&n.spec)).collect();
        // candidates with the state of all unary conditions
        let mut cand: Vec<Vec<(Hit, T)>> = vec![];
        for (i, n) in c.nodes.iter().enumerate() {
            if n.opt {
                cand.push(vec![]);
                continue;
            }
            let mut v = vec![];
            for h in &hits[i] {
                let mut st = Yes;
                for (x, r) in &c.arity {
                    if *x == i {
                        st = st.min(t(in_range(self.arity[h.0], r)));
                    }
                }
                for b in &c.ops {
                    let (o, left) = if c.nodes[b.l].opt { (b.l, true) } else if c.nodes[b.r].opt { (b.r, false) } else { continue };
                    if (if left { b.r } else { b.l }) != i {
                        continue;
                    }
                    // there is no element of the optional node in this relation
                    let mut ex = No;
                    for x in &hits[o] {
                        *budget = budget.checked_sub(1)?;
                        let mut r = if left { self.op(&b.op, *x, *h, &c.nodes[o].spec, &n.spec) } else { self.op(&b.op, *h, *x, &n.spec, &c.nodes[o].spec) };
                        if x == h && !b.op.reflexive() {
                            r = r.min(Maybe);
                        }
                        ex = ex.max(r);
                        if ex == Yes {
                            break;
                        }
                    }
                    st = st.min(ex.not());
                }
                if st != No {
                    v.push((*h, st));
                }
            }
            cand.push(v);
        }
        let real: Vec<usize> = (0..c.nodes.len()).filter(|i| !c.nodes[*i].opt).collect();
        let ops: Vec<&BinOp> = c.ops.iter().filter(|b| !c.nodes[b.l].opt && !c.nodes[b.r].opt).collect();
        // operands of non-reflexive operators and nodes not connected by reflexive operators are different
        let mut differ: Vec<(usize, usize)> = vec![];
        if ops.iter().any(|b| !b.op.reflexive()) {
            let mut group: Vec<usize> = (0..c.nodes.len()).collect();
            for b in ops.iter().filter(|b| b.op.reflexive() && !b.neg && !matches!(b.op, Op::Val(_))) {
                let (x, y) = (group[b.l], group[b.r]);
                group.iter_mut().filter(|g| **g == x).for_each(|g| *g = y);
            }
            for (i, a) in real.iter().enumerate() {
                for b in &real[i + 1..] {
                    if (!c.quirks && group[*a] != group[*b]) || ops.iter().any(|o| !o.op.reflexive() && (o.l.min(o.r), o.l.max(o.r)) == (*a, *b)) {
                        differ.push((*a, *b));
                    }
                }
            }
        }
        let mut tup: Vec<Option<Hit>> = vec![None; c.nodes.len()];
        self.bt(c, &real, &ops, &cand, 0, &mut tup, Yes, &differ, budget, res)
    }
    #[allow(clippy::too_many_arguments)]
    fn bt(&self, c: &Conj, real: &[usize], ops: &[&BinOp], cand: &[Vec<(Hit, T)>], i: usize, tup: &mut Vec<Option<Hit>>, st: T, differ: &[(usize, usize)], budget: &mut usize, res: &mut BTreeMap<Vec<Hit>, T>) -> Option<()> {
        if i == real.len() {
            let v: Vec<Hit> = real.iter().map(|r| tup[*r].unwrap()).collect();
            if differ.iter().any(|(a, b)| tup[*a] == tup[*b]) {
                return Some(());
            }
            if st != No {
                let e = res.entry(v).or_insert(No);
                *e = (*e).max(st);
                if res.len() > 60_000 {
                    return None;
                }
            }
            return Some(());
        }
        let n = real[i];
        for (h, s0) in &cand[n] {
            *budget = budget.checked_sub(1)?;
            tup[n] = Some(*h);
            let mut s = st.min(*s0);
            for b in ops {
                if b.l.max(b.r) == n || (b.l == n && tup[b.r].is_some()) || (b.r == n && tup[b.l].is_some()) {
                    if let (Some(x), Some(y)) = (tup[b.l], tup[b.r]) {
                        let r = self.op(&b.op, x, y, &c.nodes[b.l].spec, &c.nodes[b.r].spec);
                        s = s.min(if b.neg { r.not() } else { r });
                        if s == No {
                            break;
                        }
                    }
                }
            }
            if s != No {
                self.bt(c, real, ops, cand, i + 1, tup, s, differ, budget, res)?;
            }
            tup[n] = None;
        }
        Some(())
    }
    /// Compatibility mode: is the node part of a document which has all of the metadata?
    pub fn in_document_with(&self, node: Hit, spec: &Spec, meta: &[Spec]) -> T {
        let doc = Spec::Anno(Some("annis".into()), "doc".into(), None);
        let mut docs: Vec<Hit> = self.hits(&doc);
        for s in meta {
            let h: BTreeSet<usize> = self.hits(s).into_iter().map(|h| h.0).collect();
            docs.retain(|d| h.contains(&d.0));
        }
        docs.into_iter().map(|d| self.op(&Op::PartOf((1, None)), node, d, spec, &doc)).max().unwrap_or(No)
    }
    pub fn show(&self, t: &[Hit]) -> String {
        t.iter().map(|h| format!("{}::{}::{}", self.keys[h.1].0, self.keys[h.1].1, self.names[h.0])).collect::<Vec<_>>().join(" ")
    }
    pub fn node_count(&self) -> usize {
        self.m.nodes.len()
    }
}

/// Another formulation of the same query: other order of the operators, node definitions and alternatives.
/// The result contains for every alternative of the new query the index of the original alternative and
/// for every position the original position of the node.
pub fn reformulate(rng: &mut Rng, q: &Query) -> (String, Vec<(usize, Vec<usize>)>) {
    let mut alts: Vec<usize> = (0..q.alts.len()).collect();
    rng.shuffle(&mut alts);
    let mut texts = vec![];
    let mut offset = 0;
    let mut map = vec![];
    for a in alts {
        let mut c = q.alts[a].clone();
        for (i, n) in c.nodes.iter_mut().enumerate() {
            n.var = if rng.chance(30) { Some(format!("r{a}x{i}")) } else { None };
        }
        let mut ops: Vec<usize> = (0..c.ops.len()).collect();
        rng.shuffle(&mut ops);
        let mut nodes: Vec<usize> = (0..c.nodes.len()).collect();
        if rng.chance(50) {
            rng.shuffle(&mut nodes);
        }
        let mut defined = vec![false; c.nodes.len()];
        let lits = layout(rng, &c, &mut defined, false, &ops, &nodes);
        let items = join(rng, lits);
        let (t, order) = text_of(rng, &items, &c.nodes, offset);
        offset += c.nodes.len();
        texts.push(t);
        // only positions of the output
        let out_old: Vec<usize> = (0..c.nodes.len()).filter(|i| !c.nodes[*i].opt).collect();
        let m = order.iter().filter_map(|i| out_old.iter().position(|x| x == i)).collect();
        map.push((a, m));
    }
    (texts.join(" | "), map)
}
