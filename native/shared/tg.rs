//! Random context-free grammars, their compiled (binarised, epsilon-free) form as a `Grammar`, and an
//! independent oracle (span table over the *original* grammar, derivation counting, derivation trees).
#![allow(dead_code)]
use crate::common::Rng;
use bit_matrix::{row::BitSlice, BitMatrix};
use cfg_symbol::Symbol;
use gearley_grammar::*;
use std::collections::{BTreeSet, HashMap};

pub fn s(n: usize) -> Symbol { Symbol::from_raw(n as u32) }

/// Original grammar: symbols 0..nt are nonterminals, nt..nt+tt terminals; start symbol 0.
#[derive(Clone, Debug, PartialEq)]
pub struct Cfg0 { pub nt: usize, pub tt: usize, pub prods: Vec<(usize, Vec<usize>)> }

#[derive(Clone, Debug)]
pub struct Rule { pub lhs: usize, pub rhs: Vec<usize>, pub origin: Option<u32>, pub elim: Option<(usize, bool)> }

#[derive(Debug)]
pub struct TestGrammar {
    pub src: Cfg0,
    pub rules: Vec<Rule>,
    pub nsyms: usize, pub ngens: usize,
    /// original symbol -> internal
    pub map: Vec<usize>, pub back: Vec<Option<usize>>,
    pub eof: usize, pub sof: usize, pub start: usize, pub inner: usize,
    pub dot_eof: u32,
    pub pred: BitMatrix, pub first: BitMatrix, pub follow: BitMatrix,
    pub rhs1: Vec<Option<Symbol>>,
    pub comp: Vec<Vec<PredictionTransition>>, pub gencomp: Vec<[Option<PredictionTransition>; 2]>,
    pub ev_pred: Vec<EventAndDistance>, pub ev_flat: Vec<EventAndDistance>,
    pub tr: [Vec<ExternalDottedRule>; 3],
    pub nullmid: Vec<[Symbol; 3]>, pub nullable: Vec<bool>,
    pub trivial: bool,
    pub info: ForestInfo,
    /// visible left side each symbol is reached from
    pub vis: Vec<usize>,
}

pub fn random_cfg(r: &mut Rng, nullable: bool) -> Cfg0 {
    let nt = r.range(1, 4); let tt = r.range(1, 3);
    let mut prods: Vec<(usize, Vec<usize>)> = vec![];
    for a in 0..nt {
        for _ in 0..r.range(1, 3) {
            let n = match r.below(10) { 0 | 1 => 1, 2..=5 => 2, 6..=8 => 3, _ => 4 };
            let n = if nullable && r.chance(1, 4) { 0 } else { n };
            let rhs: Vec<usize> = (0..n).map(|_| if r.chance(1, 2) { nt + r.below(tt) } else { r.below(nt) }).collect();
            if rhs.len() == 1 && rhs[0] == a { continue; }
            if !prods.iter().any(|(l, x)| *l == a && *x == rhs) { prods.push((a, rhs)); }
        }
    }
    if !nullable { prods.retain(|p| !p.1.is_empty()); }
    Cfg0 { nt, tt, prods }
}

/// Keeps the useful part; None if the grammar generates nothing (or only the empty word) or has a unary cycle.
pub fn compile(g0: &Cfg0, r: &mut Rng) -> Option<TestGrammar> {
    // productive / reachable
    let mut g = g0.clone();
    loop {
        let mut prod: Vec<bool> = (0..g.nt + g.tt).map(|x| x >= g.nt).collect();
        loop { let mut ch = false; for (a, x) in &g.prods { if !prod[*a] && x.iter().all(|y| prod[*y]) { prod[*a] = true; ch = true; } } if !ch { break; } }
        let mut reach = vec![false; g.nt + g.tt]; reach[0] = true;
        loop { let mut ch = false; for (a, x) in &g.prods { if reach[*a] { for y in x { if !reach[*y] { reach[*y] = true; ch = true; } } } } if !ch { break; } }
        let n = g.prods.len();
        g.prods.retain(|(a, x)| prod[*a] && reach[*a] && x.iter().all(|y| prod[*y]));
        if !prod[0] { return None; }
        if g.prods.len() == n { break; }
    }
    let nt = g.nt; let tt = g.tt;
    // internal provisional symbols: original ones, then sof, eof, start', then gensyms
    let sof = nt + tt; let eof = sof + 1; let start = sof + 2;
    let mut next = sof + 3; let base = next;
    let mut bin: Vec<Rule> = vec![];
    let mut add = |lhs: usize, x: &[usize], origin: Option<u32>, bin: &mut Vec<Rule>| {
        if x.len() <= 2 { bin.push(Rule { lhs, rhs: x.to_vec(), origin, elim: None }); return; }
        let mut left = x[0];
        for k in 1..x.len() - 1 { bin.push(Rule { lhs: next, rhs: vec![left, x[k]], origin: None, elim: None }); left = next; next += 1; }
        bin.push(Rule { lhs, rhs: vec![left, *x.last().unwrap()], origin, elim: None });
    };
    for (i, (a, x)) in g.prods.iter().enumerate() { add(*a, x, Some(i as u32), &mut bin); }
    add(start, &[sof, 0, eof], None, &mut bin);
    let total = next;
    let mut nullable = vec![false; total];
    loop { let mut ch = false; for q in &bin { if !nullable[q.lhs] && q.rhs.iter().all(|y| nullable[*y]) { nullable[q.lhs] = true; ch = true; } } if !ch { break; } }
    // which symbols derive something non-empty
    let mut non = vec![false; total];
    for x in nt..base { if x != start { non[x] = true; } }
    loop { let mut ch = false; for q in &bin { if !non[q.lhs] && q.rhs.iter().any(|y| non[*y]) && q.rhs.iter().all(|y| non[*y] || nullable[*y]) { non[q.lhs] = true; ch = true; } } if !ch { break; } }
    let mut rules: Vec<Rule> = vec![]; let mut nullmid = vec![];
    for q in &bin {
        match q.rhs.len() {
            0 => {}
            1 => if non[q.rhs[0]] { rules.push(q.clone()) },
            _ => {
                let (b, c) = (q.rhs[0], q.rhs[1]);
                if non[b] && non[c] { rules.push(q.clone()); }
                if non[b] && nullable[c] { rules.push(Rule { lhs: q.lhs, rhs: vec![b], origin: q.origin, elim: Some((c, true)) }); }
                if nullable[b] && non[c] { rules.push(Rule { lhs: q.lhs, rhs: vec![c], origin: q.origin, elim: Some((b, false)) }); }
                if nullable[b] && nullable[c] && q.origin.is_none() && q.lhs >= base { nullmid.push([q.lhs, b, c]); }
            }
        }
    }
    // the rule before eof must exist with its gensym (start' ::= g eof)
    // unary cycles
    let mut topo = vec![]; let mut state = vec![0u8; total];
    fn dfs(x: usize, rules: &[Rule], st: &mut Vec<u8>, out: &mut Vec<usize>) -> bool {
        if st[x] == 1 { return false; } if st[x] == 2 { return true; }
        st[x] = 1;
        for q in rules { if q.lhs == x && q.rhs.len() == 1 && !dfs(q.rhs[0], rules, st, out) { return false; } }
        st[x] = 2; out.push(x); true
    }
    let mut from: Vec<usize> = (0..total).collect(); for i in (1..total).rev() { from.swap(i, r.below(i + 1)); }
    for x in from { if !dfs(x, &rules, &mut state, &mut topo) { return None; } }
    topo.reverse();
    // numbering: eof first, visible symbols (lhs of a unary rule before its right side), gensyms last
    let mut num = vec![usize::MAX; total]; let mut k = 0;
    num[eof] = k; k += 1;
    for &x in &topo { if x < base && x != eof { num[x] = k; k += 1; } }
    let nsyms = k;
    for &x in &topo { if x >= base { num[x] = k; k += 1; } }
    let ngens = k - nsyms;
    let rn = |x: usize| num[x];
    for q in rules.iter_mut() { q.lhs = rn(q.lhs); for y in q.rhs.iter_mut() { *y = rn(*y); } if let Some((y, d)) = q.elim { q.elim = Some((rn(y), d)); } }
    // sorted by left side; the order within one left side is arbitrary
    for i in (1..rules.len()).rev() { rules.swap(i, r.below(i + 1)); }
    rules.sort_by_key(|q| q.lhs);
    let (sof, eof, start, inner) = (rn(sof), rn(eof), rn(start), rn(0));
    let all = nsyms + ngens;
    // visible left sides of gensyms
    let mut vis: Vec<usize> = (0..all).collect();
    for x in nsyms..all { let mut y = x; let mut n = 0; while y >= nsyms { y = rules.iter().find(|q| q.rhs[0] == y)?.lhs; n += 1; if n > all { return None; } } vis[x] = y; }
    for x in nsyms..all { if rules.iter().filter(|q| q.rhs[0] == x).any(|q| vis[q.lhs] != vis[x]) || rules.iter().any(|q| q.rhs.get(1) == Some(&x)) { return None; } }
    // a symbol eliminated everywhere may leave gensyms without uses; such grammars are fine, but gensyms need a use as rhs0
    let closure = |m: &mut Vec<Vec<bool>>| { let n = m.len(); for k in 0..n { for i in 0..n { if m[i][k] { for j in 0..n { if m[k][j] { m[i][j] = true; } } } } } };
    let mut p = vec![vec![false; nsyms]; nsyms];
    for q in &rules { if q.rhs[0] < nsyms { p[vis[q.lhs]][q.rhs[0]] = true; } }
    closure(&mut p);
    for i in 0..nsyms { p[i][i] = true; }
    // FIRST over all symbols, FOLLOW
    let mut f = vec![vec![false; all]; all];
    for i in 0..all { f[i][i] = true; }
    for q in &rules { f[q.lhs][q.rhs[0]] = true; }
    closure(&mut f);
    let mut fo = vec![vec![false; all]; all];
    loop {
        let mut ch = false;
        for q in &rules {
            if q.rhs.len() == 2 { for y in 0..all { if f[q.rhs[1]][y] && !fo[q.rhs[0]][y] { fo[q.rhs[0]][y] = true; ch = true; } } }
            let l = *q.rhs.last().unwrap();
            for y in 0..all { if fo[q.lhs][y] && !fo[l][y] { fo[l][y] = true; ch = true; } }
        }
        if !ch { break; }
    }
    let mat = |m: &Vec<Vec<bool>>| { let mut b = BitMatrix::new(nsyms, nsyms); for i in 0..nsyms { for j in 0..nsyms { if m[i][j] { b.set(i, j, true); } } } b };
    let dot_eof = rules.iter().position(|q| q.rhs.get(1) == Some(&eof))? as u32;
    let mut comp = vec![vec![]; nsyms]; let mut gencomp = vec![[None; 2]; ngens];
    for un in [false, true] { for (d, q) in rules.iter().enumerate() { if (q.rhs.len() == 1) == un {
        let t = PredictionTransition { symbol: s(vis[q.lhs]), dot: d as u32, is_unary: un };
        if q.rhs[0] < nsyms { comp[q.rhs[0]].push(t); } else { let e: &mut Option<PredictionTransition> = &mut gencomp[q.rhs[0] - nsyms][un as usize]; if e.is_some() { return None; } *e = Some(t); }
    } } }
    let mut map = vec![0; nt + tt]; let mut back = vec![None; all];
    for x in 0..nt + tt { map[x] = num[x]; back[num[x]] = Some(x); }
    let n = rules.len();
    let ev = |k: usize| (cfg_history::earley::EventId { id: k as u32 }, cfg_history::earley::MinimalDistance { distance: (k * 7 + 1) as u32 });
    let tr = |k: usize| ExternalDottedRule { id: k as u32, pos: (k % 3) as u32 };
    let nullmid: Vec<[Symbol; 3]> = nullmid.iter().map(|x| [s(rn(x[0])), s(rn(x[1])), s(rn(x[2]))]).collect();
    let mut nl = vec![false; all]; for x in 0..total { nl[rn(x)] = nullable[x]; }
    let info = ForestInfo {
        eval: rules.iter().map(|q| match q.origin { Some(i) => ExternalOrigin { id: i }, None => ExternalOrigin { id: !0 } }).collect(),
        nulling_intermediate_rules: nullmid.clone(),
        nulling_eliminated: rules.iter().map(|q| q.elim.map(|(y, d)| (s(y), d))).collect(),
        sof: s(sof), eof: s(eof), start: s(inner),
    };
    Some(TestGrammar {
        trivial: nullable[0], src: g, rhs1: rules.iter().map(|q| q.rhs.get(1).map(|&y| s(y))).collect(),
        pred: mat(&p), first: mat(&f), follow: mat(&fo), nsyms, ngens, map, back, eof, sof, start, inner, dot_eof, comp, gencomp,
        ev_pred: (0..all + 1).map(|k| ev(1000 + k)).collect(), ev_flat: (0..n).map(|k| ev(5000 + k)).collect(),
        tr: [(0..all + 1).map(|k| tr(100 + k)).collect(), (0..n).map(|k| tr(3000 + k)).collect(), (0..n).map(|k| tr(7000 + k)).collect()],
        nullmid, nullable: nl, info, vis, rules,
    })
}

impl Grammar for TestGrammar {
    fn sof(&self) -> Symbol { s(self.sof) }
    fn eof(&self) -> Symbol { s(self.eof) }
    fn lhs_lr_set(&self, x: Symbol) -> &BitSlice { &self.follow[x.usize()] }
    fn lookahead_set(&self, d: u32) -> &BitSlice { match self.get_rhs1(d) { Some(x) => &self.first[x.usize()], None => &self.follow[self.get_lhs(d).usize()] } }
    fn rhs1_or_lhs(&self, d: u32) -> Symbol { self.get_rhs1(d).unwrap_or(self.get_lhs(d)) }
    fn prediction_row(&self, x: Symbol) -> &BitSlice { &self.pred[x.usize()] }
    fn num_syms(&self) -> usize { self.nsyms }
    fn num_gensyms(&self) -> usize { self.ngens }
    fn num_rules(&self) -> usize { self.rules.len() }
    fn start_sym(&self) -> Symbol { s(self.start) }
    fn externalized_start_sym(&self) -> Symbol { s(0) }
    fn has_trivial_derivation(&self) -> bool { self.trivial }
    fn nulling(&self, d: u32) -> NullingEliminated { self.info.nulling_eliminated[d as usize] }
    fn events(&self) -> (&[EventAndDistance], &[EventAndDistance]) { (&self.ev_pred, &self.ev_flat) }
    fn trace(&self) -> [&[ExternalDottedRule]; 3] { [&self.tr[0], &self.tr[1], &self.tr[2]] }
    fn get_rhs1(&self, d: u32) -> Option<Symbol> { self.rhs1[d as usize] }
    fn rhs1(&self) -> &[Option<Symbol>] { &self.rhs1 }
    fn get_lhs(&self, d: u32) -> Symbol { s(self.rules[d as usize].lhs) }
    fn external_origin(&self, d: u32) -> ExternalOrigin { self.info.eval[d as usize] }
    fn eliminated_nulling_intermediate(&self) -> &[NullingIntermediateRule] { &self.nullmid }
    fn completions(&self, x: Symbol) -> &[PredictionTransition] { &self.comp[x.usize()] }
    fn gen_completion(&self, x: Symbol) -> [Option<PredictionTransition>; 2] { self.gencomp[x.usize() - self.nsyms] }
    fn to_internal(&self, x: Symbol) -> Option<Symbol> { self.map.get(x.usize()).map(|&y| s(y)) }
    fn to_external(&self, x: Symbol) -> Symbol { s(self.back[x.usize()].unwrap_or(0)) }
    fn dot_before_eof(&self) -> u32 { self.dot_eof }
    fn useless_symbol(&self) -> Symbol { s(self.start) }
    fn forest_info(&self) -> ForestInfo { self.info.clone() }
}

/// Spans over the internal rules: which symbol derives tokens[i..j] (tokens are internal terminals).
pub struct Spans { pub n: usize, pub t: Vec<Vec<BTreeSet<usize>>> }
pub fn spans(g: &TestGrammar, tok: &[usize]) -> Spans {
    let n = tok.len(); let mut t = vec![vec![BTreeSet::new(); n + 1]; n + 1];
    for len in 1..=n { for i in 0..=n - len { let j = i + len;
        if len == 1 { t[i][j].insert(tok[i]); }
        for q in &g.rules { if q.rhs.len() == 2 { for m in i + 1..j { if t[i][m].contains(&q.rhs[0]) && t[m][j].contains(&q.rhs[1]) { t[i][j].insert(q.lhs); break; } } } }
        loop { let mut ch = false; for q in &g.rules { if q.rhs.len() == 1 && t[i][j].contains(&q.rhs[0]) && t[i][j].insert(q.lhs) { ch = true; } } if !ch { break; } }
    } }
    Spans { n, t }
}

/// Number of derivation trees (capped) of the original grammar for original tokens, by spans.
pub struct Count<'a> { g: &'a Cfg0, tok: &'a [usize], memo: HashMap<(usize, usize, usize), u64>, busy: BTreeSet<(usize, usize, usize)>, pub cyclic: bool }
impl<'a> Count<'a> {
    pub fn new(g: &'a Cfg0, tok: &'a [usize]) -> Self { Count { g, tok, memo: HashMap::new(), busy: BTreeSet::new(), cyclic: false } }
    pub fn sym(&mut self, x: usize, i: usize, j: usize) -> u64 {
        if x >= self.g.nt { return (j == i + 1 && self.tok[i] == x) as u64; }
        if i == j { return self.null(x) as u64; }
        if let Some(&c) = self.memo.get(&(x, i, j)) { return c; }
        if !self.busy.insert((x, i, j)) { self.cyclic = true; return 0; }
        let mut c = 0u64;
        for (a, rhs) in self.g.prods.clone() { if a == x { c = (c + self.seq(&rhs, i, j)).min(1000); } }
        self.busy.remove(&(x, i, j));
        self.memo.insert((x, i, j), c); c
    }
    /// a nulled symbol is one leaf, whatever its derivations
    pub fn null(&self, x: usize) -> bool {
        let mut nl = vec![false; self.g.nt + self.g.tt];
        loop { let mut ch = false; for (a, r) in &self.g.prods { if !nl[*a] && r.iter().all(|y| nl[*y]) { nl[*a] = true; ch = true; } } if !ch { break; } }
        nl[x]
    }
    pub fn seq(&mut self, rhs: &[usize], i: usize, j: usize) -> u64 {
        if rhs.is_empty() { return (i == j) as u64; }
        if rhs.len() == 1 { return self.sym(rhs[0], i, j); }
        let mut c = 0;
        for m in i..=j {
            // (no cycles through empty spans)
            if m == i && rhs[0] >= self.g.nt { continue; }
            if m == i && i < j && !self.null(rhs[0]) { continue; }
            if m == j && i < j && !rhs[1..].iter().all(|&y| y < self.g.nt && self.null(y)) { continue; }
            let rest = self.seq(&rhs[1..], m, j); if rest > 0 { c = (c + self.sym(rhs[0], i, m) * rest).min(1000); } }
        c
    }
    /// The tree of an unambiguous derivation: leaves `t<sym>:<i>`, nulled `e<sym>`, nodes `r<prod>(..)`; symbols are the originals'.
    pub fn tree(&mut self, x: usize, i: usize, j: usize, f: &dyn Fn(usize, usize, usize, &[String]) -> String) -> String {
        if x >= self.g.nt { return f(0, x, i, &[]); }
        if i == j { return f(1, x, 0, &[]); }
        for (k, (a, rhs)) in self.g.prods.clone().iter().enumerate() { if *a == x && self.seq(rhs, i, j) > 0 {
            let mut ch = vec![]; let mut at = i;
            for q in 0..rhs.len() { for m in at..=j { if self.sym(rhs[q], at, m) > 0 && self.seq(&rhs[q + 1..], m, j) > 0 { ch.push(self.tree(rhs[q], at, m, f)); at = m; break; } } }
            return f(2, k, 0, &ch);
        } }
        "?".into()
    }
}

pub fn random_sentence(g: &Cfg0, r: &mut Rng, max: usize) -> Option<Vec<usize>> {
    let mut form = vec![0usize]; let mut out = vec![]; let mut steps = 0;
    while let Some(x) = form.pop() {
        steps += 1; if steps > 200 || out.len() > max { return None; }
        if x >= g.nt { out.push(x); continue; }
        let c: Vec<&Vec<usize>> = g.prods.iter().filter(|p| p.0 == x).map(|p| &p.1).collect();
        if c.is_empty() { return None; }
        let mut p = *r.pick(&c); if steps > 15 { p = c.iter().min_by_key(|q| q.iter().filter(|&&y| y < g.nt).count()).unwrap(); }
        for &y in p.iter().rev() { form.push(y); }
    }
    if out.len() > max { None } else { Some(out) }
}

/// A few grammars that exercise recursion, ambiguity, unit chains, middle recursion.
pub fn classics() -> Vec<Cfg0> {
    let g = |nt, tt, p: &[(usize, &[usize])]| Cfg0 { nt, tt, prods: p.iter().map(|(a, x)| (*a, x.to_vec())).collect() };
    vec![
        g(1, 1, &[(0, &[0, 1]), (0, &[1])]),                       // left recursion
        g(1, 1, &[(0, &[1, 0]), (0, &[1])]),                       // right recursion
        g(1, 1, &[(0, &[0, 0]), (0, &[1])]),                       // ambiguous
        g(1, 2, &[(0, &[1, 0, 2]), (0, &[1, 2])]),                 // middle recursion
        g(1, 2, &[(0, &[1, 0, 1]), (0, &[2, 0, 2]), (0, &[1]), (0, &[2])]), // palindromes
        g(3, 3, &[(0, &[0, 3, 1]), (0, &[1]), (1, &[1, 4, 2]), (1, &[2]), (2, &[5])]), // expressions
        g(3, 2, &[(0, &[1]), (1, &[2]), (2, &[3]), (2, &[3, 4]), (0, &[1, 4])]),
        g(2, 2, &[(0, &[1, 1, 1]), (1, &[2]), (1, &[3, 2])]),
        g(1, 1, &[(0, &[0, 0, 0]), (0, &[0, 0]), (0, &[1])]),
        g(2, 2, &[(0, &[1, 2]), (0, &[1, 3]), (1, &[2]), (1, &[1, 2])]),
        g(3, 2, &[(0, &[1, 2, 3]), (1, &[]), (1, &[3]), (2, &[4]), (2, &[])]), // nullable
        g(2, 1, &[(0, &[1, 1, 1]), (1, &[2]), (1, &[])]),
        g(3, 1, &[(0, &[1, 2, 3]), (1, &[]), (2, &[])]),
    ]
}

/// The promises a grammar's tables make each other (`promises` and `look_ok` of the recognizer proofs), on all its symbols and rules.
pub fn promises<G: Grammar>(g: &G, rules: usize) -> Result<(), String> {
    let (n, all) = (g.num_syms(), g.num_syms() + g.num_gensyms());
    let row = |x: usize| (0..n).filter(|&y| g.prediction_row(s(x)).get(y)).collect::<BTreeSet<_>>();
    let rows: Vec<BTreeSet<usize>> = (0..n).map(|x| row(x)).collect();
    let post = |d: u32| g.get_rhs1(d).map(|x| x.usize());
    let lhs = |d: u32| g.get_lhs(d).usize();
    let err = |m: String| Err(format!("the grammar's tables break a promise: {m}"));
    // every (first symbol, rule, predicted symbol)
    let mut starts_in: Vec<(usize, u32, usize)> = vec![];
    for b in 0..n {
        let c = g.completions(s(b));
        if c.windows(2).any(|w| w[0].is_unary && !w[1].is_unary) { return err(format!("completions of {b} are not binary first")); }
        for t in c { if t.is_unary != post(t.dot).is_none() { return err(format!("completion of {b} by rule {}: is_unary", t.dot)); } starts_in.push((b, t.dot, t.symbol.usize())); }
    }
    for b in n..all { let c = g.gen_completion(s(b)); for (k, t) in c.iter().enumerate() { if let Some(t) = t {
        if (k == 1) != post(t.dot).is_none() { return err(format!("internal completion of {b} by rule {}", t.dot)); } starts_in.push((b, t.dot, t.symbol.usize())); } } }
    // rows_ok
    for x in 0..n { for &y in &rows[x] { if !rows[y].is_subset(&rows[x]) { return err(format!("the row of {x} has {y} but not its row")); } } if !rows[x].contains(&x) { return err(format!("{x} does not predict itself")); } }
    // acyclic: no symbol derives itself by unary rules
    let mut seen = vec![0u8; all];
    fn visit<G: Grammar>(x: usize, g: &G, n: usize, seen: &mut Vec<u8>) -> bool {
        if seen[x] == 1 { return false; } if seen[x] == 2 { return true; }
        seen[x] = 1;
        let next: Vec<usize> = if x < n { g.completions(s(x)).iter().filter(|t| t.is_unary).map(|t| g.get_lhs(t.dot).usize()).collect() } else { g.gen_completion(s(x))[1].iter().map(|t| g.get_lhs(t.dot).usize()).collect() };
        for y in next { if !visit(y, g, n, seen) { return false; } }
        seen[x] = 2; true
    }
    for x in 0..all { if !visit(x, g, n, &mut seen) { return err(format!("{x} derives itself by unary rules")); } }
    // linked
    let pre = |r: &BTreeSet<usize>, x: usize| if x < n { r.contains(&x) } else { starts_in.iter().any(|&(b, _, y)| b == x && r.contains(&y)) };
    for x in 0..n { let r = &rows[x]; for &(b, d, y) in &starts_in {
        if r.contains(&y) && !pre(r, b) { return err(format!("the row of {x} has {y}, rule {d} begins with {b}")); }
        if pre(r, lhs(d)) && !(pre(r, b) && starts_in.iter().any(|&(b2, d2, y2)| b2 == b && d2 == d && r.contains(&y2))) { return err(format!("the row of {x} allows the left side of rule {d}, not its first symbol")); }
    } }
    for d in 0..rules as u32 { if let Some(x) = post(d) { if x >= n { return err(format!("rule {d} ends with an internal symbol")); } } }
    let (start, eof, d0) = (g.start_sym().usize(), g.eof().usize(), g.dot_before_eof());
    if start >= n { return err("start symbol".into()); }
    // eof_ok
    for &(_, d, y) in &starts_in { if d == d0 && y != start { return err(format!("the start rule is reached from {y}")); } }
    for x in 0..n { if rows[x].contains(&start) && x != start { return err(format!("{x} predicts the start symbol")); } }
    if post(d0) != Some(eof) { return err("the start rule does not end with the end of input".into()); }
    for d in 0..rules as u32 { if let Some(x) = post(d) { if x == start || x < eof || (x == eof && d != d0) { return err(format!("rule {d} ends with {x}")); } } }
    // lone, topped (P09)
    for b in 0..n { let c: Vec<u32> = g.completions(s(b)).iter().map(|t| t.dot).collect(); if c.iter().collect::<BTreeSet<_>>().len() != c.len() { return err(format!("a rule stands twice among the completions of {b}")); } }
    let tops: BTreeSet<usize> = starts_in.iter().filter(|x| x.1 == d0).map(|x| x.0).collect();
    for &b in &tops {
        if tops.len() > 1 { return err(format!("the start rule begins with {tops:?}")); }
        let of: Vec<u32> = (0..rules as u32).filter(|&d| lhs(d) == b).collect();
        if of.windows(2).any(|w| w[1] != w[0] + 1) { return err(format!("the rules {of:?} of {b} do not follow each other")); }
        let firsts: BTreeSet<usize> = starts_in.iter().filter(|x| lhs(x.1) == b).map(|x| x.0).collect();
        if firsts.len() > 1 || firsts.iter().any(|&x| (0..rules as u32).any(|d| lhs(d) == x)) { return err(format!("the rules of {b} begin with {firsts:?}")); }
    }
    // look_ok: the least `fol` there is
    let term: Vec<usize> = (0..n).filter(|&t| (0..rules as u32).all(|d| lhs(d) != t)).collect();
    let mut fol = vec![BTreeSet::new(); all];
    loop {
        let mut ch = false;
        for &(b, d, _) in &starts_in {
            if let Some(c) = post(d) { for &t in &term { if rows[c].contains(&t) && fol[b].insert(t) { ch = true; } } }
            let to = post(d).unwrap_or(b);
            let f: Vec<usize> = fol[lhs(d)].iter().copied().collect();
            for t in f { if fol[to].insert(t) { ch = true; } }
        }
        if !ch { break; }
    }
    for d in 0..rules as u32 {
        match post(d) {
            Some(c) => for &t in &term { if rows[c].contains(&t) && !g.lookahead_set(d).get(t) { return err(format!("the lookahead set of rule {d} lacks {t}")); } },
            None => { if g.rhs1_or_lhs(d) != g.get_lhs(d) { return err(format!("rhs1_or_lhs of rule {d}")); } if lhs(d) < n { for &t in &fol[lhs(d)] { if !g.lookahead_set(d).get(t) { return err(format!("the lookahead set of rule {d} lacks {t}")); } } } }
        }
    }
    for x in 0..n { for &t in &fol[x] { if !g.lhs_lr_set(s(x)).get(t) { return err(format!("the following set of {x} lacks {t}")); } } }
    Ok(())
}
