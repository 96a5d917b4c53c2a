use crate::bocage::Bocage as Compact;
use crate::common::*;
use crate::graph::Graph;
use crate::node::Node as CNode;
use crate::tg::*;
use bit_matrix::row::BitSlice;
use cfg_history::earley::*;
use cfg_symbol::Symbol;
use gearley_forest::item::Item;
use gearley_forest::node_handle::NodeHandle;
use gearley_forest::{Evaluate, Forest};
use gearley_grammar::*;
use gearley_recognizer::Recognizer;
use simple_bocage::node::Node as SNode;
use simple_bocage::Bocage as Simple;
use std::cell::RefCell;

// ---------------------------------------------------------------- P07

type N = (u8, u32, u32);
fn mk(n: N) -> CNode {
    match n.0 {
        0 => CNode::BeginSum, 1 => CNode::EndSum,
        2 => CNode::Product { action: n.1, factors: NodeHandle(n.2) }, 3 => CNode::Summand { action: n.1, factors: NodeHandle(n.2) },
        4 => CNode::Rule { left_factor: NodeHandle(n.1), right_factor: NodeHandle(n.2) },
        5 => CNode::Leaf { symbol: s(n.1 as usize), values: n.2 }, _ => CNode::NullingLeaf { symbol: s(n.1 as usize) },
    }
}
fn un(n: CNode) -> N {
    match n {
        CNode::BeginSum => (0, 0, 0), CNode::EndSum => (1, 0, 0), CNode::Product { action, factors } => (2, action, factors.0), CNode::Summand { action, factors } => (3, action, factors.0),
        CNode::Rule { left_factor, right_factor } => (4, left_factor.0, right_factor.0), CNode::Leaf { symbol, values } => (5, symbol.usize() as u32, values), CNode::NullingLeaf { symbol } => (6, symbol.usize() as u32, 0),
    }
}
fn norm(n: N) -> N { match n.0 { 0 | 1 => (n.0, 0, 0), 6 => (6, n.1, 0), _ => n } }

fn p07(c: &mut Ctx) -> Result<(), String> {
    c.stats.rule = "a node with a field of three or four bytes, read back after later appends".into();
    let mut r = Rng::new(c.seed ^ 7);
    let edge = [0u32, 1, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x7fff, 0xffff, 0x10000, 0x10100, 0xff_ffff, 0x100_0000, 0x100_0001, 0x7fff_ffff, 0x8000_0000, 0xff00_0000, 0xffff_fffe, 0xffff_ffff];
    let mut seqs: Vec<Vec<(N, bool)>> = vec![];
    for k in 0..7u8 { for &a in &edge { for &b in &edge { for e in [false, true] { seqs.push(vec![((k, a, b), e)]); } } } }
    for _ in 0..c.scale(40000, 600000) {
        let n = r.range(2, 30);
        let v = |r: &mut Rng| match r.below(3) { 0 => *r.pick(&edge), 1 => r.next() as u32 >> (8 * r.below(4)), _ => r.below(300) as u32 };
        seqs.push((0..n).map(|_| ((r.below(7) as u8, v(&mut r), v(&mut r)), r.chance(1, 3))).collect());
    }
    for q in seqs {
        if c.out_of_time() { break; }
        let d = q.clone();
        c.case(|| format!("append (kind, first, second; fixed width) {:?}", d), || {
            let mut g = Graph::with_capacity(q.len() % 5);
            let mut at: Vec<(usize, N, bool)> = vec![]; let mut wide = false;
            for &(n, e) in &q {
                at.push((g.len() as usize, norm(n), e));
                if e { g.push_expanded(mk(n)) } else { g.push(mk(n)) }
                for (k, &(p, m, ex)) in at.iter().enumerate() {
                    if k + 3 < at.len() && at.len() % 8 != 0 { continue; }
                    if un(g.get(p)) != m { return Err(format!("the node at {} reads back as {:?}, appended {:?}", p, un(g.get(p)), m)); }
                    let next = at.get(k + 1).map(|x| x.0).unwrap_or(g.len() as usize);
                    if p + g.get_node_size(p) as usize != next { return Err(format!("the node {:?} at {} reports size {}, the next one is at {}", m, p, g.get_node_size(p), next)); }
                    if ex && m.0 > 1 && g.get_node_size(p) != 9 { return Err(format!("a fixed-width node reports size {}", g.get_node_size(p))); }
                }
                if n.1 > 0xffff || n.2 > 0xffff { wide = true; }
            }
            Ok(wide)
        })?;
    }
    Ok(())
}

// ---------------------------------------------------------------- a grammar that only has forest metadata

struct InfoG(ForestInfo);
impl Grammar for InfoG {
    fn sof(&self) -> Symbol { self.0.sof } fn eof(&self) -> Symbol { self.0.eof }
    fn lhs_lr_set(&self, _: Symbol) -> &BitSlice { unimplemented!() } fn lookahead_set(&self, _: u32) -> &BitSlice { unimplemented!() }
    fn rhs1_or_lhs(&self, _: u32) -> Symbol { unimplemented!() } fn prediction_row(&self, _: Symbol) -> &BitSlice { unimplemented!() }
    fn num_syms(&self) -> usize { 0 } fn num_gensyms(&self) -> usize { 0 } fn num_rules(&self) -> usize { self.0.eval.len() }
    fn start_sym(&self) -> Symbol { self.0.start } fn externalized_start_sym(&self) -> Symbol { self.0.start } fn has_trivial_derivation(&self) -> bool { false }
    fn nulling(&self, d: u32) -> NullingEliminated { self.0.nulling_eliminated[d as usize] }
    fn events(&self) -> (&[EventAndDistance], &[EventAndDistance]) { (&[], &[]) } fn trace(&self) -> [&[ExternalDottedRule]; 3] { [&[], &[], &[]] }
    fn get_rhs1(&self, _: u32) -> Option<Symbol> { None } fn rhs1(&self) -> &[Option<Symbol>] { &[] } fn get_lhs(&self, _: u32) -> Symbol { unimplemented!() }
    fn external_origin(&self, d: u32) -> ExternalOrigin { self.0.eval[d as usize] }
    fn eliminated_nulling_intermediate(&self) -> &[NullingIntermediateRule] { &self.0.nulling_intermediate_rules }
    fn completions(&self, _: Symbol) -> &[PredictionTransition] { &[] } fn gen_completion(&self, _: Symbol) -> [Option<PredictionTransition>; 2] { [None, None] }
    fn to_internal(&self, x: Symbol) -> Option<Symbol> { Some(x) } fn to_external(&self, x: Symbol) -> Symbol { x }
    fn dot_before_eof(&self) -> u32 { 0 } fn useless_symbol(&self) -> Symbol { s(0) } fn forest_info(&self) -> ForestInfo { self.0.clone() }
}

fn rand_info(r: &mut Rng) -> ForestInfo {
    let lim = *r.pick(&[1usize, 2, 5, 12, 300]);
    let mut fi = ForestInfo::default();
    let sy = |r: &mut Rng| s(r.below(lim + 1));
    for _ in 0..r.below(5) { let x = if r.chance(1, 2) { None } else { Some((sy(r), r.chance(1, 2))) }; fi.nulling_eliminated.push(x); }
    for _ in 0..r.below(6) { fi.nulling_intermediate_rules.push([sy(r), sy(r), sy(r)]); }
    fi
}

/// what a handle names, in a form common to both forests
#[derive(Debug, Clone, PartialEq)]
enum V { Nl(u32), Leaf(u32, u32), Rule(u32, u32), Prod(u32, u32), Sum(Vec<(u32, u32)>), Bad(String) }

fn sv(b: &Simple, h: NodeHandle) -> V {
    match b[h] {
        SNode::NullingLeaf { symbol } => V::Nl(symbol.usize() as u32), SNode::Leaf { symbol, values } => V::Leaf(symbol.usize() as u32, values),
        SNode::Rule { left_factor, right_factor } => V::Rule(left_factor.0, right_factor.0), SNode::Product { action, factors } => V::Prod(action, factors.0),
        SNode::Sum { count, .. } => {
            let mut v = vec![];
            for k in 1..=count { match b[NodeHandle(h.0 + k)] { SNode::Product { action, factors } => v.push((action, factors.0)), o => return V::Bad(format!("{:?} inside a sum", o)) } }
            if count < 2 { return V::Bad(format!("an ambiguity node of {} summands", count)); }
            v.sort(); V::Sum(v)
        }
    }
}
fn cv(b: &Compact, h: NodeHandle) -> V {
    match b.get(h) {
        CNode::NullingLeaf { symbol } => V::Nl(symbol.usize() as u32), CNode::Leaf { symbol, values } => V::Leaf(symbol.usize() as u32, values),
        CNode::Rule { left_factor, right_factor } => V::Rule(left_factor.0, right_factor.0), CNode::Product { action, factors } => V::Prod(action, factors.0),
        CNode::Summand { action, factors } => {
            let n = h.0 + b.graph.get_node_size(h.0 as usize);
            match b.get(NodeHandle(n)) { CNode::EndSum => V::Prod(action, factors.0), o => V::Bad(format!("a single summand is followed by {:?}", o)) }
        }
        CNode::BeginSum => {
            let mut v = vec![]; let mut at = h.0 + 1;
            loop { match b.get(NodeHandle(at)) { CNode::Summand { action, factors } => { v.push((action, factors.0)); at += b.graph.get_node_size(at as usize); } CNode::EndSum => break, o => return V::Bad(format!("{:?} inside a sum", o)) } }
            if v.len() < 2 { return V::Bad(format!("an ambiguity node of {} summands", v.len())); }
            v.sort(); V::Sum(v)
        }
        o => V::Bad(format!("{:?}", o)),
    }
}

fn p10(c: &mut Ctx) -> Result<(), String> {
    c.stats.rule = "metadata with at least two intermediate nulling rules".into();
    let mut r = Rng::new(c.seed ^ 10);
    for _ in 0..c.scale(40000, 600000) {
        if c.out_of_time() { break; }
        let fi = rand_info(&mut r); let d = fi.clone();
        c.case(|| format!("{:?}", d), || {
            let mut syms: Vec<usize> = vec![];
            for x in fi.nulling_eliminated.iter().flatten() { syms.push(x.0.usize()); }
            for t in &fi.nulling_intermediate_rules { for y in t { syms.push(y.usize()); } }
            let a = Simple::new(InfoG(fi.clone())); let b = Compact::new(InfoG(fi.clone()));
            for &x in &syms {
                let last = fi.nulling_intermediate_rules.iter().rev().find(|t| t[0].usize() == x);
                for which in 0..2 {
                    let name = ["simple", "compact"][which];
                    let look = |h: NodeHandle| if which == 0 { sv(&a, h) } else { cv(&b, h) };
                    let nul = |y: Symbol| if which == 0 { a.nulling(y) } else { b.nulling(y) };
                    let got = look(nul(s(x)));
                    match last {
                        None => if got != V::Nl(x as u32) { return Err(format!("{} forest: the nulling handle of symbol {} names {:?}", name, x, got)); },
                        Some(t) => match got {
                            V::Prod(action, f) => {
                                if action != u32::MAX { return Err(format!("{} forest: the nulling product of symbol {} has action {}", name, x, action)); }
                                let want = V::Rule(nul(t[1]).0, nul(t[2]).0);
                                let rule = look(NodeHandle(f));
                                if rule != want { return Err(format!("{} forest: symbol {} has factors {:?}, expected {:?} for the rule {:?}", name, x, rule, want, t)); }
                            }
                            o => return Err(format!("{} forest: the nulling handle of symbol {} names {:?}, expected a product", name, x, o)),
                        }
                    }
                }
            }
            Ok(fi.nulling_intermediate_rules.len() > 1)
        })?;
    }
    Ok(())
}

// ---------------------------------------------------------------- P08

#[derive(Clone, Debug)]
enum Op { Leaf(u32, u32), Prod(usize, usize), Sum(u32, u32, Vec<(u32, usize)>) }

fn history<F: Forest<NodeRef = NodeHandle>>(f: &mut F, ops: &[Op], look: &dyn Fn(&F, NodeHandle) -> V, nl: u32) -> Result<(), String> {
    let mut hs: Vec<(NodeHandle, V)> = vec![];
    for k in 0..nl { let h = f.nulling(s(k as usize)); let v = look(f, h); hs.push((h, v)); }
    for (k, op) in ops.iter().enumerate() {
        let n = hs.len();
        let (h, want) = match op {
            Op::Leaf(a, b) => (f.leaf(s(*a as usize), 3, *b), V::Leaf(*a, *b)),
            Op::Prod(a, b) => { let (x, y) = (hs[a % n].0, hs[b % n].0); (f.product(x, y), V::Rule(x.0, y.0)) }
            Op::Sum(lhs, o, v) => {
                f.begin_sum();
                let mut w = vec![];
                for (d, x) in v { let h = hs[x % n].0; f.push_summand(Item { origin: *o, dot: *d, node: h }); w.push((*d, h.0)); }
                let h = f.sum(s(*lhs as usize), *o);
                w.sort();
                (h, if w.len() == 1 { V::Prod(w[0].0, w[0].1) } else { V::Sum(w) })
            }
        };
        let got = look(f, h);
        if got != want { return Err(format!("step {} ({:?}): the returned handle {} names {:?}, expected {:?}", k, op, h.0, got, want)); }
        hs.push((h, want));
        if k % 5 == 4 || k + 1 == ops.len() {
            for (h, w) in &hs { let g = look(f, *h); if g != *w { return Err(format!("after step {}: handle {} now names {:?}, it named {:?}", k, h.0, g, w)); } }
        }
    }
    Ok(())
}

fn p08(c: &mut Ctx) -> Result<(), String> {
    c.stats.rule = "a history with an ambiguous sum".into();
    let mut r = Rng::new(c.seed ^ 8);
    for _ in 0..c.scale(40000, 600000) {
        if c.out_of_time() { break; }
        let fi = rand_info(&mut r); let nl = if fi.max_nulling_symbol().is_some() { fi.max_nulling_symbol().unwrap() as u32 + 1 } else { 1 };
        let big = r.chance(1, 3);
        let v = |r: &mut Rng| if big { (r.next() as u32) >> (8 * r.below(4)) } else { r.below(20) as u32 };
        let n = if r.chance(1, 10) { r.range(40, 120) } else { r.range(1, 25) };
        let ops: Vec<Op> = (0..n).map(|_| match r.below(4) { 0 => Op::Leaf(v(&mut r), v(&mut r)), 1 => Op::Prod(r.below(500), r.below(500)), _ => { let m = if r.chance(1, 2) { 1 } else { r.range(2, 5) }; Op::Sum(v(&mut r), v(&mut r), (0..m).map(|_| (v(&mut r), r.below(500))).collect()) } }).collect();
        let d = (fi.clone(), ops.clone());
        c.case(|| format!("{:?}", d), || {
            history(&mut Simple::new(InfoG(fi.clone())), &ops, &|f, h| sv(f, h), nl.min(20)).map_err(|e| format!("simple forest: {}", e))?;
            history(&mut Compact::new(InfoG(fi.clone())), &ops, &|f, h| cv(f, h), nl.min(20)).map_err(|e| format!("compact forest: {}", e))?;
            Ok(ops.iter().any(|o| matches!(o, Op::Sum(_, _, v) if v.len() > 1)))
        })?;
    }
    Ok(())
}

// ---------------------------------------------------------------- P09

const CAP: usize = 80;
/// The trees a handle represents, with repetition; None: more than `cap`.
fn trees(look: &dyn Fn(NodeHandle) -> V, h: NodeHandle, cap: usize, depth: usize) -> Result<Vec<String>, String> {
    if depth > 400 { return Err("a handle names itself".into()); }
    let many = || Err("far more derivations than the grammar has".to_string());
    match look(h) {
        V::Leaf(x, v) => Ok(vec![format!("t{x}:{v}")]),
        V::Nl(x) => Ok(vec![format!("e{x}")]),
        V::Prod(a, f) => alt(look, a, NodeHandle(f), cap, depth),
        V::Sum(v) => { let mut o = vec![]; for (a, f) in v { o.extend(alt(look, a, NodeHandle(f), cap, depth)?); if o.len() > cap { return many(); } } Ok(o) }
        o => Err(format!("handle {} names {:?}, not a derivation of a symbol", h.0, o)),
    }
}
fn alt(look: &dyn Fn(NodeHandle) -> V, a: u32, f: NodeHandle, cap: usize, depth: usize) -> Result<Vec<String>, String> {
    match look(f) {
        V::Rule(l, r) => {
            let (l, r) = (trees(look, NodeHandle(l), cap, depth + 1)?, trees(look, NodeHandle(r), cap, depth + 1)?);
            if l.len() * r.len() > cap { return Err("far more derivations than the grammar has".into()); }
            Ok(l.iter().flat_map(|x| r.iter().map(move |y| format!("r{a}({x} {y})"))).collect())
        }
        _ => Ok(trees(look, f, cap, depth + 1)?.iter().map(|x| format!("r{a}({x})")).collect()),
    }
}
/// Derivations by the internal rules, with the value of every token; None: more than CAP.
struct Der<'a> { g: &'a TestGrammar, toks: &'a [Vec<(usize, u32)>], memo: std::collections::HashMap<(usize, usize, usize), Option<Vec<String>>> }
impl<'a> Der<'a> {
    fn sym(&mut self, x: usize, i: usize, j: usize) -> Option<Vec<String>> {
        if let Some(v) = self.memo.get(&(x, i, j)) { return v.clone(); }
        let mut o: Option<Vec<String>> = Some(vec![]);
        if j == i + 1 { for &(y, v) in &self.toks[i] { if y == x { o.as_mut().unwrap().push(format!("t{x}:{v}")); } } }
        let g = self.g;
        for (d, q) in g.rules.iter().enumerate() { if q.lhs != x { continue; }
            if q.rhs.len() == 1 {
                match self.sym(q.rhs[0], i, j) { Some(v) => if let Some(o) = &mut o { o.extend(v.iter().map(|y| format!("r{d}({y})"))) }, None => o = None }
            } else { for m in i + 1..j {
                let l = self.sym(q.rhs[0], i, m); if l.as_ref().map_or(false, |l| l.is_empty()) { continue; }
                let r = self.sym(q.rhs[1], m, j); if r.as_ref().map_or(false, |r| r.is_empty()) { continue; }
                match (l, r) { (Some(l), Some(r)) if l.len() * r.len() <= CAP => if let Some(o) = &mut o { for a in &l { for b in &r { o.push(format!("r{d}({a} {b})")); } } }, _ => o = None }
            } }
        }
        if o.as_ref().map_or(false, |o| o.len() > CAP) { o = None; }
        self.memo.insert((x, i, j), o.clone()); o
    }
}

fn p09(c: &mut Ctx) -> Result<(), String> {
    c.stats.rule = "an input with at least two derivations".into();
    let mut r = Rng::new(c.seed ^ 9);
    for k in 0..c.scale(25000, 300000) {
        if c.out_of_time() { break; }
        let cl = classics();
        let src = if k < cl.len() * 6 { cl[k % cl.len()].clone() } else { random_cfg(&mut r, k % 3 == 1) };
        let g = match compile(&src, &mut r) { Some(g) => g, None => continue };
        // the precondition of the whole-run theorem
        if let Err(e) = promises(&&g, g.rules.len()) { eprintln!("{e} ({:?})", g.src); std::process::exit(3); }
        for round in 0..6 {
            let t = match random_sentence(&g.src, &mut r, 8) { Some(t) => t, None => continue };
            let mut toks = vec![g.sof]; toks.extend(t.iter().map(|&t| g.map[t]));
            let mut val = |r: &mut Rng| match r.below(3) { 0 => r.below(5) as u32, 1 => r.next() as u32, _ => r.below(70000) as u32 };
            // one or (rounds 2 and 5) several tokens read at a position
            let toks: Vec<Vec<(usize, u32)>> = toks.iter().enumerate().map(|(k, &t)| {
                let mut v = vec![(t, val(&mut r))];
                if round % 3 == 2 && k > 0 { while r.chance(1, 3) { let y = if r.chance(1, 4) { t } else { g.map[g.src.nt + r.below(g.src.tt)] }; v.push((y, val(&mut r))); } let n = r.below(v.len()); v.rotate_left(n); }
                v }).collect();
            let root = g.rules[g.dot_eof as usize].rhs[0];
            let Some(mut want) = (Der { g: &g, toks: &toks, memo: Default::default() }).sym(root, 0, toks.len()) else { continue };
            if want.is_empty() { continue; }
            want.sort();
            let hints: Vec<Option<usize>> = (0..toks.len()).map(|k| if round % 2 == 1 && r.chance(2, 3) && toks.get(k + 1).map_or(true, |v| v.iter().all(|x| x.0 == v[0].0)) { Some(toks.get(k + 1).map_or(g.eof, |v| v[0].0)) } else { None }).collect();
            // an abandoned parse before, on the same recognizer
            let before: Vec<Vec<(usize, u32)>> = if round >= 4 { let n = r.below(toks.len() + 1); toks[..n].to_vec() } else { vec![] };
            let d = || format!("grammar {:?}; internal rules {:?}; internal tokens with values, by position {:?}; hints {:?}; read before a reset: {:?}", g.src, g.rules.iter().map(|q| (q.lhs, &q.rhs)).collect::<Vec<_>>(), toks, hints, before);
            c.case(d, || {
                for which in 0..2 {
                    let name = ["simple", "compact"][which];
                    let mut got = if which == 0 { read(&g, Simple::new(&g), &toks, &hints, &before, &|f, h| sv(f, h)) } else { read(&g, Compact::new(&g), &toks, &hints, &before, &|f, h| cv(f, h)) }.map_err(|e| format!("{name} forest: {e}"))?;
                    got.sort();
                    if got != want {
                        let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).take(2).collect(); let miss: Vec<_> = want.iter().filter(|x| !got.contains(x)).take(2).collect();
                        return Err(format!("{name} forest: the finished node represents {} derivations, the grammar has {}; only in the forest: {:?}; missing: {:?}", got.len(), want.len(), extra, miss));
                    }
                }
                Ok(want.len() > 1)
            })?;
        }
    }
    Ok(())
}
fn read<F: Forest<NodeRef = NodeHandle>>(g: &TestGrammar, f: F, toks: &[Vec<(usize, u32)>], hints: &[Option<usize>], before: &[Vec<(usize, u32)>], look: &dyn Fn(&F, NodeHandle) -> V) -> Result<Vec<String>, String> {
    let mut rec = Recognizer::with_forest(g, f);
    for v in before { rec.begin_earleme(); for &(t, x) in v { rec.scan(s(t), x ^ 1); } if !rec.end_earleme() { break; } }
    if !before.is_empty() { rec.reset(); }
    for (k, v) in toks.iter().enumerate() {
        rec.begin_earleme();
        if let Some(h) = hints[k] { use gearley_recognizer::lookahead::Lookahead; rec.lookahead().set_hint(s(h)); }
        for &(t, x) in v { rec.scan(s(t), x); }
        if !rec.end_earleme() { return Err(format!("token {k} is rejected")); }
    }
    let h = rec.finished_node().ok_or("the input is not accepted")?;
    let f = rec.into_forest();
    trees(&|h| look(&f, h), h, 3 * CAP, 0)
}

// ---------------------------------------------------------------- P23

/// Results are strings; every call is logged.
#[derive(Default)]
struct Ev { log: RefCell<Vec<String>> }
impl Evaluate for &Ev {
    type Elem = String;
    fn leaf(&self, t: Symbol, v: u32) -> String { let x = format!("t{}:{}", t.usize(), v); self.log.borrow_mut().push(x.clone()); x }
    fn product<'a>(&self, a: u32, args: impl Iterator<Item = &'a String>) -> String { let x = format!("r{}({})", a, args.cloned().collect::<Vec<_>>().join(",")); self.log.borrow_mut().push(x.clone()); x }
    fn nulling<'r>(&self, t: Symbol, results: &'r mut Vec<String>) { let x = format!("e{}", t.usize()); self.log.borrow_mut().push(x.clone()); results.push(x); }
}

trait Go: Forest<NodeRef = NodeHandle> + Sized { fn make(g: &TestGrammar) -> Self; fn go(&mut self, e: &Ev, h: NodeHandle) -> Vec<String>; }
impl Go for Simple { fn make(g: &TestGrammar) -> Self { Simple::new(g) } fn go(&mut self, e: &Ev, h: NodeHandle) -> Vec<String> { self.evaluate(e, h) } }
impl Go for Compact { fn make(g: &TestGrammar) -> Self { Compact::new(g) } fn go(&mut self, e: &Ev, h: NodeHandle) -> Vec<String> { self.evaluate(e, h) } }

/// None: not accepted
fn eval<F: Go>(g: &TestGrammar, orig: &[usize], before_any: bool) -> Option<(Vec<String>, Vec<String>, Vec<String>)> {
    let mut rec = Recognizer::with_forest(g, F::make(g));
    if !before_any {
        let mut toks = vec![g.sof]; toks.extend(orig.iter().map(|&t| g.map[t]));
        for (k, t) in toks.iter().enumerate() { rec.begin_earleme(); rec.scan(s(*t), k as u32); if !rec.end_earleme() { return None; } }
    }
    let h = rec.finished_node()?;
    let mut f = rec.into_forest();
    let e = Ev::default();
    let a = f.go(&e, h);
    let log = e.log.borrow().clone();
    let e2 = Ev::default();
    let b = f.go(&e2, h); // a second evaluation of the same forest
    Some((a, log, b))
}

fn post(t: &str, out: &mut Vec<String>, depth: usize) {
    // splits "r3(a,b)" into its children, postorder
    if let Some(p) = t.find('(') {
        let inner = &t[p + 1..t.len() - 1]; let mut d = 0; let mut st = 0;
        if !inner.is_empty() {
            for (i, ch) in inner.char_indices() { match ch { '(' => d += 1, ')' => d -= 1, ',' if d == 0 => { post(&inner[st..i], out, depth + 1); st = i + 1; } _ => {} } }
            post(&inner[st..], out, depth + 1);
        }
    }
    out.push(t.to_string());
}

fn p23(c: &mut Ctx) -> Result<(), String> {
    c.stats.rule = "an unambiguous parse of at least three tokens".into();
    let mut r0 = Rng::new(c.seed ^ 23);
    for k in 0..c.scale(25000, 300000) {
        if c.out_of_time() { break; }
        let cl = classics();
        let src = if k < cl.len() * 6 { cl[k % cl.len()].clone() } else { random_cfg(&mut r0, k % 3 == 1) };
        let g = match compile(&src, &mut r0) { Some(g) => g, None => continue };
        for _ in 0..6 {
            let t = match random_sentence(&g.src, &mut r0, 9) { Some(t) => t, None => continue };
            let mut cnt = Count::new(&g.src, &t);
            let n = cnt.sym(0, 0, t.len());
            if n != 1 || cnt.cyclic { continue; }
            let map = g.map.clone();
            let want = cnt.tree(0, 0, t.len(), &|kind, x, i, ch| match kind { 0 => format!("t{}:{}", map[x], i + 1), 1 => format!("e{}", map[x]), _ => format!("r{}({})", x, ch.join(",")) });
            let mut calls = vec![]; post(&want, &mut calls, 0);
            c.case(|| format!("grammar {:?}; internal rules {:?}; tokens {:?}", g.src, g.rules, t), || {
                for which in 0..2 {
                    let name = ["simple", "compact"][which];
                    let got = if which == 0 { eval::<Simple>(&g, &t, false) } else { eval::<Compact>(&g, &t, false) };
                    let (v, log, again) = got.ok_or(format!("{} forest: the input was not accepted", name))?;
                    if v != vec![want.clone()] { return Err(format!("{} forest: evaluation gives {:?}, expected {:?}", name, v, want)); }
                    if log != calls { return Err(format!("{} forest: evaluator calls {:?}, expected {:?}", name, log, calls)); }
                    if again != v { return Err(format!("{} forest: a second evaluation gives {:?}, the first gave {:?}", name, again, v)); }
                    if g.trivial && t.is_empty() {
                        let got = if which == 0 { eval::<Simple>(&g, &t, true) } else { eval::<Compact>(&g, &t, true) };
                        if let Some((v, log, _)) = got {
                            if v.len() != 1 || log.len() != 1 { return Err(format!("{} forest: evaluating the trivial parse before any input gives {:?} with calls {:?}", name, v, log)); }
                        } else { return Err(format!("{} forest: no trivial parse before any input", name)); }
                    }
                }
                Ok(t.len() > 2)
            })?;
        }
    }
    Ok(())
}

pub fn main() { main_with(&[("P07", p07), ("P08", p08), ("P10", p10), ("P09", p09), ("P23", p23)]) }
