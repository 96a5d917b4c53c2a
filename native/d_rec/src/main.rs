//! The recognizer against a span table. Uses the crate through its public interface only.
#[path = "../../common.rs"]
mod common;
#[path = "../../shared/tg.rs"]
mod tg;
use cfg_symbol::Symbol;
use common::*;
use gearley_forest::item::Item;
use gearley_forest::{Forest, NullForest};
use gearley_grammar::Grammar;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::Recognizer;
use std::collections::BTreeSet;
use tg::*;

/// A forest that records which items and links it was given.
#[derive(Default, Debug)]
struct Log { n: u32, sums: Vec<Vec<(u32, u32)>>, cur: Option<Vec<(u32, u32)>> }
impl Forest for Log {
    type NodeRef = u32;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 0;
    fn begin_sum(&mut self) { self.cur = Some(vec![]); }
    fn push_summand(&mut self, i: Item<u32>) { DONE.with(|d| d.borrow_mut().push((i.origin, i.dot))); self.cur.as_mut().unwrap().push((i.origin, i.dot)); }
    fn sum(&mut self, _: Symbol, _: u32) -> u32 { let c = self.cur.take().unwrap(); self.sums.push(c); self.n += 1; self.n }
    fn product(&mut self, _: u32, _: u32) -> u32 { self.n += 1; self.n }
    fn leaf(&mut self, _: Symbol, _: u32, _: u32) -> u32 { self.n += 1; self.n }
    fn nulling(&self, _: Symbol) -> u32 { 0 }
}

thread_local! { static DONE: std::cell::RefCell<Vec<(u32, u32)>> = Default::default(); }
/// The completed matches (origin, rule) worked off since the last call.
fn take_done() -> Vec<(u32, u32)> { DONE.with(|d| std::mem::take(&mut *d.borrow_mut())) }

type Rec<'g> = Recognizer<&'g TestGrammar, Log>;
fn new_rec(g: &TestGrammar) -> Rec<'_> { Recognizer::with_forest(g, Log::default()) }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Hint { None, True, Some, Random }

/// Sets the recognizer should hold, in true (uncompacted) positions. Computed from the span table only.
struct Oracle<'g> { g: &'g TestGrammar, tok: Vec<usize>, pred: Vec<BTreeSet<usize>>, items: Vec<BTreeSet<(usize, u32)>> }
impl<'g> Oracle<'g> {
    fn new(g: &'g TestGrammar) -> Self {
        let row = |x: usize| (0..g.nsyms).filter(|&y| g.pred[(x, y)]).collect::<BTreeSet<_>>();
        Oracle { g, tok: vec![], pred: vec![row(g.start)], items: vec![BTreeSet::new()] }
    }
    fn push(&mut self, t: usize) {
        self.tok.push(t);
        let sp = spans(self.g, &self.tok);
        let e = self.tok.len();
        let mut it = BTreeSet::new();
        for o in 0..e { for (d, q) in self.g.rules.iter().enumerate() {
            if q.rhs.len() == 2 && self.pred[o].contains(&self.g.vis[q.lhs]) && sp.t[o][e].contains(&q.rhs[0]) { it.insert((o, d as u32)); }
        } }
        let mut p = BTreeSet::new();
        for (_, d) in &it { let x = self.g.rules[*d as usize].rhs[1]; for y in 0..self.g.nsyms { if self.g.pred[(x, y)] { p.insert(y); } } }
        self.pred.push(p); self.items.push(it);
    }
    /// no partial or completed match at the last position
    fn dead(&self) -> bool {
        let e = self.tok.len(); let sp = spans(self.g, &self.tok);
        self.items[e].is_empty() && !(0..e).any(|o| self.g.rules.iter().any(|q| q.rhs.len() == 1 && self.pred[o].contains(&self.g.vis[q.lhs]) && sp.t[o][e].contains(&q.rhs[0])))
    }
}

fn finished(g: &TestGrammar, items: &BTreeSet<(usize, u32)>) -> bool { items.iter().any(|x| x.1 == g.dot_eof) }
fn itemset(r: &Rec) -> Vec<(u32, u32)> { r.medial_items().map(|i| (i.origin, i.dot)).collect() }
fn preds(r: &Rec) -> BTreeSet<usize> { r.predicted_symbols().map(|x| x.usize()).collect() }

fn setup(c: &mut Ctx, seed: u64, nullable: bool) -> Option<(TestGrammar, Rng)> {
    let mut r = Rng::new(c.seed.wrapping_mul(1_000_003).wrapping_add(seed));
    let cl = classics();
    let g0 = if (seed as usize) < 3 * cl.len() { cl[seed as usize % cl.len()].clone() } else { random_cfg(&mut r, nullable) };
    let g0 = if seed % 13 == 7 { widen(g0, &mut r) } else { g0 };
    let g = compile(&g0, &mut r)?;
    // the precondition of the whole-run theorem
    if let Err(e) = promises(&&g, g.rules.len()) { eprintln!("{e} ({:?})", g.src); std::process::exit(3); }
    Some((g, r))
}

/// More terminals than one block of a bit row holds.
fn widen(mut g: Cfg0, r: &mut Rng) -> Cfg0 {
    let a = r.below(g.nt);
    for _ in 0..r.range(25, 80) {
        let t = g.nt + g.tt; g.tt += 1;
        g.prods.push((a, if r.chance(1, 8) { vec![t, t] } else { vec![t] }));
    }
    g
}

/// Input tokens (internal), mostly sentences or near-sentences.
fn input(g: &TestGrammar, r: &mut Rng, max: usize) -> Vec<usize> {
    let mut t: Vec<usize> = match r.below(4) {
        0 => (0..r.below(max + 1)).map(|_| g.src.nt + r.below(g.src.tt)).collect(),
        _ => { let mut x = None; for _ in 0..8 { if let Some(y) = random_sentence(&g.src, r, max) { if x.as_ref().map_or(true, |z: &Vec<usize>| z.len() < y.len()) { x = Some(y); } } } x.unwrap_or_default() }
    };
    if r.chance(1, 4) && !t.is_empty() { let k = r.below(t.len()); t[k] = g.src.nt + r.below(g.src.tt); }
    if r.chance(1, 6) { t.push(g.src.nt + r.below(g.src.tt)); }
    t.iter().map(|&x| g.map[x]).collect()
}

fn show(g: &TestGrammar, t: &[usize]) -> String {
    format!("grammar (nonterminals 0..{}, terminals up to {}): {:?}; internal rules {:?}; tokens (internal, after the start marker {}): {:?}", g.src.nt, g.src.nt + g.src.tt, g.src.prods, g.rules.iter().map(|q| (q.lhs, &q.rhs)).collect::<Vec<_>>(), g.sof, t)
}

#[derive(Clone, Copy, PartialEq)]
enum What { P11, P12, P13, P14, P17, P24 }

fn run(g: &TestGrammar, toks: &[usize], hint: Hint, w: What, r: &mut Rng) -> Result<bool, String> {
    let mut o = Oracle::new(g);
    let mut rec = new_rec(g);
    let mut phys: Vec<usize> = vec![0]; // true position of each retained position
    // Some set may be compacted away: what every retained position held
    let mut held: Vec<(Vec<(u32, u32)>, BTreeSet<usize>)> = vec![];
    let mut all = vec![g.sof]; all.extend_from_slice(toks);
    let mut interesting = false;
    for (k, &t) in all.iter().enumerate() {
        rec.begin_earleme();
        let e = rec.earleme();
        let here: Vec<(u32, u32)> = itemset(&rec); let pr = preds(&rec);
        let true_here: BTreeSet<(usize, u32)> = here.iter().map(|&(q, d)| (*phys.get(q as usize).unwrap_or(&usize::MAX), d)).collect();
        if phys.len() != e + 1 { return Err(format!("position number is {} where {} was expected (before token {})", e, phys.len() - 1, k)); }
        let exact = hint == Hint::None;
        if w == What::P11 {
            let mut want: BTreeSet<usize> = BTreeSet::new();
            if k == 0 { for y in 0..g.nsyms { if g.pred[(g.start, y)] { want.insert(y); } } }
            for &(_, d) in &here { let x = g.rules[d as usize].rhs.get(1).ok_or(format!("a partial match of rule {} expects nothing", d))?; for y in 0..g.nsyms { if g.pred[(*x, y)] { want.insert(y); } } }
            if pr != want { return Err(format!("before token {}: predicted {:?}, the expected symbols' rows give {:?}", k, pr, want)); }
            if pr.len() > 3 { interesting = true; }
        }
        if w == What::P12 {
            for i in &true_here { if !o.items[k].contains(i) { return Err(format!("after {} tokens the partial match (origin {}, rule {}) is not justified by the input", k, i.0, i.1)); } }
            if rec.is_finished() && !finished(g, &o.items[k]) { return Err(format!("after {} tokens a finished parse is reported, but the grammar does not derive them", k)); }
            if here.len() > 2 { interesting = true; }
        }
        if w == What::P13 && exact {
            for i in &o.items[k] { if !true_here.contains(i) { return Err(format!("after {} tokens the partial match (origin {}, rule {}) is missing", k, i.0, i.1)); } }
        }
        if w == What::P17 && k > 0 {
            let mut prev = None;
            for &(_, d) in &here { let x = g.rhs1[d as usize]; if prev.is_some() && x < prev.unwrap() { return Err(format!("after {} tokens the partial matches are not sorted by next expected symbol: {:?}", k, here)); } prev = Some(x); }
        }
        if w == What::P24 {
            let ps: Vec<usize> = pr.iter().copied().collect();
            let e1: Vec<_> = ps.iter().map(|&x| g.ev_pred[x]).chain(here.iter().map(|i| g.ev_flat[i.1 as usize])).collect();
            let got: Vec<_> = rec.events().collect();
            if got != e1 { return Err(format!("events before token {}: {:?}, expected {:?}", k, got, e1)); }
            let d1: Vec<u32> = e1.iter().map(|x| x.1.distance).collect();
            if rec.minimal_distances().collect::<Vec<_>>() != d1 { return Err(format!("minimal distances before token {} are not those of the events", k)); }
            let t1: Vec<_> = ps.iter().map(|&x| (g.tr[0][x], e)).chain(here.iter().map(|i| (g.tr[1][i.1 as usize], i.0 as usize))).collect();
            let got: Vec<_> = rec.trace().collect();
            if got != t1 { return Err(format!("trace before token {}: {:?}, expected {:?}", k, got, t1)); }
            let x1: Vec<Symbol> = here.iter().map(|i| s(g.rules[i.1 as usize].rhs[1])).collect();
            if rec.expected_terminals().collect::<Vec<_>>() != x1 { return Err(format!("expected symbols before token {} are not those of the partial matches", k)); }
            if here.len() > 1 { interesting = true; }
        }
        if w == What::P14 {
            // every retained position still holds what it held
            if held.len() != e { return Err(format!("position {} but {} positions retained", e, held.len())); }
        }
        held.push((here.clone(), pr.clone()));
        match hint {
            Hint::None => {}
            Hint::True => match all.get(k + 1) { Some(&n) => rec.lookahead().set_hint(s(n)), None => rec.lookahead().clear_hint() },
            Hint::Some => { if r.chance(1, 2) { if let Some(&n) = all.get(k + 1) { rec.lookahead().set_hint(s(n)) } } }
            Hint::Random => { if r.chance(2, 3) { let x = r.below(g.nsyms); rec.lookahead().set_hint(s(x)); } }
        }
        // scanning something that is not expected changes nothing
        if w == What::P17 && r.chance(1, 2) {
            let x = r.below(g.nsyms);
            if !pr.contains(&x) && !here.iter().any(|i| g.rules[i.1 as usize].rhs[1] == x) {
                let before = itemset(&rec);
                rec.scan(s(x), 7);
                if !rec.is_exhausted() || itemset(&rec) != before { return Err(format!("scanning the unexpected symbol {} before token {} changed the matches", x, k)); }
            }
        }
        rec.scan(s(t), k as u32);
        let dead_before = rec.is_exhausted();
        take_done();
        o.push(t);
        let ok = rec.end_earleme();
        if w == What::P12 {
            // completed matches: predicted at their origin, and the whole rule derives the tokens from there
            let done = take_done(); let n = o.tok.len();
            if !done.is_empty() { let sp = spans(g, &o.tok); for (q, d) in done {
                let to = *phys.get(q as usize).ok_or(format!("a completed match of rule {d} begins at position {q}"))?; let u = &g.rules[d as usize];
                if !o.pred[to].contains(&g.vis[u.lhs]) { return Err(format!("over token {k} rule {d} is completed from position {to}, where its left side was not predicted")); }
                if !(if u.rhs.len() == 1 { sp.t[to][n].contains(&u.rhs[0]) } else { (to + 1..n).any(|m| sp.t[to][m].contains(&u.rhs[0]) && sp.t[m][n].contains(&u.rhs[1])) }) { return Err(format!("over token {k} rule {d} is completed from position {to}, but it does not derive those tokens")); }
            } }
        }
        if w == What::P17 {
            if ok == dead_before { return Err(format!("advancing over token {} reported {}, but a match was {}", k, ok, if dead_before { "not produced" } else { "produced" })); }
            if exact && ok == o.dead() { return Err(format!("advancing over token {} reported {}, but the input has {} match here", k, ok, if o.dead() { "no" } else { "a" })); }
            if rec.is_exhausted() && ok && exact && !o.items[k + 1].is_empty() { return Err("partial matches lost".into()); }
            if !ok { interesting = true; }
        }
        if !ok {
            if w == What::P13 && hint != Hint::Random && derives(g, &all[1..]) { return Err(format!("the grammar derives the input, but advancing over token {} failed", k)); }
            if w == What::P14 { return Ok(interesting); }
            return Ok(interesting);
        }
        if w == What::P13 {
            // prefix acceptance
            if exact && finished(g, &o.items[k + 1]) && !rec.is_finished() { return Err(format!("the grammar derives the first {} tokens, but no finished parse is reported", k)); }
            if k + 1 == all.len() && hint != Hint::Random && derives(g, &all[1..]) {
                if !rec.is_finished() { return Err("the grammar derives the input, but no finished parse is reported".into()); }
                interesting = true;
            }
        }
        if w == What::P12 && rec.is_finished() && !derives(g, &all[1..k + 1]) { return Err(format!("a finished parse is reported for the first {} tokens, but the original grammar does not derive them", k)); }
        // where the recognizer stands now
        let now: Vec<(u32, u32)> = { /* the current set is only public after the next begin */ vec![] };
        let _ = now;
        let _e2 = rec.earleme();
        let m = if exact { o.items[k + 1].iter().map(|x| x.0).max() } else { None };
        // new position number
        let kept = _e2;
        if kept > e { return Err(format!("the position number grew from {} to {} while advancing", e, kept)); }
        if w == What::P14 && exact {
            let mx = m.and_then(|q| phys.iter().position(|&x| x == q));
            let want = match mx { Some(q) if q < e && q > 0 => q, _ => e };
            if kept != want { return Err(format!("after token {} the position number is {}, the highest origin of a partial match is {:?} of {} (expected {})", k, kept, mx, e, want)); }
            if kept < e { interesting = true; }
        }
        phys.truncate(kept + 1); held.truncate(kept + 1);
        phys.push(k + 1);
        if w == What::P14 {
            // retained positions unchanged: completing from them must still give exactly the oracle's items (checked at the next begin)
            let mut probe = vec![];
            std::mem::swap(&mut probe, &mut held); held = probe;
        }
        if w == What::P14 && exact && k + 1 < all.len() {
            // the current set in the next round must be the oracle's
            // (checked below through `here` of the next iteration)
        }
        if w == What::P14 && exact {
            rec_check_next(&mut rec, g, &o, k, &phys, all.get(k + 1).copied())?;
        }
    }
    // last position
    if w == What::P12 || w == What::P13 {
        rec.begin_earleme();
        let here: BTreeSet<(usize, u32)> = itemset(&rec).iter().map(|&(q, d)| (*phys.get(q as usize).unwrap_or(&usize::MAX), d)).collect();
        let k = all.len();
        if w == What::P12 { for i in &here { if !o.items[k].contains(i) { return Err(format!("at the end the partial match (origin {}, rule {}) is not justified", i.0, i.1)); } } }
        if w == What::P13 && hint == Hint::None { for i in &o.items[k] { if !here.contains(i) { return Err(format!("at the end the partial match (origin {}, rule {}) is missing", i.0, i.1)); } } }
    }
    Ok(interesting)
}

/// After an advance: nothing to look at until the next position is begun; kept as a hook for P14.
fn rec_check_next(_r: &mut Rec, _g: &TestGrammar, _o: &Oracle, _k: usize, _p: &[usize], _t: Option<usize>) -> Result<(), String> { Ok(()) }

/// The original grammar derives the tokens (internal names), by the span counter.
fn derives(g: &TestGrammar, tok: &[usize]) -> bool {
    let t: Vec<usize> = match tok.iter().map(|&x| g.back[x]).collect::<Option<Vec<_>>>() { Some(t) => t, None => return false };
    let mut c = Count::new(&g.src, &t);
    let n = c.sym(0, 0, t.len());
    n > 0
}

fn sweep(c: &mut Ctx, w: What, hints: &[Hint], quick: usize, thorough: usize, rule: &str) -> Result<(), String> {
    c.stats.rule = rule.into();
    for seed in 0..c.scale(quick * 12, thorough * 40) as u64 {
        if c.out_of_time() { break; }
        let nullable = seed % 3 == 2;
        if let Some((g, mut r)) = setup(c, seed, nullable) {
            for _ in 0..4 {
                let t = input(&g, &mut r, if seed % 17 == 3 { 22 } else { 9 });
                for &h in hints {
                    let sd = r.next();
                    c.case(|| format!("{}; hints {:?}", show(&g, &t), h), || run(&g, &t, h, w, &mut Rng::new(sd)))?;
                }
            }
        }
    }
    Ok(())
}

fn p11(c: &mut Ctx) -> Result<(), String> { sweep(c, What::P11, &[Hint::None, Hint::True, Hint::Some], 900, 12000, "a position where more than three symbols are predicted") }
fn p12(c: &mut Ctx) -> Result<(), String> { sweep(c, What::P12, &[Hint::None, Hint::True, Hint::Some, Hint::Random], 700, 9000, "a position with more than two partial matches") }
fn p13(c: &mut Ctx) -> Result<(), String> { sweep(c, What::P13, &[Hint::None, Hint::True, Hint::Some], 900, 12000, "an input the grammar derives") }
fn p17(c: &mut Ctx) -> Result<(), String> { sweep(c, What::P17, &[Hint::None, Hint::True, Hint::Some], 900, 12000, "a failing advance") }
fn p24(c: &mut Ctx) -> Result<(), String> { sweep(c, What::P24, &[Hint::None, Hint::True, Hint::Some], 900, 12000, "a position with several partial matches") }

/// Discarding positions: position numbers, and the sets of every position retained, against the oracle.
fn p14(c: &mut Ctx) -> Result<(), String> {
    sweep(c, What::P14, &[Hint::None], 900, 12000, "an advance that discards positions")?;
    sweep(c, What::P13, &[Hint::None], 500, 6000, "an advance that discards positions")?;
    sweep(c, What::P12, &[Hint::None], 500, 6000, "an advance that discards positions")
}

/// Everything observable while `toks` are read with `hints`.
fn observe(rec: &mut Rec, toks: &[(usize, Option<usize>)]) -> Vec<String> {
    let mut out = vec![];
    for &(t, h) in toks {
        rec.begin_earleme();
        out.push(format!("position {} items {:?} predicted {:?} events {:?}", rec.earleme(), itemset(rec), preds(rec), rec.events().map(|x| x.0.id).collect::<Vec<_>>()));
        if let Some(h) = h { rec.lookahead().set_hint(s(h)); }
        rec.scan(s(t), 1);
        let ok = rec.end_earleme();
        out.push(format!("token {} -> {} finished {}", t, ok, ok && rec.is_finished()));
        if !ok { return out; }
    }
    rec.begin_earleme();
    out.push(format!("position {} items {:?} predicted {:?}", rec.earleme(), itemset(rec), preds(rec)));
    out
}

fn p16(c: &mut Ctx) -> Result<(), String> {
    c.stats.rule = "a reset after a failed or abandoned parse".into();
    for seed in 0..c.scale(20000, 800000) as u64 {
        if c.out_of_time() { break; }
        if let Some((g, mut r)) = setup(c, seed, seed % 3 == 2) {
            let long = if seed % 17 == 3 { 20 } else { 8 }; let (a, b) = (input(&g, &mut r, long), input(&g, &mut r, long));
            let hint = |r: &mut Rng, v: &[usize]| -> Vec<(usize, Option<usize>)> {
                let mut all = vec![g.sof]; all.extend_from_slice(v); let m = r.below(3);
                (0..all.len()).map(|k| (all[k], match m { 0 => None, 1 => all.get(k + 1).copied(), _ => if r.chance(1, 2) { Some(r.below(g.nsyms)) } else { None } })).collect()
            };
            let (ha, hb) = (hint(&mut r, &a), hint(&mut r, &b));
            let stop = r.below(4); let cut = r.range(0, ha.len());
            let d = || format!("{}; read {:?} (symbol, hint) {}, reset, then read {:?}", show(&g, &a), &ha[..cut], ["completely", "up to a begun position", "up to a scan", "up to a hint"][stop], hb);
            c.case(d, || {
                let mut rec = new_rec(&g);
                let mut failed = false;
                for &(t, h) in &ha[..cut] {
                    rec.begin_earleme(); if let Some(h) = h { rec.lookahead().set_hint(s(h)); } rec.scan(s(t), 3);
                    if !rec.end_earleme() { failed = true; break; }
                }
                if !failed && stop > 0 {
                    rec.begin_earleme();
                    if stop > 2 { rec.lookahead().set_hint(s(0)); }
                    if stop > 1 { if let Some(x) = preds(&rec).into_iter().next() { rec.scan(s(x), 4); } }
                }
                rec.reset();
                let got = observe(&mut rec, &hb);
                let want = observe(&mut new_rec(&g), &hb);
                if got != want { let k = got.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(got.len().min(want.len())); return Err(format!("after the reset: {:?}\na new recognizer: {:?}", got.get(k), want.get(k))); }
                Ok(failed || stop > 0)
            })?;
        }
    }
    Ok(())
}

fn main() {
    let _ = (NullForest, std::mem::size_of::<Rec>());
    main_with(&[("P11", p11), ("P12", p12), ("P13", p13), ("P14", p14), ("P16", p16), ("P17", p17), ("P24", p24)])
}
