//! Parsing a whole token list against reading it token by token.
#[path = "../../common.rs"]
mod common;
#[path = "../../shared/tg.rs"]
mod tg;
use cfg_symbol::Symbol;
use common::*;
use gearley_forest::item::Item;
use gearley_forest::Forest;
use gearley_grammar::Grammar;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::Recognizer;
use gearley_utils::RecognizerParseExt;
use tg::*;

/// A forest that records every call it gets.
#[derive(Default, Debug, PartialEq)]
struct Log { calls: Vec<(&'static str, u32, u32, u32)> }
impl Forest for Log {
    type NodeRef = u32;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 0;
    fn begin_sum(&mut self) { self.calls.push(("begin", 0, 0, 0)); }
    fn push_summand(&mut self, i: Item<u32>) { self.calls.push(("summand", i.origin, i.dot, i.node)); }
    fn sum(&mut self, x: Symbol, o: u32) -> u32 { self.calls.push(("sum", x.usize() as u32, o, 0)); self.calls.len() as u32 }
    fn product(&mut self, a: u32, b: u32) -> u32 { self.calls.push(("product", a, b, 0)); self.calls.len() as u32 }
    fn leaf(&mut self, x: Symbol, p: u32, v: u32) -> u32 { self.calls.push(("leaf", x.usize() as u32, p, v)); self.calls.len() as u32 }
    fn nulling(&self, _: Symbol) -> u32 { 0 }
}

fn state(r: &Recognizer<&TestGrammar, Log>) -> String {
    format!("position {} finished {} partial matches {:?}", r.earleme(), r.is_finished(), r.medial_items().map(|i| (i.origin, i.dot)).collect::<Vec<_>>())
}

fn p26(c: &mut Ctx) -> Result<(), String> {
    c.stats.rule = "a list that fails after its first token".into();
    for seed in 0..c.scale(30000, 800000) as u64 {
        if c.out_of_time() { break; }
        let mut r = Rng::new(c.seed.wrapping_mul(1_000_003).wrapping_add(seed));
        let cl = classics();
        let g0 = if (seed as usize) < 3 * cl.len() { cl[seed as usize % cl.len()].clone() } else { random_cfg(&mut r, seed % 3 == 2) };
        let Some(g) = compile(&g0, &mut r) else { continue };
        for _ in 0..3 {
            let mut t: Vec<usize> = match r.below(3) { 0 => (0..r.below(6)).map(|_| g0.nt + r.below(g0.tt)).collect(), _ => random_sentence(&g0, &mut r, 10).unwrap_or_default() };
            if r.chance(1, 3) && !t.is_empty() { let k = r.below(t.len()); t[k] = g0.nt + r.below(g0.tt); }
            if r.chance(1, 5) { t.push(g0.nt + r.below(g0.tt)); }
            t.retain(|&x| g.map.get(x).is_some());
            let d = || format!("grammar (nonterminals 0..{}, terminals up to {}): {:?}; tokens {:?}", g0.nt, g0.nt + g0.tt, g0.prods, t);
            c.case(d, || {
                // token by token
                let mut rec = Recognizer::with_forest(&g, Log::default());
                rec.begin_earleme(); rec.scan(g.sof(), 0);
                let mut want: Result<(), (Vec<Symbol>, usize)> = if rec.end_earleme() { Ok(()) } else { Err((vec![g.sof()], 0)) };
                if want.is_ok() { for (k, &x) in t.iter().enumerate() {
                    rec.begin_earleme();
                    match t.get(k + 1) { Some(&y) => rec.lookahead().set_hint(s(g.map[y])), None => rec.lookahead().clear_hint() }
                    rec.scan(s(g.map[x]), k as u32);
                    if !rec.end_earleme() { want = Err((vec![s(x)], k)); break; }
                } }
                let mut got = Recognizer::with_forest(&g, Log::default());
                let list: Vec<Symbol> = t.iter().map(|&x| s(x)).collect();
                let res = got.parse(&list);
                let answer = format!("{:?}", res);
                match (&res, &want) {
                    (Ok(b), Ok(())) => {
                        if *b != rec.is_finished() { return Err(format!("parse says {b}, reading the tokens one by one ends with {}", rec.is_finished())); }
                        let derives = Count::new(&g0, &t).sym(0, 0, t.len()) > 0;
                        if !t.is_empty() && *b != derives { return Err(format!("parse says {b}, the grammar says {derives}")); }
                        if state(&rec) != state(&got) { return Err(format!("after parse: {}; after the same tokens one by one: {}", state(&got), state(&rec))); }
                    }
                    (Err(_), Err((tk, i))) => {
                        // the failing token and its index, by the fields of the error
                        let fields = format!("tokens: {:?}, i: {} }}", tk, i);
                        if !answer.contains(&fields) { return Err(format!("parse reports {answer}, the first token that cannot be read is {tk:?} at {i}")); }
                    }
                    _ => return Err(format!("parse gives {answer}, the first failure is {want:?}")),
                }
                let (a, b) = (&rec.into_forest().calls, &got.into_forest().calls);
                if a != b { let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len())); return Err(format!("forest call {k}: {:?}, one by one: {:?} (symbol, position, value of leaves)", b.get(k), a.get(k))); }
                Ok(matches!(want, Err((_, i)) if i > 0))
            })?;
        }
    }
    Ok(())
}
fn main() { main_with(&[("P26", p26)]); }
