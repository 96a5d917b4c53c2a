//! Grammar queries through a reference, and the metadata queries.
#[path = "../../common.rs"]
mod common;
use bit_matrix::row::BitSlice;
use cfg_symbol::Symbol;
use common::*;
use gearley_grammar::*;
use cfg_history::earley::*;

fn s(n: u32) -> Symbol { Symbol::from_raw(n) }

/// Every answer is different from every other answer.
struct Probe {
    rows: Vec<Vec<u32>>, ev: [Vec<EventAndDistance>; 2], tr: [Vec<ExternalDottedRule>; 3], rhs1: Vec<Option<Symbol>>,
    inter: Vec<NullingIntermediateRule>, comp: Vec<Vec<PredictionTransition>>, info: ForestInfo, trivial: bool, n: u32, base: usize,
}
impl Probe {
    fn new(r: &mut Rng) -> Self {
        // Any table may be empty, and any number of symbols may be declared (also none).
        let n = r.range(1, 9) as u32; let mut k = 100u32;
        let mut keep = || if r.chance(1, 3) { 0usize } else { usize::MAX };
        let k8 = [keep(), keep(), keep(), keep(), keep(), keep(), keep(), keep()];
        let mut f = || { k += 1; k };
        Probe {
            rows: (0..3 * n).map(|_| vec![f(), f()]).collect(),
            ev: [(0..n).take(k8[0]).map(|_| (EventId { id: f() }, MinimalDistance { distance: f() })).collect(), (0..n + 1).take(k8[1]).map(|_| (EventId { id: f() }, MinimalDistance { distance: f() })).collect()],
            tr: [0, 1, 2].map(|i| (0..n).take(k8[2 + i]).map(|_| ExternalDottedRule { id: f(), pos: f() }).collect()),
            rhs1: (0..n).take(k8[5]).map(|_| if r.chance(1, 3) { None } else { Some(s(f())) }).collect(),
            inter: (0..n).take(k8[6]).map(|_| [s(f()), s(f()), s(f())]).collect(),
            comp: (0..n).map(|_| (0..r.range(0, 3)).map(|_| PredictionTransition { symbol: s(f()), dot: f(), is_unary: r.chance(1, 2) }).collect()).collect(),
            info: ForestInfo { eval: (0..n).take(k8[7]).map(|_| ExternalOrigin { id: f() }).collect(), sof: s(f()), eof: s(f()), start: s(f()), ..Default::default() },
            trivial: r.chance(1, 2), n, base: if r.chance(1, 4) { 0 } else { *r.pick(&[1usize, 3003, 0xffff_f000]) },
        }
    }
}
impl Grammar for Probe {
    fn sof(&self) -> Symbol { s(self.n + 1001) }
    fn eof(&self) -> Symbol { s(self.n + 2002) }
    fn lhs_lr_set(&self, x: Symbol) -> &BitSlice { BitSlice::new(&self.rows[x.usize()]) }
    fn lookahead_set(&self, d: u32) -> &BitSlice { BitSlice::new(&self.rows[(self.n + d) as usize]) }
    fn rhs1_or_lhs(&self, d: u32) -> Symbol { s(7000 + 13 * d + self.n) }
    fn prediction_row(&self, x: Symbol) -> &BitSlice { BitSlice::new(&self.rows[2 * self.n as usize + x.usize()]) }
    fn num_syms(&self) -> usize { if self.base == 0 { 0 } else { self.base + 1 } }
    fn num_gensyms(&self) -> usize { if self.base == 0 { 0 } else { self.base + 2 } }
    fn num_rules(&self) -> usize { if self.base == 0 { 0 } else { self.base + 3 } }
    fn start_sym(&self) -> Symbol { s(self.n + 6006) }
    fn externalized_start_sym(&self) -> Symbol { s(self.n + 7007) }
    fn has_trivial_derivation(&self) -> bool { self.trivial }
    fn nulling(&self, p: u32) -> NullingEliminated { if p % 3 == 2 { None } else { Some((s(8000 + p), p % 2 == 0)) } }
    fn events(&self) -> (&[EventAndDistance], &[EventAndDistance]) { (&self.ev[0], &self.ev[1]) }
    fn trace(&self) -> [&[ExternalDottedRule]; 3] { [&self.tr[0], &self.tr[1], &self.tr[2]] }
    fn get_rhs1(&self, d: u32) -> Option<Symbol> { if d % 4 == 3 { None } else { Some(s(9000 + 17 * d)) } }
    fn rhs1(&self) -> &[Option<Symbol>] { &self.rhs1 }
    fn get_lhs(&self, d: u32) -> Symbol { s(11000 + 19 * d) }
    fn external_origin(&self, d: u32) -> ExternalOrigin { ExternalOrigin { id: 12000 + 23 * d } }
    fn eliminated_nulling_intermediate(&self) -> &[NullingIntermediateRule] { &self.inter }
    fn completions(&self, x: Symbol) -> &[PredictionTransition] { &self.comp[x.usize()] }
    fn gen_completion(&self, x: Symbol) -> [Option<PredictionTransition>; 2] { let c = &self.comp[x.usize()]; [c.get(0).copied(), c.get(1).copied()] }
    fn to_internal(&self, x: Symbol) -> Option<Symbol> { if x.usize() % 5 == 4 { None } else { Some(s(13000 + x.usize() as u32)) } }
    fn to_external(&self, x: Symbol) -> Symbol { s(14000 + x.usize() as u32) }
    fn dot_before_eof(&self) -> u32 { self.n + 15000 }
    fn useless_symbol(&self) -> Symbol { s(self.n + 16000) }
    fn forest_info(&self) -> ForestInfo { self.info.clone() }
}

fn all<G: Grammar>(g: &G, n: u32) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    macro_rules! q { ($m:ident) => { v.push((stringify!($m).into(), format!("{:?}", g.$m()))); }; ($m:ident, $a:expr, $b:expr) => { v.push((format!("{}({:?})", stringify!($m), $b), format!("{:?}", g.$m($a)))); } }
    q!(sof); q!(eof); q!(num_syms); q!(num_gensyms); q!(num_rules); q!(start_sym); q!(externalized_start_sym); q!(has_trivial_derivation);
    q!(events); q!(trace); q!(rhs1); q!(eliminated_nulling_intermediate); q!(dot_before_eof); q!(useless_symbol); q!(forest_info);
    for i in 0..n {
        q!(lhs_lr_set, s(i), i); q!(lookahead_set, i, i); q!(rhs1_or_lhs, i, i); q!(prediction_row, s(i), i); q!(nulling, i, i); q!(get_rhs1, i, i); q!(get_lhs, i, i);
        q!(external_origin, i, i); q!(completions, s(i), i); q!(gen_completion, s(i), i); q!(to_internal, s(i), i); q!(to_external, s(i), i);
    }
    v
}

fn p18(c: &mut Ctx) -> Result<(), String> {
    c.stats.rule = "a grammar with at least four symbols, every query with every argument".into();
    let mut r = Rng::new(c.seed);
    for _ in 0..c.scale(4000, 60000) {
        if c.out_of_time() { break; }
        let p = Probe::new(&mut r); let n = p.n;
        c.case(|| format!("a recording grammar with {} symbols", n), || {
            let direct = all(&p, n); let by_ref = all(&&p, n); let by_ref2 = all(&&&p, n);
            for i in 0..direct.len() {
                if direct[i] != by_ref[i] { return Err(format!("{} gives {} on the grammar, {} through a reference", direct[i].0, direct[i].1, by_ref[i].1)); }
                if direct[i] != by_ref2[i] { return Err(format!("{} gives {} on the grammar, {} through two references", direct[i].0, direct[i].1, by_ref2[i].1)); }
            }
            Ok(n >= 4)
        })?;
    }
    Ok(())
}

fn p22(c: &mut Ctx) -> Result<(), String> {
    c.stats.rule = "metadata with nulling entries of both kinds".into();
    let mut r = Rng::new(c.seed ^ 22);
    for _ in 0..c.scale(200000, 3000000) {
        if c.out_of_time() { break; }
        let lim = *r.pick(&[1usize, 3, 40, 0xffff_ffff]);
        let sy = |r: &mut Rng| s(r.below(lim + 1) as u32);
        let (mut a, mut b, e) = (r.below(5), r.below(4), r.below(6));
        // Long tables, with the largest symbol anywhere.
        if r.chance(1, 200) { a = *r.pick(&[0usize, 1, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1025]); b = *r.pick(&[0usize, 1, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1025]); }
        let mut fi = ForestInfo::default();
        for _ in 0..a { let x = if r.chance(1, 2) { None } else { Some((sy(&mut r), r.chance(1, 2))) }; fi.nulling_eliminated.push(x); }
        for _ in 0..b { let t = [sy(&mut r), sy(&mut r), sy(&mut r)]; fi.nulling_intermediate_rules.push(t); }
        for k in 0..e { fi.eval.push(ExternalOrigin { id: 500 + k as u32 * 3 }); }
        let q = fi.clone();
        c.case(|| format!("{:?}", q), || {
            let mut want: Option<usize> = None;
            for x in &fi.nulling_eliminated { if let Some((y, _)) = x { want = want.max(Some(y.usize())); } }
            for t in &fi.nulling_intermediate_rules { for y in t { want = want.max(Some(y.usize())); } }
            if fi.max_nulling_symbol() != want { return Err(format!("largest nulling symbol {:?}, expected {:?}", fi.max_nulling_symbol(), want)); }
            for d in (0..8u32).chain([e as u32, 0x8000_0000, !0]) {
                let w = if (d as usize) < e { Some(ExternalOrigin { id: 500 + d * 3 }) } else { None };
                if fi.external_origin(d) != w { return Err(format!("external origin of rule {} is {:?}, recorded {:?}", d, fi.external_origin(d), w)); }
            }
            Ok(fi.nulling_eliminated.iter().any(|x| x.is_some()) && b > 0)
        })?;
    }
    Ok(())
}

fn main() { main_with(&[("P18", p18), ("P22", p22)]) }
