use crate::common::*;
use crate::local_prelude::*;
use crate::tg::*;
use std::cmp::Ordering;

struct F0;
impl Forest for F0 {
    type NodeRef = u32;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 0;
    fn begin_sum(&mut self) {}
    fn push_summand(&mut self, _: Item<u32>) {}
    fn sum(&mut self, _: Symbol, _: u32) -> u32 { 0 }
    fn product(&mut self, _: u32, _: u32) -> u32 { 0 }
    fn leaf(&mut self, _: Symbol, _: u32, _: u32) -> u32 { 0 }
    fn nulling(&self, _: Symbol) -> u32 { 0 }
}

type T3 = (u32, u32, u32); // origin, dot, node
fn t(i: &Item<u32>) -> T3 { (i.origin, i.dot, i.node) }
#[derive(Clone, Debug)]
enum Op { Push(u32, u32), Pop, Peek, Drain, Clear }

fn run(g: &TestGrammar, ops: &[Op]) -> Result<bool, String> {
    let mut rec: Recognizer<&TestGrammar, F0> = Recognizer::with_forest(g, F0);
    let mut model: Vec<T3> = vec![];
    let mut id = 0; let mut deep = false;
    for (k, op) in ops.iter().enumerate() {
        match op {
            Op::Push(o, d) => { id += 1; rec.complete.heap_push(Item { origin: *o, dot: *d, node: id }); model.push((*o, *d, id)); }
            Op::Clear => { rec.complete.clear(); model.clear(); }
            Op::Peek => {
                let before: Vec<T3> = rec.complete.0.iter().map(t).collect();
                let p = rec.heap_peek().map(|i| t(&i));
                let after: Vec<T3> = rec.complete.0.iter().map(t).collect();
                if before != after { return Err(format!("step {}: peeking changed the queue", k)); }
                check(k, &model, p, "peeking")?;
            }
            Op::Pop | Op::Drain => loop {
                let pk = rec.heap_peek().map(|i| t(&i));
                let p = rec.heap_pop().map(|i| t(&i));
                if pk != p { return Err(format!("step {}: peeking shows {:?}, removing gives {:?}", k, pk, p)); }
                check(k, &model, p, "removing")?;
                if model.len() > 6 { deep = true; }
                if let Some(x) = p { let q = model.iter().position(|y| *y == x).unwrap(); model.swap_remove(q); }
                if matches!(op, Op::Pop) || p.is_none() { break; }
            }
        }
        let mut a: Vec<T3> = rec.complete.0.iter().map(t).collect(); a.sort();
        let mut b = model.clone(); b.sort();
        if a != b { return Err(format!("step {}: the queue holds {:?}, inserted and not removed are {:?}", k, a, b)); }
        if rec.complete.is_empty() != model.is_empty() { return Err(format!("step {}: emptiness reported wrongly", k)); }
    }
    Ok(deep)
}

fn check(k: usize, model: &[T3], p: Option<T3>, w: &str) -> Result<(), String> {
    match p {
        None => if model.is_empty() { Ok(()) } else { Err(format!("step {}: {} gives nothing, {} items present", k, w, model.len())) },
        Some(x) => {
            if !model.contains(&x) { return Err(format!("step {}: {} gives {:?}, which is not in the queue", k, w, x)); }
            let m = model.iter().map(|y| (y.0, y.1)).max().unwrap();
            if (x.0, x.1) != m { return Err(format!("step {}: {} gives (origin, rule) {:?}, the greatest present is {:?}", k, w, (x.0, x.1), m)); }
            Ok(())
        }
    }
}

fn p05(c: &mut Ctx) -> Result<(), String> {
    c.stats.rule = "a removal from a queue of more than six items".into();
    let mut r = Rng::new(c.seed);
    let g = loop { let q = classics(); let mut r2 = Rng::new(3); if let Some(g) = q.iter().filter_map(|x| compile(x, &mut r2)).next() { break g; } };
    // every sequence of at most 7 pushes of 3 ordered pairs, then draining
    for n in 0..=6usize { for code in 0..4usize.pow(n as u32) {
        let mut ops = vec![]; let mut q = code;
        for _ in 0..n { ops.push(Op::Push((q % 4) as u32 / 2, (q % 2) as u32)); q /= 4; }
        ops.push(Op::Drain);
        let d = ops.clone();
        c.case(|| format!("{:?}", d), || run(&g, &ops))?;
    } }
    for _ in 0..c.scale(60000, 600000) {
        if c.out_of_time() { break; }
        let span = *r.pick(&[2usize, 4, 9, 40]); let big = r.chance(1, 8);
        let n = if r.chance(1, 6) { r.range(60, 260) } else { r.range(3, 40) };
        let mut ops = vec![]; let bias = r.range(1, 4);
        for _ in 0..n {
            if r.chance(1, 40) { ops.push(Op::Clear); continue; }
            if r.chance(1, 12) { ops.push(Op::Peek); }
            if r.chance(bias, 5) { let f = |r: &mut Rng| if big && r.chance(1, 3) { !0 - r.below(3) as u32 } else { r.below(span) as u32 }; ops.push(Op::Push(f(&mut r), f(&mut r))); } else { ops.push(Op::Pop); }
        }
        if r.chance(1, 2) { ops.push(Op::Drain); }
        let d = ops.clone();
        c.case(|| format!("{:?}", d), || run(&g, &ops))?;
    }
    Ok(())
}

fn p06(c: &mut Ctx) -> Result<(), String> {
    c.stats.rule = "two items that differ in one of origin and rule, or only in the node".into();
    let mut r = Rng::new(c.seed ^ 77);
    let vals = [0u32, 1, 2, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
    let mut pairs = vec![];
    for &a in &vals { for &b in &vals { for &x in &vals { for &y in &vals { pairs.push((a, b, x, y)); } } } }
    for _ in 0..c.scale(50000, 800000) { let f = |r: &mut Rng| r.next() as u32; let (a, b) = (f(&mut r), f(&mut r)); let x = if r.chance(1, 2) { a } else { f(&mut r) }; let y = if r.chance(1, 2) { b } else { f(&mut r) }; pairs.push((a, b, x, y)); }
    for (o1, d1, o2, d2) in pairs {
        for (n1, n2) in [(0u32, 0u32), (1, 2), (9, 3)] {
            c.case(|| format!("items (origin {}, rule {}, node {}) and (origin {}, rule {}, node {})", o1, d1, n1, o2, d2, n2), || {
                let a = Item { origin: o1, dot: d1, node: n1 }; let b = Item { origin: o2, dot: d2, node: n2 };
                let w = (o1, d1).cmp(&(o2, d2));
                if a.cmp(&b) != w || b.cmp(&a) != w.reverse() { return Err(format!("cmp gives {:?}, (origin, rule) gives {:?}", a.cmp(&b), w)); }
                if a.partial_cmp(&b) != Some(w) { return Err(format!("partial_cmp gives {:?}, (origin, rule) gives {:?}", a.partial_cmp(&b), w)); }
                if (a == b) != (w == Ordering::Equal) || (a != b) == (w == Ordering::Equal) { return Err("equality disagrees with (origin, rule)".into()); }
                if (a < b) != (w == Ordering::Less) || (a <= b) != (w != Ordering::Greater) || (a > b) != (w == Ordering::Greater) || (a >= b) != (w != Ordering::Less) { return Err("an operator disagrees with (origin, rule)".into()); }
                if t(&a.max(b)) != if (o1, d1) > (o2, d2) { t(&a) } else { t(&b) } && (o1, d1) != (o2, d2) { return Err("max disagrees".into()); }
                if t(&a.min(b)) != if (o1, d1) < (o2, d2) { t(&a) } else { t(&b) } && (o1, d1) != (o2, d2) { return Err("min disagrees".into()); }
                Ok((o1 == o2) != (d1 == d2) || (w == Ordering::Equal && n1 != n2))
            })?;
        }
    }
    Ok(())
}

fn caps(mem: usize, tok: Option<(usize, usize)>) -> (usize, usize, usize) {
    let h = match tok { None => DefaultPerfHint::new(mem), Some((t, n)) => DefaultPerfHint::with_token_count_and_num_syms(mem, t, n) };
    let m = h.medial_capacity();
    (m.chart_capacity, m.indices_capacity, h.completion_capacity())
}

fn p19(c: &mut Ctx) -> Result<(), String> {
    c.stats.rule = "a hint above the smallest chart, or with a token count or memory limit near a power of two".into();
    let mut r = Rng::new(c.seed ^ 19);
    let half = isize::MAX as usize;
    let mut mems = vec![0usize, 1, 2, 3, 100, 998, 999, 1000, 1001, 8192, 499_999, 500_000, 500_001, 1_999_999, 2_000_000, 2_000_001, half / 2, half / 3, 1 << 40, u32::MAX as usize, (u32::MAX as usize) + 1, u32::MAX as usize * 3];
    for _ in 0..c.scale(300, 5000) { let k = r.below(61) as u32; let base = 1usize << k; mems.push(base - 1); mems.push(base + r.below(base)); }
    mems.retain(|m| *m <= half / 2);
    mems.sort(); mems.dedup();
    let mut last = 0;
    for m in mems.clone() {
        let prev = last; let mut got = 0;
        c.case(|| format!("memory limit {}", m), || {
            let (ch, ix, co) = caps(m, None);
            got = co;
            if ![16, 32, 64, 128].contains(&co) { return Err(format!("completion capacity {}", co)); }
            if co < prev { return Err(format!("completion capacity falls to {} from {}", co, prev)); }
            lim(m, None, ch, ix)
        })?;
        last = got;
    }
    for _ in 0..c.scale(200000, 4000000) {
        let m = *r.pick(&mems);
        let k = r.below(59) as u32; let tt = match r.below(4) { 0 => (1usize << k) - 1, 1 => 1usize << k, 2 => r.below(1 << k), _ => r.below(3000) };
        let k = r.below(60) as u32; let n = match r.below(3) { 0 => 1usize << k, 1 => r.below(1 << k), _ => r.below(400) };
        if tt > half / 8 - 600 || n > half - 64 { continue; }
        c.case(|| format!("memory limit {}, {} tokens, {} symbols", m, tt, n), || {
            let (ch, ix, co) = caps(m, Some((tt, n)));
            let ok = lim(m, Some((tt, n)), ch, ix)?;
            // A sum that wraps around shows as sizes that move the wrong way.
            for (d_tt, d_n) in [(1usize, 0usize), (1 << 20, 0), (1 << 32, 0), (tt, 0), (0, 32), (0, 1 << 20), (0, n)] {
                if tt + d_tt > half / 8 - 600 || n + d_n > half - 64 { continue; }
                let (_, ix2, _) = caps(m, Some((tt + d_tt, n + d_n)));
                if ix2 > ix { return Err(format!("sized for {} sets, but for {} sets with {} more tokens and {} more symbols", ix, ix2, d_tt, d_n)); }
            }
            let wider = m / 2 * 3;
            if wider <= half / 2 {
                let (_, ix2, co2) = caps(wider, Some((tt, n)));
                if co2 == co && ix2 < ix { return Err(format!("sized for {} sets, but for {} sets with the larger memory limit {}", ix, ix2, wider)); }
            }
            Ok(ok && co > 0)
        })?;
    }
    Ok(())
}

fn lim(_m: usize, _t: Option<(usize, usize)>, ch: usize, ix: usize) -> Result<bool, String> {
    if ch != ix * 16 { return Err(format!("chart capacity {} is not 16 items for each of {} sets", ch, ix)); }
    if ix < 32 { return Err(format!("sized for {} sets", ix)); }
    Ok(ix > 32)
}

pub fn main() { main_with(&[("P05", p05), ("P06", p06), ("P19", p19)]) }
