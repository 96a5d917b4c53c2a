#[path = "../../common.rs"]
mod common;
use common::*;
use gearley_vec2d::{Vec2d, Vec2dCapacity};
use std::fmt::Debug;

#[derive(Clone, Debug, PartialEq)]
enum Op { Push(u32), Pop, Next, ExtendSet(Vec<u32>), Truncate(usize), TruncChart(usize), Clear, SetLast(usize, u32), Extend(Vec<Vec<u32>>), Collect(Vec<Vec<u32>>), Fresh(usize, usize, usize), CloneIt }

/// The model: finished sets and the set in progress.
#[derive(Clone, Default, Debug)]
struct Model<I> { sets: Vec<Vec<I>>, last: Vec<I> }

impl<I: Copy + PartialEq + Debug> Model<I> {
    fn flat(&self) -> Vec<I> { self.sets.iter().flatten().copied().chain(self.last.iter().copied()).collect() }
    fn start(&self) -> usize { self.sets.iter().map(|s| s.len()).sum() }
}

fn check<I: Copy + PartialEq + Debug>(v: &mut Vec2d<I>, m: &Model<I>) -> Result<(), String> {
    let flat = m.flat();
    if v.len() != m.sets.len() + 1 { return Err(format!("len() is {}, expected {} (finished sets + the one in progress)", v.len(), m.sets.len() + 1)); }
    if v.item_count() != flat.len() { return Err(format!("item_count() is {}, expected {}", v.item_count(), flat.len())); }
    let mut st = 0;
    for (i, s) in m.sets.iter().enumerate() {
        if &v[i] != &s[..] { return Err(format!("set {} reads {:?}, expected {:?}", i, &v[i], s)); }
        if v.index_at(i) != st { return Err(format!("index_at({}) is {}, expected {}", i, v.index_at(i), st)); }
        st += s.len();
    }
    if v.index_at(m.sets.len()) != st { return Err(format!("index_at({}) is {}, expected {}", m.sets.len(), v.index_at(m.sets.len()), st)); }
    if v.last() != &m.last[..] { return Err(format!("last() is {:?}, expected {:?}", v.last(), m.last)); }
    if v.last_mut() != &m.last[..] { return Err(format!("last_mut() is {:?}, expected {:?}", v.last_mut(), m.last)); }
    if v.last_item() != flat.last() { return Err(format!("last_item() is {:?}, expected {:?}", v.last_item(), flat.last())); }
    for i in 0..flat.len() + 2 {
        if v.get_item(i) != flat.get(i) { return Err(format!("get_item({}) is {:?}, expected {:?}", i, v.get_item(i), flat.get(i))); }
    }
    if v.get_item(usize::MAX).is_some() { return Err("get_item(usize::MAX) is an item".into()); }
    Ok(())
}

fn step<I: Copy + PartialEq + Debug>(v: &mut Vec2d<I>, m: &mut Model<I>, op: &Op, f: &dyn Fn(u32) -> I) -> Result<(), String> {
    match op {
        Op::Push(x) => { v.push_item(f(*x)); m.last.push(f(*x)); }
        Op::Pop => {
            // Popping below the start of the in-progress set is outside the property.
            if !m.last.is_empty() || m.start() == 0 {
                let a = v.pop_item(); let b = m.last.pop();
                if a != b { return Err(format!("pop_item() returned {:?}, expected {:?}", a, b)); }
            }
        }
        Op::Next => { v.next_set(); let l = std::mem::take(&mut m.last); m.sets.push(l); }
        Op::ExtendSet(xs) => { v.extend_with_set(xs.iter().map(|&x| f(x))); let mut l = std::mem::take(&mut m.last); l.extend(xs.iter().map(|&x| f(x))); m.sets.push(l); }
        Op::Truncate(n) => { let n = *n % (m.sets.len() + 1); v.truncate(n); m.sets.truncate(n); }
        Op::TruncChart(k) => {
            let st = m.start();
            let k = if *k >= 1000 { st + m.last.len() + (*k - 1000) } else { st + *k % (m.last.len() + 1) };
            v.truncate_chart(k); m.last.truncate(k - st);
        }
        Op::Clear => { v.clear(); *m = Model { sets: vec![], last: vec![] }; }
        Op::SetLast(i, x) => {
            if !m.last.is_empty() { let i = *i % m.last.len(); v.last_mut()[i] = f(*x); m.last[i] = f(*x); }
        }
        Op::Extend(ss) => {
            v.extend(ss.iter().map(|s| s.iter().map(|&x| f(x))));
            for s in ss { let mut l = std::mem::take(&mut m.last); l.extend(s.iter().map(|&x| f(x))); m.sets.push(l); }
        }
        Op::Collect(ss) => {
            *v = ss.iter().map(|s| s.iter().map(|&x| f(x))).collect();
            *m = Model { sets: ss.iter().map(|s| s.iter().map(|&x| f(x)).collect()).collect(), last: vec![] };
        }
        Op::Fresh(k, a, b) => {
            *v = match k % 3 { 0 => Vec2d::new(), 1 => Vec2d::default(), _ => Vec2d::with_capacity(Vec2dCapacity { chart_capacity: *a, indices_capacity: *b }) };
            *m = Model { sets: vec![], last: vec![] };
        }
        Op::CloneIt => { let c = v.clone(); *v = c; }
    }
    check(v, m)
}

fn run<I: Copy + PartialEq + Debug>(ops: &[Op], f: &dyn Fn(u32) -> I) -> Result<bool, String> {
    let mut v = Vec2d::new();
    let mut m = Model { sets: vec![], last: vec![] };
    check(&mut v, &m)?;
    for (i, op) in ops.iter().enumerate() {
        step(&mut v, &mut m, op, f).map_err(|e| format!("after operation {} ({:?}): {}", i, op, e))?;
    }
    Ok(ops.iter().any(|o| !matches!(o, Op::Push(_))))
}

fn rand_sets(r: &mut Rng, max: usize) -> Vec<Vec<u32>> { (0..r.below(max)).map(|_| (0..r.below(max)).map(|_| r.next() as u32).collect()).collect() }

fn rand_ops(r: &mut Rng, n: usize, bulk: bool) -> Vec<Op> {
    let w = r.below(4);
    (0..n).map(|_| match r.below(if bulk { 26 } else { 20 }) {
        0..=6 => Op::Push(r.next() as u32),
        7..=8 => Op::Pop,
        9..=11 => Op::Next,
        12 => Op::ExtendSet((0..r.below(6)).map(|_| r.next() as u32).collect()),
        13..=14 => Op::Truncate(if w == 0 { r.below(3) } else { r.below(1000) }),
        15 => Op::TruncChart(if r.chance(1, 4) { 1000 + r.below(50) } else { r.below(1000) }),
        16 => if r.chance(1, 3) { Op::Clear } else { Op::Push(0) },
        17..=18 => Op::SetLast(r.below(100), r.next() as u32),
        19 => Op::CloneIt,
        20..=22 => Op::Extend(rand_sets(r, 6)),
        23 => Op::Collect(rand_sets(r, 6)),
        24 => Op::Fresh(r.below(3), r.below(9), r.below(9)),
        _ => Op::ExtendSet((0..r.below(6)).map(|_| r.next() as u32).collect()),
    }).collect()
}

fn drive(c: &mut Ctx, bulk: bool) -> Result<(), String> {
    c.stats.rule = "every operation history up to length 5 (6 thorough) over an alphabet of 14 operations (4 and 5 over 24 operations with bulk ones), then seeded random histories up to 400 operations over u32, u8, 24-byte and zero-sized items; non-trivial: contains an operation other than push".into();
    let mut alpha = vec![Op::Push(7), Op::Push(9), Op::Pop, Op::Next, Op::ExtendSet(vec![1, 2]), Op::ExtendSet(vec![]), Op::Truncate(0), Op::Truncate(1), Op::Truncate(2), Op::TruncChart(0), Op::TruncChart(1), Op::Clear, Op::SetLast(0, 5), Op::SetLast(1, 6)];
    let mut depth = c.scale(5, 6);
    if bulk { alpha.extend([Op::Extend(vec![]), Op::Extend(vec![vec![3], vec![]]), Op::Extend(vec![vec![], vec![4, 5], vec![6]]), Op::Collect(vec![]), Op::Collect(vec![vec![1, 2], vec![3]]), Op::Collect(vec![vec![]]), Op::Fresh(0, 0, 0), Op::Fresh(1, 0, 0), Op::Fresh(2, 0, 0), Op::Fresh(2, 3, 5)]); depth = c.scale(4, 5); }
    let k = alpha.len();
    for len in 1..=depth {
        for code in 0..k.pow(len as u32) {
            let mut x = code;
            let ops: Vec<Op> = (0..len).map(|_| { let o = alpha[x % k].clone(); x /= k; o }).collect();
            c.case(|| format!("Vec2d<u32>, operations {:?}", ops), || run(&ops, &|x| x))?;
        }
    }
    let n = c.scale(3000, 60000);
    for i in 0..n {
        if c.out_of_time() { break; }
        let mut r = Rng::new(c.seed * 1_000_003 + i as u64);
        let len = if i % 10 == 0 { r.range(100, 400) } else { r.range(1, 60) };
        let ops = rand_ops(&mut r, len, bulk);
        match i % 4 {
            0 | 1 => c.case(|| format!("Vec2d<u32>, operations {:?}", ops), || run(&ops, &|x| x))?,
            2 => c.case(|| format!("Vec2d<u8>, operations {:?}", ops), || run(&ops, &|x| x as u8))?,
            _ => if i % 8 == 3 { c.case(|| format!("Vec2d<()>, operations {:?}", ops), || run(&ops, &|_| ()))? } else { c.case(|| format!("Vec2d<(u64,u64,u64)>, operations {:?}", ops), || run(&ops, &|x| (x as u64, !x as u64, 3u64)))? },
        }
    }
    // Sizes past the byte and 16-bit boundaries.
    for i in 0..c.scale(6, 30) {
        let mut r = Rng::new(c.seed * 77 + 1_000_000 + i as u64);
        let big = [255usize, 256, 257, 65535, 65536, 70000][i % 6];
        let many = r.chance(1, 2);
        let cut = r.below(big);
        let desc = format!("Vec2d<u32>, {} sets of {} items, then truncate to {} with 3 items in progress", if many { big } else { 3 }, if many { 1 } else { big }, cut);
        c.case(|| desc.clone(), || {
            let mut v = Vec2d::new();
            let mut m: Model<u32> = Model { sets: vec![], last: vec![] };
            if bulk {
                let sets: Vec<Vec<u32>> = if many { (0..big as u32).map(|x| vec![x]).collect() } else { (0..3).map(|k| (0..big as u32).map(|x| x * 3 + k).collect()).collect() };
                v.extend(sets.iter().map(|s| s.iter().copied()));
                m.sets = sets;
            } else if many { for x in 0..big as u32 { v.push_item(x); v.next_set(); m.sets.push(vec![x]); } }
            else { for k in 0..3 { for x in 0..big as u32 { v.push_item(x ^ k); } v.next_set(); m.sets.push((0..big as u32).map(|x| x ^ k).collect()); } }
            for x in [1, 2, 3] { v.push_item(x); m.last.push(x); }
            check(&mut v, &m)?;
            step(&mut v, &mut m, &Op::Truncate(cut), &|x| x)?;
            step(&mut v, &mut m, &Op::Next, &|x| x)?;
            step(&mut v, &mut m, &Op::ExtendSet((0..big as u32).collect()), &|x| x)?;
            step(&mut v, &mut m, &Op::Truncate(1), &|x| x)?;
            step(&mut v, &mut m, &Op::Clear, &|x| x)?;
            Ok(true)
        })?;
    }
    Ok(())
}

fn p01(c: &mut Ctx) -> Result<(), String> { drive(c, false) }
fn p02(c: &mut Ctx) -> Result<(), String> { drive(c, true) }
fn main() { main_with(&[("P01", p01), ("P02", p02)]) }
