#[path = "../../common.rs"]
mod common;
#[allow(dead_code)]
#[path = "/repo/gearley-utils/src/cartesian_product.rs"]
mod cartesian_product;
use cartesian_product::CartesianProduct;
use common::*;
use std::fmt::Debug;

/// How the factors are added: sizes of the batches; `1` with `single` set means `push`.
#[derive(Clone, Debug)]
struct Plan { lens: Vec<usize>, batches: Vec<(usize, bool)>, pre: Option<Vec<usize>>, dirty: usize }

fn build<'a, V>(p: &mut CartesianProduct<'a, V>, fs: &[&'a [V]], batches: &[(usize, bool)]) {
    let mut i = 0;
    for &(n, single) in batches {
        if single { for k in 0..n { p.push(fs[i + k]); } } else { p.extend(fs[i..i + n].iter().copied()); }
        i += n;
    }
}

fn same<V>(cur: &[&V], fs: &[&[V]], idx: &[usize], what: &str) -> Result<(), String> {
    if cur.len() != fs.len() { return Err(format!("{}: the combination has {} elements for {} factors", what, cur.len(), fs.len())); }
    for (k, r) in cur.iter().enumerate() {
        let base = fs[k].as_ptr();
        if std::mem::size_of::<V>() == 0 {
            if *r as *const V != base { return Err(format!("{}: element {} is not in its factor", what, k)); }
            continue;
        }
        let off = (*r as *const V as usize).wrapping_sub(base as usize);
        let i = off / std::mem::size_of::<V>();
        if off % std::mem::size_of::<V>() != 0 || i >= fs[k].len() { return Err(format!("{}: the reference for factor {} points outside its slice (byte offset {} in a slice of {} elements)", what, k, off as isize, fs[k].len())); }
        if i != idx[k] { return Err(format!("{}: factor {} stands at element {}, expected element {}", what, k, i, idx[k])); }
    }
    Ok(())
}

fn enumerate<V>(p: &mut CartesianProduct<'_, V>, fs: &[&[V]], what: &str) -> Result<(), String> {
    let total: usize = fs.iter().map(|f| f.len()).product();
    let mut idx = vec![0; fs.len()];
    for n in 0..total {
        same(p.as_slice(), fs, &idx, &format!("{}combination {}", what, n))?;
        let more = p.advance();
        if more != (n + 1 < total) { return Err(format!("{}advance() number {} of {} returned {}", what, n + 1, total, more)); }
        for k in 0..idx.len() { idx[k] += 1; if idx[k] == fs[k].len() { idx[k] = 0 } else { break; } }
    }
    same(p.as_slice(), fs, &idx, &format!("{}after the last combination", what))
}

fn run<V: Debug>(pl: &Plan, f: &dyn Fn(usize) -> V) -> Result<bool, String> {
    let store: Vec<Vec<V>> = pl.lens.iter().enumerate().map(|(k, &n)| (0..n).map(|i| f(k * 1000 + i)).collect()).collect();
    let pre_store: Vec<Vec<V>> = pl.pre.iter().flatten().enumerate().map(|(k, &n)| (0..n).map(|i| f(k * 1000 + i)).collect()).collect();
    let fs: Vec<&[V]> = store.iter().map(|v| &v[..]).collect();
    let mut p = CartesianProduct::new();
    if pl.pre.is_some() {
        let pf: Vec<&[V]> = pre_store.iter().map(|v| &v[..]).collect();
        p.extend(pf.iter().copied());
        for _ in 0..pl.dirty { p.advance(); }
        p.clear();
        if !p.as_slice().is_empty() { return Err("after clear() the combination is not empty".into()); }
    }
    build(&mut p, &fs, &pl.batches);
    enumerate(&mut p, &fs, "")?;
    enumerate(&mut p, &fs, "second round: ")?;
    Ok(fs.len() > 1)
}

fn batches(r: &mut Rng, n: usize) -> Vec<(usize, bool)> {
    let mut left = n; let mut b = vec![];
    while left > 0 { let k = r.range(1, left); b.push((k, r.chance(1, 2))); left -= k; if r.chance(1, 6) { b.push((0, false)); } }
    b
}

fn one(c: &mut Ctx, pl: Plan, kind: usize) -> Result<(), String> {
    let names = ["u32", "u8", "(u64,u64,u64)", "String", "()"];
    let d = || format!("CartesianProduct<{}>: factor lengths {:?}, added as (count, one by one?) {:?}, after using and clearing factors {:?} ({} advances)", names[kind], pl.lens, pl.batches, pl.pre, pl.dirty);
    match kind {
        0 => c.case(d, || run(&pl, &|i| i as u32)),
        1 => c.case(d, || run(&pl, &|i| i as u8)),
        2 => c.case(d, || run(&pl, &|i| (i as u64, 1u64, 2u64))),
        3 => c.case(d, || run(&pl, &|i| i.to_string())),
        _ => c.case(d, || run(&pl, &|_| ())),
    }
}

fn p03(c: &mut Ctx) -> Result<(), String> {
    c.stats.rule = "all lists of up to 4 factors of lengths 1..3 under every way of batching them, then seeded random shapes (up to 40 factors, lengths up to 70000, total up to 80000 combinations) over 5 element types including a zero-sized one; non-trivial: more than one factor".into();
    // Every composition of n factors into batches, each pushed one by one or extended.
    for n in 0..=4usize {
        for lens in 0..3usize.pow(n as u32) {
            let mut x = lens;
            let lens: Vec<usize> = (0..n).map(|_| { let l = 1 + x % 3; x /= 3; l }).collect();
            for cuts in 0..(1usize << n.saturating_sub(1)) {
                let mut b = vec![]; let mut run = 0;
                for i in 0..n { run += 1; if i + 1 == n || (cuts >> i) & 1 == 1 { b.push(run); run = 0; } }
                for kinds in 0..(1usize << b.len()) {
                    let bb: Vec<(usize, bool)> = b.iter().enumerate().map(|(i, &k)| (k, (kinds >> i) & 1 == 1)).collect();
                    one(c, Plan { lens: lens.clone(), batches: bb, pre: None, dirty: 0 }, (lens.iter().sum::<usize>() + cuts) % 5)?;
                }
            }
        }
    }
    for (lens, b) in [(vec![255], true), (vec![256, 2], false), (vec![257, 3, 2], true), (vec![65536], false), (vec![70000], true), (vec![2, 30000], false), (vec![1; 200], false), (vec![2; 15], true)] {
        for kind in 0..5 { let n = lens.len(); one(c, Plan { lens: lens.clone(), batches: vec![(n, b)], pre: None, dirty: 0 }, kind)?; }
    }
    for i in 0..c.scale(4000, 60000) {
        if c.out_of_time() { break; }
        let mut r = Rng::new(c.seed * 31337 + i as u64);
        let n = if r.chance(1, 10) { r.range(5, 40) } else { r.range(0, 6) };
        let mut total = 1usize; let mut lens = vec![];
        for _ in 0..n { let cap = (20000 / total).max(1); let hi = if r.chance(1, 5) { 60 } else { 5 }; let l = r.range(1, cap.min(hi)); total *= l; lens.push(l); }
        let b = batches(&mut r, n);
        let pre = if r.chance(1, 2) { Some((0..r.below(4)).map(|_| r.range(1, 4)).collect()) } else { None };
        let dirty = r.below(10);
        one(c, Plan { lens, batches: b, pre, dirty }, i % 5)?;
    }
    Ok(())
}

/// Memory safety: factors of any length; only the pointers are looked at, never dereferenced.
fn p04(c: &mut Ctx) -> Result<(), String> {
    c.stats.rule = "seeded random histories of push/extend/advance/clear (half of them clear a product in use first) with slice lengths 0..6; every reference handed out must lie in its factor's slice; non-trivial: an advance happened".into();
    for i in 0..c.scale(20000, 200000) {
        if c.out_of_time() { break; }
        let mut r = Rng::new(c.seed * 4241 + i as u64);
        let n = r.range(0, 5);
        let with_empty = i % 4 == 0;
        let lens: Vec<usize> = (0..n).map(|_| r.range(if with_empty { 0 } else { 1 }, 6)).collect();
        let b = batches(&mut r, n);
        let adv = r.below(60);
        let clears = if r.chance(1, 2) { Some(r.range(0, 3)) } else { None };
        let d = || format!("CartesianProduct<u32>: {}factor lengths {:?}, added as (count, one by one?) {:?}, then {} advances (added while at any combination)", match clears { Some(k) => format!("the same factors added, advanced {} times and cleared; ", k), None => String::new() }, lens, b, adv);
        let f = || {
            let store: Vec<Vec<u32>> = lens.iter().map(|&n| (0..n as u32).collect()).collect();
            let before: Vec<Vec<u32>> = lens.iter().map(|&n| (0..n as u32).collect()).collect();
            let fs: Vec<&[u32]> = store.iter().map(|v| &v[..]).collect();
            let pf: Vec<&[u32]> = before.iter().map(|v| &v[..]).collect();
            let has_empty = lens.iter().any(|&l| l == 0);
            let r = std::panic::catch_unwind(|| {
                let mut p = CartesianProduct::new();
                let mut i = 0; let mut count = 0;
                if let Some(k) = clears {
                    p.extend(pf.iter().copied());
                    for _ in 0..k { p.advance(); }
                    p.clear();
                }
                let check = |p: &CartesianProduct<u32>, count: usize| -> Result<(), String> {
                    let cur = p.as_slice();
                    if cur.len() != count { return Err(format!("the combination has {} elements for {} factors", cur.len(), count)); }
                    for k in 0..count {
                        let (a, lo) = (cur[k] as *const u32 as usize, fs[k].as_ptr() as usize);
                        if a < lo || a >= lo + fs[k].len() * 4 || (a - lo) % 4 != 0 { return Err(format!("the reference for factor {} lies outside its slice of {} elements", k, fs[k].len())); }
                    }
                    Ok(())
                };
                check(&p, 0)?;
                for &(n, single) in &b {
                    if single { for k in 0..n { p.push(fs[i + k]); } } else { p.extend(fs[i..i + n].iter().copied()); }
                    i += n; count += n;
                    check(&p, count)?;
                    for _ in 0..adv % 3 { p.advance(); check(&p, count)?; }
                }
                for _ in 0..adv { p.advance(); check(&p, count)?; }
                Ok(())
            });
            match r {
                Ok(r) => r.map(|_| adv > 0),
                // Refusing an empty factor with a panic is safe.
                Err(p) => if has_empty { Ok(false) } else { std::panic::resume_unwind(p) },
            }
        };
        c.case(d, f)?;
    }
    Ok(())
}
fn main() { main_with(&[("P03", p03), ("P04", p04)]) }
