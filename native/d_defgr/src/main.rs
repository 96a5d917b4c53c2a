//! The real default grammar, compiled from prepared rule lists, against the definitions of its lookups.
#[path = "../../common.rs"]
mod common;
#[path = "../../shared/tg.rs"]
mod tg;
use cfg::{Cfg, CfgRule, EarleyDot, RuleHistory, WrappedRoot};
use cfg_history::earley::*;
use cfg_symbol::Symbol;
use common::*;
use gearley_default_grammar::DefaultGrammar;
use gearley_grammar::Grammar;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::Recognizer;
use std::collections::{BTreeMap, BTreeSet};
use tg::*;

/// The rule list handed to the compiler: its own symbol numbers, shuffled rules, some unused symbols.
fn prepare(g: &TestGrammar, r: &mut Rng) -> (Cfg, Vec<usize>) {
    // internal number of the test grammar -> number in the rule list (the binariser's symbols come last there too)
    let mut sh = |lo: usize, n: usize, k: usize| -> Vec<usize> { let mut v: Vec<usize> = (lo..lo + n).collect(); for i in (1..n).rev() { v.swap(i, r.below(i + 1)); } v.truncate(k); v };
    let low = g.nsyms + (g.rules.len() + g.nsyms) % 3; let n = low + g.ngens;
    let mut ext = sh(0, low, g.nsyms); ext.extend(sh(low, g.ngens, g.ngens));
    let mut id = 0u32;
    let mut dot = |some: bool| { id += 1; if some { Some(EarleyDot { event: EventId { id }, distance: MinimalDistance { distance: id * 3 + 1 }, trace: ExternalDottedRule { id: id + 50_000, pos: id % 4 } }) } else { None } };
    let mut rules: Vec<CfgRule> = g.rules.iter().map(|q| CfgRule {
        lhs: s(ext[q.lhs]), rhs: q.rhs.iter().map(|&x| s(ext[x])).collect(),
        history: RuleHistory { origin: q.origin.map_or(ExternalOrigin::null(), |o| ExternalOrigin { id: o }), nullable: q.elim.map(|(x, d)| (s(ext[x]), d)), dots: vec![dot(q.origin.is_some() || r.chance(1, 2)), dot(true), dot(true)] },
    }).collect();
    for i in (1..rules.len()).rev() { rules.swap(i, r.below(i + 1)); }
    let null = |lhs: usize, rhs: &[usize], origin: ExternalOrigin| CfgRule { lhs: s(ext[lhs]), rhs: rhs.iter().map(|&x| s(ext[x])).collect(), history: RuleHistory { origin, nullable: None, dots: vec![None; 3] } };
    let mut nulling: Vec<CfgRule> = g.nullmid.iter().map(|x| null(x[0].usize(), &[x[1].usize(), x[2].usize()], ExternalOrigin::null())).collect();
    if g.trivial { nulling.push(null(g.inner, &[], ExternalOrigin { id: 0 })); nulling.push(null(g.inner, &[g.inner, g.inner], ExternalOrigin { id: 1 })); }
    let w = WrappedRoot { start_of_input: s(ext[g.sof]), inner_root: s(ext[g.inner]), end_of_input: s(ext[g.eof]), root: s(ext[g.start]) };
    (Cfg::new(rules, n, w, nulling), ext)
}

/// Rules without origin of symbols that are no internal ones only because they are used as a second symbol, too.
fn unnamed(c: &mut Cfg) {
    let count = |f: &dyn Fn(&CfgRule) -> bool| c.rules.iter().filter(|q| f(q)).count();
    let xs: Vec<Symbol> = (0..c.syms).map(s).filter(|&x|
        count(&|q| q.rhs.len() == 2 && q.lhs != q.rhs[0] && q.lhs == x) == 1 && count(&|q| q.rhs.len() == 2 && q.lhs != q.rhs[0] && q.rhs[0] == x) == 1
        && count(&|q| q.rhs.get(1) == Some(&x)) > 0).collect();
    for q in c.rules.iter_mut() { if xs.contains(&q.lhs) { q.history.origin = ExternalOrigin::null(); } }
}

/// Internal symbols: used as first symbol of one two-symbol rule, left side of one such rule, of a rule without origin, and nowhere second.
fn gens_of(c: &Cfg) -> BTreeSet<Symbol> {
    let count = |f: &dyn Fn(&CfgRule) -> bool| c.rules.iter().filter(|q| f(q)).count();
    (0..c.syms).map(s).filter(|&x|
        count(&|q| q.rhs.len() == 2 && q.lhs != q.rhs[0] && q.lhs == x) == 1 && count(&|q| q.rhs.len() == 2 && q.lhs != q.rhs[0] && q.rhs[0] == x) == 1
        && count(&|q| q.rhs.get(1) == Some(&x)) == 0 && count(&|q| q.lhs == x && q.history.origin.is_null()) > 0).collect()
}

fn check(c: &Cfg, d: &DefaultGrammar) -> Result<bool, String> {
    macro_rules! same { ($a:expr, $b:expr, $($t:tt)*) => {{ let (a, b) = (&$a, &$b); if a != b { return Err(format!("{}: {:?}, the rule list prescribes {:?}", format!($($t)*), a, b)); } }} }
    let mut used = BTreeSet::new();
    for q in &c.rules { used.insert(q.lhs); used.extend(q.rhs.iter().copied()); }
    let w = c.wrapped[0]; used.extend([w.root, w.inner_root, w.start_of_input, w.end_of_input]);
    let gens = gens_of(c);
    let (n, m) = (d.num_syms(), d.num_gensyms());
    same!(m, gens.len(), "number of internal symbols"); same!(n + m, used.len(), "number of symbols"); same!(d.num_rules(), c.rules.len(), "number of rules");
    let mut seen = BTreeSet::new(); let mut int = BTreeMap::new();
    for x in 0..c.syms { let x = s(x); match d.to_internal(x) {
        Some(y) => { if !used.contains(&x) { return Err(format!("the unused symbol {x:?} is mapped")); } if y.usize() >= n + m || !seen.insert(y) { return Err(format!("symbol {x:?} is mapped to {y:?}, out of range or taken")); }
            same!(d.to_external(y), x, "external symbol of {y:?}"); same!(y.usize() >= n, gens.contains(&x), "internal symbol {y:?} is numbered as an internal one"); int.insert(x, y); }
        None => if used.contains(&x) { return Err(format!("the used symbol {x:?} is not mapped")); } } }
    same!((d.start_sym(), d.sof(), d.eof(), d.externalized_start_sym()), (int[&w.root], int[&w.start_of_input], int[&w.end_of_input], w.inner_root), "start, markers, external start");
    same!(d.has_trivial_derivation(), !c.nulling.is_empty(), "trivial derivation");
    // rules by number; a rule is recognised by its unique trace entry
    let tr = d.trace(); let ev = d.events();
    for (k, (a, b)) in [(tr[1].len(), c.rules.len()), (tr[2].len(), c.rules.len()), (ev.1.len(), c.rules.len()), (d.rhs1().len(), c.rules.len())].iter().enumerate() { same!(a, b, "length of table {k} of rules"); }
    let mut rule: Vec<&CfgRule> = vec![];
    for k in 0..c.rules.len() {
        let q = c.rules.iter().find(|q| q.history.dots[1].unwrap().trace == tr[1][k]).ok_or(format!("trace entry of rule {k} is no rule's"))?;
        if rule.iter().any(|p| std::ptr::eq(*p, q)) { return Err(format!("two numbers for the rule {q:?}")); }
        let i = k as u32; let r1 = q.rhs.get(1).map(|x| int[x]);
        same!(d.get_lhs(i), int[&q.lhs], "left side of rule {k}"); same!(d.get_rhs1(i), r1, "second symbol of rule {k}"); same!(d.rhs1()[k], r1, "second symbol of rule {k}, by table"); same!(d.rhs1_or_lhs(i), r1.unwrap_or(int[&q.lhs]), "second symbol or left side of rule {k}");
        same!(d.external_origin(i), q.history.origin, "origin of rule {k}"); same!(d.nulling(i), q.history.nullable, "eliminated symbol of rule {k}");
        same!(tr[2][k], q.history.dots[2].unwrap().trace, "last trace entry of rule {k}"); same!(ev.1[k], q.history.dots[1].unwrap().event_and_distance(), "event entry of rule {k}");
        rule.push(q);
    }
    for k in 1..rule.len() { if rule[k].lhs != rule[k - 1].lhs && rule[..k].iter().any(|q| q.lhs == rule[k].lhs) { return Err(format!("the rules of {:?} are not numbered consecutively", rule[k].lhs)); } }
    same!(rule[d.dot_before_eof() as usize].rhs.get(1), Some(&w.end_of_input), "second symbol of the rule before the end of input");
    same!(d.nulling(c.rules.len() as u32), None, "eliminated symbol of a rule out of range");
    // entries by symbol
    if tr[0].len() < n + m || ev.0.len() < n + m { return Err(format!("{} trace and {} event entries for {} symbols", tr[0].len(), ev.0.len(), n + m)); }
    for (x, y) in &int {
        let own: Vec<&EarleyDot> = c.rules.iter().filter(|q| q.lhs == *x).filter_map(|q| q.history.dots[0].as_ref()).collect();
        let (e, t) = (ev.0[y.usize()], tr[0][y.usize()]);
        if own.is_empty() { same!((e, t), ((EventId::null(), MinimalDistance::null()), ExternalDottedRule::null()), "entries of symbol {y:?}, which no rule gives any"); }
        else if !own.iter().any(|o| o.event_and_distance() == e && o.trace == t) { return Err(format!("entries of symbol {y:?}: {e:?} {t:?}, its rules give {own:?}")); }
    }
    // completions
    let vis = |x: Symbol| { let mut x = x; while gens.contains(&x) { x = c.rules.iter().find(|q| q.rhs[0] == x).unwrap().lhs; } x };
    for (x, y) in &int {
        let mut want: Vec<(u32, usize, bool)> = rule.iter().enumerate().filter(|(_, q)| q.rhs[0] == *x).map(|(k, q)| (k as u32, int[&vis(q.lhs)].usize(), q.rhs.len() == 1)).collect();
        if gens.contains(x) {
            let got: Vec<Option<(u32, usize, bool)>> = d.gen_completion(*y).iter().map(|t| t.map(|t| (t.dot, t.symbol.usize(), t.is_unary))).collect();
            let want: Vec<_> = [false, true].iter().map(|u| want.iter().find(|t| t.2 == *u).copied()).collect();
            same!(got, want, "completions of the internal symbol {y:?}");
        } else {
            let mut got: Vec<(u32, usize, bool)> = d.completions(*y).iter().map(|t| (t.dot, t.symbol.usize(), t.is_unary)).collect();
            if got.windows(2).any(|p| p[0].2 && !p[1].2) { return Err(format!("completions of {y:?} do not have the two-symbol rules first: {got:?}")); }
            got.sort(); want.sort(); same!(got, want, "completions of {y:?} (rule, left side, one-symbol)");
        }
    }
    // rows
    let close = |p: &mut Vec<Vec<bool>>| { let n = p.len(); for k in 0..n { for i in 0..n { if p[i][k] { for j in 0..n { if p[k][j] { p[i][j] = true; } } } } } };
    let mut p = vec![vec![false; n]; n];
    for q in &c.rules { if !gens.contains(&q.rhs[0]) { p[int[&vis(q.lhs)].usize()][int[&q.rhs[0]].usize()] = true; } }
    close(&mut p); for i in 0..n { p[i][i] = true; }
    for i in 0..n { let row: Vec<bool> = (0..n).map(|j| d.prediction_row(s(i)).get(j)).collect(); same!(row, p[i], "prediction row of {i}"); }
    let mut f = vec![vec![false; n + m]; n + m];
    let term = |x: &Symbol| c.rules.iter().all(|q| q.lhs != *x);
    for q in &c.rules { f[int[&q.lhs].usize()][int[&q.rhs[0]].usize()] = true; }
    close(&mut f);
    let terms: Vec<usize> = used.iter().filter(|x| term(x)).map(|x| int[x].usize()).collect();
    let first = |x: usize| -> BTreeSet<usize> { terms.iter().copied().filter(|&t| t == x || f[x][t]).collect() };
    let mut fo = vec![BTreeSet::new(); n + m];
    loop {
        let before: usize = fo.iter().map(|x| x.len()).sum();
        for q in &c.rules {
            if q.rhs.len() == 2 { let a = first(int[&q.rhs[1]].usize()); fo[int[&q.rhs[0]].usize()].extend(a); }
            let a = fo[int[&q.lhs].usize()].clone(); fo[int[q.rhs.last().unwrap()].usize()].extend(a);
        }
        if before == fo.iter().map(|x| x.len()).sum() { break; }
    }
    for x in 0..n { let got: BTreeSet<usize> = (0..n).filter(|&j| d.lhs_lr_set(s(x)).get(j)).collect(); same!(got, fo[x], "row of what follows {x}"); }
    for k in 0..rule.len() as u32 {
        let want: BTreeSet<usize> = match d.get_rhs1(k) { Some(x) => { let mut w = first(x.usize()); w.insert(x.usize()); w } None => { let l = d.get_lhs(k).usize(); if l >= n { continue; } fo[l].clone() } };
        let got: BTreeSet<usize> = (0..n).filter(|&j| d.lookahead_set(k).get(j)).collect(); same!(got, want, "lookahead row of rule {k}");
    }
    // forest metadata
    let i = d.forest_info();
    same!((i.sof, i.eof, i.start), (int[&w.start_of_input], int[&w.end_of_input], int[&w.inner_root]), "markers and start for the forest");
    same!(i.eval, rule.iter().map(|q| q.history.origin).collect::<Vec<_>>(), "origins for the forest");
    same!(i.nulling_eliminated, rule.iter().map(|q| q.history.nullable).collect::<Vec<_>>(), "eliminated symbols for the forest");
    let nm: Vec<[Symbol; 3]> = c.nulling.iter().filter(|q| q.history.origin.is_null() && q.rhs.len() == 2).map(|q| [int[&q.lhs], int[&q.rhs[0]], int[&q.rhs[1]]]).collect();
    same!(i.nulling_intermediate_rules, nm, "eliminated nulling rules for the forest"); same!(d.eliminated_nulling_intermediate().to_vec(), nm, "eliminated nulling rules");
    promises(d, rule.len())?;
    Ok(!gens.is_empty())
}

fn p25(c: &mut Ctx) -> Result<(), String> {
    c.stats.rule = "a grammar with internal symbols".into();
    let cl = classics();
    for seed in 0..c.scale(6000, 200000) as u64 {
        if c.out_of_time() { break; }
        let mut r = Rng::new(c.seed.wrapping_mul(1_000_003).wrapping_add(seed));
        let mut g0 = if (seed as usize) < 3 * cl.len() { cl[seed as usize % cl.len()].clone() } else { random_cfg(&mut r, seed % 3 == 2) };
        if seed % 29 == 7 { let a = r.below(g0.nt); for _ in 0..r.range(25, 60) { let t = g0.nt + g0.tt; g0.tt += 1; g0.prods.push((a, vec![t])); } }
        let Some(g) = compile(&g0, &mut r) else { continue };
        if g.nullmid.iter().any(|x| x.iter().any(|y| !g.rules.iter().any(|q| q.lhs == y.usize() || q.rhs.contains(&y.usize())))) { continue; }
        let (mut cfg, ext) = prepare(&g, &mut r);
        if seed % 2 == 1 { unnamed(&mut cfg); }
        // a one-symbol rule keeps its two symbols in the order of their numbers; internal symbols go last: no list that asks for both orders
        let gens = gens_of(&cfg);
        if cfg.rules.iter().any(|q| q.rhs.len() == 1 && gens.contains(&q.lhs) != gens.contains(&q.rhs[0]) && gens.contains(&q.lhs) != (q.lhs > q.rhs[0])) { continue; }
        let show = |c: &Cfg| format!("rules {:?}, start {:?}, markers {:?} {:?}, nulling rules {:?}", c.rules.iter().map(|q| (q.lhs.usize(), q.rhs.iter().map(|x| x.usize()).collect::<Vec<_>>(), q.history.origin.id)).collect::<Vec<_>>(), cfg.wrapped[0].root, cfg.wrapped[0].start_of_input, cfg.wrapped[0].end_of_input, c.nulling.iter().map(|q| (q.lhs.usize(), q.rhs.iter().map(|x| x.usize()).collect::<Vec<_>>(), q.history.origin.id)).collect::<Vec<_>>());
        c.case(|| show(&cfg), || {
            let d = DefaultGrammar::from_grammar(cfg.clone());
            let nt = check(&cfg, &d)?;
            // and a recognizer that uses it
            for _ in 0..2 {
                let t: Vec<usize> = match r.below(3) { 0 => (0..r.below(6)).map(|_| g.src.nt + r.below(g.src.tt)).collect(), _ => random_sentence(&g.src, &mut r, 8).unwrap_or_default() };
                if t.is_empty() { continue; }
                let int = |x: usize| d.to_internal(s(ext[g.map[x]])).ok_or(format!("token {x} is not mapped"));
                let mut rec = Recognizer::new(&d); let mut ok = true;
                let mut toks = vec![d.sof()];
                for &x in &t { match d.to_internal(s(ext.get(g.map[x]).copied().unwrap_or(usize::MAX))) { Some(y) => toks.push(y), None => { int(x).ok(); ok = false; break; } } }
                if !ok { continue; }
                for (k, &x) in toks.iter().enumerate() { rec.begin_earleme(); match toks.get(k + 1) { Some(&h) => rec.lookahead().set_hint(h), None => rec.lookahead().clear_hint() } rec.scan(x, k as u32); if !rec.end_earleme() { ok = false; break; } }
                let want = Count::new(&g.src, &t).sym(0, 0, t.len()) > 0;
                if (ok && rec.is_finished()) != want { return Err(format!("the recognizer says {} for the tokens {:?}, the grammar says {}", ok && rec.is_finished(), t, want)); }
            }
            Ok(nt)
        })?;
    }
    Ok(())
}

/// Reads one group of symbols per position; the answer, and where the first failure is.
fn read(d: &DefaultGrammar, groups: &[Vec<Symbol>], values: &[u32], hints: bool) -> Result<bool, Option<usize>> {
    let mut rec = Recognizer::with_forest(d, simple_bocage::Bocage::new(d));
    rec.begin_earleme(); rec.scan(d.sof(), 0);
    if !rec.end_earleme() { return Err(None); }
    for (k, g) in groups.iter().enumerate() {
        rec.begin_earleme();
        if hints { match groups.get(k + 1) { Some(h) => rec.lookahead().set_hint(h[0]), None => rec.lookahead().clear_hint() } }
        for &x in g { rec.scan(x, values[k]); }
        if !rec.end_earleme() { return Err(Some(k)); }
    }
    Ok(rec.is_finished())
}

fn p27(c: &mut Ctx) -> Result<(), String> {
    c.stats.rule = "an input that fails after its first token, or ends too early, or has an unknown word, or a character that may be read as two symbols".into();
    let cl = classics();
    for seed in 0..c.scale(8000, 300000) as u64 {
        if c.out_of_time() { break; }
        let mut r = Rng::new(c.seed.wrapping_mul(1_000_003).wrapping_add(seed));
        let g0 = if (seed as usize) < 3 * cl.len() { cl[seed as usize % cl.len()].clone() } else { random_cfg(&mut r, seed % 3 == 2) };
        let Some(g) = compile(&g0, &mut r) else { continue };
        if g.nullmid.iter().any(|x| x.iter().any(|y| !g.rules.iter().any(|q| q.lhs == y.usize() || q.rhs.contains(&y.usize())))) { continue; }
        let (mut cfg, ext) = prepare(&g, &mut r);
        let gens = gens_of(&cfg);
        if cfg.rules.iter().any(|q| q.rhs.len() == 1 && gens.contains(&q.lhs) != gens.contains(&q.rhs[0]) && gens.contains(&q.lhs) != (q.lhs > q.rhs[0])) { continue; }
        let d = DefaultGrammar::from_grammar(cfg.clone());
        // the terminals that are in use, by their number in the source grammar
        let src = |x: usize| g.map.get(x).and_then(|&y| ext.get(y)).map(|&y| s(y)).filter(|&y| d.to_internal(y).is_some());
        let terms: Vec<usize> = (g.src.nt..g.src.nt + g.src.tt).filter(|&x| src(x).is_some()).collect();
        if terms.is_empty() { continue; }
        for &x in &terms { cfg.source.set_name(src(x).unwrap(), format!("w{x}")); }
        let int = |x: usize| d.to_internal(src(x).unwrap()).unwrap();
        for _ in 0..3 {
            let mut t: Vec<usize> = match r.below(3) { 0 => (0..r.below(6)).map(|_| *r.pick(&terms)).collect(), _ => random_sentence(&g.src, &mut r, 8).unwrap_or_default() };
            t.retain(|x| terms.contains(x));
            match r.below(4) { 0 if !t.is_empty() => { let k = r.below(t.len()); t[k] = *r.pick(&terms); } 1 => t.push(*r.pick(&terms)), 2 => { t.pop(); } _ => {} }
            let shown = format!("grammar (nonterminals 0..{}, terminals up to {}): {:?}", g.src.nt, g.src.nt + g.src.tt, g.src.prods);
            // words
            let mut words: Vec<String> = t.iter().map(|x| format!("w{x}")).collect();
            let mut unknown = None;
            if r.chance(1, 6) { let k = r.below(words.len() + 1); words.insert(k, "nowhere".into()); unknown = Some("nowhere".to_string()); if r.chance(1, 2) { words.push("later".into()); } }
            c.case(|| format!("{shown}; words {words:?}"), || {
                let got = gearley_utils::parse_terminal_list(cfg.clone(), d.clone(), words.iter().map(|x| &x[..]));
                if let Some(w) = unknown {
                    let got = format!("{got:?}");
                    return if got.contains(&format!("word: {w:?} }}")) { Ok(true) } else { Err(format!("the first unknown word is {w:?}, parse_terminal_list gives {got}")) };
                }
                let groups: Vec<Vec<Symbol>> = t.iter().map(|&x| vec![int(x)]).collect();
                let want = read(&d, &groups, &(0..t.len() as u32).collect::<Vec<_>>(), true);
                let derives = Count::new(&g.src, &t).sym(0, 0, t.len()) > 0;
                if !t.is_empty() && derives != (want == Ok(true)) { return Err(format!("reading token by token gives {want:?}, the grammar says {derives}")); }
                judge("parse_terminal_list", &got, &want, |k| vec![src(t[k]).unwrap()], d.sof())
            })?;
            // characters: each may be read as any of the symbols of its class
            let classes: Vec<(char, Vec<usize>)> = { let mut v: Vec<(char, Vec<usize>)> = terms.iter().enumerate().map(|(k, &x)| (char::from_u32(if k % 2 == 0 { 0xe0 } else { 'a' as u32 } + k as u32).unwrap(), vec![x])).collect();
                for x in v.iter_mut() { if r.chance(1, 4) { let y = *r.pick(&terms); if !x.1.contains(&y) { if r.chance(1, 2) { x.1.push(y) } else { x.1.insert(0, y) } } } } v };
            let mut text: Vec<(char, Vec<usize>)> = t.iter().map(|x| { let m: Vec<_> = classes.iter().filter(|c| c.1.contains(x)).collect(); (*r.pick(&m)).clone() }).collect();
            if r.chance(1, 8) { let k = r.below(text.len() + 1); text.insert(k, ('\u{2603}', vec![])); }
            let input: String = text.iter().map(|x| x.0).collect();
            c.case(|| format!("{shown}; characters {input:?}, read as {classes:?}"), || {
                let lexer_map = cfg_load::advanced::LexerMap { classes: classes.iter().map(|x| (x.0, x.1.iter().map(|&y| src(y).unwrap()).collect())).collect(), computed: false };
                let got = gearley_utils::parse_tokenizing(cfg_load::advanced::AdvancedGrammar { lexer_map }, d.clone(), &input);
                let groups: Vec<Vec<Symbol>> = text.iter().map(|x| x.1.iter().map(|&y| int(y)).collect()).collect();
                let want = read(&d, &groups, &text.iter().map(|x| x.0 as u32).collect::<Vec<_>>(), false);
                // every way to choose one symbol per character
                let ways: usize = text.iter().map(|x| x.1.len()).product();
                if !text.is_empty() && ways <= 64 {
                    let derives = (0..ways).any(|mut w| { let u: Vec<usize> = text.iter().map(|x| { let y = x.1[w % x.1.len()]; w /= x.1.len(); y }).collect(); Count::new(&g.src, &u).sym(0, 0, u.len()) > 0 });
                    if derives != (want == Ok(true)) { return Err(format!("reading character by character gives {want:?}, the grammar says {derives}")); }
                }
                judge("parse_tokenizing", &got, &want, |k| text[k].1.iter().map(|&y| src(y).unwrap()).collect(), d.sof()).map(|x| x || ways > 1)
            })?;
        }
    }
    Ok(())
}
/// What a helper reports against what reading one position after the other gives.
fn judge<E: std::fmt::Debug>(name: &str, got: &Result<bool, E>, want: &Result<bool, Option<usize>>, at: impl Fn(usize) -> Vec<Symbol>, sof: Symbol) -> Result<bool, String> {
    // the error type is private: the failing symbols and position by the fields that it shows
    let shown = format!("{got:?}");
    let fields = |x: Vec<Symbol>, k: usize| shown.contains(&format!("tokens: {x:?}, i: {k} }}"));
    let ok = match want {
        Ok(true) => matches!(got, Ok(true)), Ok(false) => shown.starts_with("Err(Finish"),
        Err(Some(k)) => fields(at(*k), *k), Err(None) => fields(vec![sof], 0),
    };
    if !ok { return Err(format!("{name} reports {shown}; reading one position after the other gives {}", match want { Ok(true) => "a finished parse".into(), Ok(false) => "an unfinished parse".into(), Err(None) => "a failure at the start marker".into(), Err(Some(k)) => format!("the first failure at position {k}, symbols {:?}", at(*k)) })); }
    Ok(!matches!(want, Ok(true)))
}
fn main() { main_with(&[("P25", p25), ("P27", p27)]); }
