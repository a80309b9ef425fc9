//! Sums of embeddings as id lists over a table (P13).

use super::p17::maybe_in_pool;
use crate::data::*;
use crate::engine::*;
use crate::ensure;
use crate::fmt;
use granne::embeddings::SumEmbeddings;
use granne::{angular, Dist, ElementContainer, ExtendableElementContainer, Permutable, Writeable};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Push(u64),
    PushTrait(u64),
    PushList(Vec<usize>),
    PushMany(usize, u64),
    PushEmbedding(u64),
    Permute(u64),
    Reverse,
    /// keep a copy aside; compared at the end
    Stash,
    /// continue with a stashed copy, stashing the current one
    Unstash(usize),
    /// through files; without the elements file if false
    SaveLoad(bool),
    /// the sub-operations on a borrowed view
    Borrowed(Vec<Op>),
    Create(u64),
}

#[derive(Serialize, Deserialize)]
struct Case {
    dim: usize,
    /// small integers (sums are exact) or arbitrary values
    integers: bool,
    table: usize,
    ids: u64,
    ops: Vec<Op>,
}

#[derive(Clone)]
struct Model {
    lists: Vec<Vec<usize>>,
    table: Vec<Vec<f32>>,
}

fn gen_op(s: &mut Src, depth: usize) -> Op {
    let w: &[u64] = if depth == 0 { &[6, 2, 2, 2, 3, 3, 1, 2, 2, 2, 2, 2] } else { &[6, 2, 2, 2, 3, 3, 1] };
    match s.weighted(w) {
        0 => Op::Push(s.seed()),
        1 => Op::PushTrait(s.seed()),
        2 => Op::PushList(s.list(0, 8, |s| s.range(0, 5))),
        3 => Op::PushMany(s.range(1, 30), s.seed()),
        4 => Op::PushEmbedding(s.seed()),
        5 => Op::Permute(s.seed()),
        6 => Op::Reverse,
        7 => Op::Stash,
        8 => Op::Unstash(s.range(0, 2)),
        9 => Op::SaveLoad(!s.chance(1, 6)),
        10 => Op::Borrowed(s.list(1, 4, |s| gen_op(s, 1))),
        _ => Op::Create(s.seed()),
    }
}

fn gen_case(s: &mut Src) -> Case {
    Case {
        dim: s.num(1, 40),
        integers: s.bool(),
        table: if s.chance(1, 6) { 0 } else { s.num(1, 60) },
        ids: 0,
        ops: s.list(1, 16, |s| gen_op(s, 0)),
    }
}

fn embedding(c: &Case, seed: u64) -> Vec<f32> {
    let mut rng = Rng(seed);
    rng.u64();
    if rng.below(15) == 0 {
        return vec![0.0; c.dim];
    }
    let scale = [1.0, 1e-3, 50.0][rng.below(3)];
    (0..c.dim).map(|_| if c.integers { rng.below(41) as f32 - 20.0 } else { (rng.gauss() * scale) as f32 }).collect()
}

fn list(m: &Model, seed: u64) -> Vec<usize> {
    let mut rng = Rng(seed);
    rng.u64();
    if m.table.is_empty() || rng.below(8) == 0 {
        return vec![];
    }
    let max = [3, 8, 40][rng.below(3)];
    let len = 1 + rng.below(max);
    (0..len).map(|_| rng.below(m.table.len())).collect()
}

fn check_sum(m: &Model, terms: &[usize], dim: usize, integers: bool, raw: &[f32], what: &str) -> Res {
    let want_dim = if m.table.is_empty() { 0 } else { dim };
    ensure!(raw.len() == want_dim, "{}: the embedding has {} components instead of {}", what, raw.len(), want_dim);
    for (j, &x) in raw.iter().enumerate() {
        let (mut sum, mut abs) = (0f64, 0f64);
        for &t in terms {
            sum += m.table[t][j] as f64;
            abs += (m.table[t][j] as f64).abs();
        }
        let ok = if integers { x as f64 == sum } else { (x as f64 - sum).abs() <= abs * 1e-5 + 1e-30 };
        ensure!(ok, "{}: component {} of the sum is {} instead of {}", what, j, x, sum);
    }
    Ok(())
}

fn check_unit(m: &Model, terms: &[usize], unit: &angular::Vector, dim: usize, what: &str) -> Res {
    let want_dim = if m.table.is_empty() { 0 } else { dim };
    ensure!(unit.len() == want_dim, "{}: the vector has {} components instead of {}", what, unit.len(), want_dim);
    let mut sum = vec![0f64; want_dim];
    let mut abs = vec![0f64; want_dim];
    for &t in terms {
        for j in 0..want_dim {
            sum[j] += m.table[t][j] as f64;
            abs[j] += (m.table[t][j] as f64).abs();
        }
    }
    let norm = sum.iter().map(|x| x * x).sum::<f64>().sqrt();
    let abs = abs.iter().map(|x| x * x).sum::<f64>().sqrt();
    if abs == 0.0 {
        ensure!(unit.as_slice().iter().all(|&x| x == 0.0), "{}: the vector of a zero sum is {:?}", what, unit.as_slice());
    } else if norm > abs * 1e-3 {
        let tol = 3e-5 * (abs / norm).max(1.0);
        for j in 0..want_dim {
            let x = unit.as_slice()[j] as f64;
            ensure!((x - sum[j] / norm).abs() <= tol, "{}: component {} of the vector is {} instead of {}", what, j, x, sum[j] / norm);
        }
    }
    Ok(())
}

fn check(e: &SumEmbeddings, m: &Model, c: &Case, what: &str, full: bool) -> Res {
    ensure!(e.len() == m.lists.len(), "{}: {} elements instead of {}", what, e.len(), m.lists.len());
    ensure!(ElementContainer::len(e) == m.lists.len(), "{}: length as a container", what);
    ensure!(e.is_empty() == m.lists.is_empty(), "{}: is_empty", what);
    ensure!(e.num_embeddings() == m.table.len(), "{}: {} embeddings instead of {}", what, e.num_embeddings(), m.table.len());
    for (i, l) in m.lists.iter().enumerate() {
        let t = e.get_terms(i);
        ensure!(t == *l, "{}: element {} has terms {:?} instead of {:?}", what, i, &t[..t.len().min(20)], &l[..l.len().min(20)]);
    }
    if full {
        for (i, l) in m.lists.iter().enumerate() {
            let what = format!("{}: element {}", what, i);
            check_sum(m, l, c.dim, c.integers, &e.get_embedding(i), &what)?;
            check_unit(m, l, &e.get(i), c.dim, &what)?;
        }
        for t in 0..m.table.len() {
            let x = e.create_embedding(&[t]);
            ensure!(
                x.len() == c.dim && x.iter().zip(&m.table[t]).all(|(a, b)| a.to_bits() == b.to_bits()),
                "{}: embedding {} differs",
                what,
                t
            );
        }
    }
    Ok(())
}

fn apply(e: &mut SumEmbeddings, m: &mut Model, c: &Case, op: &Op, cx: &mut Cx) -> Res {
    match op {
        Op::Push(seed) | Op::PushTrait(seed) => {
            let l = list(m, *seed);
            if let Op::Push(_) = op {
                e.push(&l);
            } else {
                ExtendableElementContainer::push(e, l.clone());
            }
            cx.label_if(l.is_empty(), "empty list");
            m.lists.push(l);
            cx.label("push");
        }
        Op::PushList(l) => {
            let l: Vec<usize> = l.iter().copied().filter(|&x| x < m.table.len()).collect();
            e.push(&l);
            m.lists.push(l);
        }
        Op::PushMany(n, seed) => {
            for k in 0..*n {
                let l = list(m, seed.wrapping_add(k as u64 * 7919));
                e.push(&l);
                m.lists.push(l);
            }
        }
        Op::PushEmbedding(seed) => {
            let v = embedding(c, *seed);
            e.push_embedding(&v);
            m.table.push(v);
            cx.label("push_embedding");
        }
        Op::Permute(seed) => {
            let mut p: Vec<usize> = (0..m.lists.len()).collect();
            Rng(*seed).shuffle(&mut p);
            e.permute(&p);
            m.lists = p.iter().map(|&i| m.lists[i].clone()).collect();
            cx.label("permute");
        }
        Op::Reverse => {
            let p: Vec<usize> = (0..m.lists.len()).rev().collect();
            e.permute(&p);
            m.lists.reverse();
        }
        _ => {}
    }
    Ok(())
}

fn save_load(e: &SumEmbeddings, m: &Model, elements: bool) -> Result<SumEmbeddings<'static>, String> {
    let mut table = vec![];
    let n = e.write_embeddings(&mut table).map_err(|e| e.to_string())?;
    ensure!(n == table.len(), "embeddings: {} bytes reported, {} written", n, table.len());
    let mut lists = vec![];
    let n = e.write(&mut lists).map_err(|e| e.to_string())?;
    ensure!(n == lists.len(), "elements: {} bytes reported, {} written", n, lists.len());
    ensure!(fmt::decode_lists(&lists)? == m.lists, "the written elements differ");
    let tf = temp_file("p13-table.bin", &table);
    let lf = temp_file("p13-elements.bin", &lists);
    unsafe { SumEmbeddings::from_files(&tf, if elements { Some(&lf) } else { None }) }.map_err(|e| e.to_string())
}

fn run(c: &Case, cx: &mut Cx) -> Res {
    let mut e: SumEmbeddings<'static> = SumEmbeddings::new();
    let mut m = Model { lists: vec![], table: vec![] };
    for i in 0..c.table {
        let v = embedding(c, c.ids.wrapping_add(1 + i as u64 * 31));
        e.push_embedding(&v);
        m.table.push(v);
    }
    let mut stash: Vec<(SumEmbeddings<'static>, Model)> = vec![];
    let mut changes = 0;
    for (step, op) in c.ops.iter().enumerate() {
        let what = format!("step {} ({:?})", step, op);
        match op {
            Op::Stash => {
                if stash.len() < 3 {
                    stash.push((e.clone(), m.clone()));
                }
            }
            Op::Unstash(k) => {
                if *k < stash.len() {
                    std::mem::swap(&mut stash[*k].0, &mut e);
                    std::mem::swap(&mut stash[*k].1, &mut m);
                }
            }
            Op::SaveLoad(elements) => {
                e = save_load(&e, &m, *elements).map_err(|e| format!("{}: {}", what, e))?;
                if !*elements {
                    m.lists.clear();
                }
                cx.label("reloaded");
            }
            Op::Borrowed(sub) => {
                let mut b = e.borrow();
                let mut bm = m.clone();
                for o in sub {
                    apply(&mut b, &mut bm, c, o, cx)?;
                    check(&b, &bm, c, &format!("{}, after {:?}", what, o), true)?;
                }
                cx.label("borrowed");
            }
            Op::Create(seed) => {
                let l = list(&m, *seed);
                check_sum(&m, &l, c.dim, c.integers, &e.create_embedding(&l), &what)?;
                if !m.lists.is_empty() && !m.table.is_empty() {
                    let i = (*seed % m.lists.len() as u64) as usize;
                    let v = angular::Vector::from(e.create_embedding(&l));
                    let d = e.dist_to_element(i, &v).into_inner();
                    ensure!(d == e.get(i).dist(&v).into_inner(), "{}: distance to element {}", what, i);
                }
            }
            _ => {
                apply(&mut e, &mut m, c, op, cx)?;
                changes += 1;
            }
        }
        check(&e, &m, c, &what, step % 4 == 3)?;
    }
    check(&e, &m, c, "at the end", true)?;
    for (k, (e, m)) in stash.iter().enumerate() {
        check(e, m, c, &format!("stashed copy {}", k), true)?;
    }
    cx.label_if(c.integers, "exact sums");
    cx.nontrivial = changes > 1 && m.lists.iter().any(|l| l.len() > 1);
    Ok(())
}

// ------------------------------------------------------------------------------------------------

/// Lists with ids up to 2^24 - 1; no embeddings, so only the terms.
#[derive(Serialize, Deserialize)]
struct IdCase {
    lists: Vec<Vec<usize>>,
    seed: u64,
}

fn gen_ids(s: &mut Src) -> IdCase {
    let id = |s: &mut Src| match s.weighted(&[2, 1, 1, 2]) {
        0 => s.range(0, 300),
        1 => s.pick(&[0xff, 0x100, 0xffff, 0x1_0000, 0xff_ffff, 0xff_fffe, 0x80_0000, 0x7f_ffff, 0x8000, 0x80]),
        2 => s.range(0, 0x2_0000),
        _ => s.range(0, 0xff_ffff),
    };
    IdCase { lists: s.list(1, 40, |s| s.list(0, 30, id)), seed: s.seed() }
}

fn terms_agree(e: &SumEmbeddings, lists: &[Vec<usize>], what: &str) -> Res {
    ensure!(e.len() == lists.len(), "{}: {} elements instead of {}", what, e.len(), lists.len());
    for (i, l) in lists.iter().enumerate() {
        let t = e.get_terms(i);
        ensure!(
            t == *l,
            "{}: element {} has {} terms {:?} instead of {} terms {:?}",
            what,
            i,
            t.len(),
            &t[..t.len().min(10)],
            l.len(),
            &l[..l.len().min(10)]
        );
    }
    Ok(())
}

fn all_paths(lists: &[Vec<usize>], seed: u64, threads: usize) -> Res {
    let mut e = SumEmbeddings::new();
    for l in lists {
        e.push(l);
    }
    terms_agree(&e, lists, "pushed")?;
    let m = Model { lists: lists.to_vec(), table: vec![] };
    let mut r = save_load(&e, &m, true)?;
    terms_agree(&r, lists, "reloaded")?;
    let mut p: Vec<usize> = (0..lists.len()).collect();
    Rng(seed).shuffle(&mut p);
    let permuted: Vec<Vec<usize>> = p.iter().map(|&i| lists[i].clone()).collect();
    maybe_in_pool(threads, || e.permute(&p));
    terms_agree(&e, &permuted, "permuted")?;
    maybe_in_pool(threads, || r.permute(&p));
    terms_agree(&r, &permuted, "reloaded and permuted")?;
    e.push(&permuted[0]);
    ensure!(e.get_terms(lists.len()) == permuted[0], "pushed after permuting");
    terms_agree(&save_load(&r, &Model { lists: permuted.clone(), table: vec![] }, true)?, &permuted, "reloaded twice")
}

#[derive(Serialize, Deserialize)]
struct BigCase {
    n: usize,
    max_len: usize,
    seed: u64,
    #[serde(default)]
    threads: usize,
}

fn big_lists(c: &BigCase) -> Vec<Vec<usize>> {
    let mut rng = Rng(c.seed);
    (0..c.n)
        .map(|_| {
            let len = rng.below(c.max_len + 1);
            (0..len).map(|_| rng.below(1 << 24)).collect()
        })
        .collect()
}

pub fn p13() -> Property {
    Property {
        id: "P13",
        rule: "A case is a history of pushed id lists and embeddings, permutations, copies, borrowed views and reloads, compared \
               with lists over a table after every step (terms and counts always, sums and unit vectors at intervals). \
               Non-trivial: at least two changes and a list of at least two ids at the end; for the other families: at least \
               two different lists.",
        level: "exploration",
        assumptions: vec![
            "ids below 2^24 and, where embeddings are computed, below the number of embeddings",
            "sums of arbitrary floats are compared within 1e-5 of the sum of magnitudes, small integers exactly",
        ],
        families: vec![
            family("histories", 60_000, 1_500_000, gen_case, run),
            family("ids", 30_000, 600_000, gen_ids, |c: &IdCase, cx: &mut Cx| {
                cx.label_if(c.lists.iter().flatten().any(|&x| x > 0xffff), "three byte id");
                cx.nontrivial = c.lists.iter().any(|l| *l != c.lists[0]);
                all_paths(&c.lists, c.seed, 1)
            }),
            family(
                "many elements",
                24,
                400,
                |s| BigCase { n: s.pick(&[9_999, 10_000, 10_001, 20_000, 30_001, 65_536]), max_len: s.range(1, 12), seed: s.seed(), threads: 1 + 3 * s.range(0, 1) },
                |c: &BigCase, cx: &mut Cx| {
                    cx.nontrivial = true;
                    all_paths(&big_lists(c), c.seed, c.threads)
                },
            ),
            family(
                "long lists",
                2,
                12,
                |s| BigCase { n: s.range(6, 9), max_len: s.range(7_000_000, 9_000_000), seed: s.seed(), threads: 1 },
                |c: &BigCase, cx: &mut Cx| {
                    cx.nontrivial = true;
                    let lists = big_lists(c);
                    cx.label_if(lists.iter().map(|l| l.len()).sum::<usize>() > 1 << 24, "more than 2^24 ids in total");
                    all_paths(&lists, c.seed, 1)
                },
            )
            .workers(2),
        ],
    }
}
