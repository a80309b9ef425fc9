//! Vector collections as lists (P21).

use crate::data::*;
use crate::engine::*;
use crate::ensure;
use granne::{angular, angular_int, ElementContainer, ExtendableElementContainer, Permutable, Writeable};
use serde::{Deserialize, Serialize};
use std::cell::OnceCell;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Start {
    New,
    Vec,
    Slice,
    Bytes(usize),
    File,
    Collect,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Push(u64),
    PushTrait(u64),
    /// another dimension: the difference
    PushWrong(i8),
    Extend(usize),
    /// a fresh collection with n vectors, of another dimension if the last value is not 0
    ExtendFresh(Start, usize, i8),
    Permute(u64),
    Rotate(usize),
    Clone,
    IntoOwned,
    SaveLoad(Start),
    /// the sub-operations on a borrowed view; the original must not change
    Borrowed(Vec<Op>),
    /// the sub-operations on a clone
    Cloned(Vec<Op>),
    Swap(usize),
    Read(usize),
}

#[derive(Serialize, Deserialize)]
struct Case {
    dim: usize,
    starts: Vec<(Start, usize, u64)>,
    ops: Vec<(usize, Op)>,
}

fn gen_start(s: &mut Src) -> Start {
    match s.weighted(&[2, 2, 2, 2, 2, 1]) {
        0 => Start::New,
        1 => Start::Vec,
        2 => Start::Slice,
        3 => Start::Bytes(s.range(0, 7)),
        4 => Start::File,
        _ => Start::Collect,
    }
}

fn gen_op(s: &mut Src, slots: usize, depth: usize) -> Op {
    let w: &[u64] = if depth == 0 { &[5, 2, 2, 2, 3, 4, 1, 1, 1, 2, 3, 2, 1, 2] } else { &[5, 2, 2, 2, 3, 4, 1, 1, 1] };
    match s.weighted(w) {
        0 => Op::Push(s.seed()),
        1 => Op::PushTrait(s.seed()),
        2 => Op::PushWrong(s.pick(&[1i8, -1, 3, 31, -2])),
        3 => Op::Extend(s.range(0, slots - 1)),
        4 => Op::ExtendFresh(gen_start(s), s.range(0, 4), s.pick(&[0i8, 0, 0, 1, -1])),
        5 => Op::Permute(s.seed()),
        6 => Op::Rotate(s.range(0, 5)),
        7 => Op::Clone,
        8 => Op::IntoOwned,
        9 => Op::SaveLoad(gen_start(s)),
        10 => Op::Borrowed(s.list(1, 4, |s| gen_op(s, slots, 1))),
        11 => Op::Cloned(s.list(1, 4, |s| gen_op(s, slots, 1))),
        12 => Op::Swap(s.range(0, slots - 1)),
        _ => Op::Read(s.range(0, 100)),
    }
}

fn gen_case(s: &mut Src, max_n: usize) -> Case {
    let dim = if s.chance(1, 4) { s.range(1, 3) } else { s.num(1, 70) };
    let k = s.range(1, 3);
    let starts = (0..k).map(|_| (gen_start(s), if s.chance(1, 6) { 0 } else { s.num(1, max_n) }, s.seed())).collect();
    let ops = s.list(1, 14, |s| (s.range(0, k - 1), gen_op(s, k, 0)));
    Case { dim, starts, ops }
}

fn perm(seed: u64, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    Rng(seed).shuffle(&mut p);
    p
}

macro_rules! vector_lists {
    ($name:ident, $m:ident, $scalar:ty, $row:expr, $bits:expr) => {
        mod $name {
            use super::*;

            type V<'a> = $m::Vectors<'a>;
            type Model = Vec<Vec<$scalar>>;

            /// Data that collections borrow from.
            pub struct Source {
                flat: Vec<$scalar>,
                bytes: Aligned,
                copy: Vec<u8>,
                path: Option<std::fs::File>,
            }

            pub struct Arena {
                cells: Vec<OnceCell<Source>>,
                next: std::cell::Cell<usize>,
            }

            impl Arena {
                fn add(&self, s: Source) -> &Source {
                    let i = self.next.get();
                    self.next.set(i + 1);
                    self.cells[i].get_or_init(|| s)
                }
            }

            fn row(seed: u64, i: usize, dim: usize) -> Vec<$scalar> {
                let mut rng = Rng(seed ^ (i as u64).wrapping_mul(0x1234_5678_9ABC_DEF1));
                rng.u64();
                (0..dim).map(|_| $row(rng.u64())).collect()
            }

            fn same(a: &[$scalar], b: &[$scalar]) -> bool {
                a.len() == b.len() && a.iter().zip(b).all(|(x, y)| $bits(*x) == $bits(*y))
            }

            fn encode(rows: &Model, dim: usize) -> Vec<u8> {
                let mut b = (dim as u64).to_le_bytes().to_vec();
                for x in rows.iter().flatten() {
                    b.extend_from_slice(&x.to_le_bytes());
                }
                b
            }

            /// A collection with the given content; also returns its dimension.
            fn start<'a>(arena: &'a Arena, how: &Start, rows: &Model, dim: usize) -> Result<(V<'a>, usize), String> {
                let flat: Vec<$scalar> = rows.iter().flatten().copied().collect();
                let copy = encode(rows, dim);
                let off = if let Start::Bytes(o) = how { *o } else { 0 };
                let path = if let Start::File = how { Some(temp_file("p21.bin", &copy)) } else { None };
                let src = arena.add(Source { flat, bytes: Aligned::new(&copy, off), copy, path });
                Ok(match how {
                    Start::New => {
                        let mut v = V::new();
                        for r in rows {
                            v.push(&$m::Vector(r.clone().into()));
                        }
                        (v, if rows.is_empty() { 0 } else { dim })
                    }
                    Start::Vec => (V::from_vec(src.flat.clone(), dim), dim),
                    Start::Slice => (V::from_slice(&src.flat, dim), dim),
                    Start::Bytes(_) => (V::from_bytes(src.bytes.get()), dim),
                    Start::File => (unsafe { V::from_file(src.path.as_ref().unwrap()) }.map_err(|e| e.to_string())?, dim),
                    Start::Collect => {
                        let v: V = rows.iter().map(|r| $m::Vector(r.as_slice().into())).collect();
                        (v, if rows.is_empty() { 0 } else { dim })
                    }
                })
            }

            fn check(v: &V, model: &Model, dim: usize, what: &str) -> Res {
                ensure!(v.len() == model.len(), "{}: {} vectors instead of {}", what, v.len(), model.len());
                ensure!(v.dim() == dim, "{}: dimension {} instead of {}", what, v.dim(), dim);
                ensure!(ElementContainer::len(v) == model.len(), "{}: length as a container", what);
                ensure!(v.is_empty() == model.is_empty(), "{}: is_empty() with {} vectors", what, model.len());
                for (i, want) in model.iter().enumerate() {
                    let e = v.get_element(i);
                    ensure!(same(e.as_slice(), want), "{}: vector {} is {:?} instead of {:?}", what, i, e.as_slice(), want);
                }
                let all: Vec<$scalar> = model.iter().flatten().copied().collect();
                ensure!(same(v.as_slice(), &all), "{}: the raw slice differs", what);
                Ok(())
            }

            fn apply<'a>(
                arena: &'a Arena,
                v: &mut V<'a>,
                model: &mut Model,
                known_dim: &mut usize,
                op: &Op,
                others: &[(Model, usize)],
                other_of: &dyn Fn(usize) -> V<'static>,
                dim: usize,
                cx: &mut Cx,
            ) -> Res {
                match op {
                    Op::Push(seed) | Op::PushTrait(seed) => {
                        let r = row(*seed, 0, dim);
                        if let Op::Push(_) = op {
                            v.push(&$m::Vector(r.as_slice().into()));
                        } else {
                            ExtendableElementContainer::push(v, $m::Vector(r.clone().into()));
                        }
                        model.push(r);
                        *known_dim = dim;
                        cx.label("push");
                    }
                    Op::PushWrong(delta) => {
                        let wrong = (dim as i64 + *delta as i64).max(1) as usize;
                        if *known_dim != 0 && wrong != dim {
                            let r = row(7, 0, wrong);
                            let res = no_panic(|| v.push(&$m::Vector(r.into())));
                            ensure!(res.is_err(), "a vector of dimension {} was accepted, the others have {}", wrong, dim);
                            cx.label("refused push");
                        }
                    }
                    Op::Extend(j) => {
                        let (rows, d) = &others[*j];
                        v.extend(other_of(*j));
                        model.extend(rows.iter().cloned());
                        if *known_dim == 0 {
                            *known_dim = *d;
                        }
                        cx.label("extend");
                    }
                    Op::ExtendFresh(how, n, delta) => {
                        let wrong = (dim as i64 + *delta as i64).max(1) as usize;
                        let rows: Model = (0..*n).map(|i| row(99, i, wrong)).collect();
                        if wrong == dim {
                            let (o, d) = start(arena, how, &rows, wrong)?;
                            v.extend(o);
                            model.extend(rows);
                            if *known_dim == 0 {
                                *known_dim = d;
                            }
                            cx.label("extend fresh");
                        } else if *known_dim != 0 && *n > 0 {
                            let (o, _) = start(arena, how, &rows, wrong)?;
                            let res = no_panic(|| v.extend(o));
                            ensure!(res.is_err(), "vectors of dimension {} were accepted, the others have {}", wrong, dim);
                            cx.label("refused extend");
                        }
                    }
                    Op::Permute(seed) => {
                        let p = perm(*seed, model.len());
                        v.permute(&p);
                        *model = p.iter().map(|&i| model[i].clone()).collect();
                        cx.label("permute");
                    }
                    Op::Rotate(by) => {
                        let n = model.len();
                        let p: Vec<usize> = (0..n).map(|i| (i + by) % n).collect();
                        v.permute(&p);
                        *model = p.iter().map(|&i| model[i].clone()).collect();
                        cx.label("rotate");
                    }
                    Op::Clone => *v = v.clone(),
                    Op::IntoOwned => *v = std::mem::replace(v, V::new()).into_owned(),
                    _ => {}
                }
                Ok(())
            }

            pub fn run(c: &Case, cx: &mut Cx) -> Res {
                let dim = c.dim;
                let room = c.starts.len() + c.ops.iter().map(|(_, o)| if let Op::Borrowed(x) | Op::Cloned(x) = o { x.len() + 1 } else { 1 }).sum::<usize>();
                let arena = Arena { cells: (0..room).map(|_| OnceCell::new()).collect(), next: std::cell::Cell::new(0) };
                let mut slots: Vec<V> = vec![];
                let mut models: Vec<(Model, usize)> = vec![];
                for (how, n, seed) in &c.starts {
                    let rows: Model = (0..*n).map(|i| row(*seed, i, dim)).collect();
                    let (v, d) = start(&arena, how, &rows, dim)?;
                    check(&v, &rows, d, "start")?;
                    cx.label(format!("start {:?}", how).split('(').next().unwrap().to_string());
                    slots.push(v);
                    models.push((rows, d));
                }
                let mut changes = 0;
                for (step, (i, op)) in c.ops.iter().enumerate() {
                    let what = format!("step {} ({:?})", step, op);
                    let snapshot = models.clone();
                    let err = |e: String| format!("{}: {}", what, e);
                    let (mut m, mut d) = models[*i].clone();
                    // borrowing from the other slots would keep them from changing, so extending uses owned copies
                    let copies: Vec<V<'static>> = match op {
                        Op::Extend(_) | Op::Borrowed(_) | Op::Cloned(_) => slots.iter().map(|v| v.clone().into_owned()).collect(),
                        _ => vec![],
                    };
                    let other_of = |j: usize| -> V<'static> { copies[j].clone() };
                    match op {
                        Op::Borrowed(sub) => {
                            let mut b = slots[*i].borrow();
                            check(&b, &m, d, "borrowed").map_err(err)?;
                            for o in sub {
                                apply(&arena, &mut b, &mut m, &mut d, o, &snapshot, &other_of, dim, cx).map_err(err)?;
                                check(&b, &m, d, &format!("borrowed, after {:?}", o)).map_err(err)?;
                            }
                            cx.label("borrowed view changed");
                        }
                        Op::Cloned(sub) => {
                            let mut b = slots[*i].clone();
                            for o in sub {
                                apply(&arena, &mut b, &mut m, &mut d, o, &snapshot, &other_of, dim, cx).map_err(err)?;
                                check(&b, &m, d, &format!("clone, after {:?}", o)).map_err(err)?;
                            }
                        }
                        Op::SaveLoad(how) => {
                            let mut bytes = vec![];
                            let n = slots[*i].write(&mut bytes).map_err(|e| err(e.to_string()))?;
                            ensure!(n == bytes.len(), "{}: {} bytes reported, {} written", what, n, bytes.len());
                            ensure!(bytes == encode(&m, d), "{}: unexpected bytes", what);
                            if d != 0 {
                                let (v, nd) = start(&arena, how, &m, dim)?;
                                slots[*i] = v;
                                models[*i].1 = nd;
                            }
                        }
                        Op::Swap(j) => {
                            slots.swap(*i, *j);
                            models.swap(*i, *j);
                        }
                        Op::Read(k) => {
                            if *k < m.len() {
                                let e = ElementContainer::get(&slots[*i], *k);
                                ensure!(same(e.as_slice(), &m[*k]), "{}: element {} is {:?}", what, k, e.as_slice());
                                ensure!(e.len() == dim, "{}: length {}", what, e.len());
                                ensure!(same(&e.clone().into_vec(), &m[*k]), "{}: into_vec", what);
                                ensure!(same(e.into_owned().as_slice(), &m[*k]), "{}: into_owned", what);
                            } else {
                                let res = no_panic(|| slots[*i].get_element(*k).len());
                                ensure!(res.is_err(), "{}: reading beyond the end gives a vector", what);
                            }
                        }
                        _ => {
                            apply(&arena, &mut slots[*i], &mut m, &mut d, op, &snapshot, &other_of, dim, cx).map_err(err)?;
                            models[*i] = (m, d);
                            changes += 1;
                        }
                    }
                    for (j, (m, d)) in models.iter().enumerate() {
                        check(&slots[j], m, *d, &format!("{}: collection {} (changed: {})", what, j, i))?;
                    }
                }
                for s in arena.cells.iter().filter_map(|c| c.get()) {
                    ensure!(s.bytes.get() == &s.copy[..], "the bytes a collection was loaded from changed");
                    if let Some(f) = &s.path {
                        use std::os::unix::fs::FileExt;
                        let mut now = vec![0; s.copy.len()];
                        f.read_exact_at(&mut now, 0).map_err(|e| e.to_string())?;
                        ensure!(now == s.copy && f.metadata().unwrap().len() == s.copy.len() as u64, "the mapped file changed");
                    }
                    let flat: Vec<u8> = s.flat.iter().flat_map(|x| x.to_le_bytes()).collect();
                    ensure!(flat[..] == s.copy[8..], "the slice a collection was created from changed");
                }
                cx.nontrivial = changes > 0 && models.iter().any(|m| m.0.len() > 1);
                Ok(())
            }
        }
    };
}

vector_lists!(floats, angular, f32, |r: u64| (r >> 40) as f32 / 16_777_216.0 - 0.5, |x: f32| x.to_bits());
vector_lists!(bytes, angular_int, i8, |r: u64| (r >> 56) as i8, |x: i8| x);

pub fn p21() -> Property {
    Property {
        id: "P21",
        rule: "A case is up to three collections, each starting new, from a vector, from a borrowed slice, from bytes at a \
               generated address, from a mapped file or collected, and a history of pushes, extensions, permutations, clones, \
               conversions, save/load and changes through borrowed views and clones; all collections are compared with list \
               models after every step. Non-trivial: at least one change and a collection of at least two vectors.",
        level: "exploration",
        assumptions: vec!["dimensions of at least 1; permutations of the collection's length"],
        families: vec![
            family("float lists", 60_000, 1_500_000, |s| gen_case(s, 30), floats::run),
            family("byte lists", 60_000, 1_500_000, |s| gen_case(s, 30), bytes::run),
            family("long float lists", 300, 8_000, |s| gen_case(s, 3000), floats::run),
            family("long byte lists", 300, 8_000, |s| gen_case(s, 3000), bytes::run),
        ],
    }
}
