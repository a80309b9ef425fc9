//! Memory errors and data races (P24): the cases of the other properties, run in programs built with sanitizers.
//! What a case finds out otherwise is not reported here; only how the process ends.

use crate::data::*;
use crate::engine::*;
use crate::oracle::*;
use crate::{dispatch, ensure};
use granne::{BuildConfig, Builder, Dist, ElementContainer, ExtendableElementContainer, Granne, GranneBuilder, Index, Permutable, RwGranneBuilder};
use serde::{Deserialize, Serialize};

/// Calls with arguments that do not fit: refused (by a panic) or not, they stay inside the memory of their objects.
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Misuse {
    Search { dim: usize, max_search: usize, k: usize },
    Get(usize),
    Neighbors(usize, usize),
    LayerLen(usize),
    DistToElement(usize, usize),
    Dist(usize, usize),
    Dists(usize, Vec<usize>),
    /// dimensions of two vectors
    Vectors(usize, usize),
    /// dimension, and position among the elements of another data set (for sums: with a larger table)
    Push(usize, usize),
    BuilderPush(usize, usize, bool),
    BuildPartial(usize),
    Keys(usize),
    Permute(usize),
    /// the index with only the first elements
    FewerElements(usize),
    /// a builder with only the first elements and a neighbor limit
    BuilderFewerElements(usize, usize),
    /// the bytes of the elements without the last ones, at an offset
    CutElements(usize, usize),
    Concurrent { capacity: usize, dim: usize, i: usize, get: usize },
}

#[derive(Serialize, Deserialize)]
struct MisuseCase {
    spec: IndexSpec,
    ops: Vec<Misuse>,
}

fn gen_misuse(s: &mut Src) -> MisuseCase {
    let spec = gen_index(s, 60, 120);
    let n = spec.data.n;
    let dim = spec.data.dim;
    let gen_dim = |s: &mut Src| match s.weighted(&[2, 2, 2, 1]) {
        0 => dim + s.range(1, 40),
        1 => s.range(0, dim),
        2 => s.range(0, 300),
        _ => dim * s.range(2, 10),
    };
    let id = |s: &mut Src| match s.weighted(&[3, 3, 1, 1, 1]) {
        0 => s.range(0, n + 2),
        1 => n + s.range(0, 100),
        2 => s.pick(&[usize::MAX, usize::MAX / 2, 1 << 63, u32::MAX as usize, 1 << 32]),
        3 => n * s.range(1, 1000),
        _ => s.seed() as usize,
    };
    let ops = s.list(1, 12, |s| match s.weighted(&[4, 1, 1, 1, 2, 1, 1, 2, 2, 2, 1, 1, 1, 2, 1, 2, 2]) {
        0 => Misuse::Search { dim: gen_dim(s), max_search: s.pick(&[0, 1, 5, 50, 1000, usize::MAX]), k: s.pick(&[0, 1, 10, usize::MAX]) },
        1 => Misuse::Get(id(s)),
        2 => Misuse::Neighbors(id(s), s.pick(&[0, 1, 2, 3, 100, usize::MAX])),
        3 => Misuse::LayerLen(s.pick(&[0, 1, 2, 3, 100, usize::MAX])),
        4 => Misuse::DistToElement(id(s), gen_dim(s)),
        5 => Misuse::Dist(id(s), id(s)),
        6 => Misuse::Dists(id(s), s.list(0, 20, |s| id(s))),
        7 => Misuse::Vectors(gen_dim(s), gen_dim(s)),
        8 => Misuse::Push(gen_dim(s), s.range(0, 10_000)),
        9 => Misuse::BuilderPush(gen_dim(s), s.range(0, 10_000), s.bool()),
        10 => Misuse::BuildPartial(id(s)),
        11 => Misuse::Keys(s.range(0, 2 * n + 5)),
        12 => Misuse::Permute(s.range(0, 2 * n + 5)),
        13 => Misuse::FewerElements(s.range(0, n)),
        14 => Misuse::BuilderFewerElements(s.range(0, n), s.range(1, 20)),
        15 => Misuse::CutElements(if s.chance(2, 3) { s.range(1, 9) } else { s.range(1, 3000) }, s.range(0, 7)),
        _ => Misuse::Concurrent { capacity: n + s.range(0, 20), dim: gen_dim(s), i: s.range(0, 10_000), get: id(s) },
    });
    MisuseCase { spec, ops }
}

fn misuse<K: Kit>(index: &Granne<'_, K>, d: &Data, op: &Misuse) {
    let of_dim = |dim: usize| Data { dim, shape: Shape::Uniform, zeros: vec![], dups: vec![], ..d.clone() };
    let elements = || index.get_elements().clone();
    let saved = || write_index(index).unwrap();
    let cfg = || BuildConfig::new().num_neighbors(20).max_search(10);
    match op {
        Misuse::Search { dim, max_search, k } => {
            index.search(&K::query(&of_dim(*dim), 0), *max_search, *k);
        }
        Misuse::Get(i) => {
            index.get_element(*i);
        }
        Misuse::Neighbors(i, l) => {
            index.get_neighbors(*i, *l);
        }
        Misuse::LayerLen(l) => {
            index.layer_len(*l);
        }
        Misuse::DistToElement(i, dim) => {
            index.get_elements().dist_to_element(*i, &K::query(&of_dim(*dim), 1));
        }
        Misuse::Dist(i, j) => {
            index.get_elements().dist(*i, *j);
        }
        Misuse::Dists(i, others) => {
            index.get_elements().dists(*i, others);
        }
        Misuse::Vectors(x, y) => {
            let (a, b) = (of_dim(*x).base_row(0), of_dim(*y).base_row(1));
            granne::angular::Vector::from(a.clone()).dist(&granne::angular::Vector::from(b.clone()));
            let _ = no_panic(|| granne::angular_int::Vector::from(a).dist(&granne::angular_int::Vector::from(b)));
        }
        Misuse::Push(dim, i) => {
            let mut e = elements();
            let other = Data { n: d.n + i, ..of_dim(*dim) };
            let _ = no_panic(|| ExtendableElementContainer::push(&mut e, K::internal(&other, *i)));
            let last = e.len().max(1) - 1;
            e.get(last);
            e.dist(0, last);
        }
        Misuse::BuilderPush(dim, i, build) => {
            let mut b = GranneBuilder::from_bytes(cfg(), &saved(), elements());
            let other = Data { n: d.n + i, ..of_dim(*dim) };
            let _ = no_panic(|| b.push(K::internal(&other, *i)));
            if *build {
                b.build();
            }
            b.get_index().search(&K::query(d, 2), 20, 5);
        }
        Misuse::BuildPartial(n) => {
            let mut b = GranneBuilder::from_bytes(cfg(), &saved(), elements());
            b.build_partial(*n);
        }
        Misuse::Keys(n) => {
            let e = elements();
            let bytes = saved();
            let mut i = Granne::from_bytes(&bytes, e);
            let keys: Vec<usize> = (0..*n).map(|i| i * 7 % 5).collect();
            let _ = no_panic(|| i.reorder_by_keys(&keys, false));
            i.search(&K::query(d, 3), 20, 5);
        }
        Misuse::Permute(n) => {
            let mut e = elements();
            let order: Vec<usize> = (0..*n).rev().collect();
            let _ = no_panic(|| e.permute(&order));
            for i in 0..e.len() {
                e.get(i);
            }
        }
        Misuse::FewerElements(n) => {
            let e = K::make_n(d, *n);
            let bytes = saved();
            let mut i = Granne::from_bytes(&bytes, e);
            for q in 0..3 {
                let _ = no_panic(|| i.search(&K::query(d, q), 20, 5));
            }
            i.reorder(false);
        }
        Misuse::BuilderFewerElements(n, limit) => {
            let e = K::make_n(d, *n);
            let mut b = GranneBuilder::from_bytes(cfg().num_neighbors(*limit), &saved(), e);
            let _ = no_panic(|| b.build());
            let _ = no_panic(|| b.push(K::internal(d, *n)));
            b.build();
        }
        Misuse::CutElements(cut, offset) => {
            let mut bytes = vec![];
            index.get_elements().write(&mut bytes).unwrap();
            let bytes = Aligned::new(&bytes[..bytes.len().saturating_sub(*cut)], *offset);
            let e = K::load(d, bytes.get());
            for i in 0..e.len() {
                e.get(i);
            }
            if e.len() > 0 {
                e.dist(e.len() - 1, 0);
            }
        }
        Misuse::Concurrent { capacity, dim, i, get } => {
            let rw = RwGranneBuilder::new(GranneBuilder::from_bytes(cfg(), &saved(), elements()), *capacity, 1);
            let other = Data { n: d.n + i, ..of_dim(*dim) };
            let _ = no_panic(|| rw.insert(K::internal(&other, *i)));
            let _ = no_panic(|| rw.get_element(*get));
            let _ = no_panic(|| rw.search(&K::query(&of_dim(*dim), 4), 20, 5));
            let _ = no_panic(|| rw.insert_batch(vec![K::internal(d, 0), K::internal(&other, *i), K::internal(d, 1)]));
            let mut index = std::io::Cursor::new(vec![]);
            let _ = rw.write(&mut index, &mut vec![]);
        }
    }
}

fn run_misuse_kind<K: Kit>(c: &MisuseCase, cx: &mut Cx) -> Res {
    with_index::<K, ()>(&c.spec, |index| {
        let mut refused = 0;
        for op in &c.ops {
            refused += no_panic(|| misuse::<K>(index, &c.spec.data, op)).is_err() as usize;
        }
        // and it still answers
        let q = K::query(&c.spec.data, 9);
        let results = no_panic(|| index.search(&q, 10, 5))?;
        ensure!(results.len() <= 5, "more results than asked for");
        cx.label(format!("{:?}", c.spec.data.kind));
        cx.label_if(refused > 0, "refused");
        cx.label_if(refused < c.ops.len(), "not refused");
        cx.nontrivial = index.len() > 1;
        Ok(())
    })
}

fn run_misuse(c: &MisuseCase, cx: &mut Cx) -> Res {
    dispatch!(c.spec.data.kind, run_misuse_kind, c, cx)
}

/// Properties whose cases are run under the address sanitizer, and the share of their quick number of cases.
const ASAN: [(&str, f64); 21] = [
    ("P01", 0.03), ("P02", 0.02), ("P04", 0.04), ("P05", 0.02), ("P06", 0.04), ("P07", 0.05), ("P08", 0.03), ("P09", 0.03),
    ("P10", 0.05), ("P11", 0.03), ("P12", 0.02), ("P13", 0.05), ("P14", 0.05), ("P15", 0.05), ("P16", 0.05), ("P17", 0.05),
    ("P18", 0.05), ("P19", 0.02), ("P21", 0.05), ("P22", 0.03), ("P25", 0.02),
];

/// Those with several threads, run under the thread sanitizer.
const TSAN: [(&str, f64); 7] =
    [("P09", 0.005), ("P13", 0.005), ("P14", 0.005), ("P15", 0.03), ("P16", 0.1), ("P17", 0.06), ("P22", 0.05)];

pub fn p24(others: &mut Vec<Property>) -> Property {
    let mut families = vec![];
    let mut take = |list: &[(&str, f64)], build: &'static str, others: &mut Vec<Property>| {
        for p in others.drain(..) {
            let Some(&(id, share)) = list.iter().find(|x| x.0 == p.id) else { continue };
            for f in p.families {
                // what these are about is not how memory is used, and others do the same with less effort
                if ["findable", "findable on average", "one thread", "long lists", "large history"].contains(&f.name) {
                    continue;
                }
                let run = f.run;
                families.push(Family {
                    name: Box::leak(format!("{} {} ({})", id, f.name, build).into_boxed_str()),
                    quick: ((f.quick as f64 * share).ceil() as u64).max(2),
                    thorough: ((f.quick as f64 * share * 3.0).ceil() as u64).max(3),
                    workers: f.workers,
                    build,
                    gen: f.gen,
                    run: Box::new(move |v, cx| {
                        let mut inner = Cx::default();
                        match no_panic(|| run(v, &mut inner)) {
                            Ok(Ok(())) => {}
                            Ok(Err(_)) => cx.label("fails otherwise"),
                            Err(p) if p.contains("HARNESS:") => panic!("{}", p),
                            Err(_) => cx.label("panics"),
                        }
                        cx.nontrivial = inner.nontrivial;
                        Ok(())
                    }),
                });
            }
        }
    };
    let mut second = super::base();
    take(&ASAN, "asan", others);
    take(&TSAN, "tsan", &mut second);
    let mut wrong = family("arguments that do not fit (asan)", 12_000, 40_000, gen_misuse, run_misuse);
    wrong.build = "asan";
    families.push(wrong);
    Property {
        id: "P24",
        rule: "The cases of the other checks (by property and family), run in programs built with the address sanitizer (half of \
               the workers) and the thread sanitizer (those with several threads). A case is non-trivial by the rule of its family.",
        level: "exploration",
        assumptions: vec![
            "errors are noticed where the sanitizers notice them: heap, stack and global bounds and lifetimes, and races of accesses \
             that are not ordered in the execution explored",
            "damaged files are the subject of P19, whose cases are included",
        ],
        families,
    }
}
