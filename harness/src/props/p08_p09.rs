//! Resuming builds from saved files (P08) and reordering (P09).

use super::p17::{gen_threads, maybe_in_pool};
use crate::data::*;
use crate::engine::*;
use crate::oracle::*;
use crate::{dispatch, ensure, fmt};
use granne::{Builder, Granne, GranneBuilder, Index};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Resume {
    Bytes(usize),
    File,
    /// no interruption before this step
    Skip,
}

#[derive(Serialize, Deserialize)]
struct ResumeCase {
    data: Data,
    cfg: Cfg,
    /// (elements available, elements to index, interruption before the step)
    steps: Vec<(usize, usize, Resume)>,
    /// elements are stored and loaded as well
    reload_elements: bool,
    /// another neighbor limit when loading the final index
    limit: usize,
}

fn gen_resume(s: &mut Src, max_n: usize) -> ResumeCase {
    let kind = s.pick(&KINDS);
    let n = s.num(1, max_n);
    let data = if s.chance(1, 6) { gen_data_n(s, kind, n) } else { gen_general(s, kind, n) };
    let mut cfg = gen_cfg(s);
    cfg.multiplier = match s.weighted(&[3, 2]) {
        0 => s.range(2, 20) as f32,
        _ => 1.5 + s.range(0, 40) as f32 / 16.0,
    };
    if s.chance(2, 3) {
        cfg.expected = Some(s.range(n / 2, n + 20));
    }
    let k = s.range(1, 5);
    let mut targets: Vec<usize> = (0..k).map(|_| s.range(0, n)).collect();
    targets.sort_unstable();
    targets.push(n);
    let mut available = 0;
    let steps = targets
        .into_iter()
        .map(|t| {
            available = s.range(t, n).max(available);
            (
                available,
                t,
                match s.weighted(&[3, 2, 1]) {
                    0 => Resume::Bytes(s.range(0, 7)),
                    1 => Resume::File,
                    _ => Resume::Skip,
                },
            )
        })
        .collect();
    let limit = s.range(1, cfg.num_neighbors + 10);
    ResumeCase { data, cfg, steps, reload_elements: s.bool(), limit }
}

fn has_ties<K: Kit>(elements: &K) -> bool {
    let n = elements.len();
    (0..n).any(|i| {
        let e = elements.get(i);
        let mut v: Vec<u32> = (0..n).filter(|&j| j != i).map(|j| elements.dist_to_element(j, &e).into_inner().to_bits()).collect();
        v.sort_unstable();
        v.windows(2).any(|w| w[0] == w[1])
    })
}

fn load_builder<K: Kit>(cfg: &Cfg, bytes: &[u8], how: &Resume, elements: K) -> Result<GranneBuilder<K>, String> {
    match how {
        Resume::Bytes(off) => {
            let a = Aligned::new(bytes, *off);
            Ok(GranneBuilder::from_bytes(cfg.build_config(), a.get(), elements))
        }
        _ => {
            let f = temp_file("resume.bin", bytes);
            GranneBuilder::from_file(cfg.build_config(), &f, elements).map_err(|e| format!("from_file: {}", e))
        }
    }
}

fn run_resume<K: Kit>(c: &ResumeCase, cx: &mut Cx) -> Res {
    let d = &c.data;
    cx.label(format!("{:?}", d.kind));
    let mut straight = GranneBuilder::new(c.cfg.build_config(), K::empty(d));
    let mut resumed = GranneBuilder::new(c.cfg.build_config(), K::empty(d));
    let mut pushed = 0;
    let mut interruptions = 0;
    for (step, (available, target, how)) in c.steps.iter().enumerate() {
        if !matches!(how, Resume::Skip) {
            let len = resumed.len();
            let before = sorted(&view(&resumed));
            let bytes = write_index(&resumed)?;
            let elements = if c.reload_elements {
                let mut b = Vec::new();
                resumed.write_elements(&mut b).map_err(|e| e.to_string())?;
                K::load(d, &b)
            } else {
                resumed.get_elements().clone()
            };
            resumed = load_builder(&c.cfg, &bytes, how, elements)?;
            ensure!(resumed.len() == len, "step {}: {} elements indexed after loading, {} before", step, resumed.len(), len);
            ensure!(sorted(&view(&resumed)) == before, "step {}: the index differs after loading", step);
            ensure!(resumed.num_elements() == pushed, "step {}: {} elements after loading", step, resumed.num_elements());
            if len > 0 && len < d.n {
                interruptions += 1;
            }
        }
        while pushed < *available {
            straight.push(K::internal(d, pushed));
            resumed.push(K::internal(d, pushed));
            pushed += 1;
        }
        if *target == pushed {
            straight.build();
            resumed.build();
        } else {
            straight.build_partial(*target);
            resumed.build_partial(*target);
        }
        ensure!(resumed.len() == straight.len(), "step {}: {} indexed, {} without saving", step, resumed.len(), straight.len());
        ensure!(resumed.len() == *target, "step {}: {} indexed instead of {}", step, resumed.len(), target);
        ensure!(sizes(&resumed) == sizes(&straight), "step {}: layers {:?}, {:?} without saving", step, sizes(&resumed), sizes(&straight));
        let (a, b) = (sorted(&view(&straight)), sorted(&view(&resumed)));
        check_view(&b, c.cfg.num_neighbors, pushed, *target).map_err(|e| format!("step {}: {}", step, e))?;
        check_linked(resumed.get_elements(), &b).map_err(|e| format!("step {}: {}", step, e))?;
        if a != b {
            // with so many elements, some distances are always equal
            if d.n > 5_000 || has_ties(resumed.get_elements()) {
                cx.label("ties");
                let all: usize = a.iter().map(|l| l.len()).sum();
                let different: usize = a.iter().zip(&b).map(|(x, y)| x.iter().zip(y).filter(|(x, y)| x != y).count()).sum();
                cx.metric("different", different as f64 / all as f64);
                // a tie changes little
                ensure!(
                    all < 500 || !d.zeros.is_empty() || !d.dups.is_empty() || different * 2 < all,
                    "step {}: {} of {} neighbor lists differ from those without saving",
                    step,
                    different,
                    all
                );
                return Ok(());
            }
            let (l, i) = a
                .iter()
                .enumerate()
                .find_map(|(l, layer)| (0..layer.len()).find(|&i| layer[i] != b[l][i]).map(|i| (l, i)))
                .unwrap();
            return Err(format!(
                "step {}: element {} in layer {} has neighbors {:?}, without saving {:?}",
                step, i, l, b[l][i], a[l][i]
            ));
        }
    }
    // another limit
    let bytes = write_index(&resumed)?;
    let full = sorted(&view(&resumed));
    let mut cfg = c.cfg.clone();
    cfg.num_neighbors = c.limit;
    let mut other = load_builder(&cfg, &bytes, &c.steps[0].2, resumed.get_elements().clone())?;
    let kept = sorted(&view(&other));
    ensure!(sizes(&other) == sizes(&resumed), "limit {}: layers {:?} instead of {:?}", c.limit, sizes(&other), sizes(&resumed));
    for (l, (a, b)) in full.iter().zip(&kept).enumerate() {
        for i in 0..a.len() {
            ensure!(
                b[i].len() == a[i].len().min(c.limit) && b[i].iter().all(|x| a[i].contains(x)),
                "limit {}: element {} in layer {} has neighbors {:?} of {:?}",
                c.limit,
                i,
                l,
                b[i],
                a[i]
            );
        }
    }
    for _ in 0..3 {
        other.push(K::internal(d, 0));
    }
    other.build();
    ensure!(other.len() == d.n + 3, "limit {}: {} elements indexed after 3 more, {} before", c.limit, other.len(), d.n);
    check_view(&view(&other), c.limit, d.n + 3, d.n + 3).map_err(|e| format!("limit {}: {}", c.limit, e))?;
    check_linked(other.get_elements(), &view(&other)).map_err(|e| format!("limit {}: {}", c.limit, e))?;
    cx.nontrivial = interruptions > 0 && d.n > 3;
    cx.label_if(interruptions > 1, "several interruptions");
    cx.label_if(full.len() > 1, "several layers");
    cx.label_if(full.iter().flatten().any(|l| l.len() > c.limit), "smaller limit");
    cx.label_if(full.iter().flatten().any(|l| l.len() == c.cfg.num_neighbors && l.len() > 1), "full lists");
    Ok(())
}

pub fn p08() -> Property {
    Property {
        id: "P08",
        rule: "A case is a data set (mostly in general position), a configuration and a sequence of partial builds with elements \
               pushed in between; one builder runs through, the other one is saved and loaded (from bytes at a generated \
               address or a file, with its elements or with stored and loaded ones) before steps. Non-trivial: at least one \
               interruption of a partially built index.",
        level: "exploration",
        assumptions: vec!["single-threaded builds; differing graphs are accepted only if the data has exact distance ties (taken for granted beyond 5000 elements), and then in less than half of the lists"],
        families: vec![
            family("resume", 8000, 150_000, |s| gen_resume(s, 120), |c: &ResumeCase, cx| dispatch!(c.data.kind, run_resume, c, cx)),
            family("large", 160, 3000, |s| gen_resume(s, 1500), |c: &ResumeCase, cx| dispatch!(c.data.kind, run_resume, c, cx)),
            family(
                "beyond 16 bits",
                12,
                300,
                |s| {
                    let data = gen_many(s);
                    let n = data.n;
                    let mut c = gen_resume(s, 1000);
                    c.data = data;
                    c.cfg = gen_cheap_cfg(s);
                    let mut at = vec![s.pick(&[n / 3, 40_000]), s.pick(&[65_530, 65_535, 65_536, 65_537, n]).min(n), n];
                    at.dedup();
                    c.steps = at
                        .into_iter()
                        .map(|t| (t.max(s.pick(&[t, n])), t, if s.bool() { Resume::File } else { Resume::Bytes(s.range(0, 7)) }))
                        .collect();
                    for i in 1..c.steps.len() {
                        c.steps[i].0 = c.steps[i].0.max(c.steps[i - 1].0);
                    }
                    c
                },
                |c: &ResumeCase, cx| dispatch!(c.data.kind, run_resume, c, cx),
            ),
        ],
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Keys {
    /// Granne::reorder
    None,
    Ints(usize),
    Strings(usize),
    Pairs(usize),
}

#[derive(Serialize, Deserialize)]
struct ReorderCase {
    index: IndexSpec,
    keys: Vec<Keys>,
    seed: u64,
    searches: Vec<Search>,
    /// reorder the reloaded index for the second one
    reload: bool,
    #[serde(default)]
    threads: usize,
    #[serde(default)]
    show: bool,
}

fn gen_reorder(s: &mut Src, max_build: usize, max_graph: usize) -> ReorderCase {
    let mut index = gen_index(s, max_build, max_graph);
    if s.chance(1, 2) {
        // in general position, so that searches are comparable
        index.data = gen_general(s, index.data.kind, index.data.n);
    }
    let n = index.data.n;
    let keys = s.list(1, 2, |s| match s.weighted(&[4, 2, 1, 1]) {
        0 => Keys::None,
        1 => Keys::Ints(s.size(0, 2 * n + 1)),
        2 => Keys::Strings(s.size(0, 30)),
        _ => Keys::Pairs(s.size(0, 10)),
    });
    ReorderCase { index, keys, seed: s.seed(), searches: s.list(1, 3, |s| gen_search(s, n)), reload: s.bool(), threads: gen_threads(s), show: s.chance(1, 8) }
}

/// stable sort of each layer range
fn model_order<T: Ord>(keys: &[T], sizes: &[usize]) -> Vec<usize> {
    let mut order = vec![];
    let mut begin = 0;
    for &end in sizes {
        let mut ids: Vec<usize> = (begin..end).collect();
        ids.sort_by(|a, b| keys[*a].cmp(&keys[*b]));
        order.extend(ids);
        begin = end;
    }
    order
}

fn check_reordered<K: Kit>(
    before: &View,
    old: &K,
    index: &Granne<'_, K>,
    order: &[usize],
    searches: &[(K::El, &Search, Vec<(usize, f32)>)],
    cx: &mut Cx,
) -> Res {
    let len = before.last().map_or(0, |l| l.len());
    ensure!(order.len() == len, "the order has {} entries for {} indexed elements", order.len(), len);
    let mut inverse = vec![usize::MAX; len];
    for (i, &j) in order.iter().enumerate() {
        ensure!(j < len && inverse[j] == usize::MAX, "the order is not a permutation: {} at {}", j, i);
        inverse[j] = i;
    }
    let mut begin = 0;
    for (l, layer) in before.iter().enumerate() {
        for i in begin..layer.len() {
            ensure!(
                (begin..layer.len()).contains(&order[i]),
                "element {} of layer {} (from {}, size {}) comes from {}",
                i,
                l,
                begin,
                layer.len(),
                order[i]
            );
        }
        begin = layer.len();
    }
    let elements = index.get_elements();
    ensure!(elements.len() == old.len(), "{} elements after reordering, {} before", elements.len(), old.len());
    for i in 0..old.len() {
        let j = if i < len { order[i] } else { i };
        ensure!(K::same(&elements.get(i), &old.get(j)), "element {} is not the one previously at {}", i, j);
    }
    let after = view(index);
    ensure!(after.len() == before.len(), "{} layers after reordering, {} before", after.len(), before.len());
    for (l, (a, b)) in after.iter().zip(before).enumerate() {
        ensure!(a.len() == b.len(), "layer {} has {} elements, {} before", l, a.len(), b.len());
        for i in 0..a.len() {
            let mut want: Vec<usize> = b[order[i]].iter().map(|&j| inverse[j]).collect();
            want.sort_unstable();
            let mut got = a[i].clone();
            got.sort_unstable();
            ensure!(got == want, "element {} (previously {}) in layer {} has neighbors {:?}, not {:?}", i, order[i], l, got, want);
        }
    }
    ensure!(index.len() == len, "len() {} after reordering, {} before", index.len(), len);
    if len > 0 && order[0] == 0 {
        for (q, s, want) in searches {
            let mut dists: Vec<u32> = (0..len).map(|i| dist(old, i, q).to_bits()).collect();
            dists.sort_unstable();
            if dists.windows(2).any(|w| w[0] == w[1]) {
                cx.label("search with ties");
                continue;
            }
            let got: Vec<(usize, f32)> = index.search(q, s.max_search, s.k).into_iter().map(|(i, d)| (order[i], d)).collect();
            ensure!(same_results(&got, want), "search finds {:?} (renamed), {:?} before", got, want);
            cx.label("search compared");
        }
    } else if len > 0 {
        cx.label("other entry point");
    }
    Ok(())
}

fn run_reorder<K: Kit>(c: &ReorderCase, cx: &mut Cx) -> Res {
    let d = &c.index.data;
    cx.label(format!("{:?}", d.kind));
    let elements = K::make(d);
    // the index as bytes and as the generated storage
    let bytes = with_index::<K, _>(&c.index, |index| write_index(index))?;
    let aligned;
    let file;
    let mut index: Granne<'_, K> = match c.index.storage {
        Storage::Owned => {
            let b = Granne::from_bytes(&bytes, &elements);
            b.to_owned()
        }
        Storage::Bytes(off) => {
            aligned = Aligned::new(&bytes, off);
            Granne::from_bytes(aligned.get(), elements.clone())
        }
        Storage::File => {
            file = temp_file("index.bin", &bytes);
            unsafe { Granne::from_file(&file, elements.clone()) }.map_err(|e| e.to_string())?
        }
        Storage::Builder => {
            let cfg = granne::BuildConfig::new().num_neighbors(160);
            let b = GranneBuilder::from_bytes(cfg, &bytes, elements.clone());
            b.get_index().to_owned()
        }
    };
    let mut rng = Rng(c.seed);
    for (round, keys) in c.keys.iter().enumerate() {
        if round > 0 && c.reload {
            let bytes = write_index(&index)?;
            let mut eb = Vec::new();
            index.write_elements(&mut eb).map_err(|e| e.to_string())?;
            let loaded = K::load(d, &eb);
            let b = GranneBuilder::from_bytes(granne::BuildConfig::new().num_neighbors(160), &bytes, loaded);
            index = b.get_index().to_owned();
            cx.label("reloaded");
        }
        let before = view(&index);
        let old = index.get_elements().clone();
        let len = index.len();
        let searches: Vec<_> = c
            .searches
            .iter()
            .map(|s| {
                let q = make_query(d, &old, &s.q);
                let r = index.search(&q, s.max_search, s.k);
                (q, s, r)
            })
            .collect();
        let layer_sizes: Vec<usize> = before.iter().map(|l| l.len()).collect();
        let (order, model) = match keys {
            Keys::None => (maybe_in_pool(c.threads, || index.reorder(c.show)), None),
            Keys::Ints(range) => {
                let k: Vec<i32> = (0..len).map(|_| rng.below(range + 1) as i32 - *range as i32 / 2).collect();
                (maybe_in_pool(c.threads, || index.reorder_by_keys(&k, c.show)), Some(model_order(&k, &layer_sizes)))
            }
            Keys::Strings(range) => {
                let k: Vec<String> = (0..len).map(|_| format!("{:x}", rng.below(range + 1))).collect();
                (maybe_in_pool(c.threads, || index.reorder_by_keys(&k, c.show)), Some(model_order(&k, &layer_sizes)))
            }
            Keys::Pairs(range) => {
                let k: Vec<(u8, std::cmp::Reverse<u64>)> =
                    (0..len).map(|_| (rng.below(3) as u8, std::cmp::Reverse(rng.below(range + 1) as u64))).collect();
                (maybe_in_pool(c.threads, || index.reorder_by_keys(&k, c.show)), Some(model_order(&k, &layer_sizes)))
            }
        };
        cx.label(match keys {
            Keys::None => "reorder",
            _ => "by keys",
        });
        check_reordered(&before, &old, &index, &order, &searches, cx).map_err(|e| format!("{:?}: {}", keys, e))?;
        if let Some(m) = model {
            ensure!(order == m, "{:?}: the ids are not sorted by key within each layer (or equal keys not in original order)", keys);
        }
        let moved = order.iter().enumerate().filter(|(i, j)| *i != **j).count();
        if moved > 1 && before.iter().flatten().any(|l| !l.is_empty()) {
            cx.nontrivial = true;
        }
        cx.label_if(moved == 0, "nothing moved");
        cx.label_if(c.threads > 1, "several threads");
        cx.label_if(before.len() > 1, "several layers");
        cx.label_if(len < old.len(), "elements beyond the index");
        cx.label_if(len > 10_000, "more than 10000 elements");
        // the file of the reordered index
        let decoded = to_view(&fmt::decode_index(&write_index(&index)?)?);
        ensure!(sorted(&decoded) == sorted(&view(&index)), "the saved reordered index differs from the one in memory");
    }
    if c.index.storage == Storage::File {
        cx.label("mapped file");
    }
    Ok(())
}

pub fn p09() -> Property {
    Property {
        id: "P09",
        rule: "A case is an index (built, crafted, loaded or mapped; possibly with elements that are not indexed) that is \
               reordered once or twice, by Granne::reorder or by generated keys (integers, strings, pairs; with many equal \
               keys), compared against the renamed original. Non-trivial: at least two elements moved and the index has links.",
        level: "exploration",
        assumptions: vec!["searches are compared only when element 0 keeps its place and all distances to the query differ"],
        families: vec![
            family(
                "reorder",
                16_000,
                300_000,
                |s| gen_reorder(s, 100, 300),
                |c: &ReorderCase, cx| dispatch!(c.index.data.kind, run_reorder, c, cx),
            ),
            family(
                "large",
                48,
                800,
                |s| {
                    let n = match s.weighted(&[3, 1, 1]) {
                        0 => s.range(9_000, 32_000),
                        1 => s.pick(&[10_000, 10_001, 20_000, 20_001, 30_060, 65_536, 65_537, 70_000]),
                        _ => 60 * s.range(150, 500) + s.range(0, 2),
                    };
                    let kind = s.pick(&KINDS);
                    let mut data = gen_general(s, kind, n);
                    data.dim = s.range(2, 8);
                    let mut g = gen_graph(s, n, false);
                    g.degree = g.degree.min(12);
                    let mut c = ReorderCase {
                        index: IndexSpec { data, source: Source::Graph(g), storage: gen_storage(s) },
                        keys: vec![],
                        seed: s.seed(),
                        searches: s.list(1, 3, |s| gen_search(s, n)),
                        reload: s.bool(),
                        threads: gen_threads(s),
                        show: s.chance(1, 8),
                    };
                    c.keys = s.list(1, 2, |s| if s.bool() { Keys::None } else { Keys::Ints(s.size(0, 2 * n)) });
                    c
                },
                |c: &ReorderCase, cx| dispatch!(c.index.data.kind, run_reorder, c, cx),
            ),
        ],
    }
}
