//! Reordering places similar elements close together (P23).

use crate::data::*;
use crate::engine::*;
use crate::oracle::*;
use crate::{dispatch, ensure};
use granne::embeddings::{compute_keys_for_reordering, SumEmbeddings};
use granne::{Builder, Granne, GranneBuilder, Index, Writeable};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize)]
struct Case {
    data: Data,
    cfg: Cfg,
    reload: bool,
    /// reorder again, starting from the reordered index
    twice: bool,
}

fn gen_case(s: &mut Src) -> Case {
    let kind = s.pick(&KINDS);
    let multiplier = s.range(4, 16);
    let n = if s.chance(1, 4) { s.range(200, 350) } else { s.range(300, 1500) };
    let (dim, shape) = match s.weighted(&[3, 2, 2]) {
        0 => (s.range(2, 4), Shape::Uniform),
        1 => (s.range(5, 30), Shape::Clustered(s.range(4, 20), s.pick(&[100, 200, 300]))),
        _ => (s.range(3, 5), Shape::Gauss),
    };
    let cfg = Cfg {
        multiplier: multiplier as f32,
        num_neighbors: s.range(10, 40),
        max_search: s.range(40, 120),
        reinsert: s.bool(),
        expected: None,
        show: false,
    };
    let data = Data { kind, n, dim, shape, seed: s.seed(), zeros: vec![], dups: vec![] };
    Case { data, cfg, reload: s.bool(), twice: s.chance(1, 4) }
}

fn mean_adjacent<K: Kit>(elements: &K, ids: &[usize]) -> f64 {
    let d: f64 = ids.windows(2).map(|w| elements.dist_to_element(w[0], &elements.get(w[1])).into_inner() as f64).map(|d| d.max(0.0).sqrt()).sum();
    d / (ids.len() - 1) as f64
}

fn mean_log_gap(v: &View) -> f64 {
    let (mut sum, mut count) = (0.0, 0usize);
    for (i, l) in v.last().unwrap().iter().enumerate() {
        for &j in l {
            sum += (1.0 + (j as f64 - i as f64).abs()).log2();
            count += 1;
        }
    }
    sum / count.max(1) as f64
}

fn run<K: Kit>(c: &Case, cx: &mut Cx) -> Res {
    let d = &c.data;
    let elements = K::make(d);
    let mut b = GranneBuilder::new(c.cfg.build_config(), elements.clone());
    b.build();
    let bytes = write_index(&b)?;
    let mut index = if c.reload { Granne::from_bytes(&bytes, elements.clone()) } else { b.get_index().to_owned() };
    let sizes = sizes(&index);
    let gap_before = mean_log_gap(&view(&index));
    let mut order = index.reorder(false);
    if c.twice {
        let again = index.reorder(false);
        order = again.iter().map(|&i| order[i]).collect();
    }
    let mut rng = Rng(d.seed ^ 0x5157);
    for l in 1..sizes.len() {
        let (m, n) = (sizes[l - 1], sizes[l]);
        if n - m < 150 {
            continue;
        }
        // every element of the layer next to the ones with the same closest element in the layer above; random otherwise
        let mut reference: Vec<(usize, u64, usize)> =
            (m..n).map(|i| (brute(&elements, m, &elements.get(i))[0].0, rng.u64(), i)).collect();
        reference.sort_unstable();
        let reference: Vec<usize> = reference.into_iter().map(|x| x.2).collect();
        let mut random = reference.clone();
        for i in (1..random.len()).rev() {
            random.swap(i, rng.below(i + 1));
        }
        let (a, r, x) = (mean_adjacent(&elements, &order[m..n]), mean_adjacent(&elements, &reference), mean_adjacent(&elements, &random));
        let gain = (x - a) / (x - r).max(1e-9);
        cx.metric("gain", gain);
        if r > 0.8 * x {
            cx.label("layer without structure to find");
            continue;
        }
        cx.nontrivial = true;
        ensure!(
            gain >= min_gain(d),
            "layer {}: after reordering neighboring ids are {:.4} apart, {:.4} in random order, {:.4} if grouped by the closest element above",
            l,
            a,
            x,
            r
        );
    }
    let gap = gap_before - mean_log_gap(&view(&index));
    cx.metric("mean_log_gap_reduction", gap);
    let min_gap = if d.shape == Shape::Uniform { 0.1 } else { -0.4 };
    ensure!(gap >= min_gap, "ids of linked elements are apart by {:.2} bits on average, by {:.2} before reordering", gap_before - gap, gap_before);
    cx.label(format!("{:?} {}", d.kind, name(d)));
    cx.label_if(c.twice, "reordered twice");
    Ok(())
}

fn name(d: &Data) -> &'static str {
    match d.shape {
        Shape::Uniform => "uniform",
        Shape::Gauss => "gauss",
        _ => "clusters",
    }
}

/// Share of the possible gain in locality, which is about 0 for an order that ignores similarity. The lowest of 12000
/// layers was 0.79, but the searches for the closest elements can get lost between clusters (0.57 in one of 30000).
fn min_gain(d: &Data) -> f64 {
    match d.shape {
        Shape::Clustered(..) => 0.2,
        _ => 0.5,
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize)]
struct KeysCase {
    dim: usize,
    table: usize,
    /// one of the embeddings is zero
    zero: bool,
    seed: u64,
    lists: Vec<Vec<usize>>,
    cfg: Cfg,
    mapped: bool,
    /// every embedding is this many times as long
    scale: i32,
}

fn gen_keys(s: &mut Src) -> KeysCase {
    let table = s.num(2, 400);
    let n = s.num(1, 120);
    let popular = s.range(1, 8.min(table));
    let lists = (0..n)
        .map(|_| {
            let max = if s.chance(1, 6) { 14 } else { 4 };
            s.list(0, max, |s| if s.bool() { s.range(0, popular - 1) } else { s.range(0, table - 1) })
        })
        .collect();
    let mut cfg = gen_cfg(s);
    cfg.num_neighbors = cfg.num_neighbors.min(30);
    cfg.max_search = cfg.max_search.min(40);
    KeysCase { dim: s.range(1, 9), table, zero: s.chance(1, 4), seed: s.seed(), lists, cfg, mapped: s.bool(), scale: s.range(0, 8) as i32 - 4 }
}

/// ids whose embeddings are longest first
fn by_norm(list: &[usize], rank: &[usize]) -> Vec<usize> {
    let mut l = list.to_vec();
    l.sort_by_key(|&i| std::cmp::Reverse(rank[i]));
    l
}

fn contiguous(order: &[usize], first: &[Option<usize>]) -> Res {
    let mut seen = std::collections::HashSet::new();
    let mut last = None;
    // elements without embeddings have no place of their own
    for (pos, t) in order.iter().enumerate().filter_map(|(pos, &i)| first[i].map(|t| (pos, t))) {
        if last != Some(t) {
            ensure!(seen.insert(t), "elements whose longest embedding is {} are not next to each other (again at {})", t, pos);
            last = Some(t);
        }
    }
    Ok(())
}

fn run_keys(c: &KeysCase, cx: &mut Cx) -> Res {
    let mut rng = Rng(c.seed);
    let mut rank: Vec<usize> = (0..c.table).collect();
    for i in (1..c.table).rev() {
        rank.swap(i, rng.below(i + 1));
    }
    let mut e: SumEmbeddings<'static> = SumEmbeddings::new();
    for &r in &rank {
        let v: Vec<f64> = (0..c.dim).map(|_| rng.unit() - 0.5 + 0.01).collect();
        let l = v.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-6);
        let want = if c.zero && r == 0 { 0.0 } else { (1.0 + 0.01 * r as f64) * f64::powi(2.0, c.scale) };
        e.push_embedding(&v.iter().map(|x| (x / l * want) as f32).collect::<Vec<f32>>());
    }
    for l in &c.lists {
        e.push(l);
    }
    if c.mapped {
        let (mut t, mut l) = (vec![], vec![]);
        e.write_embeddings(&mut t).map_err(|e| e.to_string())?;
        e.write(&mut l).map_err(|e| e.to_string())?;
        let (t, l) = (temp_file("p23-table.bin", &t), temp_file("p23-elements.bin", &l));
        e = unsafe { SumEmbeddings::from_files(&t, Some(&l)) }.map_err(|e| e.to_string())?;
    }
    let n = c.lists.len();
    let first: Vec<Option<usize>> = c.lists.iter().map(|l| by_norm(l, &rank).first().copied()).collect();
    let keys = compute_keys_for_reordering(&e);
    ensure!(keys.len() == n, "{} keys for {} elements", keys.len(), n);
    let mut shared = 0;
    for i in 0..n {
        for j in 0..i {
            if by_norm(&c.lists[i], &rank) == by_norm(&c.lists[j], &rank) {
                ensure!(keys[i] == keys[j], "different keys for elements {} and {} with the same embeddings {:?} and {:?}", j, i, c.lists[j], c.lists[i]);
            }
            if let (Some(a), Some(b)) = (first[i], first[j]) {
                ensure!(
                    a == b || keys[i] != keys[j],
                    "the same key for elements {} and {} with embeddings {:?} and {:?}, the longest are {} and {}",
                    j,
                    i,
                    c.lists[j],
                    c.lists[i],
                    b,
                    a
                );
                shared += (a == b) as usize;
            }
        }
    }
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by(|&a, &b| keys[a].cmp(&keys[b]));
    contiguous(&order, &first).map_err(|e| format!("sorted by key: {}", e))?;

    // keys of an index
    let mut b = GranneBuilder::new(c.cfg.build_config(), e);
    b.build();
    let mut index: Granne<'static, SumEmbeddings<'static>> = b.get_index().to_owned();
    let sizes = sizes(&index);
    let keys = compute_keys_for_reordering(index.get_elements());
    let order = index.reorder_by_keys(&keys, false);
    ensure!(order.len() == n, "{} elements in the order of {}", order.len(), n);
    let mut begin = 0;
    for &end in &sizes {
        contiguous(&order[begin..end], &first).map_err(|e| format!("ids {} to {} of the reordered index: {}", begin, end, e))?;
        begin = end;
    }
    for (i, &j) in order.iter().enumerate() {
        ensure!(index.get_elements().get_terms(i) == c.lists[j], "element {} of the reordered index is not element {}", i, j);
    }
    let distinct = first.iter().flatten().collect::<std::collections::HashSet<_>>().len();
    cx.nontrivial = shared > 0 && distinct > 1;
    cx.label_if(c.lists.iter().any(|l| l.is_empty()), "element without embeddings");
    cx.label_if(c.lists.iter().any(|l| l.len() > 8), "element with more than 8 embeddings");
    cx.label_if(sizes.len() > 1, "several layers");
    cx.label_if(c.mapped, "mapped files");
    Ok(())
}

pub fn p23() -> Property {
    Property {
        id: "P23",
        rule: "locality: an index with layers of at least 150 elements over random or clustered data in random order, reordered once \
               or twice and compared with random order and with elements grouped by their closest element of the layer above; \
               non-trivial if such a grouping brings elements at least 20 % closer. keys: sums of embeddings with different \
               norms; non-trivial if elements share their longest embedding and others have another one.",
        level: "exploration",
        assumptions: vec![
            "locality: single-threaded builds with 10 to 40 neighbors and a layer multiplier of 4 to 16, at most 1500 elements",
            "keys: no two embeddings have the same norm; nothing is said about elements without embeddings",
        ],
        families: vec![
            family("locality", 300, 4000, gen_case, |c: &Case, cx| dispatch!(c.data.kind, run, c, cx)),
            family("keys", 2000, 100_000, gen_keys, run_keys),
        ],
    }
}
