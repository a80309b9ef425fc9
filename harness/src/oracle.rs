//! Predicates over indexes and search results, written against observable behaviour only.

use crate::data::*;
use crate::engine::{Res, Src};
use crate::ensure;
use granne::{Granne, Index};
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

pub type View = Vec<Vec<Vec<usize>>>;

/// All layers of an index, by its public accessors.
pub fn view<I: Index + ?Sized>(index: &I) -> View {
    (0..index.num_layers()).map(|l| (0..index.layer_len(l)).map(|i| index.get_neighbors(i, l)).collect()).collect()
}

pub fn sizes<I: Index>(index: &I) -> Vec<usize> {
    (0..index.num_layers()).map(|l| index.layer_len(l)).collect()
}

pub fn sorted(view: &View) -> View {
    let mut v = view.clone();
    for layer in v.iter_mut() {
        for l in layer.iter_mut() {
            l.sort_unstable();
        }
    }
    v
}

pub fn to_view(layers: &crate::fmt::Layers) -> View {
    layers.iter().map(|l| l.iter().map(|n| n.iter().map(|&x| x as usize).collect()).collect()).collect()
}

/// Well-formedness (P04) of a graph with the given neighbor limit.
pub fn check_view(view: &View, limit: usize, num_elements: usize, len: usize) -> Res {
    let mut prev = 0;
    for (l, layer) in view.iter().enumerate() {
        ensure!(layer.len() >= prev, "layer {} has {} elements, the one above {}", l, layer.len(), prev);
        prev = layer.len();
        for (i, ns) in layer.iter().enumerate() {
            ensure!(ns.len() <= limit, "element {} in layer {} has {} neighbors, limit {}", i, l, ns.len(), limit);
            let mut seen = HashSet::new();
            for &n in ns {
                ensure!(n < layer.len(), "element {} in layer {} (size {}) has neighbor {}", i, l, layer.len(), n);
                ensure!(n != i, "element {} in layer {} is its own neighbor", i, l);
                ensure!(seen.insert(n), "element {} in layer {} has neighbor {} twice", i, l, n);
            }
        }
    }
    ensure!(prev == len, "last layer has {} elements, len() is {}", prev, len);
    ensure!(len <= num_elements, "{} indexed of {} elements", len, num_elements);
    Ok(())
}

/// Every ordinary element (not zero, not close to another one) of a built layer has neighbors, if there is another one.
pub fn check_linked<K: Kit>(elements: &K, view: &View) -> Res {
    for (l, layer) in view.iter().enumerate() {
        if layer.len() < 2 || layer.iter().all(|list| !list.is_empty()) {
            continue;
        }
        let ordinary = |i: usize| {
            let e = elements.get(i);
            dist(elements, i, &e) < 1e-5 && (0..layer.len()).all(|j| j == i || dist(elements, j, &e) > 1e-4)
        };
        for i in (0..layer.len()).filter(|&i| layer[i].is_empty()) {
            if ordinary(i) && (0..layer.len()).rev().any(|j| j != i && ordinary(j)) {
                return Err(format!("element {} in layer {} of {} elements has no neighbors", i, l, layer.len()));
            }
        }
    }
    Ok(())
}

pub fn dist<K: Kit>(elements: &K, i: usize, q: &K::El) -> f32 {
    elements.dist_to_element(i, q).into_inner()
}

pub fn tolerance(reference: f64) -> f64 {
    2e-5 + reference * 1e-6
}

/// Validity and local optimality (P01) of a result, given the bottom layer and the number of requested results.
pub fn check_result<K: Kit>(
    elements: &K,
    bottom: Option<&Vec<Vec<usize>>>,
    q: &K::El,
    max_search: usize,
    full: &[(usize, f32)],
) -> Res {
    let n = bottom.map_or(0, |b| b.len());
    let cap = max_search.min(n);
    ensure!(full.len() <= cap, "{} results for max_search {} on {} elements", full.len(), max_search, n);
    if cap > 0 {
        ensure!(!full.is_empty(), "no result for max_search {} on {} elements", max_search, n);
    }
    let mut found = HashSet::new();
    for (r, &(id, d)) in full.iter().enumerate() {
        ensure!(id < n, "result {} has id {} of {} indexed elements", r, id, n);
        ensure!(found.insert(id), "id {} returned twice", id);
        let exact = dist(elements, id, q);
        ensure!(d == exact, "result {} (id {}) has distance {}, the elements say {}", r, id, d, exact);
        let reference = K::ref_dist(&elements.get(id), q);
        ensure!(
            (d as f64 - reference).abs() <= tolerance(reference),
            "result {} (id {}) has distance {}, reference {}",
            r,
            id,
            d,
            reference
        );
        ensure!(r == 0 || full[r - 1].1 <= d, "results not in ascending order at {}", r);
    }
    if let (Some(bottom), Some(&(_, worst))) = (bottom, full.last()) {
        for &(id, _) in full {
            for &nb in &bottom[id] {
                if !found.contains(&nb) {
                    ensure!(
                        full.len() == cap,
                        "only {} of at most {} results, but neighbor {} of result {} is left out",
                        full.len(),
                        cap,
                        nb,
                        id
                    );
                    let d = dist(elements, nb, q);
                    ensure!(
                        d >= worst,
                        "neighbor {} of result {} is left out at distance {}, worst result {}",
                        nb,
                        id,
                        d,
                        worst
                    );
                }
            }
        }
        let entry = dist(elements, 0, q);
        ensure!(full[0].1 <= entry, "best distance {} is worse than the one of the entry point {}", full[0].1, entry);
    }
    Ok(())
}

pub fn same_results(a: &[(usize, f32)], b: &[(usize, f32)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1.to_bits() == y.1.to_bits())
}

/// All indexed elements by distance.
pub fn brute<K: Kit>(elements: &K, n: usize, q: &K::El) -> Vec<(usize, f32)> {
    let mut v: Vec<(usize, f32)> = (0..n).map(|i| (i, dist(elements, i, q))).collect();
    v.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap().then(a.0.cmp(&b.0)));
    v
}

/// Exactness (P02): the k nearest, up to the choice between equal distances.
pub fn check_exact<K: Kit>(elements: &K, n: usize, q: &K::El, k: usize, res: &[(usize, f32)]) -> Res {
    let all = brute(elements, n, q);
    let k = k.min(n);
    ensure!(res.len() == k, "{} results, expected the {} nearest of {}", res.len(), k, n);
    let mut seen = HashSet::new();
    for (r, &(id, d)) in res.iter().enumerate() {
        ensure!(id < n && seen.insert(id), "bad or repeated id {} at {}", id, r);
        ensure!(d == all[r].1, "result {} has distance {}, the true one is {} (id {})", r, d, all[r].1, all[r].0);
        ensure!(d == dist(elements, id, q), "result {} (id {}) has the wrong distance {}", r, id, d);
        let reference = K::ref_dist(&elements.get(id), q);
        ensure!((d as f64 - reference).abs() <= tolerance(reference), "id {}: distance {}, reference {}", id, d, reference);
    }
    Ok(())
}

pub fn reachable_from(layer: &[Vec<usize>], start: usize) -> usize {
    let mut seen = vec![false; layer.len()];
    let mut stack = vec![start];
    seen[start] = true;
    let mut count = 1;
    while let Some(i) = stack.pop() {
        for &n in &layer[i] {
            if !seen[n] {
                seen[n] = true;
                count += 1;
                stack.push(n);
            }
        }
    }
    count
}

pub fn strongly_connected(layer: &[Vec<usize>]) -> bool {
    let n = layer.len();
    if n == 0 {
        return true;
    }
    let mut rev = vec![vec![]; n];
    for (i, ns) in layer.iter().enumerate() {
        for &j in ns {
            rev[j].push(i);
        }
    }
    reachable_from(layer, 0) == n && reachable_from(&rev, 0) == n
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Query {
    Fresh(usize),
    Element(usize),
    Zero,
}

pub fn gen_query(s: &mut Src, n: usize) -> Query {
    match s.weighted(&[5, 4, 1]) {
        1 if n > 0 => Query::Element(s.range(0, n - 1)),
        2 => Query::Zero,
        _ => Query::Fresh(s.range(0, 1000)),
    }
}

pub fn make_query<K: Kit>(d: &Data, elements: &K, q: &Query) -> K::El {
    match q {
        Query::Fresh(i) => K::query(d, *i),
        Query::Element(i) if *i < elements.len() => elements.get(*i),
        Query::Element(i) => K::query(d, *i),
        Query::Zero => K::zero(d),
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Search {
    pub q: Query,
    pub max_search: usize,
    pub k: usize,
}

pub fn gen_search(s: &mut Src, n: usize) -> Search {
    let max_search = match s.weighted(&[4, 2, 1, 1]) {
        0 => s.range(1, 40),
        1 => s.size(1, 2 * n + 2),
        2 => s.range(0, 1),
        _ => s.pick(&[1000, 100_000, usize::MAX >> 8]),
    };
    let k = match s.weighted(&[4, 2, 1]) {
        0 => s.range(0, 20),
        1 => max_search.min(1 << 40),
        _ => s.pick(&[1000, usize::MAX]),
    };
    Search { q: gen_query(s, n), max_search, k }
}

pub fn check_search<K: Kit>(index: &Granne<'_, K>, elements: &K, v: &View, d: &Data, s: &Search) -> Result<usize, String> {
    let q = make_query(d, elements, &s.q);
    let full = index.search(&q, s.max_search, usize::MAX);
    check_result(elements, v.last(), &q, s.max_search, &full)?;
    let res = index.search(&q, s.max_search, s.k);
    ensure!(
        same_results(&res, &full[..s.k.min(full.len())]),
        "asking for {} results gives {:?}, not a prefix of {:?}",
        s.k,
        &res[..res.len().min(10)],
        &full[..full.len().min(10)]
    );
    Ok(full.len())
}
