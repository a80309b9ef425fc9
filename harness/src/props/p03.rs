//! Recall and search cost (P03).

use crate::data::*;
use crate::engine::*;
use crate::oracle::*;
use crate::{dispatch, ensure};
use granne::{Builder, Granne, GranneBuilder, Index, RwGranneBuilder};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize)]
struct Case {
    data: Data,
    cfg: Cfg,
    max_search: usize,
    queries: usize,
    /// number of elements indexed in a first step, in percent
    steps: Vec<usize>,
    reload: bool,
    /// continue each step from a saved index
    #[serde(default)]
    resume: bool,
}

fn gen_sensible(s: &mut Src) -> Cfg {
    Cfg {
        multiplier: s.range(5, 25) as f32,
        num_neighbors: s.range(15, 50),
        max_search: s.range(50, 200),
        reinsert: !s.chance(1, 4),
        expected: None,
        show: s.chance(1, 8),
    }
}

fn gen_shape_generic(s: &mut Src) -> Shape {
    match s.weighted(&[3, 2, 2, 2]) {
        0 => Shape::Uniform,
        1 => Shape::Gauss,
        2 => Shape::Clustered(s.range(2, 12), 400),
        _ => Shape::Clustered(s.range(5, 40), s.pick(&[200, 700])),
    }
}

fn gen_case(s: &mut Src, lo: usize, hi: usize) -> Case {
    let kind = s.pick(&KINDS);
    let n = s.range(lo, hi);
    let data = Data { kind, n, dim: s.range(5, 40), shape: gen_shape_generic(s), seed: s.seed(), zeros: vec![], dups: vec![] };
    let cfg = gen_sensible(s);
    let steps = if s.chance(1, 3) { s.list(1, 3, |s| s.range(0, 100)) } else { vec![] };
    Case { data, cfg, max_search: s.range(50, 200), queries: 40, steps, reload: s.bool(), resume: s.bool() }
}

fn build<K: Kit>(c: &Case, elements: K) -> GranneBuilder<K> {
    let mut b = GranneBuilder::new(c.cfg.build_config(), elements);
    let mut steps = c.steps.clone();
    steps.sort();
    for s in steps {
        b.build_partial(c.data.n * s / 100);
        if c.resume {
            let bytes = write_index(&b).expect("write_index");
            b = GranneBuilder::from_bytes(c.cfg.build_config(), &bytes, b.get_elements().clone());
        }
    }
    b.build();
    b
}

fn recall<K: Kit>(index: &Granne<K>, truth: &[(K::El, Vec<(usize, f32)>)], max_search: usize, k: usize) -> f64 {
    let (mut hit, mut total) = (0usize, 0usize);
    for (q, all) in truth {
        let res = index.search(q, max_search, k);
        let worst = all[k - 1].1;
        hit += res.iter().filter(|r| r.1 <= worst).count().min(k);
        total += k;
    }
    hit as f64 / total as f64
}

fn run<K: Kit>(c: &Case, cx: &mut Cx) -> Res {
    let d = &c.data;
    let elements = K::make(d);
    let b = build(c, elements.clone());
    let bytes = write_index(&b)?;
    let index = if c.reload { Granne::from_bytes(&bytes, elements.clone()) } else { b.get_index().to_owned() };
    ensure!(index.len() == d.n, "{} of {} elements indexed", index.len(), d.n);
    let truth: Vec<_> = (0..c.queries)
        .map(|q| {
            let q = K::query(d, q);
            let mut all = brute(&elements, d.n, &q);
            all.truncate(20);
            (q, all)
        })
        .collect();
    let r10 = recall(&index, &truth, c.max_search, 10);
    let r1 = recall(&index, &truth, c.max_search, 1);
    let more = recall(&index, &truth, c.max_search * 2, 10);
    let few = recall(&index, &truth, 10, 10);
    let mut selfs = 0;
    let mut total = 0;
    for i in (0..d.n).step_by(1 + d.n / 300) {
        let q = elements.get(i);
        let own = dist(&elements, i, &q);
        total += 1;
        let res = index.search(&q, c.max_search, 1);
        if res[0].1 <= own {
            selfs += 1;
        }
    }
    let fs = selfs as f64 / total as f64;
    cx.metric("recall_10", r10);
    cx.metric("recall_1", r1);
    cx.metric("recall_10_max_search_10", few);
    cx.metric("recall_10_gain_of_twice_the_max_search", more - r10);
    cx.metric("found_themselves", fs);
    cx.label(format!("{:?}", d.kind));
    cx.label_if(!c.steps.is_empty(), "built in steps");
    cx.label_if(!c.steps.is_empty() && c.resume, "resumed from a saved index");
    ensure!(r10 >= 0.85, "recall of the 10 nearest is {:.3} with max_search {}", r10, c.max_search);
    ensure!(r1 >= 0.85, "recall of the nearest is {:.3} with max_search {}", r1, c.max_search);
    ensure!(fs >= 0.97, "only {:.3} of the elements find themselves", fs);
    ensure!(more >= r10 - 0.01, "recall {:.3} with max_search {}, {:.3} with twice as much", r10, c.max_search, more);
    ensure!(few <= r10 + 0.02, "recall {:.3} with max_search 10, {:.3} with max_search {}", few, r10, c.max_search);
    cx.nontrivial = true;
    Ok(())
}

fn run_recall(c: &Case, cx: &mut Cx) -> Res {
    dispatch!(c.data.kind, run, c, cx)
}

#[derive(Serialize, Deserialize)]
struct CostCase {
    data: Data,
    cfg: Cfg,
    searches: Vec<(Query, usize)>,
    reload: bool,
}

fn gen_cost(s: &mut Src, lo: usize, hi: usize) -> CostCase {
    let n = s.range(lo, hi);
    let data = Data { kind: Kind::L2, n, dim: s.range(2, 30), shape: gen_shape_generic(s), seed: s.seed(), zeros: vec![], dups: vec![] };
    let cfg = Cfg {
        multiplier: s.range(2, 25) as f32,
        num_neighbors: s.range(3, 40),
        max_search: s.range(5, 60),
        reinsert: s.bool(),
        expected: None,
        show: false,
    };
    CostCase { data, cfg, searches: s.list(5, 20, |s| (gen_query(s, n), s.size(1, 200))), reload: s.bool() }
}

fn run_cost(c: &CostCase, cx: &mut Cx) -> Res {
    let d = &c.data;
    let elements = L2Points::make(d);
    let mut b = GranneBuilder::new(c.cfg.build_config(), elements.clone());
    b.build();
    let bytes = write_index(&b)?;
    let index = if c.reload { Granne::from_bytes(&bytes, elements.clone()) } else { b.get_index().to_owned() };
    let sizes = sizes(&index);
    let mut large = 0;
    for (q, ms) in &c.searches {
        let q = make_query(d, &elements, q);
        EVALS.with(|e| e.set(0));
        PER_ELEMENT.with(|p| *p.borrow_mut() = Some(vec![0; d.n]));
        index.search(&q, *ms, 10);
        let evals = EVALS.with(|e| e.get());
        let per = PER_ELEMENT.with(|p| p.borrow_mut().take().unwrap());
        for (i, &k) in per.iter().enumerate() {
            let layers = sizes.iter().filter(|&&n| n > i).count() as u32;
                ensure!(k <= layers, "search evaluates element {} {} times, it is in {} layers", i, k, layers);
        }
        let nn = c.cfg.num_neighbors as f64;
        let est = (*ms as f64 + 10.0 * sizes.len() as f64) * nn;
        cx.metric("evaluations_by_estimate", evals as f64 / est);
        cx.metric("evaluations_by_size", evals as f64 / d.n as f64);
        ensure!(
            evals as f64 <= 1.6 * est,
            "{} evaluations with max_search {}, {} neighbors and {} layers, expected less than {}",
            evals,
            ms,
            nn,
            sizes.len(),
            1.6 * est
        );
        if est * 4.0 < d.n as f64 {
            large += 1;
        }
    }
    cx.label_if(large > 0, "index at least four times larger than the bound");
    cx.nontrivial = d.n > 500;
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// the way to the neighborhood of the query, where it is long: data along a line or in a plane

#[derive(Serialize, Deserialize)]
struct WayCase {
    n: usize,
    dim: usize,
    seed: u64,
    multiplier: usize,
    num_neighbors: usize,
    max_search: usize,
    concurrent: bool,
    reload: bool,
}

fn gen_way(s: &mut Src) -> WayCase {
    let concurrent = s.bool();
    WayCase {
        n: s.range(3000, 6000),
        dim: s.range(1, 2),
        seed: s.seed(),
        multiplier: s.range(4, 15),
        num_neighbors: s.range(6, 16),
        max_search: s.range(1, 8),
        concurrent,
        reload: s.bool(),
    }
}

fn evaluations<R>(f: impl FnOnce() -> R) -> (R, f64) {
    EVALS.with(|e| e.set(0));
    let r = f();
    (r, EVALS.with(|e| e.get()) as f64)
}

fn run_way(c: &WayCase, cx: &mut Cx) -> Res {
    let d = Data { kind: Kind::L2, n: c.n, dim: c.dim, shape: Shape::Uniform, seed: c.seed, zeros: vec![], dups: vec![] };
    let cfg = Cfg { multiplier: c.multiplier as f32, num_neighbors: c.num_neighbors, max_search: 30, reinsert: false, expected: None, show: false };
    const QUERIES: usize = 40;
    let mut inserts = 0.0;
    let (mean, layers) = if c.concurrent {
        let rw = RwGranneBuilder::new(GranneBuilder::new(cfg.build_config(), L2Points::empty(&d)), c.n, 1);
        for i in 0..c.n {
            let (id, e) = evaluations(|| rw.insert(L2Points::internal(&d, i)));
            ensure!(id == Some(i), "element {} was inserted as {:?}", i, id);
            if i >= c.n / 2 {
                inserts += e / (c.n - c.n / 2) as f64;
            }
        }
        let sum: f64 = (0..QUERIES).map(|q| evaluations(|| rw.search(&L2Points::query(&d, q), c.max_search, 1)).1).sum();
        let mut layers = 1;
        while (c.multiplier as f64).powi(layers as i32) < c.n as f64 {
            layers += 1;
        }
        (sum / QUERIES as f64, layers)
    } else {
        let elements = L2Points::make(&d);
        let mut b = GranneBuilder::new(cfg.build_config(), elements.clone());
        b.build();
        let bytes = write_index(&b)?;
        let index = if c.reload { Granne::from_bytes(&bytes, elements) } else { b.get_index().to_owned() };
        let sum: f64 = (0..QUERIES).map(|q| evaluations(|| index.search(&L2Points::query(&d, q), c.max_search, 1)).1).sum();
        (sum / QUERIES as f64, index.num_layers())
    };
    let steps = (c.multiplier as f64).powf(1.0 / c.dim as f64) * layers as f64;
    let what = format!("{} {}d", if c.concurrent { "concurrent" } else { "index" }, c.dim);
    let work = (c.max_search as f64 + steps) * c.num_neighbors as f64;
    cx.metric(&format!("{} search", what), mean / work);
    let most = if c.dim == 1 { 0.6 } else { 1.2 };
    ensure!(
        mean < most * work,
        "a search of {} elements on {} for one result with max_search {} computes {:.0} distances on average: more than {:.0} ({} layers, layer multiplier {}, {} neighbors)",
        c.n,
        if c.dim == 1 { "a line" } else { "a square" },
        c.max_search,
        mean,
        most * work,
        layers,
        c.multiplier,
        c.num_neighbors
    );
    if c.concurrent {
        cx.metric(&format!("{} insert", what), inserts);
        ensure!(
            inserts < 350.0,
            "inserting one of the last elements of {} into a concurrent builder with max_search 30 and {} neighbors computes {:.0} distances on average",
            c.n,
            c.num_neighbors,
            inserts
        );
    }
    cx.label(what);
    cx.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// fixed settings with calibrated floors

/// (neighbors, build max_search, reinsert, search max_search)
const SETTINGS: [(usize, usize, bool, usize); 7] =
    [(20, 100, true, 50), (10, 40, true, 20), (10, 40, false, 20), (5, 20, true, 20), (30, 200, true, 20), (20, 100, false, 10), (12, 60, true, 10)];

/// by setting, kind and shape: the lowest value measured over about 240 data sets, less half its distance from the mean and a margin
#[rustfmt::skip]
const RECALL_FLOOR: [[[f64; 3]; 4]; 7] = [
    [[0.971, 0.985, 0.985], [0.966, 0.985, 0.985], [0.971, 0.985, 0.985], [0.971, 0.983, 0.985]],
    [[0.770, 0.917, 0.950], [0.766, 0.918, 0.953], [0.783, 0.966, 0.968], [0.781, 0.872, 0.953]],
    [[0.756, 0.793, 0.948], [0.781, 0.864, 0.928], [0.782, 0.962, 0.965], [0.729, 0.791, 0.906]],
    [[0.401, 0.487, 0.736], [0.381, 0.561, 0.740], [0.422, 0.796, 0.811], [0.401, 0.421, 0.551]],
    [[0.944, 0.968, 0.985], [0.936, 0.968, 0.985], [0.928, 0.982, 0.983], [0.934, 0.971, 0.985]],
    [[0.748, 0.878, 0.952], [0.756, 0.887, 0.955], [0.739, 0.937, 0.963], [0.746, 0.888, 0.957]],
    [[0.680, 0.828, 0.935], [0.664, 0.852, 0.923], [0.680, 0.939, 0.963], [0.673, 0.825, 0.943]],
];

/// by setting, kind and shape: the lowest value measured over about 240 data sets, less half its distance from the mean and a margin
#[rustfmt::skip]
const SELF_FLOOR: [[[f64; 3]; 4]; 7] = [
    [[0.985, 0.985, 0.985], [0.985, 0.985, 0.985], [0.985, 0.985, 0.985], [0.985, 0.985, 0.985]],
    [[0.985, 0.957, 0.970], [0.985, 0.957, 0.970], [0.985, 0.982, 0.982], [0.952, 0.868, 0.966]],
    [[0.985, 0.901, 0.941], [0.982, 0.905, 0.951], [0.985, 0.970, 0.985], [0.945, 0.783, 0.941]],
    [[0.827, 0.627, 0.784], [0.851, 0.598, 0.829], [0.847, 0.863, 0.909], [0.667, 0.449, 0.696]],
    [[0.985, 0.985, 0.985], [0.985, 0.985, 0.985], [0.985, 0.985, 0.985], [0.985, 0.985, 0.985]],
    [[0.985, 0.982, 0.985], [0.985, 0.982, 0.982], [0.985, 0.985, 0.985], [0.985, 0.965, 0.982]],
    [[0.985, 0.942, 0.970], [0.985, 0.907, 0.965], [0.982, 0.985, 0.985], [0.957, 0.911, 0.946]],
];

const SHAPES: usize = 3;

fn fixed_shape(i: usize) -> Shape {
    match i {
        0 => Shape::Uniform,
        1 => Shape::Clustered(8, 400),
        _ => Shape::Clustered(40, 200),
    }
}

#[derive(Serialize, Deserialize)]
struct FixedCase {
    kind: Kind,
    setting: usize,
    shape: usize,
    seed: u64,
}

fn run_fixed(c: &FixedCase, cx: &mut Cx) -> Res {
    let (nn, bms, reinsert, ms) = SETTINGS[c.setting];
    let data = Data { kind: c.kind, n: 1200, dim: 20, shape: fixed_shape(c.shape), seed: c.seed, zeros: vec![], dups: vec![] };
    let cfg = Cfg { multiplier: 12.0, num_neighbors: nn, max_search: bms, reinsert, expected: None, show: false };
    let case = Case { data, cfg, max_search: ms, queries: 60, steps: vec![], reload: true, resume: false };
    let (r, own) = dispatch!(c.kind, measure_fixed, &case)?;
    let k = KINDS.iter().position(|k| *k == c.kind).unwrap();
    if std::env::var("GV_CALIBRATE").is_ok() {
        cx.metric(&format!("cal {} {} {} recall", c.setting, k, c.shape), r);
        cx.metric(&format!("cal {} {} {} own", c.setting, k, c.shape), own);
        return Ok(());
    }
    let (fr, fs) = (RECALL_FLOOR[c.setting][k][c.shape], SELF_FLOOR[c.setting][k][c.shape]);
    cx.metric("recall above floor", r - fr);
    cx.metric("self above floor", own - fs);
    cx.label(format!("setting {} {:?} shape {}", c.setting, c.kind, c.shape));
    ensure!(r >= fr, "recall of the 10 nearest is {:.3}, expected at least {:.3}", r, fr);
    ensure!(own >= fs, "{:.3} of the elements find themselves, expected at least {:.3}", own, fs);
    cx.nontrivial = true;
    Ok(())
}

fn measure_fixed<K: Kit>(c: &Case) -> Result<(f64, f64), String> {
    let d = &c.data;
    let elements = K::make(d);
    let b = build(c, elements.clone());
    let bytes = write_index(&b)?;
    let index = Granne::from_bytes(&bytes, elements.clone());
    let truth: Vec<_> = (0..c.queries)
        .map(|q| {
            let q = K::query(d, q);
            let mut all = brute(&elements, d.n, &q);
            all.truncate(20);
            (q, all)
        })
        .collect();
    let r = recall(&index, &truth, c.max_search, 10);
    let (mut own, mut total) = (0, 0);
    for i in (0..d.n).step_by(4) {
        let q = elements.get(i);
        let e = dist(&elements, i, &q);
        total += 1;
        if index.search(&q, c.max_search, 1)[0].1 <= e {
            own += 1;
        }
    }
    Ok((r, own as f64 / total as f64))
}

// ------------------------------------------------------------------------------------------------
// the same settings with the concurrent builder

#[derive(Serialize, Deserialize)]
struct RwCase {
    kind: Kind,
    setting: usize,
    shape: usize,
    seed: u64,
    /// percentage of the elements that are in the builder from the beginning
    start: usize,
    batch: usize,
}

fn gen_rw(s: &mut Src) -> RwCase {
    // without reinsertion and with few neighbors, what is found in clusters depends too much on the data
    let setting = s.pick(&[0, 1, 4, 5, 6, 0, 4, 5]);
    RwCase {
        kind: s.pick(&KINDS),
        setting,
        shape: if SETTINGS[setting].0 < 15 { 0 } else { s.range(0, SHAPES - 1) },
        seed: s.seed(),
        start: s.pick(&[0, 0, 5, 50]),
        batch: s.pick(&[1, 1, 7, 500]),
    }
}

fn run_rw(c: &RwCase, cx: &mut Cx) -> Res {
    let (searched, saved, own) = dispatch!(c.kind, measure_rw, c)?;
    let k = KINDS.iter().position(|k| *k == c.kind).unwrap();
    if std::env::var("GV_CALIBRATE").is_ok() {
        cx.metric(&format!("cal {} {} {} recall", c.setting, k, c.shape), searched.min(saved));
        cx.metric(&format!("cal {} {} {} own", c.setting, k, c.shape), own);
        return Ok(());
    }
    let (fr, fs) = (RW_RECALL_FLOOR[c.setting][k][c.shape], RW_SELF_FLOOR[c.setting][k][c.shape]);
    cx.metric("recall above floor", searched.min(saved) - fr);
    cx.metric("self above floor", own - fs);
    cx.label(format!("setting {} {:?} shape {}", c.setting, c.kind, c.shape));
    ensure!(searched >= fr, "recall of the 10 nearest in a concurrent builder is {:.3}, expected at least {:.3}", searched, fr);
    ensure!(saved >= fr, "recall of the 10 nearest in an index saved by a concurrent builder is {:.3}, expected at least {:.3}", saved, fr);
    ensure!(own >= fs, "{:.3} of the elements in a concurrent builder find themselves, expected at least {:.3}", own, fs);
    cx.nontrivial = true;
    Ok(())
}

fn measure_rw<K: Kit>(c: &RwCase) -> Result<(f64, f64, f64), String> {
    let (nn, bms, reinsert, ms) = SETTINGS[c.setting];
    let d = Data { kind: c.kind, n: 1200, dim: 20, shape: fixed_shape(c.shape), seed: c.seed, zeros: vec![], dups: vec![] };
    let cfg = Cfg { multiplier: 12.0, num_neighbors: nn, max_search: bms, reinsert, expected: None, show: false };
    let start = d.n * c.start / 100;
    let rw = RwGranneBuilder::new(GranneBuilder::new(cfg.build_config(), K::make_n(&d, start)), d.n, 1);
    let mut i = start;
    while i < d.n {
        let batch = c.batch.min(d.n - i);
        let ids = rw.insert_batch((i..i + batch).map(|j| K::internal(&d, j)).collect());
        ensure!(ids.len() == batch, "{} of {} inserted", ids.len(), batch);
        i += batch;
    }
    let mut bytes = std::io::Cursor::new(vec![]);
    rw.write(&mut bytes, std::io::sink()).map_err(|e| e.to_string())?;
    let bytes = bytes.into_inner();
    let elements = K::make(&d);
    let index = Granne::from_bytes(&bytes, elements.clone());
    let truth: Vec<_> = (0..60)
        .map(|q| {
            let q = K::query(&d, q);
            let mut all = brute(&elements, d.n, &q);
            all.truncate(20);
            (q, all)
        })
        .collect();
    let saved = recall(&index, &truth, ms, 10);
    let hits: usize = truth.iter().map(|(q, all)| rw.search(q, ms, 10).iter().filter(|r| r.1 <= all[9].1).count().min(10)).sum();
    let (mut own, mut total) = (0, 0);
    for i in (0..d.n).step_by(4) {
        let q = elements.get(i);
        let e = dist(&elements, i, &q);
        total += 1;
        if rw.search(&q, ms, 1)[0].1 <= e {
            own += 1;
        }
    }
    Ok((hits as f64 / (10 * truth.len()) as f64, saved, own as f64 / total as f64))
}

/// by setting, kind and shape: the lowest value measured over about 100 data sets, less a margin
#[rustfmt::skip]
const RW_RECALL_FLOOR: [[[f64; 3]; 4]; 7] = [
    [[0.927, 0.983, 0.985], [0.974, 0.983, 0.985], [0.927, 0.985, 0.983], [0.974, 0.983, 0.983]],
    [[0.734, 0.864, 0.915], [0.758, 0.836, 0.978], [0.753, 0.920, 0.974], [0.724, 0.793, 0.890]],
    [[0.748, 0.848, 0.915], [0.720, 0.876, 0.910], [0.742, 0.923, 0.974], [0.710, 0.833, 0.894]],
    [[0.000, 0.000, 0.000], [0.000, 0.000, 0.000], [0.000, 0.000, 0.000], [0.000, 0.000, 0.000]],
    [[0.879, 0.923, 0.983], [0.885, 0.919, 0.983], [0.883, 0.976, 0.983], [0.881, 0.921, 0.983]],
    [[0.737, 0.860, 0.918], [0.728, 0.864, 0.911], [0.707, 0.908, 0.927], [0.721, 0.846, 0.915]],
    [[0.641, 0.812, 0.906], [0.641, 0.812, 0.908], [0.622, 0.883, 0.915], [0.608, 0.764, 0.896]],
];

/// by setting, kind and shape: the lowest value measured over about 100 data sets, less a margin
#[rustfmt::skip]
const RW_SELF_FLOOR: [[[f64; 3]; 4]; 7] = [
    [[0.985, 0.980, 0.985], [0.985, 0.980, 0.985], [0.985, 0.985, 0.985], [0.985, 0.980, 0.985]],
    [[0.980, 0.887, 0.976], [0.980, 0.878, 0.922], [0.985, 0.980, 0.985], [0.911, 0.782, 0.899]],
    [[0.985, 0.887, 0.912], [0.980, 0.897, 0.926], [0.985, 0.976, 0.980], [0.911, 0.819, 0.908]],
    [[0.000, 0.000, 0.000], [0.000, 0.000, 0.000], [0.000, 0.000, 0.000], [0.000, 0.000, 0.000]],
    [[0.985, 0.985, 0.985], [0.985, 0.985, 0.985], [0.985, 0.985, 0.985], [0.985, 0.985, 0.985]],
    [[0.985, 0.980, 0.980], [0.985, 0.980, 0.980], [0.985, 0.985, 0.980], [0.976, 0.976, 0.980]],
    [[0.980, 0.918, 0.980], [0.985, 0.877, 0.980], [0.985, 0.926, 0.980], [0.919, 0.887, 0.926]],
];

pub fn p03() -> Property {
    Property {
        id: "P03",
        rule: "A case is a generic data set with sensible build settings and 40 to 60 fresh queries plus element queries, against \
               brute force (recall families, at least 300 elements), or an index with counted distance evaluations and 5 to 20 \
               searches (cost, non-trivial above 500 elements).",
        level: "exploration",
        assumptions: vec![
            "single-threaded builds, so that every case is reproducible",
            "recall floors: 0.85 for max_search of at least 50, and per fixed setting the lowest value of about 240 calibration runs \
             less a margin; cost bound: 1.6 * neighbors * (max_search + 10 * layers), highest measured 0.9 of it without the factor",
        ],
        families: vec![
            family("recall", 150, 6_000, |s| gen_case(s, 300, 3000), run_recall),
            family(
                "fixed",
                600,
                20_000,
                |s| FixedCase { kind: s.pick(&KINDS), setting: s.range(0, SETTINGS.len() - 1), shape: s.range(0, SHAPES - 1), seed: s.seed() },
                run_fixed,
            ),
            family("concurrent builder", 240, 4_000, gen_rw, run_rw),
            family("cost", 400, 10_000, |s| gen_cost(s, 100, 5000), run_cost),
            family("way", 200, 4_000, gen_way, run_way),
            family("cost, large", 8, 400, |s| gen_cost(s, 20_000, 40_000), run_cost),
        ],
    }
}
