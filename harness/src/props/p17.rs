//! Building with several threads (P17).

use super::p16::{set_jitter, Jitter};
use crate::data::*;
use crate::engine::*;
use crate::oracle::*;
use crate::{dispatch, ensure};
use granne::{Builder, Granne, GranneBuilder, Index, Permutable};
use serde::{Deserialize, Serialize};

impl<K: Kit> Permutable for Jitter<K> {
    fn permute(&mut self, permutation: &[usize]) {
        self.0.permute(permutation)
    }
}

/// In the default pool (of one thread) or in one of several threads.
pub fn maybe_in_pool<R: Send>(threads: usize, f: impl FnOnce() -> R + Send) -> R {
    if threads <= 1 {
        f()
    } else {
        in_pool(threads, f)
    }
}

pub fn gen_threads(s: &mut Src) -> usize {
    if s.chance(1, 4) {
        s.range(2, 5)
    } else {
        1
    }
}

pub fn in_pool<R: Send>(threads: usize, f: impl FnOnce() -> R + Send) -> R {
    rayon::ThreadPoolBuilder::new().num_threads(threads).build().expect("HARNESS: pool").install(f)
}

#[derive(Serialize, Deserialize)]
struct Case {
    data: Data,
    cfg: Cfg,
    threads: usize,
    jitter: usize,
    /// (elements available, elements to index, save and load first)
    steps: Vec<(usize, usize, bool)>,
    complete: bool,
}

fn gen_steps(s: &mut Src, n: usize, max: usize) -> Vec<(usize, usize, bool)> {
    let k = if s.bool() { 0 } else { s.range(1, max) };
    let mut targets: Vec<usize> = (0..k).map(|_| s.range(0, n)).collect();
    targets.sort_unstable();
    targets.push(n);
    let mut available = 0;
    targets
        .into_iter()
        .map(|t| {
            available = s.range(t, n).max(available);
            (available, t, s.chance(1, 3))
        })
        .collect()
}

/// Settings with room for all elements everywhere and reinsertion.
fn gen_complete(s: &mut Src) -> Case {
    let kind = s.pick(&KINDS);
    let n = s.num(2, 60);
    let data = gen_general(s, kind, n);
    let mut cfg = gen_cfg(s);
    cfg.num_neighbors = 2 * n + s.range(0, 10);
    cfg.max_search = 2 * n + s.range(0, 20);
    cfg.reinsert = true;
    let steps = gen_steps(s, n, 2);
    Case { data, cfg, threads: s.range(2, 8), jitter: s.weighted(&[2, 2, 2, 2]), steps, complete: true }
}

fn gen_any(s: &mut Src) -> Case {
    let kind = s.pick(&KINDS);
    let n = s.num(2, 900);
    let general = s.bool();
    let data = if general { gen_general(s, kind, n) } else { gen_data_n(s, kind, n) };
    let mut cfg = gen_cfg(s);
    if s.chance(1, 3) {
        cfg.expected = Some(s.range(0, 2 * n));
    }
    let steps = gen_steps(s, n, 3);
    Case { data, cfg, threads: s.range(2, 8), jitter: s.weighted(&[4, 2, 1]), steps, complete: false }
}

fn expected_sizes(c: &Case, steps: usize) -> Vec<usize> {
    // the sizes do not depend on the elements
    let mut b = GranneBuilder::new(
        Cfg { max_search: 1, num_neighbors: 1, reinsert: false, ..c.cfg.clone() }.build_config(),
        L2Points::default(),
    );
    for (available, target, _) in &c.steps[..steps] {
        while b.num_elements() < *available {
            b.push(vec![b.num_elements() as i64]);
        }
        b.build_partial(*target);
    }
    sizes(&b)
}

fn run<K: Kit>(c: &Case, cx: &mut Cx) -> Res {
    let d = &c.data;
    let r = run_inner::<K>(c, d, cx);
    set_jitter(0);
    r
}

fn run_inner<K: Kit>(c: &Case, d: &Data, cx: &mut Cx) -> Res {
    cx.label(format!("{:?}", d.kind));
    let pool = rayon::ThreadPoolBuilder::new().num_threads(c.threads).build().expect("HARNESS: pool");
    let mut b = GranneBuilder::new(c.cfg.build_config(), Jitter(K::empty(d)));
    let mut pushed = 0;
    for (step, (available, target, reload)) in c.steps.iter().enumerate() {
        if *reload {
            let bytes = write_index(&b)?;
            let before = sorted(&view(&b));
            b = pool.install(|| GranneBuilder::from_bytes(c.cfg.build_config(), &bytes, b.get_elements().clone()));
            ensure!(sorted(&view(&b)) == before, "step {}: the index differs after loading", step);
        }
        while pushed < *available {
            b.push(K::internal(d, pushed));
            pushed += 1;
        }
        set_jitter(c.jitter);
        pool.install(|| b.build_partial(*target));
        set_jitter(0);
        let v = view(&b);
        check_view(&v, c.cfg.num_neighbors, pushed, *target).map_err(|e| format!("step {}: {}", step, e))?;
        let want = expected_sizes(c, step + 1);
        ensure!(sizes(&b) == want, "step {}: layers {:?} instead of {:?}", step, sizes(&b), want);
    }
    let e = &b.get_elements().0;
    let v = view(&b);
    if c.complete {
        for (l, layer) in v.iter().enumerate() {
            for (i, ns) in layer.iter().enumerate() {
                if ns.len() != layer.len() - 1 {
                    let missing: Vec<usize> = (0..layer.len()).filter(|j| *j != i && !ns.contains(j)).collect();
                    return Err(format!("element {} in layer {} of {} elements is not linked to {:?}", i, l, layer.len(), missing));
                }
            }
        }
        cx.label("complete");
    }
    // elements at distance 0 of others or without a direction may legitimately be left out
    let generic = d.zeros.is_empty() && d.dups.is_empty() && !matches!(d.shape, Shape::Grid(_));
    if generic && !has_twins(e) {
        cx.label("generic");
        for (l, layer) in v.iter().enumerate() {
            for (i, ns) in layer.iter().enumerate() {
                ensure!(layer.len() < 2 || !ns.is_empty(), "element {} in layer {} of {} elements has no neighbor", i, l, layer.len());
            }
        }
        let index = b.get_index();
        let n = d.n;
        if c.cfg.num_neighbors >= 16 && c.cfg.max_search >= 60 && n >= 2 {
            let missed = (0..n)
                .filter(|&i| {
                    let q = e.get(i);
                    index.search(&q, c.cfg.max_search, 1).first().map_or(true, |r| r.1 > dist(e, i, &q) + 1e-6)
                })
                .count();
            cx.metric("not_found_fraction", missed as f64 / n as f64);
            cx.label("findable");
            ensure!(missed <= 2 + n / 20, "{} of {} elements are not found by their own vector", missed, n);
        }
    }
    cx.label(format!("{} threads", c.threads));
    cx.label_if(c.steps.len() > 1, "several steps");
    cx.label_if(v.len() > 2, "several layers");
    cx.nontrivial = d.n > 2;
    Ok(())
}

fn has_twins<K: Kit>(e: &K) -> bool {
    (0..e.len()).any(|i| {
        let q = e.get(i);
        (0..e.len()).any(|j| j != i && dist(e, j, &q) < 1e-4)
    })
}

fn run_any(c: &Case, cx: &mut Cx) -> Res {
    dispatch!(c.data.kind, run, c, cx)
}

// ------------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize)]
struct OneCase {
    data: Data,
    cfg: Cfg,
    steps: Vec<(usize, usize, bool)>,
    jitter: usize,
}

fn gen_one(s: &mut Src) -> OneCase {
    let data = gen_data(s, 300);
    let steps = gen_steps(s, data.n, 3);
    OneCase { cfg: gen_cfg(s), steps, jitter: s.range(0, 1), data }
}

/// One thread: the same index every time.
fn run_one<K: Kit>(c: &OneCase, cx: &mut Cx) -> Res {
    let d = &c.data;
    let make = || -> Result<(View, Vec<u8>), String> {
        let mut b = GranneBuilder::new(c.cfg.build_config(), Jitter(K::empty(d)));
        let mut pushed = 0;
        for (available, target, _) in &c.steps {
            while pushed < *available {
                b.push(K::internal(d, pushed));
                pushed += 1;
            }
            b.build_partial(*target);
        }
        Ok((view(&b), write_index(&b)?))
    };
    let ambient = make()?;
    set_jitter(c.jitter);
    let pooled = in_pool(1, make);
    set_jitter(0);
    let pooled = pooled?;
    let again = std::thread::scope(|s| s.spawn(|| in_pool(1, make)).join()).map_err(|_| "panic in a thread".to_string())??;
    ensure!(ambient.0 == pooled.0 && ambient.0 == again.0, "two builds with one thread give different graphs");
    ensure!(ambient.1 == pooled.1 && ambient.1 == again.1, "two builds with one thread give different files");
    cx.label(format!("{:?}", d.kind));
    cx.label_if(c.steps.len() > 1, "several steps");
    cx.nontrivial = d.n > 2;
    Ok(())
}

fn run_one_any(c: &OneCase, cx: &mut Cx) -> Res {
    dispatch!(c.data.kind, run_one, c, cx)
}

// ------------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize)]
struct OpCase {
    spec: IndexSpec,
    threads: usize,
    keys: u64,
    distinct: usize,
    jitter: usize,
    /// more than one chunk of the parallel loops
    large: bool,
}

fn gen_op(s: &mut Src, large: bool) -> OpCase {
    let spec = if large {
        let n = s.range(10_001, 24_000);
        let kind = s.pick(&KINDS);
        let mut data = gen_data_n(s, kind, n);
        data.dim = s.range(1, 4);
        let mut g = gen_graph(s, n, false);
        g.degree = s.range(1, 6);
        IndexSpec { data, source: Source::Graph(g), storage: gen_storage(s) }
    } else {
        gen_index(s, 120, 250)
    };
    OpCase { spec, threads: s.range(2, 8), keys: s.seed(), distinct: s.pick(&[1, 3, 50, 100_000]), jitter: s.weighted(&[2, 1, 1]), large }
}

/// Reordering with several threads is the same as with one.
fn run_op<K: Kit>(c: &OpCase, cx: &mut Cx) -> Res {
    with_index::<K, ()>(&c.spec, |index| {
        let base = write_index(index)?;
        let e = index.get_elements().clone();
        let n = index.len();
        if e.len() != n {
            return Ok(()); // only completely indexed elements can be permuted
        }
        let mut rng = Rng(c.keys);
        let keys: Vec<usize> = (0..n).map(|_| rng.below(c.distinct)).collect();
        let mut bytes_of = vec![];
        let mut orders = vec![];
        let mut elements = vec![];
        for threads in [1, c.threads] {
            let (o, b, el) = in_pool(threads, || -> Result<_, String> {
                set_jitter(if threads > 1 { c.jitter } else { 0 });
                let mut one = Granne::from_bytes(&base, e.clone());
                let o1 = one.reorder_by_keys(&keys, false);
                let b1 = write_index(&one)?;
                let mut two = Granne::from_bytes(&base, Jitter(e.clone()));
                let o2 = two.reorder(false);
                let b2 = write_index(&two)?;
                let mut els = vec![];
                one.write_elements(&mut els).map_err(|e| e.to_string())?;
                let mut els2 = vec![];
                two.get_elements().0.write(&mut els2).map_err(|e| e.to_string())?;
                Ok(((o1, o2), (b1, b2), (els, els2)))
            })?;
            set_jitter(0);
            orders.push(o);
            bytes_of.push(b);
            elements.push(el);
        }
        ensure!(orders[0] == orders[1], "reordering with {} threads gives another order than with one", c.threads);
        ensure!(bytes_of[0] == bytes_of[1], "reordering with {} threads gives another index than with one", c.threads);
        ensure!(elements[0] == elements[1], "reordering with {} threads orders the elements differently than with one", c.threads);
        for (i, &j) in orders[0].0.iter().enumerate() {
            ensure!(j < n, "order[{}] = {} of {}", i, j, n);
        }
        cx.label_if(c.large, "more than one chunk");
        cx.nontrivial = n > 2;
        Ok(())
    })
}

fn run_op_any(c: &OpCase, cx: &mut Cx) -> Res {
    dispatch!(c.spec.data.kind, run_op, c, cx)
}

pub fn p17() -> Property {
    Property {
        id: "P17",
        rule: "A case is elements, settings, a number of threads, steps of pushing, saving, loading and partial building and random \
               delays inside the element container; or an index reordered with one and with several threads. Non-trivial: more \
               than two elements.",
        level: "exploration",
        assumptions: vec!["interleavings are those the scheduler produces with the random delays"],
        families: vec![
            family("room for all", 3_000, 80_000, gen_complete, run_any).workers(4),
            family("any settings", 1_500, 40_000, gen_any, run_any).workers(4),
            family("one thread", 2_000, 50_000, gen_one, run_one_any),
            family("reordering", 2_000, 50_000, |s| gen_op(s, false), run_op_any).workers(4),
            family("reordering large indexes", 24, 800, |s| gen_op(s, true), run_op_any).workers(4),
        ],
    }
}
