//! Well-formedness (P04) and layer sizes (P05) of built indexes.

use crate::data::*;
use crate::engine::*;
use crate::oracle::*;
use crate::{dispatch, ensure};
use granne::{Builder, Granne, GranneBuilder, Index};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    Push(usize),
    Build,
    /// permille of the way from the indexed to all elements
    Partial(usize),
    /// save, load into a builder with another configuration
    Reload(Cfg),
    /// save, load, reorder, save and load into a builder
    Reorder,
    /// search the current index
    Search(usize),
}

#[derive(Serialize, Deserialize)]
struct HistoryCase {
    data: Data,
    initial: usize,
    cfg: Cfg,
    ops: Vec<Op>,
}

fn gen_history(s: &mut Src, max_n: usize) -> HistoryCase {
    let data = gen_data(s, max_n);
    let n = data.n;
    let initial = if s.chance(1, 3) { s.range(0, n) } else { n };
    let mut cfg = gen_cfg(s);
    if s.chance(1, 4) {
        cfg.expected = Some(s.range(0, 2 * n + 10));
    }
    let ops = s.list(1, 8, |s| match s.weighted(&[4, 3, 3, 2, 1, 1]) {
        0 => Op::Build,
        1 => Op::Push(s.size(1, n / 2 + 1)),
        2 => Op::Partial(s.range(0, 1000)),
        3 => {
            let mut c = gen_cfg(s);
            if s.chance(1, 3) {
                c.expected = Some(s.range(0, 2 * n + 10));
            }
            Op::Reload(c)
        }
        4 => Op::Reorder,
        _ => Op::Search(s.range(1, 30)),
    });
    HistoryCase { data, initial, cfg, ops }
}

fn run_history<K: Kit>(c: &HistoryCase, cx: &mut Cx) -> Res {
    let d = &c.data;
    let mut pushed = c.initial.min(d.n);
    let mut cfg = c.cfg.clone();
    let mut b = GranneBuilder::new(cfg.build_config(), K::make_n(d, pushed));
    cx.label(format!("{:?}", d.kind));
    let mut built = 0;
    let mut limit = cfg.num_neighbors;
    for (step, op) in c.ops.iter().enumerate() {
        let before = view(&b);
        let len = b.len();
        let mut unchanged = false;
        match op {
            Op::Push(k) => {
                for _ in 0..*k {
                    if pushed < d.n {
                        b.push(K::internal(d, pushed));
                        pushed += 1;
                    }
                }
                unchanged = true;
                cx.label("push");
            }
            Op::Build => {
                b.build();
                cx.label_if(len > 0 && len < pushed, "build after partial build");
                if len == pushed {
                    // finished: a rebuild may not resize it
                    let now = sizes(&b);
                    let was: Vec<usize> = before.iter().map(|l| l.len()).collect();
                    ensure!(now == was, "step {}: rebuilding changed the layer sizes {:?} to {:?}", step, was, now);
                    cx.label_if(len > 0, "rebuild");
                }
                ensure!(b.len() == pushed, "step {}: {} of {} elements indexed by build()", step, b.len(), pushed);
                built += 1;
            }
            Op::Partial(permille) => {
                let target = len + (pushed - len) * permille / 1000;
                b.build_partial(target);
                ensure!(b.len() == target, "step {}: build_partial({}) indexed {}", step, target, b.len());
                built += 1;
                cx.label("partial build");
            }
            Op::Reload(new) => {
                let bytes = write_index(&b)?;
                let elements = b.get_elements().clone();
                cfg = new.clone();
                limit = cfg.num_neighbors;
                b = GranneBuilder::from_bytes(cfg.build_config(), &bytes, elements);
                cx.label("reload");
            }
            Op::Reorder => {
                let mut index = b.get_index().to_owned();
                index.reorder(false);
                let bytes = write_index(&index)?;
                check_view(&view(&index), limit, pushed, len).map_err(|e| format!("step {} (reordered): {}", step, e))?;
                b = GranneBuilder::from_bytes(cfg.build_config(), &bytes, index.get_elements().clone());
                cx.label("reorder");
            }
            Op::Search(ms) => {
                let index = b.get_index();
                for q in 0..3 {
                    let query = K::query(d, q);
                    let res = index.search(&query, *ms, usize::MAX);
                    check_result(b.get_elements(), before.last(), &query, *ms, &res).map_err(|e| format!("step {}: {}", step, e))?;
                }
                unchanged = true;
            }
        }
        let now = view(&b);
        check_view(&now, limit, pushed, b.len()).map_err(|e| format!("step {} ({:?}): {}", step, op, e))?;
        check_linked(b.get_elements(), &now).map_err(|e| format!("step {} ({:?}): {}", step, op, e))?;
        ensure!(b.num_elements() == pushed, "step {}: num_elements() {} of {}", step, b.num_elements(), pushed);
        ensure!(!unchanged || now == before, "step {}: {:?} changed the index", step, op);
        ensure!(b.len() >= len || matches!(op, Op::Reorder), "step {}: {} indexed elements, {} before", step, b.len(), len);
        // also through the borrowed view and a saved file
        if step + 1 == c.ops.len() {
            let bytes = write_index(&b)?;
            let decoded = to_view(&crate::fmt::decode_index(&bytes)?);
            check_view(&decoded, limit, pushed, b.len()).map_err(|e| format!("saved file: {}", e))?;
            let index = Granne::from_bytes(&bytes, b.get_elements());
            check_view(&view(&index), limit, pushed, b.len()).map_err(|e| format!("loaded: {}", e))?;
        }
        if built > 0 && b.len() > 1 && now.iter().flatten().any(|l| l.len() > 1) {
            cx.nontrivial = true;
        }
        cx.label_if(now.len() > 2, "several layers");
    }
    Ok(())
}

pub fn p04() -> Property {
    Property {
        id: "P04",
        rule: "A case is a data set (4 element kinds; zeros, duplicates and ties included), a configuration and a history of \
               pushes, builds, partial builds, reloads with other configurations, reorderings and searches; the invariants \
               are checked after every step. Non-trivial: a build happened and some element has at least two neighbors.",
        level: "exploration",
        assumptions: vec!["neighbor limits up to 254 (see finding F16)"],
        families: vec![
            family(
                "history",
                6000,
                150_000,
                |s| gen_history(s, 150),
                |c: &HistoryCase, cx| dispatch!(c.data.kind, run_history, c, cx),
            ),
            family(
                "large history",
                150,
                5000,
                |s| gen_history(s, 2000),
                |c: &HistoryCase, cx| dispatch!(c.data.kind, run_history, c, cx),
            ),
            family(
                "beyond 16 bits",
                16,
                400,
                |s| {
                    let data = gen_many(s);
                    let n = data.n;
                    let initial = if s.bool() { n } else { n - s.range(1, 1000) };
                    let ops = s.list(2, 5, |s| match s.weighted(&[3, 2, 3, 1, 1]) {
                        0 => Op::Build,
                        1 => Op::Push(s.range(1, 600)),
                        2 => Op::Partial(s.pick(&[500, 900, 990, 1000])),
                        3 => Op::Reload(gen_cheap_cfg(s)),
                        _ => Op::Reorder,
                    });
                    HistoryCase { data, initial, cfg: gen_cheap_cfg(s), ops }
                },
                |c: &HistoryCase, cx| dispatch!(c.data.kind, run_history, c, cx),
            ),
        ],
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize)]
struct SizeCase {
    kind: Kind,
    n: usize,
    cfg: Cfg,
    /// numbers of elements for partial builds, ascending
    steps: Vec<usize>,
    /// elements are pushed only when needed (with the total configured)
    late_push: bool,
    seed: u64,
}

/// Possible layer sizes for a total: two alternatives when the total is a power of the multiplier up to rounding.
fn ideal_sizes(total: usize, m: f64) -> Vec<Vec<usize>> {
    if total == 0 {
        return vec![vec![]];
    }
    let t = total as f64;
    let log = t.ln() / m.ln();
    let mut floors = vec![log.floor()];
    if (log - log.round()).abs() < 1e-9 {
        floors = vec![log.round(), log.round() - 1.0];
    }
    floors
        .into_iter()
        .filter(|f| *f >= 0.0)
        .map(|f| {
            let mut v: Vec<f64> = (0..=f as usize).map(|i| t / m.powf(f - i as f64)).collect();
            *v.last_mut().unwrap() = t;
            v.into_iter().map(|x| x.ceil() as usize).collect()
        })
        .collect()
}

fn matches_sizes(got: &[usize], total: usize, m: f64, indexed: usize) -> bool {
    if indexed == 0 {
        return got.is_empty();
    }
    ideal_sizes(total, m).iter().any(|ideal| {
        // truncated at the number of indexed elements
        let mut want = vec![];
        for &s in ideal {
            if s >= indexed {
                want.push((indexed, true));
                break;
            }
            want.push((s, false));
        }
        // rounding can put a power of the multiplier on either side of an integer
        let near = |g: usize, w: usize| g.abs_diff(w) <= 1 && {
            let exact = ideal.iter().position(|&x| x == w).map(|i| total as f64 / m.powf((ideal.len() - 1 - i) as f64));
            g == w || exact.map_or(false, |e| (e - e.round()).abs() < 1e-6 * e)
        };
        if got.len() == want.len() {
            got.iter().zip(&want).all(|(&g, &(w, last))| if last { g == w } else { near(g, w) })
        } else {
            // a truncation at exactly an ambiguous size
            got.len().abs_diff(want.len()) == 1
                && got.last() == Some(&indexed)
                && got[..got.len() - 1].iter().zip(ideal).all(|(&g, &w)| near(g, w))
                && ideal.iter().any(|&s| s.abs_diff(indexed) <= 1 && s != indexed && near(indexed, s))
        }
    })
}

fn run_sizes<K: Kit>(c: &SizeCase, cx: &mut Cx) -> Res {
    let d = Data::plain(c.kind, c.n, 4, c.seed);
    let m = c.cfg.multiplier as f64;
    let mut cfg = c.cfg.clone();
    if c.late_push {
        cfg.expected = Some(cfg.expected.unwrap_or(0).max(c.n));
    }
    let total = cfg.expected.unwrap_or(0).max(c.n);
    let mut pushed = if c.late_push { 0 } else { c.n };
    let mut b = GranneBuilder::new(cfg.build_config(), K::make_n(&d, pushed));
    let mut steps = c.steps.clone();
    steps.retain(|&k| k <= c.n);
    steps.sort_unstable();
    steps.push(c.n);
    for (i, &k) in steps.iter().enumerate() {
        while pushed < k {
            b.push(K::internal(&d, pushed));
            pushed += 1;
        }
        let len = b.len();
        let before = view(&b);
        // too many and too few
        for bad in [pushed + 1 + i, len.saturating_sub(1 + i)] {
            if (bad < len || bad > pushed) && bad > 0 {
                let _ = no_panic(|| b.build_partial(bad));
                ensure!(b.len() == len && view(&b) == before, "build_partial({}) changed an index of {} elements, {} indexed", bad, pushed, len);
            }
        }
        b.build_partial(0);
        ensure!(b.len() == len && view(&b) == before, "build_partial(0) changed the index");
        if i % 2 == 1 && k == pushed {
            b.build();
        } else {
            b.build_partial(k);
        }
        ensure!(b.len() == k, "build_partial({}) indexed {} elements", k, b.len());
        ensure!(b.num_elements() == pushed, "num_elements() is {} after building, not {}", b.num_elements(), pushed);
        let got = sizes(&b);
        ensure!(
            matches_sizes(&got, total, m, k),
            "layer sizes {:?} for total {} multiplier {} with {} indexed, expected {:?} truncated",
            got,
            total,
            m,
            k,
            ideal_sizes(total, m)
        );
        ensure!(
            got.first().map_or(true, |&f| f as f64 <= m.ceil() + 1.0),
            "the topmost layer has {} elements, multiplier {}",
            got[0],
            m
        );
        let after = view(&b);
        for (l, layer) in after.iter().enumerate() {
            ensure!(l >= before.len() || layer.len() >= before[l].len(), "layer {} shrank", l);
        }
        cx.label_if(k < total && k > 0, "partial");
        cx.label_if(got.len() > 1, "several layers");
        cx.nontrivial |= got.len() > 1;
    }
    // one step
    let mut one = GranneBuilder::new(cfg.build_config(), K::make(&d));
    one.build();
    ensure!(
        sizes(&one) == sizes(&b),
        "layer sizes {:?} when building in steps {:?}, {:?} in one step",
        sizes(&b),
        steps,
        sizes(&one)
    );
    cx.label_if(total > c.n, "expected number larger");
    Ok(())
}

pub fn p05() -> Property {
    Property {
        id: "P05",
        rule: "A case is a number of elements, a configuration (multiplier, expected total) and the sizes of successive partial \
               builds, with elements present from the start or pushed as needed; sizes are compared with an independent \
               formula after every step and refused calls are tried at every step. Non-trivial: at least two layers.",
        level: "exploration",
        assumptions: vec!["at exact powers of the multiplier either rounding of the number of layers is accepted"],
        families: vec![
            family(
                "sizes",
                8000,
                200_000,
                |s| {
                    let n = s.size(0, 400);
                    gen_sizes(s, n)
                },
                |c: &SizeCase, cx| dispatch!(c.kind, run_sizes, c, cx),
            ),
            family(
                "larger",
                200,
                4000,
                |s| {
                    let n = match s.weighted(&[1, 1]) {
                        0 => s.range(400, 6000),
                        _ => s.pick(&[512, 729, 1000, 1024, 2048, 3375, 4096]),
                    };
                    gen_sizes(s, n)
                },
                |c: &SizeCase, cx| dispatch!(c.kind, run_sizes, c, cx),
            ),
            family(
                "beyond 16 bits",
                12,
                300,
                |s| {
                    let n = gen_beyond_16_bits(s);
                    let mut c = gen_sizes(s, n);
                    c.cfg = Cfg { multiplier: c.cfg.multiplier.max(2.0), ..gen_cheap_cfg(s) };
                    c.steps = s.list(0, 2, |s| s.pick(&[n / 2, 65_535, 65_536, 65_537, n - 1]).min(n));
                    c
                },
                |c: &SizeCase, cx| dispatch!(c.kind, run_sizes, c, cx),
            ),
        ],
    }
}

fn gen_sizes(s: &mut Src, n: usize) -> SizeCase {
    let mut cfg = gen_cfg(s);
    cfg.multiplier = match s.weighted(&[3, 2, 1]) {
        0 => s.range(2, 20) as f32,
        1 => 1.25 + s.range(0, 60) as f32 / 16.0,
        _ => s.pick(&[15.0, 100.0, 5000.0]),
    };
    cfg.num_neighbors = s.range(1, 6);
    cfg.max_search = s.range(1, 6);
    if s.chance(1, 3) {
        cfg.expected = Some(s.size(0, 3 * n + 20));
    }
    SizeCase { kind: s.pick(&KINDS), n, cfg, steps: s.list(0, 4, |s| s.range(0, n)), late_push: s.bool(), seed: s.seed() }
}
