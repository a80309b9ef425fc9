//! The concurrent builder used sequentially (P15).

use crate::data::*;
use crate::engine::*;
use crate::fmt;
use crate::oracle::*;
use crate::{dispatch, ensure};
use granne::{Builder, Granne, GranneBuilder, Index, RwGranneBuilder};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Insert(usize),
    Batch(usize),
    Search(Search),
    Get(usize),
    Save { disk: bool },
    /// save, load with other settings and capacity (relative to the current length), go on
    Reload { cfg: Cfg, room: usize, threads: usize, in_steps: bool },
    /// save, load, push and build as an ordinary builder; the concurrent builder goes on unchanged
    Extend(usize, Cfg),
}

#[derive(Serialize, Deserialize)]
struct Case {
    data: Data,
    cfg: Cfg,
    initial: usize,
    /// how many of the initial elements are indexed beforehand, in permille
    indexed: usize,
    capacity: usize,
    threads: usize,
    ops: Vec<Op>,
}

fn gen_capacity(s: &mut Src, n: usize) -> usize {
    match s.weighted(&[4, 2, 1, 1]) {
        0 => s.num(1, 2 * n + 10),
        1 => n,
        2 => s.pick(&[0, 1, 2, 3, 10, 100, 1000]),
        _ => s.pick(&[100_000, 5_000]),
    }
}

fn gen_case(s: &mut Src, max_n: usize) -> Case {
    let data = if s.chance(1, 4) {
        gen_data(s, max_n)
    } else {
        let (kind, n) = (s.pick(&KINDS), s.range(2, max_n));
        gen_data_n(s, kind, n)
    };
    let n = data.n;
    let cfg = gen_cfg(s);
    let ops = s.list(3, 25, |s| match s.weighted(&[5, 5, 5, 2, 2, 2, 1]) {
        0 => Op::Insert(s.size(1, 8)),
        1 => Op::Batch(s.size(0, n / 2 + 2)),
        2 => Op::Search(gen_search(s, n)),
        3 => Op::Get(s.range(0, n)),
        4 => Op::Save { disk: s.bool() },
        5 => Op::Reload {
            cfg: gen_cfg(s),
            room: if s.chance(1, 5) { 0 } else { s.num(1, n + 20) },
            threads: s.range(1, 3),
            in_steps: s.bool(),
        },
        _ => Op::Extend(s.range(0, 20), gen_cfg(s)),
    });
    Case {
        initial: if s.chance(1, 2) { 0 } else { s.range(0, n) },
        indexed: s.pick(&[1000, 0, 500]),
        capacity: gen_capacity(s, n),
        threads: s.weighted(&[4, 2, 1, 1]) + 1,
        data,
        cfg,
        ops,
    }
}

struct Saved {
    index: Vec<u8>,
    elements: Vec<u8>,
    view: View,
}

fn save<K: Kit>(rw: &RwGranneBuilder<K>, disk: bool, reference: &K, len: usize, limit: usize, d: &Data) -> Result<Saved, String> {
    let (index, elements) = if disk {
        let (a, b) = (temp_path("p15.index"), temp_path("p15.elements"));
        rw.save_index_and_elements_to_disk(&a, &b).map_err(|e| format!("saving to disk: {}", e))?;
        let r = (std::fs::read(&a), std::fs::read(&b));
        std::fs::remove_file(&a).ok();
        std::fs::remove_file(&b).ok();
        (r.0.map_err(|e| e.to_string())?, r.1.map_err(|e| e.to_string())?)
    } else {
        let mut index = std::io::Cursor::new(vec![]);
        let mut elements = vec![];
        rw.write(&mut index, &mut elements).map_err(|e| format!("saving to memory: {}", e))?;
        (index.into_inner(), elements)
    };
    let view = to_view(&fmt::decode_index(&index).map_err(|e| format!("saved index: {}", e))?);
    check_view(&view, limit, len, len).map_err(|e| format!("saved index: {}", e))?;
    if len > 0 {
        let e = K::load(d, &elements);
        ensure!(e.len() == len, "saved elements: {} instead of {}", e.len(), len);
        for i in 0..len {
            ensure!(K::same(&e.get(i), &reference.get(i)), "saved elements: element {} differs", i);
        }
        let loaded = Granne::from_bytes(&index, &e);
        ensure!(loaded.len() == len, "loaded index: {} elements instead of {}", loaded.len(), len);
    }
    Ok(Saved { index, elements, view })
}

fn run<K: Kit>(c: &Case, findable: bool, cx: &mut Cx) -> Res {
    let d = &c.data;
    // the elements accepted so far are the first `len` of the data
    let all = K::make(d);
    let mut len = c.initial.min(d.n);
    let mut cfg = c.cfg.clone();
    let mut limit = cfg.num_neighbors;
    let mut b = GranneBuilder::new(cfg.build_config(), K::make_n(d, len));
    b.build_partial(len * c.indexed / 1000);
    let mut capacity = c.capacity;
    let mut rw = RwGranneBuilder::new(b, capacity, c.threads);
    let (mut inserted, mut searched) = (0, 0);
    for (step, op) in c.ops.iter().enumerate() {
        let what = |e: String| format!("step {} ({:?}, {} elements, capacity {}): {}", step, op, len, capacity, e);
        match op {
            Op::Insert(k) => {
                for _ in 0..*k {
                    if len >= d.n {
                        break;
                    }
                    let id = rw.insert(K::internal(d, len));
                    let want = if len < capacity { Some(len) } else { None };
                    if id != want {
                        return Err(format!("step {}: insert() returned {:?} instead of {:?}", step, id, want));
                    }
                    if want.is_some() {
                        len += 1;
                        inserted += 1;
                    } else {
                        cx.label("full");
                    }
                }
            }
            Op::Batch(k) => {
                let k = (*k).min(d.n - len);
                let ids = rw.insert_batch((len..len + k).map(|i| K::internal(d, i)).collect());
                let end = (len + k).min(capacity.max(len));
                let want: Vec<usize> = (len..end).collect();
                if ids != want {
                    return Err(format!("step {}: insert_batch() of {} returned {:?} instead of {}..{}", step, k, ids, len, end));
                }
                cx.label_if(end < len + k, "batch beyond the capacity");
                inserted += want.len();
                len = end;
            }
            Op::Search(s) => {
                let saved = save(&rw, false, &all, len, limit, d).map_err(what)?;
                let q = make_query(d, &all, &s.q);
                let full = rw.search(&q, s.max_search, usize::MAX);
                check_result(&all, saved.view.last(), &q, s.max_search, &full).map_err(what)?;
                let res = rw.search(&q, s.max_search, s.k);
                ensure!(
                    same_results(&res, &full[..s.k.min(full.len())]),
                    "step {}: asking for {} results gives {:?}, not a prefix of {:?}",
                    step,
                    s.k,
                    &res[..res.len().min(10)],
                    &full[..full.len().min(10)]
                );
                searched += full.len();
                cx.label_if(len <= 1, "search with at most one element");
                cx.label_if(saved.view.len() == 1, "search with one layer");
            }
            Op::Get(i) => {
                if *i < len {
                    ensure!(K::same(&rw.get_element(*i), &all.get(*i)), "step {}: element {} differs", step, i);
                } else if len > 0 {
                    ensure!(no_panic(|| rw.get_element(*i)).is_err(), "step {}: there is an element {} of {}", step, i, len);
                }
            }
            Op::Save { disk } => {
                save(&rw, *disk, &all, len, limit, d).map_err(what)?;
            }
            Op::Reload { cfg: new, room, threads, in_steps } => {
                let saved = save(&rw, true, &all, len, limit, d).map_err(what)?;
                cfg = new.clone();
                limit = cfg.num_neighbors;
                capacity = len + room;
                let elements = if len > 0 { K::load(d, &saved.elements) } else { K::empty(d) };
                let b = GranneBuilder::from_bytes(cfg.build_config(), &saved.index, elements);
                ensure!(b.len() == len, "step {}: {} of {} elements indexed after loading", step, b.len(), len);
                drop(rw);
                rw = RwGranneBuilder::new(b, capacity, *threads);
                cx.label("reloaded");
                if *in_steps {
                    save(&rw, false, &all, len, limit, d).map_err(|e| format!("step {}: after loading: {}", step, e))?;
                }
            }
            Op::Extend(k, new) => {
                let saved = save(&rw, false, &all, len, limit, d).map_err(what)?;
                let elements = if len > 0 { K::load(d, &saved.elements) } else { K::empty(d) };
                let mut b = GranneBuilder::from_bytes(new.build_config(), &saved.index, elements);
                let end = (len + k).min(d.n);
                for i in len..end {
                    b.push(K::internal(d, i));
                }
                b.build();
                check_view(&view(&b), new.num_neighbors, end, end).map_err(|e| format!("step {}: extended: {}", step, e))?;
                ensure!(b.len() == end, "step {}: {} of {} elements indexed", step, b.len(), end);
            }
        }
        ensure!(rw.len() == len, "step {}: {} elements instead of {}", step, rw.len(), len);
        ensure!(rw.is_empty() == (len == 0), "step {}: is_empty() with {} elements", step, len);
        ensure!(rw.get_elements().len() == len, "step {}: get_elements() has {} instead of {}", step, rw.get_elements().len(), len);
    }
    let saved = save(&rw, false, &all, len, limit, d)?;
    for i in 0..len {
        ensure!(K::same(&rw.get_element(i), &all.get(i)), "at the end: element {} differs", i);
    }
    cx.label_if(saved.view.len() > 2, "several layers");
    cx.label_if(c.threads > 1, "several threads");
    cx.nontrivial = inserted > 1 && (searched > 0 || findable);
    if findable {
        let mut found = 0;
        for i in 0..len {
            let q = all.get(i);
            let own = dist(&all, i, &q);
            let res = rw.search(&q, cfg.max_search, 1);
            if res.first().map_or(false, |r| r.1 <= own) {
                found += 1;
            }
        }
        cx.metric("not_found", (len - found) as f64);
        let allowed = 3 + len / 50;
        ensure!(len - found <= allowed, "{} of {} elements not found by their own vector", len - found, len);
    }
    Ok(())
}

fn run_any(c: &Case, cx: &mut Cx) -> Res {
    dispatch!(c.data.kind, run, c, false, cx)
}

fn run_findable(c: &Case, cx: &mut Cx) -> Res {
    dispatch!(c.data.kind, run, c, true, cx)
}

fn gen_findable(s: &mut Src, max_n: usize) -> Case {
    let kind = s.pick(&KINDS);
    let n = s.range(30, max_n);
    let data = gen_general(s, kind, n);
    // one limit: loading with a smaller one drops neighbors
    let num_neighbors = s.range(12, 40);
    let good = |s: &mut Src| Cfg {
        multiplier: s.range(4, 25) as f32,
        num_neighbors,
        max_search: s.range(50, 150),
        reinsert: s.bool(),
        expected: None,
        show: false,
    };
    let cfg = good(s);
    let mut ops = s.list(1, 8, |s| match s.weighted(&[3, 5, 1]) {
        0 => Op::Insert(s.range(1, 30)),
        1 => Op::Batch(s.range(1, n / 2)),
        _ => Op::Reload { cfg: good(s), room: n, threads: s.range(1, 3), in_steps: false },
    });
    ops.push(Op::Batch(n));
    Case {
        initial: if s.chance(1, 2) { 0 } else { s.range(0, n) },
        indexed: s.pick(&[1000, 0, 500]),
        capacity: s.pick(&[n, n + 1, 2 * n, 10 * n]),
        threads: s.weighted(&[3, 1, 1, 1]) + 1,
        data,
        cfg,
        ops,
    }
}

fn gen_many_inserted(s: &mut Src) -> Case {
    let data = gen_many(s);
    let n = data.n;
    let first = n - s.pick(&[0, 1000, 10_000]);
    let mut ops = vec![Op::Batch(s.range(0, 2000))];
    for _ in 0..s.range(1, 3) {
        ops.push(match s.weighted(&[2, 2, 1, 1]) {
            0 => Op::Insert(s.range(1, 300)),
            1 => Op::Search(gen_search(s, n)),
            2 => Op::Save { disk: true },
            _ => Op::Reload { cfg: gen_cheap_cfg(s), room: s.range(0, 1000), threads: s.range(1, 3), in_steps: false },
        });
    }
    ops.push(Op::Batch(n));
    ops.push(Op::Search(gen_search(s, n)));
    Case {
        initial: first,
        indexed: s.pick(&[1000, 500]),
        capacity: s.pick(&[n, n - 1, 65_536, 2 * n]),
        threads: s.range(1, 3),
        cfg: gen_cheap_cfg(s),
        data,
        ops,
    }
}

pub fn p15() -> Property {
    Property {
        id: "P15",
        rule: "A case is a data set, settings, a capacity, a number of threads and a history of inserts, batches, searches, reads, \
               saves (to memory and disk), reloads with other settings and capacities, and extensions of the saved index. \
               Non-trivial: at least two inserted elements and a search with results.",
        level: "exploration",
        assumptions: vec![
            "findable: the same limit of at least 12 neighbors and max_search 50, distinct elements; at most 3 plus 2% of the elements may be missed",
        ],
        families: vec![
            family("histories", 10_000, 250_000, |s| gen_case(s, 60), run_any),
            family("longer histories", 1_500, 40_000, |s| gen_case(s, 400), run_any),
            family("beyond 16 bits", 8, 200, gen_many_inserted, run_any),
            family("findable", 400, 10_000, |s| gen_findable(s, 600), run_findable),
        ],
    }
}
