//! The concurrent builder used concurrently (P16).

use crate::data::*;
use crate::engine::*;
use crate::fmt;
use crate::oracle::*;
use crate::{dispatch, ensure};
use granne::{ElementContainer, ExtendableElementContainer, Granne, GranneBuilder, Index, RwGranneBuilder, Writeable};
use ordered_float::NotNan;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Barrier;

/// Forwards to a container, delaying some calls to vary the interleaving of threads.
#[derive(Clone)]
pub struct Jitter<K>(pub K);

static LEVEL: AtomicUsize = AtomicUsize::new(0);
static THREADS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static STATE: std::cell::Cell<u64> = std::cell::Cell::new(0);
}

pub fn set_jitter(level: usize) {
    LEVEL.store(level, Ordering::Relaxed);
}

pub fn jitter(weight: u64) {
    let level = LEVEL.load(Ordering::Relaxed) as u64;
    if level == 0 {
        return;
    }
    let r = STATE.with(|s| {
        let mut x = s.get();
        if x == 0 {
            x = 1 + THREADS.fetch_add(0x9E37_79B9, Ordering::Relaxed);
        }
        let r = splitmix(&mut x);
        s.set(x);
        r
    });
    let odds = match level {
        1 => 400,
        2 => 60,
        _ => 12,
    };
    if r % odds < weight {
        match (r >> 32) % 8 {
            0 => std::thread::sleep(std::time::Duration::from_micros(30 * level)),
            1 | 2 => {
                for _ in 0..200 * level {
                    std::hint::spin_loop();
                }
            }
            _ => std::thread::yield_now(),
        }
    }
}

impl<K: Kit> ElementContainer for Jitter<K> {
    type Element = K::El;
    fn get(&self, idx: usize) -> K::El {
        jitter(1);
        self.0.get(idx)
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn dist_to_element(&self, idx: usize, element: &K::El) -> NotNan<f32> {
        jitter(1);
        self.0.dist_to_element(idx, element)
    }
}

impl<K: Kit> ExtendableElementContainer for Jitter<K> {
    type InternalElement = K::Int;
    fn push(&mut self, element: K::Int) {
        jitter(8);
        ExtendableElementContainer::push(&mut self.0, element)
    }
}

impl<K: Kit> Writeable for Jitter<K> {
    fn write<B: std::io::Write>(&self, buffer: &mut B) -> std::io::Result<usize> {
        jitter(12);
        let r = self.0.write(buffer);
        jitter(12);
        r
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Insert,
    Batch(usize),
    Search(usize, usize),
    Get(usize),
    Len,
    Save,
    Pause,
}

#[derive(Serialize, Deserialize)]
struct Case {
    data: Data,
    cfg: Cfg,
    initial: usize,
    capacity: usize,
    /// threads of the builder
    pool: usize,
    /// call from the workers of a rayon pool with that many threads (0: from ordinary threads)
    rayon: usize,
    jitter: usize,
    actors: Vec<Vec<Op>>,
    sensible: bool,
}

fn gen_case(s: &mut Src, rayon: bool) -> Case {
    let kind = s.pick(&KINDS);
    let sensible = s.chance(1, 3);
    let mut cfg = gen_cfg(s);
    if sensible {
        cfg.num_neighbors = s.range(12, 40);
        cfg.max_search = s.range(50, 120);
        cfg.multiplier = s.range(4, 25) as f32;
    }
    cfg.reinsert = false;
    let actors = s.range(2, if rayon { 24 } else { 6 });
    let style = s.range(0, 3);
    let actors: Vec<Vec<Op>> = (0..actors)
        .map(|a| {
            let w: &[u64] = match (style, a) {
                (1, 0) => &[0, 0, 6, 2, 2, 3, 1],
                (1, _) => &[8, 4, 1, 0, 1, 0, 1],
                (2, 0) => &[0, 0, 0, 0, 1, 8, 2],
                (2, _) => &[6, 6, 2, 1, 1, 0, 0],
                (3, _) => &[10, 3, 0, 0, 0, 0, 0],
                _ => &[5, 4, 4, 2, 2, 1, 1],
            };
            s.list(1, if rayon { 12 } else { 40 }, |s| match s.weighted(w) {
                0 => Op::Insert,
                1 => Op::Batch(s.size(0, 40)),
                2 => Op::Search(s.range(0, 1000), s.size(1, 60)),
                3 => Op::Get(s.range(0, 1000)),
                4 => Op::Len,
                5 => Op::Save,
                _ => Op::Pause,
            })
        })
        .collect();
    let total: usize = actors.iter().flatten().map(|o| if let Op::Batch(k) = o { *k } else { matches!(o, Op::Insert) as usize }).sum();
    let initial = if s.chance(1, 2) { 0 } else { s.range(0, 60) };
    let n = initial + total;
    let data = if sensible { gen_general(s, kind, n) } else { gen_data_n(s, kind, n) };
    let capacity = match s.weighted(&[4, 2, 2]) {
        0 => n + s.range(0, 20),
        1 => s.range(0, n),
        _ => n * s.range(1, 20),
    };
    Case {
        data,
        cfg,
        initial,
        capacity,
        pool: s.weighted(&[3, 2, 1, 1]) + 1,
        rayon: if rayon { s.range(1, 5) } else { 0 },
        jitter: s.weighted(&[2, 2, 2, 1]),
        actors,
        sensible,
    }
}

enum What<E> {
    /// data indices and the ids they got
    Insert(Vec<usize>, Vec<usize>),
    Search(E, usize, Vec<(usize, f32)>),
    Get(usize, E),
    Len(usize),
    Save(Result<(Vec<u8>, Vec<u8>), String>),
}

struct Event<E> {
    start: u64,
    end: u64,
    actor: usize,
    what: What<E>,
}

fn act<K: Kit>(
    c: &Case,
    rw: &RwGranneBuilder<Jitter<K>>,
    ops: &[Op],
    actor: usize,
    first: usize,
    clock: &AtomicU64,
) -> Vec<Event<K::El>> {
    let d = &c.data;
    let mut next = first;
    let mut log = vec![];
    for op in ops {
        let start = clock.fetch_add(1, Ordering::SeqCst);
        let what = match op {
            Op::Insert => {
                let j = next;
                next += 1;
                What::Insert(vec![j], rw.insert(K::internal(d, j)).into_iter().collect())
            }
            Op::Batch(k) => {
                let js: Vec<usize> = (next..next + k).collect();
                next += k;
                let ids = rw.insert_batch(js.iter().map(|&j| K::internal(d, j)).collect());
                What::Insert(js, ids)
            }
            Op::Search(q, ms) => {
                let q = K::query(d, *q);
                let res = rw.search(&q, *ms, usize::MAX);
                What::Search(q, *ms, res)
            }
            Op::Get(i) => {
                let len = rw.len();
                if len == 0 {
                    continue;
                }
                What::Get(i % len, rw.get_element(i % len))
            }
            Op::Len => What::Len(rw.len()),
            Op::Save => {
                let mut index = std::io::Cursor::new(vec![]);
                let mut elements = vec![];
                What::Save(match rw.write(&mut index, &mut elements) {
                    Ok(()) => Ok((index.into_inner(), elements)),
                    Err(e) => Err(e.to_string()),
                })
            }
            Op::Pause => {
                std::thread::sleep(std::time::Duration::from_micros(100));
                continue;
            }
        };
        let end = clock.fetch_add(1, Ordering::SeqCst);
        log.push(Event { start, end, actor, what });
    }
    log
}

fn run<K: Kit>(c: &Case, cx: &mut Cx) -> Res {
    let d = &c.data;
    set_jitter(c.jitter);
    let mut initial = Jitter(K::make_n(d, c.initial));
    initial.0 = initial.0.clone();
    let rw = RwGranneBuilder::new(GranneBuilder::new(c.cfg.build_config(), initial), c.capacity, c.pool);
    let clock = AtomicU64::new(1);
    let mut firsts = vec![];
    let mut next = c.initial;
    for a in &c.actors {
        firsts.push(next);
        next += a.iter().map(|o| if let Op::Batch(k) = o { *k } else { matches!(o, Op::Insert) as usize }).sum::<usize>();
    }
    let attempted = next - c.initial;
    let logs: Vec<std::thread::Result<Vec<Event<K::El>>>> = if c.rayon == 0 {
        let barrier = Barrier::new(c.actors.len());
        std::thread::scope(|scope| {
            let handles: Vec<_> = c
                .actors
                .iter()
                .enumerate()
                .map(|(a, ops)| {
                    let (rw, clock, barrier, first) = (&rw, &clock, &barrier, firsts[a]);
                    scope.spawn(move || {
                        barrier.wait();
                        act::<K>(c, rw, ops, a, first, clock)
                    })
                })
                .collect();
            handles.into_iter().map(|h| h.join()).collect()
        })
    } else {
        use rayon::prelude::*;
        let pool = rayon::ThreadPoolBuilder::new().num_threads(c.rayon).build().expect("HARNESS: pool");
        pool.install(|| {
            c.actors
                .par_iter()
                .enumerate()
                .with_max_len(1)
                .map(|(a, ops)| {
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| act::<K>(c, &rw, ops, a, firsts[a], &clock)))
                })
                .collect()
        })
    };
    set_jitter(0);
    let mut events = vec![];
    for l in logs {
        match l {
            Ok(l) => events.extend(l),
            Err(p) => std::panic::resume_unwind(p),
        }
    }
    events.sort_by_key(|e| e.start);

    // final content by the reported ids
    let len = rw.len();
    let mut content: Vec<Option<usize>> = (0..c.initial).map(Some).collect();
    content.resize(len, None);
    let mut started = vec![0u64; len];
    let mut accepted = 0;
    for e in &events {
        if let What::Insert(js, ids) = &e.what {
            ensure!(ids.len() <= js.len(), "{} ids for {} inserted elements", ids.len(), js.len());
            ensure!(
                ids.len() == js.len() || len >= c.capacity,
                "{} of {} elements accepted, although the capacity {} is not reached by {}",
                ids.len(),
                js.len(),
                c.capacity,
                len
            );
            accepted += ids.len();
            for (w, (&j, &id)) in js.iter().zip(ids).enumerate() {
                ensure!(id < len, "id {} reported, there are {} elements", id, len);
                ensure!(content[id].is_none(), "id {} reported twice", id);
                ensure!(w == 0 || ids[w - 1] < id, "ids of a batch are not ascending: {} after {}", id, ids[w - 1]);
                content[id] = Some(j);
                started[id] = e.start;
            }
        }
    }
    ensure!(
        len == c.initial + accepted,
        "{} elements, {} of them initial and {} accepted",
        len,
        c.initial,
        accepted
    );
    ensure!(len <= c.capacity.max(c.initial), "{} elements with capacity {}", len, c.capacity);
    let want = attempted.min(c.capacity.saturating_sub(c.initial));
    ensure!(accepted == want, "{} of {} elements accepted with capacity {} and {} initially", accepted, attempted, c.capacity, c.initial);
    let mut all = K::empty(d);
    for j in &content {
        ExtendableElementContainer::push(&mut all, K::internal(d, j.unwrap()));
    }
    for i in 0..len {
        ensure!(K::same(&rw.get_element(i), &all.get(i)), "the element with id {} is not the one inserted with it", i);
    }

    let mut index = std::io::Cursor::new(vec![]);
    let mut elements = vec![];
    rw.write(&mut index, &mut elements).map_err(|e| format!("saving at the end: {}", e))?;
    let (_, view) = check_saved::<K>(c, &all, index.get_ref(), &elements).map_err(|e| format!("saved at the end: {}", e))?;
    let sizes: Vec<usize> = view.iter().map(|l| l.len()).collect();
    ensure!(view.last().map_or(0, |l| l.len()) == len, "saved at the end: other number of elements");

    // real time
    // (end, number of elements known to be present) of finished inserts, by end
    let mut finished: Vec<(u64, usize)> = vec![(0, c.initial)];
    let mut begun: Vec<(u64, usize)> = vec![];
    for e in &events {
        if let What::Insert(js, ids) = &e.what {
            if let Some(m) = ids.last() {
                finished.push((e.end, m + 1));
            }
            begun.push((e.start, js.len()));
        }
    }
    finished.sort();
    let at_least = |t: u64| finished.iter().take_while(|f| f.0 < t).map(|f| f.1).max().unwrap();
    let at_most = |t: u64| c.initial + begun.iter().filter(|b| b.0 < t).map(|b| b.1).sum::<usize>();
    let mut longest = vec![0; c.actors.len()];
    let (mut overlaps, mut results) = (0, 0);
    for (k, e) in events.iter().enumerate() {
        let (lo, hi) = (at_least(e.start), at_most(e.end).min(len));
        overlaps += events[k + 1..].iter().take_while(|f| f.start < e.end).filter(|f| f.actor != e.actor).count();
        match &e.what {
            What::Insert(_, ids) => {
                if let Some(&first) = ids.first() {
                    ensure!(first >= lo, "id {} handed out after {} elements were inserted", first, lo);
                }
                for w in ids.windows(2) {
                    ensure!(
                        w[1] == w[0] + 1 || sizes.contains(&(w[0] + 1)),
                        "ids {} and {} of a batch are apart, not at the end of a layer ({:?})",
                        w[0],
                        w[1],
                        sizes
                    );
                }
            }
            What::Len(l) => {
                ensure!(*l >= lo && *l <= hi, "len() is {}, expected between {} and {}", l, lo, hi);
                ensure!(*l >= longest[e.actor], "len() is {} after {}", l, longest[e.actor]);
                longest[e.actor] = *l;
            }
            What::Get(i, x) => ensure!(K::same(x, &all.get(*i)), "element {} was read differently", i),
            What::Save(r) => {
                let (index, elements) = r.as_ref().map_err(|e| format!("saving: {}", e))?;
                let (m, _) = check_saved::<K>(c, &all, index, elements).map_err(|e| format!("saved meanwhile: {}", e))?;
                ensure!(m >= lo && m <= hi, "{} elements saved, expected between {} and {}", m, lo, hi);
            }
            What::Search(q, ms, res) => {
                results += res.len();
                ensure!(res.len() <= *ms, "{} results for max_search {}", res.len(), ms);
                ensure!(lo == 0 || !res.is_empty(), "no result with {} elements", lo);
                let mut seen = std::collections::HashSet::new();
                for (r, &(id, dd)) in res.iter().enumerate() {
                    ensure!(id < hi, "result with id {}, at most {} elements were inserted", id, hi);
                    ensure!(started[id] < e.end, "result with id {} before its insertion began", id);
                    ensure!(seen.insert(id), "id {} returned twice", id);
                    let exact = dist(&all, id, q);
                    ensure!(dd == exact, "result {} has distance {}, the elements say {}", id, dd, exact);
                    ensure!(r == 0 || res[r - 1].1 <= dd, "results not in ascending order");
                }
                if lo > 0 {
                    let entry = dist(&all, 0, q);
                    ensure!(res[0].1 <= entry, "best distance {} is worse than the one of the entry point {}", res[0].1, entry);
                }
            }
        }
    }
    if c.sensible {
        let missed = (0..len)
            .filter(|&i| {
                let q = all.get(i);
                let own = dist(&all, i, &q);
                rw.search(&q, c.cfg.max_search, 1).first().map_or(true, |r| r.1 > own)
            })
            .count();
        cx.metric("not_found", missed as f64);
        ensure!(missed <= 3 + len / 25, "{} of {} elements not found by their own vector", missed, len);
    }
    cx.metric("overlapping_calls", overlaps as f64);
    cx.label(format!("builder threads {}", c.pool));
    cx.label_if(c.rayon > 0, "called from rayon workers");
    cx.label_if(accepted < attempted, "capacity reached");
    cx.label_if(events.iter().any(|e| matches!(e.what, What::Save(_))), "saves");
    cx.label_if(results > 0, "searches");
    cx.label_if(sizes.len() > 2, "several layers");
    cx.nontrivial = overlaps > 0 && accepted > 1;
    Ok(())
}

fn check_saved<K: Kit>(c: &Case, all: &K, index: &[u8], elements: &[u8]) -> Result<(usize, View), String> {
    let view = to_view(&fmt::decode_index(index)?);
    let m = view.last().map_or(0, |l| l.len());
    check_view(&view, c.cfg.num_neighbors, m, m)?;
    if m > 0 {
        let e = K::load(&c.data, elements);
        ensure!(e.len() == m, "{} elements, the index has {}", e.len(), m);
        ensure!(m <= all.len(), "{} elements saved of {}", m, all.len());
        for i in 0..m {
            ensure!(K::same(&e.get(i), &all.get(i)), "element {} differs", i);
        }
        ensure!(Granne::from_bytes(index, &e).len() == m, "loaded length");
    } else {
        ensure!(elements.len() <= 16, "an empty index, but {} bytes of elements", elements.len());
    }
    Ok((m, view))
}

fn run_any(c: &Case, cx: &mut Cx) -> Res {
    dispatch!(c.data.kind, run, c, cx)
}

pub fn p16() -> Property {
    Property {
        id: "P16",
        rule: "A case is settings and 2 to 24 concurrent callers, each with its own history of inserts, batches, searches, reads \
               and saves, called from ordinary threads or from workers of a rayon pool, with random delays inside the element \
               container. The calls are logged with a logical clock and the log is checked for linearizability. Non-trivial: \
               calls of different threads overlapped and at least two elements were accepted.",
        level: "exploration",
        assumptions: vec![
            "interleavings are those the scheduler produces with the random delays; a case that stops using the processor is \
             reported as blocked forever",
        ],
        families: vec![
            family("threads", 2_500, 60_000, |s| gen_case(s, false), run_any).workers(4),
            family("rayon workers", 1_200, 30_000, |s| gen_case(s, true), run_any).workers(4),
        ],
    }
}
