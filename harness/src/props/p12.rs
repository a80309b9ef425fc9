//! Zero and duplicate elements (P12).

use crate::data::*;
use crate::engine::*;
use crate::oracle::*;
use crate::{dispatch, ensure};
use granne::{Builder, Granne, GranneBuilder, Index};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, Debug)]
enum Layout {
    Shuffled,
    SpecialFirst,
    SpecialLast,
    /// only element 0 is moved: it becomes special
    EntrySpecial,
}

#[derive(Serialize, Deserialize)]
struct Case {
    data: Data,
    zero_pct: usize,
    dup_pct: usize,
    groups: usize,
    layout: Layout,
    cfg: Cfg,
    first: usize,
    searches: Vec<Search>,
}

fn gen_case(s: &mut Src, max_n: usize, sensible: bool) -> Case {
    let kind = s.pick(&KINDS);
    let n = if sensible { s.range(40, max_n) } else { s.num(1, max_n) };
    let mut data = if sensible { gen_general(s, kind, n) } else { gen_data_n(s, kind, n) };
    data.zeros.clear();
    data.dups.clear();
    let mut pct = s.pick(&[0, 5, 20, 50, 80, 100]);
    if sensible {
        pct = pct.min(90);
    }
    let share = s.pick(&[0, 50, 100, 20, 80]);
    let mut zero_pct = pct * share / 100;
    if sensible && kind == Kind::L2 {
        // the origin is not special for Euclidean distances, but a hub that all other points link to
        zero_pct = 0;
    }
    let mut cfg = gen_cfg(s);
    if sensible {
        cfg.num_neighbors = s.range(10, 40);
        cfg.max_search = s.range(50, 150);
        cfg.multiplier = s.range(5, 25) as f32;
    }
    Case {
        data,
        zero_pct,
        dup_pct: pct - zero_pct,
        groups: s.num(1, 8),
        layout: s.pick(&[Layout::Shuffled, Layout::SpecialFirst, Layout::SpecialLast, Layout::EntrySpecial]),
        cfg,
        first: s.range(0, 1000),
        searches: s.list(1, 4, |s| gen_search(s, n)),
    }
}

/// The data set with its special elements; also returns which elements are ordinary.
fn arrange(c: &Case) -> (Data, Vec<bool>) {
    let n = c.data.n;
    let mut d = c.data.clone();
    let mut rng = Rng(d.seed ^ 0x5EED);
    let mut role: Vec<usize> = (0..n)
        .map(|_| {
            let x = rng.below(100);
            if x < c.zero_pct {
                1
            } else if x < c.zero_pct + c.dup_pct {
                2 + rng.below(c.groups)
            } else {
                0
            }
        })
        .collect();
    match c.layout {
        Layout::Shuffled => {}
        Layout::SpecialFirst => role.sort_by_key(|&r| r == 0),
        Layout::SpecialLast => role.sort_by_key(|&r| r != 0),
        Layout::EntrySpecial => {
            if let Some(p) = role.iter().position(|&r| r != 0) {
                role.swap(0, p);
            }
        }
    }
    for (i, &r) in role.iter().enumerate() {
        match r {
            0 => {}
            1 => d.zeros.push(i),
            g => d.dups.push((i, n + 5000 + g)),
        }
    }
    (d, role.iter().map(|&r| r == 0).collect())
}

fn run<K: Kit>(c: &Case, findable: bool, cx: &mut Cx) -> Res {
    let (d, ordinary) = arrange(c);
    let n = d.n;
    let elements = K::make(&d);
    let first = n * c.first / 1000;
    let mut b = GranneBuilder::new(c.cfg.build_config(), K::make_n(&d, first));
    if first < n {
        if first > 0 {
            b.build();
            ensure!(b.len() == first, "{} of {} elements indexed", b.len(), first);
            check_view(&view(&b), c.cfg.num_neighbors, first, first)?;
        }
        for i in first..n {
            b.push(K::internal(&d, i));
        }
        cx.label("extended");
    }
    b.build();
    ensure!(b.len() == n, "{} of {} elements indexed", b.len(), n);
    let v = view(&b);
    check_view(&v, c.cfg.num_neighbors, n, n)?;
    let bytes = write_index(&b)?;
    let loaded = Granne::from_bytes(&bytes, elements.clone());
    ensure!(sorted(&view(&loaded)) == sorted(&v), "the reloaded index differs");
    let index = b.get_index();
    for s in &c.searches {
        check_search(&loaded, &elements, &v, &d, s)?;
    }
    let zeros = d.zeros.len();
    let dups = d.dups.len();
    cx.label_if(zeros > n / 3, "a third zero");
    cx.label_if(dups > n / 3, "a third duplicates");
    cx.label_if(zeros + dups == n, "no ordinary element");
    cx.label_if(!ordinary.is_empty() && !ordinary[0], "special entry point");
    cx.nontrivial = n > 1 && zeros + dups > 0;
    if findable {
        // ordinary elements that no other element is close to
        let (mut total, mut found) = (0, 0);
        for i in (0..n).filter(|&i| ordinary[i]) {
            let q = elements.get(i);
            let own = dist(&elements, i, &q);
            if (0..n).any(|j| j != i && dist(&elements, j, &q) <= 2.0 * own + 1e-3) {
                continue;
            }
            total += 1;
            let res = index.search(&q, c.cfg.max_search, 5);
            if res.first().map(|r| r.0) == Some(i) {
                found += 1;
            }
        }
        if total > 0 {
            cx.metric("found_share", found as f64 / total as f64);
            let allowed = if d.kind == Kind::L2 { 6 + total * 15 / 100 } else { 3 + total * 5 / 100 };
            ensure!(
                total - found <= allowed,
                "{} of {} ordinary elements not found by their own query (with {} zero and {} duplicate elements)",
                total - found,
                total,
                zeros,
                dups
            );
            MISSED.with(|m| m.set(m.get() + total - found));
        }
    }
    Ok(())
}

thread_local! {
    static MISSED: std::cell::Cell<usize> = std::cell::Cell::new(0);
}

const MANY: u64 = 20;

/// The same settings on many data sets.
fn run_many(c: &Case, cx: &mut Cx) -> Res {
    MISSED.with(|m| m.set(0));
    for k in 0..MANY {
        let mut data = c.data.clone();
        data.seed = data.seed.wrapping_add(k * 1_000_003);
        let one = Case { data, cfg: c.cfg.clone(), searches: vec![], ..*c };
        dispatch!(c.data.kind, run, &one, true, cx)?;
    }
    let missed = MISSED.with(|m| m.get());
    let allowed = if c.data.kind == Kind::L2 { 20 } else { 4 };
    cx.metric(if c.data.kind == Kind::L2 { "missed_in_20_l2" } else { "missed_in_20" }, missed as f64);
    ensure!(missed <= allowed, "{} ordinary elements not found by their own query in {} collections", missed, MANY);
    Ok(())
}

fn run_any(c: &Case, cx: &mut Cx) -> Res {
    dispatch!(c.data.kind, run, c, false, cx)
}

fn run_findable(c: &Case, cx: &mut Cx) -> Res {
    dispatch!(c.data.kind, run, c, true, cx)
}

pub fn p12() -> Property {
    Property {
        id: "P12",
        rule: "A case is a data set of a generated mix of zero elements, groups of identical elements and ordinary ones, in a \
               generated layout, with a configuration; it is built (possibly in two steps), saved, reloaded and searched. \
               Non-trivial: at least two elements and one zero or duplicate.",
        level: "exploration",
        assumptions: vec![
            "findable: at least 10 neighbors and max_search 50, angular distances (the origin of a Euclidean space is a point like \
             any other), an element no other element is within 1e-3 of; bounds on missed elements are a multiple of the worst \
             measured over 100,000 builds",
        ],
        families: vec![
            family("any mix", 16_000, 400_000, |s| gen_case(s, 120, false), run_any),
            family("findable", 3_000, 60_000, |s| gen_case(s, 400, true), run_findable),
            family("findable on average", 240, 6_000, |s| gen_case(s, 150, true), run_many),
        ],
    }
}
