//! Search: validity (P01) and exactness (P02).

use crate::data::*;
use crate::engine::*;
use crate::oracle::*;
use crate::{dispatch, ensure};
use granne::{Builder, Granne, GranneBuilder, Index};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize)]
struct SearchCase {
    index: IndexSpec,
    searches: Vec<Search>,
}

fn run_search<K: Kit>(c: &SearchCase, cx: &mut Cx) -> Res {
    let d = &c.index.data;
    let elements = K::make(d);
    cx.label(format!("{:?}", d.kind));
    cx.label(match c.index.storage {
        Storage::Bytes(_) => "from bytes".to_string(),
        ref s => format!("{:?}", s),
    });
    with_index::<K, _>(&c.index, |index| {
        let v = view(index);
        ensure!(v.last().map_or(0, |l| l.len()) == index.len(), "len() {} is not the size of the last layer", index.len());
        let links: usize = v.last().map_or(0, |l| l.iter().map(|n| n.len()).sum());
        cx.label(format!("{} layers", v.len().min(4)));
        for s in &c.searches {
            let found = check_search(index, &elements, &v, d, s)?;
            cx.label_if(found == index.len() && found > 1, "all elements found");
            cx.label_if(found > 1 && found == s.max_search.min(index.len()) && found < index.len(), "max_search reached");
            cx.label_if(found > 1 && found < s.max_search.min(index.len()), "unreachable elements");
            cx.label_if(found == 0, "nothing found");
            if found > 1 && links > 1 {
                cx.nontrivial = true;
            }
        }
        Ok(())
    })
}

pub fn p01() -> Property {
    Property {
        id: "P01",
        rule: "A case is an index (built, crafted as a random layered graph, or loaded; 4 element kinds; 4 storages) and a \
               few searches with generated queries, max_search and result counts. Non-trivial: some search found at least \
               two elements of an index with links.",
        level: "exploration",
        assumptions: vec!["crafted graphs reach the search code through index files written by the harness's own encoder"],
        families: vec![
            family(
                "search",
                16000,
                400_000,
                |s| {
                    let index = gen_index(s, 120, 300);
                    let n = index.data.n;
                    SearchCase { index, searches: s.list(1, 5, |s| gen_search(s, n)) }
                },
                |c: &SearchCase, cx| dispatch!(c.index.data.kind, run_search, c, cx),
            ),
            family(
                "large",
                240,
                6000,
                |s| {
                    let index = gen_index(s, 1200, 20_000);
                    let n = index.data.n;
                    SearchCase { index, searches: s.list(1, 6, |s| gen_search(s, n)) }
                },
                |c: &SearchCase, cx| dispatch!(c.index.data.kind, run_search, c, cx),
            ),
            family(
                "beyond 16 bits",
                16,
                600,
                |s| {
                    let data = gen_many(s);
                    let n = data.n;
                    let source = if s.bool() {
                        Source::Build(gen_cheap_cfg(s), None)
                    } else {
                        let cycle = s.bool();
                        Source::Graph(gen_graph(s, n, cycle))
                    };
                    SearchCase {
                        index: IndexSpec { data, source, storage: gen_storage(s) },
                        searches: s.list(2, 4, |s| Search { max_search: s.pick(&[10, 300, n / 2, 65_536, n, 1 << 40]), ..gen_search(s, n) }),
                    }
                },
                |c: &SearchCase, cx| dispatch!(c.index.data.kind, run_search, c, cx),
            ),
        ],
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize)]
struct ExactCase {
    index: IndexSpec,
    /// (query, max_search beyond the number of elements, k)
    searches: Vec<(Query, usize, usize)>,
}

fn run_exact<K: Kit>(c: &ExactCase, cx: &mut Cx) -> Res {
    let d = &c.index.data;
    let elements = K::make(d);
    with_index::<K, _>(&c.index, |index| {
        let v = view(index);
        let n = index.len();
        let connected = v.last().map_or(true, |l| strongly_connected(l));
        cx.label(format!("{:?}", d.kind));
        cx.label(format!("{} layers", v.len().min(5)));
        if !connected {
            cx.label("not strongly connected");
            return Ok(());
        }
        for (q, extra, k) in &c.searches {
            let q = make_query(d, &elements, q);
            let res = index.search(&q, n.saturating_add(*extra), *k);
            check_exact(&elements, n, &q, *k, &res)?;
            if n > 2 && *k > 0 {
                cx.nontrivial = true;
            }
        }
        Ok(())
    })
}

fn gen_exact_searches(s: &mut Src, n: usize) -> Vec<(Query, usize, usize)> {
    s.list(1, 4, |s| {
        (
            gen_query(s, n),
            s.pick(&[0, 0, 1, 100, 1 << 40]),
            match s.weighted(&[3, 1, 1]) {
                0 => s.range(1, 20),
                1 => n,
                _ => usize::MAX,
            },
        )
    })
}

#[derive(Serialize, Deserialize)]
struct CompleteCase {
    data: Data,
    cfg: Cfg,
    storage: Storage,
    searches: Vec<(Query, usize, usize)>,
}

/// No zero elements and no two elements closer than a generous multiple of what the builder takes as duplicates.
pub fn distinct<K: Kit>(elements: &K, min: f64) -> bool {
    let n = elements.len();
    (0..n).all(|i| {
        let e = elements.get(i);
        let selfd = elements.dist_to_element(i, &e).into_inner() as f64;
        selfd < 1e-6 && (0..i).all(|j| K::ref_dist(&elements.get(j), &e) > min)
    })
}

fn run_complete<K: Kit>(c: &CompleteCase, cx: &mut Cx) -> Res {
    let elements = K::make(&c.data);
    let n = c.data.n;
    if !distinct(&elements, 1e-4) {
        cx.label("not distinct");
        return Ok(());
    }
    let mut b = GranneBuilder::new(c.cfg.build_config(), elements.clone());
    b.build();
    let v = view(&b);
    cx.label(format!("{:?}", c.data.kind));
    ensure!(n == 0 || v.len() == 1, "{} layers for {} elements", v.len(), n);
    for (i, ns) in v.iter().flatten().enumerate() {
        let mut ns = ns.clone();
        ns.sort_unstable();
        let want: Vec<usize> = (0..n).filter(|&j| j != i).collect();
        ensure!(ns == want, "element {} is linked to {:?}, not to all {} others", i, ns, n - 1);
    }
    let bytes = write_index(&b)?;
    let check = |index: &Granne<'_, &K>| -> Res {
        for (q, extra, k) in &c.searches {
            let q = make_query(&c.data, &elements, q);
            let res = index.search(&q, n + extra, *k);
            check_exact(&elements, n, &q, *k, &res)?;
        }
        Ok(())
    };
    match c.storage {
        Storage::Owned | Storage::Builder => check(&b.get_index())?,
        Storage::Bytes(off) => {
            let a = Aligned::new(&bytes, off);
            check(&Granne::from_bytes(a.get(), &elements))?
        }
        Storage::File => {
            let f = temp_file("index.bin", &bytes);
            check(&unsafe { Granne::from_file(&f, &elements) }.map_err(|e| e.to_string())?)?
        }
    }
    cx.nontrivial = n > 2;
    Ok(())
}

pub fn p02() -> Property {
    Property {
        id: "P02",
        rule: "A case is an index whose bottom layer is strongly connected (crafted random layered graphs with a hidden cycle, \
               built indexes found to be strongly connected) or a single-layer build with room for all neighbors, and a few \
               searches with max_search >= number of elements. Non-trivial: at least three elements and a non-empty result.",
        level: "exploration",
        assumptions: vec!["the choice between elements at exactly equal distances is free"],
        families: vec![
            family(
                "large connected graph",
                160,
                6000,
                |s| {
                    let mut data = gen_data(s, 20);
                    data.n = s.size(300, 20_000);
                    let n = data.n;
                    let g = gen_graph(s, n, true);
                    ExactCase {
                        index: IndexSpec { data, source: Source::Graph(g), storage: gen_storage(s) },
                        searches: gen_exact_searches(s, n),
                    }
                },
                |c: &ExactCase, cx| dispatch!(c.index.data.kind, run_exact, c, cx),
            ),
            family(
                "beyond 16 bits",
                16,
                400,
                |s| {
                    let data = gen_many(s);
                    let n = data.n;
                    let g = gen_graph(s, n, true);
                    ExactCase {
                        index: IndexSpec { data, source: Source::Graph(g), storage: gen_storage(s) },
                        searches: gen_exact_searches(s, n),
                    }
                },
                |c: &ExactCase, cx| dispatch!(c.index.data.kind, run_exact, c, cx),
            ),
            family(
                "connected graph",
                9000,
                200_000,
                |s| {
                    let mut data = gen_data(s, 300);
                    data.n = data.n.max(1);
                    let n = data.n;
                    let g = gen_graph(s, n, true);
                    ExactCase {
                        index: IndexSpec { data, source: Source::Graph(g), storage: gen_storage(s) },
                        searches: gen_exact_searches(s, n),
                    }
                },
                |c: &ExactCase, cx| dispatch!(c.index.data.kind, run_exact, c, cx),
            ),
            family(
                "built index",
                3000,
                80_000,
                |s| {
                    let kind = s.pick(&KINDS);
                    let n = s.size(2, 400);
                    let data = gen_general(s, kind, n);
                    let mut cfg = gen_cfg(s);
                    cfg.num_neighbors = cfg.num_neighbors.max(6);
                    cfg.max_search = cfg.max_search.max(20);
                    ExactCase {
                        index: IndexSpec { data, source: Source::Build(cfg, None), storage: gen_storage(s) },
                        searches: gen_exact_searches(s, n),
                    }
                },
                |c: &ExactCase, cx| dispatch!(c.index.data.kind, run_exact, c, cx),
            ),
            family(
                "complete build",
                4000,
                100_000,
                |s| {
                    let kind = s.pick(&KINDS);
                    let n = s.size(0, 60);
                    let mut data = gen_general(s, kind, n);
                    if s.chance(1, 4) {
                        data.dim = s.range(2, 3);
                    }
                    let mut cfg = gen_cfg(s);
                    cfg.num_neighbors = n.saturating_sub(1).max(1) + s.pick(&[0, 0, 1, 5]);
                    cfg.multiplier = (n + 2 + s.range(0, 20)) as f32;
                    cfg.max_search = 2 * n.max(1) + s.range(0, 20);
                    CompleteCase { data, cfg, storage: gen_storage(s), searches: gen_exact_searches(s, n) }
                },
                |c: &CompleteCase, cx| dispatch!(c.data.kind, run_complete, c, cx),
            ),
        ],
    }
}
