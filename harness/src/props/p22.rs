//! Searching without side effects, from many threads (P22).

use super::p16::{set_jitter, Jitter};
use crate::data::*;
use crate::engine::*;
use crate::oracle::*;
use crate::{dispatch, ensure};
use granne::{ElementContainer, Granne, GranneBuilder, Index, RwGranneBuilder, Writeable};
use serde::{Deserialize, Serialize};
use std::sync::Barrier;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Search(Search),
    Neighbors(usize, usize),
    Sizes,
    Element(usize),
    Save,
}

#[derive(Serialize, Deserialize)]
struct Case {
    spec: IndexSpec,
    ops: Vec<Op>,
    threads: usize,
    jitter: usize,
    offset: usize,
    order: u64,
    rayon: bool,
    limit: usize,
}

fn gen_case(s: &mut Src, max: usize) -> Case {
    let spec = gen_index(s, max, 2 * max);
    let n = spec.data.n;
    Case {
        ops: s.list(2, 30, |s| match s.weighted(&[10, 2, 1, 2, 1]) {
            0 => Op::Search(gen_search(s, n)),
            1 => Op::Neighbors(s.range(0, 1000), s.range(0, 10)),
            2 => Op::Sizes,
            3 => Op::Element(s.range(0, 1000)),
            _ => Op::Save,
        }),
        threads: s.range(2, 8),
        jitter: s.weighted(&[3, 2, 2, 1]),
        offset: s.range(0, 7),
        order: s.seed(),
        rayon: s.chance(1, 3),
        limit: 128,
        spec,
    }
}

#[derive(Clone)]
enum Answer<E> {
    Found(Vec<(usize, f32)>),
    Neighbors(Vec<usize>),
    Sizes(usize, Vec<usize>),
    Element(E),
    Saved(Vec<u8>, Vec<u8>),
    Nothing,
}

fn same<K: Kit>(a: &Answer<K::El>, b: &Answer<K::El>) -> bool {
    match (a, b) {
        (Answer::Found(a), Answer::Found(b)) => same_results(a, b),
        (Answer::Neighbors(a), Answer::Neighbors(b)) => a == b,
        (Answer::Sizes(n, a), Answer::Sizes(m, b)) => n == m && a == b,
        (Answer::Element(a), Answer::Element(b)) => K::same(a, b),
        (Answer::Saved(a, x), Answer::Saved(b, y)) => a == b && x == y,
        (Answer::Nothing, Answer::Nothing) => true,
        _ => false,
    }
}

trait Inner<K> {
    fn inner(&self) -> &K;
}

impl<K: Kit> Inner<K> for K {
    fn inner(&self) -> &K {
        self
    }
}

impl<K: Kit> Inner<K> for Jitter<K> {
    fn inner(&self) -> &K {
        &self.0
    }
}

impl<'a, K: Kit> Inner<K> for &'a Jitter<K> {
    fn inner(&self) -> &K {
        &self.0
    }
}

trait Readable<K: Kit>: Sync {
    fn answer(&self, op: &Op, queries: &[K::El]) -> Result<Answer<K::El>, String>;
}

impl<'a, K: Kit, E> Readable<K> for Granne<'a, E>
where
    E: ElementContainer<Element = K::El> + Inner<K> + Sync,
{
    fn answer(&self, op: &Op, queries: &[K::El]) -> Result<Answer<K::El>, String> {
        Ok(match op {
            Op::Search(s) => Answer::Found(self.search(&queries[0], s.max_search, s.k)),
            Op::Neighbors(i, l) => {
                let layers = self.num_layers();
                if layers == 0 || self.layer_len(l % layers) == 0 {
                    return Ok(Answer::Nothing);
                }
                let l = l % layers;
                let mut ns = self.get_neighbors(i % self.layer_len(l), l);
                ns.sort_unstable();
                Answer::Neighbors(ns)
            }
            Op::Sizes => Answer::Sizes(self.len(), sizes(self)),
            Op::Element(i) => {
                let n = self.get_elements().len();
                if n == 0 {
                    return Ok(Answer::Nothing);
                }
                Answer::Element(self.get_element(i % n))
            }
            Op::Save => {
                let mut e = vec![];
                self.get_elements().inner().write(&mut e).map_err(|e| e.to_string())?;
                Answer::Saved(write_index(self)?, e)
            }
        })
    }
}

fn compare<K: Kit>(want: &[Answer<K::El>], got: &[Answer<K::El>], c: &Case, what: &str) -> Res {
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        if same::<K>(w, g) {
            continue;
        }
        if let (Answer::Found(a), Answer::Found(b)) = (w, g) {
            return Err(format!("{}: {:?} gives {:?} instead of {:?}", what, c.ops[i], b, a));
        }
        return Err(format!("{}: {:?} has another answer", what, c.ops[i]));
    }
    Ok(())
}

fn all<K: Kit>(r: &dyn Readable<K>, c: &Case, queries: &[K::El], order: &[usize]) -> Result<Vec<Answer<K::El>>, String> {
    let mut out = vec![Answer::Nothing; c.ops.len()];
    for &i in order {
        out[i] = r.answer(&c.ops[i], &queries[i..])?;
    }
    Ok(out)
}

/// Repeats everything in other orders and from several threads.
fn check<K: Kit>(r: &dyn Readable<K>, c: &Case, queries: &[K::El], want: &[Answer<K::El>], what: &str) -> Res {
    let n = c.ops.len();
    let mut rng = Rng(c.order);
    let shuffled = |rng: &mut Rng| {
        let mut o: Vec<usize> = (0..n).collect();
        rng.shuffle(&mut o);
        o
    };
    compare::<K>(want, &all(r, c, queries, &(0..n).collect::<Vec<_>>())?, c, what)?;
    compare::<K>(want, &all(r, c, queries, &shuffled(&mut rng))?, c, &format!("{}, in another order", what))?;
    let orders: Vec<Vec<usize>> = (0..c.threads).map(|_| shuffled(&mut rng)).collect();
    set_jitter(c.jitter);
    let answers: Vec<Result<Vec<Answer<K::El>>, String>> = if c.rayon {
        use rayon::prelude::*;
        super::p17::in_pool(c.threads, || orders.par_iter().with_max_len(1).map(|o| all(r, c, queries, o)).collect())
    } else {
        let barrier = Barrier::new(c.threads);
        std::thread::scope(|s| {
            let hs: Vec<_> = orders
                .iter()
                .map(|o| {
                    let barrier = &barrier;
                    s.spawn(move || {
                        barrier.wait();
                        no_panic(|| all(r, c, queries, o)).and_then(|r| r)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic in a thread".into()))).collect()
        })
    };
    set_jitter(0);
    for (t, a) in answers.into_iter().enumerate() {
        compare::<K>(want, &a?, c, &format!("{}, thread {} of {}", what, t, c.threads))?;
    }
    compare::<K>(want, &all(r, c, queries, &(0..n).collect::<Vec<_>>())?, c, &format!("{}, afterwards", what))
}

fn run<K: Kit>(c: &Case, cx: &mut Cx) -> Res {
    let d = &c.spec.data;
    set_jitter(0);
    let r = with_index::<K, ()>(&c.spec, |index| {
        let elements = index.get_elements().clone();
        let queries: Vec<K::El> = c
            .ops
            .iter()
            .map(|o| match o {
                Op::Search(s) => make_query(d, &elements, &s.q),
                _ => K::zero(d),
            })
            .collect();
        let n = c.ops.len();
        let want = all::<K>(index, c, &queries, &(0..n).collect::<Vec<_>>())?;
        check::<K>(index, c, &queries, &want, "this index")?;

        // the same graph in other storage (saving may encode the same graph differently, so compare files separately)
        let bytes = write_index(index)?;
        let e = Jitter(elements);
        let a = Aligned::new(&bytes, c.offset);
        let loaded = Granne::from_bytes(a.get(), &e);
        let mut base = want.clone();
        let mut normal = vec![];
        e.write(&mut normal).map_err(|e| e.to_string())?;
        for w in base.iter_mut() {
            if let Answer::Saved(_, els) = w {
                ensure!(*els == normal, "the elements are written differently");
                *w = Answer::Saved(bytes.clone(), normal.clone());
            }
        }
        check::<K>(&loaded, c, &queries, &base, "loaded from bytes")?;
        let owned = loaded.to_owned();
        check::<K>(&owned, c, &queries, &base, "owned copy")?;
        let file = temp_file("p22.bin", &bytes);
        let mapped = unsafe { Granne::from_file(&file, &e) }.map_err(|e| e.to_string())?;
        check::<K>(&mapped, c, &queries, &base, "mapped file")?;
        let owned_from_file = mapped.to_owned();
        compare::<K>(&base, &all::<K>(&owned_from_file, c, &queries, &(0..n).collect::<Vec<_>>())?, c, "owned copy of the mapped file")?;
        ensure!(a.get() == &bytes[..], "the bytes of the index changed");

        // the same graph in builders (not bitwise the same file: lists of neighbors are sorted when saved)
        let b = GranneBuilder::from_bytes(granne::BuildConfig::new().num_neighbors(c.limit), &bytes, e.clone());
        let before = view(&b);
        check::<K>(&b.get_index(), c, &queries, &base, "builder")?;
        ensure!(view(&b) == before, "searching changed the graph");
        let full = index.len() == e.len() && index.len() > 0;
        if full {
            // no further element will be added: the layers stay as they are
            let len = index.len();
            let cfg = granne::BuildConfig::new().num_neighbors(c.limit).layer_multiplier(1e9).expected_num_elements(len);
            let rw = RwGranneBuilder::new(GranneBuilder::from_bytes(cfg, &bytes, e.clone()), len, 2);
            rw_readers::<K>(c, &rw, &queries, &base)?;
        }
        let found = want.iter().filter(|w| matches!(w, Answer::Found(r) if !r.is_empty())).count();
        cx.label(format!("{:?}", d.kind));
        cx.label(format!("{:?}", std::mem::discriminant(&c.spec.storage)).replace("Discriminant", "storage "));
        cx.label_if(full, "concurrent builder");
        cx.label_if(index.num_layers() > 2, "several layers");
        cx.nontrivial = found > 1;
        Ok(())
    });
    set_jitter(0);
    r
}

fn rw_readers<K: Kit>(c: &Case, rw: &RwGranneBuilder<Jitter<K>>, queries: &[K::El], base: &[Answer<K::El>]) -> Res {
    struct Rw<'a, K: Kit>(&'a RwGranneBuilder<Jitter<K>>);
    impl<'a, K: Kit> Readable<K> for Rw<'a, K> {
        fn answer(&self, op: &Op, queries: &[K::El]) -> Result<Answer<K::El>, String> {
            Ok(match op {
                Op::Search(s) => Answer::Found(self.0.search(&queries[0], s.max_search, s.k)),
                Op::Element(i) => Answer::Element(self.0.get_element(i % self.0.len())),
                Op::Save => {
                    let mut index = std::io::Cursor::new(vec![]);
                    let mut e = vec![];
                    self.0.write(&mut index, &mut e).map_err(|e| e.to_string())?;
                    Answer::Saved(index.into_inner(), e)
                }
                _ => Answer::Nothing,
            })
        }
    }
    let r = Rw(rw);
    let n = c.ops.len();
    let want = all::<K>(&r, c, queries, &(0..n).collect::<Vec<_>>())?;
    let base: Vec<Answer<K::El>> = base
        .iter()
        .zip(&want)
        .map(|(b, w)| if matches!(b, Answer::Neighbors(_) | Answer::Sizes(..) | Answer::Nothing) { w.clone() } else { b.clone() })
        .collect();
    compare::<K>(&base, &want, c, "concurrent builder, alone")?;
    check::<K>(&r, c, queries, &want, "concurrent builder")
}

fn run_any(c: &Case, cx: &mut Cx) -> Res {
    dispatch!(c.spec.data.kind, run, c, cx)
}

pub fn p22() -> Property {
    Property {
        id: "P22",
        rule: "A case is an index (built or hand-made graph, in memory, loaded, mapped, in a builder) and a list of searches and reads, \
               asked sequentially twice, in other orders, from 2 to 8 threads at once with random delays, and again, of the index \
               and of copies in other storage. Non-trivial: at least two searches have results.",
        level: "exploration",
        assumptions: vec!["interleavings are those the scheduler produces with the random delays"],
        families: vec![
            family("readers", 10_000, 300_000, |s| gen_case(s, 80), run_any).workers(4),
            family("readers, larger", 1_000, 30_000, |s| gen_case(s, 500), run_any).workers(4),
        ],
    }
}
