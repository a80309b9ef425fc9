//! Round trips of saved indexes (P06) and elements (P07).

use crate::data::*;
use crate::engine::*;
use crate::oracle::*;
use crate::{dispatch, ensure, fmt};
use granne::{angular, angular_int, embeddings::SumEmbeddings};
use granne::{BuildConfig, ElementContainer, Granne, GranneBuilder, Index, Writeable};
use ordered_float::NotNan;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{Cursor, Seek, SeekFrom, Write};

#[derive(Serialize, Deserialize)]
struct IndexCase {
    index: IndexSpec,
    offset: usize,
    /// bytes in the destination before the index
    prefix: usize,
    extra_limit: usize,
    searches: Vec<Search>,
}

fn diff(a: &View, b: &View) -> String {
    if a.len() != b.len() {
        return format!("{} layers instead of {}", b.len(), a.len());
    }
    for (l, (x, y)) in a.iter().zip(b).enumerate() {
        if x.len() != y.len() {
            return format!("layer {} has {} elements instead of {}", l, y.len(), x.len());
        }
        for (i, (p, q)) in x.iter().zip(y).enumerate() {
            if p != q {
                return format!("neighbors of {} in layer {}: {:?} instead of {:?}", i, l, q, p);
            }
        }
    }
    "same".into()
}

fn run_index<K: Kit>(c: &IndexCase, cx: &mut Cx) -> Res {
    let d = &c.index.data;
    let elements = K::make(d);
    cx.label(format!("{:?}", d.kind));
    with_index::<K, _>(&c.index, |index| {
        let original = sorted(&view(index));
        let bytes = write_index(index)?;
        let decoded = sorted(&to_view(&fmt::decode_index(&bytes)?));
        ensure!(decoded == original, "the file has {}", diff(&original, &decoded));

        // position in the destination
        let mut dest = Cursor::new(vec![0xA7u8; c.prefix]);
        dest.seek(SeekFrom::End(0)).unwrap();
        index.write_index(&mut dest).map_err(|e| e.to_string())?;
        let dest = dest.into_inner();
        ensure!(dest[..c.prefix].iter().all(|&b| b == 0xA7), "bytes before the start position were changed");
        ensure!(dest[c.prefix..] == bytes[..], "different bytes when writing at position {}", c.prefix);

        let path = temp_path("roundtrip.bin");
        {
            let mut f = std::fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(&path).unwrap();
            f.write_all(&vec![0x55; c.prefix]).unwrap();
            index.write_index(&mut f).map_err(|e| e.to_string())?;
        }
        let on_disk = std::fs::read(&path).unwrap();
        ensure!(on_disk[..c.prefix].iter().all(|&b| b == 0x55), "bytes before the start position in a file were changed");
        ensure!(on_disk[c.prefix..] == bytes[..], "different bytes when writing to a file at position {}", c.prefix);
        std::fs::remove_file(&path).ok();

        let queries: Vec<_> = c.searches.iter().map(|s| (make_query(d, &elements, &s.q), s)).collect();
        let expected: Vec<_> = queries.iter().map(|(q, s)| index.search(q, s.max_search, s.k)).collect();
        let check = |loaded: &Granne<'_, &K>, what: &str| -> Res {
            let v = sorted(&view(loaded));
            ensure!(v == original, "{}: {}", what, diff(&original, &v));
            ensure!(loaded.len() == index.len(), "{}: len() {} instead of {}", what, loaded.len(), index.len());
            for ((q, s), e) in queries.iter().zip(&expected) {
                let r = loaded.search(q, s.max_search, s.k);
                ensure!(same_results(&r, e), "{}: search returned {:?} instead of {:?}", what, r, e);
            }
            let again = write_index(loaded)?;
            ensure!(again == bytes, "{}: writing it again gives different bytes", what);
            Ok(())
        };
        let a = Aligned::new(&bytes, c.offset);
        check(&Granne::from_bytes(a.get(), &elements), "loaded from bytes")?;
        let f = temp_file("index.bin", &bytes);
        check(&unsafe { Granne::from_file(&f, &elements) }.map_err(|e| e.to_string())?, "mapped from a file")?;
        let longest = original.iter().flatten().map(|l| l.len()).max().unwrap_or(0);
        let cfg = BuildConfig::new().num_neighbors((longest + c.extra_limit).max(1));
        let b = GranneBuilder::from_bytes(cfg, a.get(), &elements);
        check(&Granne::from_bytes(&write_index(&b)?, &elements), "builder, written")?;
        let v = sorted(&view(&b));
        ensure!(v == original, "loaded into a builder: {}", diff(&original, &v));
        let b = GranneBuilder::from_file(cfg, &f, &elements).map_err(|e| e.to_string())?;
        ensure!(write_index(&b)? == bytes, "builder from file: writing it again gives different bytes");

        cx.nontrivial = longest > 0;
        cx.label_if(longest >= 4, "compressed lists");
        cx.label_if(longest >= 100, "long lists");
        cx.label_if(original.is_empty(), "empty index");
        cx.label_if(original.last().map_or(0, |l| l.len()) > 120, "several offset chunks");
        Ok(())
    })
}

/// A container without data, for indexes with very many elements.
#[derive(Clone)]
struct Line(usize);

impl ElementContainer for Line {
    type Element = usize;
    fn get(&self, idx: usize) -> usize {
        assert!(idx < self.0);
        idx
    }
    fn len(&self) -> usize {
        self.0
    }
    fn dist_to_element(&self, idx: usize, e: &usize) -> NotNan<f32> {
        NotNan::new(idx.abs_diff(*e) as f32).unwrap()
    }
}

#[derive(Serialize, Deserialize)]
struct WideCase {
    n: usize,
    /// node, neighbors
    nodes: Vec<(usize, Vec<u32>)>,
    offset: usize,
    width: usize,
}

fn run_wide(c: &WideCase, cx: &mut Cx) -> Res {
    let mut map: BTreeMap<usize, Vec<u32>> = BTreeMap::new();
    for (i, l) in &c.nodes {
        let mut l: Vec<u32> = l.iter().copied().filter(|&x| x as usize != *i && (x as usize) < c.n).collect();
        l.sort_unstable();
        l.dedup();
        map.insert(*i, l);
    }
    let bytes = fmt::encode_sparse(c.n, &map);
    let elements = Line(c.n);
    // decoding takes long, and is not needed for the same bytes
    let same_contents = |again: &[u8]| -> Res {
        if !fmt::same_file(again, &bytes) {
            ensure!(fmt::decode_index(again)? == fmt::decode_index(&bytes)?, "writing it gives different contents");
        }
        Ok(())
    };
    let check = |index: &Granne<'_, &Line>, what: &str| -> Res {
        ensure!(index.num_layers() == 1 && index.len() == c.n, "{}: len() {} instead of {}", what, index.len(), c.n);
        for (&i, l) in &map {
            let mut got = index.get_neighbors(i, 0);
            got.sort_unstable();
            let want: Vec<usize> = l.iter().map(|&x| x as usize).collect();
            ensure!(got == want, "{}: neighbors of {}: {:?} instead of {:?}", what, i, got, want);
            for j in [i + 1, i.wrapping_sub(1)] {
                if j < c.n && !map.contains_key(&j) {
                    ensure!(index.get_neighbors(j, 0).is_empty(), "{}: {} has neighbors", what, j);
                }
            }
        }
        same_contents(&write_index(index)?).map_err(|e| format!("{}: {}", what, e))
    };
    let a = Aligned::new(&bytes, c.offset);
    check(&Granne::from_bytes(a.get(), &elements), "loaded from bytes")?;
    let f = temp_file("wide.bin", &bytes);
    check(&unsafe { Granne::from_file(&f, &elements) }.map_err(|e| e.to_string())?, "mapped from a file")?;
    if c.n * c.width < 8_000_000 {
        let b = GranneBuilder::from_bytes(BuildConfig::new().num_neighbors(c.width), &bytes, &elements);
        same_contents(&write_index(&b)?).map_err(|e| format!("loaded into a builder: {}", e))?;
        cx.label("builder");
    }
    cx.nontrivial = map.values().any(|l| !l.is_empty());
    cx.label_if(c.n > 1 << 16, "more than 2^16 elements");
    cx.label_if(c.n > 1 << 24, "more than 2^24 elements");
    Ok(())
}

fn gen_wide(s: &mut Src, lo: usize, hi: usize) -> WideCase {
    let n = s.range(lo, hi);
    let mut width = 1;
    let nodes = s.list(1, 30, |s| {
        let i = match s.weighted(&[3, 1, 1]) {
            0 => s.range(0, n - 1),
            1 => n - 1,
            _ => (60 * s.range(0, n / 60) + s.range(0, 60)).saturating_sub(30).min(n - 1),
        };
        let len = match s.weighted(&[3, 1]) {
            0 => s.size(0, 12),
            _ => s.size(0, 254),
        };
        let base = s.range(0, n - 1);
        let step = s.pick(&[1usize, 200, 300, 65_535, 65_536, 70_000, 17_000_000]);
        let mut l: Vec<u32> = (0..len).map(|_| ((base + s.range(0, step)) % n) as u32).collect();
        if s.bool() {
            l.push((n - 1) as u32);
        }
        l.truncate(254);
        width = width.max(l.len());
        (i, l)
    });
    WideCase { n, nodes, offset: s.range(0, 7), width }
}

pub fn p06() -> Property {
    Property {
        id: "P06",
        rule: "A case is an index (built, crafted or loaded) written into memory and into a file at a generated position, \
               decoded by an independent decoder, and loaded from bytes at a generated address, a mapped file and into a \
               builder. Non-trivial: some neighbor list is not empty. The wide families use sparse graphs over 2^16 to 2^24 \
               and more elements, so that ids and offsets need all byte widths.",
        level: "exploration",
        assumptions: vec![
            "neighbor lists of at most 254 entries and metadata of at most 1018 bytes (findings F16, F17)",
            "little-endian 64-bit machine",
        ],
        families: vec![
            family(
                "round trip",
                9000,
                250_000,
                |s| {
                    let mut index = gen_index(s, 120, 400);
                    if let Source::Graph(g) = &mut index.source {
                        if s.chance(1, 6) && index.storage != Storage::Builder {
                            g.degree = s.pick(&[60, 128, 254]);
                        }
                    }
                    let n = index.data.n;
                    IndexCase {
                        index,
                        offset: s.range(0, 7),
                        prefix: s.size(0, 3000),
                        extra_limit: s.size(0, 20),
                        searches: s.list(1, 3, |s| gen_search(s, n)),
                    }
                },
                |c: &IndexCase, cx| dispatch!(c.index.data.kind, run_index, c, cx),
            ),
            family(
                "exact sizes",
                600,
                10_000,
                |s| {
                    // sizes around the number of offsets per chunk
                    let n = 60 * s.range(0, 4) + s.range(0, 2);
                    let n = n.saturating_sub(1);
                    let kind = s.pick(&KINDS);
                    let data = gen_data_n(s, kind, n);
                    let mut g = gen_graph(s, n, false);
                    if n > 0 {
                        let extra = s.list(0, 3, |s| (60 * s.range(0, 3) + s.range(0, 2)).saturating_sub(1).clamp(1, n));
                        g.layers = extra;
                        g.layers.push(n);
                        g.layers.sort_unstable();
                    }
                    IndexCase {
                        index: IndexSpec { data, source: Source::Graph(g), storage: gen_storage(s) },
                        offset: s.range(0, 7),
                        prefix: s.size(0, 3000),
                        extra_limit: s.size(0, 20),
                        searches: s.list(1, 3, |s| gen_search(s, n)),
                    }
                },
                |c: &IndexCase, cx| dispatch!(c.index.data.kind, run_index, c, cx),
            ),
            family("wide", 80, 2000, |s| gen_wide(s, 60_000, 300_000), run_wide),
            family("very wide", 3, 40, |s| gen_wide(s, 1 << 24, 17_500_000), run_wide).workers(3),
        ],
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize)]
struct VecCase {
    /// raw bits (f32) or bytes (i8)
    dim: usize,
    n: usize,
    wild: bool,
    seed: u64,
    storage: usize,
    offset: usize,
}

fn raw_f32(c: &VecCase) -> Vec<f32> {
    let mut rng = Rng(c.seed);
    (0..c.n * c.dim)
        .map(|_| if c.wild { f32::from_bits(rng.u64() as u32) } else { (rng.unit() - 0.5) as f32 })
        .collect()
}

fn raw_i8(c: &VecCase) -> Vec<i8> {
    let mut rng = Rng(c.seed);
    (0..c.n * c.dim).map(|_| rng.u64() as i8).collect()
}

fn gen_vec_case(s: &mut Src) -> VecCase {
    VecCase {
        dim: s.num(1, 150),
        n: if s.chance(1, 10) { 0 } else { s.num(1, 80) },
        wild: s.bool(),
        seed: s.seed(),
        storage: s.range(0, 5),
        offset: s.range(0, 7),
    }
}

/// A destination that accepts at most a few bytes at a time.
pub struct Trickle(pub Vec<u8>, pub usize);

impl Write for Trickle {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1.max(1));
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

macro_rules! vec_roundtrip {
    ($name:ident, $m:ident, $scalar:ty, $raw:ident, $bits:expr) => {
        fn $name(c: &VecCase, cx: &mut Cx) -> Res {
            let raw: Vec<$scalar> = $raw(c);
            let width = std::mem::size_of::<$scalar>();
            let mut dim = c.dim;
            // the file as the format documents it
            let mut file = (dim as u64).to_le_bytes().to_vec();
            for x in &raw {
                file.extend_from_slice(&x.to_le_bytes());
            }
            let a = Aligned::new(&file, c.offset);
            let f = temp_file("vectors.bin", &file);
            let collection: $m::Vectors = match c.storage {
                0 => $m::Vectors::from_vec(raw.clone(), c.dim),
                1 => $m::Vectors::from_slice(&raw, c.dim),
                2 => {
                    let mut v = $m::Vectors::new();
                    for r in raw.chunks(c.dim) {
                        v.push(&$m::Vector(r.to_vec().into()));
                    }
                    if c.n == 0 {
                        dim = 0;
                    }
                    v
                }
                3 => $m::Vectors::from_bytes(a.get()),
                4 => unsafe { $m::Vectors::from_file(&f) }.map_err(|e| e.to_string())?,
                _ => $m::Vectors::from_bytes(a.get()).into_owned(),
            };
            cx.label(format!("storage {}", c.storage));
            let check = |v: &$m::Vectors, what: &str| -> Res {
                ensure!(v.len() == c.n, "{}: {} vectors instead of {}", what, v.len(), c.n);
                ensure!(v.dim() == dim, "{}: dimension {} instead of {}", what, v.dim(), dim);
                for i in 0..c.n {
                    let e = v.get_element(i);
                    let want = &raw[i * c.dim..(i + 1) * c.dim];
                    ensure!(
                        e.as_slice().len() == c.dim && e.as_slice().iter().zip(want).all(|(x, y)| $bits(*x) == $bits(*y)),
                        "{}: vector {} is {:?} instead of {:?}",
                        what,
                        i,
                        e.as_slice(),
                        want
                    );
                }
                ensure!(v.as_slice().len() == raw.len(), "{}: {} scalars", what, v.as_slice().len());
                Ok(())
            };
            check(&collection, "original")?;
            let mut bytes = Vec::new();
            let n = collection.write(&mut bytes).map_err(|e| e.to_string())?;
            ensure!(n == bytes.len(), "write reported {} bytes, wrote {}", n, bytes.len());
            if c.n > 0 || dim > 0 {
                ensure!(bytes == file, "the written bytes are not the expected format");
            }
            ensure!(bytes.len() == 8 + raw.len() * width, "{} bytes for {} scalars", bytes.len(), raw.len());
            let mut t = Trickle(vec![], 1 + c.offset * 3);
            let n = collection.write(&mut t).map_err(|e| e.to_string())?;
            ensure!(n == bytes.len() && t.0 == bytes, "different bytes with short writes");
            let b = Aligned::new(&bytes, (c.offset * 3 + 1) % 8);
            let loaded = $m::Vectors::from_bytes(b.get());
            check(&loaded, "loaded from bytes")?;
            let g = temp_file("vectors2.bin", &bytes);
            let mapped = unsafe { $m::Vectors::from_file(&g) }.map_err(|e| e.to_string())?;
            check(&mapped, "mapped from a file")?;
            for (v, what) in [(&loaded, "loaded"), (&mapped, "mapped")] {
                let mut again = Vec::new();
                v.write(&mut again).map_err(|e| e.to_string())?;
                ensure!(again == bytes, "{}: writing it again gives different bytes", what);
                check(&v.clone(), "clone")?;
                check(&v.borrow(), "borrow")?;
            }
            check(&mapped.into_owned(), "into_owned")?;
            cx.nontrivial = c.n > 1;
            cx.label_if(c.n == 0, "empty");
            Ok(())
        }
    };
}

vec_roundtrip!(run_vec_f32, angular, f32, raw_f32, |x: f32| x.to_bits());
vec_roundtrip!(run_vec_i8, angular_int, i8, raw_i8, |x: i8| x);

#[derive(Serialize, Deserialize)]
struct SumCase {
    table: VecCase,
    lists: Vec<Vec<usize>>,
    offset: usize,
}

fn run_sum(c: &SumCase, cx: &mut Cx) -> Res {
    let raw = raw_f32(&c.table);
    let rows: Vec<&[f32]> = raw.chunks(c.table.dim.max(1)).collect();
    let mut e = SumEmbeddings::new();
    for r in &rows {
        e.push_embedding(r);
    }
    for l in &c.lists {
        e.push(l);
    }
    let check = |e: &SumEmbeddings, what: &str| -> Res {
        ensure!(e.len() == c.lists.len(), "{}: {} elements instead of {}", what, e.len(), c.lists.len());
        ensure!(e.num_embeddings() == rows.len(), "{}: {} embeddings instead of {}", what, e.num_embeddings(), rows.len());
        for (i, l) in c.lists.iter().enumerate() {
            ensure!(e.get_terms(i) == *l, "{}: element {} is {:?} instead of {:?}", what, i, e.get_terms(i), l);
        }
        for (i, r) in rows.iter().enumerate() {
            let x = e.create_embedding(&[i]);
            ensure!(x.len() == r.len() && x.iter().zip(*r).all(|(a, b)| a.to_bits() == b.to_bits()), "{}: embedding {} differs", what, i);
        }
        Ok(())
    };
    check(&e, "original")?;
    let mut elements = Vec::new();
    let n = e.write(&mut elements).map_err(|e| e.to_string())?;
    ensure!(n == elements.len(), "write reported {} bytes, wrote {}", n, elements.len());
    ensure!(elements == fmt::encode_lists(&c.lists), "the written elements are not the expected format");
    let mut table = Vec::new();
    let n = e.write_embeddings(&mut table).map_err(|e| e.to_string())?;
    ensure!(n == table.len(), "write_embeddings reported {} bytes, wrote {}", n, table.len());
    let (dim, scalars) = fmt::decode_f32(&table)?;
    ensure!(dim == if rows.is_empty() { 0 } else { c.table.dim }, "dimension {}", dim);
    ensure!(scalars.iter().zip(&raw).all(|(a, b)| a.to_bits() == b.to_bits()) && scalars.len() == raw.len(), "embeddings differ in the file");
    let mut t = Trickle(vec![], 1 + c.offset * 5);
    let n = e.write(&mut t).map_err(|e| e.to_string())?;
    ensure!(n == elements.len() && t.0 == elements, "different bytes with short writes");

    let tf = temp_file("table.bin", &table);
    let ef = temp_file("elements.bin", &elements);
    let loaded = unsafe { SumEmbeddings::from_files(&tf, Some(&ef)) }.map_err(|e| e.to_string())?;
    check(&loaded, "mapped")?;
    check(&loaded.clone(), "mapped, cloned")?;
    check(&loaded.borrow(), "mapped, borrowed")?;
    for (x, what) in [(&loaded, "mapped"), (&loaded.clone(), "clone"), (&loaded.borrow(), "borrow")] {
        let mut again = Vec::new();
        x.write(&mut again).map_err(|e| e.to_string())?;
        ensure!(again == elements, "{}: writing the elements again gives different bytes", what);
        let mut again = Vec::new();
        x.write_embeddings(&mut again).map_err(|e| e.to_string())?;
        ensure!(again == table, "{}: writing the embeddings again gives different bytes", what);
    }
    let only = unsafe { SumEmbeddings::from_files(&tf, None) }.map_err(|e| e.to_string())?;
    ensure!(only.len() == 0 && only.num_embeddings() == rows.len(), "without elements: {} elements", only.len());
    cx.nontrivial = c.lists.len() > 1 && c.lists.iter().any(|l| l.len() > 1);
    cx.label_if(c.lists.is_empty(), "no elements");
    cx.label_if(rows.is_empty(), "no embeddings");
    Ok(())
}

pub fn gen_ids(s: &mut Src) -> Vec<usize> {
    s.list(0, 12, |s| match s.weighted(&[4, 1, 1]) {
        0 => s.range(0, 300),
        1 => s.range(0, (1 << 24) - 1),
        _ => s.pick(&[0, 255, 256, 65_535, 65_536, (1 << 24) - 1]),
    })
}

pub fn p07() -> Property {
    Property {
        id: "P07",
        rule: "A case is a collection of float vectors (including arbitrary bit patterns), quantized vectors or id lists with \
               their embedding table, held in each kind of storage, written (also through a destination accepting few bytes \
               at a time), compared with an independent encoding, loaded from bytes at a generated address and from a \
               mapped file, and written again. Non-trivial: at least two elements (and a list of two ids).",
        level: "exploration",
        assumptions: vec!["little-endian 64-bit machine"],
        families: vec![
            family("float vectors", 6000, 150_000, gen_vec_case, run_vec_f32),
            family("quantized vectors", 6000, 150_000, gen_vec_case, run_vec_i8),
            family(
                "sum embeddings",
                6000,
                150_000,
                |s| SumCase {
                    table: {
                        let mut t = gen_vec_case(s);
                        t.wild &= s.bool();
                        t
                    },
                    lists: s.list(0, 60, gen_ids),
                    offset: s.range(0, 7),
                },
                run_sum,
            ),
        ],
    }
}
