//! Damaged files (P19).

use crate::data::*;
use crate::engine::*;
use crate::oracle::*;
use crate::{dispatch, ensure, fmt};
use granne::embeddings::SumEmbeddings;
use granne::{angular, angular_int, Builder, ElementContainer, Granne, GranneBuilder, Index, Permutable, Writeable};
use serde::{Deserialize, Serialize};
use serde_json::Value;

/// Bytes next to a page that cannot be accessed.
pub struct Guarded {
    base: *mut u8,
    total: usize,
    start: usize,
    len: usize,
}

impl Guarded {
    /// `at_end`: the bytes end at the inaccessible page (except for `slack` bytes), otherwise they begin after one.
    pub fn new(bytes: &[u8], at_end: bool, slack: usize) -> Self {
        const PAGE: usize = 4096;
        let inner = (bytes.len() + slack + PAGE - 1) / PAGE * PAGE;
        let total = inner + 2 * PAGE;
        unsafe {
            let base = libc::mmap(
                std::ptr::null_mut(),
                total,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            ) as *mut u8;
            assert!(base as isize != -1, "HARNESS: mmap");
            // recognizable content around the bytes
            std::ptr::write_bytes(base.add(PAGE), 0xA5, inner);
            let start = if at_end { PAGE + inner - bytes.len() - slack } else { PAGE + slack };
            std::ptr::copy_nonoverlapping(bytes.as_ptr(), base.add(start), bytes.len());
            assert_eq!(libc::mprotect(base as *mut _, PAGE, libc::PROT_NONE), 0, "HARNESS: mprotect");
            assert_eq!(libc::mprotect(base.add(PAGE + inner) as *mut _, PAGE, libc::PROT_NONE), 0, "HARNESS: mprotect");
            // read only
            if inner > 0 {
                assert_eq!(libc::mprotect(base.add(PAGE) as *mut _, inner, libc::PROT_READ), 0, "HARNESS: mprotect");
            }
            Guarded { base, total, start, len: bytes.len() }
        }
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.base.add(self.start), self.len) }
    }
}

impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base as *mut _, self.total);
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Damage {
    /// keep this many thousandths
    Cut(usize),
    /// remove this many bytes at the end
    CutEnd(usize),
    /// keep this many bytes
    Keep(usize),
    Flip(usize, u8),
    /// anywhere in the first bytes of a layer
    FlipOffsets(usize, usize, u8),
    Fill(usize, usize, u8),
    Noise(usize, usize, u64),
    /// an eight byte number somewhere near the start of a layer
    Number(usize, usize, u64),
    Remove(usize, usize),
    Insert(usize, usize, u64),
    Json(usize, usize, u64),
    Magic(usize, u8),
    /// replace everything behind the header
    Body(usize, u64),
    Everything(usize, u64),
}

const NUMBERS: [u64; 12] = [
    0,
    1,
    8,
    127,
    128,
    129,
    1 << 31,
    1 << 32,
    1 << 40,
    i64::MAX as u64,
    u64::MAX,
    u64::MAX - 7,
];

fn gen_damage(s: &mut Src) -> Damage {
    match s.weighted(&[2, 3, 2, 4, 4, 1, 2, 4, 2, 2, 4, 1, 1, 1]) {
        0 => Damage::Cut(s.range(0, 999)),
        1 => Damage::CutEnd(s.range(1, 300)),
        2 => Damage::Keep(s.range(0, 1100)),
        3 => Damage::Flip(s.range(0, 99_999), s.range(1, 255) as u8),
        4 => Damage::FlipOffsets(s.range(0, 10), s.range(0, 400), s.range(1, 255) as u8),
        5 => Damage::Fill(s.range(0, 99_999), s.range(1, 300), s.pick(&[0, 255, 1, 127, 128])),
        6 => Damage::Noise(s.range(0, 99_999), s.range(1, 300), s.seed()),
        7 => Damage::Number(s.range(0, 10), s.range(0, 3), if s.bool() { s.pick(&NUMBERS) } else { s.range(0, 100_000) as u64 }),
        8 => Damage::Remove(s.range(0, 99_999), s.range(1, 200)),
        9 => Damage::Insert(s.range(0, 99_999), s.range(1, 200), s.seed()),
        10 => Damage::Json(s.range(0, 7), s.range(0, 11), s.seed()),
        11 => Damage::Magic(s.range(0, 5), s.range(1, 255) as u8),
        12 => Damage::Body(s.range(0, 4000), s.seed()),
        _ => Damage::Everything(s.range(0, 3000), s.seed()),
    }
}

/// Starts of the layers.
fn starts(b: &[u8]) -> Vec<usize> {
    let mut out = vec![fmt::HEADER];
    if let Ok(m) = fmt::decode_header(b) {
        if let Ok(sizes) = serde_json::from_value::<Vec<usize>>(m["layer_sizes"].clone()) {
            for s in sizes {
                out.push(out.last().unwrap().saturating_add(s));
            }
            out.pop();
        }
    }
    out
}

fn noise(rng: &mut Rng) -> u8 {
    match rng.below(4) {
        0 => 0,
        1 => 255,
        2 => rng.below(16) as u8,
        _ => rng.below(256) as u8,
    }
}

fn damage(b: &mut Vec<u8>, d: &Damage) {
    let at = |p: usize, len: usize| p * len / 100_000;
    match d {
        Damage::Cut(k) => b.truncate(b.len() * k / 1000),
        Damage::CutEnd(k) => b.truncate(b.len().saturating_sub(*k)),
        Damage::Keep(k) => b.truncate(*k),
        Damage::Flip(p, x) => {
            let p = at(*p, b.len());
            if p < b.len() {
                b[p] ^= x;
            }
        }
        Damage::FlipOffsets(l, p, x) => {
            let s = starts(b);
            let p = s.get(l % s.len().max(1)).copied().unwrap_or(fmt::HEADER).saturating_add(*p);
            if p < b.len() {
                b[p] ^= x;
            }
        }
        Damage::Fill(p, n, x) => {
            let p = at(*p, b.len());
            let e = (p + n).min(b.len());
            b[p..e].fill(*x);
        }
        Damage::Noise(p, n, seed) => {
            let p = at(*p, b.len());
            let e = (p + n).min(b.len());
            let mut rng = Rng(*seed);
            b[p..e].iter_mut().for_each(|x| *x = noise(&mut rng));
        }
        Damage::Number(l, k, x) => {
            let s = starts(b);
            let p = s.get(l % s.len().max(1)).copied().unwrap_or(fmt::HEADER).saturating_add(8 * k);
            if p.saturating_add(8) <= b.len() {
                b[p..p + 8].copy_from_slice(&x.to_le_bytes());
            }
        }
        Damage::Remove(p, n) => {
            let p = at(*p, b.len());
            let e = (p + n).min(b.len());
            b.drain(p..e);
        }
        Damage::Insert(p, n, seed) => {
            let p = at(*p, b.len());
            let mut rng = Rng(*seed);
            let tail = b.split_off(p);
            b.extend((0..*n).map(|_| noise(&mut rng)));
            b.extend(tail);
        }
        Damage::Json(key, how, seed) => {
            if let Ok(mut m) = fmt::decode_header(b) {
                edit(&mut m, *key, *how, *seed);
                let mut h = b"granne".to_vec();
                h.extend(m.to_string().into_bytes());
                if *how == 11 {
                    // cut off within the text
                    let keep = 7 + (*seed as usize) % (h.len() - 8);
                    h.truncate(keep);
                }
                h.resize(fmt::HEADER, b' ');
                b[..fmt::HEADER].copy_from_slice(&h);
            }
        }
        Damage::Magic(p, x) => {
            if *p < b.len() {
                b[*p] ^= x;
            }
        }
        Damage::Body(n, seed) => {
            b.truncate(fmt::HEADER);
            let mut rng = Rng(*seed);
            b.extend((0..*n).map(|_| noise(&mut rng)));
        }
        Damage::Everything(n, seed) => {
            let mut rng = Rng(*seed);
            let keep = if rng.below(2) == 0 { 6 } else { 0 };
            b.truncate(keep);
            b.extend((0..*n).map(|_| noise(&mut rng)));
        }
    }
}

fn edit(m: &mut Value, key: usize, how: usize, seed: u64) {
    let keys = ["num_layers", "layer_counts", "layer_sizes", "num_elements", "num_neighbors", "version", "compressed", "granne_version"];
    let key = keys[key];
    let r = seed as usize;
    let old = m[key].clone();
    let new = match how {
        0 => {
            m.as_object_mut().unwrap().remove(key);
            return;
        }
        1 => Value::Null,
        2 => Value::from("x"),
        3 => Value::from(-1),
        4 => Value::from(1.5),
        _ => match old {
            Value::Array(mut a) => {
                match how {
                    5 => {
                        a.pop();
                    }
                    6 => a.push(Value::from(r % 500)),
                    7 => a.push(Value::from("1")),
                    8 if !a.is_empty() => {
                        let i = r % a.len();
                        a[i] = Value::from(NUMBERS[(r / 7) % NUMBERS.len()]);
                    }
                    9 if !a.is_empty() => {
                        let i = r % a.len();
                        let x = a[i].as_u64().unwrap_or(0);
                        a[i] = Value::from(x.wrapping_add((r as u64 / 5) % 300).wrapping_sub(150));
                    }
                    10 => a.reverse(),
                    _ => {}
                }
                Value::Array(a)
            }
            Value::Number(n) => match how {
                5 => Value::from(n.as_u64().unwrap_or(0).wrapping_add(1)),
                6 => Value::from(n.as_u64().unwrap_or(0).wrapping_sub(1)),
                7 => Value::from(NUMBERS[r % NUMBERS.len()]),
                8 => Value::Array(vec![Value::Number(n)]),
                _ => Value::Number(n),
            },
            v => v,
        },
    };
    m[key] = new;
}

/// Whether the header must be refused, and the number of layers it states otherwise.
fn verdict(b: &[u8]) -> Result<usize, String> {
    if b.len() < 6 || &b[..6] != b"granne" {
        return Err("library string missing".into());
    }
    let end = fmt::HEADER.min(b.len());
    let m: Value = serde_json::from_slice(&b[6..end]).map_err(|_| "metadata unreadable".to_string())?;
    let nums = |k: &str| serde_json::from_value::<Vec<u64>>(m[k].clone()).map_err(|_| format!("{} unreadable", k));
    let layers = serde_json::from_value::<u64>(m["num_layers"].clone()).map_err(|_| "num_layers unreadable".to_string())?;
    let counts = nums("layer_counts")?;
    if counts.len() as u64 != layers {
        return Err("num_layers and layer_counts disagree".into());
    }
    let sizes = nums("layer_sizes")?;
    let total = sizes.iter().fold(fmt::HEADER as u128, |a, &s| a + s as u128);
    if !sizes.is_empty() && total > b.len() as u128 {
        return Err("layers beyond the end".into());
    }
    Ok(sizes.len())
}

#[derive(Serialize, Deserialize)]
struct Case {
    spec: IndexSpec,
    damages: Vec<Damage>,
    at_end: bool,
    slack: usize,
    search: Search,
    fewer: usize,
}

fn gen_case(s: &mut Src, max: usize) -> Case {
    let spec = gen_index(s, max / 2, max);
    let search = gen_search(s, spec.data.n);
    Case {
        damages: s.list(1, 3, gen_damage),
        at_end: s.chance(2, 3),
        slack: s.weighted(&[6, 1, 1, 1]),
        search,
        fewer: if s.chance(1, 5) { s.range(0, 5) } else { 0 },
        spec,
    }
}

/// Uses everything an index offers; panics are fine, crashes of the process are not.
fn exercise<K: Kit>(c: &Case, index: &Granne<'_, &K>, elements: &K, layers: usize, reached: &mut usize) -> Res {
    ensure!(
        index.num_layers() == layers,
        "loaded with {} layers although the header states {}",
        index.num_layers(),
        layers
    );
    let mut total = 0;
    for l in 0..layers {
        let Ok(n) = no_panic(|| index.layer_len(l)) else { continue };
        for i in (0..n.min(400)).chain(n.saturating_sub(3)..n).chain([n, n + 1, usize::MAX / 2, usize::MAX]) {
            if let Ok(ns) = no_panic(|| index.get_neighbors(i, l)) {
                total += 1;
                ensure!(ns.len() <= 255, "{} neighbors", ns.len());
            }
        }
    }
    no_panic(|| index.len()).ok();
    let q = make_query(&c.spec.data, elements, &c.search.q);
    if let Ok(r) = no_panic(|| index.search(&q, c.search.max_search, c.search.k)) {
        *reached += 1;
        let mut seen = std::collections::HashSet::new();
        for (i, d) in r {
            ensure!(seen.insert(i), "id {} returned twice", i);
            // an empty collection has no dimension, its element 0 reads as a vector without components
            if elements.len() == 0 {
                continue;
            }
            ensure!(i < elements.len(), "id {} returned, there are {} elements", i, elements.len());
            ensure!(d == dist(elements, i, &q), "id {} returned with distance {}", i, d);
        }
    }
    no_panic(|| write_index(index)).ok();
    if total > 0 {
        *reached += 1;
    }
    Ok(())
}

fn run<K: Kit>(c: &Case, cx: &mut Cx) -> Res {
    let d = &c.spec.data;
    let mut bytes = vec![];
    with_index::<K, ()>(&c.spec, |index| {
        bytes = write_index(index)?;
        Ok(())
    })?;
    let good = bytes.clone();
    for x in &c.damages {
        damage(&mut bytes, x);
    }
    let elements = K::make_n(d, d.n.saturating_sub(c.fewer));
    let verdict = verdict(&bytes);
    let g = Guarded::new(&bytes, c.at_end, c.slack);
    let mut reached = 0;
    let what = match &verdict {
        Ok(_) => "accepted header".to_string(),
        Err(e) => e.clone(),
    };
    cx.label(what.clone());

    let loaded = no_panic(|| Granne::from_bytes(g.get(), &elements));
    if let (Ok(i), Err(e)) = (&loaded, &verdict) {
        return Err(format!("loaded with {} layers although: {}", i.num_layers(), e));
    }
    if let Ok(index) = &loaded {
        exercise::<K>(c, index, &elements, *verdict.as_ref().unwrap(), &mut reached)?;
        if let Ok(owned) = no_panic(|| index.to_owned()) {
            let q = make_query(d, &elements, &c.search.q);
            let a = no_panic(|| index.search(&q, c.search.max_search, c.search.k));
            let b = no_panic(|| owned.search(&q, c.search.max_search, c.search.k));
            ensure!(a.is_ok() == b.is_ok(), "searching the owned copy fails unlike searching the original");
            if let (Ok(a), Ok(b)) = (a, b) {
                ensure!(same_results(&a, &b), "the owned copy finds other results");
            }
        }
        if bytes == good {
            cx.label("unchanged");
        }
    }
    if loaded.is_ok() {
        // reordering needs elements of its own
        no_panic(|| {
            let mut r = Granne::from_bytes(g.get(), elements.clone());
            let o = r.reorder(false);
            let q = make_query(d, &elements, &c.search.q);
            r.search(&q, c.search.max_search, c.search.k);
            o
        })
        .ok();
    }
    let cfg = granne::BuildConfig::new().num_neighbors(10).max_search(10);
    let builder = no_panic(|| GranneBuilder::from_bytes(cfg, g.get(), elements.clone()));
    if let (Ok(_), Err(e)) = (&builder, &verdict) {
        return Err(format!("loaded into a builder although: {}", e));
    }
    if let Ok(mut b) = builder {
        ensure!(
            b.num_layers() == *verdict.as_ref().unwrap(),
            "loaded into a builder with {} layers although the header states {}",
            b.num_layers(),
            verdict.as_ref().unwrap()
        );
        reached += 1;
        no_panic(|| write_index(&b)).ok();
        let q = make_query(d, &elements, &c.search.q);
        no_panic(|| b.get_index().search(&q, c.search.max_search, c.search.k)).ok();
        if b.len() < 2000 {
            no_panic(|| b.build()).ok();
        }
    }
    let file = temp_file("damaged.bin", &bytes);
    let from_file = no_panic(|| unsafe { Granne::from_file(&file, &elements) });
    match (&from_file, &verdict) {
        (Ok(Ok(i)), Err(e)) => return Err(format!("loaded from a file with {} layers although: {}", i.num_layers(), e)),
        (Ok(Ok(i)), Ok(l)) => exercise::<K>(c, i, &elements, *l, &mut reached)?,
        _ => {}
    }
    let both = (loaded.is_ok(), matches!(from_file, Ok(Ok(_))));
    // a mapped file verifies more when it is opened
    ensure!(both.0 || !both.1, "refused in memory, but loaded from a file");
    let b = no_panic(|| GranneBuilder::from_file(cfg, &file, elements.clone()));
    if let (Ok(Ok(_)), Err(e)) = (&b, &verdict) {
        return Err(format!("loaded from a file into a builder although: {}", e));
    }
    cx.label(format!("{:?}", d.kind));
    cx.label_if(reached > 0, "used after loading");
    cx.nontrivial = bytes != good;
    Ok(())
}

fn run_any(c: &Case, cx: &mut Cx) -> Res {
    dispatch!(c.spec.data.kind, run, c, cx)
}

// ------------------------------------------------------------------------------------------------

/// Every truncation of one index.
#[derive(Serialize, Deserialize)]
struct CutCase {
    spec: IndexSpec,
    at_end: bool,
}

fn run_cut<K: Kit>(c: &CutCase, cx: &mut Cx) -> Res {
    let d = &c.spec.data;
    let mut bytes = vec![];
    let mut layers = 0;
    with_index::<K, ()>(&c.spec, |index| {
        bytes = write_index(index)?;
        layers = index.num_layers();
        Ok(())
    })?;
    let elements = K::make(d);
    for len in 0..bytes.len() {
        // of the padding of the header, only a part
        if len > 300 && len < fmt::HEADER - 10 && len % 97 != 0 {
            continue;
        }
        let g = Guarded::new(&bytes[..len], c.at_end, 0);
        let accepted = no_panic(|| Granne::from_bytes(g.get(), &elements)).map(|i| i.num_layers());
        let accepted_b =
            no_panic(|| GranneBuilder::from_bytes(granne::BuildConfig::new(), g.get(), elements.clone())).map(|b| b.num_layers());
        if layers > 0 {
            ensure!(accepted.is_err(), "cut to {} of {} bytes and accepted with {:?} of {} layers", len, bytes.len(), accepted, layers);
            ensure!(
                accepted_b.is_err(),
                "cut to {} of {} bytes and accepted by a builder with {:?} of {} layers",
                len,
                bytes.len(),
                accepted_b,
                layers
            );
        }
    }
    cx.metric("truncations", bytes.len() as f64);
    cx.nontrivial = layers > 0;
    Ok(())
}

fn run_cut_any(c: &CutCase, cx: &mut Cx) -> Res {
    dispatch!(c.spec.data.kind, run_cut, c, cx)
}

// ------------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize)]
struct ElementsCase {
    data: Data,
    damages: Vec<Damage>,
    at_end: bool,
    slack: usize,
    query: usize,
}

fn use_elements<K: Kit>(e: K, d: &Data, query: usize, reached: &mut usize) {
    let Ok(n) = no_panic(|| e.len()) else { return };
    let q = K::query(d, query);
    for i in (0..n.min(300)).chain(n.saturating_sub(3)..n).chain([n, n.wrapping_add(1), usize::MAX]) {
        if no_panic(|| e.get(i)).is_ok() {
            *reached += 1;
        }
        no_panic(|| e.dist_to_element(i, &q)).ok();
        no_panic(|| e.dist(i, 0)).ok();
    }
    no_panic(|| {
        let mut out = vec![];
        e.write(&mut out).ok();
    })
    .ok();
    if n > 0 && n < 1000 {
        no_panic(|| {
            let mut p = e.clone();
            let order: Vec<usize> = (0..n).rev().collect();
            p.permute(&order);
        })
        .ok();
        no_panic(|| {
            let mut b = GranneBuilder::new(granne::BuildConfig::new().num_neighbors(5).max_search(5), e.clone());
            b.build();
            b.get_index().search(&q, 10, 10)
        })
        .ok();
        no_panic(|| {
            let mut p = e.clone();
            granne::ExtendableElementContainer::push(&mut p, K::internal(d, 0));
            p.get(n)
        })
        .ok();
    }
}

/// Element files.
fn run_elements(c: &ElementsCase, cx: &mut Cx) -> Res {
    let d = &c.data;
    let mut bytes = vec![];
    let good = match d.kind {
        Kind::F32 => {
            angular::Vectors::make(d).write(&mut bytes).map_err(|e| e.to_string())?;
            bytes.clone()
        }
        Kind::I8 => {
            angular_int::Vectors::make(d).write(&mut bytes).map_err(|e| e.to_string())?;
            bytes.clone()
        }
        _ => {
            SumEmbeddings::make(d).write(&mut bytes).map_err(|e| e.to_string())?;
            bytes.clone()
        }
    };
    let mut table = vec![];
    SumEmbeddings::make(d).write_embeddings(&mut table).map_err(|e| e.to_string())?;
    let mut damaged_table = table.clone();
    for x in &c.damages {
        damage_elements(&mut bytes, x);
        damage_elements(&mut damaged_table, x);
    }
    let g = Guarded::new(&bytes, c.at_end, c.slack);
    let mut reached = 0;
    match d.kind {
        Kind::F32 => {
            if let Ok(e) = no_panic(|| angular::Vectors::from_bytes(g.get())) {
                no_panic(|| e.len()).ok();
                no_panic(|| e.get(0)).ok();
                if let Ok(e) = no_panic(|| e.into_owned()) {
                    use_elements::<angular::Vectors>(e, d, c.query, &mut reached)
                }
            }
        }
        Kind::I8 => {
            if let Ok(e) = no_panic(|| angular_int::Vectors::from_bytes(g.get())) {
                no_panic(|| e.len()).ok();
                no_panic(|| e.get(0)).ok();
                if let Ok(e) = no_panic(|| e.into_owned()) {
                    use_elements::<angular_int::Vectors>(e, d, c.query, &mut reached)
                }
            }
        }
        _ => {
            let lists = temp_file("lists.bin", &bytes);
            for (k, table) in [&table, &damaged_table].iter().enumerate() {
                let table = temp_file(&format!("table{}.bin", k), table);
                let Ok(Ok(e)) = no_panic(|| unsafe { SumEmbeddings::from_files(&table, Some(&lists)) }) else { continue };
                let Ok(n) = no_panic(|| e.len()) else { continue };
                for i in (0..n.min(300)).chain(n.saturating_sub(3)..n).chain([n, usize::MAX]) {
                    if no_panic(|| e.get_terms(i)).is_ok() {
                        reached += 1;
                    }
                    no_panic(|| e.get(i)).ok();
                }
                let q = angular::Vector::from(d.query_row(c.query));
                no_panic(|| e.dist_to_element(0, &q)).ok();
                no_panic(|| {
                    let mut out = vec![];
                    e.write(&mut out).ok();
                    e.write_embeddings(&mut out).ok();
                })
                .ok();
                if n < 1000 {
                    no_panic(|| granne::embeddings::compute_keys_for_reordering(&e).len()).ok();
                    no_panic(|| {
                        let order: Vec<usize> = (0..n).rev().collect();
                        let mut p = e.clone();
                        p.permute(&order);
                    })
                    .ok();
                }
            }
        }
    }
    cx.label(format!("{:?}", d.kind));
    cx.label_if(reached > 0, "used after loading");
    cx.nontrivial = bytes != good;
    Ok(())
}

fn damage_elements(b: &mut Vec<u8>, d: &Damage) {
    match d {
        Damage::Number(_, k, x) => {
            let p = 8 * (k % 2);
            if p + 8 <= b.len() {
                b[p..p + 8].copy_from_slice(&x.to_le_bytes());
            }
        }
        Damage::FlipOffsets(_, p, x) => {
            let p = p % 60;
            if p < b.len() {
                b[p] ^= x;
            }
        }
        Damage::Body(n, seed) => {
            b.truncate(8);
            let mut rng = Rng(*seed);
            b.extend((0..*n).map(|_| noise(&mut rng)));
        }
        Damage::Json(..) => {}
        other => damage(b, other),
    }
}

pub fn p19() -> Property {
    Property {
        id: "P19",
        rule: "A case is an index (or an elements file), one to three damages (truncation, changed, removed, inserted, replaced bytes, \
               edited metadata, arbitrary bytes) and its position in memory next to an inaccessible page, loaded in every way and \
               used; or every truncation of one index. Non-trivial: the bytes are different from the undamaged ones (or there is a \
               layer to cut).",
        level: "exploration",
        assumptions: vec![
            "reads beyond the bytes are noticed if they reach the inaccessible page, or by the checks of the standard library \
             compiled into the harness",
        ],
        families: vec![
            family("damaged indexes", 90_000, 3_000_000, |s| gen_case(s, 120), run_any),
            family("every truncation", 600, 20_000, |s| CutCase { spec: gen_index(s, 30, 40), at_end: s.chance(2, 3) }, run_cut_any),
            family(
                "damaged elements",
                60_000,
                2_000_000,
                |s| {
                    let kind = s.pick(&[Kind::F32, Kind::I8, Kind::Sum]);
                    let n = s.num(0, 60);
                    ElementsCase {
                        data: gen_data_n(s, kind, n),
                        damages: s.list(1, 3, gen_damage),
                        at_end: s.chance(2, 3),
                        slack: s.weighted(&[6, 1, 1, 1]),
                        query: s.range(0, 100),
                    }
                },
                run_elements,
            ),
        ],
    }
}
