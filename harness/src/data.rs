//! Generated data sets, element containers and indexes.

use crate::engine::{Rng, Src};
use crate::fmt;
use granne::{angular, angular_int, embeddings::SumEmbeddings};
use granne::{BuildConfig, Builder, ElementContainer, ExtendableElementContainer, Granne, GranneBuilder, Permutable, Writeable};
use ordered_float::NotNan;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    F32,
    I8,
    Sum,
    L2,
}

pub const KINDS: [Kind; 4] = [Kind::F32, Kind::I8, Kind::Sum, Kind::L2];

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub enum Shape {
    Uniform,
    Gauss,
    /// number of clusters, noise in permille of the center scale
    Clustered(usize, usize),
    /// integer coordinates in -r..=r: many ties and duplicates
    Grid(usize),
    Explicit(Vec<Vec<f32>>),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Data {
    pub kind: Kind,
    pub n: usize,
    pub dim: usize,
    pub shape: Shape,
    pub seed: u64,
    /// ids of elements replaced by zero vectors
    pub zeros: Vec<usize>,
    /// (id, source): element id is a copy of element source
    pub dups: Vec<(usize, usize)>,
}

impl Data {
    pub fn plain(kind: Kind, n: usize, dim: usize, seed: u64) -> Self {
        Data { kind, n, dim, shape: Shape::Uniform, seed, zeros: vec![], dups: vec![] }
    }

    pub fn base_row(&self, i: usize) -> Vec<f32> {
        let mut rng = Rng(self.seed ^ (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(17));
        rng.u64();
        match &self.shape {
            Shape::Uniform => (0..self.dim).map(|_| (rng.unit() - 0.5) as f32).collect(),
            Shape::Gauss => (0..self.dim).map(|_| rng.gauss() as f32).collect(),
            Shape::Clustered(k, noise) => {
                let c = rng.below(*k);
                let mut crng = Rng(self.seed.wrapping_add(77 + c as u64).wrapping_mul(0xD6E8_FEB8_6659_FD93));
                crng.u64();
                (0..self.dim).map(|_| (crng.gauss() + rng.gauss() * *noise as f64 / 1000.0) as f32).collect()
            }
            Shape::Grid(r) => (0..self.dim).map(|_| rng.below(2 * r + 1) as f32 - *r as f32).collect(),
            Shape::Explicit(rows) => rows.get(i).cloned().unwrap_or_else(|| vec![0.0; self.dim]),
        }
    }

    pub fn source(&self, i: usize) -> Option<usize> {
        let mut i = i;
        for _ in 0..self.dups.len() + 1 {
            if self.zeros.contains(&i) {
                return None;
            }
            match self.dups.iter().find(|d| d.0 == i) {
                Some(&(_, s)) if s != i => i = s,
                _ => return Some(i),
            }
        }
        Some(i)
    }

    pub fn row(&self, i: usize) -> Vec<f32> {
        match self.source(i) {
            None => vec![0.0; self.dim],
            Some(s) => self.base_row(s),
        }
    }

    pub fn rows(&self) -> Vec<Vec<f32>> {
        (0..self.n).map(|i| self.row(i)).collect()
    }

    /// Rows used as queries: never among the elements for the random shapes.
    pub fn query_row(&self, q: usize) -> Vec<f32> {
        match &self.shape {
            Shape::Explicit(rows) if !rows.is_empty() => {
                let mut rng = Rng(self.seed ^ 0xABCD ^ q as u64);
                rng.u64();
                (0..self.dim).map(|_| (rng.unit() - 0.5) as f32).collect()
            }
            _ => self.base_row(self.n + 1000 + q),
        }
    }

    /// The embedding table of the Sum kind.
    pub fn table_len(&self) -> usize {
        self.n / 2 + 8
    }

    pub fn terms(&self, i: usize) -> Vec<usize> {
        match self.source(i) {
            None => vec![],
            Some(i) => {
                let mut rng = Rng(self.seed.wrapping_add(31).wrapping_mul(i as u64 + 7));
                rng.u64();
                let len = 1 + rng.below(5);
                (0..len).map(|_| rng.below(self.table_len())).collect()
            }
        }
    }
}

pub fn gen_shape(s: &mut Src) -> Shape {
    match s.weighted(&[4, 2, 3, 2]) {
        0 => Shape::Uniform,
        1 => Shape::Gauss,
        2 => Shape::Clustered(s.range(1, 20), s.pick(&[300, 100, 30, 1000])),
        _ => Shape::Grid(s.range(1, 3)),
    }
}

/// General data set; with ties, zeros and duplicates with some probability.
pub fn gen_data(s: &mut Src, max_n: usize) -> Data {
    let kind = s.pick(&KINDS);
    let n = if s.chance(1, 20) { 0 } else { s.num(1.min(max_n), max_n) };
    gen_data_n(s, kind, n)
}

pub fn gen_data_n(s: &mut Src, kind: Kind, n: usize) -> Data {
    let dim = s.weighted(&[2, 5, 2]);
    let dim = match dim {
        0 => s.range(1, 3),
        1 => s.range(2, 40),
        _ => s.range(30, 130),
    };
    let shape = gen_shape(s);
    let seed = s.seed();
    let mut zeros = vec![];
    let mut dups = vec![];
    if n > 0 && s.chance(1, 4) {
        zeros = s.list(0, 6, |s| s.range(0, n - 1));
    }
    if n > 0 && s.chance(1, 4) {
        dups = s.list(0, 12, |s| (s.range(0, n - 1), s.range(0, n - 1)));
    }
    Data { kind, n, dim, shape, seed, zeros, dups }
}

/// Numbers of elements around and beyond what 16 bits can count.
pub fn gen_beyond_16_bits(s: &mut Src) -> usize {
    match s.weighted(&[3, 2, 1]) {
        0 => 65_536 + s.range(0, 8) - 4,
        1 => s.range(65_537, 72_000),
        _ => s.pick(&[131_070, 131_073, 98_304]),
    }
}

/// Settings that keep builds of many elements cheap.
pub fn gen_cheap_cfg(s: &mut Src) -> Cfg {
    let mut cfg = gen_cfg(s);
    cfg.num_neighbors = s.range(1, 6);
    cfg.max_search = s.range(1, 5);
    cfg.multiplier = s.pick(&[4.0, 10.0, 15.0, 256.0, 257.0]);
    cfg.expected = None;
    cfg.show = false;
    cfg
}

/// Many elements of few dimensions.
pub fn gen_many(s: &mut Src) -> Data {
    let (kind, n) = (s.pick(&KINDS), gen_beyond_16_bits(s));
    let mut data = gen_general(s, kind, n);
    data.dim = s.range(2, 8);
    data
}

/// Data in general position: no zeros, duplicates or ties (up to chance, see distinct checks).
pub fn gen_general(s: &mut Src, kind: Kind, n: usize) -> Data {
    let dim = s.range(4, 40);
    let shape = match s.weighted(&[4, 2, 2]) {
        0 => Shape::Uniform,
        1 => Shape::Gauss,
        _ => Shape::Clustered(s.range(2, 12), 400),
    };
    Data { kind, n, dim, shape, seed: s.seed(), zeros: vec![], dups: vec![] }
}

// ------------------------------------------------------------------------------------------------

/// A user-defined container: integer points with Euclidean distance, counting distance evaluations.
#[derive(Clone, Default)]
pub struct L2Points {
    pub points: Vec<Vec<i64>>,
}

thread_local! {
    pub static EVALS: std::cell::Cell<u64> = std::cell::Cell::new(0);
    /// evaluations per element since the last reset, if enabled
    pub static PER_ELEMENT: std::cell::RefCell<Option<Vec<u32>>> = std::cell::RefCell::new(None);
}

pub fn l2(a: &[i64], b: &[i64]) -> f64 {
    let s: i64 = a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum();
    (s as f64).sqrt()
}

impl ElementContainer for L2Points {
    type Element = Vec<i64>;
    fn get(&self, idx: usize) -> Vec<i64> {
        self.points[idx].clone()
    }
    fn len(&self) -> usize {
        self.points.len()
    }
    fn dist_to_element(&self, idx: usize, element: &Vec<i64>) -> NotNan<f32> {
        EVALS.with(|e| e.set(e.get() + 1));
        PER_ELEMENT.with(|p| {
            if let Some(v) = p.borrow_mut().as_mut() {
                v[idx] += 1;
            }
        });
        NotNan::new(l2(&self.points[idx], element) as f32).unwrap()
    }
}

impl ExtendableElementContainer for L2Points {
    type InternalElement = Vec<i64>;
    fn push(&mut self, element: Vec<i64>) {
        self.points.push(element);
    }
}

impl Permutable for L2Points {
    fn permute(&mut self, permutation: &[usize]) {
        assert_eq!(permutation.len(), self.points.len());
        self.points = permutation.iter().map(|&i| self.points[i].clone()).collect();
    }
}

impl Writeable for L2Points {
    fn write<B: std::io::Write>(&self, buffer: &mut B) -> std::io::Result<usize> {
        let b = serde_json::to_vec(&self.points).unwrap();
        buffer.write_all(&b)?;
        Ok(b.len())
    }
}

pub trait Kit:
    ElementContainer<Element = Self::El>
    + ExtendableElementContainer<InternalElement = Self::Int>
    + Permutable
    + Writeable
    + Clone
    + Send
    + Sync
    + 'static
{
    type El: Clone + Send + Sync;
    type Int: Clone + Send + Sync;
    fn empty(d: &Data) -> Self;
    fn internal(d: &Data, i: usize) -> Self::Int;
    fn query(d: &Data, q: usize) -> Self::El;
    fn zero(d: &Data) -> Self::El;
    /// independent reference distance
    fn ref_dist(a: &Self::El, b: &Self::El) -> f64;
    fn same(a: &Self::El, b: &Self::El) -> bool;
    /// loads elements written by Writeable::write
    fn load(d: &Data, bytes: &[u8]) -> Self;
    fn make(d: &Data) -> Self {
        Self::make_n(d, d.n)
    }
    fn make_n(d: &Data, n: usize) -> Self {
        let mut e = Self::empty(d);
        for i in 0..n {
            ExtendableElementContainer::push(&mut e, Self::internal(d, i));
        }
        e
    }
}

pub fn cos_dist(a: &[f64], b: &[f64]) -> f64 {
    let dot: f64 = a.iter().zip(b).map(|(x, y)| x * y).sum();
    let na: f64 = a.iter().map(|x| x * x).sum();
    let nb: f64 = b.iter().map(|x| x * x).sum();
    if na == 0.0 || nb == 0.0 {
        return 1.0;
    }
    (1.0 - dot / (na.sqrt() * nb.sqrt())).max(0.0)
}

pub fn to64(v: &[f32]) -> Vec<f64> {
    v.iter().map(|&x| x as f64).collect()
}

impl Kit for angular::Vectors<'static> {
    type El = angular::Vector<'static>;
    type Int = angular::Vector<'static>;
    fn empty(_d: &Data) -> Self {
        angular::Vectors::new()
    }
    fn internal(d: &Data, i: usize) -> Self::Int {
        angular::Vector::from(d.row(i))
    }
    fn query(d: &Data, q: usize) -> Self::El {
        angular::Vector::from(d.query_row(q))
    }
    fn zero(d: &Data) -> Self::El {
        angular::Vector::from(vec![0.0; d.dim])
    }
    fn ref_dist(a: &Self::El, b: &Self::El) -> f64 {
        cos_dist(&to64(a.as_slice()), &to64(b.as_slice()))
    }
    fn same(a: &Self::El, b: &Self::El) -> bool {
        a.len() == b.len() && a.as_slice().iter().zip(b.as_slice()).all(|(x, y)| x.to_bits() == y.to_bits())
    }
    fn load(_d: &Data, bytes: &[u8]) -> Self {
        angular::Vectors::from_bytes(bytes).into_owned()
    }
}

impl Kit for angular_int::Vectors<'static> {
    type El = angular_int::Vector<'static>;
    type Int = angular_int::Vector<'static>;
    fn empty(_d: &Data) -> Self {
        angular_int::Vectors::new()
    }
    fn internal(d: &Data, i: usize) -> Self::Int {
        angular_int::Vector::from(d.row(i))
    }
    fn query(d: &Data, q: usize) -> Self::El {
        angular_int::Vector::from(d.query_row(q))
    }
    fn zero(d: &Data) -> Self::El {
        angular_int::Vector::from(vec![0.0; d.dim])
    }
    fn ref_dist(a: &Self::El, b: &Self::El) -> f64 {
        let f = |v: &[i8]| v.iter().map(|&x| x as f64).collect::<Vec<_>>();
        cos_dist(&f(a.as_slice()), &f(b.as_slice()))
    }
    fn same(a: &Self::El, b: &Self::El) -> bool {
        a.as_slice() == b.as_slice()
    }
    fn load(_d: &Data, bytes: &[u8]) -> Self {
        angular_int::Vectors::from_bytes(bytes).into_owned()
    }
}

impl Kit for SumEmbeddings<'static> {
    type El = angular::Vector<'static>;
    type Int = Vec<usize>;
    fn empty(d: &Data) -> Self {
        let mut e = SumEmbeddings::new();
        for i in 0..d.table_len() {
            e.push_embedding(&d.base_row(i));
        }
        e
    }
    fn internal(d: &Data, i: usize) -> Self::Int {
        d.terms(i)
    }
    fn query(d: &Data, q: usize) -> Self::El {
        angular::Vector::from(d.query_row(q))
    }
    fn zero(d: &Data) -> Self::El {
        angular::Vector::from(vec![0.0; d.dim])
    }
    fn ref_dist(a: &Self::El, b: &Self::El) -> f64 {
        cos_dist(&to64(a.as_slice()), &to64(b.as_slice()))
    }
    fn same(a: &Self::El, b: &Self::El) -> bool {
        a.len() == b.len() && a.as_slice().iter().zip(b.as_slice()).all(|(x, y)| x.to_bits() == y.to_bits())
    }
    fn load(d: &Data, bytes: &[u8]) -> Self {
        let lists = fmt::decode_lists(bytes).expect("elements written by SumEmbeddings");
        let mut e = Self::empty(d);
        for l in lists {
            SumEmbeddings::push(&mut e, l);
        }
        e
    }
}

impl Kit for L2Points {
    type El = Vec<i64>;
    type Int = Vec<i64>;
    fn empty(_d: &Data) -> Self {
        L2Points::default()
    }
    fn internal(d: &Data, i: usize) -> Self::Int {
        l2_row(d, &d.row(i))
    }
    fn query(d: &Data, q: usize) -> Self::El {
        l2_row(d, &d.query_row(q))
    }
    fn zero(d: &Data) -> Self::El {
        vec![0; d.dim]
    }
    fn ref_dist(a: &Self::El, b: &Self::El) -> f64 {
        l2(a, b)
    }
    fn same(a: &Self::El, b: &Self::El) -> bool {
        a == b
    }
    fn load(_d: &Data, bytes: &[u8]) -> Self {
        L2Points { points: serde_json::from_slice(bytes).expect("points") }
    }
}

fn l2_row(d: &Data, row: &[f32]) -> Vec<i64> {
    let scale = if matches!(d.shape, Shape::Grid(_)) { 1.0 } else { 10_000.0 };
    row.iter().map(|&x| (x as f64 * scale).round() as i64).collect()
}

#[macro_export]
macro_rules! dispatch {
    ($kind:expr, $f:ident, $($arg:expr),*) => {
        match $kind {
            $crate::data::Kind::F32 => $f::<granne::angular::Vectors<'static>>($($arg),*),
            $crate::data::Kind::I8 => $f::<granne::angular_int::Vectors<'static>>($($arg),*),
            $crate::data::Kind::Sum => $f::<granne::embeddings::SumEmbeddings<'static>>($($arg),*),
            $crate::data::Kind::L2 => $f::<$crate::data::L2Points>($($arg),*),
        }
    };
}

// ------------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Cfg {
    pub multiplier: f32,
    pub num_neighbors: usize,
    pub max_search: usize,
    pub reinsert: bool,
    pub expected: Option<usize>,
    /// print the progress (to the standard output, which goes nowhere)
    #[serde(default)]
    pub show: bool,
}

impl Cfg {
    pub fn build_config(&self) -> BuildConfig {
        let mut c = BuildConfig::new()
            .layer_multiplier(self.multiplier)
            .num_neighbors(self.num_neighbors)
            .max_search(self.max_search)
            .reinsert_elements(self.reinsert)
            .show_progress(self.show);
        if let Some(e) = self.expected {
            c = c.expected_num_elements(e);
        }
        c
    }
}

pub fn gen_cfg(s: &mut Src) -> Cfg {
    Cfg {
        multiplier: match s.weighted(&[3, 3, 2, 1]) {
            0 => s.pick(&[15.0, 10.0, 5.0]),
            1 => s.range(2, 20) as f32,
            2 => 1.5 + s.range(0, 40) as f32 / 16.0,
            _ => s.pick(&[100.0, 1000.0, 3.3, 7.7]),
        },
        num_neighbors: match s.weighted(&[3, 2, 1]) {
            0 => s.range(1, 12),
            1 => s.range(10, 40),
            _ => s.range(40, 120),
        },
        max_search: match s.weighted(&[3, 2, 1]) {
            0 => s.range(1, 30),
            1 => s.range(20, 100),
            _ => s.range(100, 250),
        },
        reinsert: !s.chance(1, 3),
        expected: None,
        show: s.chance(1, 8),
    }
}

/// A random layered graph, for indexes not created by the builder.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct GraphSpec {
    pub layers: Vec<usize>,
    pub degree: usize,
    /// percentage of nodes whose list is empty
    pub empty_pct: usize,
    /// adds a cycle through all nodes of each layer
    pub cycle: bool,
    pub seed: u64,
}

impl GraphSpec {
    pub fn make(&self) -> fmt::Layers {
        let mut rng = Rng(self.seed);
        rng.u64();
        let mut out = Vec::new();
        for &n in &self.layers {
            let mut perm: Vec<usize> = (0..n).collect();
            rng.shuffle(&mut perm);
            let mut pos = vec![0; n];
            for (i, &p) in perm.iter().enumerate() {
                pos[p] = i;
            }
            let mut layer = Vec::with_capacity(n);
            for i in 0..n {
                let mut set = std::collections::BTreeSet::new();
                if rng.below(100) >= self.empty_pct && n > 1 {
                    let deg = if self.degree == 0 { 0 } else { 1 + rng.below(self.degree) };
                    for _ in 0..deg {
                        let j = match rng.below(3) {
                            0 => rng.below(n),
                            1 => (i + 1 + rng.below(10)) % n,
                            _ => rng.below(n.min(300)),
                        };
                        if j != i {
                            set.insert(j as u32);
                        }
                    }
                }
                while set.len() > self.degree.max(1) {
                    let x = *set.iter().next().unwrap();
                    set.remove(&x);
                }
                if self.cycle && n > 1 {
                    let next = perm[(pos[i] + 1) % n] as u32;
                    if !set.contains(&next) && set.len() >= self.degree.max(1) {
                        let x = *set.iter().next().unwrap();
                        set.remove(&x);
                    }
                    set.insert(next);
                }
                layer.push(set.into_iter().collect());
            }
            out.push(layer);
        }
        out
    }
}

pub fn gen_layers(s: &mut Src, n: usize) -> Vec<usize> {
    // from bottom to top
    let mut layers = vec![];
    if n > 0 {
        layers.push(n);
        for _ in 0..s.range(0, 4) {
            let last = *layers.last().unwrap();
            layers.push(s.range(1, last));
        }
        layers.reverse();
    }
    layers
}

pub fn gen_graph(s: &mut Src, n: usize, cycle: bool) -> GraphSpec {
    GraphSpec {
        layers: gen_layers(s, n),
        degree: s.weighted(&[0, 1, 1, 1, 1, 1, 1, 1, 1, 1]) * s.pick(&[1, 1, 3, 8]),
        empty_pct: if cycle { 0 } else { s.pick(&[0, 0, 10, 60]) },
        cycle,
        seed: s.seed(),
    }
}

/// A copy of some bytes starting at a chosen offset from an 8-byte boundary, and ending where the allocation ends.
pub struct Aligned {
    base: *mut u8,
    offset: usize,
    len: usize,
}

unsafe impl Send for Aligned {}
unsafe impl Sync for Aligned {}

impl Aligned {
    fn layout(size: usize) -> std::alloc::Layout {
        std::alloc::Layout::from_size_align(size.max(1), 8).unwrap()
    }
    pub fn new(bytes: &[u8], offset: usize) -> Self {
        assert!(offset < 8);
        unsafe {
            let base = std::alloc::alloc(Self::layout(offset + bytes.len()));
            assert!(!base.is_null(), "HARNESS: no memory");
            std::ptr::copy_nonoverlapping(bytes.as_ptr(), base.add(offset), bytes.len());
            Aligned { base, offset, len: bytes.len() }
        }
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.base.add(self.offset), self.len) }
    }
}

impl Drop for Aligned {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.base, Self::layout(self.offset + self.len)) }
    }
}

pub fn temp_path(name: &str) -> String {
    format!("{}/{}", crate::engine::scratch(), name)
}

pub fn temp_file(name: &str, bytes: &[u8]) -> std::fs::File {
    let path = temp_path(name);
    std::fs::write(&path, bytes).expect("HARNESS: write temp file");
    let f = std::fs::File::open(&path).expect("HARNESS: open temp file");
    std::fs::remove_file(&path).ok();
    f
}

pub fn write_index<I: granne::Index>(index: &I) -> Result<Vec<u8>, String> {
    let mut c = std::io::Cursor::new(Vec::new());
    index.write_index(&mut c).map_err(|e| format!("write_index to memory failed: {}", e))?;
    Ok(c.into_inner())
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Storage {
    Owned,
    Bytes(usize),
    File,
    /// crafted or saved bytes loaded into a builder (uncompressed neighbor lists)
    Builder,
}

pub fn gen_storage(s: &mut Src) -> Storage {
    match s.weighted(&[3, 3, 2, 2]) {
        0 => Storage::Owned,
        1 => Storage::Bytes(s.range(0, 7)),
        2 => Storage::File,
        _ => Storage::Builder,
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Source {
    Build(Cfg, Option<usize>),
    Graph(GraphSpec),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct IndexSpec {
    pub data: Data,
    pub source: Source,
    pub storage: Storage,
}

pub fn gen_index(s: &mut Src, max_build: usize, max_graph: usize) -> IndexSpec {
    let build = s.chance(1, 2);
    let data = gen_data(s, if build { max_build } else { max_graph });
    let source = if build {
        let partial = if s.chance(1, 5) { Some(s.range(0, data.n)) } else { None };
        Source::Build(gen_cfg(s), partial)
    } else {
        Source::Graph(gen_graph(s, data.n, false))
    };
    IndexSpec { data, source, storage: gen_storage(s) }
}

/// Creates the index and calls `f` with it. The index may contain fewer elements than the container.
pub fn with_index<K: Kit, R>(spec: &IndexSpec, f: impl FnOnce(&Granne<'_, K>) -> Result<R, String>) -> Result<R, String> {
    let elements = K::make(&spec.data);
    let bytes = match &spec.source {
        Source::Build(cfg, partial) => {
            let mut b = GranneBuilder::new(cfg.build_config(), elements.clone());
            match partial {
                Some(p) => b.build_partial(*p),
                None => b.build(),
            }
            if spec.storage == Storage::Owned {
                let index = b.get_index().to_owned();
                return f(&index);
            }
            write_index(&b)?
        }
        Source::Graph(g) => fmt::encode_index(&g.make()),
    };
    match spec.storage {
        Storage::Owned => {
            let borrowed = Granne::from_bytes(&bytes, &elements);
            let index = borrowed.to_owned();
            f(&index)
        }
        Storage::Bytes(off) => {
            let a = Aligned::new(&bytes, off);
            let index = Granne::from_bytes(a.get(), elements);
            f(&index)
        }
        Storage::File => {
            let file = temp_file("index.bin", &bytes);
            let index = unsafe { Granne::from_file(&file, elements) }.map_err(|e| format!("from_file: {}", e))?;
            f(&index)
        }
        Storage::Builder => {
            let cfg = BuildConfig::new().num_neighbors(128);
            let b = GranneBuilder::from_bytes(cfg, &bytes, elements);
            let index = b.get_index().to_owned();
            f(&index)
        }
    }
}
