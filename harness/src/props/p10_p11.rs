//! Distances (P10), normalization and quantization (P11).

use crate::data::*;
use crate::engine::*;
use crate::ensure;
use granne::embeddings::SumEmbeddings;
use granne::{angular, angular_int, Dist, ElementContainer};
use ordered_float::NotNan;
use serde::{Deserialize, Serialize};

/// A raw vector described by a few choices.
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Raw {
    dim: usize,
    shape: usize,
    /// decimal exponent of the magnitude
    exp: i32,
    seed: u64,
    /// explicit changes of components: (index, value in units of the magnitude)
    set: Vec<(usize, f32)>,
}

fn gen_dim(s: &mut Src) -> usize {
    match s.weighted(&[4, 3, 2, 1]) {
        0 => s.range(1, 40),
        1 => s.range(30, 140),
        2 => (32 * s.range(1, 12) + s.range(0, 2)).saturating_sub(1).max(1),
        _ => s.size(100, 3000),
    }
}

fn gen_raw(s: &mut Src, dim: usize, max_exp: i32) -> Raw {
    Raw {
        dim,
        shape: s.range(0, 6),
        exp: if s.chance(1, 3) { s.range(0, 2 * max_exp as usize) as i32 - max_exp } else { 0 },
        seed: s.seed(),
        set: s.list(0, 3, |s| (s.range(0, dim - 1), s.pick(&[0.0f32, 1.0, -1.0, 0.5, -0.25, 100.0]))),
    }
}

impl Raw {
    fn values(&self) -> Vec<f32> {
        let mut rng = Rng(self.seed);
        rng.u64();
        let mut v: Vec<f64> = (0..self.dim)
            .map(|i| match self.shape {
                0 => rng.unit() - 0.5,
                1 => rng.gauss(),
                2 => rng.unit() + 0.1,
                3 => rng.below(7) as f64 - 3.0,
                // sparse
                4 => {
                    if rng.below(8) == 0 || i == self.dim / 2 {
                        rng.gauss()
                    } else {
                        0.0
                    }
                }
                // few large components
                5 => rng.gauss() * if rng.below(10) == 0 { 1000.0 } else { 1.0 },
                _ => 10f64.powf(rng.unit() * 4.0 - 2.0) * if rng.below(2) == 0 { 1.0 } else { -1.0 },
            })
            .collect();
        for &(i, x) in &self.set {
            v[i % self.dim] = x as f64;
        }
        v.into_iter().map(|x| (x * 10f64.powi(self.exp)) as f32).collect()
    }
}

fn tol(reference: f64, dim: usize) -> f64 {
    1e-5 + 2e-8 * dim as f64 + 1e-6 * reference
}

fn close(a: f32, reference: f64, dim: usize) -> bool {
    (a as f64 - reference).abs() <= tol(reference, dim)
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Rel {
    Independent(Raw),
    /// a multiple of the first one
    Parallel(f32),
    Opposite(f32),
    /// small change: relative size 10^-k
    Near(u32, u64),
    /// component i replaced so that the vectors are orthogonal
    Rotated,
}

#[derive(Serialize, Deserialize)]
struct Pair {
    a: Raw,
    b: Rel,
    scale: f32,
}

fn second(a: &[f32], rel: &Rel) -> Vec<f32> {
    match rel {
        Rel::Independent(r) => r.values(),
        Rel::Parallel(f) => a.iter().map(|x| x * f).collect(),
        Rel::Opposite(f) => a.iter().map(|x| -x * f).collect(),
        Rel::Near(k, seed) => {
            let mut rng = Rng(*seed);
            rng.u64();
            let m = a.iter().fold(0.0f32, |m, x| m.max(x.abs())) as f64;
            a.iter().map(|&x| (x as f64 + rng.gauss() * m * 10f64.powi(-(*k as i32))) as f32).collect()
        }
        Rel::Rotated => {
            // (x, y) -> (-y, x) on pairs of components
            let mut b = vec![0.0; a.len()];
            for i in (0..a.len() - a.len() % 2).step_by(2) {
                b[i] = -a[i + 1];
                b[i + 1] = a[i];
            }
            b
        }
    }
}

fn gen_pair(s: &mut Src, max_exp: i32) -> Pair {
    let dim = gen_dim(s);
    let a = gen_raw(s, dim, max_exp);
    let b = match s.weighted(&[4, 1, 1, 2, 1]) {
        0 => Rel::Independent(gen_raw(s, dim, max_exp)),
        1 => Rel::Parallel(s.pick(&[1.0, 2.0, 0.3, 17.0, 1e-3])),
        2 => Rel::Opposite(s.pick(&[1.0, 0.5, 3.0])),
        3 => Rel::Near(s.range(1, 7) as u32, s.seed()),
        _ => Rel::Rotated,
    };
    Pair { a, b, scale: s.pick(&[2.0, 1024.0, 0.125, 3.0, 0.7, 1e3, 1e-3]) }
}

fn is_zero(v: &[f32]) -> bool {
    v.iter().all(|x| *x == 0.0)
}

fn in_range(name: &str, d: f32) -> Res {
    ensure!((0.0..=2.00001).contains(&d), "{}: distance {} is not in [0, 2]", name, d);
    Ok(())
}

fn run_float_pair(c: &Pair, cx: &mut Cx) -> Res {
    let a = c.a.values();
    let b = second(&a, &c.b);
    let dim = a.len();
    if is_zero(&a) || is_zero(&b) {
        cx.label("zero");
        return Ok(());
    }
    let reference = cos_dist(&to64(&a), &to64(&b));
    let (x, y) = (angular::Vector::from(a.clone()), angular::Vector::from(b.clone()));
    let d = x.dist(&y).into_inner();
    in_range("float", d)?;
    ensure!(close(d, reference, dim), "distance {} between vectors of dimension {}, reference {}", d, dim, reference);
    let back = y.dist(&x).into_inner();
    ensure!((back - d).abs() <= 1e-6, "distance {} one way, {} the other", d, back);
    let sx = angular::Vector::from(a.iter().map(|v| v * c.scale).collect::<Vec<_>>());
    let ds = sx.dist(&y).into_inner();
    ensure!(close(ds, reference, dim), "distance {} after scaling by {}, {} before", ds, c.scale, d);
    let own = x.dist(&x).into_inner();
    ensure!(own as f64 <= tol(0.0, dim), "distance {} of a vector to itself", own);
    let neg = angular::Vector::from(a.iter().map(|v| -v).collect::<Vec<_>>());
    let opp = x.dist(&neg).into_inner();
    ensure!((opp as f64 - 2.0).abs() <= tol(2.0, dim), "distance {} of a vector to its opposite", opp);
    let it: angular::Vector = a.iter().copied().collect();
    ensure!(it.dist(&y).into_inner() == d, "a collected vector has another distance");
    cx.label(match c.b {
        Rel::Independent(_) => "independent",
        Rel::Parallel(_) => "parallel",
        Rel::Opposite(_) => "opposite",
        Rel::Near(..) => "near",
        Rel::Rotated => "orthogonal",
    });
    cx.metric("error", (d as f64 - reference).abs());
    cx.label_if(dim > 500, "dimension > 500");
    cx.nontrivial = dim > 1;
    Ok(())
}

#[derive(Serialize, Deserialize)]
struct BytePair {
    dim: usize,
    seed: u64,
    shape: usize,
    rel: usize,
    set: Vec<(usize, i8)>,
    raw: Option<Pair>,
}

fn run_byte_pair(c: &BytePair, cx: &mut Cx) -> Res {
    let (x, y): (angular_int::Vector, angular_int::Vector) = match &c.raw {
        Some(p) => {
            let a = p.a.values();
            let b = second(&a, &p.b);
            if is_zero(&a) || is_zero(&b) {
                return Ok(());
            }
            let x: angular_int::Vector = a.clone().into();
            // scaling by a power of two does not change the quantized vector
            let f = 2f32.powi((p.scale * 8.0) as i32 % 20);
            let sx: angular_int::Vector = a.iter().map(|v| v * f).collect();
            ensure!(sx.as_slice() == x.as_slice(), "quantizing a vector scaled by {} gives another vector", f);
            cx.label("quantized");
            (x, b.into())
        }
        None => {
            let mut rng = Rng(c.seed);
            rng.u64();
            let mut one = || -> Vec<i8> {
                (0..c.dim)
                    .map(|_| match c.shape {
                        0 => rng.u64() as i8,
                        1 => [i8::MIN, 127, -127][rng.below(3)],
                        2 => rng.below(3) as i8 - 1,
                        _ => {
                            if rng.below(6) == 0 {
                                rng.u64() as i8
                            } else {
                                0
                            }
                        }
                    })
                    .collect()
            };
            let mut a = one();
            let mut b = one();
            for &(i, v) in &c.set {
                a[i % c.dim] = v;
            }
            match c.rel {
                1 => b = a.clone(),
                2 => b = a.iter().map(|v| v.saturating_neg()).collect(),
                3 => b = a.iter().map(|v| v / 2).collect(),
                _ => {}
            }
            if a.iter().all(|v| *v == 0) || b.iter().all(|v| *v == 0) {
                cx.label("zero");
                return Ok(());
            }
            cx.label_if(a.contains(&i8::MIN) || b.contains(&i8::MIN), "contains -128");
            (angular_int::Vector(a.into()), angular_int::Vector(b.into()))
        }
    };
    let f = |v: &angular_int::Vector| v.as_slice().iter().map(|&x| x as f64).collect::<Vec<_>>();
    let reference = cos_dist(&f(&x), &f(&y));
    let d = x.dist(&y).into_inner();
    in_range("quantized", d)?;
    ensure!((d as f64 - reference).abs() <= 3e-6, "distance {} of quantized vectors, reference {}", d, reference);
    let back = y.dist(&x).into_inner();
    ensure!((back - d).abs() <= 1e-6, "distance {} one way, {} the other", d, back);
    let own = x.dist(&x).into_inner();
    ensure!(own <= 3e-6, "distance {} of a quantized vector to itself", own);
    cx.metric("error", (d as f64 - reference).abs());
    cx.nontrivial = x.len() > 1;
    Ok(())
}

/// A user-defined container with only the required methods.
struct Minimal<'a, K: ElementContainer>(&'a K);

impl<K: ElementContainer> ElementContainer for Minimal<'_, K> {
    type Element = K::Element;
    fn get(&self, idx: usize) -> K::Element {
        self.0.get(idx)
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn dist_to_element(&self, idx: usize, e: &K::Element) -> NotNan<f32> {
        self.0.dist_to_element(idx, e)
    }
}

#[derive(Serialize, Deserialize)]
struct Batch {
    data: Data,
    offset: usize,
    idx: usize,
    others: Vec<usize>,
    query: usize,
}

type RefDist<E> = fn(&E, &E) -> f64;

fn check_container<C: ElementContainer>(
    what: &str,
    c: &C,
    b: &Batch,
    want: &[f32],
    q: &C::Element,
    elements: &[C::Element],
    refd: RefDist<C::Element>,
    dim: usize,
) -> Res {
    ensure!(c.len() == b.data.n, "{}: {} elements", what, c.len());
    ensure!(c.is_empty() == (b.data.n == 0), "{}: is_empty() with {} elements", what, c.len());
    let got: Vec<f32> = c.dists(b.idx, &b.others).into_iter().map(|d| d.into_inner()).collect();
    ensure!(got.len() == b.others.len(), "{}: {} distances for {} ids", what, got.len(), b.others.len());
    for (k, &j) in b.others.iter().enumerate() {
        let ways = [
            ("dists", got[k]),
            ("dist", c.dist(b.idx, j).into_inner()),
            ("dist reversed", c.dist(j, b.idx).into_inner()),
            ("dist_to_element", c.dist_to_element(j, &elements[b.idx]).into_inner()),
            ("dist_to_element reversed", c.dist_to_element(b.idx, &elements[j]).into_inner()),
        ];
        for (name, d) in ways {
            ensure!(
                (d - want[k]).abs() <= 1e-6,
                "{}: {} gives {} for elements {} and {}, the vectors give {}",
                what,
                name,
                d,
                b.idx,
                j,
                want[k]
            );
        }
        let d = c.dist_to_element(j, q).into_inner();
        let r = refd(&elements[j], q);
        ensure!((d as f64 - r).abs() <= tol(r, dim), "{}: element {} has distance {} to the query, reference {}", what, j, d, r);
    }
    Ok(())
}

fn run_batch<V>(c: &Batch, cx: &mut Cx) -> Res
where
    V: ContainerPaths,
{
    V::check(c, cx)
}

trait ContainerPaths {
    fn check(c: &Batch, cx: &mut Cx) -> Res;
}

macro_rules! dense_paths {
    ($m:ident, $enc:expr) => {
        impl ContainerPaths for $m::Vectors<'static> {
            fn check(c: &Batch, cx: &mut Cx) -> Res {
                let d = &c.data;
                let vectors = <Self as Kit>::make(d);
                let list: Vec<$m::Vector<'static>> = (0..d.n).map(|i| vectors.get(i)).collect();
                let q = <Self as Kit>::query(d, c.query);
                let want: Vec<f32> = c.others.iter().map(|&j| list[c.idx].dist(&list[j]).into_inner()).collect();
                for (k, &j) in c.others.iter().enumerate() {
                    let r = <Self as Kit>::ref_dist(&list[c.idx], &list[j]);
                    ensure!(
                        (want[k] as f64 - r).abs() <= tol(r, d.dim),
                        "distance {} between {} and {}, reference {}", want[k], c.idx, j, r
                    );
                }
                let rd: RefDist<$m::Vector<'static>> = <Self as Kit>::ref_dist;
                let mut bytes = vec![];
                granne::Writeable::write(&vectors, &mut bytes).map_err(|e| e.to_string())?;
                let a = Aligned::new(&bytes, c.offset);
                let f = temp_file("vectors.bin", &bytes);
                let mapped = unsafe { $m::Vectors::from_file(&f) }.map_err(|e| e.to_string())?;
                let loaded = $m::Vectors::from_bytes(a.get());
                check_container("vectors", &vectors, c, &want, &q, &list, rd, d.dim)?;
                check_container("reference to vectors", &&vectors, c, &want, &q, &list, rd, d.dim)?;
                check_container("borrowed vectors", &vectors.borrow(), c, &want, &q, &list, rd, d.dim)?;
                check_container("loaded vectors", &loaded, c, &want, &q, &list, rd, d.dim)?;
                check_container("mapped vectors", &mapped, c, &want, &q, &list, rd, d.dim)?;
                check_container("list of vectors", &list, c, &want, &q, &list, rd, d.dim)?;
                check_container("slice of vectors", &&list[..], c, &want, &q, &list, rd, d.dim)?;
                check_container("user-defined container", &Minimal(&vectors), c, &want, &q, &list, rd, d.dim)?;
                cx.nontrivial = c.others.len() > 1 && d.n > 1;
                Ok(())
            }
        }
    };
}

dense_paths!(angular, fmt::encode_f32);
dense_paths!(angular_int, fmt::encode_f32);

impl ContainerPaths for SumEmbeddings<'static> {
    fn check(c: &Batch, cx: &mut Cx) -> Res {
        let d = &c.data;
        let e = <Self as Kit>::make(d);
        let list: Vec<angular::Vector<'static>> = (0..d.n)
            .map(|i| {
                // independent sum
                let mut v = vec![0.0f64; d.dim];
                for t in d.terms(i) {
                    for (x, y) in v.iter_mut().zip(d.base_row(t)) {
                        *x += y as f64;
                    }
                }
                angular::Vector::from(v.into_iter().map(|x| x as f32).collect::<Vec<_>>())
            })
            .collect();
        let q = <Self as Kit>::query(d, c.query);
        let rd: RefDist<angular::Vector<'static>> = <Self as Kit>::ref_dist;
        // the sums are rounded in another way, so the exact values come from the container itself
        let got: Vec<angular::Vector<'static>> = (0..d.n).map(|i| e.get(i)).collect();
        let want: Vec<f32> = c.others.iter().map(|&j| got[c.idx].dist(&got[j]).into_inner()).collect();
        for (k, &j) in c.others.iter().enumerate() {
            if is_zero(list[c.idx].as_slice()) || is_zero(list[j].as_slice()) {
                continue;
            }
            let small = |v: &angular::Vector| v.as_slice().iter().any(|x| x.is_nan());
            ensure!(!small(&got[j]), "element {} contains NaN", j);
            let r = rd(&list[c.idx], &list[j]);
            // cancellation in the sums can make them inaccurate
            if d.terms(c.idx).len() == 1 && d.terms(j).len() == 1 {
                ensure!((want[k] as f64 - r).abs() <= tol(r, d.dim), "distance {} between {} and {}, reference {}", want[k], c.idx, j, r);
            } else {
                ensure!((want[k] as f64 - r).abs() <= 1e-3, "distance {} between {} and {}, reference {}", want[k], c.idx, j, r);
            }
        }
        check_container("sum embeddings", &e, c, &want, &q, &got, rd, d.dim)?;
        check_container("reference to sum embeddings", &&e, c, &want, &q, &got, rd, d.dim)?;
        check_container("borrowed sum embeddings", &e.borrow(), c, &want, &q, &got, rd, d.dim)?;
        check_container("user-defined container", &Minimal(&e), c, &want, &q, &got, rd, d.dim)?;
        cx.nontrivial = c.others.len() > 1 && d.n > 1;
        Ok(())
    }
}

pub fn p10() -> Property {
    Property {
        id: "P10",
        rule: "A case is a pair of vectors (independent, parallel, opposite, nearly equal or orthogonal; dimensions up to 3000; \
               magnitudes 1e-12 to 1e12; raw signed bytes including -128) or a collection with a batch of ids, compared with \
               a double precision cosine and across all access paths. Non-trivial: dimension above 1 (pairs), at least two \
               ids (batches).",
        level: "exploration",
        assumptions: vec!["tolerance 1e-5 + 2e-8 dim for floats, 3e-6 for quantized vectors", "squares of the components neither overflow nor vanish in f32"],
        families: vec![
            family("float pairs", 250_000, 8_000_000, |s| gen_pair(s, 12), run_float_pair),
            family(
                "byte pairs",
                250_000,
                8_000_000,
                |s| {
                    let dim = gen_dim(s);
                    BytePair {
                        dim,
                        seed: s.seed(),
                        shape: s.range(0, 3),
                        rel: s.range(0, 3),
                        set: s.list(0, 3, |s| (s.range(0, dim - 1), s.pick(&[-128i8, 127, 0, 1, -1]))),
                        raw: if s.bool() { Some(gen_pair(s, 25)) } else { None },
                    }
                },
                run_byte_pair,
            ),
            family(
                "batches",
                16_000,
                400_000,
                |s| {
                    let n = s.num(1, 40);
                    let kind = s.pick(&[Kind::F32, Kind::I8, Kind::Sum]);
                    let data = gen_data_n(s, kind, n);
                    Batch {
                        data,
                        offset: s.range(0, 7),
                        idx: s.range(0, n - 1),
                        others: s.list(0, 50, |s| s.range(0, n - 1)),
                        query: s.range(0, 100),
                    }
                },
                |c: &Batch, cx| match c.data.kind {
                    Kind::I8 => run_batch::<angular_int::Vectors>(c, cx),
                    Kind::Sum => run_batch::<SumEmbeddings>(c, cx),
                    _ => run_batch::<angular::Vectors>(c, cx),
                },
            ),
        ],
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize)]
struct Convert {
    raw: Raw,
    zero: bool,
}

fn run_normalize(c: &Convert, cx: &mut Cx) -> Res {
    let v = if c.zero { vec![0.0; c.raw.dim] } else { c.raw.values() };
    let x = angular::Vector::from(v.clone());
    let it: angular::Vector = v.iter().copied().collect();
    ensure!(x.len() == v.len(), "{} components instead of {}", x.len(), v.len());
    ensure!(
        x.as_slice().iter().zip(it.as_slice()).all(|(a, b)| a.to_bits() == b.to_bits()),
        "collecting and converting give different vectors"
    );
    if is_zero(&v) {
        ensure!(is_zero(x.as_slice()), "the zero vector became {:?}", x.as_slice());
        cx.label("zero");
        return Ok(());
    }
    let norm = v.iter().map(|x| (*x as f64).powi(2)).sum::<f64>().sqrt();
    let unit = x.as_slice().iter().map(|x| (*x as f64).powi(2)).sum::<f64>().sqrt();
    ensure!((unit - 1.0).abs() < 1e-5, "a vector of norm {} became one of norm {}", norm, unit);
    for (i, (&a, &b)) in v.iter().zip(x.as_slice()).enumerate() {
        let want = a as f64 / norm;
        ensure!(
            (b as f64 - want).abs() <= want.abs() * 1e-5 + 1e-37,
            "component {} is {} of norm {}, normalized {} instead of {}",
            i,
            a,
            norm,
            b,
            want
        );
    }
    // pushing stores the vector as it is
    let mut vs = angular::Vectors::new();
    vs.push(&x);
    ensure!(vs.get_element(0).as_slice() == x.as_slice(), "pushing changed the vector");
    cx.nontrivial = v.len() > 1;
    cx.label_if(c.raw.exp.abs() > 6, "extreme magnitude");
    cx.label_if(v.len() > 500, "dimension > 500");
    cx.metric("norm_error", (unit - 1.0).abs());
    Ok(())
}

fn run_quantize(c: &Convert, cx: &mut Cx) -> Res {
    let v = if c.zero { vec![0.0; c.raw.dim] } else { c.raw.values() };
    let x = angular_int::Vector::from(v.clone());
    let it: angular_int::Vector = v.iter().copied().collect();
    ensure!(x.len() == v.len(), "{} components instead of {}", x.len(), v.len());
    ensure!(x.as_slice() == it.as_slice(), "collecting and converting give different vectors");
    if is_zero(&v) {
        ensure!(x.as_slice().iter().all(|b| *b == 0), "the zero vector became {:?}", x.as_slice());
        cx.label("zero");
        return Ok(());
    }
    let max = v.iter().fold(0.0f64, |m, x| m.max((*x as f64).abs()));
    for (i, (&a, &b)) in v.iter().zip(x.as_slice()).enumerate() {
        let want = a as f64 * 127.0 / max;
        let ok = b as f64 == want.trunc() || ((want - want.round()).abs() < 1e-4 && (b as f64 - want).abs() < 1.001);
        ensure!(ok, "component {} is {} (largest magnitude {}), quantized {} instead of {}", i, a, max, b, want);
        ensure!(b == 0 || (b > 0) == (a > 0.0), "component {} changed its sign: {} to {}", i, a, b);
        if a.abs() as f64 == max {
            ensure!(b.abs() == 127, "the largest component {} became {}", a, b);
        }
    }
    cx.nontrivial = v.len() > 1;
    cx.label_if(c.raw.exp.abs() > 12, "extreme magnitude");
    cx.label_if(x.as_slice().contains(&-127), "contains -127");
    Ok(())
}

pub fn p11() -> Property {
    Property {
        id: "P11",
        rule: "A case is a raw vector (random, sparse, of few large components, of integers; explicit components; magnitudes \
               1e-15..1e15 for floats, 1e-30..1e30 for quantized vectors; all zeros) converted to a float or quantized vector. \
               Non-trivial: not all zero, dimension above 1.",
        level: "exploration",
        assumptions: vec![
            "relative tolerance 1e-5; a proportional value within 1e-4 of an integer may be truncated either way",
            "finite components whose squares neither overflow nor vanish in f32 (float vectors); magnitudes up to 1e30 (quantized vectors)",
        ],
        families: vec![
            family(
                "normalize",
                300_000,
                10_000_000,
                |s| {
                    let dim = gen_dim(s);
                    Convert { raw: gen_raw(s, dim, 15), zero: s.chance(1, 50) }
                },
                run_normalize,
            ),
            family(
                "quantize",
                300_000,
                10_000_000,
                |s| {
                    let dim = gen_dim(s);
                    Convert { raw: gen_raw(s, dim, 30), zero: s.chance(1, 50) }
                },
                run_quantize,
            ),
        ],
    }
}
