//! Failing destinations (P18).

use crate::data::*;
use crate::engine::*;
use crate::oracle::*;
use crate::{dispatch, ensure, fmt};
use granne::embeddings::{parsing, SumEmbeddings};
use granne::{Builder, GranneBuilder, Index, RwGranneBuilder, Writeable};
use serde::{Deserialize, Serialize};
use std::io::{self, ErrorKind, Seek, SeekFrom, Write};

const ERRORS: [ErrorKind; 5] =
    [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::PermissionDenied, ErrorKind::TimedOut];

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
enum Fault {
    /// from this call on, every call fails
    Error(usize),
    /// only this call fails
    ErrorOnce(usize),
    /// from this call on, writes accept nothing
    Zero,
    ZeroOnce,
    /// only part of the data of this call is accepted, later calls fail
    ShortThenError(usize),
    /// only part of the data of this call is accepted
    ShortOnce(usize),
    InterruptedOnce,
    /// no room after this many bytes (`at` counts bytes)
    Full,
    /// random partial and interrupted writes
    Rough(u64),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Call {
    Write(usize),
    Seek,
    Flush,
}

/// A destination in memory which fails as told.
struct Dest {
    bytes: Vec<u8>,
    pos: usize,
    calls: Vec<Call>,
    fault: Option<(usize, Fault)>,
    rng: Rng,
    /// some call returned an error other than Interrupted (or accepted nothing)
    hit: bool,
    sticky: bool,
}

impl Dest {
    fn new(fault: Option<(usize, Fault)>) -> Self {
        let seed = if let Some((_, Fault::Rough(s))) = fault { s } else { 0 };
        let sticky = !matches!(fault, None | Some((_, Fault::ErrorOnce(_))) | Some((_, Fault::ZeroOnce)));
        Dest { bytes: vec![], pos: 0, calls: vec![], fault, rng: Rng(seed), hit: false, sticky }
    }
    fn put(&mut self, data: &[u8]) -> io::Result<usize> {
        let end = self.pos + data.len();
        if self.bytes.len() < end {
            self.bytes.resize(end, 0);
        }
        self.bytes[self.pos..end].copy_from_slice(data);
        self.pos = end;
        Ok(data.len())
    }
    fn fail(&mut self, k: usize) -> io::Error {
        self.hit = true;
        io::Error::new(ERRORS[k % ERRORS.len()], "injected")
    }
    fn other(&mut self, call: Call) -> io::Result<()> {
        let n = self.calls.len();
        self.calls.push(call);
        match self.fault {
            Some((at, Fault::Error(k))) if n >= at => Err(self.fail(k)),
            Some((at, Fault::ShortThenError(k))) if n > at => Err(self.fail(k)),
            Some((at, Fault::ErrorOnce(k))) if n == at => Err(self.fail(k)),
            _ => Ok(()),
        }
    }
}

impl Write for Dest {
    fn write(&mut self, data: &[u8]) -> io::Result<usize> {
        let n = self.calls.len();
        self.calls.push(Call::Write(data.len()));
        assert!(n < 5_000_000, "the destination is called endlessly");
        if data.is_empty() {
            return Ok(0);
        }
        let part = |k: usize| (k % data.len()).max(1);
        match self.fault {
            Some((at, Fault::Error(k))) if n >= at => Err(self.fail(k)),
            Some((at, Fault::ErrorOnce(k))) if n == at => Err(self.fail(k)),
            Some((at, Fault::Zero)) if n >= at => {
                self.hit = true;
                Ok(0)
            }
            Some((at, Fault::ZeroOnce)) if n == at => {
                self.hit = true;
                Ok(0)
            }
            Some((at, Fault::ShortThenError(k))) if n == at => self.put(&data[..part(k)]),
            Some((at, Fault::ShortThenError(k))) if n > at => Err(self.fail(k)),
            Some((at, Fault::ShortOnce(k))) if n == at => self.put(&data[..part(k)]),
            Some((at, Fault::InterruptedOnce)) if n == at => Err(io::Error::new(ErrorKind::Interrupted, "injected")),
            Some((at, Fault::Full)) => {
                let room = at.saturating_sub(self.pos);
                if room == 0 {
                    self.hit = true;
                    return Err(io::Error::new(ErrorKind::StorageFull, "injected"));
                }
                let l = data.len().min(room);
                self.put(&data[..l])
            }
            Some((_, Fault::Rough(_))) => match self.rng.below(4) {
                0 => Err(io::Error::new(ErrorKind::Interrupted, "injected")),
                1 => self.put(&data[..1]),
                2 => {
                    let l = 1 + self.rng.below(data.len());
                    self.put(&data[..l])
                }
                _ => self.put(data),
            },
            _ => self.put(data),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        self.other(Call::Flush)
    }
}

impl Seek for Dest {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.other(Call::Seek)?;
        self.pos = match to {
            SeekFrom::Start(p) => p as i64,
            SeekFrom::Current(o) => self.pos as i64 + o,
            SeekFrom::End(o) => self.bytes.len() as i64 + o,
        } as usize;
        Ok(self.pos as u64)
    }
}

/// Calls `write` with every fault at every call of the destination (at most `budget` positions) and returns the number of
/// injected faults. `write` returns the reported number of bytes, if there is such a report.
fn inject(
    what: &str,
    budget: usize,
    seed: u64,
    cx: &mut Cx,
    write: &mut dyn FnMut(&mut Dest) -> io::Result<Option<usize>>,
) -> Result<usize, String> {
    let mut rng = Rng(seed);
    let mut clean = Dest::new(None);
    let n = write(&mut clean).map_err(|e| format!("{}: undisturbed write failed: {}", what, e))?;
    let good = clean.bytes;
    if let Some(n) = n {
        ensure!(n == good.len(), "{}: {} bytes reported, {} written", what, n, good.len());
    }
    let calls = clean.calls;
    let mut points: Vec<(usize, Fault)> = vec![];
    let mut at: Vec<usize> = (0..calls.len()).collect();
    if at.len() > budget {
        // first, last and random calls
        rng.shuffle(&mut at[budget / 3..calls.len() - budget / 3]);
        let tail = at.split_off(calls.len() - budget / 3);
        at.truncate(budget - budget / 3);
        at.extend(tail);
    } else {
        cx.label("every call of the destination");
    }
    for &k in &at {
        let r = rng.below(1000);
        points.push((k, Fault::Error(r)));
        points.push((k, Fault::ErrorOnce(r)));
        if let Call::Write(len) = calls[k] {
            points.push((k, Fault::Zero));
            points.push((k, Fault::ZeroOnce));
            points.push((k, Fault::InterruptedOnce));
            points.push((k, Fault::ShortOnce(rng.below(len.max(1)))));
            points.push((k, Fault::ShortThenError(rng.below(len.max(1)))));
        }
    }
    let mut sizes: Vec<usize> = if good.len() <= budget {
        (0..good.len()).collect()
    } else {
        (0..budget / 3).map(|_| rng.below(good.len())).collect()
    };
    if !good.is_empty() {
        sizes.push(good.len() - 1);
        points.extend(sizes.into_iter().map(|s| (s, Fault::Full)));
    }
    for _ in 0..3 {
        points.push((0, Fault::Rough(rng.u64())));
    }
    let total = points.len();
    for (k, f) in points {
        let mut dest = Dest::new(Some((k, f)));
        let r = no_panic(|| write(&mut dest)).map_err(|p| format!("{}: {:?} at {}: {}", what, f, k, p))?;
        let call = calls.get(k);
        match r {
            Ok(n) => {
                ensure!(
                    dest.bytes == good,
                    "{}: success reported with {:?} at {} ({:?} of {} calls), but {} of {} bytes are right",
                    what,
                    f,
                    k,
                    call,
                    calls.len(),
                    dest.bytes.iter().zip(&good).take_while(|(a, b)| a == b).count(),
                    good.len()
                );
                if let Some(n) = n {
                    ensure!(n == good.len(), "{}: {:?} at {}: {} bytes reported of {}", what, f, k, n, good.len());
                }
                ensure!(
                    !(dest.hit && dest.sticky),
                    "{}: success reported although the destination kept failing ({:?} at {}, {:?} of {} calls)",
                    what,
                    f,
                    k,
                    call,
                    calls.len()
                );
            }
            Err(e) => {
                let benign = matches!(f, Fault::ShortOnce(_) | Fault::InterruptedOnce | Fault::Rough(_));
                ensure!(!benign, "{}: {:?} at {} ({:?}) made writing fail: {}", what, f, k, call, e);
                ensure!(dest.hit, "{}: {:?} at {}: error without a failing call: {}", what, f, k, e);
            }
        }
    }
    cx.metric("faults", total as f64);
    cx.metric("calls", calls.len() as f64);
    Ok(total)
}

// ------------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize)]
struct IndexCase {
    spec: IndexSpec,
    budget: usize,
    seed: u64,
}

fn run_index<K: Kit>(c: &IndexCase, cx: &mut Cx) -> Res {
    let mut faults = 0;
    with_index::<K, ()>(&c.spec, |index| {
        faults += inject("write_index", c.budget, c.seed, cx, &mut |d| index.write_index(d).map(|_| None))?;
        faults += inject("write_elements", c.budget, c.seed, cx, &mut |d| index.write_elements(d).map(Some))?;
        let bytes = write_index(index)?;
        let b = GranneBuilder::from_bytes(granne::BuildConfig::new().num_neighbors(128), &bytes, index.get_elements().clone());
        faults += inject("builder.write_index", c.budget, c.seed, cx, &mut |d| b.write_index(d).map(|_| None))?;
        faults += inject("builder.write_elements", c.budget, c.seed, cx, &mut |d| b.write_elements(d).map(Some))?;
        Ok(())
    })?;
    cx.label(format!("{:?}", c.spec.data.kind));
    cx.nontrivial = faults > 0 && c.spec.data.n > 0;
    Ok(())
}

fn run_index_any(c: &IndexCase, cx: &mut Cx) -> Res {
    match c.spec.data.kind {
        // written by the harness itself
        Kind::L2 => {
            let spec = IndexSpec { data: Data { kind: Kind::F32, ..c.spec.data.clone() }, ..c.spec.clone() };
            run_index::<granne::angular::Vectors<'static>>(&IndexCase { spec, ..*c }, cx)
        }
        kind => dispatch!(kind, run_index, c, cx),
    }
}

#[derive(Serialize, Deserialize)]
struct RwCase {
    data: Data,
    cfg: Cfg,
    room: usize,
    initial: usize,
    budget: usize,
    seed: u64,
    /// positions of the file size limits, out of 1000
    limits: Vec<usize>,
}

fn gen_rw(s: &mut Src) -> RwCase {
    let kind = s.pick(&[Kind::F32, Kind::I8, Kind::Sum]);
    let n = s.num(0, 400);
    RwCase {
        data: gen_data_n(s, kind, n),
        cfg: gen_cfg(s),
        room: s.range(0, 50),
        initial: s.range(0, n),
        budget: 60,
        seed: s.seed(),
        limits: (0..6).map(|_| s.range(0, 999)).collect(),
    }
}

fn make_rw<K: Kit>(c: &RwCase) -> RwGranneBuilder<K> {
    let mut b = GranneBuilder::new(c.cfg.build_config(), K::make_n(&c.data, c.initial));
    b.build();
    let rw = RwGranneBuilder::new(b, c.data.n + c.room, 1);
    rw.insert_batch((c.initial..c.data.n).map(|i| K::internal(&c.data, i)).collect());
    rw
}

fn run_rw<K: Kit>(c: &RwCase, cx: &mut Cx) -> Res {
    let rw = make_rw::<K>(c);
    let mut faults = 0;
    let mut other: Vec<u8> = vec![];
    rw.write(&mut io::Cursor::new(vec![]), &mut other).map_err(|e| e.to_string())?;
    faults += inject("rw.write, index", c.budget, c.seed, cx, &mut |d| {
        let mut elements = vec![];
        let r = rw.write(d, &mut elements);
        if r.is_ok() {
            assert!(elements == other, "the elements are incomplete");
        }
        r.map(|_| None)
    })?;
    let mut index = io::Cursor::new(vec![]);
    rw.write(&mut index, &mut vec![]).map_err(|e| e.to_string())?;
    faults += inject("rw.write, elements", c.budget, c.seed, cx, &mut |d| {
        let mut i = io::Cursor::new(vec![]);
        let r = rw.write(&mut i, d);
        if r.is_ok() {
            assert!(i.get_ref() == index.get_ref(), "the index is incomplete");
        }
        r.map(|_| None)
    })?;
    // after failed saves, everything still works
    let v = rw.len();
    ensure!(v == c.data.n, "{} elements after failed saves, {} before", v, c.data.n);
    let mut again = io::Cursor::new(vec![]);
    let mut elements = vec![];
    rw.write(&mut again, &mut elements).map_err(|e| e.to_string())?;
    ensure!(again.get_ref() == index.get_ref() && elements == other, "a save after failed saves is different");
    let (index, elements) = (again.into_inner(), elements);

    // files
    let (ip, ep) = (temp_path("index"), temp_path("elements"));
    let r = files(c, &rw, &index, &elements, &ip, &ep, &mut faults);
    std::fs::remove_file(&ip).ok();
    std::fs::remove_file(&ep).ok();
    r?;
    cx.label(format!("{:?}", c.data.kind));
    cx.nontrivial = faults > 0 && c.data.n > 0;
    Ok(())
}

fn files<K: Kit>(c: &RwCase, rw: &RwGranneBuilder<K>, index: &[u8], elements: &[u8], ip: &str, ep: &str, faults: &mut usize) -> Res {
    let check = |what: &str, must_fail: bool, r: io::Result<()>, ip: &str, ep: &str| -> Res {
        if r.is_ok() {
            ensure!(!must_fail, "{}: success reported", what);
            ensure!(std::fs::read(ip).ok().as_deref() == Some(index), "{}: success reported, but the index file is wrong", what);
            ensure!(std::fs::read(ep).ok().as_deref() == Some(elements), "{}: success reported, but the elements file is wrong", what);
        }
        Ok(())
    };
    check("save", false, rw.save_index_and_elements_to_disk(ip, ep), ip, ep)?;
    ensure!(std::fs::read(ip).ok().as_deref() == Some(index), "save: the index file is wrong");
    check("index to /dev/full", true, rw.save_index_and_elements_to_disk("/dev/full", ep), "/dev/full", ep)?;
    check("elements to /dev/full", !elements.is_empty(), rw.save_index_and_elements_to_disk(ip, "/dev/full"), ip, "/dev/full")?;
    let nowhere = format!("{}/no/such/file", crate::engine::scratch());
    check("index to nowhere", true, rw.save_index_and_elements_to_disk(&nowhere, ep), &nowhere, ep)?;
    check("elements to nowhere", true, rw.save_index_and_elements_to_disk(ip, &nowhere), ip, &nowhere)?;
    *faults += 4;
    let largest = index.len().max(elements.len());
    for (k, &l) in c.limits.iter().enumerate() {
        let limit = match k {
            0 => largest - 1,
            1 => index.len().saturating_sub(1 + l % 50),
            2 => elements.len().saturating_sub(1 + l % 50),
            _ => largest * l / 1000,
        };
        let r = with_limit(limit, || rw.save_index_and_elements_to_disk(ip, ep));
        check(&format!("at most {} bytes per file (index {}, elements {})", limit, index.len(), elements.len()), limit < largest, r, ip, ep)?;
        *faults += 1;
    }
    Ok(())
}

/// Runs `f` while files cannot grow beyond `limit` bytes.
fn with_limit<R>(limit: usize, f: impl FnOnce() -> R) -> R {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut old: libc::rlimit = std::mem::zeroed();
        assert_eq!(libc::getrlimit(libc::RLIMIT_FSIZE, &mut old), 0, "HARNESS: getrlimit");
        let new = libc::rlimit { rlim_cur: limit as u64, rlim_max: old.rlim_max };
        assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &new), 0, "HARNESS: setrlimit");
        struct Back(libc::rlimit);
        impl Drop for Back {
            fn drop(&mut self) {
                unsafe {
                    libc::setrlimit(libc::RLIMIT_FSIZE, &self.0);
                }
            }
        }
        let _back = Back(old);
        f()
    }
}

fn run_rw_any(c: &RwCase, cx: &mut Cx) -> Res {
    dispatch!(c.data.kind, run_rw, c, cx)
}

// ------------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize)]
struct ElementsCase {
    lists: Vec<Vec<usize>>,
    table: usize,
    dim: usize,
    budget: usize,
    seed: u64,
}

fn run_elements(c: &ElementsCase, cx: &mut Cx) -> Res {
    let mut rng = Rng(c.seed);
    let mut e = SumEmbeddings::new();
    for _ in 0..c.table {
        let v: Vec<f32> = (0..c.dim).map(|_| rng.gauss() as f32).collect();
        e.push_embedding(&v);
    }
    for l in &c.lists {
        e.push(l.clone());
    }
    inject("SumEmbeddings::write", c.budget, c.seed, cx, &mut |d| e.write(d).map(Some))?;
    inject("SumEmbeddings::write_embeddings", c.budget, c.seed, cx, &mut |d| e.write_embeddings(d).map(Some))?;
    cx.nontrivial = !c.lists.is_empty() && c.table > 0;
    Ok(())
}

// ------------------------------------------------------------------------------------------------

/// The functions which write files of parsed elements: they have no result to report errors with, so they must panic.
#[derive(Serialize, Deserialize)]
struct ParseCase {
    lines: usize,
    words: usize,
    shards: usize,
    dim: usize,
    seed: u64,
    limits: Vec<usize>,
}

fn run_parse(c: &ParseCase, cx: &mut Cx) -> Res {
    let dir = temp_path("p18");
    std::fs::remove_dir_all(&dir).ok();
    std::fs::create_dir_all(&dir).expect("HARNESS: scratch");
    let r = run_parse_in(c, &dir, cx);
    std::fs::remove_dir_all(&dir).ok();
    r
}

fn run_parse_in(c: &ParseCase, dir: &str, cx: &mut Cx) -> Res {
    let path = |n: &str| std::path::PathBuf::from(format!("{}/{}", dir, n));
    let mut rng = Rng(c.seed);
    let words: String = (0..c.words).map(|i| format!("\"w{}\"\n", i)).collect();
    std::fs::write(path("words"), words).expect("HARNESS: write");
    let mut lists = vec![];
    let mut body = String::new();
    for _ in 0..c.lines {
        let l: Vec<usize> = (0..rng.below(5)).map(|_| rng.below(c.words)).collect();
        body.push_str(&format!("\"{}\"\n", l.iter().map(|i| format!("w{}", i)).collect::<Vec<_>>().join(" ")));
        lists.push(l);
    }
    std::fs::write(path("input"), body).expect("HARNESS: write");
    let table: Vec<Vec<f32>> = (0..c.words).map(|_| (0..c.dim).map(|_| rng.gauss() as f32).collect()).collect();
    std::fs::write(path("table"), fmt::encode_f32(&table, c.dim)).expect("HARNESS: write");
    std::fs::write(path("elements"), fmt::encode_lists(&lists)).expect("HARNESS: write");
    std::fs::create_dir(path("out")).expect("HARNESS: create_dir");

    type Op<'a> = (&'a str, Vec<std::path::PathBuf>, Box<dyn Fn() + 'a>);
    let whole = path("whole");
    let shards: Vec<_> = (0..c.shards).map(|i| path("out").join(format!("elements-{}.bin", i))).collect();
    let vectors = path("vectors");
    let ops: Vec<Op> = vec![
        ("elements to one file", vec![whole.clone()], Box::new(|| {
            parsing::parse_elements_and_save_to_disk(&path("input"), &path("words"), &whole, false);
        })),
        ("elements to shards", shards, Box::new(|| {
            parsing::parse_elements_and_save_shards_to_disk(&path("input"), &path("words"), &path("out"), c.shards, false);
        })),
        ("precomputed embeddings", vec![vectors.clone()], Box::new(|| {
            parsing::compute_embeddings_and_save_to_disk(&path("elements"), &path("table"), &vectors, false);
        })),
    ];
    let mut faults = 0;
    for (what, outs, op) in &ops {
        op();
        let good: Vec<Vec<u8>> = outs.iter().map(|o| std::fs::read(o).unwrap_or_default()).collect();
        let clear = || {
            for o in outs {
                std::fs::remove_file(o).ok();
            }
        };
        for (i, o) in outs.iter().enumerate() {
            if good[i].is_empty() {
                continue;
            }
            clear();
            std::os::unix::fs::symlink("/dev/full", o).expect("HARNESS: symlink");
            ensure!(no_panic(|| op()).is_err(), "{}: file {} of {} leads to a full device, but no failure is reported", what, i, outs.len());
            faults += 1;
        }
        let largest = good.iter().map(|g| g.len()).max().unwrap_or(0);
        for (k, &l) in c.limits.iter().enumerate() {
            if largest == 0 {
                continue;
            }
            let limit = if k == 0 { largest - 1 } else { largest * l / 1000 };
            clear();
            let r = with_limit(limit, || no_panic(|| op()));
            faults += 1;
            if r.is_ok() {
                for (i, o) in outs.iter().enumerate() {
                    ensure!(
                        std::fs::read(o).ok().as_ref() == Some(&good[i]),
                        "{}: files cannot be larger than {} bytes, {} has {}, but no failure is reported",
                        what,
                        limit,
                        i,
                        good[i].len()
                    );
                }
            }
        }
        clear();
    }
    cx.metric("faults", faults as f64);
    cx.nontrivial = c.lines > 1;
    Ok(())
}

pub fn p18() -> Property {
    Property {
        id: "P18",
        rule: "A case is an object to write and a set of faults: for every call (at most 60 chosen ones if there are more) the \
               destination receives in an undisturbed write, every applicable fault of an error, a permanent error, nothing \
               accepted, part accepted with and without a later error and an interruption, for every (or a choice of) size at \
               which the destination is full, and random partial writes; or files on a full device, or limited in size. \
               Non-trivial: at least one fault was injected and the object is not empty.",
        level: "fault_enumeration",
        assumptions: vec!["a destination keeps what it accepts and fails no other way"],
        families: vec![
            family(
                "searchable indexes and builders",
                12_000,
                300_000,
                |s| IndexCase { spec: gen_index(s, 150, 300), budget: 60, seed: s.seed() },
                run_index_any,
            ),
            family("concurrent builder", 3_000, 80_000, gen_rw, run_rw_any),
            family(
                "lists of ids and tables",
                10_000,
                300_000,
                |s| {
                    let table = s.num(0, 300);
                    ElementsCase {
                        lists: s.list(0, 400, |s| if table == 0 { vec![] } else { s.list(0, 8, |s| s.range(0, table - 1)) }),
                        table,
                        dim: s.num(1, 20),
                        budget: 60,
                        seed: s.seed(),
                    }
                },
                run_elements,
            ),
            family(
                "parsing to files",
                2_500,
                60_000,
                |s| ParseCase {
                    lines: match s.weighted(&[3, 1]) {
                        0 => s.num(0, 60),
                        _ => s.range(0, 8_000),
                    },
                    words: s.num(1, 60),
                    shards: s.range(1, 5),
                    dim: s.num(1, 30),
                    seed: s.seed(),
                    limits: (0..5).map(|_| s.range(0, 999)).collect(),
                },
                run_parse,
            ),
        ],
    }
}
