//! Parsing text elements and precomputing embeddings (P14).

use super::p17::{gen_threads, maybe_in_pool};
use crate::data::*;
use crate::engine::*;
use crate::ensure;
use crate::fmt;
use granne::embeddings::{parsing, SumEmbeddings};
use granne::{angular_int, Writeable};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::io::Write;
use std::path::{Path, PathBuf};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Tok {
    /// a word of the list
    Known(usize),
    /// some other word
    Unknown(usize),
    /// a known word with something attached
    Glued(usize, usize),
    Space(usize),
    Colon,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct File {
    /// sort key of the name
    name: usize,
    gz: bool,
    /// lines after which a new member of the compressed file starts
    members: Vec<usize>,
    crlf: bool,
    /// without a line end after the last line
    open_end: bool,
    lines: Vec<Vec<Tok>>,
    escape: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Out {
    Whole,
    Shards { count: usize, into_dir: bool, ext: bool },
    Direct,
}

#[derive(Serialize, Deserialize)]
struct Case {
    words: usize,
    word_seed: u64,
    dir: bool,
    files: Vec<File>,
    out: Out,
    stale: bool,
    #[serde(default)]
    threads: usize,
    #[serde(default)]
    show: bool,
}

const SPACES: [&str; 12] =
    [" ", "  ", "\t", "\n", "\u{a0}", "\u{2003}", "\u{3000}", "\r", "\u{2028}", "\u{85}", " \u{205f} ", "\u{b}"];
/// not white space
const LOOKALIKES: [&str; 4] = ["\u{200b}", "\u{feff}", "_", "\u{2060}"];
const STEMS: [&str; 16] =
    ["rust", "a", "Hello", "world", "\u{e9}t\u{e9}", "\u{65e5}\u{672c}", "x\"y", "b\\c", "0", "\u{1f600}", "c++", "\u{0}", "don't", "ab", "e\u{301}", "/"];

fn word(seed: u64, i: usize) -> String {
    let mut rng = Rng(seed ^ (i as u64).wrapping_mul(0x51_7CC1_B727_220A));
    rng.u64();
    // the number makes words distinct; some words look alike up to case
    let stem = STEMS[rng.below(STEMS.len())];
    match rng.below(4) {
        0 => format!("{}{}", i, stem),
        1 => format!("w{}", i),
        2 => format!("{}W{}", stem, i),
        _ => format!("{}-{}", stem, i),
    }
}

fn unknown(i: usize) -> String {
    match i % 4 {
        0 => format!("unknown{}", i),
        1 => STEMS[i % STEMS.len()].to_string(),
        2 => LOOKALIKES[i % LOOKALIKES.len()].to_string(),
        _ => format!("W{}", i),
    }
}

fn text(c: &Case, toks: &[Tok]) -> String {
    let mut out = String::new();
    let mut separated = true;
    for t in toks {
        let piece = match t {
            Tok::Known(i) if c.words > 0 => word(c.word_seed, i % c.words),
            Tok::Known(i) | Tok::Unknown(i) => unknown(*i),
            Tok::Glued(i, j) if c.words > 0 => format!("{}{}", word(c.word_seed, i % c.words), LOOKALIKES[j % 4]),
            Tok::Glued(i, _) => unknown(*i),
            Tok::Space(i) => SPACES[i % SPACES.len()].to_string(),
            Tok::Colon => ":".to_string(),
        };
        let sep = matches!(t, Tok::Space(_) | Tok::Colon);
        if !sep && !separated {
            out.push(' ');
        }
        separated = sep;
        out.push_str(&piece);
    }
    out
}

/// What a line should become, independently of the code under test.
fn expect(text: &str, ids: &HashMap<String, usize>) -> Vec<usize> {
    let chars: Vec<char> = text.chars().collect();
    let start = chars.iter().rposition(|&c| c == ':').map_or(0, |p| p + 1);
    let mut out = vec![];
    let mut cur = String::new();
    for &c in chars[start..].iter().chain([' '].iter()) {
        // the characters with the Unicode property White_Space
        let white = matches!(c as u32,
            0x9..=0xd | 0x20 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000);
        if white {
            if let Some(&id) = ids.get(&cur) {
                out.push(id);
            }
            cur.clear();
        } else {
            cur.push(c);
        }
    }
    out
}

fn json_string(s: &str, rng: &mut Rng) -> String {
    let mut out = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' if rng.below(2) == 0 => out.push_str("\\n"),
            '\t' if rng.below(2) == 0 => out.push_str("\\t"),
            '/' if rng.below(2) == 0 => out.push_str("\\/"),
            c if (c as u32) < 0x20 || rng.below(12) == 0 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    if rng.below(2) == 0 {
                        out.push_str(&format!("\\u{:04x}", u));
                    } else {
                        out.push_str(&format!("\\u{:04X}", u));
                    }
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

fn gen_case(s: &mut Src, max_lines: usize) -> Case {
    let words = s.num(0, 60);
    let tok = |s: &mut Src| match s.weighted(&[8, 2, 1, 3, 1]) {
        0 => Tok::Known(s.range(0, words.max(1) - 1)),
        1 => Tok::Unknown(s.range(0, 30)),
        2 => Tok::Glued(s.range(0, words.max(1) - 1), s.range(0, 3)),
        3 => Tok::Space(s.range(0, SPACES.len() - 1)),
        _ => Tok::Colon,
    };
    let dir = s.bool();
    let files = if dir { s.range(0, 5) } else { 1 };
    let files = (0..files)
        .map(|_| {
            let lines = s.list(0, max_lines, |s| s.list(0, 12, tok));
            File {
                name: s.range(0, 400),
                gz: s.chance(1, 3),
                members: s.list(0, 2, |s| s.range(0, lines.len())),
                crlf: s.chance(1, 8),
                open_end: s.chance(1, 4),
                lines,
                escape: s.seed(),
            }
        })
        .collect();
    let out = match s.weighted(&[2, 4, 1]) {
        0 => Out::Whole,
        1 => Out::Shards { count: s.num(1, 12), into_dir: s.bool(), ext: s.bool() },
        _ => Out::Direct,
    };
    Case { words, word_seed: s.seed(), dir, files, out, stale: s.chance(1, 4), threads: gen_threads(s), show: s.chance(1, 8) }
}

struct Dir(PathBuf);

impl Dir {
    fn new(name: &str) -> Dir {
        let p = PathBuf::from(temp_path(name));
        std::fs::remove_dir_all(&p).ok();
        std::fs::create_dir_all(&p).expect("HARNESS: scratch directory");
        Dir(p)
    }
    fn path(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.0).ok();
    }
}

fn put(path: &Path, bytes: &[u8]) {
    std::fs::write(path, bytes).expect("HARNESS: write scratch file");
}

fn content(f: &File, lines: &[String]) -> Vec<u8> {
    let mut rng = Rng(f.escape);
    let eol: &[u8] = if f.crlf { b"\r\n" } else { b"\n" };
    let mut members = vec![vec![]];
    for (i, l) in lines.iter().enumerate() {
        if f.members.contains(&i) {
            members.push(vec![]);
        }
        let m = members.last_mut().unwrap();
        m.extend_from_slice(json_string(l, &mut rng).as_bytes());
        if i + 1 < lines.len() || !f.open_end {
            m.extend_from_slice(eol);
        }
    }
    if f.gz {
        let mut out = vec![];
        for m in members {
            let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(rng.below(10) as u32));
            e.write_all(&m).unwrap();
            out.extend(e.finish().unwrap());
        }
        out
    } else {
        members.concat()
    }
}

fn file_name(f: &File, i: usize) -> String {
    // names whose order differs from the order of creation, of numbers and of letters without case
    let base = match f.name % 4 {
        0 => format!("{}-{}", f.name, i),
        1 => format!("part{}_{}", f.name, i),
        2 => format!("Part{}_{}", f.name, i),
        _ => format!("z.{}.{}", f.name, i),
    };
    if f.gz {
        base + ".gz"
    } else {
        base + ["", ".json", ".txt"][f.name % 3]
    }
}

fn run(c: &Case, cx: &mut Cx) -> Res {
    let dir = Dir::new("p14");
    let words: Vec<String> = (0..c.words).map(|i| word(c.word_seed, i)).collect();
    let ids: HashMap<String, usize> = words.iter().cloned().enumerate().map(|(i, w)| (w, i)).collect();
    if ids.len() < words.len() {
        return Ok(());
    }
    let mut rng = Rng(c.word_seed);
    let list: String = words.iter().map(|w| json_string(w, &mut rng) + "\n").collect();
    let words_path = dir.path("words");
    put(&words_path, list.as_bytes());
    ensure!(parsing::parse_words(&words_path) == ids, "the words have other ids");

    let mut files: Vec<(String, &File)> = c.files.iter().enumerate().map(|(i, f)| (file_name(f, i), f)).collect();
    let input = if c.dir {
        let input = dir.path("input");
        std::fs::create_dir(&input).unwrap();
        for (name, f) in &files {
            let lines: Vec<String> = f.lines.iter().map(|t| text(c, t)).collect();
            put(&input.join(name), &content(f, &lines));
        }
        input
    } else {
        let (name, f) = &files[0];
        let lines: Vec<String> = f.lines.iter().map(|t| text(c, t)).collect();
        put(&dir.path(name), &content(f, &lines));
        dir.path(name)
    };
    files.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
    let want: Vec<Vec<usize>> = files.iter().flat_map(|(_, f)| f.lines.iter().map(|t| expect(&text(c, t), &ids))).collect();

    let compare = |got: &[Vec<usize>], what: &str| -> Res {
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            ensure!(g == w, "{}: element {} has ids {:?} instead of {:?}", what, i, g, w);
        }
        ensure!(got.len() == want.len(), "{}: {} elements instead of {}", what, got.len(), want.len());
        Ok(())
    };
    match &c.out {
        Out::Direct => {
            let e = maybe_in_pool(c.threads, || parsing::parse_elements_in_directory_or_file(&input, &ids, c.show));
            let mut bytes = vec![];
            let n = e.write(&mut bytes).map_err(|e| e.to_string())?;
            ensure!(n == bytes.len(), "{} bytes reported, {} written", n, bytes.len());
            compare(&fmt::decode_lists(&bytes)?, "parsed")?;
        }
        Out::Whole => {
            let out = dir.path("elements.bin");
            if c.stale {
                put(&out, &[0xAB; 5000]);
            }
            let n = maybe_in_pool(c.threads, || parsing::parse_elements_and_save_to_disk(&input, &words_path, &out, c.show));
            ensure!(n == want.len(), "{} elements reported instead of {}", n, want.len());
            let bytes = std::fs::read(&out).map_err(|e| e.to_string())?;
            compare(&fmt::decode_lists(&bytes)?, "saved")?;
            ensure!(bytes == fmt::encode_lists(&want), "unexpected bytes");
        }
        Out::Shards { count, into_dir, ext } => {
            let out_dir = dir.path("out");
            std::fs::create_dir(&out_dir).unwrap();
            let (target, names): (PathBuf, Vec<String>) = if *into_dir {
                (out_dir.clone(), (0..*count).map(|i| format!("elements-{}.bin", i)).collect())
            } else if *ext {
                (out_dir.join("my.shards.dat"), (0..*count).map(|i| format!("my.shards-{}.dat", i)).collect())
            } else {
                (out_dir.join("shards"), (0..*count).map(|i| format!("shards-{}.bin", i)).collect())
            };
            if c.stale {
                put(&out_dir.join(&names[0]), &[0xAB; 5000]);
            }
            let n = maybe_in_pool(c.threads, || parsing::parse_elements_and_save_shards_to_disk(&input, &words_path, &target, *count, c.show));
            ensure!(n == want.len(), "{} elements reported instead of {}", n, want.len());
            let mut all = vec![];
            for name in &names {
                let bytes = std::fs::read(out_dir.join(name)).map_err(|e| format!("shard {} of {}: {}", name, count, e))?;
                all.extend(fmt::decode_lists(&bytes).map_err(|e| format!("shard {}: {}", name, e))?);
            }
            compare(&all, "shards together")?;
            let there = std::fs::read_dir(&out_dir).unwrap().count();
            ensure!(there == *count, "{} files for {} shards", there, count);
            cx.label(if *count > want.len() { "more shards than elements" } else { "shards" });
        }
    }
    cx.label_if(c.dir, "directory");
    cx.label_if(c.threads > 1, "several threads");
    cx.label_if(c.files.iter().any(|f| f.gz), "gzip");
    cx.label_if(c.files.iter().any(|f| f.gz && f.members.iter().any(|&m| m < f.lines.len())), "several gzip members");
    cx.label_if(want.iter().any(|l| l.is_empty()), "element without ids");
    cx.nontrivial = want.iter().filter(|l| l.len() > 1).count() > 1;
    Ok(())
}

// ------------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize)]
struct ManyCase {
    words: usize,
    lines: usize,
    shards: usize,
    seed: u64,
}

/// Many words (ids of three bytes) and lines.
fn run_many(c: &ManyCase, cx: &mut Cx) -> Res {
    let dir = Dir::new("p14m");
    let words_path = dir.path("words");
    let list: String = (0..c.words).map(|i| format!("\"w{:x}\"\n", i)).collect();
    put(&words_path, list.as_bytes());
    let mut rng = Rng(c.seed);
    let mut want = vec![];
    let mut body = String::new();
    for i in 0..c.lines {
        let ids: Vec<usize> = (0..rng.below(6)).map(|_| rng.below(c.words)).collect();
        let t: Vec<String> = ids.iter().map(|i| format!("w{:x}", i)).collect();
        body.push_str(&format!("\"{}:{}\"\n", i, t.join(" ")));
        want.push(ids);
    }
    put(&dir.path("input"), body.as_bytes());
    let n = parsing::parse_elements_and_save_shards_to_disk(&dir.path("input"), &words_path, &dir.path("o"), c.shards, false);
    ensure!(n == want.len(), "{} elements reported instead of {}", n, want.len());
    let mut all = vec![];
    for i in 0..c.shards {
        let bytes = std::fs::read(dir.path(&format!("o-{}.bin", i))).map_err(|e| format!("shard {}: {}", i, e))?;
        all.extend(fmt::decode_lists(&bytes)?);
    }
    ensure!(all == want, "the shards do not contain the elements");
    cx.nontrivial = true;
    Ok(())
}

#[derive(Serialize, Deserialize)]
struct EmbedCase {
    dim: usize,
    table: usize,
    n: usize,
    integers: bool,
    seed: u64,
    stale: bool,
    #[serde(default)]
    threads: usize,
    #[serde(default)]
    show: bool,
}

fn run_embed(c: &EmbedCase, cx: &mut Cx) -> Res {
    let dir = Dir::new("p14e");
    let mut rng = Rng(c.seed);
    let table: Vec<Vec<f32>> = (0..c.table)
        .map(|_| (0..c.dim).map(|_| if c.integers { rng.below(61) as f32 - 30.0 } else { rng.gauss() as f32 }).collect())
        .collect();
    let lists: Vec<Vec<usize>> = (0..c.n)
        .map(|_| {
            let len = rng.below(6);
            (0..len).map(|_| rng.below(c.table)).collect()
        })
        .collect();
    put(&dir.path("table"), &fmt::encode_f32(&table, c.dim));
    put(&dir.path("elements"), &fmt::encode_lists(&lists));
    let out = dir.path("vectors");
    if c.stale {
        put(&out, &vec![0xAB; c.n * c.dim * 2 + 100]);
    }
    maybe_in_pool(c.threads, || {
        parsing::compute_embeddings_and_save_to_disk(&dir.path("elements"), &dir.path("table"), &out, c.show)
    });
    let bytes = std::fs::read(&out).map_err(|e| e.to_string())?;
    ensure!(bytes.len() >= 8, "only {} bytes", bytes.len());
    if c.n > 0 {
        ensure!(bytes[..8] == (c.dim as u64).to_le_bytes(), "dimension {:?} instead of {}", &bytes[..8], c.dim);
    }
    ensure!(bytes.len() == 8 + c.n * c.dim, "{} bytes instead of {}", bytes.len(), 8 + c.n * c.dim);
    let mut lib = SumEmbeddings::new();
    for t in &table {
        lib.push_embedding(t);
    }
    for (i, l) in lists.iter().enumerate() {
        let got: Vec<i8> = bytes[8 + i * c.dim..8 + (i + 1) * c.dim].iter().map(|&b| b as i8).collect();
        let same: angular_int::Vector = lib.create_embedding(l).into();
        ensure!(got == same.as_slice(), "element {} is {:?}, quantizing its sum gives {:?}", i, got, same.as_slice());
        let sum: Vec<f64> = (0..c.dim).map(|j| l.iter().map(|&t| table[t][j] as f64).sum()).collect();
        let max = sum.iter().fold(0f64, |a, x| a.max(x.abs()));
        for j in 0..c.dim {
            let x = if max > 1e-4 { sum[j] * 127.0 / max } else { 0.0 };
            if max > 1e-4 || l.is_empty() {
                ensure!(
                    (got[j] as f64 - x).abs() < 1.001 && got[j] as f64 * x >= 0.0,
                    "component {} of element {} is {} instead of {}",
                    j,
                    i,
                    got[j],
                    x.trunc()
                );
            }
        }
    }
    let f = std::fs::File::open(&out).map_err(|e| e.to_string())?;
    let v = unsafe { angular_int::Vectors::from_file(&f) }.map_err(|e| e.to_string())?;
    ensure!(v.len() == c.n, "{} vectors loaded instead of {}", v.len(), c.n);
    cx.label_if(c.n == 0, "no element");
    cx.label_if(c.n > 100, "more than one element per chunk");
    cx.nontrivial = c.n > 1;
    Ok(())
}

pub fn p14() -> Property {
    Property {
        id: "P14",
        rule: "A case is a word list and one file or a directory of files of JSON strings (plain or compressed, with several \
               members, unusual white space, escapes, colons, unknown words and line ends), parsed directly, to one file or to \
               shards, against an independent parser; or a table and lists whose quantized sums are precomputed. Non-trivial: at \
               least two elements with several ids (parsing), at least two elements (precomputing).",
        level: "exploration",
        assumptions: vec!["distinct words; input lines are valid JSON strings; at least one shard"],
        families: vec![
            family("parsing", 12_000, 300_000, |s| gen_case(s, 12), run),
            family("parsing, long files", 600, 20_000, |s| gen_case(s, 300), run),
            family(
                "many words",
                4,
                80,
                |s| ManyCase { words: s.range(65_000, 200_000), lines: s.range(1000, 20_000), shards: s.range(1, 5), seed: s.seed() },
                run_many,
            ),
            family(
                "precomputed embeddings",
                4_000,
                100_000,
                |s| EmbedCase {
                    dim: s.num(1, 40),
                    table: s.num(1, 50),
                    n: match s.weighted(&[3, 2, 1]) {
                        0 => s.num(0, 30),
                        1 => s.pick(&[99, 100, 101, 199, 200, 201, 300, 1000, 5]),
                        _ => s.range(0, 600),
                    },
                    integers: s.bool(),
                    seed: s.seed(),
                    stale: s.chance(1, 4),
                    threads: gen_threads(s),
                    show: s.chance(1, 8),
                },
                run_embed,
            ),
        ],
    }
}
