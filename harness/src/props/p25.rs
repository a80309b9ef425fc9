//! The file formats (P25): files as the released versions write them, made by an independent encoder, and what is written
//! now, read by an independent decoder.

use crate::data::*;
use crate::engine::*;
use crate::oracle::*;
use crate::{dispatch, ensure, fmt};
use granne::embeddings::SumEmbeddings;
use granne::{angular, angular_int, BuildConfig, Builder, ElementContainer, Granne, GranneBuilder, Index, RwGranneBuilder, Writeable};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Serialize, Deserialize)]
struct FileCase {
    data: Data,
    graph: GraphSpec,
    version: String,
    /// order of the entries of the header
    keys: u64,
    /// entries that a later release of the same format might add
    more: bool,
    pretty: bool,
    offset: usize,
    extra: usize,
}

/// Another header with the same contents.
fn with_header(bytes: &[u8], c: &FileCase) -> Vec<u8> {
    let meta = fmt::decode_header(bytes).expect("HARNESS: header");
    let mut entries: Vec<(String, Value)> = meta.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    for (k, v) in &mut entries {
        if k == "granne_version" {
            *v = json!(c.version);
        }
    }
    if c.more {
        entries.push(("created_by".into(), json!("another program")));
    }
    let mut rng = Rng(c.keys);
    if c.keys != 0 {
        rng.shuffle(&mut entries);
    }
    let (sep, colon) = if c.pretty { (", ", ": ") } else { (",", ":") };
    let body: Vec<String> = entries.iter().map(|(k, v)| format!("{}{}{}", json!(k), colon, v)).collect();
    let mut out = format!("granne{{{}}}", body.join(sep)).into_bytes();
    if out.len() > fmt::HEADER {
        return bytes.to_vec();
    }
    out.resize(fmt::HEADER, b' ');
    out.extend_from_slice(&bytes[fmt::HEADER..]);
    out
}

fn run_index<K: Kit>(c: &FileCase, cx: &mut Cx) -> Res {
    let layers = c.graph.make();
    let want = sorted(&to_view(&layers));
    let bytes = with_header(&fmt::encode_index(&layers), c);
    let elements = K::make(&c.data);
    let check = |index: &dyn Index, written: Vec<u8>, what: &str| -> Res {
        let v = sorted(&view(index));
        ensure!(v == want, "{}: {:?} instead of {:?}", what, v, want);
        let decoded = fmt::decode_index(&written).map_err(|e| format!("{}, written: {}", what, e))?;
        ensure!(sorted(&to_view(&decoded)) == want, "{}, written: {:?} instead of {:?}", what, decoded, want);
        let meta = fmt::decode_header(&written)?;
        let first = decoded.last().and_then(|l| l.first()).map_or(0, |l| l.len());
        ensure!(
            meta["num_neighbors"] == json!(first) && meta["compressed"] == json!(true) && meta["granne_version"].is_string(),
            "{}, written with the header {}, where the first element has {} neighbors",
            what,
            meta,
            first
        );
        Ok(())
    };
    let a = Aligned::new(&bytes, c.offset);
    let index = Granne::from_bytes(a.get(), &elements);
    check(&index, write_index(&index)?, "loaded from bytes")?;
    let owned = index.to_owned();
    check(&owned, write_index(&owned)?, "owned")?;
    let f = temp_file("index.bin", &bytes);
    let index = unsafe { Granne::from_file(&f, &elements) }.map_err(|e| e.to_string())?;
    check(&index, write_index(&index)?, "mapped")?;
    let longest = want.iter().flatten().map(|l| l.len()).max().unwrap_or(0);
    let cfg = BuildConfig::new().num_neighbors((longest + c.extra).max(1)).layer_multiplier(5.0);
    let b = GranneBuilder::from_bytes(cfg, a.get(), &elements);
    check(&b, write_index(&b)?, "loaded into a builder")?;
    let b = GranneBuilder::from_file(cfg, &f, &elements).map_err(|e| e.to_string())?;
    check(&b, write_index(&b)?, "builder from a file")?;
    if !want.is_empty() && c.data.n < 60 {
        // extended files can be read as well
        let mut b = GranneBuilder::from_bytes(cfg, a.get(), elements.clone());
        b.push(K::internal(&c.data, c.data.n));
        b.build();
        let v = sorted(&view(&b));
        let decoded = fmt::decode_index(&write_index(&b)?).map_err(|e| format!("extended: {}", e))?;
        ensure!(sorted(&to_view(&decoded)) == v, "extended: {:?} in the file instead of {:?}", decoded, v);
        let rw = RwGranneBuilder::new(GranneBuilder::from_bytes(cfg, a.get(), elements.clone()), c.data.n + 2, 1);
        rw.insert(K::internal(&c.data, c.data.n)).ok_or("no place for another element")?;
        let (mut i, mut e) = (std::io::Cursor::new(vec![]), vec![]);
        rw.write(&mut i, &mut e).map_err(|e| e.to_string())?;
        let decoded = fmt::decode_index(&i.into_inner()).map_err(|e| format!("concurrent builder: {}", e))?;
        ensure!(decoded.last().map_or(0, |l| l.len()) == c.data.n + 1, "concurrent builder: {} elements", decoded.last().map_or(0, |l| l.len()));
let upper = want.len() - 1;
        ensure!(decoded.len() > upper && (0..upper).all(|l| decoded[l].len() == want[l].len()), "concurrent builder: other layers");
        cx.label("extended");
    }
    cx.label(format!("{} layers", want.len().min(5)));
    cx.label_if(longest >= 4, "compressed lists");
    cx.nontrivial = longest > 0;
    Ok(())
}

#[derive(Serialize, Deserialize)]
struct ElementsCase {
    dim: usize,
    n: usize,
    seed: u64,
    lists: Vec<Vec<usize>>,
    offset: usize,
}

fn run_elements(c: &ElementsCase, cx: &mut Cx) -> Res {
    let mut rng = Rng(c.seed);
    let floats: Vec<Vec<f32>> = (0..c.n).map(|_| (0..c.dim).map(|_| (rng.unit() - 0.5) as f32).collect()).collect();
    let ints: Vec<Vec<i8>> = (0..c.n).map(|_| (0..c.dim).map(|_| rng.u64() as i8).collect()).collect();

    let file = fmt::encode_f32(&floats, c.dim);
    let a = Aligned::new(&file, c.offset);
    let f = temp_file("floats.bin", &file);
    for v in [angular::Vectors::from_bytes(a.get()), unsafe { angular::Vectors::from_file(&f) }.map_err(|e| e.to_string())?] {
        ensure!(v.len() == c.n && v.dim() == c.dim, "{} float vectors of dimension {}, not {} of {}", v.len(), v.dim(), c.n, c.dim);
        for (i, r) in floats.iter().enumerate() {
            ensure!(v.get_element(i).as_slice() == &r[..], "float vector {}: {:?} instead of {:?}", i, v.get_element(i).as_slice(), r);
        }
        let mut out = vec![];
        v.write(&mut out).map_err(|e| e.to_string())?;
        let (dim, flat) = fmt::decode_f32(&out)?;
        ensure!(dim == c.dim && flat == floats.concat(), "the written float vectors differ");
    }

    let mut file = (c.dim as u64).to_le_bytes().to_vec();
    file.extend(ints.iter().flatten().map(|&x| x as u8));
    let a = Aligned::new(&file, c.offset);
    let f = temp_file("ints.bin", &file);
    for v in [angular_int::Vectors::from_bytes(a.get()), unsafe { angular_int::Vectors::from_file(&f) }.map_err(|e| e.to_string())?] {
        ensure!(v.len() == c.n && v.dim() == c.dim, "{} quantized vectors of dimension {}, not {} of {}", v.len(), v.dim(), c.n, c.dim);
        for (i, r) in ints.iter().enumerate() {
            ensure!(v.get_element(i).as_slice() == &r[..], "quantized vector {}: {:?} instead of {:?}", i, v.get_element(i).as_slice(), r);
        }
        let mut out = vec![];
        v.write(&mut out).map_err(|e| e.to_string())?;
        ensure!(out == file, "the written quantized vectors differ");
    }

    let table = temp_file("table.bin", &fmt::encode_f32(&floats, c.dim));
    let elements = temp_file("elements.bin", &fmt::encode_lists(&c.lists));
    let mut e = unsafe { SumEmbeddings::from_files(&table, Some(&elements)) }.map_err(|e| e.to_string())?;
    for step in 0..2 {
        ensure!(e.len() == c.lists.len() + step && e.num_embeddings() == c.n, "{} elements over {} embeddings", e.len(), e.num_embeddings());
        for (i, l) in c.lists.iter().enumerate() {
            ensure!(e.get_terms(i) == *l, "element {}: {:?} instead of {:?}", i, e.get_terms(i), l);
        }
        for (i, r) in floats.iter().enumerate() {
            ensure!(e.create_embedding(&[i]) == *r, "embedding {} differs", i);
        }
        let (mut out, mut embeddings) = (vec![], vec![]);
        e.write(&mut out).map_err(|e| e.to_string())?;
        e.write_embeddings(&mut embeddings).map_err(|e| e.to_string())?;
        let lists = fmt::decode_lists(&out)?;
        ensure!(lists.len() == e.len() && lists[..c.lists.len()] == c.lists[..], "the written elements differ: {:?}", lists);
        let (dim, flat) = fmt::decode_f32(&embeddings)?;
        ensure!(dim == c.dim && flat == floats.concat(), "the written embeddings differ");
        // once more after it was changed
        e.push(&[(1 << 24) - 1, 0]);
    }
    cx.nontrivial = c.n > 1 && c.lists.iter().any(|l| !l.is_empty());
    Ok(())
}

pub fn p25() -> Property {
    Property {
        id: "P25",
        rule: "A case is an index file (header, offsets and both encodings of neighbor lists as released versions write them, with the \
               entries of the header in any order) or files of elements, made by an independent encoder, loaded in every way and written \
               again for an independent decoder. Non-trivial: some neighbor list is not empty; at least two vectors and a non-empty list.",
        level: "exploration",
        assumptions: vec!["little-endian 64-bit machine", "format version 2, the only one that the released 0.5 versions read and write"],
        families: vec![
            family(
                "index files",
                6000,
                100_000,
                |s| {
                    let data = gen_data(s, 400);
                    let mut graph = gen_graph(s, data.n, false);
                    if s.chance(1, 8) {
                        graph.degree = s.pick(&[60, 128, 254]);
                    }
                    FileCase {
                        data,
                        graph,
                        version: s.pick(&["0.5.0", "0.5.1", "0.5.2", "0.6.0-alpha"]).to_string(),
                        keys: if s.bool() { s.seed() } else { 0 },
                        more: s.chance(1, 4),
                        pretty: s.chance(1, 4),
                        offset: s.range(0, 7),
                        extra: s.size(0, 20),
                    }
                },
                |c: &FileCase, cx| dispatch!(c.data.kind, run_index, c, cx),
            ),
            family(
                "element files",
                6000,
                100_000,
                |s| ElementsCase {
                    dim: s.num(1, 130),
                    n: s.num(1, 80),
                    seed: s.seed(),
                    lists: s.list(0, 30, super::p06_p07::gen_ids),
                    offset: s.range(0, 7),
                },
                run_elements,
            ),
        ],
    }
}
