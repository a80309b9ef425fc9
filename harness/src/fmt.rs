//! Independent implementation of granne's file formats (version 2), used to craft files and to decode written ones.

use serde_json::{json, Value};

pub const HEADER: usize = 1024;
pub const OFFSETS_PER_CHUNK: usize = 60;

pub type Layers = Vec<Vec<Vec<u32>>>;

fn encode_set(list: &[u32]) -> Vec<u8> {
    let mut sorted = list.to_vec();
    sorted.sort_unstable();
    let mut deltas = Vec::with_capacity(sorted.len());
    let mut prev = 0u32;
    for (i, &x) in sorted.iter().enumerate() {
        deltas.push(if i == 0 { x } else { x - prev });
        prev = x;
    }
    let count = deltas.len();
    assert!(count <= 255);
    let mut padded = deltas.clone();
    while padded.len() < 4 {
        padded.push(0);
    }
    let mut control = vec![0u8; (padded.len() + 3) / 4];
    let mut data = Vec::new();
    for (i, &d) in padded.iter().enumerate() {
        let bytes = match d {
            0..=0xff => 1,
            0x100..=0xffff => 2,
            0x1_0000..=0xff_ffff => 3,
            _ => 4,
        };
        control[i / 4] |= ((bytes - 1) as u8) << (2 * (i % 4));
        data.extend_from_slice(&d.to_le_bytes()[..bytes]);
    }
    let mut out = vec![count as u8];
    if control.len() + data.len() >= 4 * count {
        for d in deltas {
            out.extend_from_slice(&d.to_le_bytes());
        }
    } else {
        out.extend(control);
        out.extend(data);
    }
    out
}

fn decode_set(b: &[u8]) -> Result<Vec<u32>, String> {
    let count = *b.first().ok_or("empty set encoding")? as usize;
    let b = &b[1..];
    let mut deltas = Vec::new();
    if b.len() == 4 * count {
        for c in b.chunks(4) {
            deltas.push(u32::from_le_bytes([c[0], c[1], c[2], c[3]]));
        }
    } else {
        let n = count.max(4);
        let ctl = (n + 3) / 4;
        if b.len() < ctl {
            return Err("truncated control bytes".into());
        }
        let mut pos = ctl;
        for i in 0..n {
            let len = ((b[i / 4] >> (2 * (i % 4))) & 3) as usize + 1;
            if pos + len > b.len() {
                return Err("truncated data bytes".into());
            }
            let mut x = [0u8; 4];
            x[..len].copy_from_slice(&b[pos..pos + len]);
            pos += len;
            deltas.push(u32::from_le_bytes(x));
        }
        if pos != b.len() {
            return Err(format!("{} trailing bytes in set", b.len() - pos));
        }
        deltas.truncate(count);
    }
    let mut prev = 0u32;
    for (i, d) in deltas.iter_mut().enumerate() {
        if i > 0 {
            *d = d.checked_add(prev).ok_or("delta overflow")?;
        }
        prev = *d;
    }
    Ok(deltas)
}

pub fn encode_layer(layer: &[Vec<u32>]) -> Vec<u8> {
    let mut data = Vec::new();
    let mut offsets = vec![0usize];
    for l in layer {
        data.extend(encode_set(l));
        offsets.push(data.len());
    }
    let mut chunks = Vec::new();
    for (ci, c) in offsets.chunks(OFFSETS_PER_CHUNK).enumerate() {
        let initial = if ci == 0 { 0 } else { c[0] };
        chunks.extend_from_slice(&(initial as u64).to_le_bytes());
        let mut prev = initial;
        for i in 0..OFFSETS_PER_CHUNK {
            let d: u16 = if i < c.len() {
                let d = c[i] - prev;
                prev = c[i];
                d as u16
            } else {
                u16::MAX
            };
            chunks.extend_from_slice(&d.to_le_bytes());
        }
    }
    let mut out = (chunks.len() as u64).to_le_bytes().to_vec();
    out.extend(chunks);
    out.extend(data);
    out
}

/// An index with one layer of `n` elements, most of them without neighbors.
pub fn encode_sparse(n: usize, nodes: &std::collections::BTreeMap<usize, Vec<u32>>) -> Vec<u8> {
    let mut data = Vec::with_capacity(n + 64);
    let mut chunks = Vec::with_capacity(n / OFFSETS_PER_CHUNK * 128 + 256);
    let mut prev = 0usize;
    let mut push = |i: usize, off: usize| {
        if i % OFFSETS_PER_CHUNK == 0 {
            chunks.extend_from_slice(&(off as u64).to_le_bytes());
            prev = off;
        }
        chunks.extend_from_slice(&((off - prev) as u16).to_le_bytes());
        prev = off;
    };
    push(0, 0);
    for i in 0..n {
        match nodes.get(&i) {
            Some(l) => data.extend(encode_set(l)),
            None => data.push(0),
        }
        push(i + 1, data.len());
    }
    while chunks.len() % 128 != 0 {
        chunks.extend_from_slice(&u16::MAX.to_le_bytes());
    }
    let size = 8 + chunks.len() + data.len();
    let meta = json!({
        "granne_version": "0.5.2",
        "version": 2,
        "num_elements": n,
        "num_layers": 1,
        "num_neighbors": nodes.get(&0).map_or(0, |l| l.len()),
        "layer_counts": [n],
        "layer_sizes": [size],
        "compressed": true,
    });
    let mut out = format!("granne{}", meta).into_bytes();
    out.resize(HEADER, b' ');
    out.extend_from_slice(&(chunks.len() as u64).to_le_bytes());
    out.extend(chunks);
    out.extend(data);
    out
}

pub fn encode_index(layers: &Layers) -> Vec<u8> {
    let encoded: Vec<Vec<u8>> = layers.iter().map(|l| encode_layer(l)).collect();
    let counts: Vec<usize> = layers.iter().map(|l| l.len()).collect();
    let sizes: Vec<usize> = encoded.iter().map(|l| l.len()).collect();
    let meta = json!({
        "granne_version": "0.5.2",
        "version": 2,
        "num_elements": counts.last().copied().unwrap_or(0),
        "num_layers": counts.len(),
        "num_neighbors": layers.last().and_then(|l| l.first()).map_or(0, |l| l.len()),
        "layer_counts": counts,
        "layer_sizes": sizes,
        "compressed": true,
    });
    let mut out = format!("granne{}", meta).into_bytes();
    assert!(out.len() <= HEADER);
    out.resize(HEADER, b' ');
    for e in encoded {
        out.extend(e);
    }
    out
}

pub fn decode_header(b: &[u8]) -> Result<Value, String> {
    if b.len() < HEADER {
        return Err(format!("only {} bytes", b.len()));
    }
    if &b[..6] != b"granne" {
        return Err("missing library string".into());
    }
    serde_json::from_slice(&b[6..HEADER]).map_err(|e| format!("metadata: {}", e))
}

pub fn decode_layer(b: &[u8]) -> Result<Vec<Vec<u32>>, String> {
    let u64_at = |p: usize| u64::from_le_bytes(b[p..p + 8].try_into().unwrap()) as usize;
    if b.len() < 8 {
        return Err("short layer".into());
    }
    let n_off = u64_at(0);
    if n_off % 128 != 0 || 8 + n_off > b.len() {
        return Err(format!("bad offsets size {}", n_off));
    }
    let mut offsets = Vec::new();
    for c in 0..n_off / 128 {
        let base = 8 + 128 * c;
        let mut cur = u64_at(base);
        for i in 0..OFFSETS_PER_CHUNK {
            let p = base + 8 + 2 * i;
            let d = u16::from_le_bytes([b[p], b[p + 1]]);
            if d == u16::MAX {
                if c + 1 != n_off / 128 {
                    return Err("hole in offsets".into());
                }
                break;
            }
            cur += d as usize;
            offsets.push(cur);
        }
    }
    let data = &b[8 + n_off..];
    if offsets.first() != Some(&0) || offsets.last() != Some(&data.len()) {
        return Err(format!("offsets {:?}..{:?} for {} data bytes", offsets.first(), offsets.last(), data.len()));
    }
    let mut layer = Vec::new();
    for w in offsets.windows(2) {
        layer.push(decode_set(&data[w[0]..w[1]])?);
    }
    Ok(layer)
}

/// Decodes and validates an index file (exactly; no trailing bytes allowed).
pub fn decode_index(b: &[u8]) -> Result<Layers, String> {
    let meta = decode_header(b)?;
    let nums = |k: &str| -> Result<Vec<usize>, String> {
        serde_json::from_value(meta[k].clone()).map_err(|e| format!("{}: {}", k, e))
    };
    let sizes = nums("layer_sizes")?;
    let counts = nums("layer_counts")?;
    let mut pos = HEADER;
    let mut layers = Vec::new();
    for s in &sizes {
        if pos + s > b.len() {
            return Err("layer beyond end of file".into());
        }
        layers.push(decode_layer(&b[pos..pos + s])?);
        pos += s;
    }
    if pos != b.len() {
        return Err(format!("{} bytes after the last layer", b.len() - pos));
    }
    let got: Vec<usize> = layers.iter().map(|l| l.len()).collect();
    if got != counts {
        return Err(format!("layer counts {:?} in metadata, {:?} in data", counts, got));
    }
    if meta["num_layers"] != json!(counts.len()) {
        return Err(format!("num_layers {}", meta["num_layers"]));
    }
    if meta["num_elements"] != json!(counts.last().copied().unwrap_or(0)) {
        return Err(format!("num_elements {}", meta["num_elements"]));
    }
    if meta["version"] != json!(2) || meta["compressed"] != json!(true) {
        return Err(format!("version {} compressed {}", meta["version"], meta["compressed"]));
    }
    Ok(layers)
}

/// Fixed width vectors: u64 width, raw little endian scalars.
pub fn encode_f32(rows: &[Vec<f32>], dim: usize) -> Vec<u8> {
    let mut b = (dim as u64).to_le_bytes().to_vec();
    for r in rows {
        for x in r {
            b.extend_from_slice(&x.to_bits().to_le_bytes());
        }
    }
    b
}

pub fn decode_f32(b: &[u8]) -> Result<(usize, Vec<f32>), String> {
    if b.len() < 8 || (b.len() - 8) % 4 != 0 {
        return Err(format!("bad length {}", b.len()));
    }
    let dim = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
    Ok((dim, b[8..].chunks(4).map(|c| f32::from_bits(u32::from_le_bytes(c.try_into().unwrap()))).collect()))
}

/// Sum embeddings elements: u64 count, (count + 1) 5-byte offsets, 3-byte ids.
pub fn encode_lists(lists: &[Vec<usize>]) -> Vec<u8> {
    let mut b = (lists.len() as u64).to_le_bytes().to_vec();
    let mut off = 0u64;
    b.extend_from_slice(&off.to_le_bytes()[..5]);
    for l in lists {
        off += l.len() as u64;
        b.extend_from_slice(&off.to_le_bytes()[..5]);
    }
    for l in lists {
        for &id in l {
            b.extend_from_slice(&(id as u64).to_le_bytes()[..3]);
        }
    }
    b
}

pub fn decode_lists(b: &[u8]) -> Result<Vec<Vec<usize>>, String> {
    if b.len() < 8 {
        return Err("short".into());
    }
    let n = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
    let data_at = 8 + (n + 1) * 5;
    if b.len() < data_at || (b.len() - data_at) % 3 != 0 {
        return Err(format!("bad length {} for {} lists", b.len(), n));
    }
    let num = |p: usize, len: usize| {
        let mut x = [0u8; 8];
        x[..len].copy_from_slice(&b[p..p + len]);
        u64::from_le_bytes(x) as usize
    };
    let ids: Vec<usize> = (data_at..b.len()).step_by(3).map(|p| num(p, 3)).collect();
    let mut out = Vec::new();
    for i in 0..n {
        let (s, e) = (num(8 + 5 * i, 5), num(13 + 5 * i, 5));
        if s > e || e > ids.len() || (i == 0 && s != 0) {
            return Err(format!("bad offsets {}..{} at {}", s, e, i));
        }
        out.push(ids[s..e].to_vec());
    }
    if num(8 + 5 * n, 5) != ids.len() {
        return Err("ids after the last list".into());
    }
    Ok(out)
}

/// The same index files, except for the version of the library that wrote them and the order of the metadata.
pub fn same_file(a: &[u8], b: &[u8]) -> bool {
    let meta = |x: &[u8]| {
        decode_header(x).map(|mut m| {
            m["granne_version"] = Value::Null;
            m
        })
    };
    meta(a).is_ok() && meta(a) == meta(b) && a[HEADER..] == b[HEADER..]
}
