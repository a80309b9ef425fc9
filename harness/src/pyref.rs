//! Reference for the Python bindings (P20): runs the same history through the library itself.
//!
//! Reads one case per line ({"dir": ..., "ops": [...]}) and answers with one line, the list of results.

use crate::engine::no_panic;
use granne::embeddings::{parsing, SumEmbeddings};
use granne::{angular, angular_int, BuildConfig, Builder, Dist, Granne, GranneBuilder, Index};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufRead, Write};
use std::path::{Path, PathBuf};

#[derive(Default)]
struct Words {
    ids: HashMap<String, usize>,
    list: Vec<String>,
}

impl Words {
    fn load(path: &Path) -> Words {
        let text = std::fs::read_to_string(path).unwrap();
        let mut words = Words::default();
        for line in text.lines() {
            let word: String = serde_json::from_str(line).unwrap();
            words.ids.insert(word.clone(), words.list.len());
            words.list.push(word);
        }
        words
    }

    fn ids_of(&self, text: &str) -> Vec<usize> {
        text.split_whitespace().filter_map(|w| self.ids.get(w).copied()).collect()
    }
}

enum B {
    A(GranneBuilder<angular::Vectors<'static>>),
    I(GranneBuilder<angular_int::Vectors<'static>>),
    E(GranneBuilder<SumEmbeddings<'static>>, Words),
}

enum G {
    A(Granne<'static, angular::Vectors<'static>>),
    I(Granne<'static, angular_int::Vectors<'static>>),
    E(Granne<'static, SumEmbeddings<'static>>, Words),
}

macro_rules! builder {
    ($b:expr, $x:ident => $e:expr) => {
        match $b {
            B::A($x) => $e,
            B::I($x) => $e,
            B::E($x, _) => $e,
        }
    };
}

macro_rules! index {
    ($b:expr, $x:ident => $e:expr) => {
        match $b {
            G::A($x) => $e,
            G::I($x) => $e,
            G::E($x, _) => $e,
        }
    };
}

struct State {
    dir: PathBuf,
    builders: HashMap<u64, B>,
    indexes: HashMap<u64, G>,
    embeddings: HashMap<u64, (SumEmbeddings<'static>, Words)>,
}

fn floats(v: &Value) -> Vec<f32> {
    v.as_array().unwrap().iter().map(|x| x.as_f64().unwrap() as f32).collect()
}

fn hits(h: Vec<(usize, f32)>) -> Value {
    Value::from(h.into_iter().map(|(i, d)| json!([i, f64::from(d)])).collect::<Vec<_>>())
}

fn floats_out(v: &[f32]) -> Value {
    Value::from(v.iter().map(|&x| json!(f64::from(x))).collect::<Vec<_>>())
}

fn open(path: &Path) -> File {
    File::open(path).unwrap()
}

/// the text of a query, or its numbers
enum Query {
    Text(String),
    Numbers(Vec<f32>),
}

fn query(q: &Value) -> Query {
    match q.as_str() {
        Some(text) => Query::Text(text.to_string()),
        None => Query::Numbers(floats(q)),
    }
}

impl State {
    fn path(&self, op: &Value, key: &str) -> Option<PathBuf> {
        op.get(key).and_then(|v| v.as_str()).map(|name| self.dir.join(name))
    }

    /// copies what was just written aside, for the comparison
    fn keep(&self, number: usize, path: &Path) {
        let name = format!("kept-{}-{}", number, path.file_name().unwrap().to_str().unwrap());
        std::fs::copy(path, self.dir.join(name)).unwrap();
    }

    fn write(&self, number: usize, path: &Path, write: impl FnOnce(&mut File)) {
        // a new file, since the old one may be mapped
        let new = self.dir.join("being-written");
        write(&mut File::create(&new).unwrap());
        std::fs::rename(&new, path).unwrap();
        self.keep(number, path);
    }

    fn missing(&self, op: &Value) -> bool {
        ["elements", "index", "embeddings", "words", "text"]
            .iter()
            .filter_map(|key| self.path(op, key))
            .any(|p| !p.exists())
    }

    fn vectors_of(e: &(SumEmbeddings<'static>, Words), input: &Value) -> Vec<f32> {
        let ids = match input {
            Value::Number(n) => vec![n.as_u64().unwrap() as usize],
            Value::Array(a) => a.iter().map(|n| n.as_u64().unwrap() as usize).collect(),
            text => e.1.ids_of(text.as_str().unwrap()),
        };
        e.0.create_embedding(&ids)
    }

    fn run(&mut self, number: usize, op: &Value) -> Value {
        let kind = op["op"].as_str().unwrap();
        let num = |key: &str| op.get(key).and_then(|v| v.as_u64()).map(|v| v as usize);
        let (b, g, e) = (op["b"].as_u64().unwrap_or(0), op["g"].as_u64().unwrap_or(0), op["e"].as_u64().unwrap_or(0));
        let saves = kind.ends_with("save");
        if !saves && self.missing(op) {
            return json!("skipped");
        }
        let needs = match kind {
            "append" | "build" | "binfo" | "bneigh" | "bsave" => self.builders.contains_key(&b),
            "ginfo" | "gneigh" | "search" | "elem" | "reorder" | "gsave" => self.indexes.contains_key(&g),
            "eappend" | "einfo" | "eget" | "edist" | "edists" | "esave" => self.embeddings.contains_key(&e),
            _ => true,
        };
        if !needs || op.get("bad").is_some() {
            return json!("skipped");
        }
        let ty = op.get("type").and_then(|t| t.as_str()).unwrap_or("").to_lowercase();
        match kind {
            "text" => {
                let path = self.path(op, "out").unwrap();
                std::fs::write(path, op["content"].as_str().unwrap()).unwrap();
                Value::Null
            }
            "builder" => {
                let mut config = BuildConfig::default().show_progress(false);
                let cfg = &op["cfg"];
                if let Some(x) = cfg.get("layer_multiplier") {
                    config = config.layer_multiplier(x.as_f64().unwrap() as f32);
                }
                if let Some(x) = cfg.get("expected_num_elements") {
                    config = config.expected_num_elements(x.as_u64().unwrap() as usize);
                }
                if let Some(x) = cfg.get("num_neighbors") {
                    config = config.num_neighbors(x.as_u64().unwrap() as usize);
                }
                if let Some(x) = cfg.get("max_search") {
                    config = config.max_search(x.as_u64().unwrap() as usize);
                }
                config = config.reinsert_elements(cfg.get("reinsert_elements").map_or(true, |x| x.as_bool().unwrap()));

                let elements = self.path(op, "elements").map(|p| open(&p));
                let index = self.path(op, "index").map(|p| open(&p));
                macro_rules! make {
                    ($elements:expr) => {{
                        let elements = $elements;
                        match &index {
                            Some(index) => GranneBuilder::from_file(config, index, elements).unwrap(),
                            None => GranneBuilder::new(config, elements),
                        }
                    }};
                }
                let builder = match ty.as_str() {
                    "angular" => B::A(make!(match &elements {
                        Some(file) => unsafe { angular::Vectors::from_file(file).unwrap() },
                        None => angular::Vectors::new(),
                    })),
                    "angular_int" => B::I(make!(match &elements {
                        Some(file) => unsafe { angular_int::Vectors::from_file(file).unwrap() },
                        None => angular_int::Vectors::new(),
                    })),
                    _ => {
                        let embeddings = open(&self.path(op, "embeddings").unwrap());
                        let words = Words::load(&self.path(op, "words").unwrap());
                        B::E(
                            make!(unsafe { SumEmbeddings::from_files(&embeddings, elements.as_ref()).unwrap() }),
                            words,
                        )
                    }
                };
                self.builders.insert(b, builder);
                Value::Null
            }
            "append" => {
                match self.builders.get_mut(&b).unwrap() {
                    B::A(x) => x.push(angular::Vector::from(floats(&op["v"]))),
                    B::I(x) => x.push(angular_int::Vector::from(floats(&op["v"]))),
                    B::E(x, words) => {
                        let ids = words.ids_of(op["v"].as_str().unwrap());
                        x.push(ids)
                    }
                }
                Value::Null
            }
            "build" => {
                let n = num("n");
                builder!(self.builders.get_mut(&b).unwrap(), x => match n {
                    Some(n) => x.build_partial(n),
                    None => x.build(),
                });
                Value::Null
            }
            "binfo" => builder!(&self.builders[&b], x => {
                let layers: Vec<usize> = (0..x.num_layers()).map(|l| x.layer_len(l)).collect();
                json!([Index::len(x), x.num_elements(), x.num_layers(), layers])
            }),
            "ginfo" => index!(&self.indexes[&g], x => {
                let layers: Vec<usize> = (0..x.num_layers()).map(|l| x.layer_len(l)).collect();
                json!([Index::len(x), x.num_layers(), layers])
            }),
            "bneigh" => builder!(&self.builders[&b], x => {
                neighbors(x, num("i").unwrap(), num("layer"))
            }),
            "gneigh" => index!(&self.indexes[&g], x => {
                neighbors(x, num("i").unwrap(), num("layer"))
            }),
            "bsave" => builder!(&self.builders[&b], x => {
                if let Some(path) = self.path(op, "index") {
                    self.write(number, &path, |f| x.write_index(f).unwrap());
                }
                if let Some(path) = self.path(op, "elements") {
                    self.write(number, &path, |f| { x.write_elements(f).unwrap(); });
                }
                Value::Null
            }),
            "gsave" => index!(&self.indexes[&g], x => {
                if let Some(path) = self.path(op, "index") {
                    self.write(number, &path, |f| x.write_index(f).unwrap());
                }
                if let Some(path) = self.path(op, "elements") {
                    self.write(number, &path, |f| { x.write_elements(f).unwrap(); });
                }
                Value::Null
            }),
            "index" => {
                let index = open(&self.path(op, "index").unwrap());
                let elements = open(&self.path(op, "elements").unwrap());
                let index = unsafe {
                    match ty.as_str() {
                        "angular" => {
                            G::A(Granne::from_file(&index, angular::Vectors::from_file(&elements).unwrap()).unwrap())
                        }
                        "angular_int" => {
                            G::I(Granne::from_file(&index, angular_int::Vectors::from_file(&elements).unwrap()).unwrap())
                        }
                        _ => {
                            let embeddings = open(&self.path(op, "embeddings").unwrap());
                            let words = Words::load(&self.path(op, "words").unwrap());
                            let elements = SumEmbeddings::from_files(&embeddings, Some(&elements)).unwrap();
                            G::E(Granne::from_file(&index, elements).unwrap(), words)
                        }
                    }
                };
                self.indexes.insert(g, index);
                Value::Null
            }
            "search" => {
                let (ms, ne) = (num("ms").unwrap_or(200), num("ne").unwrap_or(10));
                match (&self.indexes[&g], query(&op["q"])) {
                    (G::A(x), Query::Numbers(v)) => hits(x.search(&angular::Vector::from(v), ms, ne)),
                    (G::I(x), Query::Numbers(v)) => hits(x.search(&angular_int::Vector::from(v), ms, ne)),
                    (G::E(x, _), Query::Numbers(v)) => hits(x.search(&angular::Vector::from(v), ms, ne)),
                    (G::E(x, words), Query::Text(text)) => {
                        let v = x.get_elements().create_embedding(&words.ids_of(&text));
                        hits(x.search(&angular::Vector::from(v), ms, ne))
                    }
                    _ => panic!("bad query"),
                }
            }
            "elem" => {
                let i = num("i").unwrap();
                match &self.indexes[&g] {
                    G::A(x) => {
                        let v = floats_out(x.get_element(i).as_slice());
                        json!([v, v])
                    }
                    G::I(x) => {
                        let v = x.get_element(i).into_vec();
                        json!([v, v])
                    }
                    G::E(x, words) => {
                        let terms: Vec<&str> =
                            x.get_elements().get_terms(i).into_iter().map(|t| words.list[t].as_str()).collect();
                        json!([floats_out(x.get_element(i).as_slice()), terms.join(" ")])
                    }
                }
            }
            "reorder" => json!(match self.indexes.get_mut(&g).unwrap() {
                G::A(x) => x.reorder(false),
                G::I(x) => x.reorder(false),
                G::E(x, _) => {
                    let keys = granne::embeddings::compute_keys_for_reordering(x.get_elements());
                    x.reorder_by_keys(&keys, false)
                }
            }),
            "emb" => {
                let new = match (self.path(op, "embeddings"), self.path(op, "words")) {
                    (Some(embeddings), Some(words)) => (
                        unsafe { SumEmbeddings::from_files(&open(&embeddings), None).unwrap() },
                        Words::load(&words),
                    ),
                    _ => (SumEmbeddings::new(), Words::default()),
                };
                self.embeddings.insert(e, new);
                Value::Null
            }
            "eappend" => {
                let (embeddings, words) = self.embeddings.get_mut(&e).unwrap();
                let word = op["word"].as_str().unwrap();
                let new = !words.ids.contains_key(word);
                if new {
                    embeddings.push_embedding(&floats(&op["v"]));
                    words.ids.insert(word.to_string(), words.list.len());
                    words.list.push(word.to_string());
                }
                json!(new)
            }
            "einfo" => json!(self.embeddings[&e].0.num_embeddings()),
            "eget" => floats_out(&State::vectors_of(&self.embeddings[&e], &op["x"])),
            "edist" | "edists" => {
                let em = &self.embeddings[&e];
                let left = angular::Vector::from(State::vectors_of(em, &op["x"]));
                let dist = |y: &Value| {
                    let right = angular::Vector::from(State::vectors_of(em, y));
                    f64::from(left.dist(&right).into_inner())
                };
                match kind {
                    "edist" => json!(dist(&op["y"])),
                    _ => json!(op["ys"].as_array().unwrap().iter().map(dist).collect::<Vec<_>>()),
                }
            }
            "esave" => {
                let (embeddings, words) = &self.embeddings[&e];
                if let Some(path) = self.path(op, "embeddings") {
                    self.write(number, &path, |f| { embeddings.write_embeddings(f).unwrap(); });
                }
                if let Some(path) = self.path(op, "words") {
                    self.write(number, &path, |f| {
                        for word in &words.list {
                            writeln!(f, "{}", serde_json::to_string(word).unwrap()).unwrap();
                        }
                    });
                }
                Value::Null
            }
            "parse" => {
                let out = self.path(op, "out").unwrap();
                let text = self.path(op, "text").unwrap();
                parsing::parse_elements_and_save_to_disk(&text, &self.path(op, "words").unwrap(), &out, false);
                self.keep(number, &out);
                Value::Null
            }
            "compute" => {
                let out = self.path(op, "out").unwrap();
                let embeddings = self.path(op, "embeddings").unwrap();
                parsing::compute_embeddings_and_save_to_disk(&self.path(op, "elements").unwrap(), &embeddings, &out, false);
                self.keep(number, &out);
                Value::Null
            }
            "distance" => {
                let (x, y) = (floats(&op["x"]), floats(&op["y"]));
                json!(f64::from(match ty.as_str() {
                    "angular" => angular::Vector::from(x).dist(&angular::Vector::from(y)).into_inner(),
                    _ => angular_int::Vector::from(x).dist(&angular_int::Vector::from(y)).into_inner(),
                }))
            }
            other => panic!("unknown operation {}", other),
        }
    }
}

fn neighbors(x: &dyn Index, i: usize, layer: Option<usize>) -> Value {
    let layer = layer.unwrap_or_else(|| x.num_layers() - 1);
    json!(x.get_neighbors(i, layer))
}

pub fn serve() {
    let answers = crate::engine::private_stdout();
    let mut answers = std::io::BufWriter::new(answers);
    for line in std::io::stdin().lock().lines() {
        let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let mut state = State {
            dir: PathBuf::from(case["dir"].as_str().unwrap()),
            builders: HashMap::new(),
            indexes: HashMap::new(),
            embeddings: HashMap::new(),
        };
        let mut results = Vec::new();
        for (number, op) in case["ops"].as_array().unwrap().iter().enumerate() {
            match no_panic(|| state.run(number, op)) {
                Ok(value) => results.push(json!({ "ok": value })),
                Err(message) => {
                    results.push(json!({ "error": message }));
                    break;
                }
            }
        }
        writeln!(answers, "{}", Value::from(results)).unwrap();
        answers.flush().unwrap();
    }
}
