"""Runs histories of calls of the Python module, one per line of the standard input (see p20.py)."""

import json
import os
import shutil
import sys

answers = os.fdopen(os.dup(1), "w")
null = os.open("/dev/null", os.O_WRONLY)
os.dup2(null, 1)
if not os.environ.get("P20_SHOW"):
    os.dup2(null, 2)

sys.path.insert(0, sys.argv[1])
import granne  # noqa: E402
import numpy as np  # noqa: E402


def vector(values, kind):
    if kind == "tuple":
        return tuple(values)
    if kind == "int":
        return [int(v) if v == int(v) else v for v in values]
    if kind == "np32":
        return np.array(values, dtype=np.float32)
    if kind == "np64":
        return np.array(values, dtype=np.float64)
    if kind == "strided":
        return np.repeat(np.array(values, dtype=np.float32), 2)[::2]
    return list(values)


def plain(value):
    if isinstance(value, np.ndarray):
        return value.tolist()
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    return value


class State:
    def __init__(self, directory):
        self.dir = directory
        self.builders = {}
        self.indexes = {}
        self.embeddings = {}

    def path(self, op, key):
        return os.path.join(self.dir, op[key]) if op.get(key) is not None else None

    def keep(self, number, path):
        if path is not None:
            shutil.copyfile(path, os.path.join(self.dir, "kept-%d-%s" % (number, os.path.basename(path))))

    def element(self, op, key):
        v = op[key]
        return v if isinstance(v, str) else vector(v, op.get("as"))

    def call(self, op, function, names, values):
        """positional arguments as far as possible, or keywords"""
        args, kwargs = [], {}
        keyword = op.get("kw", False)
        for name, value in zip(names, values):
            if value is None:
                keyword = True
            elif keyword:
                kwargs[name] = value
            else:
                args.append(value)
        return function(*args, **kwargs)

    def run(self, number, op):
        kind = op["op"]
        if not kind.endswith("save"):
            for key in ["elements", "index", "embeddings", "words", "text"]:
                if op.get(key) is not None and not os.path.exists(self.path(op, key)):
                    return "skipped"
        for kinds, objects, key in [
            (["append", "build", "binfo", "bneigh", "bsave"], self.builders, "b"),
            (["ginfo", "gneigh", "search", "elem", "reorder", "gsave"], self.indexes, "g"),
            (["eappend", "einfo", "eget", "edist", "edists", "esave"], self.embeddings, "e"),
        ]:
            if kind in kinds and op.get(key, 0) not in objects:
                return "skipped"
        b = self.builders.get(op.get("b", 0))
        g = self.indexes.get(op.get("g", 0))
        e = self.embeddings.get(op.get("e", 0))
        if kind == "text":
            with open(self.path(op, "out"), "w", encoding="utf-8", newline="") as f:
                f.write(op["content"])
        elif kind == "builder":
            cfg = op["cfg"]
            names = ["element_type", "elements_path", "embeddings_path", "words_path", "index_path"]
            values = [op["type"]] + [self.path(op, k) for k in ["elements", "embeddings", "words", "index"]]
            names += ["layer_multiplier", "expected_num_elements", "num_neighbors", "max_search"]
            names += ["reinsert_elements", "show_progress"]
            values += [cfg.get(k) for k in names[5:]]
            self.builders[op.get("b", 0)] = self.call(op, granne.GranneBuilder, names, values)
        elif kind == "append":
            b.append(self.element(op, "v"))
        elif kind == "build":
            self.call(op, b.build, ["num_elements"], [op.get("n")])
        elif kind == "binfo":
            return [len(b), b.num_elements(), b.num_layers(), [b.layer_len(i) for i in range(b.num_layers())]]
        elif kind == "ginfo":
            return [len(g), g.num_layers(), [g.layer_len(i) for i in range(g.num_layers())]]
        elif kind in ("bneigh", "gneigh"):
            x = b if kind == "bneigh" else g
            return plain(self.call(op, x.get_neighbors, ["idx", "layer"], [op["i"], op.get("layer")]))
        elif kind in ("bsave", "gsave"):
            x = b if kind == "bsave" else g
            if op.get("index") is not None:
                x.save_index(self.path(op, "index"))
                self.keep(number, self.path(op, "index"))
            if op.get("elements") is not None:
                x.save_elements(self.path(op, "elements"))
                self.keep(number, self.path(op, "elements"))
        elif kind == "index":
            names = ["index_path", "element_type", "elements_path", "embeddings_path", "words_path"]
            values = [self.path(op, "index"), op["type"]] + [self.path(op, k) for k in ["elements", "embeddings", "words"]]
            self.indexes[op.get("g", 0)] = self.call(op, granne.Granne, names, values)
        elif kind == "search":
            names = ["element", "max_search", "num_elements"]
            return plain(self.call(op, g.search, names, [self.element(op, "q"), op.get("ms"), op.get("ne")]))
        elif kind == "elem":
            return [plain(g.get_element(op["i"])), plain(g.get_internal_element(op["i"]))]
        elif kind == "reorder":
            return plain(self.call(op, g.reorder, ["show_progress"], [op.get("show")]))
        elif kind == "emb":
            names = ["embeddings_path", "words_path"]
            values = [self.path(op, "embeddings"), self.path(op, "words")]
            self.embeddings[op.get("e", 0)] = self.call(op, granne.Embeddings, names, values)
        elif kind == "eappend":
            return self.call(op, e.append, ["embedding", "word"], [vector(op["v"], op.get("as")), op["word"]])
        elif kind == "einfo":
            return len(e)
        elif kind == "eget":
            return plain(e.get_embedding(op["x"]))
        elif kind == "edist":
            return e.dist(op["x"], op["y"])
        elif kind == "edists":
            return plain(e.dists(op["x"], op["ys"]))
        elif kind == "esave":
            embeddings, words = self.path(op, "embeddings"), self.path(op, "words")
            if embeddings is not None and words is not None and not op.get("apart"):
                self.call(op, e.save, ["embeddings_path", "words_path"], [embeddings, words])
            else:
                if embeddings is not None:
                    e.save_embeddings(embeddings)
                if words is not None:
                    e.save_words(words)
            self.keep(number, embeddings)
            self.keep(number, words)
        elif kind == "parse":
            names = ["elements_path", "words_path", "output_path", "show_progress"]
            values = [self.path(op, "text"), self.path(op, "words"), self.path(op, "out"), op.get("show")]
            self.call(op, granne.parse_elements_and_save_to_disk, names, values)
            self.keep(number, self.path(op, "out"))
        elif kind == "compute":
            names = ["elements_path", "embeddings_path", "output_path", "show_progress"]
            values = [self.path(op, "elements"), self.path(op, "embeddings"), self.path(op, "out"), op.get("show")]
            self.call(op, granne.compute_embeddings_and_save_to_disk, names, values)
            self.keep(number, self.path(op, "out"))
        elif kind == "distance":
            names = ["element_type", "a", "b"]
            values = [op["type"], vector(op["x"], op.get("as")), vector(op["y"], op.get("as"))]
            return self.call(op, granne.compute_distance, names, values)
        else:
            raise ValueError(kind)
        return None


for line in sys.stdin:
    case = json.loads(line)
    state = State(case["dir"])
    results = []
    for number, op in enumerate(case["ops"]):
        try:
            results.append({"ok": state.run(number, op)})
        except Exception as exception:  # pylint: disable=broad-except
            results.append({"error": "%s: %s" % (type(exception).__name__, exception)})
            if not op.get("bad"):
                break
    del state
    answers.write(json.dumps(results) + "\n")
    answers.flush()
