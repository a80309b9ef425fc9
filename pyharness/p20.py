#!/usr/bin/env python3
"""P20: the Python module against the library.

Generates histories of calls, runs each through the Python module (worker.py, in a process of its own) and through the
library itself (granne-verif pyref), and compares: every result, every written file, and a model of what was appended.

p20.py run                    (VERIF_SEED, VERIF_TIER)
p20.py replay FILE
"""

import filecmp
import hashlib
import json
import math
import multiprocessing
import os
import random
import select
import shutil
import struct
import subprocess
import sys
import tempfile
import time

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REFERENCE = os.path.join(VERIF, "harness/target/release/granne-verif")
MODULE = os.path.join(HERE, "target/release/libgranne_python.so")
ANSWER_SECONDS = 240


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


# ---------------------------------------------------------------------------------------------------------------------
# the model


class Mismatch(Exception):
    pass


def demand(condition, text, *args):
    if not condition:
        raise Mismatch(text % args)


def close(a, b, tolerance):
    return abs(a - b) <= tolerance


def is_vector(value, dim=None):
    return isinstance(value, list) and all(isinstance(x, (int, float)) for x in value) and dim in (None, len(value))


class Words:
    def __init__(self, words=()):
        self.list = list(words)
        self.ids = {w: i for i, w in enumerate(self.list)}

    def of(self, text):
        return [self.ids[w] for w in text.split() if w in self.ids]


class Model:
    """What was appended and written, as lists. Files: name -> (kind, content)."""

    def __init__(self):
        self.files = {}
        self.builders = {}
        self.indexes = {}
        self.embeddings = {}
        self.lineages = 0

    def lineage(self):
        self.lineages += 1
        return self.lineages

    def element(self, obj, item):
        """the vector a search works with, in double precision, and whether it is well conditioned"""
        ty = obj["type"]
        if ty == "embeddings":
            rows = [obj["rows"][i] for i in item]
            v = np.sum(np.array(rows, dtype=np.float64), axis=0) if rows else np.zeros(obj["dim"])
            size = np.sum(np.abs(np.array(rows, dtype=np.float64))) if rows else 0.0
            norm = float(np.linalg.norm(v))
            if norm == 0.0 or norm < 1e-3 * size:
                return v, size == 0.0
            return v / norm, True
        v = np.array(item, dtype=np.float64)
        if ty == "angular":
            norm = float(np.linalg.norm(v))
            return (v / norm if norm > 0 else v), True
        top = float(np.max(np.abs(v))) if len(v) else 0.0
        return (np.trunc(v * 127.0 / top + np.sign(v) * 1e-6) if top > 0 else np.trunc(v)), True

    @staticmethod
    def distance(ty, a, b):
        r = float(np.dot(a, b))
        if ty == "angular_int":
            n = math.sqrt(float(np.dot(a, a))) * math.sqrt(float(np.dot(b, b)))
            r = r / n if n > 0 else 0.0
        return max(0.0, 1.0 - r)

    def check_hits(self, g, query, good, hits, ne):
        demand(isinstance(hits, list), "a search returned %s", hits)
        demand(len(hits) <= ne, "%d results where %d were asked for", len(hits), ne)
        seen = set()
        last = -1.0
        for hit in hits:
            demand(isinstance(hit, list) and len(hit) == 2, "a result is %s", hit)
            i, d = hit
            demand(isinstance(i, int) and 0 <= i < g["m"], "id %s of %d elements", i, g["m"])
            demand(i not in seen, "id %d twice in the results", i)
            seen.add(i)
            demand(d >= last, "results out of order: %s after %s", d, last)
            last = d
            if g["items"] is not None:
                element, ok = self.element(g, g["items"][i])
                if ok and good:
                    right = self.distance(g["type"], element, query)
                    tolerance = 2e-4 if g["type"] != "angular_int" else 0.04
                    demand(close(d, right, tolerance), "element %d at distance %s instead of %s", i, d, right)

    def apply(self, op, result):
        """Checks the result (None while generating) and goes on to the state after the operation."""
        kind = op["op"]
        if op.get("bad") or result == "skipped":
            return
        run = result is not NOTHING
        if kind == "text":
            if op.get("is_words"):
                self.files[op["out"]] = ("words", op["list"])
            else:
                self.files[op["out"]] = ("text", op["list"])
        elif kind == "builder":
            b = {"type": op["type"].lower(), "items": [], "m": 0, "lineage": self.lineage(), "sources": []}
            if b["type"] == "embeddings":
                b["rows"] = self.files[op["embeddings"]][1]
                b["dim"] = len(b["rows"][0]) if b["rows"] else 0
                b["words"] = Words(self.files[op["words"]][1])
                b["sources"].append(op["embeddings"])
            if op.get("elements") is not None:
                _, items, b["lineage"] = self.files[op["elements"]]
                b["items"] = list(items) if items is not None else None
                b["sources"].append(op["elements"])
            if op.get("index") is not None:
                b["m"] = self.files[op["index"]][1]
                b["sources"].append(op["index"])
            self.builders[op["b"]] = b
        elif kind == "append":
            b = self.builders[op["b"]]
            b["items"].append(b["words"].of(op["v"]) if b["type"] == "embeddings" else op["v"])
        elif kind == "build":
            b = self.builders[op["b"]]
            b["m"] = max(b["m"], len(b["items"]) if op.get("n") is None else op["n"])
        elif kind in ("binfo", "ginfo") and run:
            if kind == "binfo":
                x = self.builders[op["b"]]
                demand(result[1] == len(x["items"]), "%s elements instead of %d", result[1], len(x["items"]))
                result = [result[0]] + result[2:]
            else:
                x = self.indexes[op["g"]]
            demand(result[0] == x["m"], "%s indexed elements instead of %d", result[0], x["m"])
            demand(result[1] == len(result[2]), "layers: %s", result)
            demand(not result[2] or result[2][-1] == x["m"], "the last layer has %s elements instead of %d", result[2][-1:], x["m"])
            demand(result[2] == sorted(result[2]), "layers shrink: %s", result[2])
        elif kind in ("bneigh", "gneigh") and run:
            x = self.builders[op["b"]] if kind == "bneigh" else self.indexes[op["g"]]
            demand(len(set(result)) == len(result), "neighbors twice: %s", result)
            demand(all(0 <= i < x["m"] and i != op["i"] for i in result), "neighbors of %d: %s", op["i"], result)
        elif kind in ("bsave", "gsave"):
            x = self.builders[op["b"]] if kind == "bsave" else self.indexes[op["g"]]
            if op.get("index") is not None:
                self.files[op["index"]] = ("index", x["m"], x["lineage"])
            if op.get("elements") is not None:
                items = list(x["items"]) if x["items"] is not None else None
                self.files[op["elements"]] = ("elements " + x["type"], items, x["lineage"])
        elif kind == "index":
            g = {"type": op["type"].lower(), "sources": [op["index"], op["elements"]]}
            _, items, g["lineage"] = self.files[op["elements"]]
            g["items"] = list(items)
            g["m"] = self.files[op["index"]][1]
            if g["type"] == "embeddings":
                g["rows"] = self.files[op["embeddings"]][1]
                g["dim"] = len(g["rows"][0]) if g["rows"] else 0
                g["words"] = Words(self.files[op["words"]][1])
                g["sources"].append(op["embeddings"])
            self.indexes[op["g"]] = g
        elif kind == "search" and run:
            g = self.indexes[op["g"]]
            if isinstance(op["q"], str):
                query, good = self.element(g, g["words"].of(op["q"]))
            else:
                like = dict(g, type="angular") if g["type"] == "embeddings" else g
                query, good = self.element(like, op["q"])
            self.check_hits(g, query, good, result, op.get("ne", 10))
        elif kind == "elem" and run:
            g = self.indexes[op["g"]]
            right, ok = self.element(g, g["items"][op["i"]])
            demand(is_vector(result[0], len(right)), "element %d is %s", op["i"], result[0])
            tolerance = 1.001 if g["type"] == "angular_int" else 1e-4
            if ok:
                worst = max([abs(a - b) for a, b in zip(result[0], right)], default=0.0)
                demand(worst <= tolerance, "element %d is %s instead of %s", op["i"], result[0], right.tolist())
            if g["type"] == "embeddings":
                text = " ".join(g["words"].list[t] for t in g["items"][op["i"]])
                demand(result[1] == text, "internal element %d is %r instead of %r", op["i"], result[1], text)
            else:
                demand(result[1] == result[0], "internal element %d differs from the element", op["i"])
        elif kind == "reorder":
            g = self.indexes[op["g"]]
            g["lineage"] = self.lineage()
            if run:
                demand(sorted(result) == list(range(g["m"])), "the order is no permutation: %s", result[:50])
                g["items"] = [g["items"][j] for j in result] + g["items"][g["m"]:]
        elif kind == "emb":
            e = {"rows": [], "words": Words(), "sources": []}
            if op.get("embeddings") is not None:
                e["rows"] = list(self.files[op["embeddings"]][1])
                e["words"] = Words(self.files[op["words"]][1])
                e["sources"].append(op["embeddings"])
            self.embeddings[op["e"]] = e
        elif kind == "eappend":
            e = self.embeddings[op["e"]]
            new = op["word"] not in e["words"].ids
            if run:
                demand(result is new, "append answered %s for %s word", result, "a new" if new else "an old")
            if new:
                e["rows"].append(op["v"])
                e["words"].ids[op["word"]] = len(e["words"].list)
                e["words"].list.append(op["word"])
        elif kind == "einfo" and run:
            demand(result == len(self.embeddings[op["e"]]["rows"]), "%s embeddings instead of %d", result,
                   len(self.embeddings[op["e"]]["rows"]))
        elif kind == "eget" and run:
            e = self.embeddings[op["e"]]
            self.check_sum(e, op["x"], result)
        elif kind in ("edist", "edists") and run:
            e = self.embeddings[op["e"]]
            ys = [op["y"]] if kind == "edist" else op["ys"]
            result = [result] if kind == "edist" else result
            demand(is_vector(result, len(ys)), "distances %s", result)
            like = {"type": "embeddings", "rows": e["rows"], "dim": len(e["rows"][0]) if e["rows"] else 0}
            x, good = self.element(like, self.ids(e, op["x"]))
            for y, d in zip(ys, result):
                y, ok = self.element(like, self.ids(e, y))
                if good and ok:
                    right = self.distance("angular", x, y)
                    demand(close(d, right, 2e-4), "distance %s instead of %s", d, right)
        elif kind == "esave":
            e = self.embeddings[op["e"]]
            if op.get("embeddings") is not None:
                self.files[op["embeddings"]] = ("embeddings", list(e["rows"]))
            if op.get("words") is not None:
                self.files[op["words"]] = ("words", list(e["words"].list))
        elif kind == "parse":
            words = Words(self.files[op["words"]][1])
            items = [words.of(line.split(":")[-1]) for line in self.files[op["text"]][1]]
            self.files[op["out"]] = ("elements embeddings", items, self.lineage())
        elif kind == "compute":
            rows = self.files[op["embeddings"]][1]
            like = {"type": "embeddings", "rows": rows, "dim": len(rows[0]) if rows else 0}
            items = [self.element(like, item)[0].tolist() for item in self.files[op["elements"]][1]]
            # badly conditioned sums are not worth comparing
            if not all(self.element(like, item)[1] for item in self.files[op["elements"]][1]):
                items = None
            self.files[op["out"]] = ("elements angular_int", items, self.lineage())
        elif kind == "distance" and run:
            like = {"type": op["type"]}
            right = self.distance(op["type"], self.element(like, op["x"])[0], self.element(like, op["y"])[0])
            demand(close(result, right, 2e-4 if op["type"] == "angular" else 0.04), "distance %s instead of %s", result, right)

    @staticmethod
    def ids(e, x):
        if isinstance(x, int):
            return [x]
        return x if isinstance(x, list) else e["words"].of(x)

    def check_sum(self, e, x, result):
        ids = self.ids(e, x)
        dim = len(e["rows"][0]) if e["rows"] else 0
        demand(is_vector(result, dim), "the embedding of %r is %s", x, result)
        for k in range(dim):
            right = sum(e["rows"][i][k] for i in ids)
            size = sum(abs(e["rows"][i][k]) for i in ids)
            demand(close(result[k], right, 1e-5 * size + 1e-30), "the embedding of %r is %s", x, result)


NOTHING = object()

# ---------------------------------------------------------------------------------------------------------------------
# generation

ALPHABETS = [
    "abcdefghijklmnopqrstuvwxyz",
    "abcxyz0123456789-_.,;!?'",
    "aäöüßéñ",
    "中文字符日本語",
    "😀🎉𝒳ab",
    "\"\\/\u007f<>&{}[]",
]
GAPS = [" ", "  ", "\t", "\u3000", "\n", " \r\n"]


class Gen:
    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.model = Model()
        self.ops = []
        self.names = 0

    def chance(self, p):
        return self.rng.random() < p

    def add(self, **op):
        self.ops.append(op)
        self.model.apply(op, NOTHING)

    def name(self, stem):
        self.names += 1
        return "%s%d%s" % (stem, self.names, self.rng.choice([".bin", "", ".granne", "-é"]))

    def target(self, stem, obj, kinds):
        """a new file, or one that no object but the one being saved uses"""
        if self.chance(0.35):
            used = set()
            for table in (self.model.builders, self.model.indexes, self.model.embeddings):
                for other in table.values():
                    if other is not obj:
                        used.update(other["sources"])
            free = [n for n, f in self.model.files.items() if f[0] in kinds and n not in used]
            if free:
                return self.rng.choice(sorted(free))
        return self.name(stem)

    def vector(self, dim, earlier=()):
        rng = self.rng
        style = rng.random()
        if earlier and style < 0.1:
            return list(rng.choice(earlier))
        if style < 0.25:
            v = [float(rng.randint(-3, 3)) for _ in range(dim)]
        elif style < 0.3:
            v = [0.0] * dim
            v[rng.randrange(dim)] = rng.choice([1.0, -1.0, 5.0])
        elif style < 0.32:
            v = [0.0] * dim
        else:
            scale = rng.choice([1.0, 1.0, 0.01, 1000.0])
            v = [f32(rng.gauss(0, 1) * scale) for _ in range(dim)]
        return v

    def kind(self):
        return self.rng.choice([None, "tuple", "int", "np32", "np64", "strided"])

    def typename(self, ty):
        return self.rng.choice([ty, ty, ty, ty.capitalize(), ty.upper()])

    def cfg(self, total):
        rng = self.rng
        cfg = {}
        if self.chance(0.7):
            cfg["show_progress"] = self.chance(0.2)
        if self.chance(0.5):
            cfg["layer_multiplier"] = rng.choice([2.0, 3.0, 1.5, 5.0, 15.0, 40.0])
        if self.chance(0.3):
            cfg["expected_num_elements"] = total + rng.choice([0, 1, 5, 100, 5000])
        if self.chance(0.6):
            cfg["num_neighbors"] = rng.choice([1, 2, 3, 5, 8, 20, 60])
        if self.chance(0.6):
            cfg["max_search"] = rng.choice([1, 2, 5, 10, 50, 300])
        if self.chance(0.5):
            cfg["reinsert_elements"] = self.chance(0.4)
        return cfg

    def word(self):
        rng = self.rng
        alphabet = rng.choice(ALPHABETS)
        return "".join(rng.choice(alphabet) for _ in range(rng.choice([1, 1, 2, 3, 5, 12])))

    def text(self, words):
        rng = self.rng
        out = ""
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9])):
            w = rng.choice(words) if words and not self.chance(0.15) else self.word()
            out += rng.choice(["", " ", ""]) + w + rng.choice(GAPS[:1] * 5 + GAPS)
        return out if self.chance(0.3) else out.strip()

    # -- shared by both kinds of cases

    def progress(self):
        return self.rng.choice([False, False, False, True, None])

    def build_ops(self, b, steps, item):
        rng = self.rng
        for _ in range(steps):
            x = self.model.builders[b]
            n = len(x["items"])
            step = rng.random()
            if step < 0.35:
                for _ in range(rng.choice([1, 1, 2, 5, 20, 60])):
                    if len(x["items"]) < x["limit"]:
                        self.add(op="append", b=b, v=item(x["items"]), **{"as": self.kind()})
            elif step < 0.4 and n > 0 and x["type"] != "embeddings":
                bad = [1.0] * (len(x["items"][0]) + rng.choice([1, -1, 3]))
                if bad:
                    self.add(op="append", b=b, v=bad, bad="another dimension")
            elif step < 0.7:
                if self.chance(0.5):
                    self.add(op="build", b=b, kw=self.chance(0.3))
                else:
                    self.add(op="build", b=b, n=rng.randint(x["m"], n), kw=self.chance(0.3))
            elif step < 0.8:
                self.add(op="binfo", b=b)
            elif x["m"] > 0:
                op = dict(op="bneigh", b=b, i=rng.randrange(x["m"]), kw=self.chance(0.3))
                self.add(**op)

    def save_builder(self, b):
        x = self.model.builders[b]
        index = self.target("index", x, ["index"])
        elements = self.target("elements", x, ["elements " + x["type"]])
        self.add(op="bsave", b=b, index=index, elements=elements)
        return index, elements

    def use_index(self, g, steps, query, ty, extra):
        rng = self.rng
        for _ in range(steps):
            x = self.model.indexes[g]
            m = x["m"]
            step = rng.random()
            if step < 0.1:
                self.add(op="ginfo", g=g)
            elif step < 0.25 and m > 0:
                self.add(op="gneigh", g=g, i=rng.randrange(m), kw=self.chance(0.3))
            elif step < 0.35 and m > 0:
                self.add(op="gneigh", g=g, i=0, layer=0, kw=self.chance(0.3))
            elif step < 0.65:
                op = dict(op="search", g=g, q=query(x["items"]), kw=self.chance(0.4))
                op["as"] = self.kind()
                if self.chance(0.7):
                    op["ms"] = rng.choice([1, 2, 3, 10, 50, 200, 1000])
                if self.chance(0.7):
                    op["ne"] = rng.choice([1, 2, 3, 10, 100, 0])
                self.add(**op)
            elif step < 0.8 and m > 0:
                self.add(op="elem", g=g, i=rng.randrange(m))
            elif step < 0.88:
                if len(x["items"]) == m and m > 0:
                    self.add(op="reorder", g=g, show=self.progress(), kw=self.chance(0.5))
            elif step < 0.94:
                index = self.target("index", x, ["index"])
                elements = self.target("elements", x, ["elements " + ty])
                self.add(op="gsave", g=g, index=index, elements=elements)
                self.add(op="index", g=g, type=self.typename(ty), index=index, elements=elements, kw=self.chance(0.5), **extra)

    def pairs(self, ty):
        """saved elements and indexes that belong together"""
        out = []
        for e, f in self.model.files.items():
            if f[0] == "elements " + ty and f[1]:
                for i, h in self.model.files.items():
                    if h[0] == "index" and h[2] == f[2] and h[1] <= len(f[1]):
                        out.append((i, e))
        return sorted(out)

    def rounds(self, ty, item, query, extra, total):
        rng = self.rng
        for _ in range(rng.choice([1, 1, 2, 3])):
            op = dict(op="builder", b=0, type=self.typename(ty), cfg=self.cfg(total), kw=self.chance(0.6), **extra)
            start = rng.random()
            pairs = self.pairs(ty)
            files = sorted(n for n, f in self.model.files.items() if f[0] == "elements " + ty and f[1] is not None
                           and len(f[1]) <= total)
            if start < 0.4 and pairs:
                op["index"], op["elements"] = rng.choice(pairs)
            elif start < 0.65 and files:
                op["elements"] = rng.choice(files)
            self.add(**op)
            b = self.model.builders[0]
            b["limit"] = total
            if not b["items"] or self.chance(0.8):
                for _ in range(rng.randint(0, max(0, total - len(b["items"])))):
                    self.add(op="append", b=0, v=item(b["items"]), **{"as": self.kind()})
            self.build_ops(0, rng.choice([0, 1, 2, 4, 8]), item)
            if self.chance(0.8):
                self.add(op="build", b=0)
                self.add(op="binfo", b=0)
            index, elements = self.save_builder(0)
            if not self.model.files[elements][1]:
                continue
            self.add(op="index", g=0, type=self.typename(ty), index=index, elements=elements, kw=self.chance(0.5), **extra)
            self.use_index(0, rng.choice([1, 3, 6, 10]), query, ty, extra)

    def vectors_case(self):
        rng = self.rng
        ty = rng.choice(["angular", "angular_int"])
        dim = rng.choice([1, 2, 3, 4, 5, 8, 13, 16, 33, 100])
        total = rng.choice([1, 2, 3, 5, 9, 17, 40, 90, 200, 500])
        for _ in range(rng.choice([0, 0, 1])):
            self.add(op="distance", type=rng.choice(["angular", "angular_int"]), x=self.vector(dim), y=self.vector(dim),
                     kw=self.chance(0.4), **{"as": self.kind()})

        def item(earlier):
            return self.vector(dim, earlier[:5] if earlier else ())

        def query(earlier):
            return self.vector(dim, earlier)

        self.rounds(ty, item, query, {}, total)

    def embedding_ops(self, e, steps, words):
        rng = self.rng
        for _ in range(steps):
            x = self.model.embeddings[e]
            n = len(x["rows"])
            dim = self.dim
            step = rng.random()

            def some():
                pick = rng.random()
                if n and pick < 0.2:
                    return rng.randrange(n)
                if n and pick < 0.4:
                    return [rng.randrange(n) for _ in range(rng.choice([0, 1, 2, 4, 9]))]
                return self.text(x["words"].list)

            if step < 0.15:
                old = bool(x["words"].list) and self.chance(0.5)
                w = rng.choice(x["words"].list) if old else rng.choice(words)
                self.add(op="eappend", e=e, v=self.vector(dim, x["rows"]), word=w, kw=self.chance(0.4),
                         **{"as": self.kind()})
            elif step < 0.2 and n:
                w = "new:%d" % rng.randrange(10**9)
                self.add(op="eappend", e=e, v=[1.0] * (dim + 1), word=w, bad="another dimension")
                if self.chance(0.5):
                    self.add(op="eappend", e=e, v=self.vector(dim), word=w)
            elif step < 0.3:
                self.add(op="einfo", e=e)
            elif step < 0.6:
                if n:
                    self.add(op="eget", e=e, x=some())
            elif step < 0.8:
                if n:
                    self.add(op="edist", e=e, x=some(), y=some())
            elif n:
                self.add(op="edists", e=e, x=some(), ys=[some() for _ in range(rng.randrange(4))])

    def embeddings_case(self):
        rng = self.rng
        self.dim = dim = rng.choice([1, 2, 3, 5, 8, 20, 50])
        count = rng.choice([1, 2, 3, 6, 15, 40])
        words = list({self.word(): 0 for _ in range(count)})
        self.add(op="emb", e=0)
        for w in words:
            self.add(op="eappend", e=0, v=self.vector(dim), word=w, **{"as": self.kind()})
        self.embedding_ops(0, rng.choice([0, 2, 5, 9]), words)
        if self.chance(0.1):
            self.add(op="eappend", e=0, v=self.vector(dim), word=self.word() + " " + self.word())
        for _ in range(rng.choice([1, 1, 2])):
            x = self.model.embeddings[0]
            emb, wd = self.target("embeddings", x, ["embeddings"]), self.target("words", x, ["words"])
            self.add(op="esave", e=0, embeddings=emb, words=wd, apart=self.chance(0.4), kw=self.chance(0.3))
            if self.chance(0.3):
                # the same words, written by somebody else
                wd = self.name("words")
                listed = self.model.embeddings[0]["words"].list
                content = "".join(json.dumps(w, ensure_ascii=self.chance(0.5)) + "\n" for w in listed)
                self.add(op="text", out=wd, is_words=True, list=list(listed), content=content)
            self.add(op="emb", e=0, embeddings=emb, words=wd, kw=self.chance(0.5))
            self.embedding_ops(0, rng.choice([0, 2, 5]), words)
        x = self.model.embeddings[0]
        emb, wd = self.name("embeddings"), self.name("words")
        self.add(op="esave", e=0, embeddings=emb, words=wd)
        if self.chance(0.5):
            lines = []
            for _ in range(rng.choice([1, 2, 5, 30, 150])):
                prefix = rng.choice(["", "", "id:", "a b:c:"])
                lines.append(prefix + self.text(x["words"].list))
            content = "".join(json.dumps(l, ensure_ascii=self.chance(0.5)) + "\n" for l in lines)
            t = self.name("text")
            self.add(op="text", out=t, list=lines, content=content)
            self.add(op="parse", text=t, words=wd, out=self.name("elements"), show=self.progress(), kw=self.chance(0.4))

        def item(_):
            return self.text(x["words"].list)

        def query(_):
            return self.vector(dim) if self.chance(0.3) else self.text(x["words"].list)

        self.rounds("embeddings", item, query, {"embeddings": emb, "words": wd}, rng.choice([1, 2, 5, 20, 60, 200, 400]))
        if self.chance(0.4):
            files = sorted(n for n, f in self.model.files.items() if f[0] == "elements embeddings" and f[1])
            if files:
                source, out = rng.choice(files), self.name("vectors")
                self.add(op="compute", elements=source, embeddings=emb, out=out, show=self.progress(), kw=self.chance(0.4))
                count = len(self.model.files[source][1])
                if self.model.files[out][1] is not None:
                    self.add(op="builder", b=1, type="angular_int", cfg=self.cfg(count), elements=out, kw=True)
                    self.add(op="build", b=1)
                    self.add(op="binfo", b=1)
                    index = self.name("index")
                    self.add(op="bsave", b=1, index=index)
                    self.add(op="index", g=1, type="angular_int", index=index, elements=out)
                    self.use_index(1, 5, lambda _: self.vector(dim), "angular_int", {})

    def case(self):
        if self.chance(0.5):
            self.vectors_case()
        else:
            self.embeddings_case()
        return self.ops


# ---------------------------------------------------------------------------------------------------------------------
# execution


class Gone(Exception):
    pass


class Server:
    def __init__(self, command):
        self.command = command
        self.process = None

    def start(self):
        env = dict(os.environ, RAYON_NUM_THREADS="1", RUST_BACKTRACE="0", PYTHONDONTWRITEBYTECODE="1")
        self.process = subprocess.Popen(self.command, stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    def stop(self):
        if self.process is not None:
            self.process.kill()
            code = self.process.wait()
            self.process.stdin.close()
            self.process.stdout.close()
            self.process = None
            return code
        return None

    def ask(self, case):
        if self.process is None:
            self.start()
        line = (json.dumps(case) + "\n").encode()
        answer = b""
        try:
            self.process.stdin.write(line)
            self.process.stdin.flush()
            end = time.time() + ANSWER_SECONDS
            while not answer.endswith(b"\n"):
                ready, _, _ = select.select([self.process.stdout], [], [], max(0.0, end - time.time()))
                if not ready:
                    self.stop()
                    raise Gone("no answer within %d seconds" % ANSWER_SECONDS)
                chunk = os.read(self.process.stdout.fileno(), 1 << 20)
                if not chunk:
                    code = self.process.wait()
                    self.stop()
                    raise Gone("the process ended (%d)" % code)
                answer += chunk
        except BrokenPipeError:
            code = self.process.wait()
            self.stop()
            raise Gone("the process ended (%d)" % code) from None
        return json.loads(answer)


class Pair:
    """Both sides and their directories."""

    def __init__(self, scratch):
        self.scratch = scratch
        module = os.path.join(scratch, "module")
        os.makedirs(module, exist_ok=True)
        link = os.path.join(module, "granne.so")
        if not os.path.exists(link):
            os.symlink(MODULE, link)
        self.python = Server([sys.executable, os.path.join(HERE, "worker.py"), module])
        self.library = Server([REFERENCE, "pyref"])

    def stop(self):
        self.python.stop()
        self.library.stop()

    def run(self, ops):
        """None, or (category, message)"""
        dirs = {}
        for side in ("python", "library"):
            dirs[side] = os.path.join(self.scratch, side)
            shutil.rmtree(dirs[side], ignore_errors=True)
            os.makedirs(dirs[side])
        try:
            right = self.library.ask({"dir": dirs["library"], "ops": ops})
        except Gone as gone:
            right = gone
        try:
            got = self.python.ask({"dir": dirs["python"], "ops": ops})
        except Gone as gone:
            if isinstance(right, Gone):
                return "both die", "the module and the library: %s" % gone
            return "dies", "the interpreter: %s" % gone
        if isinstance(right, Gone):
            return "library dies", "the library: %s" % right
        return compare(ops, got, right, dirs)


def compare(ops, got, right, dirs):
    model = Model()
    for number, op in enumerate(ops):
        where = "operation %d (%s)" % (number, op["op"])
        if number >= len(got) or number >= len(right):
            return "short", "%s has no result" % where
        x, y = got[number], right[number]
        if op.get("bad"):
            if x.get("ok") == "skipped":
                continue
            if "error" not in x:
                return "accepted", "%s, %s, is accepted: %s" % (where, op["bad"], x)
            continue
        if "error" in x and "error" in y:
            return "both fail " + op["op"] + y["error"][:60], "%s fails: %s; the library: %s" % (where, x["error"], y["error"])
        if "error" in x:
            return "fails " + op["op"] + x["error"][:60], "%s fails in Python only: %s" % (where, x["error"])
        if "error" in y:
            return "library fails " + op["op"] + y["error"][:60], "%s fails in the library only: %s" % (where, y["error"])
        if x["ok"] != y["ok"]:
            return "differs " + op["op"], "%s: %s, the library says %s" % (where, shorten(x["ok"]), shorten(y["ok"]))
        try:
            model.apply(op, x["ok"])
        except Mismatch as mismatch:
            return "model " + op["op"], "%s: %s" % (where, mismatch)
        except KeyError:
            return None  # a shrunk case without what this operation needs
    kept = [sorted(n for n in os.listdir(dirs[side]) if n.startswith("kept-")) for side in ("python", "library")]
    if kept[0] != kept[1]:
        return "files", "files written: %s, by the library %s" % (kept[0], kept[1])
    for name in kept[0]:
        if not filecmp.cmp(os.path.join(dirs["python"], name), os.path.join(dirs["library"], name), shallow=False):
            return "file", "the file of %s differs from the library's" % name
    return None


def shorten(value):
    text = json.dumps(value)
    return text if len(text) < 300 else text[:300] + "..."


# ---------------------------------------------------------------------------------------------------------------------
# shrinking


def shrink(pair, ops, category, seconds):
    end = time.time() + seconds

    def fails(candidate):
        if time.time() > end:
            return False
        found = pair.run(candidate)
        return found is not None and found[0] == category

    size = max(1, len(ops) // 2)
    while time.time() < end:
        i, changed = 0, False
        while i < len(ops):
            candidate = ops[:i] + ops[i + size:]
            if candidate and fails(candidate):
                ops, changed = candidate, True
            else:
                i += size
        if size > 1:
            size = max(1, size // 2)
        elif not changed:
            break
    for i in range(len(ops)):
        op = ops[i]
        for key in list(op):
            if key in ("as", "kw", "apart", "show", "ms", "ne", "layer") and op.get(key):
                simpler = {k: v for k, v in op.items() if k != key}
                if fails(ops[:i] + [simpler] + ops[i + 1:]):
                    op = simpler
                    ops = ops[:i] + [op] + ops[i + 1:]
        if op.get("cfg"):
            for key in list(op["cfg"]):
                simpler = dict(op, cfg={k: v for k, v in op["cfg"].items() if k != key})
                if fails(ops[:i] + [simpler] + ops[i + 1:]):
                    op = simpler
                    ops = ops[:i] + [op] + ops[i + 1:]
    return ops


# ---------------------------------------------------------------------------------------------------------------------
# running


def labels(ops):
    out = set()
    for op in ops:
        out.add(op["op"])
        if op.get("bad"):
            out.add("refused: " + op["bad"])
        if op["op"] == "builder":
            out.add("builder of " + op["type"].lower())
            if op.get("index"):
                out.add("builder from an index")
            elif op.get("elements"):
                out.add("builder from elements")
        if op["op"] == "index":
            out.add("index of " + op["type"].lower())
        if op["op"] == "search" and isinstance(op["q"], str):
            out.add("search for words")
        if op["op"] == "build" and op.get("n") is not None:
            out.add("partial build")
    saved, mapped = set(), set()
    for op in ops:
        if op["op"] in ("bsave", "gsave", "esave"):
            for key in ("index", "elements", "embeddings", "words"):
                if op.get(key):
                    if op[key] in saved:
                        out.add("file overwritten")
                    if op[key] in mapped:
                        out.add("file overwritten that was loaded")
                    saved.add(op[key])
        elif op["op"] in ("builder", "index", "emb"):
            mapped.update(op[k] for k in ("index", "elements", "embeddings") if op.get(k))
    return out


def nontrivial(ops):
    appended = sum(1 for op in ops if op["op"] in ("append", "eappend") and not op.get("bad"))
    looked = [op for op in ops if op["op"] in ("search", "elem", "reorder", "eget", "edist", "edists", "gneigh")]
    return appended >= 2 and bool(looked)


def runner(number, runners, seed, cases, deadline, queue):
    scratch = tempfile.mkdtemp(prefix="granne-verif-p20-")
    pair = Pair(scratch)
    counts, digests, samples, done, operations = {}, set(), [], 0, 0
    failure = None
    try:
        for k in range(number, cases, runners):
            if time.time() > deadline:
                break
            ops = Gen("%d-%d" % (seed, k)).case()
            found = pair.run(ops)
            done += 1
            operations += len(ops)
            for label in labels(ops):
                counts[label] = counts.get(label, 0) + 1
            if nontrivial(ops):
                digests.add(hashlib.sha256(json.dumps(ops, sort_keys=True).encode()).hexdigest()[:20])
                if len(samples) < 2 and len(ops) < 40:
                    samples.append(ops)
            if found is not None:
                failure = (k, ops, found)
                break
    finally:
        pair.stop()
        shutil.rmtree(scratch, ignore_errors=True)
        queue.put((done, operations, counts, digests, samples, failure))


def run():
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    cases = int(os.environ.get("P20_CASES", 0)) or (4000 if tier == "quick" else 100000)
    began = time.time()
    deadline = began + (240 if tier == "quick" else 640)
    runners = 8
    queue = multiprocessing.Queue()
    processes = [
        multiprocessing.Process(target=runner, args=(k, runners, seed, cases, deadline, queue)) for k in range(runners)
    ]
    for p in processes:
        p.start()
    total, operations, counts, digests, samples, failures = 0, 0, {}, set(), [], []
    for _ in processes:
        done, some, c, d, s, failure = queue.get()
        total += done
        operations += some
        for label, n in c.items():
            counts[label] = counts.get(label, 0) + n
        digests |= d
        samples += s
        if failure is not None:
            failures.append(failure)
    for p in processes:
        p.join()
    replay = None
    if failures:
        k, ops, (category, message) = min(failures, key=lambda f: f[0])
        scratch = tempfile.mkdtemp(prefix="granne-verif-p20-")
        pair = Pair(scratch)
        again = pair.run(ops)
        if again is not None and again[0] == category:
            ops = shrink(pair, ops, category, 60)
            final = pair.run(ops)
            if final is not None:
                category, message = final
        else:
            message += " (not every time)"
        pair.stop()
        shutil.rmtree(scratch, ignore_errors=True)
        text = json.dumps({"property": "P20", "category": category, "message": message, "ops": ops}, indent=1)
        replay = os.path.join(VERIF, "replays", "P20-" + hashlib.sha256(text.encode()).hexdigest()[:16] + ".json")
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        with open(replay, "w") as f:
            f.write(text + "\n")
        print(message)
        print("shrunk to %d operations" % len(ops))
    evidence = {
        "property": "P20",
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": len(digests),
            "rule": "A case is a history of calls of the Python module: vectors or embeddings with words, builders from "
            "nothing, from element files or from saved indexes, partial and full builds, saving (also over the files in "
            "use), loading, reading, searching, reordering, parsing and precomputing; arguments by position or keyword, "
            "as lists, tuples, integers or numpy arrays. Non-trivial: at least two elements appended and at least one "
            "result read. Distinct: by the operations.",
            "operations": operations,
            "classes": dict(sorted(counts.items())),
            "samples": samples[:4],
            "skipped_for_time": cases - total if not failures else 0,
        },
        "wall_s": round(time.time() - began, 1),
        "assumptions": [
            "valid arguments, apart from vectors of another dimension; one thread; Python 3.12 with its string layout "
            "patched into python3-sys (vendor/python3-sys)"
        ],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence/P20.json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write("\n")
    print("P20 %s seed %d: %d cases (%d non-trivial), %d calls, %.0f s" % (
        tier, seed, total, len(digests), operations, time.time() - began))
    if total == 0:
        print("ERROR: nothing was run")
        return 2
    if replay is not None:
        print("VIOLATION property=P20 replay=%s" % replay)
        return 1
    return 0


def main():
    if sys.argv[1:] == ["run"]:
        return run()
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        with open(sys.argv[2]) as f:
            ops = json.load(f)["ops"]
        scratch = tempfile.mkdtemp(prefix="granne-verif-p20-")
        pair = Pair(scratch)
        found = pair.run(ops)
        pair.stop()
        shutil.rmtree(scratch, ignore_errors=True)
        print(found[1] if found else "holds")
        return 1 if found else 0
    print("usage: p20.py run | replay FILE")
    return 2


if __name__ == "__main__":
    sys.exit(main())
