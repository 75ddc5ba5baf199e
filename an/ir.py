"""Loads the dumped program: functions, types, impls, constants, ADTs of every workspace crate."""
import glob
import json
import os
import re


class Ty:
    """A type: its printed form, ADT head, kind and arguments (other Ty)."""

    __slots__ = ("s", "adt", "k", "args", "closure")

    def __init__(self, s, adt=None, k=None, args=(), closure=None):
        self.s, self.adt, self.k, self.args, self.closure = s, adt, k, args, closure

    def __repr__(self):
        return self.s

    @property
    def peeled(self):
        s = self.s
        while True:
            m = re.match(r"^&(?:'\w+ )?(?:mut )?", s)
            if not m:
                return s
            s = s[m.end():]

    @property
    def is_mut_ref(self):
        return re.match(r"^&(?:'\w+ )?mut ", self.s) is not None

    @property
    def is_ref(self):
        return self.s.startswith("&")


class Fn:
    def __init__(self, crate, d, types, files):
        self.crate = crate
        self.d = d
        self.path = d["path"]
        self.name = d.get("name") or self.path.split("::")[-1]
        self.types = types
        self.file = files[d["file"]]
        self.line = d["l"]
        self.lend = d.get("lend", d["l"])
        self.trait = d.get("trait")
        self.self_ = d.get("self")
        self.provided = d.get("provided", False)
        self.generics = d.get("generics", [])
        self.preds = d.get("preds", [])
        self.ins = [types[i] for i in d.get("ins", [])]
        self.out = types[d["out"]] if "out" in d else None
        self.body = d["body"]
        self.derived = d.get("derived", False)
        self.impl = d.get("impl")
        self.vis = d.get("vis", "")
        self.unsafe = d.get("unsafe", False)
        self.did = d["did"]

    @property
    def where(self):
        return f"{self.file}:{self.line}"

    def __repr__(self):
        return f"<Fn {self.path}>"


class Program:
    def __init__(self, directory):
        self.fns = {}  # path -> [Fn]
        self.by_did = {}
        self.consts = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.crates = []
        self.types = {}
        self.const_list = []
        self.broken = set()
        for d in [directory] if isinstance(directory, str) else directory:
            for f in sorted(glob.glob(os.path.join(d, "*.json"))):
                self._load(json.load(open(f)))
        # impls by (trait, self head)
        self.impl_of = {}
        for i in self.impls:
            if i.get("trait"):
                self.impl_of.setdefault((i["trait"], i["self"]), []).append(i)
        self.drivers = {i["self"] for i in self.impls if i.get("trait") in ("ragu_core::drivers::Driver", "ragu_core::drivers::DriverTypes")}

    def _load(self, c):
        crate = c["crate"]
        self.crates.append(crate)
        types = []
        raw = c["types"]
        for t in raw:
            types.append(Ty(t["s"], t.get("adt"), t.get("k", "adt" if "adt" in t else None), None, t.get("closure")))
        for t, r in zip(types, raw):
            t.args = tuple(types[i] for i in r.get("args", []))
        files = [self._file(x) for x in c["files"]]
        for d in c["fns"]:
            fn = Fn(crate, d, types, files)
            if "e" not in fn.body:
                fn.body = {"params": [], "e": {"k": "Error", "t": None, "l": fn.line}}
            fn.broken = fn.body["e"]["k"] == "Error" or any(x["k"] == "Lit" and "body does not type-check" in str(x.get("val")) for x in walk(fn.body["e"]))
            if fn.broken:
                fn.body["e"] = {"k": "Error", "t": None, "l": fn.line}
                self.broken.add(fn.path)
            self.fns.setdefault(fn.path, []).append(fn)
            self.by_did[(crate, fn.did)] = fn
        for d in c["consts"]:
            d["crate"] = crate
            d["types"] = types
            d["file"] = files[d["file"]]
            self.consts.setdefault(d["path"], d)
            self.const_list.append(d)
        for d in c["adts"]:
            d["file"] = files[d["file"]]
            for v in d["variants"]:
                for x in v["fields"]:
                    x["ty"] = types[x["t"]]
            self.adts[d["path"]] = d
        for d in c["impls"]:
            d["crate"] = crate
            d["file"] = files[d["file"]]
            d["self_ty"] = types[d["self_t"]]
            for it in d["items"]:
                if "t" in it:
                    it["ty"] = types[it["t"]]
            self.impls.append(d)
        for d in c["traits"]:
            d["file"] = files[d["file"]]
            d["crate"] = crate
            self.traits[d["path"]] = d

    @staticmethod
    def _file(p):
        m = re.search(r"crates/(\w+?)(_build)?/(.*)$", p)
        if not m:
            return p
        if m[1] == "ragu":
            return m[3]
        return f"crates/{m[1]}/{m[3]}"

    def all_fns(self):
        for l in self.fns.values():
            yield from l

    def fn(self, path):
        l = self.fns.get(path)
        return l[0] if l else None

    def find(self, suffix):
        return [f for f in self.all_fns() if f.path == suffix or f.path.endswith("::" + suffix)]

    def impl_fns(self, trait, name):
        """Every implementation of a trait's function, the provided one included."""
        return [f for f in self.all_fns() if f.trait == trait and f.name == name]


def children(e):
    """The direct subexpressions of an expression, closures' bodies included."""
    k = e["k"]
    if k == "Block":
        for s in e["stmts"]:
            if s["k"] == "let":
                if "init" in s:
                    yield s["init"]
                if "else" in s:
                    yield s["else"]
            else:
                yield s["e"]
        if "e" in e:
            yield e["e"]
        return
    if k == "Match":
        yield e["e"]
        for a in e["arms"]:
            if "guard" in a:
                yield a["guard"]
            yield a["body"]
        return
    if k == "Closure":
        if "e" in e["body"]:
            yield e["body"]["e"]
        return
    if k == "Adt":
        for _, x in e["fields"]:
            yield x
        if "base" in e:
            yield e["base"]
        return
    for n in ("f", "c", "then", "e", "a", "b", "i"):
        x = e.get(n)
        if isinstance(x, dict) and "k" in x:
            yield x
    x = e.get("else")
    if isinstance(x, dict):
        yield x
    for n in ("args", "es"):
        for x in e.get(n, ()):
            yield x


def walk(e):
    stack = [e]
    while stack:
        x = stack.pop()
        yield x
        stack.extend(reversed(list(children(x))))


def callee(e):
    return e.get("res") or e.get("fn")
