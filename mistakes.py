"""C26: generated derive inputs, some with one mistake, given to the compiler in batches. The compiler has to
report an error inside each item with a mistake, and none anywhere else."""
import bisect
import copy
import json
import random

TYPES = ["i32", "String", "bool", "Vec<u8>", "Option<i32>", "[u8; 2]", "BTreeMap<String, i32>", "(i32, String)", "Box<u8>", "f64"]
VALUES = ["[1, 2]", "if true { 1 } else { 2 }", "u8::MAX", "-1.5_f32", "\"\\\"\"", "format!(\"{}, {}\", 1, 2)", "1", "\"x\"", "true", "-1_i64", "vec![1, 2]", "Some(1_u8)", "String::from(\"a, b = c\")", "{ 1 + 1 }", "(1 == 2)", "'='"]
EXTRA = ["#[doc = \" text\"]", "#[doc = \"\"]", "#[allow(dead_code)]", "#[cfg(all())]", "#[doc(hidden)]", "#[cfg_attr(all(), doc = \" a\")]"]
KEYS = ["a", "b", "skip", "meta", "name", "doc", "opt_out", "key_1"]
HASHMAPS = ["Result<(), HashMap<u8, u8>>", "Option<(i32, Vec<Box<HashMap<u8, u8>>>)>", "HashMap<HashMap<u8, u8>, u8>", "&'static HashMap<u8, u8>", "fn(HashMap<u8, u8>)",
            "HashMap<String, i32>", "std::collections::HashMap<u8, u8>", "Vec<HashMap<u8, u8>>", "Option<Box<HashMap<String, u8>>>", "(i32, HashMap<u8, u8>)",
            "[HashMap<u8, u8>; 2]", "BTreeMap<String, HashMap<u8, u8>>", "::std::collections::HashMap<String, Vec<u8>>"]
# an option of the wrong place or of no place: (where, text)
UNKNOWN = {
    "item": ["skip", "from_reflect_with(conv)", "ignore", "rename(a)", "Meta(a = 1)", "optout(Clone)", "opt_out(Copy)", "opt_out(clone)", "opt_out(Clone, PartialEq)",
             "opt_out(Reflect)", "opt_out(Debug, Debg)", "docs", "crate(mirror_mirror)", "default", "1", "\"skip\""],
    "field": ["opt_out(Clone)", "opt_out(Debug)", "opt_out(FromReflect)", "crate_name(mirror_mirror)", "Skip", "skipped", "ignore", "rename(a)", "default", "metadata(a = 1)",
              "from_reflect(conv)", "with(conv)", "1", "\"skip\"", "!skip"],
}
UNKNOWN["variant"] = UNKNOWN["field"]
MALFORMED = {
    "item": ["meta", "meta = 1", "meta(a)", "meta(a = )", "meta(\"a\" = 1)", "meta(a: 1)", "meta(a, b)", "opt_out", "opt_out = Clone", "crate_name", "crate_name()",
             "crate_name = mirror_mirror", "crate_name(\"mirror_mirror\")", "meta(1 = 1)", "opt_out(\"Clone\")", "meta(a.b = 1)"],
    "field": ["meta", "meta = 1", "meta(a)", "meta(a = )", "meta(\"a\" = 1)", "meta(a: 1)", "from_reflect_with", "from_reflect_with()", "from_reflect_with = conv",
              "from_reflect_with(\"conv\")", "from_reflect_with(1)", "meta(a b = 1)", "skip = true", "skip(true)"],
}
MALFORMED["variant"] = [m for m in MALFORMED["field"]]


class Gen:
    def __init__(self, r):
        self.r = r

    def meta(self):
        r = self.r
        ks = r.sample(KEYS, r.choice([1, 1, 2, 3]))
        return "meta(" + ", ".join(f"{k} = {r.choice(VALUES)}" for k in ks) + ")"

    def options(self, where):
        """Options without a mistake."""
        r = self.r
        out = []
        if r.random() < 0.35:
            out.append(self.meta())
        if where == "item":
            if r.random() < 0.25:
                out.append("opt_out(" + ", ".join(r.sample(["Clone", "Debug"], r.choice([1, 2]))) + r.choice(["", ","]) + ")")
            if r.random() < 0.15:
                out.append("crate_name(" + r.choice(["mirror_mirror", "crate::other"]) + ")")
        else:
            if r.random() < 0.15:
                out.append("skip")
            elif where == "field" and r.random() < 0.15:
                out.append("from_reflect_with(conv)")
        r.shuffle(out)
        return out

    def place(self, where):
        """An item, a field or a variant: the attributes of one place."""
        r = self.r
        # other attributes: before `#[reflect(..)]`, between it and a second one, at the end
        extra = [(r.randrange(3), r.choice(EXTRA)) for _ in range(r.choice([0, 0, 0, 1, 2, 3]))]
        return {"where": where, "extra": extra, "options": self.options(where), "comma": r.random() < 0.2, "raw": [], "rawfirst": False}

    def item(self, i):
        r = self.r
        kind = r.choice(["struct", "struct", "tstruct", "unit", "enum", "enum"])
        it = {"name": f"Item{i}", "kind": kind, "places": [self.place("item")], "fields": [], "variants": []}

        def fields(named):
            out = []
            for k in range(r.choice([0, 1, 2, 3, 4])):
                p = self.place("field")
                it["places"].append(p)
                out.append({"place": p, "name": f"f{k}" if named else "", "type": r.choice(TYPES)})
            return out

        if kind in ("struct", "tstruct"):
            it["fields"] = fields(kind == "struct")
        elif kind == "enum":
            for k in range(r.choice([1, 2, 3, 4])):
                p = self.place("variant")
                it["places"].append(p)
                vk = r.choice(["unit", "tuple", "struct"])
                it["variants"].append({"place": p, "name": f"V{k}", "kind": vk, "fields": [] if vk == "unit" else fields(vk == "struct")})
        return it

    def mistake(self, it):
        """Put one mistake in; what it is."""
        r = self.r
        for _ in range(20):
            m = r.choice(["unknown", "unknown", "malformed", "twice", "key", "key2", "hashmap", "union", "bare"])
            p = r.choice(it["places"])
            if m == "unknown" or m == "malformed":
                t = r.choice((UNKNOWN if m == "unknown" else MALFORMED)[p["where"]])
                p["options"].insert(r.randrange(len(p["options"]) + 1), t)
                p["keep"] = [t]
                return f"{m} option {t} on {p['where']}"
            if m == "twice":
                a = self.options(p["where"]) or r.choice([[self.meta()], []])
                p["raw"].append("#[reflect(" + ", ".join(a) + ")]")
                p["rawfirst"] = r.random() < 0.5
                if not p["options"]:
                    p["options"].append(self.meta())
                p["keep"] = p["options"]
                return f"two attributes on {p['where']}"
            if m == "key":
                k = r.choice(KEYS)
                ks = [k] + r.sample([x for x in KEYS if x != k], r.choice([0, 1, 2])) + [k]
                p["options"] = [o for o in p["options"] if not o.startswith("meta")]
                p["options"].insert(r.randrange(len(p["options"]) + 1), "meta(" + ", ".join(f"{x} = {r.choice(VALUES)}" for x in ks) + ")")
                p["keep"] = p["options"]
                return f"repeated key {k} on {p['where']}"
            if m == "key2":
                k = r.choice(KEYS)
                p["options"] = [o for o in p["options"] if not o.startswith("meta")]
                p["options"].append(f"meta({k} = {r.choice(VALUES)})")
                p["options"].append(f"meta({k} = {r.choice(VALUES)})")
                p["keep"] = p["options"]
                return f"key {k} in two groups on {p['where']}"
            if m == "hashmap":
                fs = [f for f in it["fields"] + [f for v in it["variants"] if "skip" not in v["place"]["options"] for f in v["fields"]]
                      if "skip" not in f["place"]["options"]]
                if fs:
                    f = r.choice(fs)
                    f["type"] = r.choice(HASHMAPS)
                    f["place"]["keep"] = []
                    return f"field of type {f['type']}"
            if m == "union" and it["kind"] == "struct" and it["fields"]:
                it["kind"] = "union"
                it["places"][0]["keep"] = []
                for f in it["fields"]:
                    f["type"] = r.choice(["u8", "i32", "f32", "bool"])
                return "union"
            if m == "bare" and not p["options"]:
                t = r.choice(["#[reflect]", "#[reflect = \"skip\"]"])
                p["raw"].append(t)
                p["keep"] = []
                return f"{t} on {p['where']}"
        return None


def attrs(p):
    own = ["#[reflect(" + ", ".join(p["options"]) + ("," if p["comma"] else "") + ")]"] if p["options"] else []
    a, b = (p["raw"], own) if p["rawfirst"] else (own, p["raw"])
    ex = [[e for k, e in p["extra"] if k == n] for n in range(3)]
    return " ".join(ex[0] + a + ex[1] + b + ex[2])


def text(it):
    def fs(fields, vis):
        return " ".join(f"{attrs(f['place'])} {vis}{f['name'] + ': ' if f['name'] else ''}{f['type']}," for f in fields)

    n = it["name"]
    opt = " ".join(it["places"][0]["options"])
    der = ["Reflect"] + [d for d in ("Clone", "Debug") if it["kind"] != "union" and f"{d}" not in opt]
    head = f"#[derive({', '.join(der)})] {attrs(it['places'][0])}\n"
    k = it["kind"]
    if k in ("struct", "union"):
        return head + f"pub {k} {n} {{ {fs(it['fields'], 'pub ')} }}\n"
    if k == "tstruct":
        return head + f"pub struct {n}({fs(it['fields'], 'pub ')});\n"
    if k == "unit":
        return head + f"pub struct {n};\n"
    out = []
    for v in it["variants"]:
        body = {"unit": "", "tuple": f"({fs(v['fields'], '')})", "struct": f" {{ {fs(v['fields'], '')} }}"}[v["kind"]]
        out.append(f"{attrs(v['place'])} {v['name']}{body},")
    return head + f"pub enum {n} {{\n" + "\n".join(out) + "\n}\n"


PRELUDE = """// Written by mistakes.py; not kept in git.
#![allow(warnings)]
use std::collections::{BTreeMap, HashMap};
use mirror_mirror::{FromReflect, Reflect};
pub mod other { pub use mirror_mirror::*; }
pub fn conv<T: FromReflect>(r: &dyn Reflect) -> Option<T> { T::from_reflect(r) }
"""


def generate(seed, n):
    """Items with what is wrong with them, if anything."""
    g = Gen(random.Random(seed))
    out = []
    for i in range(n):
        it = g.item(i)
        bad = g.mistake(it) if g.r.random() < 0.75 else None
        out.append((it, bad, text(it)))
    return out


def run(items, path, cargo, cwd):
    """The problem of each item by number: (item, message)."""
    src = PRELUDE
    starts = []
    for _, _, t in items:
        starts.append(src.count("\n") + 1)
        src += t
    with open(path, "w") as f:
        f.write(src)
    r = cargo(["check", "-q", "--message-format=json"], cwd)
    errors = {}
    stray = []
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        m = m["message"]
        spans = [s for s in m["spans"] if s["is_primary"] and s["file_name"].endswith("gen/mistakes.rs")]
        if not spans:
            if m["spans"]:
                stray.append(m["message"])
            continue
        for s in spans:
            k = bisect.bisect_right(starts, s["line_start"]) - 1
            errors.setdefault(k, []).append(m["message"])
    if r.returncode != 0 and not errors and not stray:
        return None, r.stdout
    out = []
    for k, (_, bad, _) in enumerate(items):
        es = errors.get(k, [])
        if bad and not es:
            out.append((k, "no error reported for: " + bad))
        elif not bad and es:
            out.append((k, "error without a mistake: " + es[0]))
        elif any("panicked" in e for e in es):
            out.append((k, "the macro panicked: " + es[0]))
    return out, stray


def smaller(it):
    """The item with one thing less, the mistake kept."""
    out = []

    def without(f):
        c = copy.deepcopy(it)
        if f(c):
            out.append(c)

    def places(c):
        ps = [c["places"][0]]
        for v in c["variants"]:
            ps.append(v["place"])
            ps += [f["place"] for f in v["fields"]]
        return ps + [f["place"] for f in c["fields"]]

    def drop(xs, k):
        return xs.pop(k) or True

    for k, v in enumerate(it["variants"]):
        if "keep" not in v["place"] and all("keep" not in f["place"] for f in v["fields"]):
            without(lambda c: drop(c["variants"], k))
        for n, f in enumerate(v["fields"]):
            if "keep" not in f["place"]:
                without(lambda c: drop(c["variants"][k]["fields"], n))
    for n, f in enumerate(it["fields"]):
        if "keep" not in f["place"] and it["kind"] != "union":
            without(lambda c: drop(c["fields"], n))
    for n, p in enumerate(places(it)):
        for m in range(len(p["extra"])):
            without(lambda c: drop(places(c)[n]["extra"], m))
        if p["comma"]:
            without(lambda c: places(c)[n].update(comma=False) or True)
        for m, o in enumerate(p["options"]):
            if o not in p.get("keep", []):
                without(lambda c: drop(places(c)[n]["options"], m))
    for c in out:
        c["places"] = places(c)
    return out


def shrink(it, bad, path, cargo, cwd):
    for _ in range(20):
        cs = smaller(it)
        for k, c in enumerate(cs):
            c["name"] = f"Item{k}"
        if not cs:
            break
        items = [(c, bad, text(c)) for c in cs]
        fails, _ = run(items, path, cargo, cwd)
        if not fails:
            break
        it = cs[fails[0][0]]
    return it
