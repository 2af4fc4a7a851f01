#!/usr/bin/env python3
"""Writes gen/zoo.rs: derived types (hand-designed corner cases and seed-dependent random ones), each
with a model that uses direct field access only, never the reflection code under test."""
import random
import sys
import zlib

SCALARS = ["usize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "bool", "char", "f32", "f64", "String"]
NZ = ["NonZeroUsize", "NonZeroU8", "NonZeroU16", "NonZeroU32", "NonZeroU64", "NonZeroU128",
      "NonZeroI8", "NonZeroI16", "NonZeroI32", "NonZeroI64", "NonZeroI128"]


class T:
    """A type expression with what it can be used for."""

    def __init__(self, s, clone=True, debug=True, ord=False, dflt=False, into=True, boxed=False, key=None, cmp=True):
        self.s, self.clone, self.debug, self.ord, self.dflt, self.into = s, clone, debug, ord, dflt, into
        self.boxed = boxed
        # usable as map key in the model (implies ord)
        self.key = ord if key is None else key


def sc(s):
    return T(s, ord=s not in ("f32", "f64"), dflt=True)


def vec(t):
    return T(f"Vec<{t.s}>", t.clone, t.debug, t.ord, True, True, key=t.key)


def opt(t):
    return T(f"Option<{t.s}>", t.clone, t.debug, t.ord, True, True, key=t.key)


def arr(t, n):
    return T(f"[{t.s}; {n}]", t.clone, t.debug, t.ord, t.dflt, True, key=t.key)


def bmap(k, v):
    assert k.key
    return T(f"BTreeMap<{k.s}, {v.s}>", k.clone and v.clone, k.debug and v.debug, k.ord and v.ord, True, True, key=False)


def box(t):
    return T(f"Box<{t.s}>", t.clone, t.debug, t.ord, t.dflt, t.into, boxed=True, key=t.key)


def res(a, b):
    return T(f"Result<{a.s}, {b.s}>", a.clone and b.clone, a.debug and b.debug, a.ord and b.ord, False, True,
             key=a.key and b.key)


def rng(t):
    return T(f"Range<{t.s}>", t.clone, t.debug, False, t.dflt, True)


def tup(*ts):
    s = "(" + "".join(t.s + ", " for t in ts) + ")"
    assert all(t.clone for t in ts)
    return T(s, True, all(t.debug for t in ts), all(t.ord for t in ts), all(t.dflt for t in ts), False,
             key=all(t.key for t in ts))


DUR = T("Duration", ord=True, dflt=True, key=False)
VALUE = T("Value", ord=True, key=True)
OPAQUE = T("Opaque", ord=True, dflt=True, into=False, key=False)
NOTREFLECT = T("NotReflect", ord=True, dflt=True, key=False)


def nz(s):
    return T(s, ord=True)


def rs(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


# metadata values: (rust expression, model expression)
METAS = [
    ("1337", "V::S(Sc::I32(1337))"),
    ("\"text\"", "V::of_str(\"text\")"),
    ("String::from(\"a \\\"b\\\"\")", "V::of_str(\"a \\\"b\\\"\")"),
    ("true", "V::S(Sc::Bool(true))"),
    ("-7_i64", "V::S(Sc::I64(-7))"),
    ("'x'", "V::S(Sc::Char('x'))"),
    ("1.5_f32", "V::S(Sc::F32(1.5f32.to_bits()))"),
    ("255_u8", "V::S(Sc::U8(255))"),
    ("vec![1_i32, 2, 3]", "V::List(vec![V::S(Sc::I32(1)), V::S(Sc::I32(2)), V::S(Sc::I32(3))])"),
    ("Some(5_u8)", "ev(\"Some\", VK::Tuple, vec![V::S(Sc::U8(5))])"),
    ("MetaS { a: 3, b: String::from(\"m\") }", "sv(vec![(\"a\", V::S(Sc::I32(3))), (\"b\", V::of_str(\"m\"))])"),
    ("[1_u8, 2]", "V::List(vec![V::S(Sc::U8(1)), V::S(Sc::U8(2))])"),
    ("u128::MAX", "V::S(Sc::U128(u128::MAX))"),
    ("vec![(1_u8, true), (2, false)]", "V::List(vec![V::Tuple(vec![V::S(Sc::U8(1)), V::S(Sc::Bool(true))]), V::Tuple(vec![V::S(Sc::U8(2)), V::S(Sc::Bool(false))])])"),
    ("{ let x = 3_i32; x * 2 }", "V::S(Sc::I32(6))"),
    ("if 1 < 2 { 'a' } else { 'b' }", "V::S(Sc::Char('a'))"),
    ("u8::max(3, 4) as i16", "V::S(Sc::I16(4))"),
]


class F:
    def __init__(self, name, t, skip=False, docs=(), meta=(), with_=None):
        self.name, self.t, self.skip, self.docs, self.meta, self.with_ = name, t, skip, list(docs), list(meta), with_

    def attr(self, sep=" "):
        parts = []
        if self.skip:
            parts.append("skip")
        if self.meta:
            parts.append("meta(" + ", ".join(f"{k} = {METAS[i][0]}" for k, i in self.meta) + ")")
        if self.with_:
            parts.append(f"from_reflect_with({self.with_})")
        # options in any order
        if len(parts) > 1 and zlib.crc32(repr(parts).encode()) % 2:
            parts.reverse()
        other = [f"#[reflect({', '.join(parts)})]"] if parts else []
        return sep.join(mixed(self.name, self.docs, other))

    def fd(self):
        s = f"FD {{ skip: {str(self.skip).lower()}, docs: {docs(self.docs)}, meta: {meta(self.meta)}, "
        if self.skip:
            s += f"dflt: Some(|| <{self.t.s} as Default>::default().to_v()), "
        if self.with_:
            s += f"with: Some({self.with_}_model), "
        if "Box<" in self.t.s:
            s += "boxed: true, "
        return s + f"..fd({rs(self.name)}, tf::<{self.t.s}>) }}"


def mixed(name, ds, attrs):
    """Lines of documentation and other attributes in one of several orders."""
    out = ["///" + d if d and not d.startswith("/") and zlib.crc32(d.encode()) % 2 else f"#[doc = {rs(d)}]" for d in ds]
    out = [o + "\n" if o.startswith("///") else o for o in out]
    how = zlib.crc32(repr((name, ds, attrs)).encode()) % 5
    if how == 0 or not ds:
        return out + attrs
    if how == 1:
        return attrs + out
    if how == 2:
        return ["#[allow(dead_code)]"] + out + attrs
    i = (len(out) + 1) // 2
    if how == 3:
        return out[:i] + ["#[allow(unused)]", "#[doc(hidden)]"] + out[i:] + attrs
    return out[:i] + attrs + out[i:] + ["#[cfg_attr(all(), allow(unused))]"]


def docs(ds):
    return "vec![" + ", ".join(rs(d) for d in ds) + "]"


def meta(ms):
    return "vec![" + ", ".join(f"({rs(k)}, {METAS[i][1]})" for k, i in sorted(ms)) + "]"


class Ty:
    def __init__(self, name, kind, fields=(), variants=(), opt_out=(), docs=(), meta=(), keyable=False, generics=None,
                 crate_name=None, cfrom=None, default=False, instances=()):
        self.name, self.kind, self.fields, self.variants = name, kind, list(fields), list(variants)
        self.opt_out, self.docs, self.meta, self.keyable = set(opt_out), list(docs), list(meta), keyable
        self.generics, self.crate_name, self.cfrom, self.default = generics, crate_name, cfrom, default
        self.instances = list(instances)

    def t(self, args=""):
        return T(self.name + args, "Clone" not in self.opt_out, "Debug" not in self.opt_out, self.keyable, self.default, True,
                 key=self.keyable)

    def all_fields(self):
        return self.fields + [f for v in self.variants for f in v.fields]

    def emit(self):
        o = []
        der = ["Reflect"]
        if "Clone" not in self.opt_out:
            der.append("Clone")
        if "Debug" not in self.opt_out:
            der.append("Debug")
        if self.keyable:
            der += ["PartialEq", "Eq", "PartialOrd", "Ord"]
        if self.default:
            der.append("Default")
        derive = f"#[derive({', '.join(der)})]"
        parts = []
        if self.opt_out:
            parts.append(f"opt_out({', '.join(sorted(self.opt_out))})")
        if self.meta:
            parts.append("meta(" + ", ".join(f"{k} = {METAS[i][0]}" for k, i in self.meta) + ")")
        if self.crate_name:
            parts.append(f"crate_name({self.crate_name})")
        if parts:
            reflect = [f"#[reflect({', '.join(parts)})]"]
        else:
            reflect = []
        # the derive sees attributes on both sides of it, but helper attributes come after it
        ms = mixed(self.name, self.docs, reflect)
        i = 0
        if zlib.crc32(self.name.encode()) % 2:
            while i < len(ms) and "reflect(" not in ms[i]:
                i += 1
        o += ms[:i] + [derive] + ms[i:]
        g_decl, g_use, where, g_impl = "", "", "", ""
        if self.generics:
            ps, ws = self.generics
            g_decl = "<" + ", ".join(ps) + ">"
            g_impl = g_decl
            g_use = "<" + ", ".join(p.replace("const ", "").split(":")[0] for p in ps) + ">"
            where = (" where " + ", ".join(ws)) if ws else ""
        if self.kind == "unit":
            o.append(f"pub struct {self.name}{g_decl};")
        elif self.kind == "struct":
            o.append(f"pub struct {self.name}{g_decl}{where} {{")
            o += [f"    {f.attr()} pub {f.name}: {f.t.s}," for f in self.fields]
            o.append("}")
        elif self.kind == "tstruct":
            o.append(f"pub struct {self.name}{g_decl}(")
            o += [f"    {f.attr()} pub {f.t.s}," for f in self.fields]
            o.append(f"){where};")
        else:
            o.append(f"pub enum {self.name}{g_decl}{where} {{")
            for v in self.variants:
                a = v.attr()
                if v.kind == "unit":
                    o.append(f"    {a} {v.name},")
                elif v.kind == "struct":
                    o.append(f"    {a} {v.name} {{ " + " ".join(f"{f.attr()} {f.name}: {f.t.s}," for f in v.fields) + " },")
                else:
                    o.append(f"    {a} {v.name}(" + " ".join(f"{f.attr()} {f.t.s}," for f in v.fields) + "),")
            o.append("}")
        # model
        me = self.name + g_use
        mw = where
        if self.generics:
            extra = []
            if "Debug" not in self.opt_out:
                pass
            mw = where
        o.append(f"impl{g_impl} Model for {me}{mw} {{")
        k = {"unit": "Struct", "struct": "Struct", "tstruct": "TStruct", "enum": "Enum"}[self.kind]
        if self.kind == "enum":
            body = ", ".join(v.vd() for v in self.variants)
        else:
            body = ", ".join(f.fd() for f in self.fields)
        dbg = "None" if "Debug" in self.opt_out else "Some(native_dbg::<Self>)"
        cfrom = f"Some({self.cfrom})" if self.cfrom else "None"
        o.append(f"    fn mk() -> TyD {{ TyD {{ docs: {docs(self.docs)}, meta: {meta(self.meta)}, dbg: {dbg}, opt_out: {str(bool(self.opt_out)).lower()}, cfrom: {cfrom}, "
                 f"..tyd::<Self>(TK::{k}(vec![{body}])) }} }}")
        n = self.name
        if self.kind == "unit":
            o.append(f"    fn from_v(_: &V) -> Self {{ {n} }}")
            o.append("    fn to_v(&self) -> V { sv(vec![]) }")
        elif self.kind == "struct":
            o.append("    #[allow(unused_variables)]")
            o.append(f"    fn from_v(v: &V) -> Self {{ {n} {{ " +
                     ", ".join(f"{f.name}: Model::from_v(sf(v, {i}))" for i, f in enumerate(self.fields)) + " } }")
            o.append("    fn to_v(&self) -> V { sv(vec![" +
                     ", ".join(f"({rs(f.name)}, self.{f.name}.to_v())" for f in self.fields) + "]) }")
        elif self.kind == "tstruct":
            o.append("    #[allow(unused_variables)]")
            o.append(f"    fn from_v(v: &V) -> Self {{ {n}(" +
                     ", ".join(f"Model::from_v(sf(v, {i}))" for i, f in enumerate(self.fields)) + ") }")
            o.append("    fn to_v(&self) -> V { V::TStruct(vec![" +
                     ", ".join(f"self.{i}.to_v()" for i, f in enumerate(self.fields)) + "]) }")
        else:
            o.append("    fn from_v(v: &V) -> Self { match v { V::Enum(n, _, _) => match n.as_str() {")
            for v in self.variants:
                fs = [f"Model::from_v(sf(v, {i}))" for i in range(len(v.fields))]
                if v.kind == "unit":
                    c = f"{n}::{v.name}"
                elif v.kind == "struct":
                    c = f"{n}::{v.name} {{ " + ", ".join(f"{f.name}: {x}" for f, x in zip(v.fields, fs)) + " }"
                else:
                    c = f"{n}::{v.name}(" + ", ".join(fs) + ")"
                o.append(f"        {rs(v.name)} => {c},")
            o.append("        _ => panic!(\"bad model\") }, _ => panic!(\"bad model\") } }")
            o.append("    fn to_v(&self) -> V { match self {")
            for v in self.variants:
                bs = [f"b_{i}" for i in range(len(v.fields))]
                if v.kind == "unit":
                    p = f"{n}::{v.name}"
                elif v.kind == "struct":
                    p = f"{n}::{v.name} {{ " + ", ".join(f"{f.name}: {b}" for f, b in zip(v.fields, bs)) + " }"
                else:
                    p = f"{n}::{v.name}(" + ", ".join(bs) + ")"
                vk = {"unit": "Unit", "struct": "Struct", "tuple": "Tuple"}[v.kind]
                fs = ", ".join(f"({rs(f.name if v.kind == 'struct' else '')}.to_string(), {b}.to_v())"
                               for f, b in zip(v.fields, bs))
                o.append(f"        {p} => V::Enum({rs(v.name)}.to_string(), VK::{vk}, vec![{fs}]),")
            o.append("    } }")
        o.append("}")
        return "\n".join(o) + "\n"


class Var:
    def __init__(self, name, kind, fields=(), skip=False, docs=(), meta=()):
        self.name, self.kind, self.fields, self.skip = name, kind, list(fields), skip
        self.docs, self.meta = list(docs), list(meta)
        if kind == "tuple":
            for f in self.fields:
                f.name = ""

    def attr(self):
        return F("", None, self.skip, self.docs, self.meta).attr()

    def vd(self):
        vk = {"unit": "Unit", "struct": "Struct", "tuple": "Tuple"}[self.kind]
        return (f"VD {{ skip: {str(self.skip).lower()}, docs: {docs(self.docs)}, meta: {meta(self.meta)}, "
                f"..vd({rs(self.name)}, VK::{vk}, vec![{', '.join(f.fd() for f in self.fields)}]) }}")


def nf(*specs):
    """named fields from (name, T) pairs"""
    return [F(n, t) for n, t in specs]


def tfs(*ts):
    return [F("", t) for t in ts]


I32, STR, U8, BOOL, F64_, CHAR, I64 = (sc(x) for x in ("i32", "String", "u8", "bool", "f64", "char", "i64"))
U32 = sc("u32")
NZU8 = nz("NonZeroU8")

GB = "T: Model + Reflect + FromReflect + DescribeType + Clone + std::fmt::Debug"


def corner():
    z = []
    z.append(Ty("MetaS", "struct", nf(("a", I32), ("b", STR)), keyable=True, default=True))
    z.append(Ty("Unit", "unit", keyable=True, default=True, docs=[" a unit"]))
    z.append(Ty("EmptyS", "struct", []))
    z.append(Ty("EmptyT", "tstruct", []))
    z.append(Ty("AllScalars", "struct", nf(*[(f"f_{s.lower()}", sc(s)) for s in SCALARS])))
    z.append(Ty("AllScalarsT", "tstruct", tfs(*[sc(s) for s in reversed(SCALARS)])))
    z.append(Ty("AllNz", "struct", nf(*[(s.lower(), nz(s)) for s in NZ], ("dur", DUR))))
    z.append(Ty("Pair", "struct", nf(("x", I32), ("y", STR)), keyable=True, default=True,
                docs=[" first line", " second \"quoted\" line", ""], meta=[("b", 0), ("a", 1)]))
    # skipped fields in every position
    z.append(Ty("SkipFirst", "struct", [F("hidden", NOTREFLECT, skip=True), F("a", I32), F("b", STR)]))
    z.append(Ty("SkipMid", "struct", [F("a", I32), F("hidden", U8, skip=True), F("b", STR), F("c", BOOL)]))
    z.append(Ty("SkipLast", "struct", [F("a", I32), F("b", STR), F("hidden", vec(U8), skip=True)]))
    z.append(Ty("SkipAll", "struct", [F("a", I32, skip=True), F("b", NOTREFLECT, skip=True)]))
    z.append(Ty("TSkipFirst", "tstruct", [F("", NOTREFLECT, skip=True), F("", I32), F("", STR)]))
    z.append(Ty("TSkipMid", "tstruct", [F("", I32), F("", I32, skip=True), F("", I32), F("", NOTREFLECT, skip=True), F("", STR)]))
    z.append(Ty("TSkipLast", "tstruct", [F("", STR), F("", I32), F("", STR, skip=True)]))
    z.append(Ty("ESkip", "enum", variants=[
        Var("A", "tuple", [F("", U8, skip=True), F("", I32), F("", STR)]),
        Var("B", "tuple", [F("", I32), F("", NOTREFLECT, skip=True), F("", I32), F("", BOOL)]),
        Var("C", "struct", [F("a", I32), F("hidden", STR, skip=True), F("b", STR)]),
        Var("D", "struct", [F("hidden", NOTREFLECT, skip=True), F("a", I32)]),
        Var("E", "unit"),
        Var("G", "tuple", [F("", I32, skip=True)]),
    ]))
    z.append(Ty("EHidden", "enum", variants=[
        Var("Shown", "tuple", tfs(I32)),
        Var("HiddenT", "tuple", tfs(NOTREFLECT), skip=True),
        Var("Other", "struct", nf(("a", I32), ("b", BOOL))),
        Var("HiddenS", "struct", nf(("a", I32)), skip=True),
        Var("Last", "unit"),
        Var("HiddenU", "unit", skip=True),
    ]))
    z.append(Ty("EHiddenFirst", "enum", variants=[
        Var("HiddenU", "unit", skip=True),
        Var("Shown", "tuple", tfs(I32, STR)),
        Var("Plain", "unit"),
    ]))
    z.append(Ty("EKinds", "enum", keyable=True, variants=[
        Var("Unit", "unit", docs=[" nothing"], meta=[("weight", 0)]),
        Var("One", "tuple", tfs(I32), docs=[" one", " more"]),
        Var("Two", "tuple", [F("", STR, docs=[" left"], meta=[("m", 3)]), F("", U8, docs=[" right"])]),
        Var("S", "struct", [F("a", I32, docs=[" the a"]), F("b", STR, meta=[("z", 1), ("y", 7)])], meta=[("s", 10)]),
        Var("EmptyT", "tuple"),
        Var("EmptyS", "struct"),
    ], docs=[" An enum"], meta=[("enum_key", 8)]))
    z.append(Ty("ESame", "enum", variants=[
        Var("A", "struct", nf(("x", I32), ("y", I32))),
        Var("B", "struct", nf(("y", STR), ("x", I32))),
        Var("C", "struct", nf(("x", BOOL))),
        Var("D", "tuple", tfs(I32, I32)),
        Var("E", "tuple", tfs(STR, I32)),
    ]))
    # names used by generated code
    names = ["name", "index", "value", "other", "enum_", "struct_", "f", "field", "this", "new", "new_value",
             "variant_matches", "fields", "iter", "meta", "graph", "docs", "key", "data", "idx", "fake_self", "field_0"]
    half = len(names) // 2
    z.append(Ty("Names", "struct", nf(*[(n, sc(SCALARS[i % 16])) for i, n in enumerate(names)])))
    z.append(Ty("ENames", "enum", variants=[
        Var("First", "struct", nf(*[(n, sc(SCALARS[i % 13])) for i, n in enumerate(names[:half])])),
        Var("Second", "struct", nf(*[(n, sc(SCALARS[(i + 5) % 13])) for i, n in enumerate(names[half:])])),
        Var("Name", "struct", nf(("name", STR), ("value", I32))),
    ]))
    z.append(Ty("CaseNames", "struct", nf(("a", I32), ("aa", I32), ("aaa", I32), ("ab", STR), ("_a", U8), ("a_", BOOL))))
    z.append(Ty("DocLines", "struct", [
        F("a", I32, docs=[" x", " x", "", "", " y", "", "", ""]), F("b", STR, docs=["", ""], meta=[("m", 0)]),
        F("c", opt(I32), docs=[" one", " two", " one", " three"], meta=[("n", 1)])],
        docs=["", "", " same", " same", " same", "", " end", ""], meta=[("q", 3)]))
    z.append(Ty("EDocLines", "enum", variants=[
        Var("A", "unit", docs=["", "", " a", " a"], meta=[("m", 0)]),
        Var("B", "tuple", [F("", I32, docs=[" f", " f", ""], meta=[("k", 1)]), F("", I32, docs=["", "", " g"])], docs=[" b", "", "", " b"]),
        Var("C", "struct", [F("x", I32, docs=["", " h", " h"], meta=[("k", 2)])], docs=[" c", " d", " c"], meta=[("z", 4), ("y", 7)])],
        docs=[" e", " e"], meta=[("q", 1)]))
    # what has no default, in every position
    z.append(Ty("EOpq", "enum", variants=[
        Var("S1", "struct", nf(("a", OPAQUE), ("b", I32))), Var("S2", "struct", nf(("a", I32), ("b", OPAQUE), ("c", I32))),
        Var("S3", "struct", nf(("a", I32), ("b", DUR))), Var("T1", "tuple", tfs(DUR, I32)), Var("T2", "tuple", tfs(I32, OPAQUE, I32)),
        Var("T3", "tuple", tfs(I32, STR, NZU8)), Var("S4", "struct", nf(("a", opt(OPAQUE)), ("b", vec(DUR)))), Var("U", "unit")]))
    for i, f in enumerate([nf(("a", OPAQUE), ("b", I32)), nf(("a", I32), ("b", DUR), ("c", I32)), nf(("a", I32), ("b", NZU8)),
                           nf(("a", I32), ("b", arr(OPAQUE, 1))), nf(("a", arr(OPAQUE, 0)), ("b", opt(OPAQUE))),
                           nf(("a", I32), ("b", tup(I32, OPAQUE))), nf(("a", T("EOpq")), ("b", I32))]):
        z.append(Ty(f"Opq{i}", "struct", f))
        z.append(Ty(f"OpqT{i}", "tstruct", tfs(*[x.t for x in f])))
    z.append(Ty("EOpqFirst", "enum", variants=[Var("A", "struct", nf(("a", I32), ("b", T("EOpq")))), Var("B", "unit")]))
    z.append(Ty("EOpqTuple", "enum", variants=[Var("A", "tuple", tfs(I32, tup(I32, OPAQUE))), Var("B", "unit")]))
    # many parts
    z.append(Ty("Many", "struct", nf(*[(f"m{i}", [U8, BOOL][i % 2]) for i in range(260)])))
    z.append(Ty("ManyT", "tstruct", tfs(*[[BOOL, U8][i % 2] for i in range(260)])))
    z.append(Ty("ManyE", "enum", variants=[Var(f"V{i}", "unit") for i in range(257)] + [
        Var("Last", "struct", nf(("a", I32))), Var("T", "tuple", tfs(*[[BOOL, U8][i % 2] for i in range(258)])),
        Var("S", "struct", nf(*[(f"n{i}", [U8, BOOL][i % 2]) for i in range(258)]))]))
    # long names, long lists of attributes
    z.append(Ty("LongNames", "struct", nf(("x" * 33, I32), ("y" * 300, opt(U8)), ("x" * 32 + "y", STR))))
    z.append(Ty("L" + "ong" * 40, "tstruct", tfs(I32, STR)))
    z.append(Ty("LongNamesE", "enum", variants=[
        Var("A" * 260, "tuple", tfs(I32)), Var("A" * 259 + "B", "struct", nf(("z" * 65, U8))), Var("A" * 64, "unit")]))
    lots = [(f"m{i}", i % len(METAS)) for i in range(34)]
    lots += [(k, i % len(METAS)) for i, k in enumerate(["_x", "X9", "skip", "meta", "opt_out", "Clone", "é", "__", "name", "default"])]
    lines = [f" line {i % 7}" for i in range(70)]
    z.append(Ty("Lots", "struct", [F("a", I32, docs=lines, meta=lots), F("b", STR, docs=[" x" * 300])], docs=lines[::-1], meta=lots[::-1]))
    z.append(Ty("LotsE", "enum", variants=[
        Var("A", "tuple", [F("", I32, docs=lines, meta=lots)], docs=lines, meta=lots[3:]), Var("B", "unit", docs=lines[2:], meta=lots[:30])],
        docs=lines, meta=lots))
    # opt outs
    z.append(Ty("NoClone", "struct", nf(("a", I32), ("b", vec(STR)), ("d", opt(DUR)), ("f", sc("f32"))), opt_out=["Clone"]))
    z.append(Ty("NoDebug", "struct", nf(("a", I32), ("b", opt(STR))), opt_out=["Debug"]))
    z.append(Ty("NoBoth", "tstruct", tfs(I32, bmap(U8, DUR), arr(I32, 2)), opt_out=["Clone", "Debug"]))
    z.append(Ty("ENoClone", "enum", variants=[
        Var("A", "tuple", tfs(I32, DUR)), Var("B", "struct", nf(("x", vec(U8)), ("y", opt(I32)))), Var("C", "unit")],
        opt_out=["Clone"]))
    z.append(Ty("ENoBoth", "enum", variants=[
        Var("A", "tuple", tfs(STR)), Var("B", "struct", nf(("name", I32), ("y", tup(U8, U8))))], opt_out=["Clone", "Debug"]))
    z.append(Ty("Holds", "struct", nf(("nc", T("NoClone", clone=False)), ("e", T("ENoClone", clone=False))), opt_out=["Clone"]))
    z.append(Ty("HoldsNd", "tstruct", tfs(T("NoDebug", debug=False), T("ENoBoth", clone=False, debug=False)),
                opt_out=["Clone", "Debug"]))
    z.append(Ty("CustomFrom", "tstruct", tfs(I32), opt_out=["FromReflect"], cfrom="custom_from_model"))
    z.append(Ty("ECustomFrom", "enum", variants=[Var("Zero", "unit"), Var("Pos", "tuple", tfs(I32)), Var("Neg", "struct", nf(("by", I32)))],
                opt_out=["FromReflect"], cfrom="e_custom_from_model"))
    # from_reflect_with
    z.append(Ty("With", "struct", [F("a", I32, with_="w_len"), F("b", STR), F("c", vec(STR), with_="w_words")]))
    z.append(Ty("WithEven", "struct", [F("a", U32, with_="w_even"), F("b", U32)]))
    z.append(Ty("WithT", "tstruct", [F("", STR), F("", I32, with_="w_len"), F("", I32, skip=True), F("", vec(STR), with_="w_words"),
                                    F("", U32, with_="w_even")]))
    z.append(Ty("EWith", "enum", variants=[
        Var("A", "tuple", [F("", I32), F("", I32, with_="w_len"), F("", U32, with_="w_even")]),
        Var("B", "struct", [F("a", I32, with_="w_len"), F("b", vec(STR), with_="w_words")]),
        Var("C", "unit")]))
    # opt outs with everything else
    # (a type without Clone is copied by converting it, so its functions don't change their own field)
    for i, oo in enumerate([[], ["Clone"], ["Debug"], ["Clone", "Debug"]]):
        def mix(named, order):
            fs = {"a": F("a", I32, with_="w_len", docs=[" converted"]), "h": F("h", NOTREFLECT, skip=True), "b": F("b", opt(STR), meta=[("k", 1)]),
                  "c": F("c", U32, with_="w_flag" if "Clone" in oo else "w_even", meta=[("m", 2)], docs=[" c"]), "i": F("i", U8, skip=True, meta=[("i", 3)]),
                  "d": F("d", vec(I32), docs=[" last"]), "e": F("e", vec(STR), with_="w_words")}
            out = [fs[o] for o in order]
            for f in out:
                f.name = f.name if named else ""
            return out
        z.append(Ty(f"Mix{i}", "struct", mix(True, "ahbcide"), opt_out=oo))
        z.append(Ty(f"MixT{i}", "tstruct", mix(False, "haibdce"), opt_out=oo))
        z.append(Ty(f"MixE{i}", "enum", variants=[
            Var("S", "struct", mix(True, "bhaci")), Var("T", "tuple", mix(False, "iacbhe")), Var("Gone", "struct", nf(("x", NOTREFLECT)), skip=True),
            Var("U", "unit", meta=[("u", 1)]), Var("S2", "struct", mix(True, "he")), Var("T2", "tuple", mix(False, "ah")), Var("P", "tuple", tfs(I32, opt(STR)))],
            opt_out=oo))
    # recursion
    z.append(Ty("Tree", "struct", nf(("v", I32), ("children", T("Vec<Tree>")))))
    z.append(Ty("Chain", "struct", nf(("v", U8), ("next", T("Option<Box<Chain>>")))))
    z.append(Ty("Expr", "enum", variants=[
        Var("Lit", "tuple", tfs(I32)), Var("Add", "tuple", tfs(T("Box<Expr>"), T("Box<Expr>"))),
        Var("Neg", "struct", nf(("e", T("Box<Expr>")))), Var("Many", "tuple", tfs(T("Vec<Expr>"))), Var("Nil", "unit")]))
    z.append(Ty("RecT", "tstruct", tfs(T("Vec<RecT>"), U8)))
    z.append(Ty("MapRec", "tstruct", tfs(T("BTreeMap<String, MapRec>"))))
    z.append(Ty("MutA", "struct", nf(("n", I32), ("b", T("Option<Box<MutB>>")))))
    z.append(Ty("MutB", "tstruct", tfs(T("Vec<MutA>"), BOOL)))
    z.append(Ty("EDefRec", "enum", variants=[Var("More", "tuple", tfs(T("Box<EDefRec>"))), Var("Stop", "unit")]))
    z.append(Ty("DefRec", "struct", nf(("e", T("Option<Box<DefRec>>")), ("x", T("[Vec<DefRec>; 2]")))))
    z.append(Ty("DefHold", "struct", nf(("a", I32), ("e", T("EDefRec")))))
    # generics
    z.append(Ty("Gen", "struct", nf(("item", T("T")), ("items", T("Vec<T>"))), generics=(["T"], [GB]),
                instances=["<i32>", "<Option<String>>", "<Gen<u8>>"], docs=[" generic"]))
    z.append(Ty("GenT", "tstruct", tfs(T("T"), T("Option<T>"), I32), generics=(["T"], [GB]), instances=["<bool>", "<Vec<Pair>>"]))
    z.append(Ty("GenE", "enum", variants=[Var("L", "tuple", tfs(T("A"))), Var("R", "struct", nf(("b", T("B")))), Var("N", "unit")],
                generics=(["A", "B"], [GB.replace("T:", "A:"), GB.replace("T:", "B:")]), instances=["<u8, String>", "<Pair, [i8; 2]>"]))
    z.append(Ty("Const", "struct", nf(("xs", T("[u8; N]"))), generics=(["const N: usize"], []), instances=["<0>", "<3>"]))
    # wide
    z.append(Ty("Wide", "struct", nf(*[(f"w{i}", [I32, STR, BOOL, opt(U8)][i % 4]) for i in range(24)])))
    z.append(Ty("WideT", "tstruct", tfs(*[[U8, I64, CHAR][i % 3] for i in range(18)])))
    z.append(Ty("WideE", "enum", variants=[
        Var(f"V{i}", ["unit", "tuple", "struct"][i % 3],
            [] if i % 3 == 0 else (tfs(*[U8] * (i % 5)) if i % 3 == 1 else nf(*[(f"p{j}", I32) for j in range(i % 4)])))
        for i in range(14)]))
    # dynamic values and opaque values in native types
    z.append(Ty("Dynamic", "struct", nf(("v", VALUE), ("l", vec(VALUE)), ("m", bmap(STR, VALUE)), ("s", T("StructValue", ord=True, key=False)),
                                        ("e", T("EnumValue")), ("t", T("TupleValue")), ("ts", T("TupleStructValue")))))
    z.append(Ty("HasOpaque", "struct", nf(("o", OPAQUE), ("l", vec(OPAQUE)), ("n", I32))))
    z.append(Ty("EHasOpaque", "enum", variants=[Var("A", "tuple", tfs(I32, OPAQUE)), Var("B", "struct", nf(("o", opt(OPAQUE))))]))
    z.append(Ty("OpaqueMap", "struct", nf(("m", bmap(U8, OPAQUE)), ("o", opt(vec(OPAQUE))))))
    # containers of everything
    z.append(Ty("Nested", "struct", nf(
        ("a", vec(vec(I32))), ("b", bmap(STR, vec(opt(T("Pair"))))), ("c", arr(T("EKinds"), 2)), ("d", opt(tup(U8, STR, opt(BOOL)))),
        ("e", res(I32, T("Pair"))), ("f", box(T("Pair"))), ("g", bmap(T("EKinds", ord=True), I32)), ("h", rng(I32)),
        ("i", arr(arr(U8, 2), 3)), ("j", vec(T("ESkip"))))))
    z.append(Ty("Boxes", "tstruct", tfs(box(I32), box(vec(U8)), opt(box(T("EKinds"))), vec(box(STR)))))
    z.append(Ty("Renamed", "struct", nf(("a", I32), ("b", opt(U8))), crate_name="some_library"))
    z.append(Ty("RenamedE", "enum", variants=[Var("A", "tuple", tfs(I32)), Var("B", "struct", nf(("x", U8)))],
                crate_name="some_library::nested", opt_out=["Debug"], meta=[("k", 1)]))
    z.append(Ty("Documented", "struct", [
        F("a", I32, docs=[" field doc"], meta=[("fk", 0), ("other", 2), ("another", 12)]),
        F("b", STR, docs=["", " two ", "  three"], meta=[("s", 10)]),
        F("hidden", I32, skip=True, docs=[" hidden doc"]),
        F("c", opt(I32), meta=[("list", 8), ("arr", 11), ("opt", 9)])], docs=[" type doc"], meta=[("tk", 4), ("ck", 5), ("fl", 6)]))
    z.append(Ty("DocumentedT", "tstruct", [
        F("", I32, docs=[" zero"], meta=[("n", 0)]), F("", STR, skip=True, docs=[" gone"], meta=[("gone", 1)]),
        F("", STR, docs=[" one"], meta=[("n", 7), ("m", 3)])], docs=[" tdoc"], meta=[("x", 12)]))
    z.append(Ty("KeyS", "struct", nf(("a", U8), ("b", BOOL)), keyable=True))
    z.append(Ty("KeyT", "tstruct", tfs(STR, opt(U8)), keyable=True))
    z.append(Ty("Maps", "struct", nf(("a", bmap(T("KeyS", ord=True), I32)), ("b", bmap(T("KeyT", ord=True), T("KeyS"))),
                                     ("c", bmap(T("EKinds", ord=True), bmap(CHAR, U8))), ("d", bmap(VALUE, STR)),
                                     ("e", bmap(tup(U8, STR), F64_)), ("f", bmap(arr(U8, 2), U8)), ("g", bmap(nz("NonZeroU8"), BOOL)))))
    return z


EXTRA_ENTRIES = """
Vec<Pair> Vec<EKinds> Vec<SkipMid> Vec<TSkipMid> Vec<NoClone> Vec<Expr> [EKinds;2] [Pair;3] Option<Pair> Option<EKinds> Option<NoClone>
Option<TSkipMid> Result<Pair,EKinds> BTreeMap<EKinds,Pair> BTreeMap<Pair,EKinds> BTreeMap<u8,SkipMid> BTreeMap<KeyT,Vec<KeyS>> Box<Pair> Box<EKinds>
Box<Expr> Range<Pair> Vec<Gen<i32>> BTreeMap<Unit,Unit> Option<HasOpaque> Vec<EHasOpaque> [Expr;1] BTreeMap<MetaS,Value> Vec<ENoClone>
""".split()
# containers of containers
INNER = ["Vec<u8>", "[u8;2]", "Option<u8>", "BTreeMap<u8,u8>", "Pair", "EKinds", "KeyT", "Unit", "Value", "Duration"]
OUTER = ["Vec<%s>", "[%s;2]", "Option<%s>", "Box<%s>", "BTreeMap<u8,%s>", "BTreeMap<%s,u8>", "Result<%s,u8>", "Result<u8,%s>", "Range<%s>", "(%s,u8)"]
for _o in OUTER:
    for _i in INNER:
        if _o == "BTreeMap<%s,u8>" and _i in ("Duration", "BTreeMap<u8,u8>"):
            continue
        if _o % _i not in EXTRA_ENTRIES and _o != "(%s,u8)":
            EXTRA_ENTRIES.append(_o % _i)
EXTRA_ENTRIES += ["Vec<Option<Box<[Vec<BTreeMap<u8,Option<Vec<Result<Vec<Option<Pair>>,u8>>>>>;1]>>>",
                  "Box<Option<Box<Option<Box<Option<Box<Option<Box<Option<Box<Vec<[Option<Vec<EKinds>>;2]>>>>>>>>>>>>"]
EXTRA_ENTRIES += ["[u8;300]", "[();300]", "[EKinds;17]"]
EXTRA_ENTRIES_NO_VALUE = ["(Pair,EKinds)", "(TSkipMid,ESkip,i32)", "(Expr,Tree)", "(Vec<NoClone2>,)"]
EXTRA_ENTRIES_NO_VALUE += ["(%s,u8)" % _i for _i in INNER] + ["(u8,%s)" % _i for _i in INNER]


def rand_types(seed, n):
    r = random.Random(seed)
    pool = []  # T of earlier random types and some corner types
    for name, o in (("Pair", True), ("EKinds", True), ("KeyS", True), ("KeyT", True), ("Expr", False), ("SkipMid", False),
                    ("TSkipMid", False), ("ESkip", False), ("Unit", True), ("Gen<i32>", False), ("WideE", False), ("Tree", False)):
        pool.append(T(name, ord=o))
    pool += [T("NoClone", clone=False), T("NoDebug", debug=False), T("ENoBoth", clone=False, debug=False)]

    def ty(depth, clone=True, debug=True, key=False, dflt=False):
        for _ in range(200):
            t = ty1(depth, clone, debug, key, dflt)
            if (t.clone or not clone) and (t.debug or not debug) and (t.key or not key) and (t.dflt or not dflt):
                return t
        return I32

    def ty1(depth, clone, debug, key, dflt):
        c = r.random()
        if depth == 0 or c < 0.35:
            k = r.random()
            if k < 0.62:
                return sc(r.choice(SCALARS))
            if k < 0.70:
                return nz(r.choice(NZ))
            if k < 0.75:
                return DUR
            if k < 0.78:
                return VALUE
            if k < 0.80:
                return OPAQUE
            return r.choice(pool)
        sub = lambda **kw: ty(depth - 1, clone, debug, **kw)
        k = r.randrange(8)
        if k == 0:
            return vec(sub(key=key))
        if k == 1:
            return opt(sub(key=key))
        if k == 2:
            return arr(sub(key=key, dflt=dflt), r.choice([0, 1, 2, 3]))
        if k == 3:
            return bmap(ty(1, clone, debug, key=True), sub())
        if k == 4:
            return res(sub(key=key), sub(key=key))
        if k == 5:
            return box(sub(key=key, dflt=dflt))
        if k == 6:
            ts = [ty(depth - 1, True, debug, key=key, dflt=dflt) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]
            return tup(*ts)
        return rng(sub(key=key, dflt=dflt))

    out = []
    names = ["alpha", "beta", "gamma", "delta", "name", "value", "index", "x", "y", "z", "field", "other", "new", "key", "kind", "a1", "a11"]
    docs_pool = [[" doc"], [" one", " two"], [""], [" with \"quotes\" and \\ slashes"], [" `code`", "", " end"], [" same", " same"], ["", ""],
                 [" par", "", "", " par", " par"], ["no space", "/slash", "  indented  ", "\ttab"], [" long " * 60]]

    def decor(f):
        if r.random() < 0.2:
            f.docs = list(r.choice(docs_pool))
        if r.random() < 0.2:
            ks = r.sample(["k1", "k2", "zz", "min", "max"], r.choice([1, 1, 2, 3]))
            f.meta = [(k, r.randrange(len(METAS))) for k in ks]
        return f

    for i in range(n):
        kind = r.choice(["struct", "struct", "tstruct", "enum", "enum", "enum"])
        name = f"R{i}"
        oo = set()
        if r.random() < 0.2:
            oo.add("Clone")
        if r.random() < 0.2:
            oo.add("Debug")
        clone, debug = "Clone" not in oo, "Debug" not in oo
        keyable = kind != "struct" and r.random() < 0.3 or r.random() < 0.15
        rec = (not keyable) and r.random() < 0.25

        def fields(cnt, named):
            ns = r.sample(names, cnt) if named else [""] * cnt
            fs = []
            for nme in ns:
                if not keyable and r.random() < 0.15:
                    t = r.choice([NOTREFLECT, ty(1, clone, debug, dflt=True)])
                    fs.append(F(nme, t, skip=True))
                elif not keyable and r.random() < 0.08:
                    w, t = r.choice([("w_len", I32), ("w_words", vec(STR))])
                    fs.append(F(nme, t, with_=w))
                elif rec and r.random() < 0.3:
                    fs.append(F(nme, T(r.choice([f"Vec<{name}>", f"Option<Box<{name}>>", f"BTreeMap<u8, {name}>"]))))
                else:
                    fs.append(F(nme, ty(r.choice([0, 1, 1, 2, 2]), clone, debug, key=keyable)))
                decor(fs[-1])
            return fs

        if kind == "struct":
            t = Ty(name, kind, fields(r.choice([0, 1, 2, 3, 4, 6]), True), opt_out=oo, keyable=keyable)
        elif kind == "tstruct":
            t = Ty(name, kind, fields(r.choice([0, 1, 2, 3, 4, 5]), False), opt_out=oo, keyable=keyable)
        else:
            vs = []
            for j in range(r.choice([1, 2, 3, 4, 5])):
                vk = r.choice(["unit", "tuple", "tuple", "struct", "struct"])
                v = Var(["A", "B", "Some", "None", "Ok", "Alpha", "X"][j], vk,
                        [] if vk == "unit" else fields(r.choice([0, 1, 1, 2, 3]), vk == "struct"))
                vs.append(decor(v))
            if rec:
                vs.append(Var("Stop", "unit"))
            if not keyable and r.random() < 0.25:
                vs.insert(r.randrange(len(vs) + 1), Var("Gone", "tuple", tfs(NOTREFLECT), skip=True))
            t = Ty(name, kind, variants=vs, opt_out=oo, keyable=keyable)
        decor(t)
        out.append(t)
        pool.append(t.t())
    return out


HEADER = """// Written by gen_zoo.py; not kept in git.
#![allow(dead_code, non_camel_case_types, unused_imports, clippy::all)]
use std::collections::BTreeMap;
use std::num::*;
use std::ops::Range;
use std::time::Duration;
use mirror_mirror::{Reflect, FromReflect, DescribeType, Value};
use mirror_mirror::enum_::EnumValue;
use mirror_mirror::struct_::StructValue;
use mirror_mirror::tuple::TupleValue;
use mirror_mirror::tuple_struct::TupleStructValue;
use crate::model::{*, V};
use crate::zoo::*;
use crate::some_library;

impl FromReflect for CustomFrom {
    fn from_reflect(value: &dyn Reflect) -> Option<Self> { custom_from(value).map(CustomFrom) }
}
impl FromReflect for ECustomFrom {
    fn from_reflect(value: &dyn Reflect) -> Option<Self> {
        Some(match e_custom_from(value)? { (0, _) => ECustomFrom::Zero, (1, n) => ECustomFrom::Pos(n), (_, by) => ECustomFrom::Neg { by } })
    }
}

"""


def main():
    seed, n, path = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    types = corner() + rand_types(seed, n)
    out = [HEADER]
    out += [t.emit() for t in types]
    out.append("pub fn register(r: &mut Vec<Entry>) {")
    for t in types:
        for inst in (t.instances or [""]):
            out.append(f"    r.push(entry_v::<{t.name}{inst}>());")
    for e in EXTRA_ENTRIES:
        out.append(f"    r.push(entry_v::<{e}>());")
    for e in EXTRA_ENTRIES_NO_VALUE:
        if "NoClone2" not in e:
            out.append(f"    r.push(entry::<{e}>());")
    rr = random.Random(seed + 7)
    for t in types:
        if t.name.startswith("R") and t.name[1:].isdigit() and rr.random() < 0.25:
            w = rr.choice(["Vec<%s>", "Option<%s>", "BTreeMap<u16, %s>", "Box<%s>", "[%s; 2]"])
            out.append(f"    r.push(entry_v::<{w % t.name}>());")
    out.append("}")
    text = "\n".join(out) + "\n"
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    open(path, "w").write(text)


main()
