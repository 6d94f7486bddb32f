"""C05: legal definitions compile and illegal ones are refused - whole programs given to the compiler"""
import collections
import copy
import json
import os
import random
import re
import subprocess

import common
import gen_ws
import m1
import model as m
from common import HarnessError

# ----------------------------------------------------------------------------------------------
# pieces

PRIMS = ["u8", "i64", "f32", "bool", "String", "char", "Option<u8>", "Vec<String>", "(u8, bool)", "[u8; 2]",
         "std::collections::HashMap<String, u8>", "std::collections::BTreeSet<u8>", "Box<u16>"]
NAMES = ["Case", "Cases", "case", "C", "Über", "_Hidden", "Quite_Long_Name", "Xyz9", "r#struct", "Zod_", "Item2"]
FIELDS = ["a", "b", "value", "r#type", "größe", "_x", "long_field_name", "id", "z"]
VIS = ["", "pub ", "pub(crate) ", "pub ", "pub(super) ", "pub(in crate) "]
TAGS = [[], ["tag = \"t\""], ["tag = \"t\", content = \"c\""], ["untagged"]]
DOCS = ["", "", "/// documented\n", "#[doc = \"x\"]\n", "/** block */\n", "#[doc(hidden)]\n", "#[allow(dead_code)]\n"]


def derive(rng, de=0.4):
    """the derives of a type, in any order and possibly over several attributes"""
    ds = ["zod::Zod", "serde::Serialize"]
    if rng.random() < de:
        ds.append("serde::Deserialize")
    if rng.random() < 0.3:
        ds += ["Debug"]
    rng.shuffle(ds)
    if rng.random() < 0.2:
        return "#[derive(%s)]\n#[derive(%s)]\n" % (ds[0], ", ".join(ds[1:])), "serde::Deserialize" in ds
    return "#[derive(%s)]\n" % ", ".join(ds), "serde::Deserialize" in ds


def place(rng, case, text, mod=None):
    """puts a definition somewhere: in a module, a module of its own, or a function"""
    mod = rng.choice(case["mods"]) if mod is None else mod
    how = rng.randrange(5)
    if how == 0:
        text = "mod hidden_%s {\n%s}\n" % (rng.randrange(10 ** 6), text)
    elif how == 1:
        text = "fn local_%s() {\n%s}\n" % (rng.randrange(10 ** 6), text)
    elif how == 2:
        text = "const _: () = {\n%s};\n" % text
    return [mod, text]


def with_raw(case, *raws):
    c = copy.deepcopy(case)
    c["raw"] = c.get("raw", []) + list(raws)
    return c


def pick_ns(rng, case):
    n = rng.choice(case["namespaces"])
    return n, gen_ws.path(n["mod"], n["ident"])


def new_name(rng, case):
    """a name no type of the program is exported under"""
    taken = {m.exported(d) for d in case["types"]} | {n["name"] for n in case["namespaces"]}
    taken |= {m.strip_raw(x["ident"]) for k in ("members", "types", "namespaces", "backends") for x in case[k]}
    for i in range(100):
        s = rng.choice(NAMES) + (str(i) if i > 20 else "")
        if m.strip_raw(s) not in taken:
            return s
    raise RuntimeError("names")


def header(rng, path, attrs, de=0.4, ns=True):
    """attributes of a type in any order"""
    d, has_de = derive(rng, de)
    parts = [d, rng.choice(DOCS)]
    if ns is True:
        parts.append("#[zod(namespace = %s)]\n" % m.lit(path))
    elif ns:
        parts.append(ns)
    for a in attrs:
        parts.append("#[serde(%s)]\n" % a)
    head = parts.pop(0)
    rng.shuffle(parts)
    return head + "".join(parts), has_de


def struct_body(rng, n=None):
    n = rng.choice([1, 2, 3]) if n is None else n
    shape = rng.choice(["named", "tuple"])
    ts = [rng.choice(PRIMS) for _ in range(n)]
    if shape == "named":
        names = rng.sample(FIELDS, n)
        return " { %s }\n" % ", ".join("%s%s: %s" % (rng.choice(["", "pub "]), a, t) for a, t in zip(names, ts))
    return "(%s);\n" % ", ".join(rng.choice(["", "pub "]) + t for t in ts)


def variant(rng, name):
    k = rng.randrange(4)
    if k == 0:
        return name
    if k == 1:
        return "%s(%s)" % (name, rng.choice(["std::collections::HashMap<String, u8>"]))
    if k == 2:
        return "%s { %s }" % (name, ", ".join("%s: %s" % (f, rng.choice(PRIMS))
                                              for f in rng.sample(FIELDS, rng.choice([0, 1, 3]))))
    return name + " {}"


# ----------------------------------------------------------------------------------------------
# what has to be refused: every maker returns (illegal program, its legal twin, note)


def unit_struct(rng, case):
    _, p = pick_ns(rng, case)
    name = new_name(rng, case)
    attrs = rng.choice([[], ["rename = \"%sX\"" % m.strip_raw(name)], ["rename_all = \"camelCase\""],
                        ["deny_unknown_fields"], ["default"]][:4])
    h, _ = header(rng, p, attrs)
    head = h + rng.choice(VIS[:3]) + "struct " + name
    mod, wrap = place(rng, case, "@")
    twin = rng.choice([" {}\n", "();\n", struct_body(rng)])
    return (with_raw(case, [mod, wrap.replace("@", head + ";\n")]),
            with_raw(case, [mod, wrap.replace("@", head + twin)]), head + ";")


def empty_enum(rng, case):
    _, p = pick_ns(rng, case)
    name = new_name(rng, case)
    tag = rng.choice(TAGS)
    n = rng.choice([0, 1, 2, 3, 5])
    vs = []
    for i in range(n):
        vs.append((rng.choice(["skip", "skip_deserializing", "skip_serializing, skip_deserializing"]),
                   variant(rng, "V%d" % i)))
    h, _ = header(rng, p, tag)
    head = h + rng.choice(VIS[:3]) + "enum " + name

    def body(vs):
        return " { %s }\n" % ", ".join(("#[serde(%s)] " % a if a else "") + v for a, v in vs)

    live = rng.randrange(n + 1)
    twin = vs[:live] + [(rng.choice(["", "skip_serializing"]), variant(rng, "Live"))] + vs[live:]
    if twin[live][0] and n == 0:
        twin[live] = ("", twin[live][1])
    mod, wrap = place(rng, case, "@")
    return (with_raw(case, [mod, wrap.replace("@", head + body(vs))]),
            with_raw(case, [mod, wrap.replace("@", head + body(twin))]), head + body(vs))


def missing_namespace(rng, case):
    _, p = pick_ns(rng, case)
    name = new_name(rng, case)
    seed = rng.randrange(1 << 30)
    kind = rng.choice(["struct", "enum"])
    no = rng.choice([False, False, "#[zod()]\n", "#[zod(namespace = \"crate::NoSuchNamespace\")]\n",
                     "#[zod(namespace = \"std::string::String\")]\n", "#[zod(namespace)]\n"])
    mod, wrap = place(rng, case, "@")
    out = []
    for ns in (no, True):
        r = random.Random(seed)
        text = header(r, p, [], ns=ns)[0]
        r = random.Random(seed + 1)
        text += r.choice(VIS[:3]) + kind + " " + name
        text += struct_body(r) if kind == "struct" else " { %s }\n" % ", ".join(
            variant(r, "V%d" % i) for i in range(r.choice([1, 2, 3])))
        out.append(with_raw(case, [mod, wrap.replace("@", text)]))
    return out[0], out[1], no or "no attribute"


def positional(rng, case):
    _, p = pick_ns(rng, case)
    name = new_name(rng, case)
    n = rng.choice([2, 2, 3, 4, 6, 9])
    kinds = [rng.choice("rrdds") for _ in range(n)]
    i, j = sorted(rng.sample(range(n), 2))
    kinds[i], kinds[j] = "d", "r"
    live = [k for k in kinds if k != "s"]
    first = live.index("d")
    twin = []
    seen = False
    for k in kinds:
        seen = seen or k == "d"
        twin.append("d" if seen and k == "r" else k)
    ts = [rng.choice(PRIMS[:5] + PRIMS[6:8]) for _ in range(n)]
    dflt = [rng.choice(["default", "default", "default = \"std::default::Default::default\""]) for _ in range(n)]
    skip = [rng.choice(["skip", "skip_deserializing"]) for _ in range(n)]
    # serde refuses some of these itself where it derives Deserialize
    h, _ = header(rng, p, [], de=0.15)

    def body(kinds):
        out = []
        for q, k in enumerate(kinds):
            a = {"r": "", "d": "#[serde(%s)] " % dflt[q], "s": "#[serde(%s)] " % skip[q]}[k]
            out.append(a + ts[q])
        return "(%s);\n" % ", ".join(out)

    head = h + rng.choice(VIS[:3]) + "struct " + name
    mod, wrap = place(rng, case, "@")
    return (with_raw(case, [mod, wrap.replace("@", head + body(kinds))]),
            with_raw(case, [mod, wrap.replace("@", head + body(twin))]), "%s (%s)" % (name, "".join(kinds)))


def duplicate_name(rng, case):
    k = rng.randrange(len(case["namespaces"]))
    n = case["namespaces"][k]
    p = gen_ws.path(n["mod"], n["ident"])
    own = [d for d in case["types"] if d["ns"] == k]
    here = new_name(rng, case)
    raws = []
    if own and rng.random() < 0.6:
        name = m.exported(rng.choice(own))
    else:
        name = m.strip_raw(here)
        if rng.random() < 0.4:
            name = rng.choice(["$x", "Renamed", "struct", "größe", "_", "Ns$", "ⅷ", "self", "A_b"])
            if name in {m.exported(d) for d in own}:
                name += "9"
        raws.append(None)
    ns_names = [n["ident"]] + [x["ident"] for x in case["namespaces"]]

    def define(exported, ident_ok, r):
        """a type exported under a name"""
        idents = ["T%d_" % r.randrange(10 ** 6)]
        if ident_ok:
            idents += [exported] * 2
        ident = r.choice(idents)
        attrs = []
        if ident != exported:
            attrs.append(r.choice(["rename = %s", "rename(deserialize = %s, serialize = \"Other\")"]) % m.lit(exported))
        h, _ = header(r, p, attrs)
        kind = r.choice(["struct", "enum"])
        body = struct_body(r) if kind == "struct" else " { A, B(u8) }\n"
        return h + "pub " + kind + " " + ident + body

    plain = name.isidentifier() and name.isascii() and name not in ("struct", "self", "_") and name not in ns_names
    mods = ["hid%d" % i for i in range(2)]
    seeds = [rng.randrange(1 << 30) for _ in range(2)]

    def build(second):
        out = []
        if raws:
            out.append([n["mod"], "pub mod %s {\n%s}\n" % (mods[0], define(name, plain, random.Random(seeds[0])))])
        out.append([rng2.choice(case["mods"]), rng2.choice(["mod %s {\n%%s}\n" % mods[1], "fn %s() {\n%%s}\n" % mods[1],
                                                            "const _: () = {\n%s};\n"])
                    % define(second, plain and second == name, random.Random(seeds[1]))])
        return with_raw(case, *out)

    s = rng.randrange(1 << 30)
    rng2 = random.Random(s)
    bad = build(name)
    rng2 = random.Random(s)
    others = {m.exported(d) for d in own}
    alt = [x for x in (name + "2", "_" + name, name + "_", name.swapcase(), name + "$", "$" + name)
           if x not in others and x != name]
    good = build(rng.choice(alt))
    return bad, good, name


RECEIVERS = ["", "&self", "self", "mut self", "&'a mut self", "&'static mut self", "&'_ mut self", "self: &mut Self",
             "self: &Self", "self: Box<Self>", "mut self: Box<Self>", "self: std::pin::Pin<&mut Self>", "this: &mut Self",
             "self: Self", "&'a self"]


def pick_member(rng, case):
    served = [i for i, n in enumerate(case["namespaces"]) if n["service"]]
    return rng.choice(served)


def add_member(rng, case, i, texts):
    """the program with one more member in a service, for every text"""
    c = copy.deepcopy(case)
    at = rng.randrange(len(c["members"]) + 1)
    out = []
    for t in texts:
        d = copy.deepcopy(c)
        d["members"].insert(at, {"ns": i, "ident": "added_member", "kind": "method", "args": [], "res": None,
                                 "vis": "", "text": t})
        out.append(d)
    return out


def args_of(rng):
    n = rng.choice([0, 0, 1, 2, 4])
    return ["%s%s: %s" % (rng.choice(["", "", "mut "]), a, rng.choice(PRIMS)) for a in rng.sample(FIELDS, n)]


STREAMS = [("impl futures::Stream<Item = u8>", "futures::stream::empty()"),
           ("impl futures::Stream<Item = Vec<String>> + Send", "futures::stream::empty()"),
           ("std::pin::Pin<Box<dyn futures::Stream<Item = u8> + Send>>", "Box::pin(futures::stream::empty())"),
           ("futures::stream::BoxStream<'static, String>", "Box::pin(futures::stream::empty())"),
           ("futures::stream::Empty<bool>", "futures::stream::empty()"),
           ("futures::channel::mpsc::UnboundedReceiver<(u8, String)>", "futures::channel::mpsc::unbounded().1")]


def receiver(rng, case):
    i = pick_member(rng, case)
    recv = rng.choice(RECEIVERS)
    args = args_of(rng)
    vis = rng.choice(VIS[:3])
    if rng.random() < 0.5:
        ret = rng.choice(["", " -> u8", " -> Option<String>"])
        tail = "%s { todo!() }" % ret
        pre = "async fn added_member"
    else:
        t, body = rng.choice(STREAMS)
        tail = " -> %s { %s }" % (t, body)
        pre = "fn added_member"

    def text(recv):
        g = "<'a>" if "'a" in recv else ""
        return "%s%s%s(%s)%s" % (vis, pre, g, ", ".join(([recv] if recv else []) + args), tail)

    bad, good = add_member(rng, case, i, [text(recv), text("&mut self")])
    return bad, good, text(recv)


def sync_without_stream(rng, case):
    i = pick_member(rng, case)
    args = args_of(rng)
    ret, body = rng.choice([
        ("", ""), ("", "()"), (" -> u8", "1"), (" -> String", "todo!()"), (" -> Vec<u8>", "vec![]"), (" -> ()", ""),
        (" -> impl Iterator<Item = u8>", "std::iter::empty()"), (" -> impl std::future::Future<Output = u8>", "async { 1 }"),
        (" -> std::pin::Pin<Box<dyn std::future::Future<Output = u8> + Send>>", "Box::pin(async { 1 })"),
        (" -> Option<futures::stream::Empty<u8>>", "None"), (" -> Result<u8, String>", "todo!()"),
        (" -> (u8, futures::stream::Empty<u8>)", "todo!()"), (" -> impl Send", "1u8")])
    vis = rng.choice(VIS[:3])
    pre = "%sfn added_member(%s)" % (vis, ", ".join(["&mut self"] + args))
    st, sb = rng.choice(STREAMS)
    twin = rng.choice(["%s -> %s { %s }" % (pre, st, sb)] +
                      ([pre.replace("fn added", "async fn added") + " -> u8 { 1 }"]))
    bad, good = add_member(rng, case, i, ["%s%s { %s }" % (pre, ret, body), twin])
    return bad, good, pre + ret


def async_stream(rng, case):
    i = pick_member(rng, case)
    args = args_of(rng)
    t, body = rng.choice(STREAMS)
    vis = rng.choice(VIS[:3])
    pre = "%sfn added_member(%s) -> %s { %s }" % (vis, ", ".join(["&mut self"] + args), t, body)
    bad, good = add_member(rng, case, i, [pre.replace("fn added", "async fn added"), pre])
    return bad, good, "async " + pre


def second_block(rng, case):
    i = pick_member(rng, case)
    n = case["namespaces"][i]
    mod = rng.choice([n["mod"]] + case["mods"])
    p = gen_ws.path(n["mod"], n["ident"])
    members = rng.choice(["", "async fn second_one(&mut self) {}\n",
                          "fn second_two(&mut self) -> impl futures::Stream<Item = u8> { futures::stream::empty() }\n",
                          "async fn second_one(&mut self) {}\nasync fn second_three(&mut self, a: u8) -> u8 { a }\n"])
    if mod == n["mod"] and rng.random() < 0.7:
        pre, ident = "", n["ident"]
    else:
        ident = rng.choice(["Alias_", "r#type_"]).replace("r#type_", "Another")
        pre = rng.choice(["use %s as %s;\n", "type %s = %s;\n"])
        pre = pre % ((p, ident) if pre.startswith("use") else (ident, p))
    block = "%simpl %s {\n%s}\n" % ("%s", ident, members)
    text = "mod second {\n%s%s}\n" if False else "%s%s"
    wrap = text % (pre, block)
    if mod != n["mod"] or pre:
        wrap = "mod second {\n%s}\n" % wrap
    bad = with_raw(case, [mod, wrap % "#[zod::rpc::namespace]\n"])
    good = with_raw(case, [mod, wrap % rng.choice(["", "#[allow(dead_code)]\n"])])
    return bad, good, wrap


ILLEGAL = collections.OrderedDict([
    ("unit struct", unit_struct), ("no deserializable variant", empty_enum), ("missing namespace", missing_namespace),
    ("required after defaulted", positional), ("duplicate name", duplicate_name), ("receiver", receiver),
    ("sync without stream", sync_without_stream), ("async stream", async_stream), ("second service block", second_block)])


# ----------------------------------------------------------------------------------------------
# what has to compile whatever it is called, contains and sits in

SCOPE = ["Option", "String", "Vec", "Result", "Some", "None", "Ok", "Err", "Send", "Sync", "Sized", "Fn", "FnOnce",
         "FnMut", "Drop", "S", "T", "E", "U", "St", "ToString", "ToOwned", "Iterator", "IntoIterator", "Default", "Into",
         "From", "Clone", "Copy", "Eq", "AsRef", "Extend", "ZodType", "Namespace", "TsTypeDef", "InlinedType",
         "Stream", "Backend", "Request", "Response", "Deserialize", "Serialize", "Error", "Value", "Req", "Future",
         "Pin", "Inner", "Variant", "Args", "ResponseSender", "SubscriberMap", "RpcMember", "RpcNamespace", "JoinHandle",
         "Zod", "StreamExt", "Duration", "Context", "Namespace0", "Namespace1", "Vec2", "Debug"]
FQ = ["u8", "bool", "::std::string::String", "::std::option::Option<u8>", "::std::vec::Vec<u16>", "(u8, i8)",
      "::std::boxed::Box<f64>", "::std::collections::BTreeMap<::std::string::String, u8>", "::std::result::Result<u8, bool>"]


def scope_case(rng, cid):
    """definitions whose names mean something else elsewhere"""
    names = rng.sample(SCOPE, rng.choice([1, 2, 4, 6]))
    nss = rng.sample(["Ns", "Api"] + [x for x in SCOPE if x not in names], 2)
    backend = rng.choice(["Srv"] + [x for x in SCOPE if x not in names and x not in nss])
    if rng.random() < 0.5:
        names.append(nss[0] + "Req")
    if rng.random() < 0.3 and backend + "Req" not in names:
        names.append(backend + "Req")
    out = []

    def ty():
        return rng.choice(FQ + names + ["::std::vec::Vec<%s>" % rng.choice(names), "::std::option::Option<%s>" % rng.choice(names)])

    for n in nss:
        out.append("#[derive(zod::Namespace)]\npub struct %s;\n" % n)
    for k, n in enumerate(names):
        h = "#[derive(zod::Zod, serde::Serialize, serde::Deserialize)]\n%s#[zod(namespace = %s)]\n" % (
            rng.choice(DOCS), m.lit(rng.choice(nss)))
        # only refer to what comes earlier: no endless types
        earlier = FQ + names[:k]

        def t():
            return rng.choice(earlier)
        if rng.random() < 0.5:
            shape = rng.randrange(4)
            if shape == 0:
                body = " { a: %s, #[serde(default)] b: ::std::option::Option<u8>, c: %s }\n" % (t(), t())
            elif shape == 1:
                body = "(%s, %s, #[serde(default)] u8);\n" % (t(), t())
            elif shape == 2:
                body = "(%s);\n" % t()
            else:
                h += "#[serde(from = \"u8\")]\n"
                body = " { a: u8 }\nimpl ::std::convert::From<u8> for %s { fn from(a: u8) -> Self { %s { a } } }\n" % (n, n)
            out.append(h + "pub struct " + n + body)
        else:
            tag = rng.choice(TAGS)
            if tag:
                h += "#[serde(%s)]\n" % tag[0]
            vs = ["Unit", "Named { x: %s, y: %s }" % (t(), t()), "One { z: %s }" % t()]
            if tag != TAGS[1]:
                vs += ["New(%s)" % t(), "Tup(%s, %s)" % (t(), t())]
            vs += [x for x in rng.sample(["Some(u8)", "None", "Ok(bool, u8)", "Err", "String", "Vec"], 2)
                   if tag != TAGS[1] or "(" not in x]
            rng.shuffle(vs)
            out.append(h + "pub enum %s { %s }\n" % (n, ", ".join(vs)))
    for n in nss:
        ms = []
        for k in range(rng.choice([0, 1, 2, 3])):
            args = "".join(", a%d: %s" % (i, ty()) for i in range(rng.choice([0, 1, 2])))
            kind = rng.randrange(3)
            r = ty()
            if kind == 0:
                ms.append("async fn m%d(&mut self%s) -> %s { todo!() }\n" % (k, args, r))
            elif kind == 1:
                ms.append("fn m%d(&mut self%s) -> impl futures::Stream<Item = %s> { futures::stream::empty() }\n"
                          % (k, args, r))
            else:
                ms.append("fn m%d(&mut self%s) -> ::std::pin::Pin<::std::boxed::Box<dyn futures::Stream<Item = %s> + "
                          "::std::marker::Send>> { ::std::boxed::Box::pin(futures::stream::empty()) }\n" % (k, args, r))
        out.append("#[zod::rpc::namespace]\nimpl %s {\n%s}\n" % (n, "".join(ms)))
    fields = list(nss)
    rng.shuffle(fields)
    out.append("#[derive(zod::rpc::Backend)]\npub struct %s%s" % (
        backend, "(%s);\n" % ", ".join(fields) if rng.random() < 0.5
        else " { %s }\n" % ", ".join("f%d: %s" % (i, f) for i, f in enumerate(fields))))
    rng.shuffle(out)
    return {"id": cid, "source": "pub mod scope {\n%s}\n" % "".join(out), "kind": "names"}


def big_case(rng, cid, rpc=True):
    """many fields, variants, parameters; deep modules; every visibility"""
    ns = "#[derive(zod::Namespace)]\n%sstruct Ns;\n" % rng.choice(VIS[:3])
    out = [ns]
    n = rng.choice([1, 12, 13, 16, 17, 26, 40, 64])
    fs = ["f%d: %s" % (i, rng.choice(PRIMS)) for i in range(n)]
    out.append(header(rng, "Ns", [])[0] + "%sstruct Wide { %s }\n" % (
        rng.choice(VIS), ", ".join(rng.choice(VIS[:3]) + f for f in fs)))
    k = rng.randrange(n + 1)
    ts = [rng.choice(PRIMS) for _ in range(n)]
    out.append(header(rng, "Ns", [])[0] + "%sstruct Long(%s);\n" % (
        rng.choice(VIS), ", ".join(("#[serde(default)] " if i >= k else "") + rng.choice(VIS[:3]) + t
                                   for i, t in enumerate(ts))))
    tag = rng.choice(TAGS)
    vs = []
    for i in range(rng.choice([1, 2, 17, 64])):
        v = variant(rng, "V%d" % i)
        if rng.random() < 0.2:
            v = "#[serde(skip)] " + v
        vs.append(v)
    vs.append("Last")
    out.append(header(rng, "Ns", tag)[0] + "%senum Many { %s }\n" % (rng.choice(VIS), ", ".join(vs)))
    for q in range(rng.choice([1, 3]) if rpc else 0):
        ms = []
        name = "Svc%d" % q
        for k in range(rng.choice([1, 5, 40])):
            args = "".join(", a%d: %s" % (i, rng.choice(PRIMS)) for i in range(rng.choice([0, 1, 2, 11, 12, 13, 15, 16])))
            if rng.random() < 0.5:
                ms.append("%sasync fn m%d(&mut self%s) -> %s { todo!() }\n" % (rng.choice(VIS), k, args, rng.choice(PRIMS)))
            else:
                t, b = rng.choice(STREAMS)
                ms.append("%sfn m%d(&mut self%s) -> %s { %s }\n" % (rng.choice(VIS), k, args, t, b))
            if rng.random() < 0.2:
                ms.append("const C%d: u8 = 1;\n" % k)
        out.append("#[derive(zod::Namespace)]\n%sstruct %s { pub state: std::rc::Weak<u8> }\n" % (
            rng.choice(VIS[:3]), name) if False else
            "#[derive(zod::Namespace)]\n%sstruct %s { state: Vec<u8> }\n" % (rng.choice(VIS[:3]), name))
        out.append("#[zod::rpc::namespace]\nimpl %s {\n%s}\n" % (name, "".join(ms)))
        out.append("#[derive(zod::rpc::Backend)]\n%sstruct Srv%d { svc: %s }\n" % (rng.choice(VIS[:3]), q, name))
    rng.shuffle(out)
    src = "".join(out)
    for i in range(rng.choice([0, 1, 5, 20])):
        src = rng.choice(["mod level%d {\n%s}\n", "pub mod level%d {\n%s}\n"]) % (i, src)
    # pub(super) at the top level is no visibility
    src = "mod top {\n%s}\n" % src
    if rng.random() < 0.3:
        src = src.replace("pub(super) ", "").replace("pub(in crate) ", "")
        src = "fn in_function() {\n%s}\n" % src
    return {"id": cid, "source": src, "kind": "size"}


# ----------------------------------------------------------------------------------------------


def source(case):
    return case["source"] if "source" in case else gen_ws.render(case)


def bare(src):
    """the same definitions in a crate that knows zod under another name and has no serde"""
    src = re.sub(r"#\[serde\([^\]]*\)\]\s*", "", src)

    def clean(mt):
        keep = [x.strip() for x in mt.group(1).split(",") if not x.strip().startswith("serde::")]
        return "#[derive(%s)]" % ", ".join(keep) if keep else ""

    src = re.sub(r"#\[derive\(([^)]*)\)\]", clean, src)
    return re.sub(r"\bzod::", BARE_NAME + "::", src)


BARE_NAME = "typescript_bridge"


def bare_crate(ctx, name):
    """bare: known under another name, no debug assertions (as in a release); plain: moreover without rpc"""
    crate = common.fresh_dir(os.path.join(ctx.work, name))
    common.write_if_changed(os.path.join(crate, "Cargo.toml"), """[package]
name = "bare"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%s = { package = "zod", path = "%s", %s }
futures = "0.3"
[profile.dev]
incremental = false
debug = 0
%s""" % ((BARE_NAME, common.REPO) + (
        ('features = ["smol_str", "ordered-float"]', "debug-assertions = false\n") if name.startswith("bare")
        else ("default-features = false", ""))))
    template = os.path.join(common.TOOLS, "rust", "probe", "Cargo.lock")
    if os.path.exists(template):
        with open(template) as f:
            common.write_if_changed(os.path.join(crate, "Cargo.lock"), f.read().replace('name = "probe"', 'name = "bare"'))
    return crate


def check_batch(ctx, programs, name="shape"):
    """programs: {key: source} -> {key: first error or None}"""
    crate = bare_crate(ctx, name) if name.startswith(("bare", "plain")) else common.install_crate(ctx, "probe", name)
    bins = os.path.join(crate, "src", "bin")
    os.makedirs(bins, exist_ok=True)
    keys = list(programs)
    for i, k in enumerate(keys):
        common.write_if_changed(os.path.join(bins, "p%d.rs" % i), m1.HEADER + programs[k] + "\nfn main() {}\n")
    cmd = ["cargo", "check", "--offline", "--message-format=json", "--keep-going", "--bins"]
    p = subprocess.run(cmd, cwd=crate, env=common.cargo_env(ctx), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=800)
    out, done, below = {}, set(), None
    for line in p.stdout.decode("utf8", "replace").split("\n"):
        if not line.startswith("{"):
            continue
        msg = json.loads(line)
        tgt = (msg.get("target") or {}).get("name", "")
        if not (tgt[:1] == "p" and tgt[1:].isdigit()):
            if name.startswith(("bare", "plain")):
                # crates that build for the test suite and not here do so for nobody
                if msg.get("reason") == "compiler-message" and msg["message"]["level"].startswith("error"):
                    below = below or msg["message"].get("rendered") or "zod does not build"
                continue
            if msg.get("reason") == "compiler-message" and msg["message"]["level"].startswith("error"):
                raise HarnessError("the crates do not build: " + (msg["message"].get("rendered") or "")[:2000])
            continue
        i = int(tgt[1:])
        if msg.get("reason") == "compiler-artifact":
            done.add(i)
        elif msg.get("reason") == "compiler-message" and msg["message"]["level"].startswith("error"):
            text = msg["message"].get("rendered") or msg["message"].get("message")
            if "internal compiler error" in text:
                raise HarnessError("the compiler crashed: " + text[:500])
            out.setdefault(i, text)
    res = {}
    err = p.stderr.decode("utf8", "replace")
    if name.startswith(("bare", "plain")) and "failed to run custom build command" in err:
        below = below or err[-3000:]
    for i, k in enumerate(keys):
        if i not in done and i not in out and below:
            out[i] = below
        if i not in done and i not in out:
            raise HarnessError("no verdict about a program\n" + p.stderr.decode("utf8", "replace")[-2000:])
        res[k] = out.get(i)
    return res


def small_workspace(rng, cid):
    return gen_ws.workspace(rng, cid, max_ns=3)


def generate(rng, cid, kind):
    """-> a pair of programs (illegal or None, legal)"""
    if kind == "names":
        return None, scope_case(rng, cid), ""
    if kind == "size":
        return None, big_case(rng, cid), ""
    if kind in ("bare", "plain"):
        case = big_case(rng, cid, kind == "bare")
        return None, {"id": cid, "source": bare(case["source"]), "kind": kind}, ""
    case = small_workspace(rng, cid)
    if kind == "program":
        return None, case, ""
    # little around it
    case["types"] = thin(rng, case)
    return ILLEGAL[kind](rng, case)


def thin(rng, case):
    """keeps a few types that need no others, and members without them"""
    keep = [d for d in case["types"] if not any(m.refs_in(f["ty"]) for f in m.all_fields(d))
            and not (d.get("from") and m.refs_in(d["from"]["ty"]))]
    keep = keep[:rng.choice([0, 1, 2, 3])]
    ids = {d["id"] for d in keep}
    case["members"] = [x for x in case["members"]
                       if all(set(m.refs_in(t)) <= ids for t in [a[1] for a in x["args"]] + [x["res"]] if t)]
    return keep


class Bad:
    def __init__(self, kind, illegal, legal, what, why):
        self.kind, self.illegal, self.legal, self.what, self.why = kind, illegal, legal, what, why

    def size(self):
        return len(json.dumps(self.illegal if self.what == "accepted" else self.legal))


def judge(ctx, pairs, name="shape", count=True):
    programs = {}
    for i, (kind, bad, good, note) in enumerate(pairs):
        if bad is not None:
            programs[i, "bad"] = source(bad)
        if good is not None:
            programs[i, "good"] = source(good)
    res = {}
    for prefix in ("", "bare-", "plain-"):
        some = {k: v for k, v in programs.items()
                if (pairs[k[0]][0] + "-" if pairs[k[0]][0] in ("bare", "plain") else "") == prefix}
        if some:
            res.update(check_batch(ctx, some, prefix + name))
    out = []
    for i, (kind, bad, good, note) in enumerate(pairs):
        if good is not None:
            err = res[i, "good"]
            if count:
                ctx.evaluations += 1
                ctx.nontrivial.add(hash(programs[i, "good"]))
            if err:
                out.append(Bad(kind, None, good, "refused", err))
        if bad is not None:
            if count:
                ctx.evaluations += 1
                ctx.extra["illegal"][kind] = ctx.extra["illegal"].get(kind, 0) + 1
            if res[i, "bad"] is None:
                out.append(Bad(kind, bad, good, "accepted", note))
            elif count:
                ctx.nontrivial.add(hash(programs[i, "bad"]))
                ctx.reasons[kind, m1.first_line(res[i, "bad"])[:80]] += 1
    return out


# ---- shrinking: the surroundings go first


def reductions(case):
    if "source" in case:
        lines = case["source"].split("\n")
        return
    for key in ("types", "members", "backends"):
        for i in range(len(case[key])):
            if key == "members" and "text" in case[key][i]:
                continue
            c = copy.deepcopy(case)
            del c[key][i]
            yield c
        if len(case[key]) > 2:
            c = copy.deepcopy(case)
            c[key] = [x for x in c[key] if "text" in x] if key == "members" else []
            yield c
    if len(case["mods"]) > 1:
        used = {x["mod"] for k in ("namespaces", "types", "backends") for x in case[k]} | {r[0] for r in case.get("raw", [])}
        for mod in case["mods"]:
            if mod and mod not in used:
                c = copy.deepcopy(case)
                c["mods"].remove(mod)
                yield c


def shrink(ctx, bad, rounds=5):
    best = bad
    for rnd in range(rounds):
        if not ctx.may_shrink():
            break
        case = best.illegal if best.what == "accepted" else best.legal
        if case is None or "source" in case:
            break
        cands = list(reductions(case))[:40]
        if not cands:
            break
        pairs = [(best.kind, c if best.what == "accepted" else None, None if best.what == "accepted" else c, best.why)
                 for c in cands]
        try:
            got = [g for g in judge(ctx, pairs, "shrink", False)
                   if g.what == best.what and (g.what == "accepted" or m1.first_line(g.why) == m1.first_line(best.why))]
        except HarnessError as e:
            ctx.log("shrinking stopped:", str(e)[:200])
            break
        got = [g for g in got if g.size() < best.size()]
        if not got:
            break
        best = min(got, key=lambda g: g.size())
    return best


def report(ctx, bad, do_shrink=True):
    seen = collections.Counter()
    for b in sorted(bad, key=lambda b: b.size()):
        key = (b.kind, b.what)
        seen[key] += 1
        if seen[key] > 1 or len(seen) > 4:
            continue
        s = shrink(ctx, b) if do_shrink else b
        case = s.illegal if s.what == "accepted" else s.legal
        msg = ("an illegal definition (%s) is accepted" % s.kind if s.what == "accepted"
               else "a legal definition (%s) is refused: %s" % (s.kind, m1.first_line(s.why)))
        ctx.violations.append({"message": msg, "detail": (s.why or "") + "\n" + source(case), "case": case, "kind": s.kind,
                               "what": s.what, "rust": source(case)})
    if bad:
        ctx.extra["mismatches"] = {"%s %s" % k: v for k, v in seen.items()}


def run(ctx):
    scale = 10 if ctx.thorough() else 1
    plan = [(k, 32 * scale) for k in ILLEGAL] + [("names", 96 * scale), ("size", 48 * scale), ("program", 48 * scale),
                                                 ("bare", 16 * scale), ("plain", 16 * scale)]
    ctx.extra["illegal"] = {}
    ctx.reasons = collections.Counter()
    ctx.rule = ("a case is one whole program and the verdict of the compiler about it; non-trivial: it compiles as it should, "
                "or it contains one illegal definition and is refused while the same program with a legal one compiles; "
                "distinct by source text")
    ctx.assumptions = ["the reason for which a program is refused is not looked at; its legal twin has to compile"]
    pairs = []
    for kind, n in plan:
        for i in range(n):
            rng = random.Random("C05|%s|%s|%d" % (ctx.seed, kind, i))
            bad, good, note = generate(rng, len(pairs), kind)
            pairs.append((kind, bad, good, note))
    found = []
    random.Random(ctx.seed).shuffle(pairs)
    step = 320
    for k in range(0, len(pairs), step):
        got = judge(ctx, pairs[k:k + step])
        found += got
        ctx.log("%d programs judged, %d wrong verdicts" % (ctx.evaluations, len(got)))
        if os.environ.get("ZOD_DEBUG"):
            for g in got:
                print("DEBUG", g.kind, g.what, (g.why or "")[:700], sep="\n")
                if os.environ.get("ZOD_DEBUG") == "2":
                    print(source(g.illegal or g.legal))
    ctx.extra["reasons for refusal"] = {"%s: %s" % k: v for k, v in ctx.reasons.most_common(60)}
    known(ctx)
    for kind, bad, good, note in pairs[:5]:
        ctx.sample("%s: %s" % (kind, source(bad or good)[-700:]))
    report(ctx, found)


def known(ctx):
    """the findings that are known, if they still are there"""
    fs = common.known_findings("C05")
    if not fs:
        return
    res = check_batch(ctx, {f["id"]: f["source"] for f in fs}, "known")
    for f in fs:
        if (res[f["id"]] is None) == (f["verdict"] == "accepted"):
            common.known_finding(ctx, f)


def replay(ctx, data):
    ctx.extra["illegal"] = {}
    ctx.reasons = collections.Counter()
    case = data["case"]
    bad = data["what"] == "accepted"
    got = judge(ctx, [(data["kind"], case if bad else None, None if bad else case, "")])
    report(ctx, [g for g in got if g.what == data["what"]], False)
