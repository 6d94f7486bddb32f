"""Generates whole programs: namespaces, types and services over several modules, and backends."""
import copy

import gen
import model as m
from model import P, T

NS_IDENTS = ["Ns", "Api", "User", "UserList", "Users", "Chat", "Chat2", "Admin", "X", "Xs", "Pay", "Payment",
             "Äther", "_Hidden", "Very_Long_Namespace_Name", "lower", "r#mod", "A", "AB"]
NS_RENAMES = ["Renamed", "Api2", "Pixera", "N", "N1", "Ns_", "Config", "$cope", "Übersicht", "lowercase", "API",
              "Usr", "Rs", "Z"]
TYPE_IDENTS = ["S", "E", "UserReq", "ApiReq", "ChatReq", "NsReq", "Item", "Items", "ItemList", "item", "User", "Id", "Ab", "Abc", "Über", "Point", "Kind", "Node",
               "Tree", "Error2", "T", "T1", "T11", "r#struct", "r#impl", "Config", "Get", "Cell1", "_Private", "Ns9"]
TYPE_RENAMES = ["Renamed", "Renamed2", "$dollar", "_under", "camelCase", "UPPER", "Überzug", "Thing", "Item_", "Opt"]
MEMBERS = ["get", "get_all", "getAll", "set", "set_", "a", "ab", "abc", "list", "r#type", "r#match", "r#fn",
           "r#use", "r#move", "r#loop", "subscribe_all", "request_more", "größe", "x1", "_private", "run", "call",
           "hello", "add", "UPPER", "CamelCase", "watch", "from_value", "parse", "then", "constructor", "toString",
           "args", "method", "namespace", "id", "Ok", "Err", "Some", "None", "len", "next"]
ARGS = ["a", "b", "value", "id", "r#type", "x", "n", "name", "args", "method", "namespace", "sender", "ctx",
        "größe", "z", "arguments", "new", "function", "request", "subscribe", "_", "__a", "default", "this",
        "var", "delete", "undefined", "eval", "await_", "r#in", "r#for", "req", "id2", "evt", "st", "jh"]
ARGS = [a for a in ARGS if a != "_"]


def cap_send(t, env, sync=False):
    k = t["k"]
    if k == "wrap":
        n = t["n"]
        if n == "std::rc::Rc":
            return False
        if n in ("std::sync::Arc", "std::borrow::Cow"):
            return cap_send(t["t"], env) and cap_send(t["t"], env, True)
        if n == "std::sync::Mutex":
            return cap_send(t["t"], env)
        if n in ("std::cell::Cell", "std::cell::RefCell"):
            return not sync and cap_send(t["t"], env)
        return cap_send(t["t"], env, sync)
    if k == "ref":
        d = env.get(t["id"])
        return env.fix("sync" if sync else "send", d,
                       lambda d: all(cap_send(f["ty"], env, sync) for f in m.all_fields(d)))
    return all(cap_send(x, env, sync) for x in m.children(t))


def pick_unique(rng, pool, taken, n=0):
    for i in range(200):
        x = rng.choice(pool)
        if i > 40:
            x = m.strip_raw(x) + str(rng.randrange(100))
        if x not in taken:
            return x
    raise RuntimeError("names")


WORDS = set("""as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref
return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final
macro override priv typeof unsized virtual yield try gen case catch class debugger default delete export finally
function import instanceof new null switch this throw var void with arguments eval any boolean never number object
string symbol undefined unknown bigint interface package private protected public implements is of set get z Map Set
Promise Store Array Partial Record global globalThis std zod core alloc""".split())


def related(rng, names, share=0.3):
    """a name that has something in common with another one"""
    names = sorted(m.strip_raw(n) for n in names)
    if not names or rng.random() >= share:
        return None
    for i in range(20):
        w = rng.choice(names)
        k = rng.randrange(1, max(2, len(w)))
        x = rng.choice([w[:k], w[k:], w[:-1], w[1:], w + rng.choice("aZ1_s"), rng.choice("aZ_") + w, w + w, w.lower(),
                        w.upper(), w.swapcase(), w.replace("_", ""), w[::-1]])
        if x != w and x.isascii() and x.isidentifier() and x.strip("_") and x not in WORDS:
            return x
    return None


def again(rng, others, mod, idents=None):
    """a name that another module uses already"""
    here = {x["ident"] for x in others if x["mod"] == mod} | (idents or {}).get(mod, set())
    names = sorted({x["ident"] for x in others} - here)
    return rng.choice(names) if names and rng.random() < 0.3 else None


def member_type(g, rng, ids, env):
    for i in range(60):
        t = g.ty(rng.choice([0, 1, 1, 2]) if i < 50 else 0, ids, nostatic=True)
        if rng.random() < 0.3 and ids:
            t = T("ref", id=rng.choice(ids))
        if cap_send(t, env) and m.legal(t, env) and not any(x["k"] == "phantom" for x in m.walk(t)):
            return t
    return P("u8")


def workspace(rng, cid, docs=None, max_ns=5, large=False):
    """docs: function(rng) -> (source, lines) or None"""
    mods = ["", "m1", "m1::inner", "m2", "m2::very::deep"][:rng.choice([1, 2, 3, 4, 5])]
    n_ns = rng.randint(1, max_ns)
    if large:
        n_ns = rng.choice([1, 2, 20, 40])
    nss, exported = [], set()
    for i in range(n_ns):
        mod = rng.choice(mods)
        for attempt in range(100):
            ident = again(rng, nss, mod) or pick_unique(rng, NS_IDENTS, {n["ident"] for n in nss if n["mod"] == mod})
            rename = related(rng, exported) or (pick_unique(rng, NS_RENAMES, exported) if rng.random() < 0.4 else None)
            if rename is None and m.strip_raw(ident) in exported:
                rename = pick_unique(rng, NS_RENAMES, exported)
            name = rename if rename is not None else m.strip_raw(ident)
            if name not in exported:
                break
        else:
            raise RuntimeError("no name for a namespace")
        exported.add(name)
        nss.append({"ident": ident, "rename": rename, "name": name, "mod": mod,
                    "shape": rng.choice([";", ";", "{ pub x: u8 }", "(pub u8, pub String);"]),
                    "service": rng.random() < 0.8})
    if not any(n["service"] for n in nss):
        nss[0]["service"] = True

    env = m.Env([])
    parts = []
    for k in range(rng.choice([0, 1, 1, 2])):
        parts.append(gen.graph_case(rng, cid * 10 + k))
    for k in range(rng.choice([0, 1, 1, 2])):
        make = rng.choice([gen.struct_case, gen.enum_case])
        parts.append(make(rng, cid * 10 + 5 + k))
    types = [d for c in parts for d in c["types"]]
    if large:
        for k in range(rng.randint(70, 150)):
            ty = rng.choice([P("u8"), m.STRING, T("vec", t=P("u16")), T("bool")])
            types.append({"id": "L%d_%d" % (cid, k), "kind": "struct", "shape": "named",
                          "fields": [{"ident": "a", "ty": ty}]})
    # the same definition twice
    twins = {}
    for d in list(types):
        if n_ns > 1 and rng.random() < 0.15:
            twin = copy.deepcopy(d)
            twin["id"] = d["id"] + "_twin"
            twins[twin["id"]] = d
            types.append(twin)
    rng.shuffle(types)
    types.sort(key=lambda d: d["id"] in twins)
    globals_ = exported | {"z"}
    used = {i: set() for i in range(n_ns)}
    idents = {mod: {n["ident"] for n in nss if n["mod"] == mod} | {m.split("::")[-1] for m in mods} for mod in mods}
    for d in types:
        d.pop("rename", None)
        twin = twins.get(d["id"])
        d["ns"] = rng.choice([i for i in range(n_ns) if twin is None or i != twin["ns"]])
        d["vis"] = "pub "
        d["mod"] = rng.choice(mods)
        for attempt in range(300):
            d["ident"] = again(rng, [t for t in types if "mod" in t and t is not d and t["id"] in env.types], d["mod"], idents) \
                or pick_unique(rng, TYPE_IDENTS, idents[d["mod"]])
            near = related(rng, {m.exported(t) for t in env.types.values() if "ident" in t} | exported, 0.15)
            if near or rng.random() < 0.25:
                d["rename"] = near or pick_unique(rng, TYPE_RENAMES, set())
            if twin is not None and attempt < 100:
                d["ident"] = twin["ident"]
                if d["ident"] in idents[d["mod"]]:
                    d["ident"] = pick_unique(rng, TYPE_IDENTS, idents[d["mod"]])
                d["rename"] = m.exported(twin)
            name = m.exported(d)
            if name not in used[d["ns"]] and name not in globals_:
                break
            d.pop("rename", None)
        else:
            raise RuntimeError("no name for a type")
        used[d["ns"]].add(name)
        idents[d["mod"]].add(d["ident"])
        env.types[d["id"]] = d
        for f in m.all_fields(d):
            f.pop("vis", None)
    for f in (f for d in types for f in m.all_fields(d)):
        f.pop("docs_src", None)
    env.memo.clear()
    ids = list(env.types)
    g = gen.Gen(rng, env)
    members = []
    for i, n in enumerate(nss):
        if not n["service"]:
            continue
        taken = used[i] | globals_
        for k in range(rng.choice([0, 1, 2, 3, 5] if not large else [4, 9] if n_ns > 2 else [40, 100])):
            for attempt in range(100):
                name = related(rng, {x["ident"] for x in members}, 0.15) or pick_unique(rng, MEMBERS, set())
                if m.strip_raw(name) not in taken:
                    break
            else:
                break
            taken.add(m.strip_raw(name))
            args, seen = [], set()
            for j in range(rng.choice([0, 0, 1, 1, 2, 3, 5])):
                a = pick_unique(rng, ARGS, seen)
                seen.add(a)
                seen.add(m.strip_raw(a))
                args.append([a, member_type(g, rng, ids, env), rng.random() < 0.1])
            members.append({"ns": i, "ident": name, "kind": rng.choice(["method", "method", "impl", "box"]),
                            "args": args, "res": rng.choice([None] + [member_type(g, rng, ids, env)] * 4),
                            "vis": rng.choice(["", "pub ", "pub(crate) "])})
    served = [i for i, n in enumerate(nss) if n["service"]]
    backends = [{"ident": "BackendAll", "ns": list(served)}]
    for k in range(rng.choice([1, 2, 3])):
        sub = [i for i in served if rng.random() < 0.5] or [rng.choice(served)]
        rng.shuffle(sub)
        backends.append({"ident": "Backend%d" % k, "ns": sub})
    for i in rng.sample(served, min(len(served), 2)):
        backends.append({"ident": "Single%d" % i, "ns": [i]})
    for b in backends:
        b["mod"] = rng.choice(mods)
        b["named"] = rng.random() < 0.4
    case = {"id": cid, "mods": mods, "namespaces": nss, "types": types, "members": members,
            "backends": backends, "roots": [], "layout": rng.randrange(1 << 30)}
    if docs:
        for d in types:
            if rng.random() < 0.7:
                d["docs_src"], d["docs_lines"] = docs(rng)
            holders = [d] if d["kind"] == "struct" else d["variants"]
            for h in holders:
                if d["kind"] == "enum" and rng.random() < 0.3:
                    h["docs_src"] = docs(rng)[0]
                if h["shape"] == "named":
                    for f in h["fields"]:
                        if rng.random() < 0.3:
                            f["docs_src"] = docs(rng)[0]
        for x in nss + members:
            if rng.random() < 0.4:
                x["docs_src"] = docs(rng)[0]
    return case


def without_docs(case):
    c = copy.deepcopy(case)

    def strip(x):
        if isinstance(x, dict):
            x.pop("docs_src", None)
            x.pop("docs_lines", None)
            for y in x.values():
                strip(y)
        elif isinstance(x, list):
            for y in x:
                strip(y)

    strip(c)
    return c


def path(mod, ident):
    return "crate::" + (mod + "::" if mod else "") + ident


class Imports:
    """use declarations by which modules get at namespaces of other modules"""

    def __init__(self, case):
        self.names = {mod: {} for mod in case["mods"]}
        self.taken = {mod: {x["ident"] for k in ("namespaces", "types", "backends") for x in case[k]
                            if x["mod"] == mod} for mod in case["mods"]}

    def get(self, rng, n, mod):
        key = (n["mod"], n["ident"])
        if key not in self.names[mod]:
            name = n["ident"]
            if name in self.taken[mod] or rng.random() < 0.3:
                name = "Alias%d" % len(self.names[mod])
            self.taken[mod].add(name)
            self.names[mod][key] = name
        return self.names[mod][key]

    def lines(self, rng, mod):
        out = []
        for (m_, ident), name in self.names[mod].items():
            p = path(m_, ident)
            if rng.random() < 0.3:
                out.append("type %s = %s;\n" % (name, p))
            elif name == ident:
                out.append("use %s;\n" % p)
            else:
                out.append("use %s as %s;\n" % (p, name))
        return out


def ns_path(rng, n, mod, imports=None):
    """some way to write the path of a namespace in a module"""
    if imports and mod != n["mod"] and rng.random() < 0.35:
        return imports.get(rng, n, mod)
    out = [path(n["mod"], n["ident"])] * 2
    if n["mod"] == mod:
        out += [n["ident"], "self::" + n["ident"]]
    up, m_ = "", mod
    while m_:
        m_ = m_.rpartition("::")[0]
        up += "super::"
        if m_ == n["mod"]:
            out.append(up + n["ident"])
    if n["mod"].startswith(mod + "::") or mod == "" and n["mod"]:
        rest = n["mod"][len(mod) + 2:] if mod else n["mod"]
        out.append(("self::" if rng.random() < 0.5 else "") + rest + "::" + n["ident"])
    return rng.choice(out)


def render_member(x, env):
    args = "".join(", %s%s: %s" % ("mut " if mut else "", a, m.render(t)) for a, t, mut in x["args"])
    s = x.get("docs_src", "")
    if "text" in x:
        return s + x["text"] + "\n"
    if x["kind"] == "method":
        ret = "" if x["res"] is None else " -> " + m.render(x["res"])
        return "%s%sasync fn %s(&mut self%s)%s { %s }\n" % (
            s, x["vis"], x["ident"], args, ret, x.get("body", "todo!()"))
    item = "()" if x["res"] is None else m.render(x["res"])
    if x["kind"] == "impl":
        return "%s%sfn %s(&mut self%s) -> impl futures::Stream<Item = %s> { %s }\n" % (
            s, x["vis"], x["ident"], args, item, x.get("body", "futures::stream::empty()"))
    return ("%s%sfn %s(&mut self%s) -> std::pin::Pin<Box<dyn futures::Stream<Item = %s> + Send>> "
            "{ %s }\n") % (s, x["vis"], x["ident"], args, item, x.get("body", "Box::pin(futures::stream::empty())"))


def render(case):
    import random
    rng = random.Random(case["layout"])
    env = m.Env(case["types"])
    m.PATHS.clear()
    m.PATHS.update({d["id"]: path(d["mod"], d["ident"]) for d in case["types"]})
    m.DEFAULT_FNS.reset("crate::", env)
    try:
        items = {mod: [] for mod in case["mods"]}
        imports = Imports(case)
        for mod, text in case.get("raw", []):
            items[mod].append(text)
        for i, n in enumerate(case["namespaces"]):
            s = n.get("docs_src", "") + "#[derive(zod::Namespace)]\n"
            if n["rename"] is not None:
                s += "#[namespace(name = %s)]\n" % m.lit(n["rename"])
            s += "pub struct %s%s\n" % (n["ident"], (" " if n["shape"][0] == "{" else "") + n["shape"])
            items[n["mod"]].append(s)
            if n["service"]:
                ms = [render_member(x, env) for x in case["members"] if x["ns"] == i]
                mod, ident = n["mod"], n["ident"]
                if rng.random() < 0.2:
                    mod = rng.choice(case["mods"])
                    if mod != n["mod"]:
                        ident = imports.get(rng, n, mod)
                items[mod].append("#[zod::rpc::namespace]\nimpl %s {\n%s}\n" % (ident, "".join(ms)))
            if rng.random() < 0.3:
                items[n["mod"]].append("impl %s { pub fn not_a_member(&self) -> u8 { 1 } }\n" % n["ident"])
        for d in case["types"]:
            items[d["mod"]].append(m.render_def(
                d, env, ns_path(rng, case["namespaces"][d["ns"]], d["mod"], imports), True))
        for b in case["backends"]:
            fs = [ns_path(rng, case["namespaces"][i], b["mod"], imports) for i in b["ns"]]
            if b["named"]:
                body = "{ %s }\n" % ", ".join("pub f%d: %s" % (i, f) for i, f in enumerate(fs))
            else:
                body = "(%s);\n" % ", ".join("pub " + f for f in fs)
            items[b["mod"]].append("#[derive(zod::rpc::Backend)]\npub struct %s%s" % (
                b["ident"], (" " if b["named"] else "") + body))
        for f in m.DEFAULT_FNS.fns:
            items[""].append(f)
        for mod in items:
            items[mod] += imports.lines(rng, mod)
            rng.shuffle(items[mod])
    finally:
        m.PATHS.clear()
    tree = {}
    for mod in case["mods"]:
        node = tree
        for seg in [x for x in mod.split("::") if x]:
            node = node.setdefault(seg, {})
        node["items"] = items[mod]

    def emit(node):
        out = "".join(node.get("items", []))
        for seg, sub in node.items():
            if seg != "items":
                out += "pub mod %s {\n%s}\n" % (seg, emit(sub))
        return out

    return emit(tree)


def render_main(case):
    # json! would meet rustc's recursion limit
    s = "fn extra() -> probe::serde_json::Value {\n"
    s += "    use zod::rpc::Backend; use zod::Namespace;\n    let mut v = probe::serde_json::json!({ " \
         "\"backends\": {}, \"namespaces\": {}, \"services\": {} });\n"
    s += "    v[\"preamble\"] = probe::NoNamespaces::generate::<zod::rpc::clients::WebsocketClient>().into();\n" \
         "    v[\"collect\"] = probe::collect();\n"
    for b in case["backends"]:
        s += "    v[\"backends\"][%s] = probe::backend::<%s>();\n" % (m.lit(b["ident"]), path(b["mod"], b["ident"]))
    for n in case["namespaces"]:
        p = path(n["mod"], n["ident"])
        s += "    v[\"namespaces\"][%s] = probe::namespace::<%s>();\n" % (m.lit(p), p)
    for n in case["namespaces"]:
        if n["service"]:
            p = path(n["mod"], n["ident"])
            s += "    v[\"services\"][%s] = probe::service::<%s>();\n" % (m.lit(p), p)
    s += "    v\n}\nfn main() {\n    let mut v = Vec::new();\n"
    for d in case["types"]:
        p = path(d["mod"], d["ident"])
        s += "    v.push(probe::probe::<%s, %s>(%s));\n" % (p, p, m.lit("%s|%s" % (case["id"], d["id"])))
    s += "    probe::main(v, extra);\n}\n"
    return s
