"""Abstract Rust type definitions: generation, rendering to Rust, canonical values, mutation.

Types are plain JSON data so that replay files can carry them.

type expression   {"k": kind, ...}
type definition   {"id", "ns", "kind": "struct"|"enum", "rename", ...}
case              {"id", "types": [definition], "roots": [type expression]}
"""
import json
import math
import random

SAFE = 2 ** 53 - 1

INTS = {
    "u8": (0, 2 ** 8 - 1), "u16": (0, 2 ** 16 - 1), "u32": (0, 2 ** 32 - 1),
    "i8": (-2 ** 7, 2 ** 7 - 1), "i16": (-2 ** 15, 2 ** 15 - 1), "i32": (-2 ** 31, 2 ** 31 - 1),
    "u64": (0, SAFE), "u128": (0, SAFE), "usize": (0, SAFE),
    "i64": (-SAFE, SAFE), "i128": (-SAFE, SAFE), "isize": (-SAFE, SAFE),
}
WIDE = {"u64", "u128", "usize", "i64", "i128", "isize"}
FLOATS = ["f32", "f64"]
PRIMS = list(INTS) + FLOATS
WRAPS = ["Box", "std::sync::Arc", "std::rc::Rc", "std::borrow::Cow", "std::cell::Cell",
         "std::cell::RefCell", "std::sync::Mutex"]
IPS = ["std::net::Ipv4Addr", "std::net::Ipv6Addr", "std::net::IpAddr"]


def T(k, **kw):
    d = {"k": k}
    d.update(kw)
    return d


def P(n):
    return T("prim", n=n)


STRING = T("str", n="String")


# ----------------------------------------------------------------------------------------------
# rendering of type expressions


PATHS = {}  # where types are declared that have a name and module of their own (workspaces)


def render(t):
    k = t["k"]
    if k in ("prim", "str", "ip"):
        return t["n"]
    if k == "char":
        return "char"
    if k == "bool":
        return "bool"
    if k == "unit":
        return "()"
    if k == "notnan":
        return "ordered_float::NotNan<%s>" % t["n"]
    if k == "phantom":
        return "std::marker::PhantomData<%s>" % render(t["t"])
    if k == "opt":
        return "Option<%s>" % render(t["t"])
    if k == "res":
        return "Result<%s, %s>" % (render(t["t"]), render(t["e"]))
    if k == "vec":
        return "Vec<%s>" % render(t["t"])
    if k == "arr":
        return "[%s; %d]" % (render(t["t"]), t["n"])
    if k == "set":
        return "std::collections::%s<%s>" % (t["n"], render(t["t"]))
    if k == "map":
        return "std::collections::%s<%s, %s>" % (t["n"], render(t["kt"]), render(t["t"]))
    if k == "tup":
        return "(%s,)" % ", ".join(render(x) for x in t["ts"])
    if k == "wrap":
        if t["n"] == "std::borrow::Cow":
            return "std::borrow::Cow<'static, %s>" % render(t["t"])
        return "%s<%s>" % (t["n"], render(t["t"]))
    if k == "ref":
        return PATHS.get(t["id"], t["id"])
    raise ValueError(k)


def children(t):
    k = t["k"]
    if k in ("phantom", "opt", "vec", "arr", "set", "wrap"):
        return [t["t"]]
    if k == "res":
        return [t["t"], t["e"]]
    if k == "map":
        return [t["kt"], t["t"]]
    if k == "tup":
        return list(t["ts"])
    return []


def walk(t):
    yield t
    for c in children(t):
        yield from walk(c)


def refs_in(t):
    return [x["id"] for x in walk(t) if x["k"] == "ref"]


# ----------------------------------------------------------------------------------------------
# environments and capabilities


class Env:
    def __init__(self, types):
        self.types = {d["id"]: d for d in types}
        self.memo = {}

    def get(self, i):
        return self.types[i]

    def fix(self, name, d, fn, default=True):
        """memoised property of a definition: the greatest solution over all definitions"""
        key = (name, d["id"])
        if key not in self.memo:
            every = dict(self.types)
            every[d["id"]] = d
            for i in every:
                self.memo[name, i] = default
            changed = True
            while changed:
                changed = False
                for i, x in every.items():
                    try:
                        v = fn(x)
                    except KeyError:  # refers to something that is still to be generated
                        continue
                    if v != self.memo[name, i]:
                        self.memo[name, i] = v
                        changed = True
        return self.memo[key]


def all_fields(d):
    if d["kind"] == "struct":
        return list(d["fields"])
    return [f for v in d["variants"] for f in v["fields"]]


def cap_hash(t, env):
    k = t["k"]
    if k == "prim":
        return t["n"] not in FLOATS
    if k in ("str", "char", "bool", "unit", "ip", "notnan"):
        return True
    if k == "phantom":
        return cap_hash(t["t"], env)
    if k == "set" and t["n"] == "HashSet" or k == "map" and t["n"] == "HashMap":
        return False
    if k == "wrap" and t["n"] in ("std::cell::Cell", "std::cell::RefCell", "std::sync::Mutex"):
        return False
    if k == "ref":
        d = env.get(t["id"])
        return env.fix("hash", d, lambda d: all(cap_hash(f["ty"], env) for f in all_fields(d)))
    return all(cap_hash(c, env) for c in children(t))


def cap_clone(t, env):
    k = t["k"]
    if k == "wrap":
        if t["n"] == "std::sync::Mutex":
            return False
        if t["n"] == "std::cell::Cell":
            return cap_copy(t["t"], env)
        if t["n"] in ("std::sync::Arc", "std::rc::Rc", "std::borrow::Cow"):
            return True
    if k == "ref":
        d = env.get(t["id"])
        return env.fix("clone", d, lambda d: all(cap_clone(f["ty"], env) for f in all_fields(d)))
    if k == "phantom":
        return True
    return all(cap_clone(c, env) for c in children(t))


def cap_copy(t, env):
    k = t["k"]
    if k in ("prim", "char", "bool", "unit", "ip", "notnan"):
        return True
    if k in ("opt", "res", "tup", "arr"):
        return all(cap_copy(c, env) for c in children(t))
    if k == "phantom":
        return True
    return False  # derived types never derive Copy


def cap_debug(t, env):
    return True


def cap_default(t, env):
    k = t["k"]
    if k in ("prim", "char", "bool", "unit", "opt", "vec", "set", "map", "phantom"):
        return True
    if k == "str":
        return True
    if k in ("ip", "res", "notnan"):
        return False
    if k == "tup":
        return len(t["ts"]) <= 12 and all(cap_default(c, env) for c in t["ts"])
    if k == "arr":
        return t["n"] <= 32 and cap_default(t["t"], env)
    if k == "wrap":
        return cap_default(t["t"], env)
    if k == "ref":
        d = env.get(t["id"])

        def f(d):
            if d["kind"] == "struct":
                return all(cap_default(f["ty"], env) for f in d["fields"])
            return any(v["shape"] == "unit" for v in d["variants"])

        # recursion through Option/Vec/... never asks; direct recursion is not a legal type
        return env.fix("default", d, f)
    raise ValueError(k)


def legal(t, env):
    """what serde and the standard library ask of element and key types"""
    for x in walk(t):
        if x["k"] == "set" and not cap_hash(x["t"], env) or x["k"] == "map" and not cap_hash(x["kt"], env):
            return False
        if x["k"] == "wrap" and x["n"] == "std::borrow::Cow" and not cap_clone(x["t"], env):
            return False
        if x["k"] == "wrap" and x["n"] == "std::cell::Cell" and not cap_copy(x["t"], env):
            return False
    return True


def accepts_undef(t, env):
    """can the schema accept undefined"""
    k = t["k"]
    if k == "opt":
        return True
    if k == "wrap":
        return accepts_undef(t["t"], env)
    if k == "ref":
        d = env.get(t["id"])

        def f(d):
            if d.get("from"):
                return accepts_undef(d["from"]["ty"], env)
            if d["kind"] == "struct":
                if d.get("transparent") or d["shape"] == "newtype":
                    return any(f.get("default") or accepts_undef(f["ty"], env)
                               for f in d["fields"])
                return False
            if d["tag"]["mode"] == "untagged":
                return any(v["shape"] == "newtype" and accepts_undef(v["fields"][0]["ty"], env)
                           for v in d["variants"])
            return False

        return env.fix("undef", d, f, False)
    return False


def missing_ok(t, env):
    """does serde accept a missing field of this type"""
    k = t["k"]
    if k == "opt":
        return True
    if k == "wrap":
        return missing_ok(t["t"], env)
    if k == "ref":
        d = env.get(t["id"])

        def f(d):
            if d.get("from"):
                return missing_ok(d["from"]["ty"], env)
            if d["kind"] == "struct" and d.get("transparent"):
                return any(missing_ok(f["ty"], env) for f in d["fields"] if not skipped(f))
            return False

        return env.fix("missing", d, f, False)
    return False


def string_like(t, env):
    """a named type whose values are strings in JSON, usable as a key"""
    d = env.get(t["id"])
    if d.get("from") or d.get("transparent") or not cap_hash(t, env):
        return False
    if d["kind"] == "enum":
        return d["tag"]["mode"] == "external" and all(v["shape"] == "unit" for v in d["variants"])
    return d["shape"] == "newtype" and d["fields"][0]["ty"]["k"] in ("str", "char") and not (
        skipped(d["fields"][0]) or d["fields"][0].get("default"))


def content_safe(t, env):
    """can serde buffer the value (untagged, internally tagged, flatten)"""
    k = t["k"]
    if k == "prim":
        return t["n"] not in ("u128", "i128")
    if k == "map":
        if t["kt"]["k"] not in ("str", "char", "ip") and not (t["kt"]["k"] == "ref" and string_like(t["kt"], env)):
            return False
        return content_safe(t["t"], env)
    if k == "ref":
        d = env.get(t["id"])

        def f(d):
            if d.get("from") and not content_safe(d["from"]["ty"], env):
                return False
            # skip means nothing on the field of a newtype
            return all(content_safe(f["ty"], env) for f in all_fields(d))

        return env.fix("safe", d, f)
    return all(content_safe(c, env) for c in children(t))


def has_untagged(t, env, seen=None):
    seen = seen if seen is not None else set()
    for x in walk(t):
        if x["k"] == "ref" and x["id"] not in seen:
            seen.add(x["id"])
            d = env.get(x["id"])
            if d["kind"] == "enum" and d["tag"]["mode"] == "untagged":
                return True
            tys = [f["ty"] for f in all_fields(d)]
            if d.get("from"):
                tys.append(d["from"]["ty"])
            if any(has_untagged(y, env, seen) for y in tys):
                return True
    return False


def skipped(f):
    return f.get("skip") in ("skip", "skip_deserializing")


def min_depth(t, env, stack=()):
    """length of the shortest construction, inf if uninhabited so far"""
    k = t["k"]
    if k in ("opt", "vec", "set", "map"):
        return 1
    if k == "ref":
        if t["id"] in stack:
            return math.inf
        return 1 + def_min_depth(env.get(t["id"]), env, stack + (t["id"],))
    if k == "res":
        return 1 + min(min_depth(t["t"], env, stack), min_depth(t["e"], env, stack))
    if k == "phantom":
        return 1
    cs = children(t)
    return 1 + max([min_depth(c, env, stack) for c in cs] or [0])


def def_min_depth(d, env, stack):
    if d.get("from"):
        return min_depth(d["from"]["ty"], env, stack)
    if d["kind"] == "struct":
        fs = [f for f in d["fields"] if not skipped(f) or d["shape"] == "newtype"]
        return max([min_depth(f["ty"], env, stack) for f in fs] or [0])
    best = math.inf
    for v in live_variants(d):
        fs = [f for f in v["fields"] if not skipped(f)]
        best = min(best, max([min_depth(f["ty"], env, stack) for f in fs] or [0]))
    return best


def live_variants(d):
    return [v for v in d["variants"] if v.get("skip") not in ("skip", "skip_deserializing")]


# ----------------------------------------------------------------------------------------------
# serde's renaming rules (serde_derive internals/case.rs)


def strip_raw(ident):
    return ident[2:] if ident.startswith("r#") else ident


def rename_variant(rule, v):
    if rule in (None, "PascalCase"):
        return v
    if rule == "lowercase":
        return ascii_lower(v)
    if rule == "UPPERCASE":
        return ascii_upper(v)
    if rule == "camelCase":
        return ascii_lower(v[:1]) + v[1:]
    if rule == "snake_case":
        out = ""
        for i, c in enumerate(v):
            if i > 0 and c.isupper():
                out += "_"
            out += ascii_lower(c)
        return out
    if rule == "SCREAMING_SNAKE_CASE":
        return ascii_upper(rename_variant("snake_case", v))
    if rule == "kebab-case":
        return rename_variant("snake_case", v).replace("_", "-")
    if rule == "SCREAMING-KEBAB-CASE":
        return rename_variant("SCREAMING_SNAKE_CASE", v).replace("_", "-")
    raise ValueError(rule)


def rename_field(rule, f):
    if rule in (None, "lowercase", "snake_case"):
        return f
    if rule == "UPPERCASE":
        return ascii_upper(f)
    if rule == "PascalCase":
        out, cap = "", True
        for c in f:
            if c == "_":
                cap = True
            elif cap:
                out += ascii_upper(c)
                cap = False
            else:
                out += c
        return out
    if rule == "camelCase":
        p = rename_field("PascalCase", f)
        return ascii_lower(p[:1]) + p[1:]
    if rule == "SCREAMING_SNAKE_CASE":
        return ascii_upper(f)
    if rule == "kebab-case":
        return f.replace("_", "-")
    if rule == "SCREAMING-KEBAB-CASE":
        return ascii_upper(f).replace("_", "-")
    raise ValueError(rule)


def ascii_lower(s):
    return "".join(c.lower() if c < "\x80" else c for c in s)


def ascii_upper(s):
    return "".join(c.upper() if c < "\x80" else c for c in s)


RULES = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case",
         "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]


def field_key(f, rule):
    if f.get("rename") is not None:
        return f["rename"]
    return rename_field(rule, strip_raw(f["ident"]))


def struct_keys(d):
    return [field_key(f, d.get("rename_all")) for f in d["fields"]]


def variant_key(d, v):
    if v.get("rename") is not None:
        return v["rename"]
    return rename_variant(d.get("rename_all"), strip_raw(v["ident"]))


# ----------------------------------------------------------------------------------------------
# rendering of definitions


def lit(s):
    """a Rust string literal"""
    out = '"'
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif c == "\n":
            out += "\\n"
        elif ord(c) < 32 or ord(c) == 127 or ord(c) in (0x2028, 0x2029):
            out += "\\u{%x}" % ord(c)
        else:
            out += c
    return out + '"'


def to_json(v):
    """the JSON text of a canonical value, as a client encodes it"""
    if v is UNDEF:
        return "null"
    if isinstance(v, (JObj, JMap)):
        return "{%s}" % ",".join("%s:%s" % (json.dumps(k if isinstance(k, str) else to_json(k)),
                                            to_json(x)) for k, x in v if x is not UNDEF)
    if isinstance(v, list):
        return "[%s]" % ",".join(to_json(x) for x in v)
    return json.dumps(v)


class DefaultFns:
    """functions for #[serde(default = "path")], they return some canonical value"""

    def __init__(self):
        self.reset("", None)

    def reset(self, prefix, env):
        self.prefix, self.env, self.fns = prefix, env, []

    def name(self, f):
        n = "%sdflt_%d" % (self.prefix, len(self.fns))
        js = to_json(value(f["ty"], self.env, random.Random(n), 3))
        self.fns.append("pub fn %s() -> %s { probe::serde_json::from_str(%s).unwrap() }\n"
                        % (n.split("::")[-1], render(f["ty"]), lit(js)))
        return n


DEFAULT_FNS = DefaultFns()


def rename_attr(key, value, split):
    """split: None, "de" (deserialize only) or "both" (different names for both directions)"""
    if split == "de":
        return "%s(deserialize = %s)" % (key, lit(value))
    if split == "both":
        other = "other_name" if key == "rename" else "UPPERCASE"
        return "%s(serialize = %s, deserialize = %s)" % (key, lit(other), lit(value))
    return "%s = %s" % (key, lit(value))


def serde_attr(parts):
    return "#[serde(%s)] " % ", ".join(parts) if parts else ""


def field_attrs(f):
    parts = []
    if f.get("rename") is not None:
        parts.append(rename_attr("rename", f["rename"], f.get("rename_split")))
    if f.get("skip"):
        parts.append(f["skip"])
    if f.get("skip_ser"):
        parts.append("skip_serializing")
    if f.get("default") == "trait":
        parts.append("default")
    elif f.get("default") == "path":
        parts.append('default = "%s"' % DEFAULT_FNS.name(f))
    if f.get("flatten"):
        parts.append("flatten")
    if f.get("attr_order"):
        parts.reverse()
    if f.get("attr_separate"):
        return docs(f) + "".join(serde_attr([p]) for p in parts)
    return docs(f) + serde_attr(parts)


def docs(x):
    return x.get("docs_src", "")


def render_fields(shape, fields, vis):
    def v(f):
        return f.get("vis", "") if vis else ""

    if shape == "unit":
        return ""
    if shape in ("newtype", "tuple"):
        return "(%s)" % ", ".join("%s%s%s" % (field_attrs(f), v(f), render(f["ty"]))
                                  for f in fields)
    return "{ %s }" % ", ".join("%s%s%s: %s" % (field_attrs(f), v(f), f["ident"], render(f["ty"]))
                                for f in fields)


def derives(d, env):
    out = []
    fs = all_fields(d)
    if all(cap_clone(f["ty"], env) for f in fs):
        out.append("Clone")
    if fs and all(cap_hash(f["ty"], env) for f in fs) or not fs:
        out += ["PartialEq", "Eq", "Hash", "PartialOrd", "Ord"]
    if d["kind"] == "struct":
        if all(cap_default(f["ty"], env) for f in fs):
            out.append("Default")
    elif any(v["shape"] == "unit" for v in d["variants"]):
        out.append("Default")
    return out


def ident(d):
    return d.get("ident", d["id"])


def render_def(d, env, ns_path, serialize=False, zod=True):
    """the definition and what it needs"""
    out = docs(d)
    de = ["Debug"] + derives(d, env) + ["serde::Deserialize"] + (["zod::Zod"] if zod else [])
    if serialize:
        de.append("serde::Serialize")
    if d.get("derive_order"):
        de.reverse()
    out += "#[derive(%s)]\n" % ", ".join(de)
    parts = []
    if d.get("rename") is not None:
        parts.append(rename_attr("rename", d["rename"], d.get("rename_split")))
    if d.get("rename_all"):
        parts.append(rename_attr("rename_all", d["rename_all"], d.get("rename_all_split")))
    if d.get("default"):
        parts.append("default")
    if d.get("transparent"):
        parts.append("transparent")
    if d.get("from"):
        parts.append('%s = %s' % (d["from"]["how"], lit(render(d["from"]["ty"]))))
    if d["kind"] == "enum":
        tag = d["tag"]
        if tag["mode"] == "internal":
            parts.append("tag = %s" % lit(tag["tag"]))
        elif tag["mode"] == "adjacent":
            parts.append("tag = %s" % lit(tag["tag"]))
            parts.append("content = %s" % lit(tag["content"]))
        elif tag["mode"] == "untagged":
            parts.append("untagged")
    if d.get("attr_separate"):
        out += "".join(serde_attr([p]) for p in parts)
    else:
        out += serde_attr(parts)
    if zod:
        out += '#[zod(namespace = "%s")]\n' % ns_path
    vis = d.get("vis", "pub ")
    if d["kind"] == "struct":
        out += "%sstruct %s %s" % (vis, ident(d), render_fields(d["shape"], d["fields"], True))
        out += ";\n" if d["shape"] in ("newtype", "tuple") else "\n"
    else:
        vs, defaulted = [], False
        for v in d["variants"]:
            s = docs(v)
            if v["shape"] == "unit" and not defaulted:
                s += "#[default] "
                defaulted = True
            parts = []
            if v.get("rename") is not None:
                parts.append(rename_attr("rename", v["rename"], v.get("rename_split")))
            if v.get("rename_all"):
                parts.append(rename_attr("rename_all", v["rename_all"], None))
            if v.get("skip"):
                parts.append(v["skip"])
            if v.get("skip_ser"):
                parts.append("skip_serializing")
            s += serde_attr(parts)
            s += v["ident"] + render_fields(v["shape"], v["fields"], False)
            vs.append(s)
        out += "%senum %s {\n    %s\n}\n" % (vis, ident(d), ",\n    ".join(vs))
    fr = d.get("from")
    if fr:
        value = "panic!()"
        if d["kind"] == "struct" and all(cap_default(f["ty"], env) for f in d["fields"]):
            value = "Default::default()"
        elif d["kind"] == "enum" and any(v["shape"] == "unit" for v in d["variants"]):
            value = "Default::default()"
        if fr["how"] == "from":
            out += "impl From<%s> for %s { fn from(_: %s) -> Self { %s } }\n" % (
                render(fr["ty"]), ident(d), render(fr["ty"]), value)
        else:
            out += ("impl TryFrom<%s> for %s { type Error = String; "
                    "fn try_from(_: %s) -> Result<Self, String> { Ok(%s) } }\n") % (
                render(fr["ty"]), ident(d), render(fr["ty"]), value)
    return out


def exported(d):
    return d["rename"] if d.get("rename") is not None else strip_raw(ident(d))


# ----------------------------------------------------------------------------------------------
# JavaScript values


class _Undef:
    def __repr__(self):
        return "undefined"


UNDEF = _Undef()


class JObj(list):
    """list of [key, value]"""


class JSet(list):
    pass


class JMap(list):
    """list of [key, value]"""


class JNum:
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return self.s


def enc(v):
    """tagged JSON form understood by tools/node/js.cjs"""
    if v is UNDEF:
        return {"u": 1}
    if isinstance(v, JNum):
        return {"n": v.s}
    if isinstance(v, JObj):
        return {"o": [[k, enc(x)] for k, x in v]}
    if isinstance(v, JMap):
        return {"m": [[enc(k), enc(x)] for k, x in v]}
    if isinstance(v, JSet):
        return {"s": [enc(x) for x in v]}
    if isinstance(v, list):
        return {"a": [enc(x) for x in v]}
    return v


def dec(v):
    if isinstance(v, dict):
        if "u" in v:
            return UNDEF
        if "n" in v:
            return JNum(v["n"])
        if "o" in v:
            return JObj([k, dec(x)] for k, x in v["o"])
        if "m" in v:
            return JMap([dec(k), dec(x)] for k, x in v["m"])
        if "s" in v:
            return JSet(dec(x) for x in v["s"])
        return [dec(x) for x in v["a"]]
    return v


def clone(v):
    return dec(enc(v))


def js_src(v, contextual=""):
    """JavaScript / TypeScript source text of a value; contextual: sets and maps get their type
    from where they stand (helper functions of check_types.py), not from their content; "3": strings
    in sets and maps have their literal types"""
    if contextual == "3":
        return js_literal(v, False)
    if v is UNDEF:
        return "undefined"
    if v is None:
        return "null"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, JNum):
        return v.s
    if isinstance(v, str):
        return js_str(v)
    if isinstance(v, (int, float)):
        s = json.dumps(v)
        return "(%s)" % s if s.startswith("-") else s
    if isinstance(v, JObj):
        return "{ %s }" % ", ".join("%s: %s" % (js_str(k), js_src(x, contextual)) for k, x in v)
    if isinstance(v, JMap):
        if not v and not contextual:
            return "new Map<any, any>([])"
        return (("MAP" + contextual if contextual else "new Map") + "([%s])") % ", ".join("[%s, %s]" % (js_src(k, contextual), js_src(x, contextual)) for k, x in v)
    if isinstance(v, JSet):
        if not v and not contextual:
            return "new Set<any>([])"
        return (("SET" + contextual if contextual else "new Set") + "([%s])") % ", ".join(
            js_src(x, contextual) for x in v)
    return "[%s]" % ", ".join(js_src(x, contextual) for x in v)


def js_literal(v, inside):
    if isinstance(v, str) and inside:
        return js_str(v) + " as const"
    if isinstance(v, JObj):
        return "{ %s }" % ", ".join("%s: %s" % (js_str(k), js_literal(x, inside)) for k, x in v)
    if isinstance(v, JMap) and v:
        return "new Map([%s])" % ", ".join("[%s, %s]" % (js_src(k), js_literal(x, True)) for k, x in v)
    if isinstance(v, JSet) and v:
        return "new Set([%s])" % ", ".join(js_literal(x, True) for x in v)
    if isinstance(v, list) and not isinstance(v, (JMap, JSet)):
        return "[%s]" % ", ".join(js_literal(x, inside) for x in v)
    return js_src(v)


def js_str(s):
    return json.dumps(s)


# ----------------------------------------------------------------------------------------------
# canonical values

STR_POOL = ["", "a", "A", "0", "hello world", "é", "日本", "😀", "a\"b", "\\", "\n", "\u0000",
            "null", "true", "1", "__", "{}", "[1]", " ", "\u2028", "x" * 40]
CHAR_POOL = ["a", "Z", "0", " ", "é", "日", "😀", "\"", "\\", "\n", "\u0000", "\uffff",
             "\U0010ffff", "\u2028", "\ud7ff", "\ue000"]
IP4_POOL = ["0.0.0.0", "127.0.0.1", "255.255.255.255", "10.0.200.3", "1.2.3.4", "192.168.99.249"]
IP6_POOL = ["::1", "::", "fe80::1", "2001:db8::ff00:42:8329", "1:2:3:4:5:6:7:8",
            "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "1::8", "ABCD:EF01::", "::ffff:1.2.3.4",
            "64:ff9b::192.0.2.33", "0:0:0:0:0:0:0:1"]
FLOAT_POOL = [0, -0.0, 1, -1, 0.5, -0.25, 1e10, 3.5e-10, 1e21, 123456.789, 1e-7, 2 ** 53]


def int_value(rng, n):
    lo, hi = INTS[n]
    c = rng.randrange(6)
    if c == 0:
        return lo
    if c == 1:
        return hi
    if c == 2:
        return max(lo, min(hi, rng.choice([0, 1, -1, 127, 128, 255, 256, 32767, 32768, 65535,
                                           65536, 2147483647, 2147483648, 4294967295,
                                           -128, -129, -32768, -32769, -2147483648])))
    if c == 3:
        return rng.randint(max(lo, -20), min(hi, 20))
    return rng.randint(lo, hi)


def value(t, env, rng, depth=6):
    """a canonical JavaScript value of the type: what the schema documents"""
    k = t["k"]
    if k == "prim":
        if t["n"] in INTS:
            return int_value(rng, t["n"])
        v = rng.choice(FLOAT_POOL + [rng.uniform(-1000, 1000)])
        if t["n"] == "f64" and rng.random() < 0.1:
            v = rng.choice([1.7976931348623157e308, 5e-324, -1e300])
        return v
    if k == "notnan":
        return rng.choice(FLOAT_POOL)
    if k == "str":
        return rng.choice(STR_POOL)
    if k == "char":
        return rng.choice(CHAR_POOL)
    if k == "bool":
        return rng.random() < 0.5
    if k in ("unit", "phantom"):
        return None
    if k == "ip":
        pool = {"std::net::Ipv4Addr": IP4_POOL, "std::net::Ipv6Addr": IP6_POOL}.get(
            t["n"], IP4_POOL + IP6_POOL)
        if t["n"] != "std::net::Ipv6Addr" and rng.random() < 0.3:
            return ".".join(str(rng.randrange(256)) for _ in range(4))
        return rng.choice(pool)
    if k == "opt":
        if depth <= 0 or rng.random() < 0.35 or min_depth(t["t"], env) > depth + 4:
            return UNDEF
        return value(t["t"], env, rng, depth - 1)
    if k == "res":
        a, b = min_depth(t["t"], env), min_depth(t["e"], env)
        ok = rng.random() < 0.5 if depth > 0 and max(a, b) < math.inf else a <= b
        return JObj([["Ok", value(t["t"], env, rng, depth - 1)]] if ok
                    else [["Err", value(t["e"], env, rng, depth - 1)]])
    if k == "vec":
        n = 0 if depth <= 0 else rng.choice([0, 1, 1, 2, 3])
        return [value(t["t"], env, rng, depth - 1) for _ in range(n)]
    if k == "arr":
        return [value(t["t"], env, rng, depth - 1) for _ in range(t["n"])]
    if k == "set":
        n = 0 if depth <= 0 else rng.choice([0, 1, 2, 3])
        return JSet(dedupe(value(t["t"], env, rng, depth - 1) for _ in range(n)))
    if k == "map":
        n = 0 if depth <= 0 else rng.choice([0, 1, 2, 3])
        keys = dedupe(value(t["kt"], env, rng, depth - 1) for _ in range(n))
        return JMap([x, value(t["t"], env, rng, depth - 1)] for x in keys)
    if k == "tup":
        return [value(x, env, rng, depth - 1) for x in t["ts"]]
    if k == "wrap":
        return value(t["t"], env, rng, depth)
    if k == "ref":
        if MARKERS:
            d = env.get(t["id"])
            return JObj([[marker(NS_EXPORT[d["ns"]], exported(d)), 1]])
        return def_value(env.get(t["id"]), env, rng, depth - 1)
    raise ValueError(k)


# a value of another derived type is replaced by an object that names the type (C06)
MARKERS = False
NS_EXPORT = []


def marker(ns, name):
    return "ref:%s.%s" % (ns, name)


def reaches_ref(t):
    return any(x["k"] == "ref" for x in walk(t) if x["k"] != "phantom") and t["k"] != "phantom"


def deep_value(t, env, rng, depth):
    """a canonical value that follows references as deep as it can along one path"""
    k = t["k"]
    if depth <= 0 or not reaches_ref(t):
        return value(t, env, rng, 0)

    def down(x):
        return deep_value(x, env, rng, depth - 1)

    if k in ("opt", "wrap"):
        return down(t["t"])
    if k == "vec":
        out = [down(t["t"])]
        if rng.random() < 0.3:
            out.append(value(t["t"], env, rng, 0))
        return out
    if k == "arr":
        i = rng.randrange(max(1, t["n"]))
        return [down(t["t"]) if j == i else value(t["t"], env, rng, 0) for j in range(t["n"])]
    if k == "set":
        return JSet([down(t["t"])])
    if k == "map":
        return JMap([[value(t["kt"], env, rng, 0), down(t["t"])]])
    if k == "res":
        key = "Ok" if reaches_ref(t["t"]) and (rng.random() < 0.7 or not reaches_ref(t["e"])) else "Err"
        return JObj([[key, down(t["t"] if key == "Ok" else t["e"])]])
    if k == "tup":
        i = rng.choice([j for j, x in enumerate(t["ts"]) if reaches_ref(x)])
        return [down(x) if j == i else value(x, env, rng, 0) for j, x in enumerate(t["ts"])]
    if k == "ref":
        return deep_def_value(env.get(t["id"]), env, rng, depth - 1)
    raise ValueError(k)


def deep_def_value(d, env, rng, depth):
    if d.get("from"):
        return deep_value(d["from"]["ty"], env, rng, depth)
    if d["kind"] == "struct" and not d.get("transparent"):
        pick = [f for f in d["fields"] if not skipped(f) and reaches_ref(f["ty"])]
        return fields_value(d["shape"], d["fields"], struct_keys(d), env, rng, depth,
                            bool(d.get("default")), rng.choice(pick) if pick else None)
    if d["kind"] == "struct":
        f = [f for f in d["fields"] if not skipped(f) and f["ty"]["k"] != "phantom"][0]
        return deep_value(f["ty"], env, rng, depth)
    vs = [v for v in live_variants(d) if variant_depth(v, env) < math.inf]
    going = [v for v in vs if any(reaches_ref(f["ty"]) for f in v["fields"] if not skipped(f))]
    if depth <= 0 or not going:
        return def_value(d, env, rng, 0)
    v = rng.choice(going)
    pick = [f for f in v["fields"] if not skipped(f) and reaches_ref(f["ty"])]
    return variant_value(d, v, env, rng, depth, rng.choice(pick))


def dedupe(xs):
    seen, out = set(), []
    for x in xs:
        key = json.dumps(enc(x))
        if key not in seen:
            seen.add(key)
            out.append(x)
    return out


def fields_value(shape, fields, keys, env, rng, depth, all_optional=False, pick=None):
    """value of the fields of a struct or variant; pick: the field a deep value goes through"""
    def of(f):
        if OPTIONAL_AS_UNDEFINED and f is not pick and (f.get("default") or all_optional) and (
                shape != "named" and rng.random() < 0.3):
            return UNDEF
        if pick is None:
            return value(f["ty"], env, rng, depth)
        return deep_value(f["ty"], env, rng, depth) if f is pick else value(f["ty"], env, rng, 0)

    if shape == "newtype":
        return of(fields[0])
    if shape == "tuple":
        return [of(f) for f in fields if not skipped(f)]
    out = JObj()
    for f, key in zip(fields, keys):
        if skipped(f):
            continue
        if f.get("flatten"):
            out.extend(of(f))
            continue
        if (f.get("default") or all_optional) and rng.random() < 0.4 and f is not pick:
            if OPTIONAL_AS_UNDEFINED and rng.random() < 0.5:
                out.append([key, UNDEF])
            continue
        v = of(f)
        if v is UNDEF and rng.random() < 0.5:
            if OPTIONAL_AS_UNDEFINED:
                out.append([key, v])
            continue
        out.append([key, v])
    return out


# C04 spells an absent Option member as undefined (see the statement of C04)
OPTIONAL_AS_UNDEFINED = False


def def_value(d, env, rng, depth):
    if d.get("from"):
        return value(d["from"]["ty"], env, rng, depth)
    if d["kind"] == "struct":
        if d.get("transparent"):
            f = [f for f in d["fields"] if not skipped(f) and f["ty"]["k"] != "phantom"][0]
            return value(f["ty"], env, rng, depth)
        return fields_value(d["shape"], d["fields"], struct_keys(d), env, rng, depth,
                            bool(d.get("default")))
    vs = live_variants(d)
    if depth <= 0:
        best = min(variant_depth(v, env) for v in vs)
        vs = [v for v in vs if variant_depth(v, env) == best]
    else:
        fin = [v for v in vs if variant_depth(v, env) < math.inf]
        vs = fin or vs
    return variant_value(d, rng.choice(vs), env, rng, depth)


def variant_depth(v, env):
    return max([min_depth(f["ty"], env) for f in v["fields"] if not skipped(f)] or [0])


def variant_value(d, v, env, rng, depth, pick=None):
    key = variant_key(d, v)
    tag = d["tag"]
    shape = v["shape"]
    if shape == "newtype" and skipped(v["fields"][0]):
        shape = "unit"
    keys = [field_key(f, v.get("rename_all")) for f in v["fields"]]
    inner = None
    if shape != "unit":
        inner = fields_value(shape, v["fields"], keys, env, rng, depth, False, pick)
    mode = tag["mode"]
    if mode == "external":
        return key if shape == "unit" else JObj([[key, inner]])
    if mode == "internal":
        out = JObj([[tag["tag"], key]])
        if shape != "unit":
            out.extend(inner)
        return out
    if mode == "adjacent":
        if shape == "unit":
            return JObj([[tag["tag"], key]])
        return JObj([[tag["tag"], key], [tag["content"], inner]])
    return inner  # untagged: unit is null


# ----------------------------------------------------------------------------------------------
# mutation: -> (value, ops) ; ops name what was done


def nodes(v, path=()):
    yield path, v
    if isinstance(v, (JObj, JMap)):
        for i, (k, x) in enumerate(v):
            if isinstance(v, JMap):
                yield from nodes(k, path + ((i, 0),))
            yield from nodes(x, path + ((i, 1),))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from nodes(x, path + (i,))


def replace_at(v, path, new):
    if not path:
        return new
    h, rest = path[0], path[1:]
    if isinstance(h, tuple):
        i, j = h
        v[i][j] = replace_at(v[i][j], rest, new)
    else:
        v[h] = replace_at(v[h], rest, new)
    return v


def leaf_pool(rng):
    return rng.choice([
        None, True, False, 0, 1, -1, 2.5, 255, 256, 65536, 2 ** 32, -129, -32769, -2 ** 31 - 1, 127,
        128, 32768, 2 ** 31, "", "a", "ab", "😀", "1", "null", "1.2.3.4", "::1", "256.1.1.1",
        [], JObj(), JSet(), JMap(), [0], ["a"], JObj([["a", 0]]), JSet([1]), JMap([["a", 1]]),
        JNum("NaN"), JNum("Infinity"), JNum("-Infinity"), UNDEF,
        [None], JObj([["Ok", 1]]), JObj([["Err", "x"]]), [1, 2, 3, 4]])


def mutate(v, rng, keys=()):
    """one structural change somewhere in the value; returns (value, operation)"""
    v = clone(v)
    ns = list(nodes(v))
    # prefer interesting nodes
    path, node = rng.choice(ns)
    ops = ["replace"]
    if isinstance(node, bool) or node is None or node is UNDEF or isinstance(node, JNum):
        pass
    elif isinstance(node, (int, float)):
        ops += ["nudge", "nudge", "nudge", "stringify"]
    elif isinstance(node, str):
        ops += ["strmut", "strmut", "strmut"]
    elif isinstance(node, JObj):
        ops = ["dropkey", "dropkey", "renamekey", "addkey", "toarray", "replace", "tomap", "swapval"]
    elif isinstance(node, JSet):
        ops = ["unset", "additem", "replace", "hoist"]
    elif isinstance(node, JMap):
        ops = ["unmap", "addentry", "replace"]
    elif isinstance(node, list):
        ops = ["dropitem", "dropitem", "dupitem", "additem", "replace", "toset", "wrap", "hoist",
               "swapitem"]
    op = rng.choice(ops)
    new = node
    if op == "replace":
        new = leaf_pool(rng)
    elif op == "nudge":
        new = node + rng.choice([1, -1, 0.5, 255, -256, 65536, -65536, 2 ** 31, 2 ** 32, -2 ** 32])
        if isinstance(node, float) and node == int(node) and abs(node) < SAFE:
            new = int(node) - 1
        if isinstance(new, (int, float)) and abs(new) > SAFE:
            new = -1
        if rng.random() < 0.3:
            new = -node
    elif op == "stringify":
        new = str(node)
    elif op == "strmut":
        new = rng.choice([node + "x", node[:-1], node.upper(), node.lower(), node + " ",
                          node.replace(".", ":"), node + ".1", "0" + node, node.replace("_", "-"),
                          node + node, node.capitalize()])
    elif op == "dropkey":
        if len(node):
            del new[rng.randrange(len(node))]
    elif op == "renamekey":
        if len(node):
            i = rng.randrange(len(node))
            k = node[i][0]
            cand = [k.upper(), k.lower(), k + "_", k.replace("_", "-"), k.replace("_", ""), k[1:]]
            cand += list(keys)
            nk = rng.choice(cand)
            if all(nk != x[0] for x in node):
                new[i][0] = nk
            else:
                del new[i]
    elif op == "addkey":
        nk = rng.choice(["zz_extra", "extra-key"] + list(keys))
        if all(nk != x[0] for x in node):
            new.append([nk, leaf_pool(rng)])
    elif op == "swapval":
        if len(node) > 1:
            i, j = rng.sample(range(len(node)), 2)
            new[i][1], new[j][1] = new[j][1], new[i][1]
        else:
            new = leaf_pool(rng)
    elif op == "toarray":
        new = [x for _, x in node]
    elif op == "tomap":
        new = JMap([k, x] for k, x in node)
    elif op == "unset":
        new = list(node)
    elif op == "unmap":
        new = JObj([k if isinstance(k, str) else "k", x] for k, x in node)
    elif op == "additem":
        (new.append if rng.random() < 0.7 else lambda x: new.insert(0, x))(leaf_pool(rng))
    elif op == "addentry":
        if node and rng.random() < 0.5:
            new.append([leaf_pool(rng), clone(node[0][1])])
        else:
            new.append([clone(node[0][0]) if node else "k", leaf_pool(rng)])
            if node:
                new.pop(0)
    elif op == "dropitem":
        if len(node):
            del new[rng.choice([0, len(node) - 1, rng.randrange(len(node))])]
    elif op == "dupitem":
        if len(node):
            new.append(clone(node[-1]))
    elif op == "swapitem":
        if len(node) > 1:
            i, j = rng.sample(range(len(node)), 2)
            new[i], new[j] = new[j], new[i]
    elif op == "toset":
        new = JSet(dedupe(node))
    elif op == "wrap":
        new = [node]
    elif op == "hoist":
        new = node[0] if len(node) else None
    return replace_at(v, path, new), op


def has(v, pred):
    return any(pred(x) for _, x in nodes(v))


def size(v):
    return len(json.dumps(enc(v)))
