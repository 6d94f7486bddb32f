"""Seeded generators of type definitions (see model.py for the data model)."""
import math
import random

import model as m
from model import P, STRING, T

FIELD_IDENTS = ["a", "b", "c", "field_one", "x1", "my_value", "some_long_name", "r#type", "r#match",
                "_lead", "camelCase", "größe", "value", "id", "data", "kind", "r#fn", "trail_",
                "a_b_c", "UPPER", "x", "y", "is_ok", "n2_o"]
VARIANT_IDENTS = ["A", "B", "C", "Unit", "FooBar", "HTTPServer", "X1", "LongVariantName", "Ok",
                  "snake_case", "None", "Z", "Ünï", "OneTwo3", "Other"]
RENAMES = ["renamed", "foo-bar", "with space", "quo\"te", "back\\slash", "ключ", "😀", "new\nline",
           "1st", "", "class", "default", "$x", "a{b}", "{}", "tab\there", "\u2028", "a.b", "'", "`",
           "${x}", "UPPER", "0", "-", "/*", "*/", "//", "a:b", "null", "true", "\u0001"]
TAGS = ["t", "type", "kind_", "my-tag", "t\"x", "tag space", "_t", "тег", "1", "@"]


def key_ok(t, env):
    return not m.accepts_undef(t, env) or m.missing_ok(t, env)


def payload_ok(t, env):
    return not m.accepts_undef(t, env)


class Gen:
    def __init__(self, rng, env):
        self.rng = rng
        self.env = env

    # ------------------------------------------------------------------ type expressions

    def ty(self, depth=2, refs=(), **c):
        """c: hash, default, clone, copy, safe, key, payload"""
        for attempt in range(40):
            d = depth if attempt < 20 else 0
            t = self.raw(d, refs, c)
            if self.fits(t, c):
                return t
        return P("u8")

    def fits(self, t, c):
        e = self.env
        if c.get("hash") and not m.cap_hash(t, e):
            return False
        if c.get("default") and not m.cap_default(t, e):
            return False
        if c.get("clone") and not m.cap_clone(t, e):
            return False
        if c.get("copy") and not m.cap_copy(t, e):
            return False
        if c.get("safe") and not m.content_safe(t, e):
            return False
        if c.get("key") and not key_ok(t, e):
            return False
        if c.get("payload") and not payload_ok(t, e):
            return False
        if c.get("nostatic") and any(x["k"] == "str" and x["n"].startswith("&") for x in m.walk(t)):
            return False
        if c.get("noboxonly") and t["k"] == "ref":
            return False
        return True

    def raw(self, depth, refs, c):
        r = self.rng
        if depth <= 0 or r.random() < 0.3:
            if refs and r.random() < 0.45:
                return T("ref", id=r.choice(list(refs)))
            return self.leaf()
        inner = {k: v for k, v in c.items() if k in ("hash", "clone", "copy", "safe")}

        def sub(**kw):
            x = dict(inner)
            x.update(kw)
            return self.ty(depth - 1, refs, **x)

        k = r.choice(["opt", "opt", "res", "vec", "vec", "arr", "set", "map", "tup", "tup", "wrap",
                      "wrap", "phantom"])
        if k == "opt":
            t = sub()
            return T("opt", t=t)
        if k == "res":
            return T("res", t=sub(payload=True), e=sub(payload=True))
        if k == "vec":
            return T("vec", t=sub())
        if k == "arr":
            return T("arr", t=sub(), n=r.choice([0, 1, 2, 3, 4, 7, 32]) if depth <= 1
                     else r.choice([0, 1, 2, 3]))
        if k == "set":
            return T("set", n=r.choice(["HashSet", "BTreeSet"]), t=sub(hash=True))
        if k == "map":
            return T("map", n=r.choice(["HashMap", "BTreeMap"]), kt=self.key_type(c.get("safe"), refs),
                     t=sub())
        if k == "tup":
            n = r.choice([1, 2, 2, 3, 3, 4, 5, 8, 12, r.randrange(4, 13)] if depth <= 1 else [1, 2, 2, 3])
            return T("tup", ts=[sub() for _ in range(n)])
        if k == "wrap":
            w = r.choice(m.WRAPS)
            if w == "std::cell::Cell":
                return T("wrap", n=w, t=sub(copy=True))
            if w == "std::borrow::Cow":
                return T("wrap", n=w, t=sub(clone=True))
            return T("wrap", n=w, t=sub())
        return T("phantom", t=sub())

    def key_type(self, safe, refs=()):
        """what serde_json writes as a string (not bool: reading such a key, serde_json cuts through UTF-8 sequences)"""
        r = self.rng
        named = [T("ref", id=x) for x in refs if m.string_like(T("ref", id=x), self.env)]
        if named and r.random() < 0.4:
            return r.choice(named)
        opts = [STRING, STRING, T("char"), T("str", n="smol_str::SmolStr"), T("ip", n=r.choice(m.IPS))]
        if not safe:
            opts += [P(r.choice(["u8", "i32", "u64", "i8", "u16", "i64", "u32", "usize", "isize"]))]
        return r.choice(opts)

    def leaf(self):
        r = self.rng
        c = r.randrange(12)
        if c < 5:
            return P(r.choice(m.PRIMS))
        if c < 7:
            return T("str", n=r.choice(["String", "String", "String", "smol_str::SmolStr"]))
        if c == 7:
            return T("bool")
        if c == 8:
            return T("char")
        if c == 9:
            return T("unit")
        if c == 10:
            return T("ip", n=r.choice(m.IPS))
        return T("notnan", n=r.choice(m.FLOATS))

    # ------------------------------------------------------------------ fields

    def idents(self, n, pool):
        if n > len(pool):
            base = ["member_%d", "M%dx"][pool is VARIANT_IDENTS]
            return [base % i for i in range(n)]
        return self.rng.sample(pool, n)

    def field(self, ident, **c):
        """a plain field"""
        return {"ident": ident, "ty": self.ty(**c)}

    def decorate(self, f, named, refs, allow_default=True, allow_skip=True, safe=False):
        """attributes of a field; may replace the type to satisfy them"""
        r = self.rng
        if named and r.random() < 0.3:
            f["rename"] = r.choice(RENAMES)
            if r.random() < 0.3:
                f["rename_split"] = r.choice(["de", "both"])
        x = r.random()
        if allow_skip and x < 0.13:
            f["skip"] = r.choice(["skip", "skip", "skip_deserializing"])
            f["ty"] = self.ty(1, refs, default=True)
        elif allow_default and x < 0.36:
            if r.random() < 0.6:
                f["default"] = "trait"
                f["ty"] = self.ty(2, refs, default=True, safe=safe)
            else:
                f["default"] = "path"
        if not f.get("skip") and r.random() < 0.06:
            f["skip_ser"] = True
        if r.random() < 0.2:
            f["attr_separate"] = True
        if r.random() < 0.2:
            f["attr_order"] = True
        f["vis"] = r.choice(["", "pub ", "pub(crate) "])
        return f

    # ------------------------------------------------------------------ structs

    def struct(self, id, ns, refs=(), shape=None, plain=False, safe=False, flat_refs=(), max_fields=5):
        r = self.rng
        d = {"id": id, "ns": ns, "kind": "struct", "vis": r.choice(["", "pub ", "pub(crate) "])}
        if not plain:
            self.container_names(d)
        shape = shape or r.choice(["named"] * 6 + ["tuple"] * 3 + ["newtype"] * 2)
        d["shape"] = shape
        if not plain and r.random() < 0.08:
            d["from"] = {"how": r.choice(["from", "try_from"]), "ty": self.ty(2, refs, safe=safe)}
        if not plain and shape in ("named", "newtype") and not d.get("from") and r.random() < 0.08:
            d["transparent"] = True
        if shape == "named" and not d.get("transparent") and not plain and r.random() < 0.4:
            d["rename_all"] = r.choice(m.RULES)
            if r.random() < 0.25:
                d["rename_all_split"] = r.choice(["de", "both"])
        if d.get("transparent"):
            f = self.field("inner", depth=2, refs=refs, safe=safe)
            if f["ty"]["k"] == "phantom":
                f["ty"] = f["ty"]["t"]
                while f["ty"]["k"] == "phantom":
                    f["ty"] = f["ty"]["t"]
            d["fields"] = [f]
            if shape == "named":
                if r.random() < 0.5:
                    # what serde ignores when it looks for the transparent field
                    d["fields"].insert(r.randrange(2), {
                        "ident": "marker", "ty": T("phantom", t=self.ty(1, refs))})
                if r.random() < 0.4:
                    d["fields"].insert(r.randrange(2), {
                        "ident": "skipped", "skip": "skip", "ty": self.ty(1, refs, default=True)})
            return d
        if shape == "newtype":
            f = self.field("f0", depth=2, refs=refs, safe=safe)
            if not plain:
                x = r.random()
                if x < 0.1:
                    f["skip"] = "skip"
                    f["ty"] = self.ty(1, refs, default=True, safe=safe)
                elif x < 0.2:
                    f["default"] = "path"
                if r.random() < 0.2:
                    f["vis"] = "pub "
            d["fields"] = [f]
        elif shape == "tuple":
            n = r.choice([2, 2, 3, 4, max_fields, 0])
            if r.random() < 0.06:
                n = r.randrange(6, 21)
            d["fields"] = self.tuple_fields(n, refs, plain, safe)
        else:
            for _ in range(50):
                n = r.choice([0, 1, 1, 2, 3, 3, 4, max_fields])
                if r.random() < 0.05:
                    n = r.randrange(6, 21)
                elif r.random() < 0.008:
                    n = r.randrange(60, 90)
                fs = [self.field(i, depth=2 if n < 6 else 1, refs=refs, key=True, safe=safe)
                      for i in self.idents(n, FIELD_IDENTS)]
                if not plain and n < 60:
                    fs = [self.decorate(f, True, refs, safe=safe) for f in fs]
                for f in fs:
                    if not f.get("default") and not m.skipped(f) and not key_ok(f["ty"], self.env):
                        f["ty"] = P("u8")
                d["fields"] = fs
                d.pop("default", None)
                if not plain and r.random() < 0.12 and all(
                        m.cap_default(f["ty"], self.env) for f in fs):
                    d["default"] = True
                if flat_refs and r.random() < 0.5:
                    for k, fr in enumerate(r.sample(list(flat_refs), r.choice([1, 1, min(2, len(flat_refs))]))):
                        d["fields"].insert(r.randrange(len(d["fields"]) + 1),
                                           {"ident": "flat%d" % k, "flatten": True,
                                            "ty": T("ref", id=fr)})
                    if d.get("default"):
                        d.pop("default")
                if self.keys_unique(d):
                    break
            else:
                d["fields"] = []
                d.pop("default", None)
        return d

    def tuple_fields(self, n, refs, plain, safe):
        r = self.rng
        fs = [self.field("f%d" % i, depth=1 if n > 3 else 2, refs=refs, safe=safe) for i in range(n)]
        if not plain:
            for f in fs:
                if r.random() < 0.15:
                    f["skip"] = r.choice(["skip", "skip_deserializing"])
                    f["ty"] = self.ty(1, refs, default=True)
                f["vis"] = r.choice(["", "pub "])
            if r.random() < 0.15 and fs:
                # defaults only after the last required field
                i = r.randrange(len(fs))
                for f in fs[i:]:
                    if not m.skipped(f):
                        f["default"] = "path"
        return fs

    def container_names(self, d):
        r = self.rng
        if r.random() < 0.2:
            d["rename"] = "Ren" + d["id"]
            if r.random() < 0.3:
                d["rename_split"] = r.choice(["de", "both"])
        if r.random() < 0.3:
            d["attr_separate"] = True
        if r.random() < 0.3:
            d["derive_order"] = True

    def live_keys(self, t):
        """all keys an object type (struct or internally tagged enum) can have"""
        d = self.env.get(t["id"])
        if d["kind"] == "struct":
            out = []
            for f, k in zip(d["fields"], m.struct_keys(d)):
                if f.get("flatten"):
                    out += self.live_keys(f["ty"])
                elif not m.skipped(f):
                    out.append(k)
            return out
        out = [d["tag"]["tag"]]
        for v in d["variants"]:
            for f in v["fields"]:
                if v["shape"] == "newtype":
                    if not m.skipped(f):
                        out += self.live_keys(f["ty"])
                else:
                    out.append(m.field_key(f, v.get("rename_all")))
        return out

    def keys_unique(self, d):
        keys = []
        for f, k in zip(d["fields"], m.struct_keys(d)):
            if f.get("flatten"):
                keys += sorted(set(self.live_keys(f["ty"])))
            else:
                keys.append(k)
        return len(set(keys)) == len(keys)

    # ------------------------------------------------------------------ enums

    def enum(self, id, ns, refs=(), obj_refs=(), mode=None, plain=False, safe=False, max_variants=6):
        r = self.rng
        d = {"id": id, "ns": ns, "kind": "enum", "vis": r.choice(["", "pub "])}
        if not plain:
            self.container_names(d)
        mode = mode or r.choice(["external", "external", "internal", "adjacent", "untagged"])
        tag = {"mode": mode}
        if mode == "internal":
            tag["tag"] = r.choice(TAGS)
        if mode == "adjacent":
            tag["tag"], tag["content"] = r.sample(TAGS + ["content", "c"], 2)
        d["tag"] = tag
        if not plain and r.random() < 0.06:
            d["from"] = {"how": r.choice(["from", "try_from"]), "ty": self.ty(2, refs, safe=safe)}
        if not plain and r.random() < 0.4:
            d["rename_all"] = r.choice(m.RULES)
            if r.random() < 0.25:
                d["rename_all_split"] = r.choice(["de", "both"])
        for _ in range(60):
            n = r.choice([1, 1, 2, 2, 3, 3, 4, max_variants])
            if r.random() < 0.04:
                n = r.randrange(6, len(VARIANT_IDENTS) + 1)
            elif not plain and r.random() < 0.006:
                n = r.randrange(50, 80)
            vs = [self.variant(i, tag, refs, obj_refs, plain or n >= 50,
                               safe or mode in ("internal", "untagged") or tag.get("content") == "1")
                  for i in self.idents(n, VARIANT_IDENTS)]
            d["variants"] = vs
            if d.get("rename_all") == "camelCase" and any(ord(v["ident"][0]) > 127 for v in vs):
                continue  # serde_derive itself panics
            names = [m.variant_key(d, v) for v in vs]
            if len(set(names)) != len(names):
                continue
            if not m.live_variants(d):
                continue
            if any(not self.variant_keys_ok(d, v) for v in vs):
                continue
            break
        else:
            d["variants"] = [{"ident": "A", "shape": "unit", "fields": []}]
        return d

    def variant_keys_ok(self, d, v):
        if v["shape"] != "named":
            return True
        keys = [m.field_key(f, v.get("rename_all")) for f in v["fields"]]
        if d["tag"]["mode"] == "internal":
            keys.append(d["tag"]["tag"])
            # serde also refuses fields that are serialized under the tag's name
            if any(d["tag"]["tag"] in (m.strip_raw(f["ident"]), "other_name") for f in v["fields"]):
                return False
        return len(set(keys)) == len(keys)

    def variant(self, ident, tag, refs, obj_refs, plain, safe):
        r = self.rng
        mode = tag["mode"]
        shapes = ["unit", "unit", "newtype", "newtype", "tuple", "named", "named"]
        if mode == "internal":
            shapes = ["unit", "named", "named"] + (["newtype"] if obj_refs else [])
        v = {"ident": ident, "shape": r.choice(shapes), "fields": []}
        if not plain:
            if r.random() < 0.2:
                v["rename"] = r.choice(RENAMES)
                if r.random() < 0.3:
                    v["rename_split"] = r.choice(["de", "both"])
            if r.random() < 0.1:
                v["skip"] = r.choice(["skip", "skip_deserializing"])
            elif r.random() < 0.08:
                v["skip_ser"] = True
        if v["shape"] == "newtype":
            if mode == "internal":
                # the tag must not collide with a key of the payload
                ok = [x for x in obj_refs if tag["tag"] not in self.live_keys(T("ref", id=x))]
                if not ok:
                    v["shape"] = "unit"
                    return v
                f = {"ident": "f0", "ty": T("ref", id=r.choice(ok))}
                if r.random() < 0.2:
                    f["ty"] = T("wrap", n="Box", t=f["ty"])
            else:
                c = {"payload": True} if mode == "external" else {"key": True}
                if mode == "untagged":
                    c = {}
                f = self.field("f0", depth=2, refs=refs, safe=safe, **c)
            if not plain and mode != "adjacent" and r.random() < 0.12:
                f["skip"] = r.choice(["skip", "skip_deserializing"])
                f["ty"] = self.ty(1, (), default=True)
            v["fields"] = [f]
        elif v["shape"] == "tuple":
            n = r.choice([2, 2, 3, 4, 0])
            if r.random() < 0.03:
                n = r.randrange(5, 17)
            v["fields"] = self.tuple_fields(n, refs, plain, safe)
        elif v["shape"] == "named":
            if not plain and r.random() < 0.25:
                v["rename_all"] = r.choice(m.RULES)
            n = r.choice([0, 1, 1, 2, 3, 4])
            if r.random() < 0.03:
                n = r.randrange(5, 17)
            fs = [self.field(i, depth=2 if n < 6 else 1, refs=refs, key=True, safe=safe)
                  for i in self.idents(n, FIELD_IDENTS)]
            if not plain:
                fs = [self.decorate(f, True, refs, safe=safe) for f in fs]
            for f in fs:
                f.pop("vis", None)
                if not f.get("default") and not m.skipped(f) and not key_ok(f["ty"], self.env):
                    f["ty"] = P("u8")
            v["fields"] = fs
        return v


# ----------------------------------------------------------------------------------------------
# cases


def settle(d, env):
    """from/try_from need a conversion: the harness converts to the default value"""
    if d.get("from"):
        env.types[d["id"]] = d
        env.memo.clear()
        if not m.cap_default(T("ref", id=d["id"]), env) or not default_ends(d, env):
            del d["from"]
        env.memo.clear()
    return d


def default_ends(d, env, stack=()):
    """the default value of a type that holds itself in a box has no end"""
    def of(t):
        if t["k"] == "ref":
            return t["id"] not in stack + (d["id"],) and default_ends(env.get(t["id"]), env, stack + (d["id"],))
        if t["k"] == "tup":
            return all(of(x) for x in t["ts"])
        if t["k"] == "arr":
            return t["n"] == 0 or of(t["t"])
        return t["k"] != "wrap" or of(t["t"])

    return d["kind"] == "enum" or all(of(f["ty"]) for f in d["fields"])


def is_object(d, env):
    """usable as payload of an internally tagged newtype or for flatten"""
    if d.get("from") or d.get("transparent"):
        return False
    if d["kind"] == "struct":
        return d["shape"] == "named" and all(
            m.content_safe(f["ty"], env) for f in d["fields"] if not m.skipped(f))
    return False


def helpers(g, cid, n, env, safe_bias=0.6):
    """supporting definitions, each may use the earlier ones"""
    ids, objs = [], []
    for i in range(n):
        id = "T%d_%d" % (cid, i)
        safe = g.rng.random() < safe_bias
        refs = [x for x in ids if not safe or m.content_safe(T("ref", id=x), env)]
        ns = g.rng.randrange(3)
        if g.rng.random() < 0.6:
            d = g.struct(id, ns, refs, safe=safe, max_fields=3)
        else:
            d = g.enum(id, ns, refs, objs, safe=safe, max_variants=3)
        env.types[id] = settle(d, env)
        env.memo.clear()
        ids.append(id)
        if is_object(d, env):
            objs.append(id)
    return ids, objs


def catalogue(g):
    """every built-in type, arity and container at least once"""
    r = g.rng
    leaves = [P(n) for n in m.PRIMS] + [T("str", n="String"), T("str", n="smol_str::SmolStr"), T("bool"), T("char"),
                                        T("unit")]
    leaves += [T("ip", n=n) for n in m.IPS] + [T("notnan", n=n) for n in m.FLOATS]
    leaf = lambda **c: g.ty(0, **c)
    out = list(leaves)
    out += [T("tup", ts=[leaf() for _ in range(n)]) for n in range(1, 17)]
    out += [T("arr", n=n, t=leaf()) for n in list(range(0, 9)) + [15, 16, 17, 31, 32]]
    keys = [STRING, T("char"), T("str", n="smol_str::SmolStr")] + [T("ip", n=n) for n in m.IPS]
    keys += [P(n) for n in m.PRIMS if n[0] in "ui"]
    out += [T("map", n=["HashMap", "BTreeMap"][(i + r.randrange(2)) % 2], kt=k, t=leaf()) for i, k in enumerate(keys)]
    for w in m.WRAPS:
        c = {"std::cell::Cell": {"copy": True}, "std::borrow::Cow": {"clone": True}}.get(w, {})
        out += [T("wrap", n=w, t=leaf(**c)), T("wrap", n=w, t=g.ty(1, **c))]
    for x in leaves:
        out.append(r.choice([lambda: T("opt", t=x), lambda: T("vec", t=x), lambda: T("res", t=x, e=leaf(payload=True)),
                             lambda: T("res", t=leaf(payload=True), e=x)])())
    sets = [x for x in leaves if m.cap_hash(x, g.env)]
    out += [T("set", n=["HashSet", "BTreeSet"][i % 2], t=x) for i, x in enumerate(sets)]
    out += [T("opt", t=T("opt", t=leaf())), T("phantom", t=leaf()), T("opt", t=T("map", n="HashMap", kt=STRING, t=leaf()))]
    return out


def builtin_case(rng, cid):
    env = m.Env([])
    g = Gen(rng, env)
    if cid < 160:
        every = catalogue(Gen(random.Random(rng.random()), env))
        if cid < len(every):
            return {"id": cid, "types": [], "roots": [every[cid]]}
    t = g.ty(rng.choice([0, 1, 2, 2, 3, 4]))
    return {"id": cid, "types": [], "roots": [t]}


def struct_case(rng, cid):
    env = m.Env([])
    g = Gen(rng, env)
    ids, objs = helpers(g, cid, rng.choice([0, 1, 2, 3]), env)
    id = "T%d_%d" % (cid, len(ids))
    d = g.struct(id, rng.randrange(3), ids, flat_refs=objs)
    env.types[id] = settle(d, env)
    return {"id": cid, "types": list(env.types.values()), "roots": [T("ref", id=id)]}


def enum_case(rng, cid):
    env = m.Env([])
    g = Gen(rng, env)
    ids, objs = helpers(g, cid, rng.choice([0, 1, 2, 3]), env, 0.8)
    id = "T%d_%d" % (cid, len(ids))
    mode = rng.choice(["external", "internal", "adjacent", "untagged"])
    safe = mode in ("internal", "untagged")
    refs = [x for x in ids if not safe or m.content_safe(T("ref", id=x), env)]
    d = g.enum(id, rng.randrange(3), refs, objs, mode=mode)
    env.types[id] = settle(d, env)
    return {"id": cid, "types": list(env.types.values()), "roots": [T("ref", id=id)]}


def alias_edges(d, env):
    """types whose value can be a value of this type itself"""
    def direct(t):
        if t["k"] == "ref":
            return [t["id"]]
        if t["k"] in ("opt", "wrap"):
            return direct(t["t"])
        return []

    out = []
    if d.get("from"):
        return direct(d["from"]["ty"])
    if d["kind"] == "struct":
        for f in d["fields"]:
            if d["shape"] == "newtype" or d.get("transparent") or f.get("flatten"):
                out += direct(f["ty"])
    elif d["tag"]["mode"] in ("untagged", "internal"):
        for v in d["variants"]:
            if v["shape"] == "newtype":
                out += direct(v["fields"][0]["ty"])
    return out


def has_alias_cycle(env):
    for d in env.types.values():
        seen, todo = set(), alias_edges(d, env)
        while todo:
            x = todo.pop()
            if x == d["id"]:
                return True
            if x not in seen:
                seen.add(x)
                todo += alias_edges(env.types[x], env)
    return False


def sound(case):
    """the graph of types is inhabited and inside the domain of the schema properties"""
    env = m.Env(case["types"])
    g = Gen(None, env)
    if has_alias_cycle(env):
        return False
    froms = [d["from"]["ty"] for d in case["types"] if d.get("from")]
    if not all(m.legal(t, env) for t in case["roots"] + froms + [
            f["ty"] for d in case["types"] for f in m.all_fields(d)]):
        return False
    for x in (x for t in case["roots"] + froms for x in m.walk(t)):
        if x["k"] == "res" and not (payload_ok(x["t"], env) and payload_ok(x["e"], env)):
            return False
    for d in case["types"]:
        if d.get("transparent") and all(f["ty"]["k"] == "phantom" or m.skipped(f) for f in d["fields"]):
            return False
        if m.def_min_depth(d, env, (d["id"],)) == math.inf:
            return False
        holders = [d] if d["kind"] == "struct" else d["variants"]
        for h in holders:
            for f in h["fields"]:
                t = f["ty"]
                if h["shape"] == "named" and not f.get("default") and not m.skipped(f) \
                        and not f.get("flatten") and not key_ok(t, env):
                    return False
                if d["kind"] == "enum" and h["shape"] == "newtype" and not m.skipped(f):
                    ok = {"external": payload_ok, "adjacent": key_ok}.get(d["tag"]["mode"])
                    if ok and not ok(t, env):
                        return False
                for x in m.walk(t):
                    if x["k"] == "res" and not (payload_ok(x["t"], env) and payload_ok(x["e"], env)):
                        return False
        if d["kind"] == "enum" and (d["tag"]["mode"] in ("internal", "untagged")
                                    or d["tag"].get("content") == "1"):
            if not m.content_safe(T("ref", id=d["id"]), env):
                return False
        if d["kind"] == "enum" and d["tag"]["mode"] == "internal":
            for v in d["variants"]:
                if v["shape"] == "newtype" and not m.skipped(v["fields"][0]):
                    if d["tag"]["tag"] in g.live_keys(inner_ref(v["fields"][0]["ty"])):
                        return False
        if any(f.get("flatten") for f in m.all_fields(d)):
            if not g.keys_unique(d) or not all(
                    m.content_safe(f["ty"], env) for f in m.all_fields(d) if not m.skipped(f)):
                return False
    return True


def inner_ref(t):
    while t["k"] == "wrap":
        t = t["t"]
    return t


HEAP = ["Box", "std::sync::Arc", "std::rc::Rc"]


def through(rng, id):
    """a type that holds values of another one behind an indirection"""
    r = T("ref", id=id)

    def box(x):
        return T("wrap", n=rng.choice(HEAP), t=x)

    return rng.choice([
        lambda: box(r), lambda: T("opt", t=box(r)), lambda: T("opt", t=box(r)), lambda: T("vec", t=r),
        lambda: T("vec", t=r), lambda: T("map", n="HashMap", kt=STRING, t=r),
        lambda: T("map", n="BTreeMap", kt=STRING, t=r), lambda: T("opt", t=T("vec", t=r)),
        lambda: T("vec", t=T("tup", ts=[r, P("u8")])), lambda: T("tup", ts=[P("u8"), T("vec", t=r)]),
        lambda: T("res", t=box(r), e=P("u8")), lambda: T("res", t=STRING, e=T("vec", t=r)),
        lambda: T("arr", t=box(r), n=1), lambda: T("vec", t=T("opt", t=r)),
        lambda: T("vec", t=T("arr", t=r, n=2)), lambda: T("set", n="BTreeSet", t=r),
        lambda: T("vec", t=T("res", t=r, e=r)), lambda: T("wrap", n="std::sync::Mutex", t=T("vec", t=r)),
        lambda: T("map", n="HashMap", kt=P("u16"), t=T("vec", t=r)),
        lambda: T("wrap", n="std::cell::RefCell", t=T("vec", t=r)),
        lambda: T("opt", t=box(T("tup", ts=[r]))), lambda: box(T("arr", t=T("opt", t=r), n=2)),
        lambda: T("phantom", t=r), lambda: T("vec", t=T("vec", t=r)),
    ])()


def graph_case(rng, cid):
    """types that refer to each other in any direction, over all namespaces"""
    for attempt in range(400):
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
        ids = ["T%d_%d" % (cid, i) for i in range(n)]
        env = m.Env([])
        g = Gen(rng, env)
        for i, id in enumerate(ids):
            ns = rng.randrange(3)
            if rng.random() < 0.55:
                d = g.struct(id, ns, (), max_fields=2)
                kinds = [id2 for id2 in ids if id2 != id]
            else:
                d = g.enum(id, ns, (), (), max_variants=3)
            d.pop("from", None)
            if d.get("default") is True:
                d.pop("default")
            add_refs(rng, g, d, ids)
            env.types[id] = d
            env.memo.clear()
        types = list(env.types.values())
        for d in types:
            if not d.get("transparent") and rng.random() < 0.12:
                other = rng.choice(ids)
                d["from"] = {"how": rng.choice(["from", "try_from"]), "ty": rng.choice([
                    T("ref", id=other), through(rng, other)])}
        objs = [d["id"] for d in types if d["kind"] == "struct" and d["shape"] == "named"
                and not d.get("transparent") and not d.get("from")]
        for d in types:  # flattened and internally tagged payloads need to know all types
            if objs and rng.random() < 0.15 and d["id"] in objs:
                other = rng.choice(objs)
                if other != d["id"]:
                    d["fields"].insert(rng.randrange(len(d["fields"]) + 1), {
                        "ident": "flat0", "flatten": True, "ty": T("ref", id=other)})
            if objs and d["kind"] == "enum" and d["tag"]["mode"] == "internal" and rng.random() < 0.6:
                d["variants"].append({"ident": "Payload", "shape": "newtype", "fields": [
                    {"ident": "f0", "ty": T("wrap", n="Box", t=T("ref", id=rng.choice(objs)))}]})
        types = list(types)
        for d in types:
            settle(d, env)
        rng.shuffle(types)
        roots = [T("ref", id=i) for i in ids]
        if rng.random() < 0.5:
            roots.append(through(rng, rng.choice(ids)))
        case = {"id": cid, "types": types, "roots": roots}
        if sound(case) and any(m.reaches_ref(f["ty"]) for d in types for f in m.all_fields(d)):
            return case
    raise RuntimeError("no graph found")


def add_refs(rng, g, d, ids):
    def pick():
        return through(rng, rng.choice(ids))

    holders = [d] if d["kind"] == "struct" else d["variants"]
    for h in holders:
        if d.get("transparent"):
            for f in h["fields"]:
                if f["ident"] in ("inner", "f0") and rng.random() < 0.6:
                    f["ty"] = pick()
        elif h["shape"] == "newtype":
            f = h["fields"][0]
            if rng.random() < 0.6 and not f.get("skip") and not f.get("default"):
                f["ty"] = pick()
        elif h["shape"] == "tuple":
            for j in range(rng.choice([0, 1, 2])):
                h["fields"].insert(0, {"ident": "g%d" % j, "ty": pick()})
            if len(h["fields"]) == 1:
                h["fields"].append({"ident": "h", "ty": P("u8")})
            for j, f in enumerate(h["fields"]):
                f["ident"] = "f%d" % j
        elif h["shape"] == "named":
            for j in range(rng.choice([0, 1, 1, 2, 3])):
                h["fields"].insert(rng.randrange(len(h["fields"]) + 1), {
                    "ident": "ref_%s_%d" % (d["id"].split("_")[1], j), "ty": pick()})


def doubling_case(rng, cid, depth=26):
    """copying instead of referring would take 2^depth steps"""
    types = []
    r = T("ref", id="T%d_%d" % (cid, 1))
    for i in range(depth):
        nxt = T("ref", id="T%d_%d" % (cid, i + 1))
        a, b = T("vec", t=nxt), T("opt", t=T("wrap", n="Box", t=nxt))
        if i == depth - 1:
            a, b = P("u8"), P("u8")
        d = {"id": "T%d_%d" % (cid, i), "ns": rng.randrange(3)}
        if rng.random() < 0.5:
            d.update(kind="struct", shape="named", fields=[
                {"ident": "a", "ty": a}, {"ident": "b", "ty": b}])
        else:
            d.update(kind="enum", tag={"mode": "external"}, variants=[
                {"ident": "A", "shape": "tuple", "fields": [
                    {"ident": "f0", "ty": a}, {"ident": "f1", "ty": T("vec", t=b)}]},
                {"ident": "B", "shape": "named", "fields": [
                    {"ident": "a", "ty": a}, {"ident": "b", "ty": b}]},
                {"ident": "C", "shape": "unit", "fields": []}])
        types.append(d)
    return {"id": cid, "types": types, "roots": [T("ref", id="T%d_0" % cid)]}


def undef_hazard(case):
    """positional serde(default): undefined is null on the wire (recorded finding)"""
    for d in case["types"]:
        if d["kind"] == "struct":
            if d["shape"] in ("tuple", "newtype") and any(f.get("default") for f in d["fields"]):
                return True
        else:
            for v in d["variants"]:
                if v["shape"] in ("tuple", "newtype") and any(f.get("default") for f in v["fields"]):
                    return True
    return False


def mentions_wide(case):
    tys = list(case["roots"])
    for d in case["types"]:
        tys += [f["ty"] for f in m.all_fields(d)]
        if d.get("from"):
            tys.append(d["from"]["ty"])
    return any(x["k"] == "prim" and x["n"] in m.WIDE for t in tys for x in m.walk(t))


def uses_flatten(case):
    return any(f.get("flatten") for d in case["types"] for f in m.all_fields(d))


def features(case):
    """classification for the evidence"""
    out = set()
    for d in case["types"]:
        if d["kind"] == "struct":
            out.add("struct:" + d["shape"])
        else:
            out.add("enum:" + d["tag"]["mode"])
            for v in d["variants"]:
                out.add("variant:%s:%s" % (d["tag"]["mode"], v["shape"]))
                if v.get("skip"):
                    out.add("variant-skip")
                if v.get("skip_ser"):
                    out.add("variant-skip-serializing")
                if v.get("rename") is not None:
                    out.add("variant-rename")
        for k in ("rename", "rename_all", "default", "transparent"):
            if d.get(k):
                out.add("container:" + k)
        if d.get("from"):
            out.add("container:" + d["from"]["how"])
        for f in m.all_fields(d):
            for k in ("rename", "default", "flatten"):
                if f.get(k) is not None:
                    out.add("field:" + k)
            if f.get("skip"):
                out.add("field:" + f["skip"])
    for r in case["roots"]:
        for x in m.walk(r):
            out.add("type:" + x["k"] + (":" + x["n"] if x["k"] in ("prim", "wrap", "set", "map") else ""))
    return out
