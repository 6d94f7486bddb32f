"""C07: the generated module; C08: documentation; C17: the registry - over generated programs"""
import collections
import json
import os
import random
import re

import common
import gen_ws
import m1
import model as m
import ws

# ----------------------------------------------------------------------------------------------
# documentation texts

LINES = ["a simple line", "", "  indented", "ends with space  ", "* bullet", "/ slash", "*/", "/* open", "/** doc",
         "a */ b */ c", "**/", "* /", "*\\/", "// line comment", "`code`", "```ts", "${x} `t`", "\"quoted\" 'single'",
         "back\\slash", "{ }", "export const X = 1;", "@ts-ignore", "@deprecated use {@link Y}", "<b>html</b> &amp;",
         "größe 日本 😀", "tab\tinside", "}", "*", "**", "/", "\u2028 separator", "\u200b", "# heading", "1. item",
         "trailing backslash \\", "*/ export namespace Evil { }", "--> <!--", "'use strict'", "z.object({})", "\u00a0nbsp",
         "a" * 300, "word " * 900, "\\u002a/", "*\u200b/", "?>", "]]>", "#!/bin/sh", "import x from 'y'", "\\n", "/* a */"]


def docs(rng):
    """-> (Rust source, lines)"""
    n = rng.choice([1, 1, 2, 3, 5]) if rng.random() < 0.97 else rng.choice([20, 70, 150])
    style = rng.randrange(4)
    if style == 3:  # one block comment
        lines = [rng.choice([x for x in LINES if "*/" not in x and "/*" not in x and not x.endswith("*")
                             and x != "/"] + ["b"]) for _ in range(n)]
        if not lines[0].strip() or lines[0][0] in "*/":
            lines[0] = "first"
        if any(x.strip()[:1] == "*" for x in lines):
            lines = [x.replace("*", "+") for x in lines]
        text = " " + "\n".join(lines) + " "
        return "/**%s*/\n" % text, doc_lines([text])
    lines = [rng.choice(LINES) for _ in range(n)]
    src, vals = "", []
    for i, x in enumerate(lines):
        if style == 0 or style == 2 and rng.random() < 0.5:
            if x.startswith("/"):
                x = " " + x
            pre = rng.choice(["", " "]) if not x.startswith("/") else " "
            src += "///%s%s\n" % (pre, x)
            vals.append(pre + x)
        else:
            if rng.random() < 0.2:
                x = x + "\n" + rng.choice(LINES)
            src += "#[doc = %s]\n" % m.lit(x)
            vals.append(x)
    if style == 2 and rng.random() < 0.5:
        src += "#[doc(alias = \"other\")]\n"
    return src, doc_lines(vals)


def doc_lines(values):
    """what a reader sees: every line without the white space around it, no blank lines at the ends"""
    out = []
    for v in values:
        out += [x.strip() for x in v.strip().split("\n")]  # one attribute's surroundings are not text
    while out and not out[0]:
        out.pop(0)
    while out and not out[-1]:
        out.pop()
    return out


def comment_lines(text):
    """the text of a /** */ comment"""
    if not (text.startswith("/**") and text.endswith("*/")) or len(text) < 5:
        return None
    inner = text[3:-2]
    out = []
    for x in inner.split("\n"):
        x = x.strip()
        if x.startswith("*"):
            x = x[1:]
        out.append(x.strip())
    while out and not out[0]:
        out.pop(0)
    while out and not out[-1]:
        out.pop()
    return out


def plain(line):
    """however the end of a comment is made harmless"""
    if re.search(r"\*\W*/", line):
        return re.sub(r"\\|\s|\u200b|\u200c|\u2060|&#4[27];|[*/]", "", line)
    return line


def same_docs(a, b):
    return a is not None and [plain(x) for x in a] == [plain(x) for x in b]


# ----------------------------------------------------------------------------------------------


def modules(ctx, cases, b, semantic=False, load=True):
    """takes the module of every backend apart -> {(case id, backend): structure}"""
    files = []
    for c in cases:
        for bk in c["backends"]:
            r = b.extra[c["id"]]["backends"][bk["ident"]]
            f = {"id": "%d-%s" % (c["id"], bk["ident"]), "text": r["code"], "load": load,
                 "semantic": semantic and bk["ident"] == "BackendAll", "types": [], "exprs": []}
            for d in c["types"]:
                i = b.info["%s|%s" % (c["id"], d["id"])]
                f["types"].append(i["type_def"])
                f["exprs"].append(i["schema"])
            files.append(f)
    out = {}
    groups = [files[i::16] for i in range(min(16, len(files)))]
    for part in common.parallel(lambda g: common.node("module.cjs", {"files": g}), groups):
        for r in part:
            cid, _, name = r["id"].partition("-")
            out[int(cid), name] = r
    return out


def namespaces(r):
    """members of the namespaces of a module, blocks of one name merged"""
    out = collections.defaultdict(list)
    for t in r["top"]:
        if t["kind"] == "namespace":
            out[t["name"]] += t["members"] if t["exported"] else []
    return out


class Judge:
    def __init__(self, ctx, case, count):
        self.ctx, self.case, self.count, self.bad = ctx, case, count, []

    def expect(self, ok, kind, why, key=None):
        if self.count:
            self.ctx.evaluations += 1
            if key is not None:
                self.ctx.nontrivial.add(hash(key))
        if not ok:
            self.bad.append(m1.Mismatch(self.case, None, kind, None, why() if callable(why) else why))
        return ok


def multiset(xs):
    return sorted(xs)


def diff(want, got):
    a, b = collections.Counter(want), collections.Counter(got)
    return "missing %s, not expected %s" % (sorted((a - b).elements()), sorted((b - a).elements()))


UNRESOLVED = {2304, 2503, 2694, 2305, 2552, 2724, 2307}
DUPLICATE = {2300, 2451, 2393, 2528, 2440, 2567}


def judge_module(ctx, c, b, mods, count):
    """C07"""
    j = Judge(ctx, c, count)
    x = b.extra[c["id"]]
    pre = x["preamble"].strip()
    for bk in c["backends"]:
        r = mods[c["id"], bk["ident"]]
        g = x["backends"][bk["ident"]]
        name = bk["ident"]
        key = (g["code"],)
        if not j.expect(not r["syntax"], "syntax", "%s: not well-formed TypeScript: %s" % (name, r["syntax"][:3])):
            continue
        j.expect(r["loadError"] is None, "load", "%s: does not load: %s" % (name, r["loadError"]))
        j.expect(g["code"].count(pre) == 1, "preamble",
                 "%s: the client preamble appears %d times" % (name, g["code"].count(pre)))
        j.expect(squash(g["code"].replace(pre, OTHER_CLIENT)) == squash(g["other_client"]), "preamble",
                 "%s: with another client more than the preamble changes" % name)
        j.expect(g["code"] == g["again"] == g["with_options"]
                 == x["second_run"]["backends"][name]["code"], "again",
                 "%s: generating again yields another text" % name)
        want_ns = {c["namespaces"][i]["name"]: i for i in bk["ns"]}
        have = namespaces(r)
        extra = [n for n in have if n not in want_ns]
        j.expect(not extra, "foreign", "%s: namespaces %s are not part of the backend" % (name, extra))
        for n, i in want_ns.items():
            types, members = ws.declared(c, i)
            got = collections.defaultdict(list)
            for t in have.get(n, []):
                if t["exported"]:
                    got[{"interface": "type"}.get(t["kind"], t["kind"])].append(t)
            for kind, want in (("const", types), ("type", types), ("function", members)):
                names = [t["name"] for t in got[kind]]
                j.expect(multiset(names) == multiset(want), "exact",
                         lambda: "%s: exported %ss of namespace %s: %s" % (name, kind, n, diff(want, names)),
                         key + (n, kind) if want else None)
            others = [(t["kind"], t["name"]) for k in got if k not in ("const", "type", "function") for t in got[k]]
            j.expect(not others, "exact", "%s: namespace %s also exports %s" % (name, n, others))
            by = {(t["kind"] if t["kind"] != "interface" else "type", t["name"]): t for ts in got.values() for t in ts}
            for k, d in enumerate(c["types"]):
                if d["ns"] != i:
                    continue
                e = m.exported(d)
                for kind, text in (("const", r["exprs"][k]), ("type", r["types"][k])):
                    t = by.get((kind, e))
                    if t is not None:
                        j.expect(squash(t["init"]) == squash(text), "content",
                                 lambda: "%s: the %s %s.%s is %s and not that of the type, %s"
                                 % (name, kind, n, e, t["init"], text), (kind, text))
            for y in c["members"]:
                if y["ns"] != i:
                    continue
                t = by.get(("function", m.strip_raw(y["ident"])))
                if t is not None:
                    j.expect(t["params"] == len(y["args"]), "signature",
                             lambda: "%s: %s.%s takes %d parameters instead of %d"
                             % (name, n, t["name"], t["params"], len(y["args"])), (n, t["text"]))
                    kind = "Promise" if y["kind"] == "method" else "Store"
                    j.expect((t["result"] or "").startswith(kind + "<"), "signature",
                             lambda: "%s: %s.%s returns %s, not a %s" % (name, n, t["name"], t["result"], kind))
            if r["loadError"] is None:
                loaded = r["loaded"].get(n, {})
                wrong = [k for k in types if loaded.get(k) != "schema"] + \
                    [k for k in members if loaded.get(k) != "function"]
                j.expect(not wrong, "load", "%s: %s of namespace %s are not there after loading" % (name, wrong, n))
        if name == "BackendAll":
            # names that could not be resolved, if all namespaces that are referred to are there
            inside = set(bk["ns"])
            if all(d["ns"] in inside for d in c["types"]):
                dangling = [s for s in r["semantic"] if s[0] in UNRESOLVED]
                j.expect(not dangling, "dangling", "%s: %s" % (name, dangling[:3]))
            dup = [s for s in r["semantic"] if s[0] in DUPLICATE]
            j.expect(not dup, "duplicate", "%s: %s" % (name, dup[:3]))
    return j.bad


# as in the probe
OTHER_CLIENT = "/* {} another client */\nexport const z = 1;\n"


def squash(s):
    return re.sub(r"[\s;,]+", "", s or "")


def judge_registry(ctx, c, b, mods, count):
    """C17"""
    j = Judge(ctx, c, count)
    x = b.extra[c["id"]]

    def want_types(i):
        out = []
        for d in c["types"]:
            if d["ns"] == i:
                p = b.info["%s|%s" % (c["id"], d["id"])]
                out.append(json.dumps([c["namespaces"][i]["name"], m.exported(d), p["schema"], p["type_def"], p["kind"]]))
        return out

    def got_types(ds):
        return [json.dumps([d["ns"], d["name"], d["schema"], d["type_def"], d["kind"]]) for d in ds]

    def member_names(decls):
        out = []
        for t in decls:
            out += re.findall(r"export\s+(?:async\s+)?function\s+([^\s(<]+)", t)
        return out

    every = {}
    for i, n in enumerate(c["namespaces"]):
        if want_types(i):
            every[n["name"]] = want_types(i)
        p = gen_ws.path(n["mod"], n["ident"])
        got = x["namespaces"][p]
        j.expect(got["name"] == n["name"], "name", "%s is called %s instead of %s" % (p, got["name"], n["name"]))
        names = got_types(got["members"])
        j.expect(multiset(names) == multiset(want_types(i)), "members",
                 lambda: "members of %s: %s" % (n["name"], diff(want_types(i), names)),
                 ("members", json.dumps(names)) if names else None)
        if n["service"]:
            _, members = ws.declared(c, i)
            got = x["services"][p]
            j.expect(all(y[0] == n["name"] for y in got), "rpc", "a member of %s belongs to another namespace" % n["name"])
            names = member_names(y[1] for y in got)
            j.expect(multiset(names) == multiset(members), "rpc",
                     lambda: "service members of %s: %s" % (n["name"], diff(members, names)),
                     ("rpc", json.dumps(got)) if names else None)
    got = {k: got_types(v) for k, v in x["collect"].items() if v}
    j.expect(sorted(got) == sorted(every) and all(multiset(got[k]) == multiset(every[k]) for k in every), "collect",
             lambda: "all definitions: " + "; ".join(
                 "%s: %s" % (k, diff(every.get(k, []), got.get(k, []))) for k in sorted(set(got) | set(every))
                 if multiset(got.get(k, [])) != multiset(every.get(k, []))), ("collect", json.dumps(got)))
    for bk in c["backends"]:
        g = x["backends"][bk["ident"]]
        mine = [c["namespaces"][i]["name"] for i in bk["ns"]]
        j.expect(multiset(g["ns_names"]) == multiset(mine), "backend",
                 "%s: namespaces %s instead of %s" % (bk["ident"], g["ns_names"], mine))
        got = {k: got_types(v) for k, v in g["zod_namespaces"].items() if v}
        want = {k: v for k, v in every.items() if k in mine}
        j.expect(sorted(got) == sorted(want) and all(multiset(got[k]) == multiset(want[k]) for k in want), "backend",
                 lambda: "types of %s: %s" % (bk["ident"], "; ".join(
                     "%s: %s" % (k, diff(want.get(k, []), got.get(k, []))) for k in sorted(set(got) | set(want))
                     if multiset(got.get(k, [])) != multiset(want.get(k, [])))),
                 ("backend", json.dumps(got)))
        got = {k: multiset(member_names(v)) for k, v in g["rpc_members"].items() if v}
        want = {c["namespaces"][i]["name"]: multiset(ws.declared(c, i)[1]) for i in bk["ns"] if ws.declared(c, i)[1]}
        j.expect(got == want, "backend", "service members of %s: %s instead of %s" % (bk["ident"], got, want),
                 ("rpc", json.dumps(g["rpc_members"])) if want else None)
    return j.bad


def judge_docs(ctx, c, twin, b, bt, mods, twins, count):
    """C08; twin: the same program without documentation"""
    j = Judge(ctx, c, count)
    for d in c["types"]:
        got = b.info["%s|%s" % (c["id"], d["id"])]["docs"] or ""
        want = d.get("docs_lines") or []
        lines = comment_lines(got.strip()) if got else []
        j.expect(same_docs(lines, want), "accessor", lambda: "docs() of %s: %r is not what was written: %r"
                 % (m.exported(d), got, want), (tuple(want), d["kind"]) if want else None)
    for bk in c["backends"]:
        name = bk["ident"]
        r, rt = mods[c["id"], name], twins[c["id"], name]
        if not j.expect(not r["syntax"], "syntax", "%s: not well-formed: %s" % (name, r["syntax"][:3])):
            continue
        code = b.extra[c["id"]]["backends"][name]["code"]
        j.expect(structure(r) == structure(rt), "other", lambda: "%s: documentation changes the module: %s"
                 % (name, first_difference(structure(r), structure(rt))), code)
        have = namespaces(r)
        n_docs = 0
        for i in bk["ns"]:
            n = c["namespaces"][i]["name"]
            want = {m.exported(d): d.get("docs_lines") or [] for d in c["types"] if d["ns"] == i}
            for t in have.get(n, []):
                blocks = [y for y in t["comments"] if y["block"]]
                w = want.get(t["name"], []) if t["kind"] in ("const", "interface", "type") else []
                if not w:
                    j.expect(not blocks, "attached", lambda: "%s: %s %s.%s has documentation it should not have: %s"
                             % (name, t["kind"], n, t["name"], blocks))
                    continue
                n_docs += 1
                ok = len(blocks) == 1 and blocks[0]["attached"] and t["comments"][-1]["block"] \
                    and same_docs(comment_lines(blocks[0]["text"]), w)
                j.expect(ok, "attached", lambda: "%s: the documentation of %s %s.%s, %r, became %s"
                         % (name, t["kind"], n, t["name"], w, t["comments"]), (tuple(w), t["kind"]))
        j.expect(len(r["blockComments"]) - len(rt["blockComments"]) == n_docs, "elsewhere",
                 lambda: "%s: there are %d comments for %d documented statements: %s"
                 % (name, len(r["blockComments"]) - len(rt["blockComments"]), n_docs, r["blockComments"][:8]))
    return j.bad


def structure(r):
    out = collections.Counter()
    for t in r["top"]:
        if t["kind"] == "namespace":
            for y in t["members"]:
                out[t["name"], y["kind"], y["name"], y["exported"], y["text"]] += 1
        else:
            out["", t["kind"], t["name"], t["exported"], t["text"]] += 1
    return out


def first_difference(a, b):
    x, y = list((a - b).elements()), list((b - a).elements())
    return "%s instead of %s" % (x[:1], y[:1])


# ----------------------------------------------------------------------------------------------


def run_cases(ctx, cases, name="ws", count=True):
    b, live, bad = ws.build(ctx, cases, name)
    if ctx.prop == "C08":
        twins = [gen_ws.without_docs(c) for c in live]
        bt, live_t, bad_t = ws.build(ctx, twins, name + "-twin")
        bad += bad_t
        ids = {c["id"] for c in live_t}
        live = [c for c in live if c["id"] in ids]
        mods, tmods = modules(ctx, live, b, load=False), modules(ctx, live_t, bt, load=False)
        for c in live:
            bad += judge_docs(ctx, c, None, b, bt, mods, tmods, count)
    elif ctx.prop == "C17":
        for c in live:
            bad += judge_registry(ctx, c, b, None, count)
    else:
        mods = modules(ctx, live, b, semantic=True)
        if live:
            # what every module starts with has no errors of its own (whatever tsc is told about null and any)
            r = common.node("module.cjs", {"lax": True, "files": [
                {"id": "preamble", "text": b.extra[live[0]["id"]]["preamble"], "semantic": True}]})[0]
            j = Judge(ctx, live[0], count)
            j.expect(not r["syntax"] and not r["semantic"], "preamble",
                     lambda: "errors in the preamble: %s" % (r["syntax"] + r["semantic"])[:3])
            bad += j.bad
        for c in live:
            bad += judge_module(ctx, c, b, mods, count)
    return bad, b


RULES = {
    "C07": "a case is one assertion about one module generated for one backend of a generated program; non-trivial: "
           "it is about a namespace with declarations, or about one declaration; distinct by (module, namespace, kind) "
           "or declaration text",
    "C08": "a case is one assertion about the documentation of one type or about one module; non-trivial: there is "
           "documentation; distinct by (documentation, kind of statement) or module text",
    "C17": "a case is one listing of a generated program compared with its declarations; non-trivial: the listing is "
           "not empty; distinct by content",
}
TITLES = {"C07": "Generated module", "C08": "Documentation", "C17": "Registry"}


def run(ctx):
    n = {"C07": 64, "C08": 48, "C17": 64}[ctx.prop] * (5 if ctx.thorough() else 1)
    cases = []
    for i in range(n):
        rng = random.Random("%s|%s|%d" % (ctx.prop, ctx.seed, i))
        cases.append(gen_ws.workspace(rng, i, docs if ctx.prop == "C08" else None, large=i % 32 == 3))
    ctx.rule = RULES[ctx.prop]
    ctx.assumptions = ["names that collide in TypeScript (with each other, a namespace, z or a global) are not generated"]
    bad = []
    for k in range(0, n, 64):
        got, b = run_cases(ctx, cases[k:k + 64])
        bad += got
        if os.environ.get("ZOD_DEBUG"):
            for x in got:
                print("DEBUG", x.case["id"], x.kind, x.why[:900], sep="\n")
        ctx.log("%d programs, %d assertions, %d mismatches" % (min(n, k + 64), ctx.evaluations, len(got)))
    if ctx.prop == "C07":
        bad += ws.known(ctx, lambda cs: run_cases(ctx, cs, "known", False)[0])
    for c in cases[::max(1, n // 5)]:
        ctx.sample(ws.source(c)[:900])
    ctx.extra["programs"] = n
    ctx.extra["types"] = sum(len(c["types"]) for c in cases)
    ctx.extra["service members"] = sum(len(c["members"]) for c in cases)
    ctx.extra["backends"] = sum(len(c["backends"]) for c in cases)
    ws.report(ctx, bad, TITLES[ctx.prop], lambda cs, name: run_cases(ctx, cs, name, False)[0])


def replay(ctx, data):
    bad, _ = run_cases(ctx, [dict(data["case"], id=0)])
    ws.report(ctx, bad, TITLES[ctx.prop], None)
