"""C09: generated services, called through the generated client and back"""
import collections
import json
import os
import random

import common
import gen
import gen_ws
import m1
import model as m
import ws

RULE = ("a case is one call of a generated client function inside a generated program: valid ones go to the "
        "generated server and back, invalid ones (a mutated argument that both its schema and serde refuse, too "
        "many or too few arguments) have to be refused; non-trivial: all calls that take or return something "
        "besides null; distinct by (program, member, arguments, results)")


def prepare(case):
    """bodies that tell the driver about the call and return what it planned"""
    env = m.Env(case["types"])
    keys = {}

    def key(t):
        text = json.dumps(t, sort_keys=True)
        if text not in keys:
            keys[text] = ("t%d" % len(keys), t, mentions_set(t, env, set()))
        return keys[text]

    members = []
    for x in case["members"]:
        n = case["namespaces"][x["ns"]]
        name = m.strip_raw(x["ident"])
        vals = ", ".join("::probe::e2e::val(&%s)" % a[0] for a in x["args"])
        body = "::probe::e2e::called(%s, %s, vec![%s]);\n" % (m.lit(n["name"]), m.lit(name), vals)
        if x["kind"] == "method":
            body += "::probe::e2e::result()"
        elif x["kind"] == "impl":
            body += "::futures::stream::iter(::probe::e2e::items())"
        else:
            body += "::std::boxed::Box::pin(::futures::stream::iter(::probe::e2e::items()))"
        x["body"] = body
        args = [key(a[1]) for a in x["args"]]
        res = key(x["res"]) if x["res"] is not None else ("unit", m.T("unit"), False)
        members.append({"ns": n["name"], "nsi": x["ns"], "name": name, "kind": x["kind"],
                        "args": [{"key": k[0], "set": k[2]} for k in args],
                        "res": {"key": res[0], "set": res[2]}, "typed": typed(res[1], case)})
    return members, list(keys.values())


def mentions_set(t, env, seen):
    for x in m.walk(t):
        if x["k"] == "set":
            return True
        if x["k"] == "ref" and x["id"] not in seen:
            seen.add(x["id"])
            d = env.get(x["id"])
            for y in [f["ty"] for f in m.all_fields(d)] + ([d["from"]["ty"]] if d.get("from") else []):
                if mentions_set(y, env, seen):
                    return True
    return False


def typed(t, case):
    """results are not converted: sets and maps arrive as arrays and objects, None as null (finding)"""
    return case.get("salt") == "known" or not any(
        x["k"] in ("opt", "set", "map", "ref", "phantom") for x in m.walk(t))


def construct(n):
    p = gen_ws.path(n["mod"], n["ident"])
    return {";": p, "{ pub x: u8 }": p + " { x: 1 }"}.get(n["shape"], p + "(1, String::new())")


class Build(ws.WsBuild):
    def write(self, c):
        members, keys = prepare(c)
        src = m1.HEADER + gen_ws.render(c)
        m.PATHS.update({d["id"]: gen_ws.path(d["mod"], d["ident"]) for d in c["types"]})
        try:
            main = "fn main() {\n    let mut t = probe::e2e::Types::default();\n    t.add::<()>(\"unit\");\n"
            for k, t, _ in keys:
                main += "    t.add::<%s>(%s);\n" % (m.render(t), m.lit(k))
        finally:
            m.PATHS.clear()
        main += "    match std::env::args().nth(1).unwrap().as_str() {\n"
        for b in c["backends"]:
            p = gen_ws.path(b["mod"], b["ident"])
            fs = [construct(c["namespaces"][i]) for i in b["ns"]]
            make = "%s { %s }" % (p, ", ".join("f%d: %s" % x for x in enumerate(fs))) if b["named"] \
                else "%s(%s)" % (p, ", ".join(fs))
            main += "        %s => probe::e2e::main(%s, t),\n" % (m.lit(b["ident"]), make)
        src += main + "        _ => panic!(),\n    }\n}\n"
        common.write_if_changed(os.path.join(self.crate, "src", "bin", "w%d.rs" % c["id"]), src)

    def read(self, cid):
        pass


def plan(case, members, backend, n_good, n_bad):
    """calls of every member of the backend, in batches"""
    env = m.Env(case["types"])
    hazard, wide = gen.undef_hazard(case), gen.mentions_wide(case)
    calls = []
    for mi, (mem, x) in enumerate(zip(members, case["members"])):
        if mem["nsi"] not in backend["ns"]:
            continue
        rng = random.Random("%s|%s|%s|%s" % (case["salt"], backend["ident"], mem["ns"], mem["name"]))
        res = x["res"] if x["res"] is not None else m.T("unit")

        def results():
            n = 1 if mem["kind"] == "method" else rng.choice([0, 1, 2, 5])
            return [[m.enc(m.value(res, env, rng, rng.choice([1, 3, 5]))) for _ in range(4)] for _ in range(n)]

        def good():
            return [m.value(a[1], env, rng, rng.choice([1, 3, 5])) for a in x["args"]]

        for k in range(n_good if x["args"] else 2):
            calls.append({"m": mi, "args": [m.enc(v) for v in good()], "results": results(), "bad": None})
        for k in range(n_bad):
            args = good()
            if not args:
                break
            i = rng.randrange(len(args))
            v, op = m.mutate(args[i], rng)
            if wide and m.has(v, m1.beyond_safe):
                continue
            args[i] = v
            calls.append({"m": mi, "args": [m.enc(v) for v in args], "results": results(), "bad": i})
        for extra in (1, -1):
            args = good()
            if extra > 0:
                args.append(rng.choice([1, "x", None]))
            elif args:
                args.pop()
            else:
                continue
            calls.append({"m": mi, "args": [m.enc(v) for v in args], "results": results(), "bad": "arity"})
    rng = random.Random("%s|%s" % (case["salt"], backend["ident"]))
    rng.shuffle(calls)
    batches = []
    while calls:
        n = rng.choice([1, 1, 2, 3, 5])
        batches.append(calls[:n])
        del calls[:n]
    return batches


def tail(members, types):
    """whether the functions have exactly the types of their parameters and results"""
    # any is assignable to everything and from it
    out = "\n;type tail_Same<A, B> = (<T>() => T extends A ? 1 : 2) extends (<T>() => T extends B ? 1 : 2) ? true : false;\n"
    for k, mem in enumerate(members):
        args = "[%s]" % ", ".join(types[a["key"]][1] for a in mem["args"])
        res = "%s<%s>" % ("Promise" if mem["kind"] == "method" else "Store", types[mem["res"]["key"]][1])
        f = "%s.%s" % (mem["ns"], mem["name"])
        of = ["Parameters<typeof %s>[%d], %s" % (f, i, types[a["key"]][1]) for i, a in enumerate(mem["args"])]
        of.append("ReturnType<typeof %s>, %s" % (f, res))
        out += "const tail_%d_c: [%s] = null as any as [%s];" % (
            k, ", ".join("true" for _ in of), ", ".join("tail_Same<%s>" % x for x in of))
        out += "const tail_%d_a: (...args: %s) => %s = %s;" % (k, args, res, f)
        out += "const tail_%d_b: (...args: Parameters<typeof %s>) => ReturnType<typeof %s> = " \
               "null as any as (...args: %s) => %s;\n" % (k, f, f, args, res)
    return out


def drive(ctx, cases, name, count=True, n_good=4, n_bad=4):
    b = Build(ctx, name)
    b.build(cases)
    bad = [m1.Mismatch(c, None, "compile", None, b.failed[c["id"]][:3000]) for c in cases if c["id"] in b.failed]
    jobs = []
    for c in cases:
        if c["id"] in b.failed:
            continue
        members, _ = prepare(c)
        c.setdefault("salt", c["id"])
        pick = c["backends"][:1] + ([c["backends"][1 + c["layout"] % (len(c["backends"]) - 1)]]
                                    if len(c["backends"]) > 1 else [])
        if "plan" in c:
            pick = [x for x in c["backends"] if x["ident"] == c["plan"]["backend"]]
        for bk in pick:
            batches = c["plan"]["batches"] if "plan" in c else plan(c, members, bk, n_good, n_bad)
            if batches:
                jobs.append((c, bk, members, batches))

    def go(job):
        c, bk, members, batches = job
        try:
            return job, common.node("calls.cjs", {"exe": b.exe[c["id"]], "backend": bk["ident"], "members": members,
                                                  "batches": batches, "seed": c["layout"]}, timeout=240)
        except common.HarnessError as e:
            raise common.HarnessError("%s in\n%s" % (e, ws.source(c)[:500]))

    files = []
    for (c, bk, members, batches), r in common.parallel(go, jobs):
        if count:
            for k, v in r["stats"].items():
                ctx.extra.setdefault("calls", collections.Counter())[k] += v
            ctx.evaluations += r["stats"]["valid"] + r["stats"]["refused"] + r["stats"]["arity"]
            for i, k in r.get("made", []):
                call = batches[i][k]
                mem = members[call["m"]]
                if call["args"] or mem["res"]["key"] != "unit":
                    ctx.nontrivial.add(hash((c["salt"], mem["ns"], mem["name"], json.dumps(call))))
            for s in r["samples"]:
                ctx.sample(s)
        for p in r["problems"][:3]:
            x = dict(c, plan={"backend": bk["ident"], "batches": batches})
            bad.append(m1.Mismatch(x, None, p["kind"], None, "%s: %s" % (bk["ident"], p["why"])))
        if not r["problems"]:
            mine = [x for x in members if x["nsi"] in bk["ns"]]
            if mine and all(d["ns"] in bk["ns"] for d in c["types"]):
                files.append((c, bk, {"id": "%d-%s" % (c["id"], bk["ident"]), "text": r["code"], "load": False,
                                      "tail": tail(mine, r["types"])}))
    groups = [files[i::8] for i in range(min(8, len(files)))]
    for g, out in zip(groups, common.parallel(
            lambda g: common.node("module.cjs", {"files": [f for _, _, f in g]}), groups)):
        for (c, bk, f), r in zip(g, out):
            wrong = [d for d in r["tail"] if d[0] in (2322, 2345)]
            if count:
                ctx.evaluations += f["tail"].count("const tail_")
                ctx.extra["signatures"] = ctx.extra.get("signatures", 0) + f["tail"].count("const tail_")
            if wrong:
                bad.append(m1.Mismatch(c, None, "signature", None, "%s: %s\n%s" % (
                    bk["ident"], wrong[0][1], "\n".join(f["tail"].split("\n")[wrong[0][2]:][:1]))))
    return bad


def cases(ctx, n):
    out = []
    for i in range(n):
        rng = random.Random("C09|%s|%d" % (ctx.seed, i))
        c = gen_ws.workspace(rng, i, max_ns=4)
        c["salt"] = "%s|%d" % (ctx.seed, i)
        out.append(c)
    return out


def run(ctx):
    n = 60 if not ctx.thorough() else 320
    ctx.rule = RULE
    ctx.assumptions = ["zod 3, TypeScript's transpiler and Node run the client; the connection is a scripted WebSocket",
                       "what a method gets and returns is compared as the JSON serde makes of it"]
    bad = []
    for k in range(0, n, 80):
        part = cases(ctx, n)[k:k + 80]
        got = drive(ctx, part, "calls", n_good=4 if not ctx.thorough() else 10, n_bad=4 if not ctx.thorough() else 10)
        bad += got
        if os.environ.get("ZOD_DEBUG"):
            for x in got:
                print("DEBUG", x.case["id"], x.kind, x.why[:1500], sep="\n")
        ctx.log("%d programs, %d evaluations, %d mismatches" % (k + len(part), ctx.evaluations, len(got)))
    ctx.extra["programs"] = n
    ctx.extra["calls"] = dict(ctx.extra.get("calls", {}))
    bad += ws.known(ctx, lambda cs: drive(ctx, cs, "known", count=False, n_good=12))
    ws.report(ctx, bad, "Calls", lambda cs, name: drive(ctx, [strip(c) for c in cs], name, count=False))


def strip(c):
    c = dict(c)
    c.pop("plan", None)
    return c


def replay(ctx, data):
    bad = drive(ctx, [dict(data["case"], id=0)], "replay", count=False)
    ws.report(ctx, bad, "Calls", None)
