"""C04: TypeScript types against what the schemas accept (compiler as oracle, value by value)"""
import collections
import json
import os
import random

import common
import gen
import m1
import model as m

HELPERS = """declare function MAP1<M>(e: M extends Map<infer K, infer V> ? [K, V][] : never): M;
declare function SET1<M>(e: M extends Set<infer V> ? V[] : never): M;
declare function MAP2<K, V>(e: NoInfer<[K, V]>[]): Map<K, V>;
declare function SET2<V>(e: NoInfer<V>[]): Set<V>;
export {};
"""
MAKERS = [gen.builtin_case, gen.struct_case, gen.enum_case]


def has_nan(v):
    return isinstance(v, m.JNum)


def soundness_gap(case):
    """places where TypeScript itself accepts more than the type says"""
    for d in case["types"]:
        holders = [d] if d["kind"] == "struct" else d["variants"]
        for h in holders:
            if h["shape"] == "named" and not [f for f in h["fields"] if not m.skipped(f)]:
                if d["kind"] == "struct" or d["tag"]["mode"] in ("untagged", "external", "adjacent"):
                    return True  # {} is the type of everything that is not null
            keys = []
            if h["shape"] == "named":
                keys = [m.field_key(f, h.get("rename_all")) for f in h["fields"]]
            if any(k.isdigit() for k in keys):
                return True  # an array literal has those members
        if d["kind"] == "enum":
            if any(d["tag"].get(k, "").isdigit() for k in ("tag", "content")):
                return True
            if any(m.variant_key(d, v).isdigit() for v in d["variants"]):
                return True
    return False


def decls(case, info):
    by = collections.defaultdict(list)
    for d in case["types"]:
        i = info["%s|%s" % (case["id"], d["id"])]
        by[m1.NS_EXPORT[d["ns"]]].append(
            "export interface %s %s" % (m.exported(d), i["type_def"]) if i["kind"] == "interface"
            else "export type %s = %s;" % (m.exported(d), i["type_def"]))
    return "".join("export namespace %s {\n%s\n}\n" % (n, "\n".join(by[n])) for n in sorted(by))


def run_types(ctx, cases, tag, n_pos, n_mut, name="probe", count=True, chunk=40, b=None):
    if b is None:
        b = m1.Build(ctx, name)
        b.build(cases)
    bad, live = [], []
    illegal = m1.without_zod(ctx, [c for c in cases if c["id"] in b.failed])
    for c in cases:
        if c["id"] in illegal:
            continue
        if c["id"] in b.failed:
            bad.append(m1.Mismatch(c, None, "compile", None, b.failed[c["id"]][:3000]))
        elif str(c["id"]) in b.crashed:
            pid, err = b.crashed[str(c["id"])]
            bad.append(m1.Mismatch(c, pid, "crash", None, "generating %s crashed: %s" % (pid, err)))
        else:
            live.append(c)
    work = {}
    m.OPTIONAL_AS_UNDEFINED = True
    try:
        for c in live:
            env = m.Env(c["types"])
            rng = random.Random("%s|%s|%s" % (ctx.seed, tag, c["id"]))
            exprs, pos, neg = [], [], []
            gap = soundness_gap(c)
            for pid, t in m1.probes_of(c):
                i = len(exprs)
                exprs.append(b.info[pid]["schema"])
                cands = c.get("values_%s" % pid)
                if cands is None:
                    cands = m1.candidates(c, t, env, rng, n_pos, n_mut)
                for v, op in cands:
                    if op is None:
                        pos.append((i, pid, v))
                    elif not gap and not m.has(v, has_nan):
                        neg.append((i, pid, v))
            work[c["id"]] = (c, exprs, pos, neg)
    finally:
        m.OPTIONAL_AS_UNDEFINED = False

    def evaluate(group):
        verdicts = {}
        for relaxed in (False, True):
            for shim in (False, True):
                part = [w for w in group if gen.uses_flatten(w[0]) == shim]
                if not part:
                    continue
                for r in common.node("eval.cjs", {"shim": shim, "relaxed": relaxed, "cases": [
                        {"id": c["id"], "ns": m1.namespaces_of(c, b.info), "exprs": ex,
                         "values": [[i, m.enc(v)] for i, _, v in (neg if relaxed else pos)]}
                        for c, ex, pos, neg in part]}):
                    verdicts[r["id"], relaxed] = r
        files, meta = [], {}
        for c, ex, pos, neg in group:
            if verdicts[c["id"], False]["errors"]:
                meta[c["id"]] = None  # the schema is C01-C03's business
                continue
            lines = (HELPERS + decls(c, b.info)).split("\n")
            where = {}
            n = 0
            for relaxed, vals in ((False, pos), (True, neg)):
                for (i, pid, v), r in zip(vals, verdicts[c["id"], relaxed]["results"]):
                    if r[0] is not (not relaxed):
                        continue
                    n += 1
                    info = b.info[pid]
                    ty = info["inline"]
                    if "#" in pid and n % 2:
                        ty = info["type_def"]
                    ty = " ".join(ty.split("\n"))
                    # TypeScript infers the types of new Map([..]) from its content, which fails for
                    # unions; the contextual forms fail where several kinds of things could stand
                    forms = [m.js_src(v)]
                    if m.has(v, lambda x: isinstance(x, (m.JMap, m.JSet))):
                        forms += [m.js_src(v, "1"), m.js_src(v, "2"), m.js_src(v, "3")]
                    for k, text in enumerate(forms):
                        where[len(lines)] = (pid, v, not relaxed, ty, n)
                        lines.append("export const v%d_%d: %s = %s;" % (n, k, ty, text))
            files.append({"id": c["id"], "text": "\n".join(lines) + "\n"})
            meta[c["id"]] = (where, len(lines))
        diags = {d["id"]: d["diags"] for d in common.node("tscheck.cjs", {"files": files})}
        return meta, diags

    items = list(work.values())
    groups = [items[i:i + chunk] for i in range(0, len(items), chunk)]
    stats = collections.Counter()
    for meta, diags in common.parallel(evaluate, groups):
        for cid, mt in meta.items():
            c = work[cid][0]
            if mt is None:
                stats["cases whose schema does not evaluate (not judged here)"] += 1
                continue
            where, n = mt
            err = collections.defaultdict(list)
            decl_errors = []
            for line, code, msg, syn in diags[cid]:
                if line in where and not syn:
                    err[line].append((code, msg))
                elif line not in where:
                    decl_errors.append((code, msg))
                else:
                    decl_errors.append((code, "in the use of the type: " + msg))
            if decl_errors:
                bad.append(m1.Mismatch(c, None, "invalid", None, "the type is not valid TypeScript: TS%d %s\n%s"
                                       % (decl_errors[0] + (decls(c, b.info),))))
                continue
            forms = collections.defaultdict(list)
            for line, (_, _, _, _, n) in where.items():
                forms[n].append(line)
            for line, (pid, v, positive, ty, n) in where.items():
                if line != forms[n][0]:
                    continue
                failed = [x for x in forms[n] if err[x]]
                if count:
                    ctx.evaluations += 1
                    if not ty in ("number", "string", "boolean", "null"):
                        ctx.nontrivial.add(hash((b.info[pid]["type_def"], m.js_src(v), positive)))
                stats["accepted values" if positive else "values of the wrong shape"] += 1
                if positive and len(failed) == len(forms[n]):
                    bad.append(m1.Mismatch(c, pid, "unassignable", v,
                                           "the schema accepts %s but it is not assignable to %s = %s: TS%d %s"
                                           % (m.js_src(v), ty, b.info[pid]["type_def"], err[line][0][0], err[line][0][1])))
                if not positive and not failed:
                    bad.append(m1.Mismatch(c, pid, "assignable", v,
                                           "the shape of %s is not what the schema describes but it is assignable to %s = %s"
                                           % (m.js_src(v), ty, b.info[pid]["type_def"])))
    return bad, stats, b


def run(ctx):
    n = 2400 if ctx.thorough() else 720
    n_pos, n_mut = (16, 50) if ctx.thorough() else (8, 24)
    cases = []
    for i in range(n):
        rng = random.Random("%s|%s|%d" % (ctx.prop, ctx.seed, i))
        c = MAKERS[i % 3](rng, i)
        c["style"] = rng.randrange(3)
        cases.append(c)
    import check_schema
    for t in check_schema.fixed_types():
        cases.append({"id": len(cases), "types": [], "roots": [t], "style": 0})
    ctx.rule = ("a case is one assignment checked by the TypeScript compiler: a canonical value the schema "
                "accepts, which must type-check, or a mutant the schema rejects for its shape (zod without "
                "its range and format checks), which must not; non-trivial: the type is not a bare "
                "number, string, boolean or null; distinct by (type text, value, expectation)")
    ctx.assumptions = ["TypeScript compiler with strict, lib es2022", "an absent Option member is spelled undefined"]
    bad, stats = [], collections.Counter()
    for k in range(0, len(cases), 500):
        got, st, b = run_types(ctx, cases[k:k + 500], "v", n_pos, n_mut)
        bad += got
        stats += st
        if os.environ.get("ZOD_DEBUG"):
            for x in got:
                print("DEBUG", x.kind, x.pid, x.why[:900], m1.source(x.case)[:1500], sep="\n")
        ctx.log("%d types, %d evaluations, %d mismatches" % (k + 500, ctx.evaluations, len(got)))
    for c in cases[::90]:
        ctx.sample(m1.source(c)[:600])
    ctx.extra["verdicts"] = dict(stats)
    m1.report(ctx, bad, "TypeScript types", shrinker=shrinker)


def shrinker(ctx, bad):
    return m1.shrink(ctx, bad, runner=lambda cs, tag, name: run_types(ctx, cs, tag, 20, 40, name, False))


def replay(ctx, data):
    c = dict(data["case"], id=0)
    if data.get("value") is not None:
        pid = "0|" + data["probe"].split("|", 1)[1]
        c["values_" + pid] = [(m.dec(data["value"]), None), (m.dec(data["value"]), "replay")]
    bad, _, _ = run_types(ctx, [c], "replay", 20, 40)
    m1.report(ctx, bad, "TypeScript types", shrinker=None)
