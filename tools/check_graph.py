"""C06: references between named types - lazy, by qualified name, in any graph"""
import collections
import os
import random

import check_types
import common
import gen
import m1
import model as m

DEEP = [6, 12, 25, 60, 150]


def make(ctx, i):
    rng = random.Random("%s|%s|%d" % (ctx.prop, ctx.seed, i))
    if i % 40 == 39:
        c = gen.doubling_case(rng, i, rng.choice([8, 16, 26, 40]))
    else:
        c = gen.graph_case(rng, i)
    c["style"] = rng.randrange(3)
    deepen(c)
    return c


def deepen(c):
    """how deep values may get: what zod does with untagged unions grows exponentially"""
    untagged = any(d["kind"] == "enum" and d["tag"]["mode"] == "untagged" for d in c["types"])
    c["deep"] = [3, 6] if untagged else DEEP
    return c


def markers(ctx, cases, b, tag, n_values, count=True):
    """each definition on its own: where it uses a named type, exactly that name stands"""
    work = []
    for c in cases:
        if c["id"] in b.failed or str(c["id"]) in b.crashed:
            continue
        env = m.Env(c["types"])
        rng = random.Random("%s|%s|m%s" % (ctx.seed, tag, c["id"]))
        exprs, types, vals = [], [], []
        m.MARKERS = m.OPTIONAL_AS_UNDEFINED = True
        try:
            for pid, t in m1.probes_of(c):
                info = b.info[pid]
                named = t["k"] == "ref"
                d = env.get(t["id"]) if named else None
                # the definition of a pointer to a type is that of the type
                forms = [(info["schema"], info["type_def"], False)] if named else []
                forms.append((info["inline_schema"], info["inline"], named))
                for sch, ty, by_name in forms:
                    exprs.append(sch)
                    types.append(ty)
                    for k in range(1 if by_name else n_values):
                        if by_name:
                            v = m.value(t, env, rng, 3)
                        elif named:
                            v = m.def_value(d, env, rng, rng.choice([1, 3, 5]))
                        else:
                            v = m.value(t, env, rng, rng.choice([3, 5]))
                        vals.append((len(exprs) - 1, pid, v, t))
        finally:
            m.MARKERS = m.OPTIONAL_AS_UNDEFINED = False
        work.append((c, env, exprs, types, vals))

    def evaluate(group):
        out = []
        for shim in (False, True):
            part = [w for w in group if gen.uses_flatten(w[0]) == shim]
            if part:
                out += common.node("eval.cjs", {"shim": shim, "markers": True, "lazy": True, "cases": [
                    {"id": c["id"], "ns": m1.namespaces_of(c, b.info), "exprs": ex,
                     "values": [[i, m.enc(v)] for i, _, v, _ in vals]} for c, _, ex, _, vals in part]})
        return out

    bad = []
    res = {}
    groups = [work[i:i + 40] for i in range(0, len(work), 40)]
    for part in common.parallel(evaluate, groups):
        for r in part:
            res[r["id"]] = r
    files, meta = [], {}
    for c, env, exprs, types, vals in work:
        r = res[c["id"]]
        if r["errors"]:
            w, e, text = r["errors"][0]
            kind = "eager" if "looked at" in e else "eval"
            bad.append(m1.Mismatch(c, None, kind, None, "%s: %s\n%s" % (w, e, text)))
            continue
        lines = (check_types.HELPERS + "".join(
            "export namespace %s {\n%s\n}\n" % (n, "\n".join(
                "export type %s = {%s: 1};" % (t, m.lit("ref:%s.%s" % (n, t))) for t in sorted(ts)))
            for n, ts in sorted(m1.namespaces_of(c, b.info).items()))).split("\n")
        where = {}
        for k, ((i, pid, v, t), (acc, js, parsed, known)) in enumerate(zip(vals, r["results"])):
            if count:
                ctx.evaluations += 1
                if "ref:" in js:
                    ctx.nontrivial.add(hash((exprs[i], js)))
            if acc is not True:
                bad.append(m1.Mismatch(c, pid, "reference", None,
                                       "with every named type replaced by its name, %s does not take %s: %s"
                                       % (exprs[i], js, parsed)))
                continue
            if not known and not m.has_untagged(t, env):
                bad.append(m1.Mismatch(c, pid, "reference", None,
                                       "with every named type replaced by its name, %s makes %s of %s"
                                       % (exprs[i], parsed, js)))
            forms = [m.js_src(v)]
            if m.has(v, lambda x: isinstance(x, (m.JMap, m.JSet))):
                forms += [m.js_src(v, "1"), m.js_src(v, "2")]
            for j, text in enumerate(forms):
                where[len(lines)] = (k, pid, v, types[i])
                lines.append("export const v%d_%d: %s = %s;" % (k, j, " ".join(types[i].split("\n")), text))
        files.append({"id": c["id"], "text": "\n".join(lines) + "\n"})
        meta[c["id"]] = (c, where)
    diags = {}
    groups = [files[i:i + 40] for i in range(0, len(files), 40)]
    for part in common.parallel(lambda g: common.node("tscheck.cjs", {"files": g}), groups):
        for d in part:
            diags[d["id"]] = d["diags"]
    for cid, (c, where) in meta.items():
        err = collections.defaultdict(list)
        for line, code, msg, syn in diags[cid]:
            err[line].append((code, msg))
            if line not in where:
                bad.append(m1.Mismatch(c, None, "reference", None, "TS%d %s" % (code, msg)))
        forms = collections.defaultdict(list)
        for line, x in where.items():
            forms[x[0]].append(line)
        for ls in forms.values():
            if count:
                ctx.evaluations += 1
            if all(err[x] for x in ls):
                k, pid, v, ty = where[ls[0]]
                bad.append(m1.Mismatch(c, pid, "type-reference", None,
                                       "with every named type replaced by its name, %s is not assignable to %s: TS%d %s"
                                       % ((m.js_src(v), ty) + err[ls[0]][0])))
    return bad


def run_graph(ctx, cases, tag, n_pos, n_mut, name="probe", count=True):
    b = m1.Build(ctx, name)
    b.build(cases)
    bad, stats, _ = m1.run_cases(ctx, cases, tag, n_pos, n_mut, count=count, b=b)
    if os.environ.get("ZOD_TIME"):
        ctx.log("schema done")
    broken = {x.case["id"] for x in bad if x.kind in ("compile", "crash", "eval")}
    rest = [c for c in cases if c["id"] not in broken and c["id"] in b.where]
    got = markers(ctx, rest, b, tag, max(4, n_pos // 2), count)
    bad += got
    if os.environ.get("ZOD_TIME"):
        ctx.log("markers done")
    light = [dict(c, deep=[2, 4] if 3 in c["deep"] else [4, 10]) for c in rest]
    got, st, _ = check_types.run_types(ctx, light, tag, max(4, n_pos // 2), n_mut // 3, count=count, b=b)
    bad += got
    stats = collections.Counter(stats)
    stats.update(st)
    return bad, stats, b


def run(ctx):
    n = 1600 if ctx.thorough() else 400
    n_pos, n_mut = (24, 40) if ctx.thorough() else (12, 15)
    cases = [make(ctx, i) for i in range(n)]
    ctx.rule = ("a case is one value put to a generated schema, or one assignment put to the TypeScript "
                "compiler, for a type out of a generated graph of named types; either whole values, also nested "
                "deeper than 100 levels, against serde, or values in which each named type is replaced by an "
                "object that only the qualified name can accept; non-trivial: the value goes through a named "
                "type; distinct by (schema or type text, value)")
    ctx.assumptions = ["named types that are only aliases of each other in a circle are not generated",
                       "generating one type may take 60 s and 4 GB at most"]
    bad, stats = [], collections.Counter()
    for k in range(0, len(cases), 400):
        got, st, b = run_graph(ctx, cases[k:k + 400], "v", n_pos, n_mut)
        bad += got
        stats += st
        if os.environ.get("ZOD_DEBUG"):
            for x in got:
                print("DEBUG", x.kind, x.pid, x.why[:900], m1.source(x.case)[:2500], sep="\n")
        ctx.log("%d graphs, %d evaluations, %d mismatches" % (k + 400, ctx.evaluations, len(got)))
    for c in cases[::40]:
        ctx.sample(m1.source(c)[:700])
    ctx.extra["verdicts"] = dict(stats)
    ctx.extra["graphs"] = n
    ctx.extra["largest text"] = max((len(i["schema"]) for i in b.info.values()), default=0)
    m1.report(ctx, bad, "Type graphs", shrinker=shrinker)


def shrinker(ctx, bad):
    return m1.shrink(ctx, bad, runner=lambda cs, tag, name: run_graph(
        ctx, [deepen(c) for c in cs], tag, 20, 20, name, False))


def replay(ctx, data):
    c = deepen(dict(data["case"], id=0))
    bad, _, _ = run_graph(ctx, [c], "replay", 40, 40)
    m1.report(ctx, bad, "Type graphs", shrinker=None)
