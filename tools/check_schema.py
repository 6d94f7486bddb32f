"""C01, C02, C03: schema (as zod understands it) against serde, for generated types"""
import os
import random

import common
import gen
import m1
import model as m

CASES = {
    "C01": (gen.builtin_case, 700, 3000, "Built-in types"),
    "C02": (gen.struct_case, 1000, 4000, "Derived structs"),
    "C03": (gen.enum_case, 1000, 4000, "Derived enums"),
}


def run(ctx):
    make, quick, thorough, title = CASES[ctx.prop]
    n = thorough if ctx.thorough() else quick
    cases = []
    for i in range(n):
        rng = random.Random("%s|%s|%d" % (ctx.prop, ctx.seed, i))
        c = make(rng, i)
        c["style"] = rng.randrange(3)
        cases.append(c)
    if ctx.prop == "C01":
        for t in fixed_types():
            cases.append({"id": len(cases), "types": [], "roots": [t], "style": 0})
    feats = {}
    for c in cases:
        for f in gen.features(c):
            feats[f] = feats.get(f, 0) + 1
    ctx.rule = ("a case is one (type, JavaScript value) pair: canonical values of generated types and "
                "structural mutants of them, put to zod through the generated schema text and to "
                "serde_json as JSON; non-trivial: the type is not a bare bool, string, unit or float; "
                "distinct by (schema text, JSON)")
    ctx.assumptions = ["zod 3 semantics as in zod/v3 of the installed package",
                       "serde_json %s decides what the wire format is" % "1.x"]
    n_pos, n_mut = (14, 34) if not ctx.thorough() else (30, 90)
    if ctx.prop == "C01":
        n_pos, n_mut = n_pos * 2, n_mut * 2
    chunk = 500
    bad = []
    stats = {}
    for k in range(0, len(cases), chunk):
        got, st, b = m1.run_cases(ctx, cases[k:k + chunk], "v", n_pos, n_mut)
        bad += got
        for a, x in st.items():
            stats[a] = stats.get(a, 0) + x
        if os.environ.get("ZOD_DEBUG"):
            for x in got:
                print("DEBUG", x.kind, x.pid, x.why[:600], m1.source(x.case) if x.kind != "compile" else "", sep="\n")
        ctx.log("%d types, %d evaluations, %d mismatches" % (k + chunk, ctx.evaluations, len(got)))
        if not ctx.samples:
            for c in cases[k:k + 400:45]:
                ctx.sample(m1.source(c)[:700])
    ctx.extra["types"] = len(cases)
    ctx.extra["verdicts"] = stats
    ctx.extra["features"] = feats
    ctx.extra["model_error_count"] = len(ctx.extra.get("model_errors", []))
    if "model_errors" in ctx.extra:
        ctx.extra["model_errors"] = ctx.extra["model_errors"][:10]
    m1.known(ctx)
    m1.report(ctx, bad, title)


def fixed_types():
    """every leaf and every constructor over a leaf at least once"""
    out = [m.P(n) for n in m.PRIMS] + [m.T("bool"), m.T("char"), m.T("unit")]
    out += [m.T("str", n=n) for n in ("String", "smol_str::SmolStr", "&'static str")]
    out += [m.T("ip", n=n) for n in m.IPS] + [m.T("notnan", n=n) for n in m.FLOATS]
    s, u = m.STRING, m.P("u8")
    for x in (s, u):
        out += [m.T("opt", t=x), m.T("vec", t=x), m.T("phantom", t=x)]
        out += [m.T("set", n=n, t=x) for n in ("HashSet", "BTreeSet")]
        out += [m.T("arr", t=x, n=n) for n in (0, 1, 5, 32)]
        out += [m.T("wrap", n=n, t=x) for n in m.WRAPS if n != "std::cell::Cell" or x is u]
    out += [m.T("res", t=s, e=u), m.T("res", t=u, e=s), m.T("res", t=m.T("unit"), e=s)]
    for n in ("HashMap", "BTreeMap"):
        out += [m.T("map", n=n, kt=k, t=v) for k, v in ((s, u), (u, s), (m.T("char"), m.T("bool")))]
    mix = [u, s, m.T("bool"), m.P("i16"), m.P("f64"), m.T("char"), m.T("unit"), m.P("u16")]
    for n in range(1, 17):
        out.append(m.T("tup", ts=[mix[i % len(mix)] for i in range(n)]))
    return out


def replay(ctx, data):
    c = dict(data["case"], id=0)
    if data.get("value") is not None:
        pid = "0|" + data["probe"].split("|", 1)[1]
        c["values_" + pid] = [(m.dec(data["value"]), None), (m.dec(data["value"]), "replay")]
    bad, _, _ = m1.run_cases(ctx, [c], "replay", 30, 60)
    m1.report(ctx, bad, CASES[ctx.prop][3], shrinker=None)
