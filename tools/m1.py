"""Compiles generated definitions with the crate under test and evaluates what it generates."""
import collections
import json
import os
import random
import subprocess

import common
import gen
import model as m
from common import HarnessError

NS = [("Ns0", None), ("Ns1", "RenamedNs"), ("Ns2", None)]
NS_EXPORT = [r or n for n, r in NS]
m.NS_EXPORT = NS_EXPORT


def ns_decl():
    out = ""
    for n, r in NS:
        out += "#[derive(zod::Namespace)] "
        if r:
            out += "#[namespace(name = %s)] " % m.lit(r)
        out += "pub struct %s;\n" % n
    return out


HEADER = "#![allow(warnings)]\n"


def render_case(case, style=0, serialize=False, zod=True):
    """a module with the definitions of the case and a probe for each type and root"""
    env = m.Env(case["types"])
    mod = "c%s" % case["id"]
    m.DEFAULT_FNS.reset("%s::%s::" % ("crate", mod), env)
    prefix = ["crate::%s::" % mod, "self::", ""][style % 3]
    body = ns_decl()  # every case has namespaces of its own, types are unique in them
    for d in case["types"]:
        body += m.render_def(d, env, prefix + NS[d["ns"]][0], serialize, zod)
    for f in m.DEFAULT_FNS.fns:
        body += f
    if not zod:
        for i, r in enumerate(case["roots"]):
            z = m.render(r).replace("&'static str", "String")
            body += "pub fn root%d() { fn de<D: probe::serde::de::DeserializeOwned>() {} de::<%s>() }\n" % (i, z)
        return "mod %s {\n%s}\n" % (mod, body)
    body += "pub fn probes(v: &mut Vec<probe::Probe>) {\n"
    for d in case["types"]:
        body += "    v.push(probe::probe::<%s, %s>(%s));\n" % (
            d["id"], d["id"], m.lit("%s|%s" % (case["id"], d["id"])))
    for i, r in enumerate(case["roots"]):
        if r["k"] == "ref":
            continue
        z = m.render(r)
        body += "    v.push(probe::probe::<%s, %s>(%s));\n" % (
            z, z.replace("&'static str", "String"), m.lit("%s|#%d" % (case["id"], i)))
    body += "}\n"
    return "mod %s {\n%s}\n" % (mod, body)


class Build:
    """cases distributed over bins; result: info per probe, compile errors and crashes per case"""

    def __init__(self, ctx, name="probe", shards=8):
        self.ctx = ctx
        self.crate = common.install_crate(ctx, "probe", name)
        self.shards = shards
        self.failed = {}   # case id -> rustc message
        self.crashed = {}  # case id -> (probe, stderr)
        self.info = {}     # probe id -> dict
        self.exe = {}

    def write(self, shard, cases):
        src = HEADER
        ranges = []
        for c in cases:
            start = src.count("\n") + 1
            src += render_case(c, c.get("style", 0))
            ranges.append((start, src.count("\n"), c["id"]))
        src += "fn main() {\n    let mut v = Vec::new();\n"
        for c in cases:
            src += "    c%s::probes(&mut v);\n" % c["id"]
        src += "    probe::main(v, probe::none);\n}\n"
        common.write_if_changed(os.path.join(self.crate, "src", "bin", "s%d.rs" % shard), src)
        return ranges

    def build(self, cases):
        shards = min(self.shards, max(1, (len(cases) + 3) // 4))
        parts = [cases[i::shards] for i in range(shards)]
        bins = os.path.join(self.crate, "src", "bin")
        os.makedirs(bins, exist_ok=True)
        for f in os.listdir(bins):
            os.unlink(os.path.join(bins, f))
        for attempt in range(12):
            ranges = [self.write(i, p) for i, p in enumerate(parts)]
            ok, errors, exes, tail = common.cargo_build(self.ctx, self.crate)
            if ok:
                break
            hit = 0
            for e in errors:
                tgt = e.get("_target") or ""
                if not (tgt.startswith("s") and tgt[1:].isdigit()):
                    continue
                shard = int(tgt[1:])
                for sp in spans(e):
                    for a, b, cid in ranges[shard]:
                        if a <= sp <= b:
                            text = e.get("rendered") or e.get("message")
                            if cid not in self.failed:
                                self.failed[cid] = text
                                hit += 1
                            elif "is not satisfied" in self.failed[cid]:
                                self.failed[cid] = text  # closer to the cause
            if not hit:
                raise HarnessError("the probe crate does not build:\n" + "\n".join(
                    (e.get("rendered") or "")[:2000] for e in errors[:3]) + tail)
            parts = [[c for c in p if c["id"] not in self.failed] for p in parts]
        else:
            raise HarnessError("too many rounds of compile errors")
        self.exe = {i: exes["s%d" % i] for i in range(shards)}
        self.where = {c["id"]: i for i, p in enumerate(parts) for c in p}
        common.parallel(self.read_info, range(shards))

    def read_info(self, shard):
        skip = 0
        while True:
            p = limited([self.exe[shard], "info", str(skip)])
            begun = None
            n = 0
            for line in p.stdout.decode().split("\n")[:-1]:
                try:
                    v = json.loads(line)
                except ValueError:
                    continue  # cut off by the crash
                if "begin" in v:
                    begun = v["begin"]
                    n += 1
                else:
                    self.info[v["id"]] = v
                    begun = None
            if p.returncode == 0:
                return
            if begun is None:
                raise HarnessError("probe died outside of a type: %s" % p.stderr[-500:])
            cid = begun.split("|")[0]
            self.crashed.setdefault(cid, (begun, p.stderr.decode("utf8", "replace")[-800:]))
            skip += n

    def de(self, requests):
        """requests: {probe id: [json]} -> {probe id: [error or None]}"""
        by = collections.defaultdict(list)
        for pid, docs in requests.items():
            by[self.where[cid_of(pid)]].append([pid, docs])

        def run(shard):
            path = os.path.join(self.ctx.work, "de-%s-%d.jsonl" % (os.path.basename(self.crate), shard))
            with open(path, "w") as f:
                for r in by[shard]:
                    f.write(json.dumps(r) + "\n")
            p = subprocess.run([self.exe[shard], "de", path], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=300)
            if p.returncode != 0:
                raise HarnessError("serde probe died: %s" % p.stderr.decode("utf8", "replace")[:1500])
            return [json.loads(x) for x in p.stdout.decode().split("\n")[:-1]]

        out = {}
        for part in common.parallel(run, sorted(by)):
            for pid, res in part:
                out[pid] = res
        return out


class Ended:
    """what is left of a process that was stopped by its limits"""
    def __init__(self, stdout, stderr):
        self.stdout, self.stderr, self.returncode = stdout, stderr, -9


def limited(cmd, seconds=60, mem=4 << 30):
    """generation is bounded: using up this much time or memory is a failure of the type in turn"""
    import resource

    def limit():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))

    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=seconds,
                              preexec_fn=limit)
    except subprocess.TimeoutExpired as e:
        return Ended(e.stdout or b"", b"not finished after %d s" % seconds)


def cid_of(pid):
    c = pid.split("|")[0]
    return int(c) if c.isdigit() else c


def spans(e):
    """lines of the bin an error is about: its primary spans, else whatever else it mentions"""
    def lines(x, primary):
        for s in x.get("spans", []):
            if primary and not s.get("is_primary"):
                continue
            while s.get("expansion"):  # errors inside macros: follow to the invocation
                s = s["expansion"]["span"]
            if "/bin/" in s["file_name"]:
                yield s["line_start"]

    out = list(lines(e, True)) or list(lines(e, False))
    for c in e.get("children", []):
        if out:
            break
        out = list(lines(c, False))
    return out


def namespaces_of(case, info):
    """exported schema texts of the case's types, per exported namespace"""
    ns = {n: {} for n in NS_EXPORT}
    for d in case["types"]:
        ns[NS_EXPORT[d["ns"]]][m.exported(d)] = info["%s|%s" % (case["id"], d["id"])]["schema"]
    return ns


def probes_of(case):
    """(probe id, type expression)"""
    out = [("%s|%s" % (case["id"], d["id"]), m.T("ref", id=d["id"])) for d in case["types"]]
    for i, r in enumerate(case["roots"]):
        if r["k"] != "ref":
            out.append(("%s|#%d" % (case["id"], i), r))
    return out


def candidates(case, t, env, rng, n_pos, n_mut):
    """[(value, op)] ; op None = canonical"""
    keys = []
    for d in case["types"]:
        if d["kind"] == "struct":
            keys += m.struct_keys(d)
        else:
            keys += [m.variant_key(d, v) for v in d["variants"]]
    out, seen = [], set()

    def add(v, op):
        key = json.dumps(m.enc(v))
        if key not in seen:
            seen.add(key)
            out.append((v, op))

    hazard = gen.undef_hazard(case)
    wide = gen.mentions_wide(case)
    pos = []
    if t["k"] == "ref" and not env.get(t["id"]).get("from"):
        d = env.get(t["id"])
        if d["kind"] == "enum":  # every variant at least once
            for v in m.live_variants(d):
                if m.variant_depth(v, env) < 1e9:
                    pos.append(m.variant_value(d, v, env, rng, 4))
            for v in d["variants"]:
                if v not in m.live_variants(d) and m.variant_depth(v, env) < 1e9:
                    add(m.variant_value(d, v, env, rng, 3), "skipped-variant")
    if case.get("deep"):
        for i in range(max(2, n_pos // 3)):
            pos.append(m.deep_value(t, env, rng, rng.choice(case["deep"])))
    for i in range(n_pos):
        pos.append(m.value(t, env, rng, rng.choice([1, 3, 5, 6])))
    for v in pos:
        if v is m.UNDEF and hazard:
            continue
        add(v, None)
    for i in range(n_mut):
        base = rng.choice(pos)
        v, op = m.mutate(base, rng, keys)
        if rng.random() < 0.15:
            v, op2 = m.mutate(v, rng, keys)
            op += "+" + op2
        if hazard and m.has(v, lambda x: x is m.UNDEF):
            continue
        if wide and m.has(v, beyond_safe):
            continue  # wide bounds are only exact in the safe range
        add(v, op)
    return out


def too_deep(err):
    return err is not None and "recursion limit exceeded" in err


def beyond_safe(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool) and abs(x) > m.SAFE \
        and x == int(x)


def trivial(t):
    return t["k"] in ("bool", "str", "unit") or t["k"] == "prim" and t["n"] in m.FLOATS


def without_zod(ctx, cases):
    """the cases that rustc refuses even without the derive under test: not legal definitions"""
    if not cases:
        return set()
    crate = common.install_crate(ctx, "probe", "legal")
    refused = set()
    for attempt in range(12):
        src, ranges = HEADER, []
        for c in cases:
            if c["id"] in refused:
                continue
            start = src.count("\n") + 1
            src += render_case(c, c.get("style", 0), zod=False)
            ranges.append((start, src.count("\n"), c["id"]))
        common.write_if_changed(os.path.join(crate, "src", "bin", "legal.rs"), src + "fn main() {}\n")
        ok, errors, _, tail = common.cargo_build(ctx, crate)
        if ok:
            return refused
        n = len(refused)
        for e in errors:
            for sp in spans(e):
                refused |= {cid for a, b, cid in ranges if a <= sp <= b}
        if len(refused) == n:
            break
    raise HarnessError("cannot tell which definitions are legal: " + tail)


class Mismatch:
    def __init__(self, case, pid, kind, value, why):
        self.case, self.pid, self.kind, self.value, self.why = case, pid, kind, value, why

    def weight(self):
        return (len(json.dumps(self.case)), m.size(self.value) if self.value is not None else 0)


def run_cases(ctx, cases, rng_tag, n_pos, n_mut, build_name="probe", want=None, count=True,
              chunk=40, b=None):
    """-> list of Mismatch over all cases (schema against serde)"""
    if b is None:
        b = Build(ctx, build_name)
        b.build(cases)
    bad = []
    live = []
    illegal = without_zod(ctx, [c for c in cases if c["id"] in b.failed])
    if illegal and count:
        ctx.extra["definitions rustc refuses without the derive"] = \
            ctx.extra.get("definitions rustc refuses without the derive", 0) + len(illegal)
    for c in cases:
        if c["id"] in illegal:
            continue
        if c["id"] in b.failed:
            bad.append(Mismatch(c, None, "compile", None, b.failed[c["id"]][:3000]))
        elif str(c["id"]) in b.crashed:
            pid, err = b.crashed[str(c["id"])]
            bad.append(Mismatch(c, pid, "crash", None, "generating the schema of %s crashed: %s" % (pid, err)))
        else:
            live.append(c)
    work = {}
    for c in live:
        env = m.Env(c["types"])
        rng = random.Random("%s|%s|%s" % (ctx.seed, rng_tag, c["id"]))
        exprs, values, meta = [], [], []
        for pid, t in probes_of(c):
            if want and not want(pid, t, env):
                continue
            i = len(exprs)
            exprs += [b.info[pid]["schema"], b.info[pid]["inline_schema"]]
            for v, op in c.get("values_%s" % pid) or candidates(c, t, env, rng, n_pos, n_mut):
                values.append([i + rng.randrange(2), m.enc(v)])
                meta.append((pid, t, v, op))
        work[c["id"]] = (c, env, exprs, values, meta)

    def evaluate(group):
        def shimmed(c):
            return gen.uses_flatten(c) and not c.get("noshim")

        shim = [x for x in group if shimmed(x[0])]
        plain = [x for x in group if not shimmed(x[0])]
        out = []
        for part, sh in ((plain, False), (shim, True)):
            if part:
                out += common.node("eval.cjs", {"shim": sh, "cases": [
                    {"id": c["id"], "ns": namespaces_of(c, b.info), "exprs": ex, "values": vals}
                    for c, _, ex, vals, _ in part]})
        return out

    items = list(work.values())
    groups = [items[i:i + chunk] for i in range(0, len(items), chunk)]
    evals = {}
    for part in common.parallel(evaluate, groups):
        for r in part:
            evals[r["id"]] = r
    reqs = collections.defaultdict(list)
    for cid, (c, env, exprs, values, meta) in work.items():
        for (pid, t, v, op), r in zip(meta, evals[cid]["results"]):
            reqs[pid].append(r[1])
            if r[0] is True:
                reqs[pid].append(r[2])
    serde = b.de(reqs)
    pos = collections.Counter()
    stats = collections.Counter()
    for cid, (c, env, exprs, values, meta) in work.items():
        ev = evals[cid]
        if ev["errors"]:
            w, e, text = ev["errors"][0]
            bad.append(Mismatch(c, w, "eval", None, "schema text does not evaluate: %s\n%s" % (e, text)))
            continue
        untagged = {}
        for (pid, t, v, op), r, (ei, _) in zip(meta, ev["results"], values):
            acc, js, parsed, known = r
            k = pos[pid]
            raw_err = serde[pid][k]
            pos[pid] += 1
            parsed_err = None
            if acc is True:
                parsed_err = serde[pid][k + 1]
                pos[pid] += 1
            if count:
                ctx.evaluations += 1
                if not trivial(t):
                    ctx.nontrivial.add(hash((exprs[ei], js)))
            if acc == "throw":
                bad.append(Mismatch(c, pid, "throw", v, "schema throws: %s" % parsed))
                continue
            if too_deep(raw_err) or too_deep(parsed_err):
                if op is None and acc is not True:
                    bad.append(Mismatch(c, pid, "rejects", v, "the schema rejects a deep value %s: %s"
                                        % (js[:2000], parsed)))
                stats["deeper than serde_json reads"] += 1
                continue
            if op is None:
                if raw_err is not None:
                    stats["canonical value serde refuses"] += 1
                    if count:
                        ctx.extra.setdefault("model_errors", []).append([js[:200], raw_err])
                    if acc is True and parsed_err is not None:
                        stats["(schema accepts it too)"] += 1
                    continue
                stats["canonical"] += 1
                if acc is not True:
                    bad.append(Mismatch(c, pid, "rejects", v,
                                        "serde reads %s but the schema rejects it: %s" % (js, parsed)))
                    continue
                if pid not in untagged:
                    untagged[pid] = m.has_untagged(t, env)
                if not known and not untagged[pid]:
                    bad.append(Mismatch(c, pid, "unknown", v,
                                        "the schema does not know all members of %s: it yields %s" % (js, parsed)))
                    continue
            else:
                stats["mutant " + ("accepted" if acc else "rejected") + " by schema, " +
                      ("refused" if raw_err else "read") + " by serde"] += 1
            if acc is True and parsed_err is not None:
                bad.append(Mismatch(c, pid, "accepts", v,
                                    "the schema accepts %s (as %s) but serde refuses it: %s"
                                    % (js, parsed, parsed_err)))
    return bad, stats, b


# ----------------------------------------------------------------------------------------------
# shrinking: all one-step reductions are compiled in one batch, the smallest that still fails wins


def reductions(case):
    """simpler cases"""
    import copy
    types = case["types"]
    roots = case["roots"]

    def emit(ts, rs):
        used = set()
        todo = [i for r in rs for i in m.refs_in(r)]
        byid = {d["id"]: d for d in ts}
        while todo:
            i = todo.pop()
            if i in used or i not in byid:
                continue
            used.add(i)
            d = byid[i]
            for f in m.all_fields(d):
                todo += m.refs_in(f["ty"])
            if d.get("from"):
                todo += m.refs_in(d["from"]["ty"])
        return {"id": 0, "types": [d for d in ts if d["id"] in used], "roots": rs, "style": 0}

    # another root
    for d in types:
        if [m.T("ref", id=d["id"])] != roots:
            yield emit(types, [m.T("ref", id=d["id"])])
    for r in roots:
        for s in shrink_ty(r):
            yield emit(types, [s])
    for i, d in enumerate(types):
        def put(nd):
            ts = list(types)
            ts[i] = nd
            return emit(ts, roots)

        for k in ("rename", "rename_split", "rename_all", "rename_all_split", "default", "from",
                  "transparent", "attr_separate", "derive_order", "docs_src"):
            if d.get(k) is not None:
                nd = copy.deepcopy(d)
                del nd[k]
                yield put(nd)
        if d["kind"] == "enum" and len(d["variants"]) > 1:
            for j in range(len(d["variants"])):
                nd = copy.deepcopy(d)
                del nd["variants"][j]
                yield put(nd)
        fls = [(None, d)] if d["kind"] == "struct" else list(enumerate(d["variants"]))
        for vi, holder in fls:
            def with_fields(fs, **kw):
                nd = copy.deepcopy(d)
                h = nd if vi is None else nd["variants"][vi]
                h["fields"] = fs
                h.update(kw)
                for k in [k for k, x in kw.items() if x is None]:
                    del h[k]
                return put(nd)

            fs = holder["fields"]
            if vi is not None:
                for k in ("rename", "rename_split", "rename_all", "skip", "skip_ser"):
                    if holder.get(k) is not None:
                        yield with_fields(copy.deepcopy(fs), **{k: None})
            if len(fs) > (2 if holder["shape"] == "tuple" else 0) and holder["shape"] != "newtype":
                for j in range(len(fs)):
                    nf = copy.deepcopy(fs)
                    del nf[j]
                    yield with_fields(nf)
            for j, f in enumerate(fs):
                for k in ("rename", "rename_split", "skip", "skip_ser", "default", "attr_order",
                          "attr_separate", "docs_src"):
                    if f.get(k) is not None:
                        nf = copy.deepcopy(fs)
                        del nf[j][k]
                        yield with_fields(nf)
                if not f.get("flatten"):
                    for s in shrink_ty(f["ty"]):
                        nf = copy.deepcopy(fs)
                        nf[j]["ty"] = s
                        yield with_fields(nf)


def shrink_ty(t):
    for c in m.children(t):
        yield c
    if t["k"] == "tup" and len(t["ts"]) > 1:
        for i in range(len(t["ts"])):
            yield m.T("tup", ts=t["ts"][:i] + t["ts"][i + 1:])
    if t["k"] not in ("prim", "bool"):
        yield m.P("u8")


def shrink(ctx, bad, rounds=5, cap=64, runner=None):
    """bad: Mismatch -> smaller Mismatch"""
    best = bad
    for rnd in range(rounds):
        if not ctx.may_shrink():
            break
        cands, seen = [], set()
        for c in reductions(best.case):
            key = json.dumps(c, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            cands.append(c)
        cands.sort(key=lambda c: len(json.dumps(c)))
        cands = cands[:cap]
        if not cands:
            break
        for i, c in enumerate(cands):
            c["id"] = "s%d" % i
        # types keep their names: every candidate lives in a module of its own
        try:
            cs = [dict(c, id=i) for i, c in enumerate(cands)]
            if runner:
                got = runner(cs, "shrink%d" % rnd, "shrink")[0]
            else:
                got = run_cases(ctx, cs, "shrink%d" % rnd, 30, 60, "shrink", count=False)[0]
        except HarnessError as e:
            ctx.log("shrinking stopped:", str(e)[:200])
            break
        got = [g for g in got if same_kind(g, best) and g.weight() < best.weight()]
        if not got:
            break
        best = min(got, key=lambda g: g.weight())
    return best


def same_kind(a, b):
    def group(k):
        return {"accepts": "v", "rejects": "v", "unknown": "v", "throw": "v"}.get(k, k)
    if a.kind == "compile" and first_line(a.why) != first_line(b.why):
        return False
    return group(a.kind) == group(b.kind)


def first_line(s):
    import re
    return re.sub(r"T\d+_\d+", "T", s.splitlines()[0])


def report(ctx, bad, title, limit=3, shrinker=shrink):
    """one violation per kind of failure, shrunk"""
    seen = collections.Counter()
    for b in sorted(bad, key=lambda b: b.weight()):
        if seen[b.kind] or sum(seen.values()) >= limit:
            seen[b.kind] += 1
            continue
        seen[b.kind] += 1
        s = b
        if shrinker:
            try:
                s = shrinker(ctx, b)
            except Exception as e:  # the unshrunk case is a violation all the same
                ctx.log("shrinking failed:", repr(e)[:300])
        ctx.violations.append({
            "message": "%s: %s" % (title, s.why.splitlines()[0] if s.why else s.kind),
            "detail": s.why + "\n" + source(s.case),
            "kind": s.kind, "probe": s.pid, "case": s.case,
            "value": m.enc(s.value) if s.value is not None else None,
            "rust": source(s.case),
        })
    if bad:
        ctx.extra["mismatches"] = dict(seen)


def source(case):
    try:
        return render_case(dict(case, style=0))
    except Exception as e:
        return repr(e)


def known(ctx):
    """re-runs the recorded findings of the property; prints those that still fail"""
    found = common.known_findings(ctx.prop)
    found = [f for f in found if "case" in f]
    cases = []
    for i, f in enumerate(found):
        c = dict(f["case"], id=i)
        pid = "%d|%s" % (i, f["probe"].split("|", 1)[1])
        c["values_" + pid] = [(m.dec(f["value"]), None if f["canonical"] else "x")]
        cases.append(c)
    if not cases:
        return
    bad, _, _ = run_cases(ctx, cases, "known", 1, 0, "known", count=False,
                          want=lambda pid, t, env: "values_" + pid in cases[cid_of(pid)])
    for i, f in enumerate(found):
        hit = [b for b in bad if b.case["id"] == i]
        if any(b.kind == f["kind"] for b in hit):
            common.known_finding(ctx, f)
        for b in hit:
            if b.kind != f["kind"]:
                ctx.log("finding %s now fails differently: %s" % (f["id"], b.why[:300]))
                ctx.violations.append({"message": b.why, "kind": b.kind, "probe": b.pid,
                                       "case": b.case, "value": f["value"]})
