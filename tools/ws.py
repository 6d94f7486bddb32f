"""Compiles generated programs (one bin each) and asks them what they generate and register."""
import collections
import copy
import json
import os
import subprocess

import common
import gen_ws
import m1
import model as m
from common import HarnessError


class WsBuild:
    def __init__(self, ctx, name="ws"):
        self.ctx = ctx
        self.crate = common.install_crate(ctx, "probe", name)
        self.failed = {}
        self.crashed = {}
        self.info = {}
        self.extra = {}

    def build(self, cases):
        bins = os.path.join(self.crate, "src", "bin")
        os.makedirs(bins, exist_ok=True)
        for f in os.listdir(bins):
            os.unlink(os.path.join(bins, f))
        for c in cases:
            self.write(c)
        ok, errors, exes, tail = common.cargo_build(self.ctx, self.crate)
        if not ok:
            for e in errors:
                tgt = e.get("_target") or ""
                if tgt.startswith("w") and tgt[1:].isdigit():
                    cid = int(tgt[1:])
                    text = e.get("rendered") or e.get("message")
                    if cid not in self.failed or "is not satisfied" in self.failed[cid]:
                        self.failed[cid] = text
            if not self.failed:
                raise HarnessError("the programs do not build:\n" + "\n".join(
                    (e.get("rendered") or "")[:2000] for e in errors[:3]) + tail)
        self.exe = {c["id"]: exes["w%d" % c["id"]] for c in cases if c["id"] not in self.failed}
        common.parallel(self.read, sorted(self.exe))

    def write(self, c):
        src = m1.HEADER + gen_ws.render(c) + gen_ws.render_main(c)
        common.write_if_changed(os.path.join(self.crate, "src", "bin", "w%d.rs" % c["id"]), src)

    def read(self, cid):
        outs = []
        for cmd in (["info", "0"], ["extra"], ["extra"]):
            p = m1.limited([self.exe[cid]] + cmd)
            if p.returncode != 0:
                self.crashed[cid] = p.stderr.decode("utf8", "replace")[-1500:]
                return
            outs.append(p.stdout.decode())
        for line in outs[0].split("\n")[:-1]:
            v = json.loads(line)
            if "id" in v:
                self.info[v["id"]] = v
        self.extra[cid] = json.loads(outs[1])
        self.extra[cid]["second_run"] = json.loads(outs[2])


def build(ctx, cases, name="ws"):
    """-> (build, live cases, [Mismatch])"""
    b = WsBuild(ctx, name)
    b.build(cases)
    bad, live = [], []
    for c in cases:
        if c["id"] in b.failed:
            bad.append(m1.Mismatch(c, None, "compile", None, b.failed[c["id"]][:3000]))
        elif c["id"] in b.crashed:
            bad.append(m1.Mismatch(c, None, "crash", None, "generating crashed: " + b.crashed[c["id"]]))
        else:
            live.append(c)
    return b, live, bad


def source(case):
    return gen_ws.render(case)


def declared(case, i):
    """exported names of the types and members of a namespace"""
    return ([m.exported(d) for d in case["types"] if d["ns"] == i],
            [m.strip_raw(x["ident"]) for x in case["members"] if x["ns"] == i])


# ----------------------------------------------------------------------------------------------
# shrinking


def reductions(case):
    def pruned(c):
        """drops what became unreachable in indices"""
        return c

    for i in range(len(case["backends"])):
        if len(case["backends"]) > 1:
            c = copy.deepcopy(case)
            del c["backends"][i]
            yield pruned(c)
    for i in range(len(case["members"])):
        c = copy.deepcopy(case)
        del c["members"][i]
        yield c
    for i, d in enumerate(case["types"]):
        used = any(d["id"] in m.refs_in(t) for t in all_types(case, skip=d["id"]))
        if not used:
            c = copy.deepcopy(case)
            del c["types"][i]
            yield c
        c = copy.deepcopy(case)
        nd = c["types"][i]
        nd2 = {k: nd[k] for k in ("id", "ident", "ns", "mod", "vis", "rename", "docs_src", "docs_lines") if k in nd}
        nd2.update(kind="struct", shape="named", fields=[])
        if nd2 != nd and not nd.get("from"):
            c["types"][i] = nd2
            yield c
    for i in range(len(case["namespaces"])):
        if len(case["namespaces"]) > 1 and not any(d["ns"] == i for d in case["types"]):
            c = copy.deepcopy(case)
            del c["namespaces"][i]
            c["members"] = [x for x in c["members"] if x["ns"] != i]
            for x in c["members"] + c["types"]:
                x["ns"] -= x["ns"] > i
            for b in c["backends"]:
                b["ns"] = [k - (k > i) for k in b["ns"] if k != i]
            c["backends"] = [b for b in c["backends"] if b["ns"]]
            if c["backends"]:
                yield c
    for i, b in enumerate(case["backends"]):
        for j in range(len(b["ns"])):
            if len(b["ns"]) > 1:
                c = copy.deepcopy(case)
                del c["backends"][i]["ns"][j]
                yield c
    for i, x in enumerate(case["members"]):
        for j in range(len(x["args"])):
            c = copy.deepcopy(case)
            del c["members"][i]["args"][j]
            yield c


def all_types(case, skip=None):
    for d in case["types"]:
        if d["id"] == skip:
            continue
        for f in m.all_fields(d):
            yield f["ty"]
        if d.get("from"):
            yield d["from"]["ty"]
    for x in case["members"]:
        for a in x["args"]:
            yield a[1]
        if x["res"] is not None:
            yield x["res"]


def shrink(ctx, bad, runner, rounds=6, cap=32):
    best = bad
    if bad.kind == "crash":
        return bad
    for rnd in range(rounds):
        if not ctx.may_shrink():
            break
        cands = sorted(reductions(best.case), key=lambda c: len(json.dumps(c)))[:cap]
        if not cands:
            break
        cs = [dict(c, id=i) for i, c in enumerate(cands)]
        try:
            got = runner(cs, "shrink")
        except HarnessError as e:
            ctx.log("shrinking stopped:", str(e)[:200])
            break
        got = [g for g in got if g.kind == best.kind and g.weight() < best.weight()
               and (g.kind != "compile" or m1.first_line(g.why) == m1.first_line(best.why))]
        if not got:
            break
        best = min(got, key=lambda g: g.weight())
    return best


def report(ctx, bad, title, runner, limit=3):
    seen = collections.Counter()
    for b in sorted(bad, key=lambda b: b.weight()):
        if seen[b.kind] or len(seen) >= limit:
            seen[b.kind] += 1
            continue
        seen[b.kind] += 1
        s = b
        if runner:
            try:
                s = shrink(ctx, b, runner)
            except Exception as e:
                ctx.log("shrinking failed:", repr(e)[:300])
        ctx.violations.append({"message": "%s: %s" % (title, s.why.splitlines()[0]), "kind": s.kind,
                               "detail": s.why + "\n" + source(s.case), "case": s.case, "rust": source(s.case)})
    if bad:
        ctx.extra["mismatches"] = dict(seen)


# ----------------------------------------------------------------------------------------------
# recorded findings


def small(prog, cid):
    """a program of one namespace from {"types": [ident], "members": [[ident, kind, [[name, type]], result]]}"""
    types = [{"kind": "struct", "shape": "named", "id": "T%d" % i, "ident": t, "ns": 0, "mod": "", "vis": "pub ",
              "fields": [{"ident": "x", "ty": m.P("u8")}]} for i, t in enumerate(prog.get("types", []))]
    members = [{"ns": 0, "ident": ident, "kind": kind, "args": [[a, t, False] for a, t in args], "res": res, "vis": ""}
               for ident, kind, args, res in prog.get("members", [])]
    name = prog.get("namespace")
    return {"id": cid, "mods": [""], "types": types, "members": members, "roots": [], "layout": 1, "salt": "known",
            "namespaces": [{"ident": "Ns", "rename": name, "name": name or "Ns", "mod": "", "shape": ";", "service": True}],
            "backends": [{"ident": "BackendAll", "ns": [0], "mod": "", "named": False}]}


def known(ctx, runner):
    """runs the programs of the recorded findings; any other failure of theirs is a violation"""
    fs = common.known_findings(ctx.prop)
    if not fs:
        return []
    cases = [small(f["program"], 90000 + i) for i, f in enumerate(fs)]
    got = runner(cases)
    out = []
    for i, f in enumerate(fs):
        mine = [b for b in got if b.case["id"] == 90000 + i]
        if any(b.kind in f["kinds"] for b in mine):
            common.known_finding(ctx, f)
        out += [b for b in mine if b.kind not in f["kinds"]]
    return out
