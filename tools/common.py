"""Shared plumbing of all checks: seeds, work directories, cargo, node, evidence, findings."""
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZOD_REPO", "/repo")
TOOLS = os.path.join(VERIF, "tools")
NODE_MODULES = "/opt/veriftools/node/node_modules"
STATE = os.environ.get("ZOD_STATE", VERIF)  # where .work/.target live (scratch runs set it)


class HarnessError(Exception):
    """the check itself could not give an answer (exit 2)"""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.work = os.path.join(STATE, ".work", prop)
        self.target = os.path.join(STATE, ".target", prop)
        os.makedirs(self.work, exist_ok=True)
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.rule = ""
        self.extra = {}
        self.assumptions = []
        self.violations = []  # dicts with at least "message"
        self.findings_seen = {}

    def thorough(self):
        return self.tier == "thorough"

    def may_shrink(self):
        """shrinking compiles again and again; a check must answer in time"""
        if not getattr(self, "shrinking", 0):
            self.shrinking = time.time()
        return time.time() - self.shrinking < (900 if self.thorough() else 180)

    def log(self, *a):
        print("[%s %.0fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)


def env_seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def known_findings(prop):
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [x for x in data["findings"] if x["property"] == prop]


def known_finding(ctx, f):
    ctx.findings_seen[f["id"]] = f["what"]
    print("KNOWN-FINDING: property=%s %s: %s" % (ctx.prop, f["id"], f["what"]), flush=True)


def write_evidence(ctx, level="exploration"):
    ev_dir = os.path.join(VERIF, "evidence") if STATE == VERIF else os.path.join(STATE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    cov = {
        "evaluations": ctx.evaluations,
        "distinct_nontrivial": len(ctx.nontrivial),
        "rule": ctx.rule,
        "samples": ctx.samples,
    }
    cov.update(ctx.extra)
    if ctx.findings_seen:
        cov["known_findings_reproduced"] = ctx.findings_seen
    ev = {
        "property": ctx.prop,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": level,
        "coverage": cov,
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - ctx.t0, 1),
        "violations": len(ctx.violations),
    }
    with open(os.path.join(ev_dir, ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)


def write_replay(ctx, n, data):
    d = os.path.join(ctx.work, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (ctx.prop, n))
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def finish(ctx, level="exploration"):
    """evidence, VIOLATION lines and exit code"""
    write_evidence(ctx, level)
    if not ctx.violations:
        print("OK property=%s evaluations=%d nontrivial=%d wall=%.0fs"
              % (ctx.prop, ctx.evaluations, len(ctx.nontrivial), time.time() - ctx.t0))
        return 0
    for i, v in enumerate(ctx.violations[:5]):
        path = write_replay(ctx, i, v)
        print("---- violation %d: %s" % (i, v.get("message", "")))
        for k in ("detail",):
            if v.get(k):
                print(v[k])
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
    sys.stdout.flush()
    return 1


def fresh_dir(path):
    if not os.path.abspath(path).startswith(os.path.abspath(STATE) + os.sep):
        raise HarnessError("refusing to clear " + path)
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def crate_manifest(template):
    with open(os.path.join(TOOLS, "rust", template, "Cargo.toml")) as f:
        return f.read().replace("/repo", REPO)


def install_crate(ctx, template, name=None):
    """copies a committed template crate to the work dir (so that /verif stays clean)"""
    src = os.path.join(TOOLS, "rust", template)
    dst = os.path.join(ctx.work, name or template)
    fresh_dir(dst)
    shutil.copytree(src, dst, dirs_exist_ok=True)
    with open(os.path.join(dst, "Cargo.toml"), "w") as f:
        f.write(crate_manifest(template))
    return dst


def cargo_env(ctx):
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = ctx.target
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("RUSTFLAGS", None)
    e["RUSTFLAGS"] = "-Awarnings"
    return e


def cargo_build(ctx, crate, args=(), timeout=700):
    """-> (ok, list of rustc json messages of level error, raw tail)"""
    cmd = ["cargo", "build", "--offline", "--message-format=json", "--keep-going"] + list(args)
    p = subprocess.run(cmd, cwd=crate, env=cargo_env(ctx), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=timeout)
    errors, exes = [], {}
    for line in p.stdout.decode("utf8", "replace").split("\n"):
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") == "compiler-message" and m["message"]["level"].startswith("error"):
            m["message"]["_pkg"] = m.get("package_id", "")
            m["message"]["_target"] = m.get("target", {}).get("name")
            errors.append(m["message"])
        if m.get("reason") == "compiler-artifact" and m.get("executable"):
            exes[m["target"]["name"]] = m["executable"]
    return p.returncode == 0, errors, exes, p.stderr.decode("utf8", "replace")[-3000:]


def node(script, request, timeout=600, args=()):
    """runs tools/node/<script> with a JSON request on stdin, returns the JSON it prints"""
    p = subprocess.run(["node", "--stack-size=4000", os.path.join(TOOLS, "node", script)] + list(args),
                       input=json.dumps(request).encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=timeout,
                       env=dict(os.environ, NODE_PATH=NODE_MODULES))
    if p.returncode != 0:
        raise HarnessError("node %s failed: %s" % (script, p.stderr.decode("utf8", "replace")[-3000:]))
    return json.loads(p.stdout)


def parallel(fn, items, workers=8):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))
