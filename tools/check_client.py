"""C15, C16: the generated WebSocket client in a scripted world (tools/node/wsclient.cjs)"""
import json
import os
import subprocess
import time

import check_serve
import common

RULES = {
    "C15": "histories in which at least three responses or items reached somebody and one frame nobody",
    "C16": "histories in which a connection broke and the client connected again",
}
STALL = 60


def module(ctx):
    exe = check_serve.build(ctx)
    out = os.path.join(ctx.work, "module.ts")
    p = subprocess.run([exe, "module", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    if p.returncode != 0:
        raise common.HarnessError("no module: " + p.stdout.decode("utf8", "replace")[-1000:])
    with open(out) as f:
        return f.read()


class Proc:
    def __init__(self, ctx, tag, request):
        base = os.path.join(ctx.work, tag)
        self.running = base + ".running"
        if os.path.exists(self.running):
            os.unlink(self.running)
        with open(base + ".in", "w") as f:
            json.dump(dict(request, running=self.running), f)
        self.out, self.err = open(base + ".out", "w+"), open(base + ".err", "w+")
        self.t0 = time.time()
        with open(base + ".in") as f:
            self.p = subprocess.Popen(["node", "--max-old-space-size=2000", os.path.join(common.TOOLS, "node", "wsclient.cjs")],
                                      stdin=f, stdout=self.out, stderr=self.err)

    def wait(self):
        """-> (report, None) or (None, case in which it hung)"""
        while self.p.poll() is None:
            try:
                since = os.path.getmtime(self.running)
            except OSError:
                since = self.t0
            if time.time() - max(since, self.t0) > STALL:
                self.p.kill()
                self.p.wait()
                break
            time.sleep(0.05)
        self.out.seek(0)
        try:
            return json.load(self.out), None
        except ValueError:
            pass
        self.err.seek(0)
        self.log = self.err.read()[-1500:]
        try:
            with open(self.running) as f:
                return None, json.load(f)
        except (OSError, ValueError):
            raise common.HarnessError("the client did not run (exit %s): %s" % (self.p.returncode, self.log))


def run_case(ctx, text, ops):
    p = Proc(ctx, "one", {"text": text, "prop": ctx.prop, "replay": ops})
    try:
        report, _ = p.wait()
    except common.HarnessError:
        report = None
    if report is None:
        return "the client takes up all time or memory"
    return report["failure"]["why"] if report["failure"] else None


def violation(ctx, why, case):
    ctx.violations.append({"message": why, "case": case, "detail": json.dumps(case)[:3000]})


def run(ctx):
    ctx.rule = RULES[ctx.prop]
    text = module(ctx)
    cases, seconds = (200000, 1500) if ctx.thorough() else (8000, 120)
    numbers, astray = {}, 0
    ps = [Proc(ctx, "p%d" % i, {"text": text, "prop": ctx.prop, "cases": cases, "seconds": seconds, "endless": i == 0,
                                "seed": (ctx.seed * 1000 + i) % (1 << 31)}) for i in range(8)]
    for p in ps:
        report, case = p.wait()
        if report is None:
            why = run_case(ctx, text, case)
            if not why:
                raise common.HarnessError("the client ended with %s: %s" % (p.p.returncode, p.log))
            violation(ctx, why, case)
            continue
        ctx.evaluations += report["cases"]
        ctx.nontrivial.update(report["nontrivial"])
        astray += report["astray"]
        for k, v in report["numbers"].items():
            numbers[k] = numbers.get(k, 0) + v
        for s in report["samples"]:
            ctx.sample(s, 6)
        if report["failure"]:
            violation(ctx, report["failure"]["why"], report["failure"]["case"])
    ctx.extra["counts"] = numbers
    ctx.extra["given up because of something that is another property's"] = astray


def replay(ctx, data):
    ctx.evaluations = 1
    why = run_case(ctx, module(ctx), data["case"])
    if why:
        violation(ctx, why, data["case"])
