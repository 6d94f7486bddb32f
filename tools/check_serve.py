"""C10-C14, C18: histories of requests against backends, judged in Rust (tools/rust/serve)"""
import json
import os
import subprocess
import time

import common

# property -> [(mode, cases per process in the quick tier, processes)]
MODES = {
    "C10": [("C10", 5000, 8), ("C10-threads", 250, 4)],
    "C11": [("C11", 5000, 8), ("C11-threads", 250, 4)],
    "C12": [("C12", 5000, 8), ("C12-threads", 250, 4)],
    "C13": [("C13", 5000, 8)],
    "C14": [("C14", 1500, 8), ("C14-threads", 60, 4)],
    "C18": [("C18", 20000, 8)],
}
RULES = {
    "C10": "histories with at least two calls on at least two connections",
    "C11": "histories with at least two streams of which one was opened while another ran",
    "C12": "histories in which a running stream was cancelled",
    "C13": "histories of several connections with calls and at least one bad message or disconnection",
    "C14": "histories of several sockets with calls and at least one other frame, bad message or disconnection",
    "C18": "messages with a body or a payload",
}
STALL = 60  # seconds a single case may take; they take milliseconds


def build(ctx):
    crate = common.install_crate(ctx, "serve")
    ok, errors, exes, tail = common.cargo_build(ctx, crate)
    if not ok or "serve" not in exes:
        raise common.HarnessError("the backend under test does not build:\n"
                                  + "\n".join(e.get("rendered", "") for e in errors[:3]) + tail)
    ctx.log("built")
    return exes["serve"]


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Proc:
    def __init__(self, exe, mode, out, args, seconds):
        self.mode, self.out, self.running = mode, out, out + ".running"
        for f in (self.out, self.running):
            if os.path.exists(f):
                os.unlink(f)
        self.err = open(out + ".log", "w+")
        self.t0 = time.time()
        self.p = subprocess.Popen([exe, mode, out] + [str(a) for a in args], stdout=self.err, stderr=self.err,
                                  preexec_fn=limit, env=dict(os.environ, SERVE_SECONDS=str(seconds)))

    def stalled(self):
        """the case that has been running for too long"""
        try:
            since = os.path.getmtime(self.running)
        except OSError:
            since = self.t0
        return time.time() - max(since, self.t0) > STALL

    def wait(self):
        """-> (report or None, case it ended in the middle of or None)"""
        while self.p.poll() is None:
            if self.stalled():
                self.p.kill()
                self.p.wait()
                break
            time.sleep(0.05)
        self.err.seek(0)
        self.log = self.err.read()[-2000:]
        self.err.close()
        try:
            with open(self.out) as f:
                return json.load(f), None
        except (OSError, ValueError):
            pass
        try:
            with open(self.running) as f:
                return None, json.load(f)
        except (OSError, ValueError):
            raise common.HarnessError("serve %s ended with %s: %s" % (self.mode, self.p.returncode, self.log))


def run_case(ctx, exe, mode, case, tag="one"):
    """-> why it fails, or None"""
    out = os.path.join(ctx.work, tag)
    src = out + ".case"
    with open(src, "w") as f:
        json.dump(case, f)
    p = Proc(exe, mode, out + ".json", ["replay", src], 100)
    try:
        report, _ = p.wait()
    except common.HarnessError:
        report = None
    if report is None:
        return "the server takes up all time or memory (exit %s) %s" % (p.p.returncode, p.log[:300])
    return report["failure"]["why"] if report["failure"] else None


def shrink(ctx, exe, mode, case, why, seconds=240):
    """histories that never end can not be shrunk from inside: leaves out operations"""
    t0 = time.time()

    def lists(c):
        if "ops" in c:
            return [("ops",)]
        return [("conns", i) for i in range(len(c["conns"]))] if "conns" in c else []

    def get(c, path):
        for k in path:
            c = c[k]
        return c

    changed = True
    while changed and time.time() - t0 < seconds:
        changed = False
        for path in lists(case):
            n = max(1, len(get(case, path)) // 2)
            while n and time.time() - t0 < seconds:
                i = 0
                while i < len(get(case, path)) and time.time() - t0 < seconds:
                    smaller = json.loads(json.dumps(case))
                    del get(smaller, path)[i:i + n]
                    w = run_case(ctx, exe, mode, smaller)
                    if w:
                        case, why, changed = smaller, w, True
                    else:
                        i += n
                n //= 2
    return case, why


def violation(ctx, mode, why, case):
    ctx.violations.append({"message": why, "mode": mode, "case": case,
                           "detail": json.dumps(case)[:3000]})


def merge(ctx, mode, report, numbers):
    ctx.evaluations += report["cases"]
    for h in report["nontrivial"]:
        ctx.nontrivial.add(mode + h)
    for k, v in report["numbers"].items():
        key = "%s: %s" % (mode, k)
        numbers[key] = numbers.get(key, 0) + v
    for s in report["samples"]:
        ctx.sample({"mode": mode, "case": s}, 8)


def run(ctx):
    exe = build(ctx)
    numbers = {}
    ctx.rule = RULES[ctx.prop]
    factor, seconds = (20, 2400) if ctx.thorough() else (1, 150)
    for mode, cases, procs in MODES[ctx.prop]:
        ps = [Proc(exe, mode, os.path.join(ctx.work, "%s.%d.json" % (mode, i)),
                   [cases * factor, ctx.seed * 1000 + i], seconds) for i in range(procs)]
        for p in ps:
            report, case = p.wait()
            if report is None:
                why = run_case(ctx, exe, mode, case)
                if not why:
                    raise common.HarnessError("serve %s ended with %s: %s" % (mode, p.p.returncode, p.log))
                violation(ctx, mode, *reversed(shrink(ctx, exe, mode, case, why)))
                continue
            merge(ctx, mode, report, numbers)
            if report["failure"]:
                violation(ctx, mode, report["failure"]["why"], report["failure"]["case"])
        ctx.log(mode, ctx.evaluations, "cases")
        if ctx.violations:
            break
    ctx.extra["counts"] = numbers


def replay(ctx, data):
    exe = build(ctx)
    for _ in range(1 if data["mode"] == ctx.prop else 50):
        ctx.evaluations += 1
        why = run_case(ctx, exe, data["mode"], data["case"])
        if why:
            return violation(ctx, data["mode"], why, data["case"])
