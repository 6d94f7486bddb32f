// Calls the functions of a generated client, carries what they send to the real server and what
// the server answers back, and compares all of it with what was meant.
// in:  {exe, backend, members:[{ns,name,kind,args:[{key,set}],res:{key,set}}], batches:[[call]], seed}
//      call: {m, args:[tagged], results:[[tagged candidates]], bad: null | index of the argument | "arity"}
// out: {problems:[{kind, why, batch, call}], stats, samples, tail: {text, module}}
const J = require("./js.cjs");
const client = require("./client.cjs");
const { spawn } = require("child_process");
const readline = require("readline");
const req = J.readInput();
J.shimExtend();

let state = (req.seed >>> 0) || 1;
const rnd = (n) => { state = (Math.imul(state, 1664525) + 1013904223) >>> 0; return Math.floor((state / 2 ** 32) * n); };
const tick = () => new Promise((r) => setImmediate(r));
const short = (x) => { const s = typeof x === "string" ? x : JSON.stringify(x); return s === undefined ? "undefined" : s.slice(0, 400); };

// arrays that stand for sets have no order
function canon(v, set) {
  if (Array.isArray(v)) {
    const a = v.map((x) => canon(x, set));
    return "[" + (set ? a.sort() : a).join() + "]";
  }
  if (v !== null && typeof v === "object")
    return "{" + Object.keys(v).sort().map((k) => JSON.stringify(k) + ":" + canon(v[k], set)).join() + "}";
  return JSON.stringify(v);
}

async function main() {
  const problems = [];
  const stats = { valid: 0, refused: 0, skipped: 0, arity: 0, streams: 0, items: 0, paths_differ: 0, concurrent: 0 };
  const samples = [];
  const made = [];
  const child = spawn(req.exe, [req.backend], { stdio: ["pipe", "pipe", "pipe"] });
  let stderr = "";
  child.stderr.on("data", (d) => { stderr = (stderr + d).slice(-2000); });
  child.stdin.on("error", () => {});
  const waiting = [];
  let dead = null;
  readline.createInterface({ input: child.stdout }).on("line", (l) => waiting.shift()?.(JSON.parse(l)));
  child.on("close", (code, sig) => { dead = `exit ${code} ${sig}: ${stderr}`; waiting.splice(0).forEach((f) => f({ fatal: dead })); });
  const ask = (x) => new Promise((r) => {
    if (dead) return r({ fatal: dead });
    waiting.push(r);
    child.stdin.write(JSON.stringify(x) + "\n");
  });
  const first = await ask({ code: 1 });
  if (first.fatal) return { problems: [{ kind: "crash", why: first.fatal }], stats, samples };
  const { code, types } = first;
  let env;
  try {
    env = client.load(code);
  } catch (e) {
    child.stdin.end();
    return { problems: [{ kind: "load", why: String(e) }], stats, samples };
  }
  const { exports, sockets } = env;
  const names = Object.keys(exports).filter((n) => typeof exports[n] === "object" && exports[n] !== null);
  const schemas = {};
  const schema = (key) => schemas[key] ??= new Function("z", ...names, "return (" + types[key][0] + "\n);")(J.z, ...names.map((n) => exports[n]));
  const parses = (key, v) => { try { return schema(key).safeParse(v).success; } catch { return null; } };
  const fine = (r) => "v" in r[0] && "v" in r[1];
  const refused = (r) => "r" in r[0] && "r" in r[1];
  const sent = () => sockets.flatMap((s) => s.sent);
  const open = () => {
    const s = sockets[sockets.length - 1];
    if (s && s.readyState === 0) { s.readyState = 1; s.dispatch("open"); }
  };
  const ids = new Set();

  for (const [bi, batch] of req.batches.entries()) {
    const calls = [];
    for (const [ci, c] of batch.entries()) {
      const mem = req.members[c.m];
      const args = c.args.map(J.dec);
      const results = c.results.map((alts) => alts.map((a) => J.toJson(J.dec(a))));
      const list = [...args.map((a, i) => [mem.args[i] ? mem.args[i].key : "unit", J.toJson(a)]), ...results.flatMap((r) => r.map((t) => [mem.res.key, t]))];
      const rt = await ask({ rt: list });
      if (rt.fatal) return { problems: [...problems, { kind: "crash", why: rt.fatal }], stats, samples };
      const ra = rt.slice(0, args.length);
      const call = { mem, args, ra, bad: c.bad, ci };
      let k = args.length;
      call.plan = [];
      for (const alts of results) {
        const outs = alts.map((t, i) => [t, rt[k + i][0]]);
        k += alts.length;
        const ok = outs.find(([, r]) => "v" in r);
        if (ok) call.plan.push(ok);
      }
      if (mem.kind === "method" && call.plan.length !== 1) { stats.skipped++; continue; }
      if (c.bad === "arity") {
        // every argument that is there is fine by itself
        if (!args.slice(0, mem.args.length).every((a, i) => parses(mem.args[i].key, a))) { stats.skipped++; continue; }
      } else if (c.bad !== null) {
        if (parses(mem.args[c.bad].key, args[c.bad]) !== false || !refused(ra[c.bad])) { stats.skipped++; continue; }
      } else {
        if (!args.every((a, i) => parses(mem.args[i].key, a) === true)) { stats.skipped++; continue; }
        if (!ra.every(fine)) {
          stats.skipped++;
          if (ra.some((r) => "v" in r[0] !== "v" in r[1])) stats.paths_differ++;
          continue;
        }
      }
      calls.push(call);
    }
    if (calls.length === 0) continue;
    for (const c of calls) made.push([bi, c.ci]);
    const late = rnd(4) === 0;
    const before = sent().length;
    for (const call of calls) {
      const f = exports[call.mem.ns] && exports[call.mem.ns][call.mem.name];
      call.what = `${call.mem.ns}.${call.mem.name}(${call.args.map((a) => short(J.toJson(a))).join(", ")})`;
      const problem = (kind, why) => problems.push({ kind, why: `${call.what}: ${why}`, batch: bi, call: call.ci });
      call.problem = problem;
      call.items = [];
      if (typeof f !== "function") { problem("missing", "there is no such function"); continue; }
      try {
        const r = f(...call.args);
        if (call.mem.kind === "method") {
          if (!r || typeof r.then !== "function") problem("result", "does not return a promise");
          else r.then((v) => { call.done = (call.done || 0) + 1; call.value = v; }, (e) => { call.error = e || "rejected"; });
        } else {
          call.store = r;
          call.stop = r.subscribe((v) => call.items.push(v));
        }
      } catch (e) {
        call.error = e || "thrown";
      }
      if (!late) open();
    }
    open();
    await tick();
    const frames = sent().slice(before);
    const good = calls.filter((c) => c.bad === null);
    for (const call of calls) {
      if (call.bad === null) {
        if (call.error) call.problem("refused", "valid arguments are refused: " + short(String(call.error)));
      } else {
        if (!call.error) call.problem("accepted", `arguments that ${call.bad === "arity" ? "are too few or too many" : "the types do not allow"} are not refused`);
        if (call.bad === "arity") stats.arity++; else stats.refused++;
      }
    }
    const expected = good.filter((c) => !c.error);
    if (problems.length) break;
    if (frames.length !== expected.length) {
      problems.push({ kind: "sent", batch: bi, why: `${calls.map((c) => c.what + (c.bad === null ? "" : " [invalid]")).join("; ")}: ${frames.length} frames were sent instead of ${expected.length}: ${short(frames)}` });
      break;
    }
    const answers = [];
    for (const [i, call] of expected.entries()) {
      let f;
      try { f = JSON.parse(frames[i]); } catch { call.problem("frame", "sent " + short(frames[i])); continue; }
      const x = f && f.exec;
      if (!x || typeof x.id !== "number" || ids.has(x.id)) { call.problem("frame", "sent " + short(frames[i]) + " (no new id)"); continue; }
      ids.add(x.id);
      const want = call.args.map((a) => JSON.parse(J.toJson(a)));
      if (x.namespace !== call.mem.ns || x.method !== call.mem.name || canon(x.args) !== canon(want)) {
        call.problem("frame", "sent " + short(frames[i]));
        continue;
      }
      const a = await ask({ req: frames[i], plan: call.plan.map(([t]) => t) });
      if (a.fatal) { call.problem("server", a.fatal); return { problems, stats, samples }; }
      if (a.trouble.length) call.problem("server", a.trouble.join());
      const logOk = a.log.length === 1 && a.log[0][0] === call.mem.ns && a.log[0][1] === call.mem.name &&
        a.log[0][2].length === call.args.length && a.log[0][2].every((v, k) => {
          const set = call.mem.args[k].set;
          return "v" in v && call.ra[k].some((r) => canon(r.v, set) === canon(v.v, set));
        });
      if (!logOk) { call.problem("called", `the server called ${short(a.log)} instead, it answered ${short(a.frames)}`); continue; }
      if (a.left) { call.problem("called", "the result was not asked for"); continue; }
      call.expect = call.plan.map(([, r]) => r.v);
      answers.push(a.frames);
      stats.valid++;
      if (call.mem.kind !== "method") { stats.streams++; stats.items += call.plan.length; }
      if (samples.length < 3 && call.args.length) samples.push(call.what + " -> " + short(call.expect));
    }
    if (expected.length > 1) stats.concurrent++;
    if (problems.length) break;
    // answers of different calls may come in any order
    while (answers.some((a) => a.length)) {
      const open_ = answers.filter((a) => a.length);
      const text = open_[rnd(open_.length)].shift();
      sockets[sockets.length - 1].dispatch("message", { data: text });
      if (rnd(2)) await tick();
    }
    await tick();
    await tick();
    for (const call of expected) {
      const set = call.mem.res.set;
      if (call.mem.kind === "method") {
        if (call.error) call.problem("result", "the promise is rejected: " + short(String(call.error)));
        else if (call.done !== 1) call.problem("result", `the promise did not settle, the server answered ${short(call.expect[0])}`);
        else if (canon(call.value, set) !== canon(call.expect[0], set)) call.problem("result", `resolves to ${short(call.value)}, the method returned ${short(call.expect[0])}`);
        else if (call.mem.typed && parses(call.mem.res.key, call.value) === false) call.problem("typed", `resolves to ${short(call.value)}, which is not a ${types[call.mem.res.key][1]}`);
      } else {
        const same = call.items.length === call.expect.length && call.items.every((v, k) => canon(v, set) === canon(call.expect[k], set));
        if (!same) call.problem("items", `received ${short(call.items)} instead of ${short(call.expect)}`);
        else if (call.mem.typed && !call.items.every((v) => parses(call.mem.res.key, v) !== false)) call.problem("typed", `received ${short(call.items)}, not all of it ${types[call.mem.res.key][1]}`);
        if (call.stop) call.stop();
      }
    }
    if (problems.length) break;
  }
  child.stdin.end();
  return { problems, stats, samples, code, types, made };
}

main().then((r) => { process.stdout.write(JSON.stringify(r)); process.exitCode = 0; }, (e) => { console.error(e); process.exit(3); });
