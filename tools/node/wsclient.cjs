// C15, C16: the generated client under a scripted WebSocket and clock, against a model.
// stdin: {text, prop, cases, seed, seconds} or {text, prop, replay: [ops]}
const fc = require("/opt/veriftools/node/node_modules/fast-check");
const { transpile, z } = require("./client.cjs");
const { socketClass, withGlobals } = require("./socket.cjs");
const crypto = require("crypto");

const DELAYS = [100, 200, 1000, 3000];
const URL = "ws://localhost:8000/ws";

// ---------------------------------------------------------------------------------------------
// the world

function world() {
  const w = { now: 0, timers: new Map(), nextTimer: 1, sockets: [], odd: [] };
  const WebSocket = socketClass(w, URL);
  const con = new Proxy({}, { get: () => () => {} });
  w.scope = {
    require: (n) => { if (n === "zod") return z; throw new Error("no module " + n); },
    console: con, WebSocket,
    performance: { now: () => w.now },
    setTimeout: (fn, ms = 0, ...args) => {
      w.timers.set(w.nextTimer, { at: w.now + Math.max(0, Number(ms) || 0), fn: () => fn(...args) });
      return w.nextTimer++;
    },
    clearTimeout: (id) => { w.timers.delete(id); },
    setInterval: () => { throw new Error("not in this world"); },
    queueMicrotask,
  };
  return w;
}

const flush = () => new Promise((r) => setImmediate(r));

// ---------------------------------------------------------------------------------------------
// the model: what the world has to look like

class Model {
  constructor(w) {
    Object.assign(this, { w, sockets: [], inUse: null, outbox: [], timer: null, failures: 0, listeners: 0 });
  }
  connect() {
    this.timer = null;
    this.inUse = this.sockets.length;
    this.sockets.push({ sent: [], closed: false });
  }
  state(i) {
    const s = this.w.sockets[i];
    return s ? s.readyState : 0;
  }
  // state is what the connection was when the client decided
  send(message) {
    const state = this.inUse === null ? 3 : this.state(this.inUse);
    if (state === 1) return void this.sockets[this.inUse].sent.push(message);
    this.outbox.push(message);
    if (state !== 0) this.connect();
  }
  opened(i) {
    if (i !== this.inUse) return;
    this.failures = 0;
    this.sockets[i].sent.push(...this.outbox.splice(0));
  }
  over(i) {
    if (i !== this.inUse) return;
    this.inUse = null;
    if (this.listeners > 0) this.timer = this.w.now + DELAYS[Math.min(this.failures++, 3)];
  }
  listen(n) {
    this.listeners += n;
    if (this.listeners > 0 || n > 0) return;
    this.timer = null;
    if (this.inUse !== null) {
      if (this.state(this.inUse) < 2 || this.w.sockets[this.inUse]?.closed) this.sockets[this.inUse].closed = true;
      this.inUse = null;
    }
  }
}

// ---------------------------------------------------------------------------------------------

const METHODS = [
  ["Tally", "add", (a) => [a]], ["Tally", "get", () => []], ["Tally", "push", (a, b) => [b, [1, 2], b]],
  ["Other", "add", (a) => [a]], ["Other", "get", () => []], ["Feed", "get", () => []], ["Tally", "fail", (a, b) => [b]],
];
const STREAMS = [
  ["Feed", "ticker", (a) => [a, 1, 2]], ["Feed", "snapshot", (a) => [a]], ["Feed", "flood", (a) => [a]],
];

// large values are written down by their size
const long = (s) => (s && s.repeat && /^#[0-9]+$/.test(s) ? "x".repeat(Number(s.slice(1))) : s);
const inflate = (v) => (v && v.$items ? Array.from({ length: v.$items }, (_, i) => i) : long(v));

async function runCase(js, prop, ops) {
  const w = world();
  const exports = {};
  const scope = withGlobals({ exports, module: { exports }, ...w.scope });
  new Function(...Object.keys(scope), js)(...Object.values(scope));
  const m = new Model(w);
  const bad = [];
  const stats = { calls: 0, streams: 0, frames: 0, "frames nobody waits for": 0, drops: 0, reconnects: 0, "calls while connecting": 0,
    "calls after a connection was closed": 0, settled: 0, delivered: 0, "last listener gone": 0, "changes while a frame is delivered": 0 };
  const wrong = (cls, text) => bad.push([cls, "at " + w.now + " ms: " + (text.length > 1500 ? text.slice(0, 1500) + "..." : text)]);
  const calls = [], streams = [], subs = [];
  const ids = new Map(); // id -> who
  let delivering = false;

  const live = () => { for (let i = w.sockets.length - 1; i >= 0; i--) if (w.sockets[i].readyState < 2) return w.sockets[i]; };

  function note(message) {
    const s = live();
    if (s && s.readyState === 0) stats["calls while connecting"]++;
    if (!s && w.sockets.length) stats["calls after a connection was closed"]++;
    m.send(message);
  }

  function call(op) {
    const [ns, name, f] = METHODS[op.m % METHODS.length];
    const c = { who: `call ${calls.length} (${ns}.${name})`, settled: 0, message: { ns, name, args: f(op.a, long(op.s)) } };
    calls.push(c);
    stats.calls++;
    if (delivering) stats["changes while a frame is delivered"]++;
    m.listen(1);
    note(Object.assign(c.message, { of: c }));
    let p;
    try { p = exports[ns][name](...c.message.args); } catch (e) { return wrong("deliver", `${c.who} threw ${e}`); }
    p.then((v) => {
      c.settled++;
      c.value = v;
      if (c.due === undefined) wrong("deliver", `${c.who} resolved without a response of its own, with ${JSON.stringify(v)}`);
      m.listen(-1);
      if (m.listeners === 0) stats["last listener gone"]++;
      if (op.then) call(op.then);
    }, (e) => wrong("deliver", `${c.who} was rejected: ${e}`));
  }

  function stream(op) {
    const [ns, name, f] = STREAMS[op.m % STREAMS.length];
    const s = { who: `stream ${streams.length} (${ns}.${name})`, message: { ns, name, args: f(op.a) } };
    streams.push(s);
    stats.streams++;
    note(Object.assign(s.message, { of: s }));
    try { s.store = exports[ns][name](...s.message.args); } catch (e) { wrong("deliver", `${s.who} threw ${e}`); }
  }

  function subscribe(op) {
    if (!streams.length) return;
    const s = streams[op.i % streams.length];
    if (!s.store) return;
    const sub = { s, who: `subscriber ${subs.length} of ${s.who}`, active: true, got: 0, expected: 0, react: op.react };
    subs.push(sub);
    if (delivering) stats["changes while a frame is delivered"]++;
    m.listen(1);
    sub.off = s.store.subscribe((v) => {
      if (!sub.active) wrong("deliver", `${sub.who} got ${JSON.stringify(v)} after it had unsubscribed`);
      if (!delivering) wrong("deliver", `${sub.who} got ${JSON.stringify(v)} out of the blue`);
      sub.got++;
      sub.last = JSON.stringify(v);
      stats.delivered++;
      const r = sub.react && sub.react.shift();
      if (!r) return;
      if (r.op === "throw") throw new Error("from a subscriber");
      if (r.op === "self") { unsubscribe(sub); if (r.again) subscribe({ i: streams.indexOf(s), react: [] }); }
      else act(r);
    });
  }

  function unsubscribe(sub) {
    if (!sub.active) return;
    sub.active = false;
    if (delivering) stats["changes while a frame is delivered"]++;
    m.listen(-1);
    if (m.listeners === 0) stats["last listener gone"]++;
    sub.off();
  }

  function act(op) {
    switch (op.op) {
      case "call": return call(op);
      case "stream": return stream(op);
      case "sub": return subscribe(op);
      case "unsub": {
        const on = subs.filter((s) => s.active);
        if (on.length) unsubscribe(on[op.i % on.length]);
        return;
      }
      case "burst": { // many at once
        const big = { m: op.m, a: op.a, s: op.s };
        for (let k = 0; k < op.n; k++) op.kind === "call" ? call(big) : stream(big);
        return;
      }
      case "again": {
        // only where it can not be taken for the end of something else
        const off = subs.filter((s) => !s.active);
        if (off.length && m.listeners > 0) off[op.i % off.length].off();
      }
    }
  }

  function frame(op) {
    const s = live();
    if (!s || s.readyState !== 1) return;
    const data = inflate(op.data);
    const known = [...calls, ...streams].filter((x) => x.id !== undefined);
    let kind = op.kind, id = 1000000000 + op.i, target;
    const pick = { call: calls, stream: streams }[kind];
    if (pick) {
      const of = pick.filter((x) => x.id !== undefined);
      if (of.length) {
        // the latest ones first
        target = of[of.length - 1 - (op.i % of.length)];
        id = target.id;
      }
    }
    stats.frames++;
    let res;
    if (kind === "error") {
      const of = known.length && op.i % 3 ? known[op.i % known.length] : null;
      res = { error: { id: of ? of.id : null, data: "no such thing" } };
      target = undefined;
    } else res = kind === "call" ? { method: { id, data } } : { stream: { id, data } };
    const before = subs.map((x) => [x, x.active, x.got]);
    const waiting = target && (kind === "call" ? !("due" in target) || target.due === undefined : subs.some((x) => x.active && x.s === target));
    if (!waiting) stats["frames nobody waits for"]++;
    if (target && kind === "call" && target.due === undefined) target.due = JSON.stringify(data);
    delivering = true;
    s.dispatch("message", { data: JSON.stringify(res) });
    delivering = false;
    for (const [x, active, got] of before) {
      const mine = kind === "stream" && x.s === target && active;
      const n = x.got - got;
      if (n > (mine ? 1 : 0)) wrong("deliver", `${x.who} got ${n} items for the frame ${JSON.stringify(res)}`);
      if (mine && x.active && n !== 1) wrong("deliver", `${x.who} did not get ${JSON.stringify(res)}`);
      if (n && x.last !== JSON.stringify(data)) wrong("deliver", `${x.who} got ${x.last} from ${JSON.stringify(res)}`);
    }
    for (const x of subs.slice(before.length)) {
      if (x.got) wrong("deliver", `${x.who} subscribed after the frame ${JSON.stringify(res)} had come, but got it`);
    }
  }

  function environment(op) {
    switch (op.op) {
      case "open": {
        const s = live();
        if (!s || s.readyState !== 0) return;
        s.readyState = 1;
        m.opened(s.n);
        return s.dispatch("open");
      }
      case "closing": { // the other end has started the closing handshake
        const s = live();
        if (s && s.readyState === 1) s.readyState = 2;
        return;
      }
      case "error": {
        const s = live();
        if (s) s.dispatch("error");
        return;
      }
      case "closed": {
        const all = w.sockets.filter((s) => s.readyState < 3);
        if (!all.length) return;
        // the latest ones first
        const s = all[all.length - 1 - (op.i % all.length)];
        if (s.readyState < 2) stats.drops++;
        const failed = s.readyState === 0 || op.fail;
        s.readyState = 3;
        if (failed) s.dispatch("error");
        m.over(s.n);
        return s.dispatch("close", { wasClean: !failed, code: failed ? 1006 : 1000, reason: "" });
      }
      case "frame": return frame(op);
    }
  }

  function compare() {
    for (const c of calls) {
      if (c.due !== undefined && (c.settled !== 1 || JSON.stringify(c.value) !== c.due))
        wrong("deliver", `${c.who} got ${c.due}, but ${c.settled ? "resolved with " + JSON.stringify(c.value) : "was not resolved"}`);
      if (c.due === undefined && c.settled) wrong("deliver", `${c.who} was resolved without a response`);
    }
    if (w.sockets.length !== m.sockets.length)
      wrong("connect", `${w.sockets.length} connections were opened instead of ${m.sockets.length}`);
    if (w.sockets.filter((s) => s.readyState < 2).length > 1) wrong("connect", "two connections in use");
    for (const o of w.odd.splice(0)) wrong("connect", o);
    w.sockets.forEach((s, i) => {
      const want = m.sockets[i] || { sent: [], closed: false };
      if (s.lost.length) wrong("connect", `sent to connection ${i} when it was closed: ${s.lost}`);
      if (s.closed !== want.closed) wrong("connect", `connection ${i} was ${s.closed ? "" : "not "}closed`);
      for (let k = 0; k < Math.max(s.sent.length, want.sent.length); k++) {
        if (want.sent[k] && want.sent[k].seen && s.sent[k] !== undefined) continue;
        let v;
        try { v = JSON.parse(s.sent[k]); } catch { v = null; }
        const e = v && v.exec;
        if (!want.sent[k]) { wrong("connect", `connection ${i} also sent ${s.sent[k]}`); break; }
        const { ns, name, args, of } = want.sent[k];
        if (s.sent[k] === undefined) { wrong("connect", `connection ${i} did not send ${of.who}`); break; }
        if (!e || Object.keys(v).length !== 1 || e.namespace !== ns || e.method !== name ||
            JSON.stringify(e.args) !== JSON.stringify(args) || Object.keys(e).length !== 4) {
          wrong("connect", `connection ${i} sent ${s.sent[k]} instead of ${of.who}`);
          break;
        }
        if (!Number.isSafeInteger(e.id) || e.id < 0) wrong("deliver", `${of.who} has the id ${e.id}`);
        else if (ids.has(e.id)) wrong("deliver", `${of.who} and ${ids.get(e.id)} have the id ${e.id}`);
        ids.set(e.id, of.who);
        of.id = e.id;
        want.sent[k].seen = true;
      }
    });
  }

  async function wait(ms) {
    const end = w.now + ms;
    for (let n = 0; n < 1000; n++) {
      let next = end;
      for (const t of w.timers.values()) next = Math.min(next, t.at);
      if (m.timer !== null) next = Math.min(next, m.timer);
      w.now = Math.max(w.now, next);
      let fired = false;
      for (const [id, t] of [...w.timers]) {
        if (t.at <= w.now && w.timers.has(id)) {
          w.timers.delete(id);
          try { t.fn(); } catch (e) { w.thrown = e; }
          fired = true;
        }
      }
      if (m.timer !== null && m.timer <= w.now) { stats.reconnects++; m.connect(); fired = true; }
      await flush();
      if (fired) { compare(); if (bad.length) return; }
      else if (w.now >= end) return;
    }
  }

  // one connection after the other fails
  async function outage(n) {
    for (let k = 0; k < n && !bad.length; k++) {
      environment({ op: "closed", i: 0, fail: true });
      await flush();
      compare();
      if (!bad.length) await wait(3000);
    }
  }

  const cls = prop === "C15" ? "deliver" : "connect";
  const failed = () => bad.filter((b) => b[0] === cls);
  let step = 0;
  for (const op of [...ops, { op: "wait", ms: 20000 }]) {
    if (op.op === "wait") await wait(op.ms);
    else if (op.op === "outage") await outage(op.n);
    else if (["open", "closing", "error", "closed", "frame"].includes(op.op)) environment(op);
    else act(op);
    await flush();
    compare();
    if (failed().length) return { why: `step ${step} (${op.op}): ` + failed()[0][1], stats };
    // something else is wrong: what follows can not be predicted
    if (bad.length) return { stats, astray: bad[0][1] };
    step++;
  }
  stats.settled = calls.filter((c) => c.settled).length;
  return { stats };
}

// ---------------------------------------------------------------------------------------------

const data = fc.oneof({ weight: 300, arbitrary: fc.integer() }, { weight: 100, arbitrary: fc.jsonValue({ maxDepth: 2 }).filter((v) => !Object.is(v, -0)) },
  { weight: 100, arbitrary: fc.constantFrom(null, false, 0, "", [], {}, { id: 1 }, { method: { id: 1, data: 2 } }) },
  { weight: 2, arbitrary: fc.constantFrom("#5000", { $items: 3000 }) }, { weight: 1, arbitrary: fc.constantFrom("#70000", "#1100000", { $items: 20000 }) });
const small = fc.nat(7);
const callOp = (then) => fc.record({ op: fc.constant("call"), m: small, a: fc.integer(),
  s: fc.oneof({ weight: 60, arbitrary: fc.string({ unit: "binary", maxLength: 6 }) }, { weight: 1, arbitrary: fc.constantFrom("#1000", "#70000") }), then });
const react = fc.array(fc.oneof(
  fc.record({ op: fc.constant("self"), again: fc.boolean() }),
  fc.record({ op: fc.constant("unsub"), i: small }),
  fc.record({ op: fc.constant("sub"), i: small, react: fc.constant([]) }),
  fc.record({ op: fc.constant("throw") }),
  callOp(fc.constant(null)), fc.constant(null)), { maxLength: 3 });
const opArb = (prop) => {
  const routing = prop === "C15";
  const w = (weight, arbitrary) => ({ weight, arbitrary });
  const rare = fc.oneof(
    fc.record({ op: fc.constant("outage"), n: fc.nat(40) }),
    fc.record({ op: fc.constant("burst"), kind: fc.constantFrom("call", "call", "stream"), m: small, a: fc.integer({ min: 0, max: 99 }), s: fc.constant("s"),
      n: fc.oneof(w(6, fc.nat(40)), w(2, fc.integer({ min: 100, max: 300 })), w(1, fc.constantFrom(1100, 2000))) }));
  const usual = fc.oneof(
    w(6, callOp(fc.option(callOp(fc.constant(null)), { freq: 5 }))),
    w(4, fc.record({ op: fc.constant("stream"), m: small, a: fc.nat(99) })),
    w(routing ? 8 : 6, fc.record({ op: fc.constant("sub"), i: small,
      react: fc.oneof(w(2, fc.constant([])), w(1, react)) })),
    w(routing ? 2 : 5, fc.record({ op: fc.constant("unsub"), i: small })),
    w(1, fc.record({ op: fc.constant("again"), i: small })),
    w(8, fc.record({ op: fc.constant("open") })),
    w(1, fc.record({ op: fc.constant("closing") })),
    w(1, fc.record({ op: fc.constant("error") })),
    w(routing ? 1 : 5, fc.record({ op: fc.constant("closed"), i: fc.nat(2), fail: fc.boolean() })),
    w(routing ? 24 : 8, fc.record({ op: fc.constant("frame"),
      kind: fc.constantFrom("call", "call", "stream", "stream", "stream", "unknown", "error"), i: small, data })),
    w(routing ? 1 : 5, fc.record({ op: fc.constant("wait"),
      ms: fc.constantFrom(1, 50, 99, 100, 101, 200, 900, 999, 1000, 1001, 2999, 3000, 9000) })),
  );
  return fc.oneof(w(400, usual), w(1, rare));
};

async function main() {
  const req = JSON.parse(require("fs").readFileSync(0, "utf8"));
  const js = transpile(req.text);
  const out = { cases: 0, nontrivial: [], numbers: {}, samples: [], failure: null, astray: 0 };
  if (req.replay) {
    const r = await runCase(js, req.prop, req.replay);
    out.cases = 1;
    if (r.why) out.failure = { why: r.why, case: req.replay };
    process.stdout.write(JSON.stringify(out));
    return;
  }
  const seen = new Set();
  const t0 = Date.now();
  const ops = fc.array(opArb(req.prop), { maxLength: 100, size: "max" });
  const property = fc.asyncProperty(ops, async (list) => {
    if (!out.failure && Date.now() - t0 > req.seconds * 1000) return;
    const copy = JSON.stringify(list);
    if (req.running) require("fs").writeFileSync(req.running, copy);
    const r = await runCase(js, req.prop, JSON.parse(copy));
    if (r.why) { out.failure = {}; throw new Error(r.why); }
    if (out.failure) return; // shrinking
    out.cases++;
    if (r.astray) out.astray++;
    for (const [k, v] of Object.entries(r.stats)) out.numbers[k] = (out.numbers[k] || 0) + v;
    const s = r.stats;
    const ok = req.prop === "C15" ? s.settled + s.delivered >= 3 && s["frames nobody waits for"] > 0
      : s.drops > 0 && s["calls after a connection was closed"] + s.reconnects > 0;
    if (ok) {
      seen.add(crypto.createHash("md5").update(copy).digest("hex").slice(0, 12));
      if (out.samples.length < 3 && copy.length < 1500) out.samples.push(JSON.parse(copy));
    }
  });
  const r = await fc.check(property, { seed: req.seed, numRuns: req.cases, verbose: 0, interruptAfterTimeLimit: undefined });
  if (r.failed) {
    const e = r.errorInstance ?? r.error;
    out.failure = { why: String(e && e.message ? e.message : e).slice(0, 2000), case: r.counterexample[0] };
  }
  if (!out.failure && req.endless) {
    // a client that has been used for very long
    const some = (k) => fc.sample(fc.array(opArb(req.prop), { maxLength: 60, size: "max" }), { seed: req.seed + k, numRuns: 1 })[0];
    const list = [...some(1), { op: "burst", kind: "stream", m: 0, a: 1, s: "s", n: 70000 }, ...some(2)];
    if (req.running) require("fs").writeFileSync(req.running, JSON.stringify(list));
    const l = await runCase(js, req.prop, list);
    out.cases++;
    if (l.why) out.failure = { why: l.why, case: list };
  }
  out.nontrivial = [...seen];
  process.stdout.write(JSON.stringify(out));
}

main().catch((e) => { console.error(e); process.exit(3); });
