// Evaluates schema texts with zod and asks them about values.
// in:  {shim, relaxed, cases:[{id, ns:{N:{Type: text}}, exprs:[text], values:[[exprIndex, v]...]}]}
// markers: every named type accepts only an object that names it; lazy: named types may not be
// looked at while definitions are loaded
// out: [{id, errors:[...], results:[[accepted, json, parsedJson|null, known]...]}]
const J = require("./js.cjs");
const req = J.readInput();
if (req.shim) J.shimExtend();
if (req.relaxed) J.relax();
const brief = (i) => JSON.stringify({ ...i, unionErrors: undefined, path: i.path.slice(0, 20) }).slice(0, 300);
const out = [];
for (const c of req.cases) {
  const errors = [];
  const names = Object.keys(c.ns);
  const objs = names.map(() => ({}));
  let loading = true;
  const seen = new Set();
  const args = objs.map((o, i) => req.lazy ? new Proxy(o, {
    get(t, k) {
      if (loading) seen.add(names[i] + "." + String(k));
      return t[k];
    },
  }) : o);
  const compile = (text, what) => {
    try {
      return new Function("z", ...names, '"use strict"; return (' + text + "\n);")(J.z, ...args);
    } catch (e) {
      errors.push([what, String(e), text]);
      return null;
    }
  };
  names.forEach((n, i) => {
    for (const [t, text] of Object.entries(c.ns[n]))
      objs[i][t] = req.markers ? J.z.object({ ["ref:" + n + "." + t]: J.z.literal(1) })
        : compile(text, n + "." + t);
  });
  const exprs = c.exprs.map((t, i) => compile(t, "expr" + i));
  exprs.forEach((e, i) => {
    if (e !== null && !(e instanceof J.z.ZodType)) {
      errors.push(["expr" + i, "not a zod schema", c.exprs[i]]);
      exprs[i] = null;
    }
  });
  loading = false;
  for (const k of seen) errors.push([k, "looked at while definitions are loaded", JSON.stringify(c.ns).slice(0, 2000)]);
  const results = [];
  if (errors.length === 0)
    for (const [ei, tagged] of c.values) {
      const v = J.dec(tagged);
      const json = J.toJson(v);
      let r;
      try {
        r = exprs[ei].safeParse(v);
      } catch (e) {
        results.push(["throw", json, String(e), false]);
        continue;
      }
      if (r.success) results.push([true, json, J.toJson(r.data), J.same(v, r.data)]);
      else results.push([false, json, brief(r.error.issues[0]), false]);
    }
  out.push({ id: c.id, errors, results });
}
process.stdout.write(JSON.stringify(out));
