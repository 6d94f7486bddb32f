// tagged JSON <-> JavaScript values, the JSON codec clients use, and zod variants
const path = "/opt/veriftools/node/node_modules/";
const z = require(path + "zod/v3");
const UND = {};

function dec(v) {
  if (v === null || typeof v !== "object") return v;
  if ("u" in v) return undefined;
  if ("n" in v) return Number(v.n);
  if ("a" in v) return v.a.map(dec);
  if ("s" in v) return new Set(v.s.map(dec));
  if ("m" in v) return new Map(v.m.map(([k, x]) => [dec(k), dec(x)]));
  const o = {};
  for (const [k, x] of v.o) o[k] = dec(x);
  return o;
}

function replacer(_, v) {
  if (v instanceof Set) return [...v];
  if (v instanceof Map) return Object.fromEntries(v);
  return v;
}

// undefined at the top level is an argument: null
function toJson(v) {
  const s = JSON.stringify(v, replacer);
  return s === undefined ? "null" : s;
}

// structural equality, undefined members are absent members
function same(a, b) {
  if (Object.is(a, b) || a === b) return true;
  if (a === null || b === null || typeof a !== "object" || typeof b !== "object") return false;
  if (Array.isArray(a)) {
    return Array.isArray(b) && a.length === b.length && a.every((x, i) => same(x, b[i]));
  }
  if (a instanceof Set) {
    const [x, y] = [[...a], b instanceof Set ? [...b] : []];
    return b instanceof Set && x.length === y.length && x.every((e, i) => same(e, y[i]));
  }
  if (a instanceof Map) {
    const [x, y] = [[...a], b instanceof Map ? [...b] : []];
    return b instanceof Map && x.length === y.length && x.every((e, i) => same(e, y[i]));
  }
  if (Array.isArray(b) || b instanceof Set || b instanceof Map) return false;
  const keys = new Set([...Object.keys(a), ...Object.keys(b)]);
  for (const k of keys) if (!same(a[k], b[k])) return false;
  return true;
}

// recorded finding: zod's extend() only takes shapes. Flattened structs are judged by what the
// text means, an object with the members of both.
function shimExtend() {
  const orig = z.ZodObject.prototype.extend;
  z.ZodType.prototype.extend = function (other) {
    if (other instanceof z.ZodType) return z.intersection(this, other);
    return orig.call(this, other);
  };
  z.ZodObject.prototype.extend = z.ZodType.prototype.extend;
}

// removes everything a TypeScript type can not express
function relax() {
  const id = function () { return this; };
  for (const k of ["int", "finite", "lte", "gte", "lt", "gt", "min", "max", "nonnegative", "positive",
    "negative", "nonpositive", "multipleOf", "safe", "step"])
    if (z.ZodNumber.prototype[k]) z.ZodNumber.prototype[k] = id;
  for (const k of ["regex", "length", "min", "max", "ip", "url", "uuid", "email", "cidr", "datetime",
    "startsWith", "endsWith", "includes", "nonempty"])
    if (z.ZodString.prototype[k]) z.ZodString.prototype[k] = id;
  for (const C of [z.ZodArray, z.ZodSet])
    for (const k of ["length", "min", "max", "nonempty", "size"]) if (C.prototype[k]) C.prototype[k] = id;
  z.ZodType.prototype.refine = id;
  z.ZodType.prototype.superRefine = id;
}

function readInput() {
  return JSON.parse(require("fs").readFileSync(0, "utf8"));
}

module.exports = { z, dec, toJson, same, replacer, shimExtend, relax, readInput, path };
