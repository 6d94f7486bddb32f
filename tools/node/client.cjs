// Loads a generated client module into a world of its own: fake sockets, clock and console.
const ts = require("/opt/veriftools/node/node_modules/typescript");
const vm = require("vm");
const { z } = require("./js.cjs");
const { socketClass, withGlobals } = require("./socket.cjs");

function transpile(text) {
  return ts.transpileModule(text, {
    compilerOptions: { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.CommonJS },
  }).outputText;
}

// world: what the module may look at besides the language itself
function load(text, world = {}) {
  const sockets = [];
  const WebSocket = socketClass({ sockets });
  const nop = () => {};
  const con = {};
  for (const k of ["log", "warn", "debug", "trace", "info", "error", "table", "group", "groupEnd", "time", "timeEnd"])
    con[k] = nop;
  const exports = {};
  const scope = withGlobals({
    exports, module: { exports },
    require: (n) => { if (n === "zod") return z; throw new Error("no module " + n); },
    console: con, WebSocket, performance: { now: () => 0 }, setTimeout: () => 0, clearTimeout: nop, ...world,
  });
  const js = transpile(text);
  new Function(...Object.keys(scope), js)(...Object.values(scope));
  return { exports, sockets, js };
}

module.exports = { load, transpile, z };
