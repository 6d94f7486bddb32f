// Takes generated client modules apart and loads them.
// in:  [{id, text, load}]
// out: [{id, syntax:[msg], semantic:[[code,msg]], namespaces:{N:[member]}, top:[member], loadError, loaded:{N:{name:kind}},
//        blockComments, sockets}]
const ts = require("/opt/veriftools/node/node_modules/typescript");
const client = require("./client.cjs");
const req = JSON.parse(require("fs").readFileSync(0, "utf8"));
const printer = ts.createPrinter({ removeComments: true, newLine: ts.NewLineKind.LineFeed });

const ZOD = "/opt/veriftools/node/node_modules/zod/v3/index.d.ts";
const options = {
  strict: true, noEmit: true, target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.CommonJS,
  moduleResolution: ts.ModuleResolutionKind.Node10 ?? ts.ModuleResolutionKind.NodeJs,
  skipLibCheck: true, types: [], lib: ["lib.es2022.d.ts", "lib.dom.d.ts"], skipDefaultLibCheck: true,
};

if (req.lax) options.strict = false;

function program(files) {
  const map = new Map(files.map((f) => ["/virt/" + f.id + ".ts", f.text]));
  const host = ts.createCompilerHost(options);
  const { readFile, fileExists, getSourceFile } = host;
  host.fileExists = (n) => map.has(n) || fileExists.call(host, n);
  host.readFile = (n) => (map.has(n) ? map.get(n) : readFile.call(host, n));
  host.getSourceFile = (n, ...r) =>
    map.has(n) ? ts.createSourceFile(n, map.get(n), options.target, true) : getSourceFile.call(host, n, ...r);
  host.getCurrentDirectory = () => "/virt";
  host.resolveModuleNames = (names, from) =>
    names.map((n) => (n === "zod" ? { resolvedFileName: ZOD } :
      ts.resolveModuleName(n, from, options, host).resolvedModule));
  return ts.createProgram([...map.keys()], options, host);
}

const exported = (n) => (ts.getCombinedModifierFlags(n) & ts.ModifierFlags.Export) !== 0 ||
  (n.modifiers || []).some((x) => x.kind === ts.SyntaxKind.ExportKeyword);

function comments(sf, n) {
  const text = sf.text;
  const rs = ts.getLeadingCommentRanges(text, n.getFullStart()) || [];
  return rs.map((r) => ({
    block: r.kind === ts.SyntaxKind.MultiLineCommentTrivia,
    text: text.slice(r.pos, r.end),
    // between the comment and the statement there is nothing but one line break
    attached: /^[ \t]*\r?\n?[ \t]*$/.test(text.slice(r.end, n.getStart(sf))),
  }));
}

function members(sf, statements) {
  const out = [];
  for (const s of statements) {
    const print = (n) => printer.printNode(ts.EmitHint.Unspecified, n, sf);
    const base = { exported: exported(s), comments: comments(sf, s), text: print(s) };
    if (ts.isVariableStatement(s)) {
      for (const d of s.declarationList.declarations)
        out.push({ ...base, kind: s.declarationList.flags & ts.NodeFlags.Const ? "const" : "variable",
          name: d.name.getText(sf), init: d.initializer ? print(d.initializer) : null });
    } else if (ts.isInterfaceDeclaration(s)) {
      out.push({ ...base, kind: "interface", name: s.name.text,
        init: "{" + s.members.map((m) => print(m)).join("\n") + "}" });
    } else if (ts.isTypeAliasDeclaration(s)) {
      out.push({ ...base, kind: "type", name: s.name.text, init: print(s.type) });
    } else if (ts.isFunctionDeclaration(s)) {
      out.push({ ...base, kind: "function", name: s.name.text, params: s.parameters.length,
        async: (s.modifiers || []).some((x) => x.kind === ts.SyntaxKind.AsyncKeyword),
        result: s.type ? print(s.type) : null, types: s.parameters.map((p) => (p.type ? print(p.type) : null)) });
    } else if (ts.isModuleDeclaration(s)) {
      out.push({ ...base, text: "", kind: "namespace", name: s.name.text,
        members: s.body && s.body.statements ? members(sf, s.body.statements) : null });
    } else if (s.kind !== ts.SyntaxKind.EmptyStatement) {
      out.push({ ...base, kind: "other", name: ts.SyntaxKind[s.kind] });
    }
  }
  return out;
}

// block comments anywhere in the text
function blockComments(sf) {
  const seen = new Map();
  const visit = (n) => {
    for (const r of [...(ts.getLeadingCommentRanges(sf.text, n.getFullStart()) || []),
      ...(ts.getTrailingCommentRanges(sf.text, n.getEnd()) || [])])
      if (r.kind === ts.SyntaxKind.MultiLineCommentTrivia) seen.set(r.pos, sf.text.slice(r.pos, r.end));
    n.getChildren(sf).forEach(visit);
  };
  visit(sf);
  return [...seen.values()];
}

// the type as it prints inside an alias, to compare types written in different ways
function normType(text) {
  const sf = ts.createSourceFile("x.ts", "type X = " + text + ";", options.target, true);
  if (sf.parseDiagnostics.length) return "invalid: " + text;
  const t = sf.statements[0].type;
  if (ts.isTypeLiteralNode(t))
    return "{" + t.members.map((m) => printer.printNode(ts.EmitHint.Unspecified, m, sf)).join("\n") + "}";
  return printer.printNode(ts.EmitHint.Unspecified, t, sf);
}
function normExpr(text) {
  const sf = ts.createSourceFile("x.ts", "(" + text + "\n);", options.target, true);
  if (sf.parseDiagnostics.length) return "invalid: " + text;
  return printer.printNode(ts.EmitHint.Unspecified, sf.statements[0].expression.expression, sf);
}

const tails = req.files.filter((f) => f.tail !== undefined).map((f) => ({ id: f.id + ".tail", text: f.text + f.tail }));
const prog = program([...req.files, ...tails]);
const result = [];
for (const f of req.files) {
  const sf = prog.getSourceFile("/virt/" + f.id + ".ts");
  const flat = (d) => ts.flattenDiagnosticMessageText(d.messageText, "\n").slice(0, 300);
  const r = { id: f.id };
  r.syntax = prog.getSyntacticDiagnostics(sf).map(flat);
  r.semantic = f.semantic ? prog.getSemanticDiagnostics(sf).map((d) => [d.code, flat(d)]) : [];
  // what the checker says about lines that were added after the module
  if (f.tail !== undefined) {
    const sf2 = prog.getSourceFile("/virt/" + f.id + ".tail.ts");
    r.tail = prog.getSemanticDiagnostics(sf2).filter((d) => d.start >= f.text.length).map((d) =>
      [d.code, flat(d), f.tail.slice(0, d.start - f.text.length).split("\n").length - 1]);
  }
  r.top = members(sf, sf.statements);
  r.blockComments = blockComments(sf);
  r.types = (f.types || []).map(normType);
  r.exprs = (f.exprs || []).map(normExpr);
  r.loadError = null;
  r.loaded = {};
  if (f.load && r.syntax.length === 0) {
    try {
      const env = client.load(f.text);
      for (const [n, ns] of Object.entries(env.exports)) {
        if (typeof ns !== "object" || ns === null) continue;
        r.loaded[n] = {};
        for (const [k, v] of Object.entries(ns))
          r.loaded[n][k] = v instanceof client.z.ZodType ? "schema" : typeof v;
      }
      r.sockets = env.sockets.length;
    } catch (e) {
      r.loadError = String(e && e.stack ? e.stack : e).slice(0, 600);
    }
  }
  result.push(r);
}
process.stdout.write(JSON.stringify(result));
