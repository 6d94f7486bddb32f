// Type-checks many small modules in one program.
// in:  {files: [{id, text}], lib: [names], ambient: {name: text}}
// out: [{id, diags: [[line, code, message, syntactic]]}]
const ts = require("/opt/veriftools/node/node_modules/typescript");
const path = require("path");
const req = JSON.parse(require("fs").readFileSync(0, "utf8"));
const options = {
  strict: true, noEmit: true, target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ES2022,
  moduleResolution: ts.ModuleResolutionKind.Node10 ?? ts.ModuleResolutionKind.NodeJs,
  skipLibCheck: true, types: [], lib: ["lib.es2022.d.ts"].concat(req.dom ? ["lib.dom.d.ts"] : []),
  noErrorTruncation: false, skipDefaultLibCheck: true,
};
const files = new Map(req.files.map((f) => ["/virt/" + f.id + ".ts", f.text]));
const host = ts.createCompilerHost(options);
const readFile = host.readFile, fileExists = host.fileExists, getSource = host.getSourceFile;
host.fileExists = (n) => files.has(n) || fileExists.call(host, n);
host.readFile = (n) => (files.has(n) ? files.get(n) : readFile.call(host, n));
host.getSourceFile = (n, ...r) =>
  files.has(n) ? ts.createSourceFile(n, files.get(n), options.target, true) : getSource.call(host, n, ...r);
host.getCurrentDirectory = () => "/virt";
host.directoryExists = () => true;
if (req.zod) {
  const dts = "/opt/veriftools/node/node_modules/zod/v3/index.d.ts";
  host.resolveModuleNames = (names, from) =>
    names.map((n) => (n === "zod" ? { resolvedFileName: dts } :
      ts.resolveModuleName(n, from, options, host).resolvedModule));
}
const program = ts.createProgram([...files.keys()], options, host);
const out = [];
for (const f of req.files) {
  const sf = program.getSourceFile("/virt/" + f.id + ".ts");
  const diags = [];
  const put = (ds, syn) => {
    for (const d of ds) {
      const line = d.start === undefined ? 0 : sf.getLineAndCharacterOfPosition(d.start).line;
      diags.push([line, d.code, ts.flattenDiagnosticMessageText(d.messageText, "\n").slice(0, 400), syn]);
    }
  };
  put(program.getSyntacticDiagnostics(sf), true);
  put(program.getSemanticDiagnostics(sf), false);
  out.push({ id: f.id, diags });
}
process.stdout.write(JSON.stringify(out));
