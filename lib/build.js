"use strict";
// Transpiles /repo/src (non-test files) from the current working tree into a
// private folder of this run, with the repository's own TypeScript.
const fs = require("node:fs");
const path = require("node:path");

const VERIF = path.resolve(__dirname, "..");
const REPO = process.env.VERIF_REPO || "/repo";
const BUILD = path.join(VERIF, ".build");

function walk(dir, out = []) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true })) {
    const f = path.join(dir, e.name);
    if (e.isDirectory()) walk(f, out);
    else out.push(f);
  }
  return out;
}

function scratch(name) {
  fs.mkdirSync(BUILD, { recursive: true });
  const d = fs.mkdtempSync(path.join(BUILD, name + "-"));
  process.on("exit", () => {
    if (!process.env.VERIF_KEEP) fs.rmSync(d, { recursive: true, force: true });
  });
  return d;
}

function build() {
  const ts = require(path.join(REPO, "node_modules/typescript"));
  const root = scratch("js");
  fs.symlinkSync(path.join(REPO, "node_modules"), path.join(root, "node_modules"));
  fs.copyFileSync(path.join(REPO, "package.json"), path.join(root, "package.json"));
  const srcDir = path.join(REPO, "src");
  const outDir = path.join(root, "dist");
  for (const f of walk(srcDir)) {
    const rel = path.relative(srcDir, f);
    if (!/\.[cm]?ts$/.test(rel) || /\.spec\.ts$/.test(rel) || /\.d\.ts$/.test(rel)) {
      if (/\.(js|json|pl)$/.test(rel)) {
        fs.mkdirSync(path.dirname(path.join(outDir, rel)), { recursive: true });
        fs.copyFileSync(f, path.join(outDir, rel));
      }
      continue;
    }
    if (rel.startsWith("update" + path.sep)) continue;
    const r = ts.transpileModule(fs.readFileSync(f, "utf8"), {
      fileName: f,
      reportDiagnostics: true,
      compilerOptions: {
        target: ts.ScriptTarget.ES2022,
        module: ts.ModuleKind.CommonJS,
        esModuleInterop: true,
        isolatedModules: true,
        removeComments: false,
      },
    });
    const errs = (r.diagnostics || []).filter(
      (d) => d.category === ts.DiagnosticCategory.Error && d.file != null,
    );
    if (errs.length > 0) {
      throw new Error("cannot transpile " + rel + ": " + ts.flattenDiagnosticMessageText(errs[0].messageText, "\n"));
    }
    const out = path.join(outDir, rel.replace(/\.ts$/, ".js"));
    fs.mkdirSync(path.dirname(out), { recursive: true });
    fs.writeFileSync(out, r.outputText);
  }
  return outDir;
}

module.exports = { build, scratch, VERIF, REPO, BUILD };
