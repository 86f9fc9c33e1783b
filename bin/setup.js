#!/usr/bin/env node
"use strict";
// Nothing to install: checks the tools and that /repo can be transpiled and the specs parsed.
const cp = require("node:child_process");
const fs = require("node:fs");
const path = require("node:path");
const { build, VERIF } = require("../lib/build");
cp.execFileSync("java", ["-version"], { stdio: "ignore" });
const jars = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar";
for (const j of jars.split(":")) if (!fs.existsSync(j)) throw new Error("missing " + j);
console.log("transpiled to", build());
const specs = fs.readdirSync(path.join(VERIF, "spec")).filter((f) => f.endsWith(".tla"));
for (const s of specs) {
  const r = cp.spawnSync("java", ["-Djava.io.tmpdir=" + path.join(VERIF, ".build"), "-cp", jars, "tla2sany.SANY", s], { cwd: path.join(VERIF, "spec"), encoding: "utf8" });
  if (r.status !== 0) { console.error(r.stdout); process.exit(1); }
}
console.log(specs.length + " specification modules parsed");
