"use strict";
// Runs a check in a child process, so that code that never returns or that
// exhausts the memory is reported instead of taking the check along.
const cp = require("node:child_process");
const fs = require("node:fs");
const path = require("node:path");
module.exports = (file, argv) => {
  const id = argv[0];
  const tier = argv[1] || process.env.VERIF_TIER || "quick";
  const limit = (tier === "thorough" ? 1800 : 300) * 1000;
  const t0 = Date.now();
  const child = cp.spawn(process.execPath, [...process.execArgv, file, ...argv], { stdio: ["ignore", "inherit", "inherit", "ipc"], env: { ...process.env, VERIF_SUPERVISED: "1" } });
  let last = Date.now(), prev = Date.now(), why;
  child.on("message", () => (last = Date.now()));
  const timer = setInterval(() => {
    // a pause of the whole machine does not count
    const now = Date.now();
    if (now - prev > 10000) last += now - prev;
    prev = now;
    if (now - last > limit) {
      why = `the code under test blocks: it has not returned for ${limit / 1000} s`;
      child.kill("SIGKILL");
    }
  }, 1000);
  for (const s of ["SIGTERM", "SIGINT", "SIGHUP"]) process.on(s, () => { child.kill(s); process.exit(2); });
  child.on("exit", (code, signal) => {
    clearInterval(timer);
    if (!why && signal === "SIGABRT") why = "the code under test exhausts the memory";
    if (!why) process.exit(code ?? 2);
    const dir = path.join(path.dirname(path.dirname(file)), "evidence");
    fs.mkdirSync(dir, { recursive: true });
    const replay = path.join(dir, `${id}-violation-1.json`);
    fs.writeFileSync(replay, JSON.stringify({ key: "blocked", message: why }, null, 1) + "\n");
    fs.writeFileSync(path.join(dir, id + ".json"), JSON.stringify({ property: id, tier, seed: Number(process.env.VERIF_SEED || 1), level: "model_checking", coverage: { states: 0, transitions: 0, traces_validated_against_impl: 0, events_validated_against_impl: 0, samples: 0 }, wall_s: Math.round((Date.now() - t0) / 100) / 10, assumptions: [], violations: 1 }, null, 1) + "\n");
    console.log(`VIOLATION property=${id} replay=${replay}`);
    console.log("  " + why);
    process.exit(1);
  });
};
