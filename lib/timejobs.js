"use strict";
const cp = require("node:child_process");
const fs = require("node:fs");
const path = require("node:path");
const { InfraError } = require("./tlc");
const { build } = require("./build");
/** runs lib/<script>.js under each system zone, returns all events */
async function timeJobs(ctx, script, zones, extra) {
  const dir = ctx.scratch("time");
  const runs = zones.map((tz, i) => {
    const out = path.join(dir, `out${i}.ndjson`);
    const jobFile = path.join(dir, `job${i}.json`);
    fs.writeFileSync(jobFile, JSON.stringify({ script, dist: ctx.dist, out, tz, seed: ctx.seed * 1000 + i, thorough: ctx.thorough, ...extra }));
    return new Promise((res, rej) => {
      cp.execFile(process.execPath, [path.join(__dirname, "timeworker.js"), jobFile], { env: { ...process.env, TZ: tz }, maxBuffer: 1e8, timeout: ctx.thorough ? 0 : 300000, killSignal: "SIGKILL" }, (e, so, se) => {
        // (see crashed() in bin/check.js)
        if (e && !/\b(ENOSPC|ENOMEM|EMFILE|EAGAIN|MODULE_NOT_FOUND)\b/.test(se) && (e.killed || !/^SIG(TERM|KILL)$/.test(e.signal ?? ""))) {
          ctx.report({ key: "exception|" + script, message: e.killed ? `the code under test has not returned for 300 s (${script} under ${tz})` : `unexpected exception (${script} under ${tz}): ` + String(se).split(ctx.dist).join("").slice(0, 600) });
          return res([]);
        }
        if (e) return rej(new InfraError(script + " under " + tz + ": " + se.slice(-2000)));
        res(fs.readFileSync(out, "utf8").split("\n").filter((l) => l).map((l) => ({ ...JSON.parse(l), sys: tz })));
      });
    });
  });
  const all = (await Promise.all(runs)).flat();
  fs.rmSync(dir, { recursive: true, force: true });
  return all;
}
module.exports = { timeJobs };
