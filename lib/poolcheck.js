"use strict";
// Schedules for the pool from the specification (MC_Pool), their execution
// (lib/pool.js) and the validation of the recorded runs (PoolTrace).
const fs = require("node:fs");
const path = require("node:path");
const { tlc, modelCheck, InfraError, expressible } = require("./tlc");
const { runAll } = require("./pool");

const set = (a) => "{" + a.map((x) => JSON.stringify(x)).join(", ") + "}";
const DEFAULTS = { NCalls: 4, NKids: 12, CallKinds: ["read", "write", "binary"], Outs: ["ok", "warn", "err"], MaxProcs: 2, MaxTasks: 3, Retries: 1, MaxFaults: 0, MaxCloses: 0, MayEnd: false, EndFrom: 0 };

/** num: simulated behaviours; without it, all behaviours of the (small) model. */
async function schedules(ctx, consts, { num, depth = 80, cap } = {}) {
  const c = { ...DEFAULTS, ...consts };
  const dir = ctx.scratch("cfg");
  const cfg = path.join(dir, "gen");
  const v = (x) => (Array.isArray(x) ? set(x) : typeof x === "boolean" ? String(x).toUpperCase() : String(x));
  fs.writeFileSync(cfg + ".cfg", "SPECIFICATION MSpec\nCONSTANTS " + Object.entries(c).map(([k, x]) => `${k} = ${v(x)}`).join(" ") +
    " Hist = TRUE\nINVARIANTS Emit P01_OwnAnswer P01_LastAnswer P02_WritesOnce P02_Bounded P02_OneAtATime P02_StopsOnSuccess P03_NothingAfterEnd P04_MaxProcs P04_MaxTasks P04_OneTask\nCHECK_DEADLOCK FALSE\n");
  const args = num ? ["-simulate", "num=" + num, "-depth", String(depth), "-seed", String(ctx.seed)] : [];
  const r = await tlc("MC_Pool", { cfg, workers: num ? 1 : 4, args });
  if (r.code !== 0) throw new InfraError("schedule generation failed\n" + r.out.slice(-3000));
  ctx.states += r.distinct;
  ctx.transitions += r.generated;
  const uniq = new Map();
  for (const l of r.prints) if (l.startsWith("GEN|")) uniq.set(l, JSON.parse(l.slice(4).replace(/\\"/g, '"')));
  let rows = [...uniq.values()];
  if (cap && rows.length > cap) rows = ctx.rng.sample(rows, cap);
  return rows.map((steps) => ({
    steps: steps.map((e) => ({ ...e })),
    cfg: { maxProcs: c.MaxProcs, maxTasks: c.MaxTasks, retries: c.Retries, lossy: false, timeout: steps.some((e) => e.ev === "hang") ? 1500 : 60000 },
  }));
}

/** Runs the schedules and reports the events that break `id`. */
async function checkRuns(ctx, scheds, par = 24) {
  const runs = await runAll(ctx, scheds, par);
  const dir = ctx.scratch("trace");
  const file = path.join(dir, "runs.ndjson");
  fs.writeFileSync(file, runs.map((r) => JSON.stringify({ cfg: { ...pickCfg(r.sched.cfg) }, events: r.events }, expressible)).join("\n") + "\n");
  const t = await tlc("PoolTrace", { env: { TRACE: file }, workers: 8, args: [] });
  if (t.code !== 0 && /The error occurred when TLC was evaluating/.test(t.out) && !/OutOfMemory|StackOverflow|Java heap/.test(t.out)) {
    // something recorded is of a type that the specification does not know
    const why = t.out.split("\n").filter((l) => /rror|Attempted/.test(l)).slice(0, 3).join(" ").slice(0, 600);
    ctx.report({ key: "type|" + why.slice(0, 100), message: "not an event of the specification: " + why });
    return runs;
  }
  if (t.code !== 0) throw new InfraError("PoolTrace failed\n" + t.out.slice(-3000));
  const total = runs.reduce((a, r) => a + r.events.length, 0);
  if (t.distinct < total + runs.length) throw new InfraError(`PoolTrace consumed ${t.distinct} of ${total + runs.length}\n` + t.out.slice(-2000));
  ctx.events += total;
  ctx.traces = (ctx.traces || 0) + runs.length;
  ctx.states += t.distinct;
  ctx.transitions += t.generated;
  for (const r of runs) for (const e of r.events) ctx.kinds[e.ev] = (ctx.kinds[e.ev] || 0) + 1;
  ctx.coverage.skipped_steps = runs.reduce((a, r) => a + (r.skipped ?? 0), ctx.coverage.skipped_steps || 0);
  const seen = new Set();
  for (const l of t.prints) {
    const m = /^MISMATCH\|(\d+)\|(\d+)\|(.*)$/.exec(l);
    if (!m) continue;
    const props = m[3].slice(0, m[3].indexOf("}"));
    ctx.log("mismatch", l.slice(0, 400));
    if (!props.includes(ctx.id)) continue;
    const r = runs[m[1] - 1];
    if (seen.has(m[1])) continue; // the first one of a run
    seen.add(m[1]);
    ctx.report({
      key: JSON.stringify(r.sched), message: `event ${m[2]} of run ${m[1]}: ${m[3].slice(0, 350)}`,
      spec: "Pool", schedule: r.sched, event_index: Number(m[2]), events: r.events, why: m[3],
    });
  }
  return runs;
}
const pickCfg = (c) => ({ maxProcs: c.maxProcs, maxTasks: c.maxTasks, retries: c.retries, lossy: c.lossy, health: c.health === true });

module.exports = { schedules, checkRuns, modelCheck };
