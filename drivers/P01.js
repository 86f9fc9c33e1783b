"use strict";
// P01: settlement of every call by its own answer, against spec/Pool.tla.
const { schedules, checkRuns, modelCheck } = require("../lib/poolcheck");

exports.assumptions = [
  "a child writes its standard error before the ready line, as ExifTool does",
  "a call that is not settled 40 s after its last possible answer is taken to be unsettled",
];
const ALL = ["read", "readRaw", "write", "edit", "delete", "version", "binary", "buffer", "rewrite"];

exports.run = async (ctx) => {
  ctx.addModel(await modelCheck("MC_Pool", { cfg: "MC_Pool" }));
  ctx.addModel(await modelCheck("MC_Pool", { cfg: "MC_PoolLive" }));
  const k = ctx.thorough ? 10 : 1;
  const S = [];
  const outs = ["ok", "warn", "err", "garbage"];
  S.push(...await schedules(ctx, { NCalls: 6, CallKinds: ["read", "readRaw", "write", "edit", "binary", "buffer", "rewrite", "delete"], Outs: outs, MaxProcs: 3, Retries: 1, MaxFaults: 1 }, { num: 60 * k }));
  S.push(...await schedules(ctx, { NCalls: 5, CallKinds: ["read", "write"], Outs: ["ok", "warn", "err", "wrongfile"], MaxProcs: 2, MaxTasks: 2, Retries: 2, MaxFaults: 2 }, { num: 50 * k }));
  S.push(...await schedules(ctx, { NCalls: 4, CallKinds: ["readRaw", "buffer", "edit"], Outs: outs, MaxProcs: 1, MaxTasks: 2, Retries: 0, MaxFaults: 1, MaxCloses: 1 }, { num: 30 * k }));
  S.push(...await schedules(ctx, { NCalls: 1, CallKinds: ["version"], Outs: ["ok", "garbage"], MaxProcs: 1, Retries: 1, MaxFaults: 1 }));
  fixKinds(S);
  S.forEach((s, i) => (s.cfg.health = i % 2 === 0));
  // identical calls: same method, same file, at the same time
  for (let i = 0; i < 12 * k; i++) {
    const kind = ctx.rng.pick(["read", "readRaw", "version", "write", "buffer"]);
    const n = ctx.rng.int(2, 5);
    const ids = Array.from({ length: n }, (_, j) => "c" + (j + 1));
    S.push({ plain: true, cfg: { twins: true, maxProcs: ctx.rng.int(1, 3), maxTasks: 50, retries: 0, lossy: false, timeout: 60000 }, steps: [...ids.map((id) => ({ ev: "call", id, kind })), ...ctx.rng.shuffle(ids).map((id) => ({ ev: "rel", id, out: ctx.rng.pick(["ok", "warn"]) }))] });
  }
  await checkRuns(ctx, S);
};
/** Answers that make no sense for a method become plain ones. */
function fixKinds(S) {
  for (const s of S) {
    const kind = Object.fromEntries(s.steps.filter((e) => e.ev === "call").map((e) => [e.id, e.kind]));
    for (const e of s.steps) {
      if (e.out === "garbage" && ["write", "edit", "delete"].includes(kind[e.id])) e.out = "err";
      if (e.out === "wrongfile" && kind[e.id] !== "read") e.out = "err";
      if (e.out === "missing" && !["binary", "buffer"].includes(kind[e.id])) e.out = "err";
    }
  }
}
exports.fixKinds = fixKinds;
exports.ALL = ALL;
