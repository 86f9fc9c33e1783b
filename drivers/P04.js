"use strict";
// P04: pool limits, replacement of broken children, accessors, against spec/Pool.tla.
const { schedules, checkRuns, modelCheck } = require("../lib/poolcheck");
const { fixKinds } = require("./P01");

exports.assumptions = ["the accessors are compared exactly when as many children serve calls as possible, and otherwise with bounds"];
exports.run = async (ctx) => {
  ctx.addModel(await modelCheck("MC_Pool", { cfg: "MC_Pool" }));
  const { rng } = ctx;
  const S = [];
  const T = ctx.thorough;
  for (const [MaxProcs, MaxTasks, MaxFaults] of [[1, 1, 0], [1, 2, 1], [2, 1, 0], [2, 3, 1], [3, 2, 2], [4, 2, 0]]) {
    S.push(...await schedules(ctx, { NCalls: 8, NKids: 20, CallKinds: ["read", "write", "readRaw"], Outs: ["ok", "warn", "err"], MaxProcs, MaxTasks, Retries: 1, MaxFaults }, { num: T ? 200 : 20, depth: 140 }));
  }
  fixKinds(S);
  // load: many calls at once, accessors read whenever all children are at work
  for (let i = 0; i < (T ? 100 : 24); i++) {
    const n = rng.int(1, 9);
    const ids = Array.from({ length: n }, (_, j) => "c" + (j + 1));
    const steps = ids.map((id) => ({ ev: "call", id, kind: rng.pick(["read", "write", "readRaw", "binary"]) }));
    steps.push({ ev: "steady" });
    for (const id of ids) { steps.push({ ev: "rel", id, out: "ok" }); if (rng.bool(0.7)) steps.push({ ev: "steady" }); }
    S.push({ cfg: { maxProcs: rng.int(1, 4), maxTasks: rng.pick([1, 2, 50]), retries: 0, lossy: false, timeout: 60000 }, steps });
  }
  await checkRuns(ctx, S, 24);
};
