"use strict";
// P02: transmissions per call, against spec/Pool.tla.
const { schedules, checkRuns, modelCheck } = require("../lib/poolcheck");
const { fixKinds } = require("./P01");

exports.assumptions = [
  "transmissions are counted at the child process",
  "crashes and hangs happen after a command was received",
];
exports.run = async (ctx) => {
  ctx.addModel(await modelCheck("MC_Pool", { cfg: "MC_Pool" }));
  ctx.addModel(await modelCheck("MC_Pool", { cfg: "MC_Pool2" }));
  const S = [];
  const kinds = ["read", "readRaw", "write", "edit", "delete", "binary", "buffer", "rewrite"];
  const T = ctx.thorough;
  // every sequence of outcomes of one call
  for (const Retries of [0, 1, 2, 3]) {
    S.push(...await schedules(ctx, { NCalls: 1, MaxProcs: 1, MaxTasks: 50, NKids: 6, CallKinds: kinds, Outs: ["ok", "err", "missing", "garbage"], Retries, MaxFaults: Retries < 2 ? 2 : 1 }, { cap: T ? 2000 : Retries === 0 ? 60 : 110 }));
    S.push(...await schedules(ctx, { NCalls: 1, MaxProcs: 1, MaxTasks: 50, NKids: 6, CallKinds: ["version"], Outs: ["ok", "garbage"], Retries, MaxFaults: 1 }, { cap: T ? 100 : 12 }));
  }
  // several calls: a retry budget is the call's own
  for (const Retries of [1, 2])
    S.push(...await schedules(ctx, { NCalls: 4, CallKinds: ["read", "write", "edit", "rewrite", "delete"], Outs: ["ok", "err", "err"], MaxProcs: 2, MaxTasks: 50, Retries, MaxFaults: 2 }, { num: T ? 600 : 50 }));
  S.push(...await schedules(ctx, { NCalls: 4, CallKinds: ["read", "write", "edit"], Outs: ["ok", "err"], MaxProcs: 2, MaxTasks: 2, Retries: 2, MaxFaults: 1, MaxCloses: 1 }, { num: T ? 300 : 20 }));
  fixKinds(S);
  await checkRuns(ctx, S, 32);
};
