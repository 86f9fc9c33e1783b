"use strict";
// P03: shutdown, disposal and child-close, against spec/Pool.tla.
const { schedules, checkRuns, modelCheck } = require("../lib/poolcheck");
const { fixKinds } = require("./P01");

exports.assumptions = [
  "a child that still exists 15 s after the end is taken to be left behind; a call or end() that has not settled after 20-40 s is taken not to settle",
];
exports.run = async (ctx) => {
  ctx.addModel(await modelCheck("MC_Pool", { cfg: "MC_Pool2" }));
  const { rng } = ctx;
  const S = [];
  const T = ctx.thorough;
  S.push(...await schedules(ctx, { NCalls: 3, CallKinds: ["read", "write", "binary"], Outs: ["ok", "err"], MaxProcs: 2, Retries: 1, MaxFaults: 1, MayEnd: true, EndFrom: 1 }, { num: T ? 600 : 60 }));
  S.push(...await schedules(ctx, { NCalls: 5, CallKinds: ["read", "readRaw", "write", "edit"], Outs: ["ok", "warn", "err"], MaxProcs: 2, MaxTasks: 2, Retries: 2, MaxFaults: 1, MaxCloses: 1, MayEnd: true, EndFrom: 3 }, { num: T ? 600 : 60 }));
  S.push(...await schedules(ctx, { NCalls: 4, CallKinds: ["read", "write"], Outs: ["ok"], MaxProcs: 2, Retries: 1, MaxCloses: 2 }, { num: T ? 300 : 40 }));
  S.push(...await schedules(ctx, { NCalls: 2, CallKinds: ["version"], Outs: ["ok"], MaxProcs: 1, Retries: 1, MayEnd: true, EndFrom: 0 }, { cap: 8 }));
  // end while every child is busy or hung, and on an idle or unused instance
  for (let i = 0; i < (T ? 60 : 10); i++) {
    const n = rng.int(0, 4);
    const ids = Array.from({ length: n }, (_, j) => "c" + (j + 1));
    const maxProcs = rng.int(1, 3);
    S.push({ cfg: { maxProcs, maxTasks: 5, retries: 1, lossy: false, timeout: 60000 }, steps: [
      ...ids.map((id) => ({ ev: "call", id, kind: rng.pick(["read", "write", "readRaw"]) })),
      ...(n > 0 ? [{ ev: "steady" }] : []),
      ...(n > 0 && rng.bool() ? [{ ev: "hang", id: "c1" }] : []),
      { ev: "end" },
      { ev: "call", id: "c9", kind: rng.pick(["read", "write", "version", "delete"]) },
    ] });
  }
  fixKinds(S);
  S.forEach((s, i) => {
    s.cfg.stubborn = i % 5 === 1;
    s.cfg.disposeMs = [undefined, 50, 2500][i % 3];
    for (const e of s.steps) if (e.ev === "end") { e.ev = ["end", "dispose", "asyncDispose"][rng.int(0, 2)]; e.graceful = rng.bool(); }
  });
  await checkRuns(ctx, S, 48);
};
