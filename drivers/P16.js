"use strict";
// P16: zone changes and arithmetic, against spec/ZoneArith.tla.
const { judge, modelCheck } = require("../lib/tlc");
const { timeJobs } = require("../lib/timejobs");
exports.assumptions = [
  "offsets of named zones are those of the platform's Intl; named zones are used from 1976 to 2036",
  "wall-clock times that a zone's clocks skip are not judged; of a repeated one either reading is accepted unless the offset is known",
];
exports.run = async (ctx) => {
  ctx.addModel(await modelCheck("MC_ZoneArith", ctx.thorough ? { cfg: "MC_ZoneArith3" } : {}));
  const zones = ["UTC", "America/Los_Angeles", "Asia/Kathmandu", "Australia/Lord_Howe", ...(ctx.thorough ? ["Europe/London", "Pacific/Apia", "America/Sao_Paulo", "Africa/Casablanca"] : [])];
  const events = await timeJobs(ctx, "time16", zones, { repo: ctx.REPO });
  const key = (e) => e.op + "|" + JSON.stringify([e.a.iso ?? e.a.exif, e.a.zone, e.u ?? e.name ?? e.t?.iso, e.keep]);
  for (let i = 0; i < events.length; i += 20000) await judge(ctx, "ZoneArithTrace", events.slice(i, i + 20000), { key });
};
