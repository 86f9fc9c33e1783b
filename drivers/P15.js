"use strict";
// P15: dates and times in text and JSON, against spec/TimeText.tla.
const { generate, judge, modelCheck } = require("../lib/tlc");
const { timeJobs } = require("../lib/timejobs");
const { stubbed, settle } = require("../lib/stub");
const { canon } = require("../lib/timeobs");

exports.assumptions = [
  "years 2 to 9999; the texts name an offset, not a zone",
  "offsets of named zones are those of the platform's Intl",
];
exports.run = async (ctx) => {
  const { model, rows } = await generate("MC_TimeText");
  ctx.addModel(model);
  ctx.addModel(await modelCheck("MC_Calendar", ctx.thorough ? { cfg: "MC_CalendarAll", timeoutMs: 900000 } : {}));
  const zones = ["UTC", "America/Los_Angeles", "Asia/Kathmandu", "Australia/Lord_Howe", ...(ctx.thorough ? ["Europe/London", "Pacific/Apia", "America/Sao_Paulo", "Africa/Casablanca"] : [])];
  const events = await timeJobs(ctx, "time15", zones, { rows });
  events.push(...(await readResults(ctx)));
  const key = (e) => e.op + "|" + (e.text ?? e.a) + (e.z?.kind === "def" ? "|" + e.z.name : "");
  for (let i = 0; i < events.length; i += 20000) await judge(ctx, "TimeTextTrace", events.slice(i, i + 20000), { key });
};

/** whole read results through JSON */
async function readResults(ctx) {
  const { rng } = ctx;
  const { parseJSON } = ctx.req("JSON.js");
  const out = [];
  const value = (depth) => {
    const k = rng.int(0, depth > 2 ? 8 : 11);
    return [
      "2021:03:14 02:30:00", "2021:03:14 02:30:00.123-08:00", "2021:03:14", "12:34:56.5", "2021", "(Binary data 1234 bytes, use -b option to extract)", "plain text", rng.int(-5, 5) / 4, rng.bool(),
    ][k] ?? (k === 9 ? [value(depth + 1), value(depth + 1)] : k === 10 ? { DateA: value(depth + 1), B: value(depth + 1), ThumbnailX: value(depth + 1) } : { _ctor: rng.pick(["ExifFoo", "toString", "", "BinaryFieldX"]), v: value(depth + 1) });
  };
  const names = ["DateTimeOriginal", "CreateDate", "GPSDateTime", "ModifyDate", "TimeCreated", "DateCreated", "ThumbnailImage", "RegionInfo", "Keywords", "SubSecTime", "ISO", "XMPToolkit", "invalidUtf8BytesX", "GPSTimeStamp", "OffsetTime", "HistoryWhen", "MediaCreateDate"];
  for (let i = 0; i < (ctx.thorough ? 3000 : 400); i++) {
    const tags = { SourceFile: "/x/a.jpg" };
    for (const n of rng.sample(names, rng.int(1, 8))) tags[n] = value(0);
    const et = stubbed(ctx, { backfillTimezones: rng.bool() }, () => ({ stdout: JSON.stringify([tags]) }));
    const r = await settle(() => et.read("/x/a.jpg"));
    if (r.st !== "ok") continue;
    let b;
    try { b = canon(parseJSON(JSON.stringify(r.v))); } catch (e) { b = String(e); }
    out.push({ op: "rj", a: canon(r.v), b, text: JSON.stringify(tags) });
  }
  return out;
}
