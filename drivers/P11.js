"use strict";
// P11: the inferred time zone of reads, against spec/ZoneSource.tla.
const { generate, judge } = require("../lib/tlc");
const { stubbed, settle } = require("../lib/stub");
const zonecase = require("../lib/zonecase");
exports.assumptions = ["whether the time of a position that is dropped may still be used is left open", "clocks are compared to the minute, ties may go either way", "TimeStamp values carry their own offset, as ExifTool prints them"];
const FILE = "/tmp/verif-none/a.jpg";
exports.run = async (ctx) => {
  const { model, rows } = await generate("MC_ZoneSource", ctx.thorough ? { cfg: "MC_ZoneSourceAll", timeoutMs: 1500000, heap: "8g" } : {});
  ctx.addModel(model);
  const { rng } = ctx;
  const zc = zonecase(rng);
  let stdout = "";
  const et = stubbed(ctx, {}, () => ({ stdout }));
  const events = [];
  const one = async (x) => {
    // nothing depends on the zone of the system
    if (events.length % 97 === 0) process.env.TZ = rng.pick(["UTC", "America/New_York", "Pacific/Chatham", "Europe/Lisbon", "Asia/Kolkata"]);
    const { tags, options } = zc.build(x);
    const grouped = rng.bool(0.2);
    const raw = { SourceFile: FILE };
    for (const [k, v] of rng.shuffle(Object.entries(tags))) raw[grouped ? "EXIF:" + k : k] = v;
    stdout = JSON.stringify([raw]);
    options.backfillTimezones = rng.bool(0.7);
    if (grouped) options.readArgs = ["-G"];
    const r = await settle(() => et.read(FILE, options));
    const t = r.v ?? {};
    events.push({ op: "read", x, st: r.st, zone: t.zone ?? "", tz: t.tz ?? "", src: t.tzSource ?? "", tags: JSON.stringify(tags) });
  };
  for (const x of rng.sample(rows, ctx.thorough ? 60000 : 8000)) await one(x);
  for (let i = 0; i < (ctx.thorough ? 60000 : 8000); i++) await one(zc.random());
  await et.end();
  for (let i = 0; i < events.length; i += 20000) await judge(ctx, "ZoneSourceTrace", events.slice(i, i + 20000), { key: (e) => e.tags });
};
