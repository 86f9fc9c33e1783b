"use strict";
// P12: zones and wall clocks of the timestamps of reads, against spec/ReadStamps.tla.
const { generate, judge } = require("../lib/tlc");
const { stubbed, settle } = require("../lib/stub");
const zonecase = require("../lib/zonecase");
const { seen } = require("../lib/readcase");
const intl = require("../lib/intl");
exports.assumptions = ["the read's zone is the one it reports (decided by P11)", "offsets of named zones are those of the platform's Intl", "clock readings that a zone skips are only checked for their zone"];
const FILE = "/tmp/verif-none/a.jpg";
const NAMES = ["DateTimeOriginal", "CreateDate", "ModifyDate", "MediaCreateDate", "TrackCreateDate", "SubSecDateTimeOriginal", "FileModifyDate", "MetadataDate", "HistoryWhen", "GPSDateTime", "DateTimeUTC", "GPSTimeStamp", "SonyDateTime2", "TimeCreated", "DateTimeGPS", "UTCDateTimeX", "TimeUTC", "SubSecTimeX", "CreationDateUTCx"];
const UTC = new Set(["GPSDateTime", "DateTimeUTC", "GPSTimeStamp", "UTCDateTimeX", "TimeUTC", "CreationDateUTCx"]);
const TIMES = new Set(["GPSTimeStamp", "TimeCreated", "TimeUTC", "SubSecTimeX", "HistoryWhen"]);
// wall clocks near changes of the clocks
const CHANGES = [[2021, 3, 14, 1], [2021, 3, 14, 3], [2021, 11, 7, 1], [2021, 3, 28, 1], [2021, 10, 31, 2], [2021, 4, 4, 1], [2021, 10, 3, 2], [2021, 4, 4, 2], [2021, 9, 26, 1]];
exports.run = async (ctx) => {
  const { model, rows } = await generate("MC_ReadStamps");
  ctx.addModel(model);
  const { rng } = ctx;
  const zc = zonecase(rng);
  let stdout = "";
  const et = stubbed(ctx, {}, () => ({ stdout }));
  const events = [];
  const two = (n) => String(n).padStart(2, "0");
  const text = (v) => (v.k === "time" ? "" : zc.dateText(v.f) + " ") + zc.timeText(v.f) + (v.off === 9999 ? "" : v.off === 0 ? rng.pick(["Z", "+00:00"]) : zc.offText(v.off));
  const clock = () => { const c = rng.bool(0.3) ? [...rng.pick(CHANGES), rng.int(0, 59), rng.int(0, 59), 0] : zc.clock(); c[6] = rng.pick([0, 0, rng.int(1, 999)]); return c; };
  const stampFor = (name, given) => {
    const v = given ?? { k: TIMES.has(name) && rng.bool(0.6) ? "time" : "dt", f: clock(), off: rng.pick([9999, 9999, 9999, 0, rng.pick(zc.OFFSETS)]) };
    if (v.k === "time" && v.f[3] + v.f[4] + v.f[5] === 0) v.f[5] = 1;
    return { k: v.k, f: v.f, off: v.off, s: text(v) };
  };
  /** one read; stamps: [name, v, nested] */
  const one = async ({ zoneTags, video, optVideo, backfill, named, options = {} }) => {
    // nothing depends on the zone of the system
    if (events.length % 97 === 0) process.env.TZ = rng.pick(["UTC", "America/New_York", "Pacific/Chatham", "Europe/Lisbon", "Asia/Kolkata"]);
    const raw = { SourceFile: FILE };
    const grouped = rng.bool(0.2);
    const key = (k) => (grouped ? "EXIF:" + k : k);
    const list = [];
    for (const [k, v] of Object.entries(zoneTags)) raw[key(k)] = v;
    if (video) raw[key("MIMEType")] = "video/mp4";
    for (const [name, v, nested] of named) {
      list.push({ name, v, nested });
      raw[key(name)] = nested === "list" ? [v.s, "x"] : nested === "struct" ? { Name: "x", When: v.s } : v.s;
    }
    stdout = JSON.stringify([raw]);
    const r = await settle(() => et.read(FILE, { geoTz: () => undefined, ...options, defaultVideosToUTC: optVideo, backfillTimezones: backfill, ...(grouped ? { readArgs: ["-G"] } : {}) }));
    const t = r.v ?? {};
    const zone = t.zone ?? "";
    const stamps = list.map(({ name, v, nested }) => {
      const x = t[key(name)];
      const o1 = nested === "list" ? x?.[0] : nested === "struct" ? x?.When : x;
      const o = seen(o1, { k: "text" });
      if (o.k === "DateTime") {
        const ms = (() => { try { return o1.toMillis(); } catch { return NaN; } })();
        o.at = o.off === 9999 || !Number.isFinite(ms) ? [0, 0] : [Math.floor(ms / 86400000), ((ms % 86400000) + 86400000) % 86400000];
      }
      const ms = zc.toMs(v.f);
      let at = [], here = [];
      if (zone !== "" && v.k === "dt") { const a = intl.offsetAt(zone, ms); at = [a / 60]; here = intl.instantsOf(zone, ms).map((i) => (ms - i) / 60000); }
      return { name, nested, utcName: UTC.has(name), v, at: at.filter(Number.isInteger), here: here.filter(Number.isInteger), o };
    });
    events.push({ op: "read", st: r.st, zone, video: video && optVideo, backfill, stamps, raw: JSON.stringify(raw) });
  };
  // all rows of the model, several names per read
  for (const r of rows) {
    const zoneTags = r.zoneOff === 9999 ? {} : { OffsetTimeOriginal: r.zoneOff === 0 ? "+00:00" : zc.offText(r.zoneOff) };
    const pool = NAMES.filter((n) => UTC.has(n) === r.utcName && (r.k === "dt" || TIMES.has(n)));
    // names that are zone sources of their own are left to the seeded reads
    const ns = rng.sample(pool.filter((n) => r.zoneOff !== 9999 || !["GPSDateTime", "DateTimeUTC", "SonyDateTime2", "GPSTimeStamp"].includes(n)), 2);
    await one({ zoneTags, video: r.video, optVideo: true, backfill: r.backfill, named: ns.map((n) => [n, stampFor(n, { k: r.k, f: [...r.f], off: r.off }), rng.pick(["", "", "list", n.endsWith("When") ? "" : "struct"])]) });
  }
  for (let i = 0; i < (ctx.thorough ? 30000 : 3500); i++) {
    // zones from all sources; its own stamps are skipped where a name is used twice
    let zoneTags = {}, options = {};
    const how = rng.int(0, 3);
    if (how === 0) zoneTags = { TimeZone: rng.pick(zc.NAMED) };
    else if (how === 1) ({ tags: zoneTags, options } = zc.build(zc.random()));
    else if (how === 2) { zoneTags = { GPSLatitude: 10, GPSLongitude: 20 }; const z = rng.pick(zc.NAMED); options = { geoTz: () => z }; }
    else if (rng.bool()) zoneTags = { OffsetTimeDigitized: zc.offText(rng.pick(zc.OFFSETS)) };
    delete zoneTags.MIMEType;
    const named = rng.sample(NAMES, rng.int(1, 6)).filter((n) => !(n in zoneTags)).map((n) => [n, stampFor(n), rng.pick(["", "", "", "list", "struct"])]);
    if (named.length === 0 || /GPSLongitude":(181|-200)|GPSLatitude":0,"GPSLongitude":0/.test(JSON.stringify(zoneTags))) continue;
    await one({ zoneTags, video: rng.bool(0.4), optVideo: rng.bool(0.7), backfill: rng.bool(0.7), named, options });
  }
  await et.end();
  await judge(ctx, "ReadStampsTrace", events, { key: (e) => [e.zone, e.video, e.backfill, e.raw].join("|") });
};
