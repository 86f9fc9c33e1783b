"use strict";
// P07: GPS writes, against spec/GpsWrite.tla.
const fs = require("node:fs");
const path = require("node:path");
const { generate, judge } = require("../lib/tlc");
const { stubbed, settle } = require("../lib/stub");
const { jpeg } = require("../lib/media");

exports.assumptions = [
  "ExifTool accepts a number (by its sign) or a hemisphere / sea level name as a reference",
  "the rules apply to the plain tag names GPSLatitude, GPSLongitude and GPSAltitude",
];
const NAMES = ["GPSLatitude", "GPSLongitude", "GPSAltitude", "GPSLatitudeRef", "GPSLongitudeRef", "GPSAltitudeRef", "GPSPosition", "Title"];
const ABSENT = { k: "absent", n: "", s: 0 };
const NULL = { k: "null", n: "", s: 0 };
const sign = (x) => (x < 0 ? -1 : x > 0 ? 1 : 0);
const slot = (o, n) => {
  const v = o[n];
  if (v === undefined) return ABSENT;
  if (v === null) return NULL;
  return typeof v === "number" ? { k: "num", n: String(v), s: sign(v) } : { k: "txt", n: String(v), s: 0 };
};
const obj = (o) => Object.fromEntries(NAMES.map((n) => [n, slot(o, n)]));
/** transmitted text of a field -> slot */
function field(n, texts) {
  if (texts.length === 0) return ABSENT;
  // a repeated assignment would add up in list tags and override in others
  if (texts.length > 1) return { k: "dup", n: texts.join("|"), s: 0 };
  const t = texts[0];
  if (t === "") return NULL;
  if (/^[-+]?(\d+\.?\d*|\.\d+)(e[-+]?\d+)?$/i.test(t)) return { k: "num", n: String(Number(t)), s: sign(Number(t)) };
  const p = n === "GPSPosition" && /^\s*([-+\d.e]+)\s*,\s*([-+\d.e]+)\s*$/i.exec(t);
  // positions compare by value
  return { k: "txt", n: p ? String(Number(p[1])) + "," + String(Number(p[2])) : t, s: 0 };
}
const posNorm = (o) => {
  const p = o.GPSPosition;
  if (p.k === "txt") { const m = /^\s*([-+\d.e]+)\s*,\s*([-+\d.e]+)\s*$/i.exec(p.n); if (m) return { ...o, GPSPosition: { ...p, n: Number(m[1]) + "," + Number(m[2]) } }; }
  return o;
};

exports.run = async (ctx) => {
  const { model, rows } = await generate("MC_GpsWrite", { cfg: ctx.thorough ? "MC_GpsWrite5" : "MC_GpsWrite" });
  ctx.addModel(model);
  const { rng } = ctx;
  const et = stubbed(ctx, { taskRetries: 0 }, () => ({ stdout: "    1 image files updated\n" }));
  const events = [];
  const toJs = (s) => (s.k === "num" ? Number(s.n) : s.k === "null" ? null : s.k === "txt" ? s.n : undefined);
  const write = async (o, options) => {
    const was = JSON.stringify(Object.entries(o));
    const optsWas = JSON.stringify(options ?? null);
    const proto = Object.getOwnPropertyNames(o).join();
    const before = et.sent.length;
    const spec = posNorm(obj(o));
    const r = await settle(() => et.write("/tmp/p07.jpg", o, options));
    const sent = et.sent.slice(before);
    const lines = (sent[0] ?? "").split("\n");
    const f = Object.fromEntries(NAMES.map((n) => [n, field(n, lines.filter((l) => l.startsWith(`-${n}=`)).map((l) => l.slice(n.length + 2)))]));
    events.push({
      op: "write", obj: spec, sent: f, st: r.st, n: sent.length,
      kept: was === JSON.stringify(Object.entries(o)) && optsWas === JSON.stringify(options ?? null) && proto === Object.getOwnPropertyNames(o).join(),
    });
  };
  // every object of the model, once as it is and some frozen
  const picks = ctx.thorough ? rows : rng.sample(rows, 4000);
  for (const [i, row] of picks.entries()) {
    const o = {};
    for (const n of rng.shuffle(NAMES)) if (row[n].k !== "absent") o[n] = toJs(row[n]);
    if (i % 3 === 0) Object.freeze(o);
    await write(o, i % 5 === 0 ? Object.freeze({ writeArgs: Object.freeze(["-P"]) }) : undefined);
  }
  // histories: one object, edited between writes (and reused by concurrent writes)
  const vals = {
    GPSLatitude: [undefined, null, 12.5, -33, 0, 89.999999, -1e-7, 45, "12 N", -0.25],
    GPSLongitude: [undefined, null, 151.25, -0.5, 180, -179.999, 0, "3 W"],
    GPSAltitude: [undefined, null, 8848, -430.5, 0, -1, "12 m"],
    GPSLatitudeRef: [undefined, "S", "N", "North"],
    GPSLongitudeRef: [undefined, "W", "East"],
    GPSAltitudeRef: [undefined, "Below Sea Level"],
    GPSPosition: [undefined, undefined, "1, 2"],
  };
  const histories = ctx.thorough ? 4000 : 500;
  for (let h = 0; h < histories; h++) {
    const o = { Title: "t" };
    for (let i = 0; i < rng.int(2, 6); i++) {
      for (let k = 0; k < rng.int(1, 3); k++) {
        const n = rng.pick(Object.keys(vals));
        const v = rng.pick(vals[n]);
        if (v === undefined) delete o[n];
        else o[n] = v;
      }
      if (rng.bool(0.3)) {
        const n = rng.pick(["GPSLatitude", "GPSLongitude", "GPSAltitude"]);
        if (typeof o[n] === "number") o[n] = -o[n]; // the other hemisphere
        if (Object.is(o[n], -0)) o[n] = 0;
      }
      await write(o);
    }
  }
  const opts = { key: (e) => e.op + "|" + JSON.stringify(e.obj) };
  for (let i = 0; i < events.length; i += 5000) await judge(ctx, "GpsWriteTrace", events.slice(i, i + 5000), opts);

  // through the vendored ExifTool, one file and one object per history
  const { ExifTool } = ctx.req("ExifTool.js");
  const real = new ExifTool({ maxProcs: 6, taskRetries: 0 });
  const dir = ctx.scratch("p07");
  const out = [];
  const one = async (h) => {
    const ext = ["jpg", "xmp"][h % 2];
    const file = path.join(dir, `f${h}.${ext}`);
    if (ext === "jpg") fs.writeFileSync(file, jpeg);
    const o = { Title: "t" };
    for (let i = 0; i < 3; i++) {
      const n = rng.pick(["GPSLatitude", "GPSLongitude", "GPSAltitude"]);
      for (const c of ["GPSLatitude", "GPSLongitude", "GPSAltitude"]) {
        const lim = { GPSLatitude: 90, GPSLongitude: 180, GPSAltitude: 3000 }[c];
        if (i === 0 || c === n || rng.bool(0.4)) o[c] = rng.bool(0.2) && i > 0 ? null : Math.round((rng() * 2 - 1) * lim * 1000) / 1000 || 1;
      }
      const spec = obj(o);
      const r = await settle(() => real.write(file, o, { writeArgs: ["-overwrite_original"] }), 60000);
      const g = await settle(() => real.readRaw(file, { readArgs: ["-n", "-GPS*"] }), 60000);
      const read = {};
      for (const c of ["GPSLatitude", "GPSLongitude", "GPSAltitude"]) {
        const v = g.v?.[c];
        const ref = g.v?.[c + "Ref"];
        const has = v !== undefined;
        const num = Number(v);
        // -n values of EXIF are composites with a sign; references say the same
        const refS = ref === undefined ? sign(num) : /^[SW]/.test(String(ref)) || ref === 1 || ref === "1" ? -1 : 1;
        read[c] = { has, s: has ? sign(num) : 0, near: has && typeof o[c] === "number" && Math.abs(num - o[c]) < 1e-4, refS, hasRef: ref !== undefined };
      }
      out.push({ op: "file", obj: spec, st: r.st === "ok" && g.st === "ok" ? "ok" : "err " + (r.msg || g.msg), read });
    }
    fs.rmSync(file, { force: true });
  };
  const q = Array.from({ length: ctx.thorough ? 300 : 40 }, (_, i) => i);
  await Promise.all(Array.from({ length: 8 }, async () => { while (q.length) await one(q.shift()); }));
  await real.end();
  await judge(ctx, "GpsWriteTrace", out, opts);
  ctx.coverage.real_exiftool_writes = out.length;
};
