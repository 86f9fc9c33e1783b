"use strict";
// P13: GPS positions of reads, against spec/Position.tla (through the public
// read() with scripted ExifTool output).
const { generate, judge } = require("../lib/tlc");
const { stubbed, settle } = require("../lib/stub");
exports.assumptions = ["each of the position's tags is reported once (no duplicates in several groups)", "group prefixes as produced by -G"];
const FILE = "/tmp/verif-none/a.jpg";
exports.run = async (ctx) => {
  const { model, rows } = await generate("MC_Position");
  ctx.addModel(model);
  const { rng } = ctx;
  let stdout = "";
  const et = stubbed(ctx, { geoTz: () => "UTC" }, () => ({ stdout }));
  const d = (n, f) => String(n) + (f.length ? "." + f.join("") : "");
  const ctext = (c) => (c.neg ? "-" : "") + { plain: () => d(c.deg, c.frac), D: () => d(c.deg, c.frac) + c.sp + c.ds, DM: () => c.deg + c.sp + c.ds + c.sp + d(c.min, c.frac) + c.ms, DMS: () => c.deg + c.sp + c.ds + c.sp + c.min + c.ms + c.sp + d(c.sec, c.frac) + c.ss }[c.fmt]() + (c.dir === "" ? "" : c.sp + c.dir) + c.tail;
  const digits = (n) => Array.from({ length: n }, () => rng.int(0, 9));
  const coord = (fmt, max, dirs) => ({ fmt, neg: rng.bool(fmt === "plain" ? 0.4 : 0.1), deg: rng.pick([0, 0, rng.int(0, max), rng.int(0, max + 5)]), min: fmt.length > 1 && fmt !== "plain" ? rng.int(0, 59) : 0, sec: fmt === "DMS" ? rng.int(0, 59) : 0, frac: digits(rng.int(0, { plain: 8, D: 8, DM: 4, DMS: 3 }[fmt])), dir: fmt === "plain" ? "" : rng.pick(dirs), ds: rng.pick(["deg", "°"]), ms: "'", ss: '"', sp: " ", tail: "" });
  const spell = { "": [undefined, ""], N: ["N", "North", "n", " north "], S: ["S", "South", "s", "south"], E: ["E", "East", "e"], W: ["W", "West", "w", " West"], X: ["X", "?", "Unknown (x)"] };
  const seven = (v) => (v < 0 ? "-" : "") + Math.floor(Math.abs(v) / 1e7) + "." + String(Math.abs(v) % 1e7).padStart(7, "0");
  const events = [];
  const one = async (p) => {
    // nothing depends on the zone of the system
    if (events.length % 97 === 0) process.env.TZ = rng.pick(["UTC", "America/New_York", "Pacific/Chatham", "Europe/Lisbon", "Asia/Kolkata"]);
    const val = (x) => (x.k === "num" ? x.v / 1e7 : x.k === "text" ? ctext(x.c) : x.k === "bad" ? rng.pick(["foo", "12 foo", "1,2,3", "12.5 N x"]) : undefined);
    const part = (x) => (x.k === "num" ? seven(x.v) : ctext(x.c));
    const pair = (x) => (x.k === "some" ? part(x.lat) + (x.lat.k === "text" && x.lat.c.fmt !== "plain" ? (x.lat.c.fmt === "DMS" ? ", " : " ") : rng.pick([" ", ", "])) + part(x.lon) : x.k === "bad" ? rng.pick(["foo bar", "12", "N E"]) : undefined);
    const pos = { GPSLatitude: val(p.lat), GPSLongitude: val(p.lon), GPSPosition: pair(p.pos), GPSLatitudeRef: rng.pick(spell[p.latRef]), GPSLongitudeRef: rng.pick(spell[p.lonRef]), GeolocationPosition: pair(p.geo) };
    const gps = { GPSAltitude: 12.5, GPSDateStamp: "2020:01:02", GPSImgDirection: 0, GeolocationCity: "Town", GPSMapDatum: "WGS-84", GPSSpeed: "0" };
    const others = { Make: "M", ImageWidth: 0, Orientation: "x", MyGPSNote: "GPS", Keywords: ["a", "b"] };
    const grouped = rng.bool(0.3);
    const gr = rng.pick(["EXIF", "Composite", "XMP", "QuickTime"]);
    const key = (k) => (grouped ? gr + ":" + k : k);
    const entries = rng.shuffle([...Object.entries(pos).filter(([, v]) => v !== undefined), ...Object.entries(gps), ...Object.entries(others)]);
    const raw = { SourceFile: FILE, ...Object.fromEntries(entries.map(([k, v]) => [key(k), v])) };
    stdout = JSON.stringify([raw]);
    const r = await settle(() => et.read(FILE, { ignoreZeroZeroLatLon: p.zero, readArgs: grouped ? ["-G", "-fast"] : ["-fast"] }));
    const t = r.v ?? {};
    const num = (x) => { if (typeof x !== "number") return { ok: false, u: 0, ex: false }; const u = Math.round(x * 1e6); return { ok: true, u: u === 0 ? 0 : u, ex: Math.abs(x * 1e6 - u) < 1e-3 }; };
    const eq = (a, b) => JSON.stringify(a) === JSON.stringify(b);
    const o = {
      st: r.st, lat: num(t.GPSLatitude), lon: num(t.GPSLongitude), latRef: String(t.GPSLatitudeRef), lonRef: String(t.GPSLongitudeRef),
      gone: !Object.keys(t).some((k) => /^(\w+:)?(GPS|Geolocation)/.test(k)),
      same: Object.entries(pos).every(([k, v]) => eq(t[key(k)], v)),
      gps: Object.keys(gps).every((k) => t[key(k)] != null) && eq(t[key("GeolocationPosition")], pos.GeolocationPosition),
      others: Object.entries(others).every(([k, v]) => eq(t[key(k)], v)),
      all: !grouped || ["GPSLatitude", "GPSLongitude", "GPSLatitudeRef", "GPSLongitudeRef"].every((k) => !(key(k) in raw) || eq(t[key(k)], t[k])),
      warn: Array.isArray(t.warnings) && t.warnings.length > 0,
    };
    events.push({ op: grouped ? "grouped" : "read", p, o, tags: JSON.stringify(pos) });
  };
  for (const p of rng.sample(rows, ctx.thorough ? rows.length : 9000)) await one(p);
  const any = (max, plus, minus) => {
    const k = rng.int(0, 9);
    if (k < 5) return { k: "num", v: rng.pick([0, rng.int(-max * 1e7, max * 1e7), rng.int(-max * 1e6, max * 1e6) * 10, rng.int(-9, 9), rng.int(-2e7, 2e7), (max * 1e7 + rng.int(-9, 9)) * (rng.bool() ? 1 : -1)]) };
    if (k < 8) return { k: "text", c: coord(rng.pick(["plain", "D", "DM", "DMS"]), max, ["", plus, minus]) };
    return rng.pick([{ k: "none" }, { k: "bad" }]);
  };
  const real = (c, max) => c.fmt === "plain" || c.deg < max;
  for (let i = 0; i < (ctx.thorough ? 40000 : 8000); i++) {
    const lat = any(90, "N", "S"), lon = any(180, "E", "W");
    let geo = { k: rng.pick(["none", "some", "some", "bad"]) };
    const nearBy = (x, max) => { const b = x.k === "num" ? x.v : rng.int(-max, max) * 1e7; const j = Math.round((b * (rng.bool() ? 1 : -1) + rng.pick([0, rng.int(-2e7, 2e7), rng.int(-9e6, 9e6)])) / 1000) * 1000; return { k: "num", v: Math.max(-max * 1e7, Math.min(max * 1e7, j)) || 0 }; };
    if (geo.k === "some") geo = { k: "some", lat: nearBy(lat, 90), lon: nearBy(lon, 180) };
    let pos = { k: rng.pick(["none", "some", "some", "bad"]) };
    if (pos.k === "some") {
      const f = rng.pick(["plain", "D", "DM", "DMS"]);
      const a = coord(f, 90, ["N", "S"]), b = coord(f, 180, ["E", "W"]);
      pos = real(a, 90) && real(b, 180) ? { k: "some", lat: { k: "text", c: a }, lon: { k: "text", c: b } } : { k: "none" };
    }
    await one({ lat, lon, pos, latRef: rng.pick(["", "N", "S", "X", "E"]), lonRef: rng.pick(["", "E", "W", "X", "S"]), geo, zero: rng.bool() });
  }
  await et.end();
  for (let i = 0; i < events.length; i += 20000) await judge(ctx, "PositionTrace", events.slice(i, i + 20000), { key: (e) => e.tags + e.p.zero });
};
