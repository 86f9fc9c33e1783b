"use strict";
// P10: the tags of reads, against spec/Reading.tla (public read() and readRaw()
// with scripted ExifTool output).
const { generate, judge } = require("../lib/tlc");
const { stubbed, settle } = require("../lib/stub");
const { maker, plain, seen } = require("../lib/readcase");
exports.assumptions = ["tag names from a table of all name classes; text forms by class, with sampled members", "ExifTool's JSON is scripted; ExifTool itself is exercised by P05-P09"];
const FILE = "/tmp/verif-none/a b.jpg";
exports.run = async (ctx) => {
  const { model, rows } = await generate("MC_Reading");
  ctx.addModel(model);
  const { rng } = ctx;
  const forms = maker(rng);
  let reply = {};
  const et = stubbed(ctx, { geoTz: () => undefined }, () => reply);
  const value = (r) => {
    const one = () => forms[r.form]();
    const anyForm = () => forms[rng.pick(Object.keys(forms))]();
    const struct = () => { const names = rng.shuffle([r.inner, ...rng.sample(["Name", "History", "Title", "Date", "SubSecTime"], 2)]); return { k: "struct", names, vals: names.map((n) => (n === r.inner ? one() : anyForm())) }; };
    if (r.shape === "alone") return one();
    if (r.shape === "list") return { k: "list", xs: rng.shuffle([one(), ...Array.from({ length: rng.int(0, 3) }, () => (rng.bool() || r.name === "ExifToolVersion" ? one() : anyForm()))]) };
    if (r.shape === "struct") return struct();
    return { k: "list", xs: Array.from({ length: rng.int(1, 3) }, struct) };
  };
  const names = [...new Set(rows.map((r) => r.name))];
  const asis = new Set(["ExifToolVersion", "DateStampMode", "Sharpness", "Firmware", "DateDisplayFormat"]);
  const events = [];
  const report = () => {
    const w = [], e = [], lines = [];
    for (let i = rng.pick([0, 0, 1, 2]); i > 0; i--) {
      const x = rng.pick(["Warning: [minor] Bad thing - " + FILE, "Warning: IFD0 pointer - " + FILE, "Warning: odd error in ICC - " + FILE]);
      w.push(x); lines.push(x);
    }
    if (rng.bool(0.15)) { const x = rng.pick(["Error: File format error - " + FILE, "Error: [minor] Truncated - " + FILE]); e.push(x); lines.push(x); }
    return { w, e, lines };
  };
  const group = () => rng.pick(["", "", "-G", "-G1"]);
  const run = async (picked) => {
    // nothing depends on the zone of the system
    if (events.length % 97 === 0) process.env.TZ = rng.pick(["UTC", "America/New_York", "Pacific/Chatham", "Europe/Lisbon", "Asia/Kolkata"]);
    let g = group();
    const tags = [];
    for (const r of picked) {
      if (r.name === "ExifToolVersion" && r.form === "lit") continue; // see below
      if (asis.has(r.name) && (g === "-G1" || r.shape.includes("struct"))) continue;
      tags.push({ name: r.name, v: value(r), o: null });
    }
    const said = report();
    const gr = rng.pick(g === "-G1" ? ["IFD0", "XMP-dc", "ExifIFD"] : ["EXIF", "XMP", "QuickTime", "Composite", "ICC_Profile"]);
    const key = (k) => (g === "" ? k : gr + ":" + k);
    const raw = {};
    const src = rng.pick([FILE, FILE, FILE, "/tmp/verif-none/../verif-none/a b.jpg", undefined]);
    const other = rng.bool(0.03);
    const named = other ? rng.pick(["/tmp/verif-none/b.jpg", "/tmp/verif-none/a b.jpg2", "a b.jpg", "/tmp/verif-none/A b.jpg"]) : src;
    if (named !== undefined) raw.SourceFile = named;
    const withTag = rng.bool(0.3) && g === "";
    const tagged = {};
    if (withTag) { tagged.Warning = rng.pick(["[minor] Odd", "Bad IFD", "x"]); said.w.push(tagged.Warning); }
    if (withTag && rng.bool(0.3)) { tagged.Error = "Unknown file type"; said.e.push(tagged.Error); }
    for (const t of tags) raw[key(t.name)] = plain(t.v);
    Object.assign(raw, tagged);
    let json = JSON.stringify([raw], null, rng.bool() ? 2 : 0);
    // ExifTool prints its version as a number
    const ver = rng.pick(["12.30", "13", "13.10", "9.05"]);
    const hasVer = Object.keys(raw).length > 0 && g !== "-G1" && !(key("ExifToolVersion") in raw);
    if (hasVer) { json = json.replace(/^\[\s*\{/, `$&"${key("ExifToolVersion")}": ${ver},`); tags.push({ name: "ExifToolVersion", v: { k: "text", form: "junk", s: ver, f: [0], off: 9999 }, o: null }); }
    reply = { stdout: json, stderr: said.lines.join("\n"), passed: said.lines.length === 0 || rng.bool() };
    const r = await settle(() => et.read(FILE, { readArgs: g === "" ? ["-fast"] : ["-fast", g] }));
    const t = r.v ?? {};
    for (const x of tags) x.o = seen(Object.hasOwn(t, key(x.name)) ? t[key(x.name)] : undefined, x.v);
    const known = new Set([...tags.map((x) => key(x.name)), ...Object.keys(tagged)]);
    events.push({ op: "read", g, other, st: r.st, tags, extra: Object.keys(t).filter((k) => !known.has(k)), said: { errors: said.e, warnings: said.w }, errors: t.errors ?? [], warnings: t.warnings ?? [], lost: Object.entries(tagged).filter(([k, v]) => t[k] !== v).length });
    if (rng.bool(0.2)) {
      // a raw read of the same output
      const rr = await settle(() => et.readRaw(FILE, { readArgs: ["-fast"] }));
      const { errors, warnings, ...got } = rr.v ?? {};
      events.push({ op: "raw", st: rr.st, got: JSON.stringify(got), want: JSON.stringify(JSON.parse(json)[0]), said: { errors: said.e, warnings: said.w }, errors: errors ?? [], warnings: warnings ?? [] });
    }
  };
  for (let round = 0; round < (ctx.thorough ? 12 : 2); round++) {
    // reads of several tags with different names, until every row was used
    const todo = new Map(names.map((n) => [n, rng.shuffle(rows.filter((r) => r.name === n))]));
    while (todo.size > 0) {
      const ns = rng.sample([...todo.keys()], rng.int(1, 14));
      const picked = ns.map((n) => { const l = todo.get(n); const r = l.pop(); if (l.length === 0) todo.delete(n); return r; });
      await run(picked);
    }
  }
  await et.end();
  const key = (e) => (e.op === "raw" ? "raw|" + e.want : e.g + "|" + e.tags.map((t) => t.name + "=" + JSON.stringify(plain(t.v))).join(";"));
  await judge(ctx, "ReadingTrace", events, { key });
};
