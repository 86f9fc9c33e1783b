"use strict";
// P06: written values, against the decoder of spec/WriteEnc.tla and against the
// vendored ExifTool itself (XMP sidecars in a scratch folder).
const path = require("node:path");
const fs = require("node:fs");
const { generate, judge } = require("../lib/tlc");
const { stubbed, settle } = require("../lib/stub");
const { cps } = require("../lib/wire");

exports.assumptions = [
  "ExifTool's decoder is modelled in spec/WriteEnc.tla (entities, list separator, structure serialization); the model is cross-checked by round trips through the vendored ExifTool",
  "character entities in the caller's own text are decoded, as documented for write()",
  "XMP cannot hold control characters other than tab and newline",
];

const str = (a) => String.fromCodePoint(...a);
/** spec value -> JavaScript value; names: field names for A, B */
function toJs(v, names = {}) {
  switch (v.k) {
    case "s": return str(v.t);
    case "l": return v.xs.map((x) => toJs(x, names));
    case "m": return Object.fromEntries(v.ks.map((k, i) => [names[str(k)] ?? str(k), toJs(v.xs[i], names)]));
    case "b": return v.v;
    case "n": return Number(str(v.t));
    case "d": return v.js;
    case "null": return null;
  }
}
/** JavaScript value of strings/lists/objects -> spec value */
function toSpec(x) {
  if (Array.isArray(x)) return { k: "l", xs: x.map(toSpec) };
  if (x && typeof x === "object") return { k: "m", ks: Object.keys(x).map(cps), xs: Object.values(x).map(toSpec) };
  return { k: "s", t: cps(String(x)) };
}
const clean = (v) => JSON.parse(JSON.stringify(v, (k, x) => (k === "js" ? undefined : x)));

exports.run = async (ctx) => {
  const { model, rows } = await generate("MC_WriteEnc");
  ctx.addModel(model);
  const { rng } = ctx;
  const { ExifDateTime } = ctx.req("ExifDateTime.js");
  const { ExifDate } = ctx.req("ExifDate.js");
  const { ExifTime } = ctx.req("ExifTime.js");

  const alpha = ["a", "B", "7", " ", "  ", "\n", "\t", ",", "|", "||", "{", "}", "[", "]", "=", "é", "😀", "漢", "\\", "\"", "'", "`", "<", ">", "*", "#", "-", "-execute", "{ready}", ";", ":", "&", "&amp;", "&#65;", "&bogus;", "&#38;#65;", "$Make", "%f", "@", "\u00a0", "\u2028", "\u0085", "~", "\u007f", "+", "^", "/"];
  const exotic = ["\r", "\x01", "\x1b", "\u0000", "\ufffe"];
  const text = (a = alpha, n = 6) => Array.from({ length: rng.int(0, n) }, () => rng.pick(a)).join("");
  const sv = (t) => ({ k: "s", t: cps(t) });
  const leafs = [
    () => sv(text()),
    () => ({ k: "n", t: cps(String(rng.pick([0, 1, -1, 3.25, -12.5, 1e-7, 1e21, 123456789012, 0.1]))) }),
  ];
  const topLeafs = [
    ...leafs,
    () => ({ k: "b", v: rng.bool() }),
    () => { const t = rng.pick(["2020:01:02 03:04:05", "2019:12:31 23:59:59.123+05:30", "1999:07:04 00:00:00-08:00"]); return { k: "d", t: cps(t), js: ExifDateTime.fromEXIF(t) }; },
    () => { const t = rng.pick(["2020:01:02", "1970:12:31"]); return { k: "d", t: cps(t), js: ExifDate.fromEXIF(t) }; },
    () => { const t = rng.pick(["03:04:05", "23:59:59.500", "11:22:33.123"]); return { k: "d", t: cps(t), js: ExifTime.fromEXIF(t) }; },
  ];
  const anyOf = (l) => rng.pick(l)();
  const struct = (depth) => {
    const n = rng.int(1, 3);
    const ks = rng.sample(["A", "B", "Name", "Unit-fr", "x.y:z", "N#", "W_1"], n);
    return { k: "m", ks: ks.map(cps), xs: ks.map(() => inner(depth)) };
  };
  const inner = (depth) => {
    if (depth <= 0 || rng.bool(0.6)) return anyOf(leafs);
    return rng.bool() ? struct(depth - 1) : { k: "l", xs: Array.from({ length: rng.int(1, 3) }, () => inner(depth - 1)) };
  };
  const cases = [...rows];
  for (const v of topLeafs.slice(1)) for (let i = 0; i < 12; i++) cases.push({ type: "scalar", v: v() }, { type: "list", v: { k: "l", xs: [v(), anyOf(topLeafs)] } });
  cases.push({ type: "scalar", v: { k: "null" } }, { type: "list", v: { k: "l", xs: [] } }, { type: "struct", v: { k: "null" } });
  for (let i = 0; i < (ctx.thorough ? 20000 : 2500); i++) {
    cases.push({ type: "scalar", v: rng.bool(0.9) ? sv(text()) : sv(text([...alpha, ...exotic])) });
    cases.push({ type: "list", v: { k: "l", xs: Array.from({ length: rng.int(2, 4) }, () => anyOf(topLeafs)) } });
    if (i % 10 === 0) cases.push({ type: "list", v: { k: "l", xs: [sv(text() + "\x1f" + text()), sv("b")] } });
    cases.push({ type: "struct", v: rng.bool(0.7) ? struct(2) : { k: "l", xs: Array.from({ length: rng.int(1, 3) }, () => struct(1)) } });
    if (i % 10 === 0) cases.push({ type: "struct", v: { k: "m", ks: [cps(rng.pick(["A=", "A,B", " A", "A ", "", "A=x,B", "{A", "A|", "é", "A\n"]))], xs: [sv("v")] } });
  }
  const finding = { type: "list", v: sv("a\x1fb") }; // known-findings.json
  cases.push(finding);

  const et = stubbed(ctx, { taskRetries: 0 }, () => ({ stdout: "    1 image files updated\n" }));
  const events = [];
  const frames = [];
  for (const c of cases) {
    const value = toJs(c.v);
    const before = et.sent.length;
    const r = await settle(() => et.write("/tmp/p06.xmp", { "XMP:Before": "1", "XMP:Probe": value, "XMP:After": "2" }));
    const sent = et.sent.slice(before);
    let st = sent.length === 0 && r.st === "err" ? "refused" : "broken";
    let t = [];
    if (sent.length === 1) {
      const lines = sent[0].split("\n");
      const i = lines.indexOf("-XMP:Before=1");
      // exactly one line between the neighbours
      if (i >= 0 && lines[i + 2] === "-XMP:After=2" && lines[i + 1].startsWith("-XMP:Probe=")) {
        st = "sent";
        t = cps(lines[i + 1].slice("-XMP:Probe=".length));
      }
    }
    events.push({ op: "wire", type: c.type, v: clean(c.v), st, text: t });
  }
  const opts = {
    key: (e) => e.op + "|" + e.type + "|" + JSON.stringify(safeJs(e.v)),
    message: (e, w) => `${e.op} ${e.type} ${JSON.stringify(safeJs(e.v))} -> ${e.st} ${e.text ? JSON.stringify(str(e.text)) : JSON.stringify(e.got)} want ${w.slice(0, 300)}`,
  };
  const chunk = 6000;
  for (let i = 0; i < events.length; i += chunk) await judge(ctx, "WriteEncTrace", events.slice(i, i + chunk), opts);

  // ---- through the vendored ExifTool ---------------------------------------------
  const { ExifTool } = ctx.req("ExifTool.js");
  const dir = ctx.scratch("p06");
  const real = new ExifTool({ maxProcs: 6, taskRetries: 0 });
  const xml = alpha.filter((a) => a !== "\u007f");
  const rt = () => text(xml, 5);
  const nonEmpty = (f) => { for (;;) { const t = f(); if (t.length > 0) return t; } };
  const shapes = [
    { tag: "XMP-dc:Title", read: "Title", type: "scalar", gen: () => sv(nonEmpty(rt)) },
    { tag: "XMP-photoshop:Headline", read: "Headline", type: "scalar", gen: () => sv(nonEmpty(rt)) },
    { tag: "XMP-dc:Subject", read: "Subject", type: "list", gen: () => ({ k: "l", xs: Array.from({ length: rng.int(2, 4) }, () => sv(rt())) }) },
    { tag: "XMP-iptcExt:PersonInImage", read: "PersonInImage", type: "list", gen: () => ({ k: "l", xs: Array.from({ length: 2 }, () => sv(rt())) }) },
    { tag: "XMP-iptcCore:CreatorContactInfo", read: "CreatorContactInfo", type: "struct", gen: () => ({ k: "m", ks: [cps("CiAdrCity"), cps("CiAdrCtry")], xs: [sv(rt()), sv(rt())] }) },
    { tag: "XMP-mwg-coll:Collections", read: "Collections", type: "struct", gen: () => ({ k: "l", xs: [1, 2].map(() => ({ k: "m", ks: [cps("CollectionName"), cps("CollectionURI")], xs: [sv(rt()), sv(rt())] })) }) },
    { tag: "XMP-iptcExt:PersonInImageWDetails", read: "PersonInImageWDetails", type: "struct", gen: () => ({ k: "l", xs: [{ k: "m", ks: [cps("PersonId"), cps("PersonName")], xs: [{ k: "l", xs: [sv(rt()), sv(rt())] }, sv(nonEmpty(rt))] }] }) },
  ];
  const n = ctx.thorough ? 1500 : 120;
  const results = [];
  const jobs = Array.from({ length: n }, (_, i) => ({ i, picks: shapes.map((s) => ({ s, v: s.gen() })) }));
  const one = async ({ i, picks }) => {
    const file = path.join(dir, `f${i}.xmp`);
    const tags = Object.fromEntries(picks.map(({ s, v }) => [s.tag, toJs(v)]));
    const w = await settle(() => real.write(file, tags), 60000);
    let got;
    if (w.st === "ok") {
      const r = await settle(() => real.readRaw(file, { readArgs: ["-struct", "-api", "StructFormat=JSONQ", "-XMP:all"] }), 60000);
      if (r.st === "ok") got = r.v;
    }
    for (const { s, v } of picks) {
      const g = got?.[s.read];
      results.push({ op: "file", type: s.type, v, st: w.st === "ok" ? "sent" : "failed: " + w.msg, got: g === undefined ? { k: "none" } : toSpec(g) });
    }
    fs.rmSync(file, { force: true });
  };
  const queue = [...jobs];
  await Promise.all(Array.from({ length: 8 }, async () => { while (queue.length) await one(queue.shift()); }));
  // clearing: null and undefined empty a tag that had a value
  for (const empty of [null, undefined]) {
    const file = path.join(dir, "clear.xmp");
    await real.write(file, { "XMP-dc:Title": "t", "XMP-dc:Subject": ["a", "b"] });
    await real.write(file, { "XMP-dc:Title": empty, "XMP-dc:Subject": ["c", "d"] }, { writeArgs: ["-overwrite_original"] });
    const g = await real.readRaw(file, { readArgs: ["-XMP:all"] });
    results.push({ op: "file", type: "scalar", v: { k: "null" }, st: "sent", got: g.Title === undefined ? { k: "clear" } : toSpec(g.Title) });
    fs.rmSync(file, { force: true });
  }
  await real.end();
  await judge(ctx, "WriteEncTrace", results, opts);
  ctx.coverage.real_exiftool_writes = n;
};
function safeJs(v) {
  try { return toJs(v); } catch { return v; }
}
