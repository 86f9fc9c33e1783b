"use strict";
// P19: text that is not UTF-8, against spec/Utf8.tla.  Files with arbitrary bytes in
// their texts are read by the real ExifTool: JSON files for arbitrary nesting of
// lists and structures, JPEGs for EXIF, XMP and comment texts.
const fs = require("node:fs");
const path = require("node:path");
const util = require("node:util");
const { generate, judge } = require("../lib/tlc");
const { settle } = require("../lib/stub");
const { scratch } = require("../lib/build");
const { jpeg } = require("../lib/media");

exports.level = "model_checking";
exports.assumptions = ["ExifTool's notion of UTF-8 (which excludes U+FFFE and U+FFFF) and its removal of NULs are as in spec/Utf8.tla"];

const points = (s) => [...s].map((c) => c.codePointAt(0));

exports.run = async (ctx) => {
  const { rng } = ctx;
  const { model, rows } = await generate("MC_Utf8", ctx.thorough ? { cfg: "MC_Utf8_4" } : {});
  ctx.addModel(model);
  const { ExifTool } = ctx.req("ExifTool.js");
  const { parseJSON } = ctx.req("JSON.js");
  let marker = "__etvInvalidUtf8V1";
  try { marker = ctx.req("InvalidUtf8Bytes.js").InvalidUtf8Marker ?? marker; } catch { /* named otherwise */ }
  const et = new ExifTool({ maxProcs: 4 });
  const root = scratch("p19");
  const events = [];

  // ---- strings ---------------------------------------------------------------
  const CLASS = [0x00, 0x20, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbd, 0xbe, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfc, 0xfe, 0xff];
  const WORDS = ["é", "漢字", "😀", "\ufeff", "\ufffd", "ÿ", "e\u0301", "ASCII", "s:", "b64:", "?", "\u2028", "\u0080", "\ud7ff", "\ue000", "\u{10ffff}", "{}", "[1,2]", "'", "base64:"];
  let serial = 0;
  const pend = [...rows.map((r) => r.s)];
  rng.shuffle?.(pend);
  /** Random or enumerated bytes around a unique name. */
  function text({ nul = true, avoid = [] } = {}) {
    let body;
    if (pend.length && rng.bool(0.8)) body = pend.pop();
    else {
      const parts = [];
      for (let i = rng.int(0, 6); i > 0; i--) {
        const k = rng.int(0, 9);
        if (k < 4) parts.push([rng.pick(CLASS)]);
        else if (k < 6) parts.push([rng.int(0x80, 0xff)]);
        else if (k < 7) { const w = [...Buffer.from(rng.pick(WORDS))]; parts.push(w.slice(0, rng.int(1, w.length))); } // perhaps cut
        else parts.push([...Buffer.from(rng.pick(WORDS))]);
      }
      body = parts.flat();
    }
    const no = new Set([0x22, 0x5c, ...avoid, ...(nul ? [] : [0])]);
    const id = "q" + ++serial + "q";
    const ids = [...Buffer.from(id)];
    const at = rng.pick([0, body.length, rng.int(0, body.length)]);
    const raw = [...body.slice(0, at), ...ids, ...body.slice(at)].filter((b) => !no.has(b));
    return { id, raw };
  }

  // ---- reading and comparing -------------------------------------------------
  const own = (o, k) => (o != null && typeof o === "object" && Object.hasOwn(o, k) ? o[k] : undefined);
  const get = (o, p) => p.reduce((x, k) => own(x, k), o);
  function leaves(v, at = [], out = []) {
    if (typeof v === "string") out.push({ at, v });
    else if (v != null && typeof v === "object" && !util.types.isUint8Array(v)) for (const k of Object.keys(v)) leaves(v[k], [...at, k], out);
    return out;
  }
  function records(v, at = [], out = []) {
    if (util.types.isUint8Array(v)) out.push({ at, v: [...v] });
    else if (v != null && typeof v === "object") for (const k of Object.keys(v)) records(v[k], [...at, k], out);
    else if (v !== undefined) out.push({ at, v: ["?"] });
    return out;
  }
  /**
   * expected: [{id, raw, at}]; `at` undefined: anywhere (flattened structures).
   * A text of a tag that the read drops (`maygo`) must take its record along.
   */
  function compare(tags, expected, custom, how) {
    const side = tags.invalidUtf8Bytes;
    const vals = { ...tags };
    delete vals.invalidUtf8Bytes;
    const ls = leaves(vals);
    const rs = records(side);
    const byPath = new Map(ls.map((l) => [JSON.stringify(l.at), l.v]));
    const recAt = new Map(rs.map((r) => [JSON.stringify(r.at), r.v]));
    const byId = new Map();
    for (const l of ls) { const m = /q\d+q/.exec(l.v); if (m && !byId.has(m[0])) byId.set(m[0], l.at); }
    let shape = true;
    const texts = [];
    for (const x of expected) {
      const at = x.at ?? byId.get(x.id);
      const v = at && byPath.get(JSON.stringify(at));
      if (v === undefined && x.maygo) continue;
      if (v === undefined) { shape = false; texts.push({ at: JSON.stringify(at ?? x.id) + " missing", raw: x.raw, got: [], recorded: false, rec: [] }); continue; }
      const rec = recAt.get(JSON.stringify(at));
      texts.push({ at: JSON.stringify(at), raw: x.raw, got: points(v), recorded: rec !== undefined, rec: rec ?? [] });
    }
    const extra = rs.filter((r) => byPath.get(JSON.stringify(r.at)) === undefined).map((r) => JSON.stringify(r.at));
    events.push({ op: "texts", how, custom, shape, extra, texts });
    // the record survives JSON
    let back = {};
    try { back = parseJSON(JSON.stringify(tags)); } catch { back = { invalidUtf8Bytes: "threw" }; }
    events.push({ op: "json", how, same: util.isDeepStrictEqual(back.invalidUtf8Bytes, tags.invalidUtf8Bytes), n: rs.length });
  }
  const FILTERS = [
    { args: ["-api", "Filter=tr/~/~/"], custom: true }, { args: ["-API", "filter=tr/~/~/"], custom: true },
    { args: ["-api", "Filter^=tr/~/~/"], custom: true }, { args: ["-api", "Filter="], custom: false },
    { args: ["-api", "Filter=tr/~/~/", "-api", "Filter="], custom: false }, { args: ["-api", "Filter=", "-api", "FILTER=tr/~/~/"], custom: true },
    { args: ["-api", "RequestAll=1"], custom: false }, { args: ["-api", "Filter= "], custom: false },
    { args: ["-api", "FilterW=tr/~/~/"], custom: false }, { args: ["-api", "Filter"], custom: true }, { args: ["-api", "filter^"], custom: true },
    { args: ["-api", "FilterW=tr/~/~/", "-api", "Filter=tr/~/~/"], custom: true }, { args: ["-api", "Filter=tr/~/~/", "-api", "FilterW="], custom: true },
    { args: ["-api", "Compact=1", "-fast", "-api", "LargeFileSupport=1"], custom: false },
  ];
  async function readAll(file, expected, { groups = true, flat = true } = {}) {
    const base = expected.map((x) => ({ ...x }));
    const pathed = (g) => base.map((x) => ({ ...x, at: x.at && [g ? x.group + ":" + x.at[0] : x.at[0], ...x.at.slice(1)] }));
    const plans = [
      ["readRaw", () => et.readRaw(file, { readArgs: ["-struct"] }), pathed(false), false],
      ["read", () => et.read(file), pathed(false), false],
    ];
    if (groups) plans.push(
      ["read -G", () => et.read(file, { readArgs: ["-G"] }), pathed(true), false],
      ["readRaw -G", () => et.readRaw(file, { readArgs: ["-G", "-struct"] }), pathed(true), false]);
    if (flat) plans.push(
      ["read struct=0", () => et.read(file, { struct: 0 }), base.map((x) => ({ ...x, at: undefined })), false],
      ["readRaw flat", () => et.readRaw(file), base.map((x) => ({ ...x, at: undefined })), false],
      ["read struct=2", () => et.read(file, { struct: 2 }), pathed(false), false]);
    const f = rng.pick(FILTERS);
    plans.push(["readRaw " + f.args.join(" "), () => et.readRaw(file, { readArgs: ["-struct", ...f.args] }), pathed(false), f.custom]);
    const g = rng.pick(FILTERS);
    plans.push(["read " + g.args.join(" "), () => et.read(file, { readArgs: g.args }), pathed(false), g.custom]);
    for (const [how, f2, exp, custom] of plans) {
      const r = await settle(f2, 60000);
      if (r.st !== "ok") { events.push({ op: "texts", how: how + " " + r.msg, custom, shape: false, extra: [], texts: [] }); continue; }
      compare(r.v, exp, custom, how);
    }
  }

  // ---- JSON sources: nesting -------------------------------------------------
  const KEYS = ["k", "k2", "inner", "__proto__", "constructor", "invalidUtf8Bytes", "replacement", "rawBase64", "length", "Alpha", "0", "1", "2"];
  function node(depth, at, out, o, nolist = false) {
    let k = depth <= 0 ? 0 : rng.int(0, 9);
    if (nolist && k >= 6) k = 9;
    if (k < 6) {
      const t = text(o);
      out.push({ ...t, at });
      return Buffer.concat([Buffer.from('"'), Buffer.from(t.raw), Buffer.from('"')]);
    }
    const parts = [];
    if (k < 8) {
      // (ExifTool itself merges lists in a tag's list, and unwraps a tag's list of one)
      const top = at.length === 1;
      for (let i = 0, n = rng.int(top ? 2 : 1, 4); i < n; i++) parts.push(node(depth - 1, [...at, String(i)], out, o, top));
      return Buffer.concat([Buffer.from("["), ...parts.flatMap((p, i) => (i ? [Buffer.from(","), p] : [p])), Buffer.from("]")]);
    }
    for (const key of rng.sample(KEYS, rng.int(1, 4))) parts.push(Buffer.concat([Buffer.from(JSON.stringify(key) + ":"), node(depth - 1, [...at, key], out, o)]));
    return Buffer.concat([Buffer.from("{"), ...parts.flatMap((p, i) => (i ? [Buffer.from(","), p] : [p])), Buffer.from("}")]);
  }
  let n = 0;
  async function jsonFile({ tags, depth, flatten }) {
    const expected = [];
    const parts = [];
    const o = { nul: rng.bool(0.8) };
    for (let i = 0; i < tags; i++) {
      const tag = rng.bool(0.02) ? "GPSNote" + i : rng.pick(["Alpha", "Beta", "X", "Note", "Caption"]) + "Tag" + i;
      const mine = [];
      parts.push(Buffer.concat([Buffer.from(JSON.stringify(tag) + ":"), node(depth, [tag], mine, o)]));
      for (const m of mine) expected.push({ ...m, group: "JSON", maygo: tag.startsWith("GPS") });
    }
    const file = path.join(root, "j" + ++n + ".json");
    fs.writeFileSync(file, Buffer.concat([Buffer.from("{"), ...parts.flatMap((p, i) => (i ? [Buffer.from(","), p] : [p])), Buffer.from("}")]));
    // a one-element list may come back as its element when it is flattened; places are free there
    await readAll(file, expected, { flat: flatten });
    fs.rmSync(file);
  }
  const loops = ctx.thorough ? 60 : 7;
  for (let i = 0; i < loops; i++) await jsonFile({ tags: ctx.thorough ? 200 : 120, depth: 0, flatten: true });
  while (pend.length && (ctx.thorough || n < 14)) await jsonFile({ tags: 150, depth: 0, flatten: false });
  for (let i = 0; i < loops * 3; i++) await jsonFile({ tags: rng.int(5, 40), depth: rng.int(1, 4), flatten: false });

  // a position that cannot be trusted takes the other GPS tags along, and their records
  for (let i = 0; i < 4; i++) {
    const file = path.join(root, "g" + i + ".json");
    const [a, b] = [text({ nul: false }), text({ nul: false })];
    a.raw.push(0x80);
    fs.writeFileSync(file, Buffer.concat([Buffer.from('{"GPSLatitude":0,"GPSLongitude":0,"GPSMapDatum":"'), Buffer.from(a.raw), Buffer.from('","Caption":"'), Buffer.from(i % 2 ? b.raw : Buffer.from("plain " + b.id)), Buffer.from('"}')]));
    await readAll(file, [{ ...a, at: ["GPSMapDatum"], group: "JSON", maygo: true }, { ...b, raw: i % 2 ? b.raw : [...Buffer.from("plain " + b.id)], at: ["Caption"], group: "JSON" }], { flat: false });
    fs.rmSync(file);
  }

  // ---- JPEG sources ----------------------------------------------------------
  const seg = (m, b) => { const h = Buffer.alloc(4); h[0] = 0xff; h[1] = m; h.writeUInt16BE(b.length + 2, 2); return Buffer.concat([h, b]); };
  const XML = [0x3c, 0x3e, 0x26, 0x27, 0x0a, 0x0d, 0x09, 0x20, 0x7f];
  async function jpegFile() {
    const expected = [];
    const EXIF = [[0x10d, "DocumentName"], [0x10e, "ImageDescription"], [0x11d, "PageName"], [0x131, "Software"], [0x13c, "HostComputer"]];
    const exifTexts = EXIF.map(([, name]) => { const t = text({ nul: false, avoid: [0x20] }); expected.push({ ...t, at: [name], group: "EXIF" }); return Buffer.from([...t.raw, 0]); });
    let off = 8 + 2 + 12 * EXIF.length + 4;
    const ifd = Buffer.alloc(2 + 12 * EXIF.length + 4);
    ifd.writeUInt16BE(EXIF.length, 0);
    const data = [];
    EXIF.forEach(([tag], i) => {
      const b = exifTexts[i], o = 2 + 12 * i;
      ifd.writeUInt16BE(tag, o); ifd.writeUInt16BE(2, o + 2); ifd.writeUInt32BE(b.length, o + 4);
      if (b.length <= 4) b.copy(ifd, o + 8); else { ifd.writeUInt32BE(off, o + 8); data.push(b); off += b.length; }
    });
    const app1 = Buffer.concat([Buffer.from("Exif\0\0"), Buffer.from("4d4d002a00000008", "hex"), ifd, ...data]);
    const x = (at, o) => { const t = text({ nul: false, avoid: XML, ...o }); expected.push({ ...t, at, group: "XMP" }); return Buffer.from(t.raw); };
    const B = (s) => Buffer.from(s);
    const li = (b) => Buffer.concat([B("<rdf:li>"), b, B("</rdf:li>")]);
    const many = (name, k) => (k === 1 ? [x([name])] : Array.from({ length: k }, (_, i) => x([name, String(i)])));
    const xmp = Buffer.concat([
      B("http://ns.adobe.com/xap/1.0/\0"),
      B('<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description rdf:about="" xmlns:dc="http://purl.org/dc/elements/1.1/" xmlns:photoshop="http://ns.adobe.com/photoshop/1.0/" xmlns:Iptc4xmpExt="http://iptc.org/std/Iptc4xmpExt/2008-02-29/" xmlns:mwg-rs="http://www.metadataworkinggroup.com/schemas/regions/">'),
      B("<photoshop:Headline>"), x(["Headline"]), B("</photoshop:Headline>"),
      B("<dc:subject><rdf:Bag>"), ...many("Subject", rng.int(2, 4)).map(li), B("</rdf:Bag></dc:subject>"),
      B("<dc:creator><rdf:Seq>"), ...many("Creator", rng.int(2, 3)).map(li), B("</rdf:Seq></dc:creator>"),
      B('<Iptc4xmpExt:LocationShown><rdf:Bag>'),
      ...[0, 1].map((i) => Buffer.concat([B('<rdf:li rdf:parseType="Resource"><Iptc4xmpExt:City>'), x(["LocationShown", String(i), "City"]), B("</Iptc4xmpExt:City><Iptc4xmpExt:Sublocation>"), x(["LocationShown", String(i), "Sublocation"]), B("</Iptc4xmpExt:Sublocation></rdf:li>")])),
      B("</rdf:Bag></Iptc4xmpExt:LocationShown>"),
      B('<mwg-rs:Regions rdf:parseType="Resource"><mwg-rs:RegionList><rdf:Bag>'),
      ...[0, 1, 2].map((i) => Buffer.concat([B('<rdf:li rdf:parseType="Resource"><mwg-rs:Name>'), x(["RegionInfo", "RegionList", String(i), "Name"]), B("</mwg-rs:Name></rdf:li>")])),
      B("</rdf:Bag></mwg-rs:RegionList></mwg-rs:Regions>"),
      B("</rdf:Description></rdf:RDF></x:xmpmeta>"),
    ]);
    const com = text({ nul: false });
    expected.push({ ...com, at: ["Comment"], group: "File" });
    const file = path.join(root, "p" + ++n + ".jpg");
    fs.writeFileSync(file, Buffer.concat([jpeg.subarray(0, 2), seg(0xe1, app1), seg(0xe1, xmp), seg(0xfe, Buffer.from(com.raw)), jpeg.subarray(2)]));
    await readAll(file, expected, { groups: true, flat: true });
    fs.rmSync(file);
  }
  for (let i = 0; i < loops * 2; i++) await jpegFile();

  // ---- lookalikes of the transport marker --------------------------------------
  const S = "s:seen", R = "b64:" + Buffer.from([0xdc, 0x4b]).toString("base64");
  const shapes = (m) => [
    { [m]: { replacement: "seen", rawBase64: R } }, { [m]: { replacement: S, rawBase64: "3Es=" } }, { [m]: { replacement: S } }, { [m]: { rawBase64: R } },
    { [m]: { replacement: S, rawBase64: R, more: "x" } }, { [m]: { replacement: S, rawBase64: R }, more: "x" }, { [m]: [S, R] }, { [m]: "x" }, { [m]: { replacement: [S], rawBase64: [R] } },
    { [m]: { Replacement: S, RawBase64: R } }, { [m + "x"]: { replacement: S, rawBase64: R } }, { x: { replacement: S, rawBase64: R } }, { [m]: { replacement: { a: S }, rawBase64: R } },
    { [m]: { replacement: "S:x", rawBase64: "B64:x" } }, { [m]: { replacement: S, rawBase64: "bogus" } }, { [m]: { replacement: "seen", rawBase64: "b:x" } }, { [m]: { replacement: S, rawbase64: R } },
  ];
  const full = (m) => ({ [m]: { replacement: S, rawBase64: R } });
  // what anyone can know from the source, in full; with the marker in use, only near misses
  const alike = [...shapes("__etvInvalidUtf8V1"), full("__etvInvalidUtf8V1"), ...(marker === "__etvInvalidUtf8V1" ? [] : shapes(marker)), full("invalidUtf8Bytes"),
    { [marker.toLowerCase() + "y"]: { replacement: S, rawBase64: R } }, JSON.stringify(full(marker)), "s:x", "b64:AAAA", "text " + marker, { replacement: S, rawBase64: R }, { rawBase64: R }];
  const wraps = [(v) => v, (v) => [v, "plain"], (v) => ({ in: v }), (v) => ({ in: [{ deep: v }] }), (v) => ({ in: [[v], v] })];
  for (const [i, a] of alike.entries()) {
    const want = {};
    wraps.forEach((w, j) => (want["Tag" + j + "a"] = w(a)));
    const file = path.join(root, "a" + i + ".json");
    fs.writeFileSync(file, JSON.stringify(want));
    for (const [how, f] of [["read", () => et.read(file)], ["readRaw", () => et.readRaw(file, { readArgs: ["-struct"] })]]) {
      const r = await settle(f, 60000);
      const got = {};
      for (const k of Object.keys(want)) got[k] = r.v?.[k];
      events.push({ op: "alike", how, i, same: r.st === "ok" && util.isDeepStrictEqual(JSON.parse(JSON.stringify(got)), want), extra: records(r.v?.invalidUtf8Bytes).map((x) => JSON.stringify(x.at)) });
    }
    fs.rmSync(file);
  }
  await et.end();
  fs.rmSync(root, { recursive: true, force: true });
  await judge(ctx, "Utf8Trace", events, {
    key: (e) => e.op + "|" + e.how + "|" + (e.op === "alike" ? e.i : ""),
    message: (e, want) => `${e.op} ${e.how} ${e.i ?? ""} shape=${e.shape} want ${want.slice(0, 600)}`,
    heap: "4g",
  });
};
