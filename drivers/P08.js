"use strict";
// P08: tag edits, against spec/Edits.tla, by what is transmitted and by what the
// vendored ExifTool stores.
const fs = require("node:fs");
const path = require("node:path");
const { promisify } = require("node:util");
const { generate, judge, modelCheck, validate } = require("../lib/tlc");
const newRng = require("../lib/rng");
const { stubbed, settle } = require("../lib/stub");
const { cps, editEvent } = require("../lib/wire");
const { jpeg } = require("../lib/media");

exports.assumptions = [
  "ExifTool's argument decoder is the one of spec/WriteEnc.tla (cross-checked with the vendored ExifTool)",
  "additions may take the place of the first removed item (ExifTool's own behaviour for XMP and IPTC)",
  "default write options (IPTC in UTF-8 through the MWG module)",
];
const ADD = ["IPTC:CatalogSets", "IPTC:Keywords", "MIE-Doc:Keywords", "XMP-acdsee:Keywords", "XMP-dc:Subject", "XMP-digiKam:TagsList", "XMP-expressionmedia:CatalogSets", "XMP-expressionmedia:People", "XMP-iptcExt:PersonInImage", "XMP-lr:HierarchicalSubject", "XMP-mediapro:CatalogSets", "XMP-mediapro:People", "XMP-microsoft:LastKeywordXMP"];
const REMOVE_ONLY = ["XMP-MP:RegionPersonDisplayName", "XMP-acdsee-rs:ACDSeeRegionName", "XMP-mwg-rs:RegionName", "XMP-xmpDM:Album"];
const COLL = "XMP-mwg-coll:Collections";

exports.run = async (ctx) => {
  const { rng } = ctx;
  const a = await generate("MC_Edits");
  const c = await generate("MC_Edits", { cfg: "MC_EditsC" });
  ctx.addModel(a.model);
  ctx.addModel(c.model);
  if (ctx.thorough) ctx.addModel(await modelCheck("MC_Edits", { cfg: "MC_Edits3", env: { GEN: path.join(ctx.scratch("g"), "x") } }));

  const words = ["a", "A", "b", "ab", "abc", "a ", " a", "a,b", "a|b", "{x=1}", "[y]", "a=b", "&amp;", "&", "&#65;", "&lt;b&gt;", "é", "漢字", "😀", "-x", "#c", "$Title", "'q'", "\"q\"", "<i>", "\\n", "x\ny", "x\ty", "1", "01", "1.0", "true", "a;b", "a/b", "%d", "@x", "~", "&#38;#65;", "|", "\u00a0n", "null", "0", "-", " "];
  const hostile = ["", "a\x1fb", "a\x00b", "a\rb", "\ud800", "x\ufffe", "\ufdd0", "a\x0bb", "\udfff!"];
  const word = () => (rng.bool(0.8) ? rng.pick(words) : rng.pick(words) + rng.pick(words));
  const toJs = (x, m) => {
    const w = (s) => m(String.fromCodePoint(...s));
    const f = () => { const o = {}; if (x.name.set) o.CollectionName = w(x.name.cps); if (x.uri.set) o.CollectionURI = w(x.uri.cps); return o; };
    if (x.kind === "str") return { tag: x.tag, operation: x.op, value: w(x.cps) };
    return x.op === "add" ? { tag: x.tag, operation: "add", value: f() } : { tag: x.tag, operation: "remove", predicate: f() };
  };

  // ---- transmitted text -----------------------------------------------------------
  const et = stubbed(ctx, { taskRetries: 0 }, () => ({ stdout: "    1 image files updated\n" }));
  const events = [];
  const origin = new Map();
  const call = async (edits, args) => {
    const ev = Array.isArray(edits) ? edits.map(editEvent) : [];
    const before = et.sent.length;
    const was = JSON.stringify(edits);
    const r = await settle(() => et.editTags("/tmp/p08.xmp", edits, args ? { writeArgs: args } : undefined));
    const sent = et.sent.slice(before);
    const lines = [];
    for (const l of (sent[0] ?? "").split("\n")) {
      const m = /^-([\w:-]+?)([-+]?)=(.*)$/s.exec(l);
      if (m && m[1].includes(":")) lines.push({ tag: m[1], op: m[2] === "+" ? "add" : m[2] === "-" ? "remove" : "set", text: cps(m[3]) });
    }
    const e = { op: "call", edits: ev, args: (args ?? []).map((t) => ({ t, ok: !/^-(api|sep)/i.test(t) })), st: r.st, n: sent.length, lines };
    if (was !== JSON.stringify(edits)) e.st = "caller's edits modified";
    origin.set(e, JSON.stringify([edits, args]));
    events.push(e);
  };
  // all calls of the model, over several tags and several readings of its two symbols
  const maps = [["a", "b"], ["&amp;", "&"], ["a", "A"], [" a", "a"], ["a,b|", "{a}"], ["é\n", "&#233;"]];
  for (const row of [...a.rows, ...c.rows]) {
    for (const [mi, [x, y]] of maps.entries()) {
      if (!ctx.thorough && mi >= 2 && rng.bool(0.6)) continue;
      const tag = rng.pick(ADD);
      const es = row.xs.map((e) => toJs(e, (s) => (s === "a" ? x : y))).map((e) => (e.tag === COLL ? e : { ...e, tag }));
      await call(es);
    }
  }
  const strEdit = (v = word()) => {
    const tag = rng.bool(0.85) ? rng.pick(ADD) : rng.pick(REMOVE_ONLY);
    return { tag, operation: rng.bool(0.5) || REMOVE_ONLY.includes(tag) ? "remove" : "add", value: v };
  };
  const collEdit = () =>
    rng.bool() ? { tag: COLL, operation: "add", value: { CollectionName: word(), CollectionURI: word() } }
      : { tag: COLL, operation: "remove", predicate: rng.pick([{ CollectionName: word() }, { CollectionURI: word() }, { CollectionName: word(), CollectionURI: word() }]) };
  const bad = [
    () => ({ ...strEdit(), value: rng.pick(hostile) }),
    () => ({ ...strEdit(), value: rng.pick([1, null, undefined, true, ["a"], { a: 1 }]) }),
    () => ({ ...strEdit(), operation: rng.pick(["set", "", undefined, "Add", "delete"]) }),
    () => ({ ...strEdit(), tag: rng.pick(["Subject", "XMP:Subject", "XMP-dc:Title", "xmp-dc:subject", "XMP-dc:Subject#", "", "XMP-dc:subject", "IPTC:keywords", "EXIF:Orientation", "XMP-iptcExt:PersonInImageName", "*:Subject"]) }),
    () => ({ tag: rng.pick(REMOVE_ONLY), operation: "add", value: word() }),
    () => ({ ...strEdit(), predicate: { CollectionName: "a" } }),
    () => ({ tag: rng.pick(ADD), operation: "remove", predicate: word() }),
    () => ({ tag: COLL, operation: rng.pick(["add", "remove"]), value: word() }),
    () => ({ tag: COLL, operation: "add", value: rng.pick([{ CollectionName: "a" }, { CollectionURI: "u" }, {}, { CollectionName: "a", CollectionURI: "u", Extra: "x" }, { CollectionName: "a", CollectionURI: 3 }, { CollectionName: "a\x1f", CollectionURI: "u" }]) }),
    () => ({ tag: COLL, operation: "remove", predicate: rng.pick([{}, { Extra: "x" }, { CollectionName: null }, { CollectionName: "\ud800" }, { collectionname: "a" }]) }),
    () => ({ tag: COLL, operation: "remove", value: { CollectionName: "a", CollectionURI: "u" } }),
    () => rng.pick([null, undefined, "x", 3, []]),
  ];
  for (let i = 0; i < (ctx.thorough ? 12000 : 1500); i++) {
    const es = Array.from({ length: rng.int(1, 4) }, () => (rng.bool(0.7) ? strEdit() : collEdit()));
    if (rng.bool(0.25)) es[rng.int(0, es.length - 1)] = rng.pick(bad)();
    if (rng.bool(0.25)) { const k = es[0]; if (k?.operation === "remove" && k.value) es.push({ ...k, operation: "add" }); }
    const args = rng.bool(0.15) ? [rng.pick(["-P", "-overwrite_original", "-api", "-sep", "-SEP", "-Api", "-separator", "-sep=x", "-v0", "-apix"])] : undefined;
    await call(es, args);
  }
  // long calls over few tags and values: contradictions at any distance
  for (let i = 0; i < (ctx.thorough ? 6000 : 900); i++) {
    const tags = rng.sample(ADD, 2).concat(rng.bool(0.4) ? [COLL] : []);
    const vals = rng.bool(0.5) ? ["a", "b", "c", "A", "a "] : rng.sample(words, 4);
    const es = Array.from({ length: rng.int(2, 12) }, () => {
      const tag = rng.pick(tags);
      const v = () => rng.pick(vals);
      const add = rng.bool(0.7);
      if (tag !== COLL) return { tag, operation: add ? "add" : "remove", value: v() };
      return add ? { tag, operation: "add", value: { CollectionName: v(), CollectionURI: v() } }
        : { tag, operation: "remove", predicate: rng.pick([{ CollectionName: v() }, { CollectionURI: v() }, { CollectionName: v(), CollectionURI: v() }]) };
    });
    if (rng.bool(0.5)) {
      // additions only, and one removal somewhere
      for (const e of es) if (e.operation === "remove" && e.tag !== COLL) e.operation = "add";
      const t = rng.pick(tags.slice(0, 2));
      es.splice(rng.int(0, es.length), 0, { tag: t, operation: "remove", value: rng.pick(vals) });
    }
    await call(es);
  }
  // every boundary of what can be stored exactly, in every field
  const edges = [...Array(0x21).keys(), 0x7e, 0x7f, 0x80, 0x85, 0xa0, 0x2028, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfdcf, 0xfdd0, 0xfde0, 0xfdef, 0xfdf0, 0xfeff, 0xfffd];
  for (let p = 0; p <= 16; p++) edges.push(p * 0x10000 + 0xfffe, p * 0x10000 + 0xffff, ...(p > 0 ? [p * 0x10000, p * 0x10000 + 0xfdd0, p * 0x10000 + 0xfffd] : []));
  for (const cp of edges) {
    const ch = String.fromCodePoint(cp);
    for (const v of [ch, "a" + ch, ch + "b", "é" + ch + "😀"]) {
      await call([{ tag: rng.pick(ADD), operation: "add", value: v }]);
      await call([{ tag: rng.pick([...ADD, ...REMOVE_ONLY]), operation: "remove", value: v }]);
    }
    const v = "a" + ch + "b";
    await call([{ tag: COLL, operation: "add", value: { CollectionName: v, CollectionURI: "u" } }]);
    await call([{ tag: COLL, operation: "add", value: { CollectionName: "n", CollectionURI: v } }]);
    await call([{ tag: COLL, operation: "remove", predicate: rng.pick([{ CollectionName: v }, { CollectionURI: v }]) }]);
  }
  await call([]);
  for (const f of bad) for (let i = 0; i < 12; i++) await call([strEdit(), f()]);
  const opts = { key: (e) => e.op + "|" + origin.get(e), message: (e, w) => `${e.op} ${origin.get(e)} -> ${e.st} ${JSON.stringify(e.lines ?? e.after).slice(0, 200)} want ${w.slice(0, 300)}` };
  for (let i = 0; i < events.length; i += 4000) await judge(ctx, "EditsTrace", events.slice(i, i + 4000), opts);

  // ---- stored lists ------------------------------------------------------------------
  const { ExifTool } = ctx.req("ExifTool.js");
  const real = new ExifTool({ maxProcs: 7, taskRetries: 0 });
  const dir = ctx.scratch("p08");
  const execFile = promisify(require("node:child_process").execFile);
  const ExiftoolPath = async () => real.exiftoolPath();
  let out = [];
  const where = new Map();
  const kinds = [
    { ext: "xmp", tags: ADD.filter((t) => t.startsWith("XMP")), keep: { "XMP-dc:Title": "keep", "XMP-dc:Rights": "r" } },
    { ext: "jpg", tags: ["IPTC:Keywords", "IPTC:CatalogSets", "XMP-dc:Subject", "XMP-lr:HierarchicalSubject"], keep: { "IPTC:ObjectName": "keep", "XMP-dc:Title": "k" }, latin: true },
    { ext: "jpg", tags: ["IPTC:Keywords", "IPTC:CatalogSets"], keep: { "IPTC:CodedCharacterSet": "UTF8", "IPTC:ObjectName": "keep" } },
    { ext: "mie", tags: ["MIE-Doc:Keywords"], keep: { "MIE-Doc:Title": "keep" } },
    { ext: "xmp", tags: [COLL], keep: { "XMP-dc:Title": "keep" } },
    { ext: "xmp", tags: REMOVE_ONLY, keep: { "XMP-dc:Title": "keep" }, flat: true },
  ];
  const norm = (t, v) => {
    const l = v === undefined ? [] : Array.isArray(v) ? v : [v];
    return l.map((x) => (t === COLL ? { name: cps(String(x.CollectionName ?? "")), uri: cps(String(x.CollectionURI ?? "")) } : cps(String(x))));
  };
  const Volatile = /^(SourceFile|ExifTool:|File:|System:|XMP-x:XMPToolkit|XMP-photoshop:|IPTC:(CodedCharacterSet|EnvelopeRecordVersion|ApplicationRecordVersion)|Photoshop:|Composite:|MIE-Top:|errors$|warnings$)/;
  const snapshot = async (file, k) => {
    if (!fs.existsSync(file)) return { lists: Object.fromEntries(k.tags.map((t) => [t, []])), others: {} };
    // Flattened structure fields are read as lists, by a fresh ExifTool: how it names them
    // depends on the modules it has loaded.
    const args = ["-G1", "-api", "StructFormat=JSONQ", "-XMP:all", "-IPTC:all", "-MIE-Doc:all"];
    const raw = k.flat
      ? JSON.parse((await execFile(await ExiftoolPath(), ["-use", "MWG", "-json", ...args, file])).stdout)[0]
      : await real.readRaw(file, { readArgs: ["-struct", ...args] });
    const lists = Object.fromEntries(k.tags.map((t) => [t, norm(t, raw[t])]));
    const others = Object.fromEntries(Object.entries(raw).filter(([n]) => !k.tags.includes(n) && !Volatile.test(n)).sort());
    return { lists, others };
  };
  const one = async (h) => {
    const rng = newRng(ctx.seed * 100003 + h); // the same whatever runs meanwhile
    const k = kinds[h % kinds.length];
    const file = path.join(dir, `f${h}.${k.ext}`);
    if (k.ext === "jpg") fs.writeFileSync(file, jpeg);
    await real.write(file, k.keep, { writeArgs: ["-overwrite_original"] });
    const pool = rng.sample(words.filter((w) => w.trim() !== "" && !(k.latin && /[^\x00-\xff]/.test(w))), 3);
    const w = () => rng.pick(pool);
    if (k.flat) {
      await real.write(file, {
        "XMP-mwg-rs:RegionInfo": { RegionList: [{ Name: "n1" + h, Type: "Face" }, { Name: "n2", Type: "Pet" }, { Name: "n1" + h, Type: "Focus" }] },
        "XMP-MP:RegionInfoMP": { Regions: [{ PersonDisplayName: "p1", Rectangle: "0,0,1,1" }, { PersonDisplayName: "p2", Rectangle: "0,0,0.5,1" }] },
        "XMP-xmpDM:Album": "album",
        "XMP-acdsee-rs:RegionInfoACDSee": { RegionList: [{ Name: "q1", Type: "Face" }, { Name: "q2", Type: "Face" }] },
      }, { writeArgs: ["-overwrite_original"] });
    }
    for (let i = 0; i < (k.flat ? 3 : 4); i++) {
      const before = await snapshot(file, k);
      const es = Array.from({ length: rng.int(1, 6) }, () => {
        const tag = rng.pick(k.tags);
        if (k.flat) return { tag, operation: "remove", value: rng.pick(["n1" + h, "n2", "p1", "p2", "q1", "q2", "album", "nope", "n", "N2"]) };
        if (tag !== COLL) return { tag, operation: rng.bool(0.6) ? "add" : "remove", value: w() };
        return rng.bool(0.6) ? { tag, operation: "add", value: { CollectionName: w(), CollectionURI: w() } }
          : { tag, operation: "remove", predicate: rng.pick([{ CollectionName: w() }, { CollectionURI: w() }, { CollectionName: w(), CollectionURI: w() }]) };
      });
      const r = await settle(() => real.editTags(file, es, { writeArgs: ["-overwrite_original"] }), 60000);
      const after = await snapshot(file, k);
      const e = { op: "file", edits: es.map(editEvent), before: before.lists, after: after.lists, st: r.st, others: JSON.stringify(before.others) === JSON.stringify(after.others) };
      origin.set(e, JSON.stringify([k.ext, before.lists, es, r.msg, e.others ? 0 : [before.others, after.others]]));
      // removing flattened fields may prune their structures
      if (k.flat) e.others = after.others["XMP-dc:Title"] === "keep";
      where.set(e, h);
      out.push(e);
    }
    fs.rmSync(file, { force: true });
  };
  const q = Array.from({ length: ctx.thorough ? 1500 : 150 }, (_, i) => i);
  await Promise.all(Array.from({ length: 8 }, async () => { while (q.length) await one(q.shift()); }));
  // what an edit does to a file depends on nothing but the edit and the file: a history
  // that is not as specified is run again, so that mishaps of the machine do not count
  const first = await validate("EditsTrace", out);
  for (const h of new Set([...first.bad.keys()].map((l) => where.get(out[l - 1])))) {
    out = out.filter((e) => where.get(e) !== h);
    await one(h);
  }
  await real.end();
  await judge(ctx, "EditsTrace", out, opts);
  ctx.coverage.real_exiftool_edits = out.length;
};
