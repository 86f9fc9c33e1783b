"use strict";
// P23: histories of operations on real files, against spec/File.tla.
const fs = require("node:fs");
const path = require("node:path");
const crypto = require("node:crypto");
const { promisify } = require("node:util");
const execFile = promisify(require("node:child_process").execFile);
const { generate, judge } = require("../lib/tlc");
const newRng = require("../lib/rng");
const { settle } = require("../lib/stub");
const { jpeg, jpegWithProfile } = require("../lib/media");

exports.assumptions = [
  "ExifTool itself stores what it is told to (it is the vendored one)",
  "with useMWG, keywords of IPTC and XMP are one tag to ExifTool: IPTC keywords are then left out",
  "leftovers of killed ExifTool processes (_exiftool_tmp files, unfinished new files) are removed by the user",
];

const MS = 60000;
const GEO = ["geo:Latitude", "geo:Longitude", "geo:Altitude"];
const CONTACT = "XMP-iptcCore:CreatorContactInfo", COLLS = "XMP-mwg-coll:Collections";
const XMP = ["XMP-dc:Title", "XMP-dc:Subject", "XMP-xmp:Rating", "XMP-exif:DateTimeOriginal", "XMP-dc:Creator", CONTACT, COLLS, ...GEO];
const JPG = [...XMP, "IPTC:Keywords", "EXIF:ImageDescription", "EXIF:DateTimeOriginal", "EXIF:UserComment", "EXIF:CompressedBitsPerPixel"];
const LISTS = new Set(["XMP-dc:Subject", "IPTC:Keywords", "XMP-dc:Creator", COLLS]);
const STRUCTS = new Set([CONTACT, COLLS]);
const EDITABLE = ["XMP-dc:Subject", "IPTC:Keywords", COLLS];
/** structures as texts: fields in order, everything a string */
const plain = (v) => (v !== null && typeof v === "object" ? Object.fromEntries(Object.keys(v).sort().map((k) => [k, plain(v[k])])) : String(v));
const canon = (v) => JSON.stringify(plain(v));
const numeric = (t) => /Rating|geo:|BitsPer/.test(t);
/** a value of the model as one of the API */
const js = (t, v) => (STRUCTS.has(t) ? JSON.parse(v) : numeric(t) ? Number(v) : v);
/** degrees, minutes and seconds, or metres, with the reference that goes with them */
const signed = (v, ref) => {
  if (v == null) return [];
  const m = /^([\d.]+)(?: deg (\d+)' ([\d.]+)"| m)(?: ([NSEW]))?$/.exec(String(v));
  if (!m) return ["?" + v];
  const abs = Number(m[1]) + Number(m[2] ?? 0) / 60 + Number(m[3] ?? 0) / 3600;
  const r = m[4] ?? ref;
  return [r == null ? "unsigned " + abs : String((/^(S|W|Below)/.test(r) ? -1 : 1) * Number(abs.toFixed(5)))];
};
/** how -G1 names what is written as EXIF:x */
const G1 = { "EXIF:ImageDescription": "IFD0:ImageDescription", "EXIF:DateTimeOriginal": "ExifIFD:DateTimeOriginal", "EXIF:UserComment": "ExifIFD:UserComment", "EXIF:CompressedBitsPerPixel": "ExifIFD:CompressedBitsPerPixel" };
const TEXTS = {
  x: ["plain", "zwei Wörter", "a, b; c", "x|y", "<b> & \"'", "#hash", "日本 🎉", "-dash", "line\nline", "@file", "tab\tstop", "  spaced", "under_score=1", "ends with \\"],
  a: ["plain", "two words", "Zürich", "a, b; c", "x|y", "<b> & \"'", "#hash", "-dash", "@file", "under_score=1"],
};
/** what file names begin with; ExifTool expands or rewrites some of these in names of new files */
const PREFIX = ["", "", "100%d ", "a%c", "x%f%%", "b\\s", "ö & <x> ", " lead ", "日本 ", "a;b,c $x ", "@", "-q ", "&amp;", "it's \"q\" "];
/** edits are exact; write() decodes entities, as documented */
const ENTITY = "a &amp; b &lt;";
const decoded = (v) => v.split(ENTITY).join("a & b <");
const DATES = ["2020:01:02 03:04:05", "1999:12:31 23:59:59", "2024:02:29 12:00:00", "2023:06:15 00:00:00"];
const rawText = (v) => (v == null ? [] : (Array.isArray(v) ? v : [v]).map((x) => (x !== null && typeof x === "object" ? canon(x) : String(x))));

exports.run = async (ctx) => {
  const { model, rows } = await generate("MC_File", ctx.thorough ? { cfg: "MC_File3", timeoutMs: 900000 } : {});
  ctx.addModel(model);
  const { rng } = ctx;
  const { ExifTool } = ctx.req("ExifTool.js");
  const { ExifDateTime } = ctx.req("ExifDateTime.js");
  const read1 = (v) => (v != null && typeof v === "object" && "rawValue" in v ? v.rawValue : v);
  const top = ctx.scratch("p23");
  // should names of new files go astray, they end up in the scratch directory
  process.chdir(top);
  const events = [];
  let ops = 0, crashes = 0, hist = 0;

  /** One history in its own directory, with an instance that others may use as well. */
  const history = async (h, et, { mwg, plan, crashy, rich }) => {
    const rng = newRng(ctx.seed * 100003 + h); // the same whatever runs meanwhile
    const dir = path.join(top, `h${h}`);
    fs.mkdirSync(dir);
    const tags = JPG.filter((t) => !(mwg && t === "IPTC:Keywords"));
    const names = ["a.jpg", "b.xmp", "c.jpg", "d.xmp"];
    const prefix = rng.pick(PREFIX);
    const newNames = !/[%\\]/.test(prefix); // others are refused for new files (P05)
    const p = (f) => path.join(dir, prefix + f);
    const ls = () => fs.readdirSync(dir).map((f) => (f.startsWith(prefix) ? f.slice(prefix.length) : "?" + f)).sort();
    fs.writeFileSync(p("a.jpg"), rng.bool(0.6) ? jpegWithProfile("Some profile") : jpeg);
    const value = (t) => {
      if (/Rating/.test(t)) return rng.int(0, 5);
      if (/BitsPer/.test(t)) return rng.int(1, 8);
      if (/geo:/.test(t)) return rng.pick([-1, 1]) * rng.int(1, 300) / 4;
      if (t === CONTACT) return canon({ CiAdrCity: rng.pick(TEXTS.x), CiEmailWork: rng.pick(["a@b", "x, y", "{z}", "[q]|"]) });
      if (t === COLLS) return canon({ CollectionName: rng.bool(0.2) ? ENTITY : rng.pick(TEXTS.x.filter((x) => !/\n/.test(x))), CollectionURI: "id" + rng.int(0, 999) });
      if (/Date/.test(t)) return rng.pick(DATES);
      if (EDITABLE.includes(t) && rng.bool(0.2)) return ENTITY;
      return rng.pick(t.startsWith("XMP") ? TEXTS.x : TEXTS.a);
    };
    const pool = Object.fromEntries(tags.map((t) => [t, Array.from({ length: 3 }, () => value(t))]));
    const can = (f) => (f.endsWith(".xmp") ? XMP : tags);
    // observation: by the library, or by a fresh ExifTool
    const geo = (raw, x) => signed(raw[`GPS:GPS${x}`] ?? raw[`XMP-exif:GPS${x}`], raw[`GPS:GPS${x}Ref`] ?? raw[`XMP-exif:GPS${x}Ref`]);
    const parse = (raw) => ({
      ...Object.fromEntries(tags.map((t) => [t, t.startsWith("geo:") ? geo(raw, t.slice(4)) : rawText(raw[G1[t] ?? t])])),
      picture: rawText(raw["File:ImageDataHash"]),
      profile: rawText(raw["ICC_Profile:ProfileDescription"]),
    });
    const args = ["-G1", "-struct", "-XMP:all", "-IPTC:all", "-EXIF:all", "-GPS:all", "-ICC_Profile:all", "-ImageDataHash"];
    const see = async (fresh) => {
      const files = ls();
      const bytes = (f) => f.startsWith("?") ? "?" : crypto.createHash("md5").update(fs.readFileSync(p(f))).digest("hex");
      let raws = [];
      if (fresh && files.length) {
        const r = await execFile(fresh, ["-json", "-charset", "filename=utf8", ...args, ...files.map(p)]).catch((e) => e);
        try { raws = JSON.parse(r.stdout); } catch { /* none */ }
        raws = files.map((f) => raws.find((x) => path.basename(x.SourceFile) === prefix + f));
      } else raws = await Promise.all(files.map(async (f) => (await settle(() => et.readRaw(p(f), { readArgs: args }), MS)).v));
      return { op: "see", seen: files.map((f, i) => ({ f, b: bytes(f), t: raws[i] ? parse(raws[i]) : { unreadable: [] } })) };
    };
    // operations
    const randomOp = (f) => {
      const x = rng();
      const creatable = f.endsWith(".xmp");
      const over = rng.bool(0.4);
      if (x < 0.5) {
        const set = rng.sample(can(f), rng.int(0, 6)).map((t) => [t, rng.bool(0.25) ? [] : LISTS.has(t) ? Array.from({ length: rng.int(1, 3) }, () => String(rng.pick(pool[t]))) : [String(rng.pick(pool[t]))]]);
        return { op: "write", f, set, over, creatable };
      }
      if (x < 0.7) {
        const edits = [];
        for (const t of rng.sample(EDITABLE.filter((y) => can(f).includes(y)), rng.int(1, 2))) {
          const add = [], rem = [];
          for (let i = 0; i < rng.int(1, 3); i++) (rng.bool() ? add : rem).push(rng.pick(pool[t]));
          for (const v of rem) edits.push({ tag: t, op: "remove", v });
          for (const v of add) edits.push({ tag: t, op: "add", v });
        }
        return { op: "edit", f, edits, over, creatable };
      }
      if (x < 0.8) return { op: "delete", f, creatable, keep: rng.sample(can(f), rng.int(0, 6)) };
      if (x < 0.9 && newNames) return { op: "rewrite", f, to: rng.pick(names.filter((n) => n !== f && path.extname(n) === path.extname(f))) };
      return { op: "read", f };
    };
    /** an operation of the model, over two tags of this history */
    const mapped = (o) => {
      const l = o.f === "b.xmp" || mwg ? "XMP-dc:Subject" : pick.l;
      const s = o.f === "b.xmp" ? pick.xs : pick.s;
      const tag = (x) => (x === "s" ? s : l);
      const val = (x, v) => String(pool[tag(x)][v === "u" ? 0 : 1]);
      if (o.op === "write") return { ...o, set: o.set.map(([x, vs]) => [tag(x), vs.map((v) => val(x, v))]) };
      if (o.op === "edit") return { ...o, edits: o.edits.map((e) => ({ tag: l, op: e.op, v: val("l", e.v) })) };
      if (o.op === "delete") return { ...o, keep: o.keep.map(tag) };
      if (o.op === "rewrite" && o.f === "b.xmp") return { ...o, to: "d.xmp" };
      return { ...o };
    };
    const pick = { l: rng.pick(EDITABLE), s: rng.pick(tags.filter((t) => !LISTS.has(t))), xs: rng.pick(XMP.filter((t) => !LISTS.has(t))) };
    for (const t of Object.keys(pool)) for (let i = 0; i < 50 && pool[t][0] === pool[t][1]; i++) pool[t][1] = value(t);
    /** how a tag is named when it is to be kept: with or without its group */
    const retained = (f, t) => {
      if (t.startsWith("geo:")) {
        const n = "GPS" + t.slice(4);
        return f.endsWith(".jpg") ? ["GPS:" + n, "GPS:" + n + "Ref"] : /Alt/.test(n) ? ["XMP-exif:" + n, "XMP-exif:" + n + "Ref"] : ["XMP-exif:" + n];
      }
      return [!mwg && /Title|Subject|Rating|ImageDescription|UserComment|CreatorContactInfo|Keywords/.test(t) && rng.bool(0.3) ? t.replace(/.*:/, "") : t];
    };
    const run = async (o, crash) => {
      const e = { ...o, crash };
      if (o.op === "write") e.set = o.set.map(([t, l]) => [t, l.map(decoded)]);
      const opts = o.over ? { writeArgs: ["-overwrite_original"] } : rng.bool(0.3) ? {} : undefined;
      let r;
      if (o.op === "write") {
        const obj = {};
        for (const [t, l] of o.set) {
          const v = l.map((x) => js(t, x));
          const name = t.startsWith("geo:") ? "GPS" + t.slice(4) : t;
          obj[name] = l.length === 0 ? (LISTS.has(t) && !STRUCTS.has(t) && rng.bool(0.3) ? [] : null) : LISTS.has(t) && (l.length > 1 || STRUCTS.has(t) || rng.bool()) ? v : /Date/.test(t) && rng.bool() ? ExifDateTime.fromEXIF(v[0]) : v[0];
        }
        r = await settle(() => et.write(p(o.f), obj, opts), MS);
      } else if (o.op === "edit") r = await settle(() => et.editTags(p(o.f), o.edits.map((x) => ({ tag: x.tag, operation: x.op, [STRUCTS.has(x.tag) && x.op === "remove" ? "predicate" : "value"]: js(x.tag, x.v) })), opts), MS);
      else if (o.op === "delete") r = await settle(() => (o.keep.length || rng.bool() ? et.deleteAllTags(p(o.f), { retain: o.keep.flatMap((t) => retained(o.f, t)) }) : et.deleteAllTags(p(o.f))), MS);
      else if (o.op === "rewrite") r = await settle(() => et.rewriteAllTags(p(o.f), p(o.to), rng.bool(0.3)), MS);
      else {
        const grouped = rng.bool();
        r = await settle(() => (grouped ? et.read(p(o.f), { readArgs: ["-G1"] }) : et.read(p(o.f))), MS);
        const t = r.v ?? {};
        // values as read() delivers them, where the plain name says which tag it is
        e.got = {};
        if (r.st === "ok" && grouped) {
          for (const x of tags) if (!x.startsWith("geo:")) e.got[x] = rawText(read1(t[G1[x] ?? x]));
        } else if (r.st === "ok") {
          e.got["XMP-dc:Title"] = rawText(t.Title);
          e.got["XMP-dc:Subject"] = rawText(t.Subject);
          e.got["XMP-xmp:Rating"] = rawText(t.Rating);
          e.got["EXIF:ImageDescription"] = rawText(t.ImageDescription);
          if (!mwg) e.got["IPTC:Keywords"] = rawText(t.Keywords);
        }
      }
      e.st = r.st;
      e.why = r.msg ?? "";
      e.c = r.st === "ok" && o.op !== "read" && o.op !== "rewrite" ? [r.v?.created ?? -1, r.v?.updated ?? -1, r.v?.unchanged ?? -1] : [0, 0, 0];
      ops++;
      return e;
    };
    const start = (await see()).seen;
    const log = [];
    /** files with most of the tags: rewritten, trimmed, edited */
    const richly = () => {
      const all = (f) => ({ op: "write", f, over: rng.bool(), creatable: f.endsWith(".xmp"), set: rng.shuffle(can(f)).filter(() => rng.bool(0.85)).map((t) => [t, LISTS.has(t) ? Array.from({ length: rng.int(1, 3) }, () => String(rng.pick(pool[t]))) : [String(rng.pick(pool[t]))]]) });
      const rw = newNames ? [{ op: "rewrite", f: "a.jpg", to: "c.jpg" }, { op: "rewrite", f: "b.xmp", to: "d.xmp" }] : [];
      const f = rng.pick(names), g = rng.pick(["a.jpg", "b.xmp"]);
      return [[all("a.jpg"), all("b.xmp")], rw, [{ op: "read", f: "a.jpg" }, { op: "read", f: "b.xmp" }], [randomOp(f)], [{ op: "delete", f: g, creatable: g === "b.xmp", keep: rng.shuffle(can(g)).filter(() => rng.bool()) }], [{ op: "read", f: g }]];
    };
    const steps = rich ? richly() : plan ? plan.filter((o) => newNames || o.op !== "rewrite").map((o) => [mapped(o)]) : Array.from({ length: rng.int(4, 8) }, () => {
      // operations that run at the same time concern different files
      const batch = [], busy = new Set();
      for (let i = 0; i < rng.pick([1, 1, 2, 3]); i++) {
        const o = randomOp(rng.pick(names));
        const touched = [o.f, ...(o.to ? [o.to] : [])];
        if (touched.some((f) => busy.has(f))) continue;
        touched.forEach((f) => busy.add(f));
        batch.push(o);
      }
      return batch;
    });
    for (const batch of steps) {
      const crash = crashy === true && rng.bool(0.35);
      const existed = new Set(ls());
      const running = batch.map((o) => run(o, crash));
      if (crash) {
        crashes++;
        await new Promise((r) => setTimeout(r, rng.int(0, 40)));
        const pids = et.pids;
        for (const pid of pids) { try { process.kill(pid, "SIGKILL"); } catch { /* gone */ } }
        for (let i = 0; i < 200 && pids.some((pid) => { try { process.kill(pid, 0); return true; } catch { return false; } }); i++) await new Promise((r) => setTimeout(r, 10));
      }
      const done = await Promise.all(running);
      log.push(...done);
      if (crash) {
        for (const f of ls()) if (f.endsWith("_exiftool_tmp")) fs.rmSync(p(f));
        log.push(await see());
        for (const e of done) {
          const f = e.to ?? e.f;
          if (e.st === "err" && !existed.has(f) && fs.existsSync(p(f))) {
            fs.rmSync(p(f));
            log.push({ op: "remove", f, st: "ok", c: [0, 0, 0], crash: false });
          }
        }
      }
      log.push(await see());
    }
    log.push(await see(exe));
    events.push({ op: "history", prefix, tags: [...tags, "picture", "profile"], start, h: log });
    hist++;
    fs.rmSync(dir, { recursive: true, force: true });
  };

  const instances = [];
  const make = (mwg, n = 3) => { const et = new ExifTool({ maxProcs: n, useMWG: mwg, taskRetries: rng.int(0, 2), maxTasksPerProcess: rng.pick([40, 500]) }); instances.push(et); return { et, mwg }; };
  const shared = [make(true), make(false)];
  const exe = await shared[0].et.exiftoolPath();
  const jobs = [];
  const want = ctx.thorough ? { pairs: 700, random: 500, crash: 160, rich: 300 } : { pairs: 50, random: 50, crash: 24, rich: 40 };
  for (let i = 0; i < want.pairs; i++) jobs.push({ plan: Array.from({ length: 4 }, () => rng.pick(rows)) });
  for (let i = 0; i < want.random; i++) jobs.push({});
  for (let i = 0; i < want.rich; i++) jobs.push({ rich: true });
  for (let i = 0; i < want.crash; i++) jobs.push({ crashy: true });
  const q = rng.shuffle(jobs).map((j, i) => [i, j]);
  await Promise.all(Array.from({ length: 6 }, async () => {
    while (q.length) {
      const [i, j] = q.shift();
      // a history with killed children has an instance to itself
      const own = j.crashy ? make(rng.bool(), 2) : rng.pick(shared);
      await history(i, own.et, { ...j, mwg: own.mwg });
      if (j.crashy) await settle(() => own.et.end(), MS);
    }
  }));
  await Promise.all(instances.map((x) => settle(() => x.end(), MS)));
  ctx.log?.(`${ops} operations run`);
  await judge(ctx, "FileTrace", events, {
    key: (e) => JSON.stringify(e.h.filter((x) => x.op !== "see")).slice(0, 400),
    message: (e, w) => { const n = Number(/step \|-> (\d+)/.exec(w)?.[1] ?? 0); return `history of ${e.h.length} events is not one of the specification at event ${n}: ${JSON.stringify(e.h.slice(Math.max(0, n - 2), n)).slice(0, 1500)}`; },
  });
  Object.assign(ctx.coverage, { histories: hist, operations: ops, batches_with_killed_children: crashes });
};
