"use strict";
// P22: tag descriptions, against spec/TagDesc.tla: histories of lookups, clears,
// failures, ExifTool upgrades and cache damage, with a scripted ExifTool; and the
// vendored ExifTool's whole listing.
const fs = require("node:fs");
const path = require("node:path");
const util = require("node:util");
const cp = require("node:child_process");
const { modelCheck, judge } = require("../lib/tlc");
const { stubbed, settle } = require("../lib/stub");
const { scratch } = require("../lib/build");

exports.level = "model_checking";
exports.assumptions = [
  "damage to the cache file is visible as such: not the JSON that the library writes for this version and language (a changed letter within a text is not detectable)",
  "the curated texts are those that lookups return before anything is loaded",
];

const CURATED = ["ISO", "Title", "GPSAltitudeRef", "Keywords", "DateTimeOriginal", "LensID"];
const NAMES = [...CURATED, "ProfileType", "SampleRate", "Quote", "OnlyEnglish", "NoDesc", "Gone", "Twin"];
const UNKNOWN = ["NoSuchTag", "constructor", "__proto__", "toString", "hasOwnProperty", "", "iso", "desc", "valueOf"];
const VERS = ["13.59", "13.60", "13.5"];
const LANGS = ["en", "de", "fr", "en_gb", "zh_cn", "xx"];
const TEXTS = ["Type d'objectif", "A & B", "a < b > c", '"quoted"', "&lt;literal&gt;", "&amp;", "it's &#39;so&#39;", "Größe", "类型", "x=1; y=2", "tab", "&quot;&apos;"];
const esc = (s) => s.replace(/[&><'"]/g, (c) => ({ '"': "&quot;", "&": "&amp;", "'": "&#39;", "<": "&lt;", ">": "&gt;" })[c]);

exports.run = async (ctx) => {
  const { rng } = ctx;
  ctx.addModel(await modelCheck("MC_TagDesc", ctx.thorough ? { cfg: "MC_TagDesc7", timeoutMs: 1500000 } : {}));
  const { TagDescriptions } = ctx.req("TagDescriptions.js");
  const root = scratch("p22");
  const events = [];
  const text = (d) => (d == null ? "" : typeof d.desc === "string" ? d.desc : "?? " + typeof d);

  // ---- a scripted ExifTool -----------------------------------------------------
  function world() {
    const table = new Map();
    for (const v of VERS) for (const l of LANGS) for (const n of NAMES) {
      if (l === "xx" || n === "NoDesc" || (n === "OnlyEnglish" && l !== "en") || (n === "Gone" && v !== "13.59")) continue;
      table.set(JSON.stringify([v, l, n]), `${v} ${l} ${n} ${rng.pick(TEXTS)}`);
    }
    return table;
  }
  function listx(table, v) {
    let s = `<?xml version='1.0' encoding='UTF-8'?>\n<!-- Generated by Image::ExifTool ${v} -->\n<taginfo>\n\n<table name='AAC::Main' g0='AAC' g1='AAC' g2='Audio'>\n <desc lang='en'>AAC</desc>\n <desc lang='de'>AAC de</desc>\n`;
    for (const n of rng.shuffle([...NAMES])) {
      s += ` <tag id='${rng.int(1, 999)}' name='${n}' type='?' writable='${rng.pick(["true", "false"])}'${rng.pick(["", " g2='Image'", " flags='Binary'", " index='0'"])}>\n`;
      for (const l of LANGS) { const d = table.get(JSON.stringify([v, l, n])); if (d) s += `  <desc lang='${l}'>${esc(d)}</desc>\n`; }
      if (rng.bool(0.4)) s += `  <values>\n   <key id='0'>\n    <val lang='en'>Main</val>\n    <val lang='de'>Haupt &gt;</val>\n   </key>\n  </values>\n`;
      s += " </tag>\n";
    }
    return s + "</table>\n\n</taginfo>\n";
  }
  const curatedTexts = (() => {
    const d = new TagDescriptions(stubbed(ctx, {}, () => ({ fail: new Error("no") })), { cacheDir: path.join(root, "none") });
    return CURATED.map((n) => [n, text(d.get(n))]);
  })();
  for (const [n, t] of curatedTexts) if (!t) events.push({ op: "same", what: "no curated text for " + n, same: false });

  /** Ways to damage a cache file, or to leave a strange one behind. */
  function damage(dir, v, l) {
    if (!fs.existsSync(dir) || !fs.statSync(dir).isDirectory()) return "no directory";
    const files = fs.readdirSync(dir).map((f) => path.join(dir, f));
    const mine = files.filter((f) => fs.statSync(f).isFile());
    if (mine.length === 0) return "nothing to damage";
    const f = rng.pick(mine);
    const was = fs.readFileSync(f);
    const kind = rng.pick(["delete", "cut", "cut", "empty", "zeros", "junk", "version", "language", "shape", "shape", "entry", "directory", "other", "oldlib", "twice", "bom", "null", "array"]);
    const obj = () => { try { return JSON.parse(was.toString()) ?? {}; } catch { return {}; } };
    const put = (x) => fs.writeFileSync(f, typeof x === "string" || Buffer.isBuffer(x) ? x : JSON.stringify(x));
    switch (kind) {
      case "delete": fs.rmSync(f); break;
      case "cut": put(was.subarray(0, rng.int(0, Math.max(0, was.length - 1)))); break;
      case "empty": put(""); break;
      case "zeros": put(Buffer.alloc(was.length)); break;
      case "junk": put("\u0000\u0001 not json"); break;
      // entries of another version or language, as such
      case "version": put({ ...obj(), version: rng.pick(["12.99", "", null, 13.59]), descriptions: { ProfileType: { desc: "stale" }, Gone: { desc: "stale" } } }); break;
      case "language": put({ ...obj(), language: rng.pick(["ru", "", null]), descriptions: { ProfileType: { desc: "stale" }, Gone: { desc: "stale" } } }); break;
      case "shape": put({ ...obj(), descriptions: rng.pick([null, undefined, [], ["x"], "text", 5, true, [{ desc: "x" }]]) }); break;
      case "entry": put({ ...obj(), descriptions: rng.pick([{ ProfileType: null }, { ProfileType: "text" }, { ProfileType: {} }, { ProfileType: { desc: 5 } }, { ProfileType: { desc: "x" }, Twin: null }]) }); break;
      case "directory": fs.rmSync(f); fs.mkdirSync(f); break;
      // the whole file of another version or language under this name
      case "other": { const o = rng.pick(mine); fs.writeFileSync(f, fs.readFileSync(o)); break; }
      // written by a release with other curated texts, or without some of them
      case "oldlib": { const o = obj(); if (o.language === "en" && o.descriptions && typeof o.descriptions === "object" && !Array.isArray(o.descriptions)) for (const n of CURATED) if (rng.bool()) o.descriptions[n] = { desc: "former text" }; else delete o.descriptions[n]; if (o.language === "en") put(o); break; }
      case "twice": put(Buffer.concat([was, was])); break;
      case "bom": put(Buffer.concat([Buffer.from("\ufeff"), was.subarray(0, was.length - 1)])); break;
      case "null": put("null"); break;
      case "array": put("[]"); break;
    }
    return kind + " " + path.basename(f);
  }

  let dirs = 0;
  async function history(len, script) {
    const table = world();
    let v = "13.59", health = "ok";
    const et = stubbed(ctx, { taskRetries: 0 }, (cmd) => {
      if (/^-ver$/m.test(cmd)) return health === "nover" ? { fail: new Error("cannot start") } : { stdout: v + "\n" };
      if (health === "nolist") return { fail: new Error("killed") };
      if (health === "errlist") return { stdout: rng.bool() ? "" : listx(table, v).slice(0, 900), stderr: "Error: out of memory\n" };
      return { stdout: listx(table, v) };
    });
    const dir = path.join(root, "c" + ++dirs);
    const langs = [], objs = [];
    const blocked = rng.bool(0.08);
    if (blocked) fs.writeFileSync(dir, "not a directory");
    else if (rng.bool(0.5)) fs.mkdirSync(dir, { recursive: true });
    const add = () => {
      const l = rng.pick(["en", "en", "en", "de", "fr", "en_gb", "zh_cn", "xx"]);
      const opts = { cacheDir: path.join(dir, ...(dirs % 5 === 0 ? ["deep", "er"] : [])), disableDiskCache: rng.bool(0.15) };
      if (l !== "en" || rng.bool()) opts.language = l; else if (rng.bool(0.3)) opts.language = undefined;
      langs.push(l);
      objs.push(new TagDescriptions(et, opts));
      return opts;
    };
    const cacheDir = add().cacheDir;
    for (let i = rng.int(0, 3); i > 0; i--) add();
    const h = [];
    const name = () => (rng.bool(0.2) ? rng.pick(UNKNOWN) : rng.pick(NAMES));
    const lookups = async (i, count) => {
      const kinds = Array.from({ length: count }, () => rng.pick(["async", "async", "async", "preload", "all"]));
      const evs = await Promise.all(kinds.map(async (k) => {
        if (k === "async") { const n = name(); const r = await settle(() => objs[i - 1].getAsync(n)); return { op: k, i, name: n, st: r.st, out: text(r.v) }; }
        if (k === "preload") { const r = await settle(() => objs[i - 1].preload()); return { op: k, i, st: r.st }; }
        const r = await settle(() => objs[i - 1].getAll());
        return { op: k, i, st: r.st, map: r.st === "ok" ? [...r.v].map(([n, d]) => [n, text(d)]) : [] };
      }));
      // simultaneous lookups share one load: those that need none are judged last
      const need = (e) => !(e.op === "async" && langs[e.i - 1] === "en" && CURATED.includes(e.name));
      h.push(...evs.filter(need), ...evs.filter((e) => !need(e)));
    };
    const step = async (k) => {
      const i = rng.int(1, objs.length);
      switch (k) {
        case "tool": v = rng.pick(VERS); health = rng.pick(["ok", "ok", "ok", "nover", "nolist", "errlist"]); h.push({ op: "tool", v, health: health === "errlist" ? "nolist" : health }); break;
        case "well": v = rng.pick([v, v, ...VERS]); health = "ok"; h.push({ op: "tool", v, health }); break;
        case "disk": h.push({ op: "disk", what: damage(cacheDir, v, langs[i - 1]) }); break;
        case "clear": objs[i - 1].clear(); h.push({ op: "clear", i }); break;
        case "get": { const n = name(); h.push({ op: "get", i, name: n, out: text(objs[i - 1].get(n)) }); break; }
        case "loaded": h.push({ op: "loaded", i, loaded: objs[i - 1].isLoaded, size: objs[i - 1].size }); break;
        default: await lookups(i, k === "many" ? rng.int(2, 4) : 1);
      }
    };
    for (const k of script ?? Array.from({ length: len }, () => rng.pick(["tool", "well", "disk", "disk", "clear", "clear", "get", "loaded", "one", "one", "one", "many"]))) await step(k);
    const used = new Set(h.filter((e) => e.op === "tool").map((e) => e.v).concat("13.59"));
    const ls = new Set(langs);
    const listing = [...table].map(([k, d]) => [...JSON.parse(k), d]).filter(([a, b]) => used.has(a) && ls.has(b));
    events.push({ op: "history", v: "13.59", langs, listing, curated: curatedTexts, names: NAMES, h });
    fs.rmSync(dir, { recursive: true, force: true });
  }
  const rounds = ctx.thorough ? 8000 : 1500;
  for (let i = 0; i < rounds; i++) await history(rng.int(4, 25));
  // load, damage, clear, look: each kind of damage, many times
  for (let i = 0; i < (ctx.thorough ? 4000 : 500); i++) await history(0, ["preload", "disk", "clear", "all", "get", "loaded", "clear", "well", "one", "get"]);
  // a failed listing, then a working one, with and without clearing
  for (let i = 0; i < (ctx.thorough ? 2000 : 300); i++) await history(0, ["tool", "one", "get", "well", "one", "clear", "many", "get", "loaded", "clear", "well", "one"]);

  // ---- crash while writing: the cache cut at every byte --------------------------
  {
    const table = world();
    const et = stubbed(ctx, { taskRetries: 0 }, (cmd) => ({ stdout: /^-ver$/m.test(cmd) ? "13.59\n" : listx(table, "13.59") }));
    const dir = path.join(root, "crash");
    const all = async (o) => Object.fromEntries([...(await o.getAll())].map(([n, d]) => [n, text(d)]).sort());
    const want = await all(new TagDescriptions(et, { cacheDir: dir, language: "de" }));
    const files = fs.readdirSync(dir);
    if (files.length === 1 && fs.statSync(path.join(dir, files[0])).isFile()) {
      const f = path.join(dir, files[0]);
      const body = fs.readFileSync(f);
      const step = ctx.thorough ? 1 : 3;
      for (let k = 0; k < body.length; k += step) {
        fs.writeFileSync(f, body.subarray(0, k));
        const got = await settle(() => all(new TagDescriptions(et, { cacheDir: dir, language: "de" })));
        events.push({ op: "same", what: "cut at " + k, same: got.st === "ok" && util.isDeepStrictEqual(got.v, want) });
      }
    }
    // without a directory of one's own, the one for temporary files
    const tmp = path.join(root, "tmp");
    fs.mkdirSync(tmp);
    const was = process.env.TMPDIR;
    process.env.TMPDIR = tmp;
    for (let i = 0; i < 2; i++) {
      const got = await settle(() => all(new TagDescriptions(et, { language: "de" })));
      events.push({ op: "same", what: "default directory", same: got.st === "ok" && util.isDeepStrictEqual(got.v, want) });
    }
    if (was === undefined) delete process.env.TMPDIR; else process.env.TMPDIR = was;
    // an object that may not use the disk does not: neither what is there nor what it loads
    const before = fs.readdirSync(dir).map((x) => [x, fs.statSync(path.join(dir, x)).mtimeMs]);
    for (const x of fs.readdirSync(dir)) fs.writeFileSync(path.join(dir, x), JSON.stringify({ version: "13.59", language: "de", generatedAt: "x", descriptions: { ProfileType: { desc: "from disk" } } }));
    const listed = fs.readdirSync(dir).length;
    const got = await settle(() => all(new TagDescriptions(et, { cacheDir: dir, language: "de", disableDiskCache: true })));
    events.push({ op: "same", what: "disk disabled", same: got.st === "ok" && util.isDeepStrictEqual(got.v, want) && fs.readdirSync(dir).length === listed && before.length === listed });
  }

  // ---- the vendored ExifTool ----------------------------------------------------
  const bin = path.join(ctx.REPO, "node_modules/exiftool-vendored.pl/bin/exiftool");
  const xml = cp.execFileSync("perl", [bin, "-listx"], { encoding: "utf8", maxBuffer: 1 << 28 });
  const unesc = (s) => s.replace(/&(quot|amp|lt|gt|#39);/g, (_, e) => ({ quot: '"', amp: "&", lt: "<", gt: ">", "#39": "'" })[e]);
  const { ExifTool } = ctx.req("ExifTool.js");
  const real = new ExifTool({ maxProcs: 2 });
  for (const lang of ctx.thorough ? ["en", "fr", "de", "ja", "zh_cn", "en_gb", "ru"] : ["en", "fr"]) {
    const descs = new Map();
    let tag;
    for (const line of xml.split("\n")) {
      let m;
      if ((m = /^ <tag .*?\bname='([^']*)'/.exec(line))) tag = m[1];
      else if (/^ <\/tag>/.test(line)) tag = undefined;
      else if (tag !== undefined && (m = /^  <desc lang='([^']*)'>(.*)<\/desc>$/.exec(line)) && m[1] === lang) {
        if (!descs.has(tag)) descs.set(tag, new Set());
        descs.get(tag).add(unesc(m[2].trim()));
      }
    }
    const cacheDir = path.join(root, "real");
    const a = new TagDescriptions(real, { cacheDir, language: lang });
    const b = new TagDescriptions(real, { cacheDir, language: lang });
    const curated = new Map(lang === "en" ? [...descs.keys()].map((n) => [n, text(a.get(n))]).filter(([, t]) => t) : []);
    const all = await settle(() => a.getAll(), 120000);
    const again = await settle(() => b.getAll(), 120000);
    const plain = (r) => (r.st === "ok" ? Object.fromEntries([...r.v].map(([n, d]) => [n, text(d)])) : r.st);
    events.push({ op: "same", what: "cached copy of " + lang, same: all.st === "ok" && util.isDeepStrictEqual(plain(all), plain(again)) });
    const map = all.st === "ok" ? all.v : new Map();
    let wrong = 0;
    for (const n of new Set([...descs.keys(), ...map.keys()])) {
      const e = { op: "real", lang, name: n, curated: curated.get(n) ?? "", descs: [...(descs.get(n) ?? [])], out: text(map.get(n)) };
      if (lang === "en" && !descs.has(n)) e.curated = text(a.get(n));
      // the specification judges a sample, and whatever looks wrong
      const off = e.curated ? e.out !== e.curated : e.descs.length ? !e.descs.includes(e.out) : e.out !== "";
      if (off ? wrong++ < 20 : rng.bool(ctx.thorough ? 0.2 : 0.02)) events.push(e);
    }
  }
  await real.end();
  fs.rmSync(root, { recursive: true, force: true });
  await judge(ctx, "TagDescTrace", events, {
    key: (e) => (e.op === "history" ? "history|" + JSON.stringify(e.h.map((x) => [x.op, x.i, x.name, x.what, x.v, x.health])) : e.op + "|" + (e.what ?? e.lang + " " + e.name)),
    message: (e, want) => (e.op === "history" ? JSON.stringify(e.langs) + " " + JSON.stringify(e.h).slice(0, 1200) : JSON.stringify(e).slice(0, 300)) + " want " + want.slice(0, 300),
    heap: "4g",
  });
};
