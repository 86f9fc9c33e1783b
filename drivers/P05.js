"use strict";
// P05: hostile text at every place of every public call, against spec/Wire.tla.
const path = require("node:path");
const { generate, judge, modelCheck } = require("../lib/tlc");
const { callEvent, unasc } = require("../lib/wire");

exports.assumptions = [
  "ExifTool reads one argument per line and runs a command at each -execute line (spec/MC_Wire.tla)",
  "extra readArgs/writeArgs are the caller's own ExifTool options: transmitted verbatim, one line each",
];

exports.run = async (ctx) => {
  const { model, rows } = await generate("MC_Wire");
  ctx.addModel(model);
  ctx.addModel(await modelCheck("MC_Wire", { cfg: "MC_Wire2", env: { GEN: path.join(ctx.scratch("g"), "x") } }));
  const { rng } = ctx;
  const texts = rows.map((r) => unasc(r.t));
  const dir = ctx.scratch("p05"); // destinations: their folders are created by the call
  const chars = ["\n", "\r", "\0", " ", "-", "=", "<", "#", "a", "Z", "9", ":", "é", "\u2028", "\u0085", "\t", "%", "d", ".", "/", "{ready}", "-execute", "-all=", "\x1f", "&#10;", "😀", "\\n", "\v", "\uFEFF", "+", "^", "*", "_"];
  const random = () => Array.from({ length: rng.int(1, 6) }, () => rng.pick(chars)).join("");
  for (let i = 0; i < (ctx.thorough ? 6000 : 500); i++) texts.push(random());
  const ok = "/tmp/f.jpg";
  const dest = (t) => dir + "/" + t.replace(/\.\.(?=\/|$)/g, "..x");
  const sites = [
    (t) => ({ op: "read", file: t }),
    (t) => ({ op: "read", file: "/d/" + t }),
    (t) => ({ op: "read", file: ok, call: { readArgs: ["-fast", t] } }),
    (t) => ({ op: "read", file: ok, call: { readArgs: [t] }, legacy: true }),
    (t) => ({ op: "read", file: ok, call: { numericTags: ["Orientation", t] } }),
    (t) => ({ op: "read", file: ok, call: { imageHashType: t } }),
    (t) => ({ op: "readRaw", file: t }),
    (t) => ({ op: "readRaw", file: ok, call: { readArgs: [t, "-G"] } }),
    (t) => ({ op: "write", file: t, tags: { Title: "x" } }),
    (t) => ({ op: "write", file: ok, tags: { [t]: "x" } }),
    (t) => ({ op: "write", file: ok, tags: { ["XMP:" + t]: "x", Rating: 1 } }),
    (t) => ({ op: "write", file: ok, tags: { Title: t, Comment: "y" } }),
    (t) => ({ op: "write", file: ok, tags: { Subject: [t, "b"], Comment: "y" } }),
    (t) => ({ op: "write", file: ok, tags: { "History+": { Action: t, When: "z" } } }),
    (t) => ({ op: "write", file: ok, tags: { Title: "x" }, call: { writeArgs: [t] } }),
    (t) => ({ op: "write", file: ok, tags: { Title: "x" }, inst: { writeArgs: ["-P", t] } }),
    (t) => ({ op: "write", file: ok, tags: { Title: "x" }, call: { writeArgs: [t] }, legacy: true }),
    (t) => ({ op: "edit", file: t, edits: [{ tag: "XMP-dc:Subject", operation: "add", value: "v" }] }),
    (t) => ({ op: "edit", file: ok, edits: [{ tag: "XMP-dc:Subject", operation: "add", value: t }] }),
    (t) => ({ op: "edit", file: ok, edits: [{ tag: t, operation: "add", value: "v" }] }),
    (t) => ({ op: "edit", file: ok, edits: [{ tag: "XMP-dc:Subject" + t, operation: "remove", value: "v" }] }),
    (t) => ({ op: "edit", file: ok, edits: [{ tag: "XMP-mwg-coll:Collections", operation: "add", value: { CollectionName: t, CollectionURI: t } }] }),
    (t) => ({ op: "edit", file: ok, edits: [{ tag: "XMP-dc:Subject", operation: "remove", value: "v" }], call: { writeArgs: [t] } }),
    (t) => ({ op: "delete", file: t }),
    (t) => ({ op: "delete", file: ok, retain: [t] }),
    (t) => ({ op: "delete", file: ok, retain: ["ICC_Profile", "EXIF:" + t] }),
    (t) => ({ op: "binary", file: t, tag: "ThumbnailImage", dest: dir + "/t.jpg" }),
    (t) => ({ op: "binary", file: ok, tag: t, dest: dir + "/t.jpg" }),
    (t) => ({ op: "binary", file: ok, tag: "ThumbnailImage", dest: dest(t), noNul: true }),
    (t) => ({ op: "buffer", file: t, tag: "ThumbnailImage" }),
    (t) => ({ op: "buffer", file: ok, tag: t }),
    (t) => ({ op: "rewrite", file: t, dest: dir + "/r.jpg" }),
    (t) => ({ op: "rewrite", file: ok, dest: dest(t) }),
    (t) => ({ op: "rewrite", file: ok, dest: "/d/" + t + "x", repair: true }),
  ];
  const events = [];
  const origin = new Map();
  for (const [ti, t] of texts.entries()) {
    for (const [si, site] of sites.entries()) {
      // every short text everywhere; random ones at a third of the places
      if (ti >= rows.length && (ti + si) % 3 !== 0) continue;
      const c = site(t);
      // a null byte in a folder name is refused by the file system already
      const e = await callEvent(ctx, c);
      // values: only rejection because of unencodable text is P06's business
      if (c.op === "write" && e.st === "err" && e.sent.length === 0 && (hasNul(c.tags) || hasSep(c.tags))) e.unencodable = true;
      origin.set(e, si + "|" + JSON.stringify(t));
      events.push(e);
    }
  }
  const chunk = 4000;
  for (let i = 0; i < events.length; i += chunk) {
    await judge(ctx, "WireTrace", events.slice(i, i + chunk), {
      key: (e) => origin.get(e),
      message: (e, w) => `${e.op} ${origin.get(e)} -> ${e.st} ${JSON.stringify(e.sent).slice(0, 200)} want ${w.slice(0, 300)}`,
    });
  }
  ctx.coverage.texts = texts.length;
  ctx.coverage.sites = sites.length;
};

function hasNul(v) {
  if (typeof v === "string") return v.includes("\0");
  if (Array.isArray(v)) return v.some(hasNul);
  if (v && typeof v === "object") return Object.entries(v).some(([k, x]) => hasNul(k) || hasNul(x));
  return false;
}
/** a list item with ExifTool's list separator cannot be sent */
function hasSep(tags) {
  return Object.values(tags).some((v) => Array.isArray(v) && v.some((x) => typeof x === "string" && x.includes("\x1f")));
}
