"use strict";
// Shared by P05 and P20: one event per call, in the vocabulary of spec/Wire.tla.
const path = require("node:path");
const { stubbed, settle } = require("./stub");

const asc = (s) =>
  [...String(s).split("")].map((c) => (c >= " " && c <= "~" && c !== "\\" ? c : "\\u" + c.charCodeAt(0).toString(16).padStart(4, "0"))).join("");
const unasc = (s) => s.replace(/\\u([0-9a-f]{4})/g, (_, h) => String.fromCharCode(parseInt(h, 16)));
const cps = (s) => [...s].map((c) => c.codePointAt(0));

const bool = (o, k) => (o && k in o && o[k] !== undefined ? (o[k] ? "T" : "F") : "\\-");
const list = (o, k) => (o && Array.isArray(o[k]) ? { set: true, v: o[k].map(asc) } : { set: false, v: [] });
/** Abstraction of an options object. */
function level(o) {
  return {
    useMWG: bool(o, "useMWG"),
    struct: o && o.struct !== undefined ? String(o.struct) : "\\-",
    minor: bool(o, "ignoreMinorErrors"),
    geolocation: bool(o, "geolocation"),
    keepUTCTime: bool(o, "keepUTCTime"),
    hash: o && o.imageHashType !== undefined ? asc(o.imageHashType) : "\\-",
    md5: bool(o, "includeImageDataMD5"),
    force: bool(o, "forceWrite"),
    readArgs: list(o, "readArgs"),
    writeArgs: list(o, "writeArgs"),
    numericTags: list(o, "numericTags"),
  };
}

const cache = new Map();
function instance(ctx, inst) {
  const k = JSON.stringify(inst ?? {});
  if (!cache.has(k)) {
    if (cache.size > 200) cache.clear();
    cache.set(k, stubbed(ctx, { ...inst, taskRetries: 0 }, () => ({ stdout: "", stderr: "" })));
  }
  return cache.get(k);
}

/** Makes the call and returns the event. c: {op, file, ..., inst, call, legacy, resp} */
async function callEvent(ctx, c) {
  const et = c.et || instance(ctx, c.inst);
  const before = et.sent.length;
  const o = c.call;
  // legacy: the deprecated signature with an argument list in front of the options
  const args = (k) => (c.legacy ? [o?.[k] ?? undefined, without(o, k)] : [o]);
  const f = {
    read: () => et.read(c.file, ...args("readArgs")),
    readRaw: () => et.readRaw(c.file, ...args("readArgs")),
    write: () => et.write(c.file, c.tags, ...args("writeArgs")),
    edit: () => et.editTags(c.file, c.edits, o),
    delete: () => et.deleteAllTags(c.file, { ...o, ...(c.retain ? { retain: c.retain } : {}) }),
    binary: () => et.extractBinaryTag(c.tag, c.file, c.dest, o),
    buffer: () => et.extractBinaryTagToBuffer(c.tag, c.file, o),
    rewrite: () => et.rewriteAllTags(c.file, c.dest, { ...o, ...(c.repair === undefined ? {} : { allowMakerNoteRepair: c.repair }) }),
    version: () => et.version(),
  }[c.op];
  const r = await settle(f);
  const callArgs = [...(c.legacy || o ? (o?.readArgs ?? []) : []), ...(c.inst?.readArgs ?? [])];
  const sent = et.sent.slice(before).map((cmd) => {
    const lines = cmd.split("\n");
    if (lines.pop() !== "") lines.push("<UNTERMINATED>");
    return lines.map((l) => (/^\s*Filter=/i.test(l) && !callArgs.includes(l) ? "<FILTER>" : asc(l)));
  });
  const e = { op: c.op, inst: level(c.inst), call: level(o), st: r.st, sent };
  if (c.op !== "version") e.file = asc(path.resolve(c.file));
  if (c.op === "write") {
    e.fields = Object.keys(c.tags).map(asc);
    e.unencodable = c.unencodable === true;
  }
  if (c.op === "edit") {
    e.edits = c.edits.map(editEvent);
  }
  if (c.op === "delete") e.retain = (c.retain ?? []).map(asc);
  if (c.tag !== undefined) e.tag = asc(c.tag);
  if (c.dest !== undefined) e.dest = asc(path.resolve(c.dest));
  if (c.op === "rewrite") e.repair = c.repair === true;
  return e;
}

function editEvent(x) {
  const own = (k) => x != null && typeof x === "object" && Object.hasOwn(x, k);
  const v = own("value") ? x.value : own("predicate") ? x.predicate : undefined;
  const isObj = v != null && typeof v === "object" && !Array.isArray(v);
  const field = (k) => (isObj && typeof v[k] === "string" ? { set: true, cps: cps(v[k]) } : { set: false, cps: [] });
  const fieldsOk = isObj && Object.keys(v).every((k) => typeof v[k] === "string");
  return {
    tag: asc(x?.tag ?? ""), op: String(x?.operation ?? ""), hasValue: own("value"), hasPred: own("predicate"),
    kind: typeof v === "string" ? "str" : isObj && fieldsOk ? "coll" : "bad",
    cps: typeof v === "string" ? cps(v) : [],
    name: field("CollectionName"), uri: field("CollectionURI"),
    extra: isObj && Object.keys(v).some((k) => k !== "CollectionName" && k !== "CollectionURI"),
  };
}

function without(o, k) {
  if (o == null) return o;
  const r = { ...o };
  delete r[k];
  return r;
}
module.exports = { asc, unasc, cps, level, callEvent, editEvent };
