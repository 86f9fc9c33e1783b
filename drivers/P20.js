"use strict";
// P20: three levels of options, against the effective options of spec/Wire.tla.
const path = require("node:path");
const { judge, modelCheck } = require("../lib/tlc");
const { stubbed, settle } = require("../lib/stub");
const { callEvent } = require("../lib/wire");

exports.assumptions = ["options that act on the request are observed in the transmitted command, options that act on the answer in the result of a scripted answer"];

const SRC = "/tmp/p20.jpg";
const UNSET = "\\-";

exports.run = async (ctx) => {
  ctx.addModel(await modelCheck("MC_Options"));
  const { rng } = ctx;
  const lists = [undefined, [], ["-fast2"], ["-G", "-fast"], ["-api", "largefilesupport=1"], ["-api", "filter=$_=uc"], ["-api", "Filter="], ["-API", "filter^"], ["-json"], [""], ["-ee", " ", "-n"]];
  const val = {
    useMWG: [undefined, true, false],
    struct: [undefined, 0, 1, 2, "undef"],
    ignoreMinorErrors: [undefined, true, false],
    geolocation: [undefined, true, false],
    keepUTCTime: [undefined, true, false],
    imageHashType: [undefined, false, "MD5", "SHA256", "SHA512"],
    includeImageDataMD5: [undefined, undefined, true, false],
    forceWrite: [undefined, true, false],
    readArgs: lists,
    writeArgs: [undefined, [], ["-overwrite_original"], ["-P", "-n"]],
    numericTags: [undefined, [], ["Rating"], ["Orientation", "*Duration*"]],
  };
  const names = Object.keys(val);
  const pickOpts = (p) => {
    const o = {};
    for (const n of names) if (rng.bool(p)) { const v = rng.pick(val[n]); if (v !== undefined) o[n] = v; }
    return o;
  };
  const forOp = {
    read: ["useMWG", "struct", "ignoreMinorErrors", "geolocation", "keepUTCTime", "imageHashType", "includeImageDataMD5", "readArgs", "numericTags"],
    readRaw: ["useMWG", "ignoreMinorErrors", "readArgs"],
    write: ["useMWG", "struct", "ignoreMinorErrors", "writeArgs"],
    edit: ["useMWG", "struct", "ignoreMinorErrors", "writeArgs"],
    delete: ["useMWG", "struct", "ignoreMinorErrors"],
    binary: ["ignoreMinorErrors", "forceWrite"],
    buffer: ["ignoreMinorErrors"],
    rewrite: ["ignoreMinorErrors"],
    version: [],
  };
  const only = (o, ks) => Object.fromEntries(Object.entries(o).filter(([k]) => ks.includes(k)));
  const D = ctx.req("DefaultExifToolOptions.js").DefaultExifToolOptions;
  const snap = (o) => JSON.stringify(o, (_k, v) => (typeof v === "function" ? "f:" + v.name : v instanceof RegExp ? String(v) : v === undefined ? "undef" : v));
  const ownOpts = (et) => { const { processFactory, ...rest } = et.options; return snap(rest); };
  const events = [];
  const origin = new Map();
  const push = (e, o) => { events.push(e); origin.set(e, o); };
  const defBefore = snap(D);
  const dir = ctx.scratch("p20");

  const instances = ctx.thorough ? 250 : 60;
  const others = [];
  for (let i = 0; i < instances; i++) {
    const inst = i === 0 ? {} : pickOpts(i % 3 === 0 ? 0.9 : 0.4);
    const instSnap = snap(inst);
    const et = stubbed(ctx, { ...inst, taskRetries: 0 }, () => ({ stdout: "", stderr: "" }));
    const optsSnap = ownOpts(et);
    others.push({ et, optsSnap });
    for (let j = 0; j < (ctx.thorough ? 60 : 30); j++) {
      const op = rng.pick(Object.keys(forOp));
      let call = rng.bool(0.2) ? undefined : only(pickOpts(rng.pick([0.2, 0.6, 1])), forOp[op]);
      if (op === "version") call = undefined;
      const legacy = ["read", "readRaw", "write"].includes(op) && rng.bool(0.4);
      const callSnap = snap(call);
      const c = { et, op, inst, call, legacy, file: SRC };
      if (op === "write") c.tags = rng.pick([{}, { Title: "x" }, { Title: "x", "XMP:Rating": 3 }]);
      if (op === "edit") c.edits = [{ tag: "XMP-dc:Subject", operation: "add", value: "v" }];
      if (op === "delete") c.retain = rng.pick([undefined, [], ["ICC_Profile"], ["Make", "EXIF:Model"]]);
      if (op === "binary") (c.tag = "ThumbnailImage"), (c.dest = path.join(dir, "o.jpg"));
      if (op === "buffer") c.tag = "PreviewImage";
      if (op === "rewrite") (c.dest = path.join(dir, "r.jpg")), (c.repair = rng.pick([undefined, true, false]));
      push(await callEvent(ctx, c), JSON.stringify({ op, inst, call, legacy, retain: c.retain, repair: c.repair }));
      if (snap(call) !== callSnap) push({ op: "frame", before: callSnap, after: snap(call) }, "caller's options of " + op);
    }
    push({ op: "frame", before: instSnap, after: snap(inst) }, "options given to the constructor");
    for (const o of others) if (ownOpts(o.et) !== o.optsSnap) push({ op: "frame", before: o.optsSnap, after: ownOpts(o.et) }, "options of an instance");
    push({ op: "frame", before: optsSnap, after: ownOpts(et) }, "options of the instance");
  }

  // ---- options that act on the answer -------------------------------------------
  const z = (t, k) => { const v = t?.[k]; return v == null ? "none" : v.zone == null ? "unzoned" : String(v.zone); };
  const probes = {
    backfillTimezones: { def: "T", tags: { OffsetTimeOriginal: "+03:00", DateTimeOriginal: "2020:01:01 00:00:00" }, obs: (t) => (z(t, "DateTimeOriginal") === "UTC+3" ? "T" : z(t, "DateTimeOriginal") === "unzoned" ? "F" : "?") },
    defaultVideosToUTC: { def: "T", tags: { MIMEType: "video/mp4", CreateDate: "2020:01:01 00:00:00" }, obs: (t) => (z(t, "CreateDate") === "UTC" ? "T" : z(t, "CreateDate") === "unzoned" ? "F" : "?") },
    ignoreZeroZeroLatLon: { def: "T", tags: { GPSLatitude: 0, GPSLongitude: 0 }, obs: (t) => (t.GPSLatitude === undefined ? "T" : t.GPSLatitude === 0 ? "F" : "?") },
    inferTimezoneFromDatestamps: { def: "T", tags: { DateTimeOriginal: "2020:01:01 00:00:00-05:00" }, obs: (t) => (t.tz === "UTC-5" ? "T" : t.tz == null ? "F" : "?") },
    inferTimezoneFromTimeStamp: { def: "F", tags: { TimeStamp: "2020:01:01 00:00:00-05:00", DateTimeOriginal: "2020:01:01 03:00:00" }, obs: (t) => (t.tz != null ? "T" : "F") },
    preferTimezoneInferenceFromGps: { def: "F", tags: { OffsetTimeOriginal: "-09:00", GPSLatitude: 35.6, GPSLongitude: 139.7, GeolocationTimeZone: "Asia/Tokyo" }, obs: (t) => (t.tz === "Asia/Tokyo" ? "T" : t.tz === "UTC-9" ? "F" : "?") },
  };
  const fnProbes = {
    geoTz: { tags: { GPSLatitude: 10, GPSLongitude: 10 }, mk: (n) => () => n, vals: ["Asia/Tokyo", "Europe/Paris"], obs: (t) => String(t.tz), def: null },
    adjustTimeZoneIfDaylightSavings: { tags: { TimeZone: "+01:00", DateTimeOriginal: "2020:01:01 00:00:00" }, mk: (n) => () => Number(n), vals: ["60", "120"], obs: (t) => ({ "UTC+1": "0", "UTC+2": "60", "UTC+3": "120" }[t.tz] ?? String(t.tz)), def: "0" },
    inferTimezoneFromDatestampTags: { tags: { FooDate: "2020:01:01 00:00:00-05:00", BarDate: "2020:01:01 00:00:00-07:00" }, mk: (n) => [n], vals: ["FooDate", "BarDate"], obs: (t) => ({ "UTC-5": "FooDate", "UTC-7": "BarDate" }[t.tz] ?? "neither"), def: "neither" },
  };
  const read = async (inst, call, tags, legacy) => {
    const et = stubbed(ctx, { ...inst, taskRetries: 0 }, () => ({ stdout: JSON.stringify([{ SourceFile: SRC, ...tags }]) }));
    const run = () => settle(() => (legacy ? et.read(SRC, ["-fast"], call) : et.read(SRC, call)));
    const r = await run();
    // a later call without options sees the instance's value again
    const r2 = await settle(() => et.read(SRC));
    return [r, r2];
  };
  const tf = [UNSET, "T", "F"];
  for (const [name, p] of Object.entries(probes)) {
    for (const vi of tf) for (const vc of tf) for (const legacy of [false, true]) {
      const o = (v) => (v === UNSET ? {} : { [name]: v === "T" });
      const [r, r2] = await read(o(vi), o(vc), p.tags, legacy);
      const ob = (x) => (x.st === "ok" ? p.obs(x.v) : x.st);
      push({ op: "probe", name, vdef: p.def, vinst: vi, vcall: vc, obs: ob(r) }, [name, vi, vc, legacy].join());
      push({ op: "probe", name, vdef: p.def, vinst: vi, vcall: UNSET, obs: ob(r2) }, [name, vi, "later", legacy].join());
    }
  }
  for (const [name, p] of Object.entries(fnProbes)) {
    const vs = [UNSET, ...p.vals];
    for (const vi of vs) for (const vc of vs) for (const legacy of [false, true]) {
      if (p.def == null && vi === UNSET && vc === UNSET) continue;
      const o = (v) => (v === UNSET ? {} : { [name]: p.mk(v) });
      const [r, r2] = await read(o(vi), o(vc), p.tags, legacy);
      const ob = (x) => (x.st === "ok" ? p.obs(x.v) : x.st);
      push({ op: "probe", name, vdef: p.def ?? "", vinst: vi, vcall: vc, obs: ob(r) }, [name, vi, vc, legacy].join());
      if (p.def != null || vi !== UNSET) push({ op: "probe", name, vdef: p.def ?? "", vinst: vi, vcall: UNSET, obs: ob(r2) }, [name, vi, "later", legacy].join());
    }
  }
  push({ op: "frame", before: defBefore, after: snap(D) }, "library defaults");
  await judge(ctx, "WireTrace", events, {
    key: (e) => origin.get(e),
    message: (e, w) => `${e.op} ${origin.get(e)} -> ${JSON.stringify(e.sent ?? e.obs ?? e.after).slice(0, 250)} want ${w.slice(0, 400)}`,
  });
};
