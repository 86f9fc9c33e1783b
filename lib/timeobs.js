"use strict";
// What is observable of the library's dates and times, as records of TimeText.tla.
const NONE_DT = { ok: false, y: 0, m: 0, d: 0, h: 0, mi: 0, s: 0, ms: -1, hasZone: false, off: 0, zone: "", inf: "u", raw: "", day: 0, msod: 0, exif: "", iso: "", valid: false };
const tri = (x) => (x === true ? "t" : x === false ? "f" : "u");
const split = (ms) => ({ day: Math.floor(ms / 86400000), msod: ((ms % 86400000) + 86400000) % 86400000 });
function dt(x) {
  if (x == null) return NONE_DT;
  const hasZone = x.hasZone;
  const inst = hasZone ? split(x.toMillis()) : { day: 0, msod: 0 };
  return {
    ok: true, y: x.year, m: x.month, d: x.day, h: x.hour, mi: x.minute, s: x.second, ms: x.millisecond ?? -1,
    hasZone, off: hasZone ? Math.round((x.tzoffsetMinutes ?? NaN) * 60) || 0 : 0, zone: x.zone ?? "", inf: tri(x.inferredZone), raw: x.rawValue ?? "",
    ...inst, exif: String(x.toExifString()), iso: String(x.toISOString()), valid: x.isValid === true,
  };
}
const NONE_D = { ok: false, y: 0, m: 0, d: 0, raw: "", exif: "", iso: "" };
const date = (x) => (x == null ? NONE_D : { ok: true, y: x.year, m: x.month ?? 0, d: x.day ?? 0, raw: x.rawValue ?? "", exif: x.toExifString(), iso: x.toISOString() });
const NONE_T = { ok: false, h: 0, mi: 0, s: 0, ms: -1, hasZone: false, off: 0, zone: "", inf: "u", raw: "", exif: "", iso: "" };
function time(x, offsetOf) {
  if (x == null) return NONE_T;
  return { ok: true, h: x.hour, mi: x.minute, s: x.second, ms: x.millisecond ?? -1, hasZone: x.hasZone, off: x.hasZone ? offsetOf(x.zone) : 0, zone: x.zone ?? "", inf: tri(x.inferredZone), raw: x.rawValue ?? "", exif: x.toExifString(), iso: x.toISOString() };
}
/** canonical notation of any value, with the types of all parts */
function canon(v, seen = 0) {
  if (seen > 20) return "…";
  if (v === null || v === undefined) return String(v);
  if (Array.isArray(v)) return "[" + v.map((x) => canon(x, seen + 1)).join(",") + "]";
  if (v instanceof Uint8Array) return "bytes(" + Buffer.from(v).toString("hex") + ")";
  if (typeof v === "object") {
    const c = v.constructor?.name ?? "null";
    const extra = c !== "Object" && c !== "null" && typeof v.toString === "function" && v.toString !== Object.prototype.toString ? "=" + String(v) : "";
    return c + extra + "{" + Object.keys(v).filter((k) => v[k] !== undefined).sort().map((k) => JSON.stringify(k) + ":" + canon(v[k], seen + 1)).join(",") + "}";
  }
  return typeof v + ":" + (Object.is(v, -0) ? "0" : JSON.stringify(v) ?? String(v));
}
module.exports = { dt, date, time, canon, split, NONE_DT, NONE_D, NONE_T };
