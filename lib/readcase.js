"use strict";
// Builds values as ExifTool reports them, with what they denote (spec/Reading.tla),
// and describes what a read made of them.
const two = (n) => String(n).padStart(2, "0");
const DIM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
function maker(rng) {
  const fields = () => {
    const mo = rng.int(1, 12);
    return [rng.pick([rng.int(1971, 2037), rng.int(1900, 2099)]), mo, rng.pick([1, DIM[mo - 1], rng.int(1, DIM[mo - 1])]), rng.pick([0, 23, rng.int(0, 23)]), rng.int(0, 59), rng.int(0, 59), 0];
  };
  const offs = [["", 9999], ["", 9999], ["", 9999], ["Z", 0], ["+00:00", 0], ["-08:00", -480], ["+05:30", 330], ["+12:45", 765], ["-03:30", -210], ["-11:00", -660]];
  const frac = (f) => { const n = rng.pick([0, 0, 2, 3]); if (n === 0) return ""; const ms = n === 2 ? rng.int(1, 99) * 10 : rng.int(1, 999); f[6] = ms; return "." + String(ms).padStart(3, "0").slice(0, n); };
  const text = (form, s, f = [0, 0, 0, 0, 0, 0, 0], off = 9999) => ({ k: "text", form, s, f, off });
  const forms = {
    dt: () => { const f = fields(); const [o, off] = rng.pick(offs); const fr = frac(f); return text("dt", `${f[0]}:${two(f[1])}:${two(f[2])} ${two(f[3])}:${two(f[4])}:${two(f[5])}${fr}${o}`, f, off); },
    date: () => { const f = fields(); const c = rng.pick([":", ":", "-"]); return text("date", `${f[0]}${c}${two(f[1])}${c}${two(f[2])}`, f); },
    time: () => { const f = fields(); const [o, off] = rng.pick(offs); const fr = frac(f); if (f[3] + f[4] + f[5] === 0) f[5] = 1; return text("time", `${two(f[3])}:${two(f[4])}:${two(f[5])}${fr}${o}`, f, off); },
    part: () => text("part", rng.pick(["2020", "2020:05", "1999:12", "7", "12", "2020-05"])),
    zeros: () => text("zeros", rng.pick(["0000:00:00 00:00:00", "00", "0000:00:00", "000", "0000:00:00 00:00:00.00"])),
    zero: () => text("zero", "0"),
    bin: () => { const n = rng.pick([0, 1, 251, 2506078, 999999999]); return text("bin", rng.pick([`(Binary data ${n} bytes, use -b option to extract)`, `(Binary data ${n} bytes)`]), [n, 0, 0, 0, 0, 0, 0]); },
    yes: () => text("yes", rng.pick(["true", "Yes", "1", "ON", "yes"])),
    no: () => text("no", rng.pick(["false", "No", "off", "OFF"])),
    gone: () => text("gone", rng.pick(["undef", "null", "undefined", " undef", "null "])),
    junk: () => text("junk", rng.pick(["foo", "May", "1/60", "12 s", "0.5", "2020:13:01", "2020:02:30 10:00:00", "2020:01:02 25:00:00", "2020:01:02 03:04:05 foo", "2020:00:00 00:00:00", "5 years ago", "3.5 s", "+08:00", "1577934245", " ", "", "Binary", "truely", "undefine", "nullable", "2020:01:02 03:60:00", "x2020:01:02 03:04:05", "NULL", "(none)", "Binary data bytes", "12.30", "true story", "{}", "[]", "\\u0000", "日本"])),
    lit: () => ({ k: "lit", s: rng.pick(["0", "1", "-5", "12.5", "2020", "1e21", "true", "false", "1577934245", "0.1"]) }),
    null: () => ({ k: "null" }),
  };
  return forms;
}
/** the value as JavaScript data */
function plain(v) {
  if (v.k === "text") return v.s;
  if (v.k === "lit") return JSON.parse(v.s);
  if (v.k === "null") return null;
  if (v.k === "list") return v.xs.map(plain);
  return Object.fromEntries(v.names.map((n, i) => [n, plain(v.vals[i])]));
}
/** what a read made of v */
function seen(o, v) {
  if (o == null) return { k: "absent" };
  if (typeof o === "string") return { k: "text", s: o };
  if (typeof o === "boolean" && v.k === "text") return { k: "bool", b: o };
  if (typeof o === "number" || typeof o === "boolean") return { k: "lit", s: v.k === "lit" && Object.is(JSON.parse(v.s), o) ? v.s : String(o) };
  if (Array.isArray(o)) return { k: "list", xs: o.map((x, i) => seen(x, v.k === "list" ? (v.xs[i] ?? { k: "null" }) : v)) };
  const name = o.constructor?.name;
  const int = (x) => (Number.isInteger(x) && Math.abs(x) < 2e9 ? x : x == null ? 0 : -9999);
  const off = (x) => (x == null ? 9999 : int(x));
  if (name === "ExifDateTime") return { k: "DateTime", f: [o.year, o.month, o.day, o.hour, o.minute, o.second, o.millisecond].map(int), raw: String(o.rawValue), off: off(o.tzoffsetMinutes), inferred: o.inferredZone === true, zone: String(o.zone ?? "") };
  if (name === "ExifTime") return { k: "Time", f: [o.hour, o.minute, o.second, o.millisecond].map(int), raw: String(o.rawValue), off: off(o.tzoffsetMinutes ?? offsetOf(o.zone)), inferred: o.inferredZone === true, zone: String(o.zone ?? "") };
  if (name === "ExifDate") return { k: "Date", f: [o.year, o.month, o.day].map(int), raw: String(o.rawValue) };
  if (name === "BinaryField") return { k: "Binary", bytes: int(o.bytes), raw: String(o.rawValue) };
  if (v.k === "struct") return { k: Object.keys(o).every((n) => v.names.includes(n)) ? "struct" : "other", vals: v.names.map((n, i) => seen(Object.hasOwn(o, n) ? o[n] : undefined, v.vals[i])) };
  return { k: "other" };
}
function offsetOf(z) {
  if (z == null) return undefined;
  if (z === "UTC") return 0;
  const m = /^UTC([+-])(\d{1,2})(?::(\d\d))?$/.exec(z);
  return m == null ? -9999 : (m[1] === "-" ? -1 : 1) * (Number(m[2]) * 60 + Number(m[3] ?? 0));
}
module.exports = { maker, plain, seen };
