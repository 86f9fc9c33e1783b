"use strict";
// Offsets of named zones from the platform's Intl, independent of Luxon.
const cache = new Map();
function fmt(zone) {
  let f = cache.get(zone);
  if (f === undefined) {
    try {
      f = new Intl.DateTimeFormat("en-US", { timeZone: zone, hourCycle: "h23", era: "short", year: "numeric", month: "numeric", day: "numeric", hour: "numeric", minute: "numeric", second: "numeric" });
    } catch {
      f = null;
    }
    cache.set(zone, f);
  }
  return f;
}
const knownZone = (zone) => fmt(zone) != null;
/** offset in seconds of `zone` at `ms`: "UTC", "UTC+5:30" or a named zone */
function offsetAt(zone, ms) {
  if (zone === "UTC") return 0;
  const m = /^UTC([+-])(\d{1,2})(?::(\d\d))?$/.exec(zone);
  if (m) return (m[1] === "-" ? -1 : 1) * (Number(m[2]) * 3600 + Number(m[3] ?? 0) * 60);
  const f = fmt(zone);
  if (f == null) return undefined;
  const p = Object.fromEntries(f.formatToParts(new Date(ms)).map((x) => [x.type, x.value]));
  const y = Number(p.year) * (p.era === "BC" ? -1 : 1) + (p.era === "BC" ? 1 : 0);
  const d = new Date(0);
  d.setUTCFullYear(y, Number(p.month) - 1, Number(p.day));
  d.setUTCHours(Number(p.hour), Number(p.minute), Number(p.second), 0);
  return Math.round((d.getTime() - Math.floor(ms / 1000) * 1000) / 1000);
}
/** instants (ms) that a wall-clock time (given as if it were UTC) denotes in `zone`: 0, 1 or 2 */
function instantsOf(zone, localMs) {
  const offs = new Set([-86400000, -3600000 * 3, 0, 3600000 * 3, 86400000].map((d) => offsetAt(zone, localMs + d)));
  const out = [];
  for (const o of offs) if (o !== undefined && offsetAt(zone, localMs - o * 1000) === o) out.push(localMs - o * 1000);
  return out.sort((a, b) => a - b);
}
module.exports = { knownZone, offsetAt, instantsOf };
