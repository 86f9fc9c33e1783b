"use strict";
// Events for P16: zone changes and arithmetic, along histories on one value.
module.exports = ({ job, rng, req, offsetAt, instantsOf, O }) => {
  const { ExifDateTime } = req("ExifDateTime.js");
  const { ExifTime } = req("ExifTime.js");
  const { parseJSON } = req("JSON.js");
  const { normalizeZone } = req("Timezones.js");
  const { IANAZone, FixedOffsetZone } = require(require.resolve("luxon", { paths: [job.repo] }));
  const events = [];
  const named = ["America/Los_Angeles", "America/New_York", "Europe/London", "Asia/Kathmandu", "Asia/Tokyo", "Australia/Lord_Howe", "Pacific/Apia", "Africa/Casablanca", "America/St_Johns", "America/Sao_Paulo"];
  const fixed = [["UTC", "UTC", 0], ["Z", "UTC", 0], ["UTC+8", "UTC+8", 28800], ["UTC-3:30", "UTC-3:30", -12600], ["UTC+14", "UTC+14", 50400], ["UTC+5:45", "UTC+5:45", 20700], ["UTC-11", "UTC-11", -39600]];
  const wall = (a) => { const d = new Date(0); d.setUTCFullYear(a.y, a.m - 1, a.d); d.setUTCHours(a.h, a.mi, a.s, Math.max(0, a.ms)); return d.getTime(); };
  const instOf = (a) => a.day * 86400000 + a.msod;
  const modern = (ms) => ms > Date.UTC(1976, 0, 1) && ms < Date.UTC(2037, 0, 1);
  const tri = (x) => (x === true ? "t" : x === false ? "f" : "u");
  const target = (ms) => {
    if (rng.bool() || !modern(ms)) { const [z, name] = rng.pick(fixed); return z === "Z" ? ["UTC", "UTC"] : [rng.bool(0.1) ? normalizeZone(z) : z, name]; }
    const z = rng.pick(named);
    return [rng.bool(0.1) ? IANAZone.create(z) : z, z];
  };
  const isNamed = (z) => z.includes("/");
  const setzone = (x) => {
    const a = O.dt(x), w = wall(a);
    const [z, name] = target(a.hasZone ? instOf(a) : w);
    const keep = rng.pick([undefined, undefined, true, false]), inf = rng.pick([undefined, undefined, true, false]);
    if (keep === false && !a.hasZone) return x;
    const declare = keep ?? !a.hasZone;
    const ins = instantsOf(name, w);
    if (declare && ins.length === 0) return x;
    const opts = keep == null && inf == null && rng.bool() ? undefined : { ...(keep != null && { keepLocalTime: keep }), ...(inf != null && { inferredZone: inf }) };
    const b = x.setZone(z, opts);
    const secs = declare ? ins.map((i) => Math.round((w - i) / 1000)) : [offsetAt(name, instOf(a))];
    events.push({ op: "setzone", a, b: O.dt(b), a2: O.dt(x), keep: tri(keep), inf: tri(inf), name, secs });
    return b;
  };
  const units = ["years", "quarters", "months", "weeks", "days", "hours", "minutes", "seconds", "milliseconds"];
  const amount = { years: 20, quarters: 9, months: 30, weeks: 60, days: 900, hours: 30000, minutes: 200000, seconds: 9000000, milliseconds: 900000000 };
  const zero = Object.fromEntries(units.map((u) => [u, 0]));
  const plus = (x) => {
    const a = O.dt(x);
    const du = {};
    for (const k of rng.sample(units, rng.pick([1, 1, 1, 2, 3]))) du[k] = rng.bool(0.5) ? rng.pick([1, -1, 2, 12, 24, -25, 0]) : rng.int(-amount[k], amount[k]);
    const u = { ...zero, ...du };
    // the wall clock after the units of the calendar
    let base;
    const t = a.y * 12 + a.m - 1 + 12 * u.years + 3 * u.quarters + u.months, ny = Math.floor(t / 12), nm = t - ny * 12;
    if (ny < 3 || ny > 9990) return x;
    const dim = new Date(Date.UTC(2000, nm + 1, 0)); dim.setUTCFullYear(ny, nm + 1, 0);
    base = wall({ ...a, y: ny, m: nm + 1, d: Math.min(a.d, dim.getUTCDate()) }) + (7 * u.weeks + u.days) * 86400000;
    const time = (u.hours * 3600 + u.minutes * 60 + u.seconds) * 1000 + u.milliseconds;
    const cal = u.years || u.quarters || u.months || u.weeks || u.days;
    // days that do not cancel to nothing, only
    const noop = 12 * u.years + 3 * u.quarters + u.months === 0 && 7 * u.weeks + u.days === 0;
    if (cal && noop) return x;
    const yEnd = new Date(base + time).getUTCFullYear();
    if (yEnd < 3 || yEnd > 9990) return x;
    let offs = [[0, 0]];
    if (a.hasZone) {
      if (isNamed(a.zone) && !(modern(base) && modern(base + time) && modern(instOf(a)))) return x;
      const starts = cal ? instantsOf(a.zone, base).map((i) => [base - i, i]) : [[a.off * 1000, instOf(a)]];
      if (starts.length === 0) return x;
      offs = starts.map(([o, i]) => [Math.round(o / 1000), offsetAt(a.zone, i + time)]);
    }
    const b = x.plus(du);
    events.push({ op: "plus", a, b: O.dt(b), a2: O.dt(x), u, offs });
    return b;
  };
  const millis = () => {
    const ms = rng.int(-1000000, 2000000) * 1e6 + rng.int(0, 86399999);
    const [z, name] = rng.bool(0.7) ? target(ms) : [undefined, ""];
    const now = Date.now;
    let b;
    if (rng.bool(0.3)) { Date.now = () => ms; b = ExifDateTime.now(z == null ? {} : { zone: z }); Date.now = now; }
    else b = z == null && rng.bool() ? ExifDateTime.fromMillis(ms) : ExifDateTime.fromMillis(ms, z == null ? {} : { zone: z });
    if (name === "" && isNamed(job.tz) && !modern(ms)) return b;
    const ob = O.dt(b);
    events.push({ op: "millis", ...O.split(ms), name, sec: offsetAt(name === "" ? job.tz : name, ms), b: ob, a: ob, a2: ob });
    return b;
  };
  const over = (x) => {
    const a = O.dt(x), w = wall(a);
    const [, name] = target(w);
    const ins = instantsOf(name, w);
    if (ins.length === 0) return;
    const i = x.toDateTime(name).toMillis(), ep = x.toEpochSeconds(name) * 1000;
    const js = O.split(a.hasZone ? x.toDate().getTime() : 0);
    const e = O.split(ep);
    events.push({ op: "over", a, a2: O.dt(x), ...O.split(i), epoch: [e.day, e.msod / 1000], secs: ins.map((k) => Math.round((w - k) / 1000)), jsday: js.day, jsmsod: js.msod });
  };
  const match = (x) => {
    const a = O.dt(x);
    const mins = rng.pick([0, 5, 13, 14, 15, 59, 60, 480, 481, 500, 1000]);
    let t = a.hasZone && rng.bool(0.7) ? x.setZone(target(instOf(a))[0]) : ExifDateTime.from(x.toISOString({ includeOffset: false }) + rng.pick(["Z", "+08:00", "-03:30", "", "+05:45"]));
    t = t?.plus({ minutes: rng.bool() ? mins : -mins, milliseconds: rng.pick([0, 1, -1]) });
    if (t == null) return;
    const ot = O.dt(t);
    const own = rng.bool();
    const max = own ? rng.pick([0, 60000, 3600000, 28800000]) : 14 * 60000;
    const w = wall(a);
    const ins = ot.hasZone ? instantsOf(ot.zone, w) : [];
    if (ot.hasZone && isNamed(ot.zone) && !(modern(w) && modern(instOf(ot)))) return;
    const b = own ? x.maybeMatchZone(t, max) : x.maybeMatchZone(t);
    events.push({ op: "match", a, a2: O.dt(x), t: ot, b: O.dt(b), max, secs: ins.map((k) => Math.round((w - k) / 1000)), gap: ins.length === 0 });
  };
  const p2 = (n) => String(n).padStart(2, "0");
  const starts = [];
  const edges = [[2021, 3, 14], [2021, 11, 7], [2021, 3, 28], [2021, 10, 31], [2021, 4, 4], [2021, 10, 3], [2011, 12, 29], [2000, 2, 29], [1999, 12, 31], [2023, 1, 31], [2024, 2, 29], [1986, 1, 1], [2018, 11, 4]];
  const sfx = ["", "", "Z", "+08:00", "-03:30", "+05:45", "-08:00", "-07:00", "+14:00"];
  for (const [y, m, d] of edges) for (const h of [0, 1, 2, 3, 23]) for (const mi of [0, 30]) starts.push(`${y}:${p2(m)}:${p2(d)} ${p2(h)}:${p2(mi)}:59${rng.pick(["", ".000", ".999", ".5"])}${rng.pick(sfx)}`);
  for (let i = 0; i < 200; i++) starts.push(`${rng.bool(0.9) ? rng.int(1976, 2036) : rng.int(100, 9000)}:${p2(rng.int(1, 12))}:${p2(rng.int(1, 28))} ${p2(rng.int(0, 23))}:${p2(rng.int(0, 59))}:${p2(rng.int(0, 59))}${rng.pick(["", ".000", ".999", ".007"])}${rng.pick(sfx)}`);
  const rounds = job.thorough ? 12 : 2;
  for (let r = 0; r < rounds; r++)
    for (const s of starts) {
      let x = rng.bool(0.1) ? millis() : ExifDateTime.from(s);
      const len = job.thorough ? 8 : 4;
      for (let i = 0; x != null && i < len; i++) {
        const k = rng.int(0, 9);
        if (k <= 3) x = setzone(x);
        else if (k <= 6) x = plus(x);
        else if (k === 7) over(x);
        else if (k === 8) match(x);
        else x = parseJSON(JSON.stringify(x));
        if (x == null || x.year < 3 || x.year > 9990) break;
      }
    }
  const now = Date.now;
  for (let i = 0; i < (job.thorough ? 4000 : 400); i++) {
    const [y, m, d] = rng.pick(edges);
    const at = Date.UTC(y, m - 1, d, rng.int(0, 23), 5);
    Date.now = () => at;
    const off = (z) => offsetAt(z, at);
    const text = `${p2(rng.int(0, 23))}:${p2(rng.int(0, 59))}:${p2(rng.int(0, 59))}${rng.pick(["", ".000", ".999"])}${rng.pick(sfx)}`;
    let x = ExifTime.fromEXIF(text);
    for (let k = 0; k < 2 && x != null; k++) {
      const a = O.time(x, off);
      const keep = rng.pick([undefined, undefined, true, false]);
      // conversions between the offsets of fixed zones, only: others depend on the day
      const declare = keep ?? !a.hasZone;
      if (!declare && (!a.hasZone || isNamed(a.zone))) break;
      const [z, name] = declare && rng.bool(0.3) ? (([n]) => [n, n])([rng.pick(named)]) : (([f, n]) => [f === "Z" ? "UTC" : f, n])(rng.pick(fixed));
      const b = x.setZone(z, keep == null ? undefined : { keepLocalTime: keep });
      events.push({ op: "tset", a, a2: O.time(x, off), b: O.time(b, off), keep: tri(keep), name });
      x = b;
    }
    Date.now = now;
  }
  return events;
};
