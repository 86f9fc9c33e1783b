"use strict";
// Events for P15: texts parsed, written and parsed again.
module.exports = ({ job, rng, req, offsetAt, instantsOf, O }) => {
  const { ExifDateTime } = req("ExifDateTime.js");
  const { ExifDate } = req("ExifDate.js");
  const { ExifTime } = req("ExifTime.js");
  const { parseJSON } = req("JSON.js");
  const rows = (k) => job.rows.filter((r) => r.k === k).map((r) => r.v);
  const [dates, times, fracs, dfs, lfs, yfs] = ["date", "time", "frac", "df", "lf", "yf"].map(rows);
  const events = [];
  const attempt = (f) => { try { return f(); } catch (e) { return { thrown: String(e) }; } };
  const p2 = (n) => String(n).padStart(2, "0"), p4 = (n) => String(n).padStart(4, "0");
  const ms3 = (q) => (q.length === 0 ? -1 : 100 * q[0] + 10 * (q[1] ?? 0) + (q[2] ?? 0));
  const dateText = { "y:MM:dd ": (f) => `${p4(f.y)}:${p2(f.m)}:${p2(f.d)} `, "y:M:d ": (f) => `${f.y}:${f.m}:${f.d} `, "y-MM-ddT": (f) => `${p4(f.y)}-${p2(f.m)}-${p2(f.d)}T`, "y-MM-dd ": (f) => `${p4(f.y)}-${p2(f.m)}-${p2(f.d)} `, "y-M-d ": (f) => `${f.y}-${f.m}-${f.d} ` };
  const timeText = (tf, f, q) => `${p2(f.h)}:${p2(f.mi)}` + (tf === "HH:mm" ? "" : ":" + p2(f.s)) + (tf === "HH:mm:ss.u" ? "." + q.join("") : "");
  const mons = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split(" "), wds = "Mon Tue Wed Thu Fri Sat Sun".split(" ");
  const months = "January February March April May June July August September October November December".split(" ");
  const zones = [["Z", 0], ["+00:00", 0], ["+08:00", 28800], ["-03:30", -12600], ["+0530", 19800], ["-11:00", -39600], ["+14:00", 50400], ["+05:45", 20700], ["-08:00", -28800], ["+01", 3600]];
  const defs = [["UTC", 0], ["UTC+8", 28800], ["UTC-3:30", -12600], "America/Los_Angeles", "Europe/London", "Asia/Kathmandu", "Australia/Lord_Howe", "Pacific/Apia"];
  const wall = (f) => { const d = new Date(0); d.setUTCFullYear(f.y, f.m - 1, f.d); d.setUTCHours(f.h, f.mi, f.s, Math.max(0, f.ms)); return d.getTime(); };
  const zoneFor = (f) => {
    const k = rng.int(0, 3);
    if (k <= 1) return { kind: "none", text: "", name: "", secs: [] };
    if (k === 2) { const [text, sec] = rng.pick(zones); return { kind: "text", text, name: "", secs: [sec] }; }
    const d = rng.pick(defs);
    if (Array.isArray(d)) return { kind: "def", text: "", name: d[0], secs: [d[1]] };
    if (f.y < 1975 || f.y > 2100 || f.h > 23) return { kind: "none", text: "", name: "", secs: [] };
    const w = wall(f), ins = instantsOf(d, w);
    // a time that the zone's clocks skip is not a time of that zone
    return ins.length === 0 ? { kind: "none", text: "", name: "", secs: [] } : { kind: "def", text: "", name: d, secs: ins.map((i) => Math.round((w - i) / 1000)) };
  };
  const trips = (x) => {
    const r = O.dt(x);
    if (!r.ok) return { res: r, rexif: r, riso: r, json: r };
    return { res: r, rexif: O.dt(ExifDateTime.from(r.exif)), riso: O.dt(ExifDateTime.from(r.iso)), json: O.dt(parseJSON(JSON.stringify(x))) };
  };
  const parse = (df, tf, date, time, frac, via) => {
    const q = tf === "HH:mm:ss.u" ? (frac.length ? frac : [5]) : [];
    const f = { ...date, ...time, ms: ms3(q) };
    if (tf === "HH:mm") f.s = 0;
    const z = zoneFor(f);
    const text = dateText[df](f) + timeText(tf, f, q) + z.text;
    const def = z.kind === "def" ? z.name : undefined;
    const x = via === "from" ? ExifDateTime.from(text, def) : via === "fromEXIF" ? ExifDateTime.fromEXIF(text, def) : via === "fromISO" ? ExifDateTime.fromISO(text, def) : ExifDateTime.fromExifStrict(text, def);
    events.push({ op: "parse", via, df, tf, f, frac: q, z, text, nope: via === "fromISO" && df.includes(":") && x == null, ...trips(x) });
  };
  const VIA = ["from", "fromEXIF", "fromExifStrict", "fromISO"], TF = ["HH:mm", "HH:mm:ss", "HH:mm:ss.u"];
  for (const d of dates) parse(rng.pick(dfs), rng.pick(TF), d, rng.pick(times.filter((t) => t.h < 24 && t.mi < 60 && t.s < 60)), rng.pick(fracs), "from");
  const real = dates.filter((d) => d.m >= 1 && d.m <= 12 && d.d >= 1 && d.d <= 28 && d.y >= 2);
  for (const t of times) for (const tf of TF) parse(rng.pick(dfs), tf, rng.pick(real), t, rng.pick(fracs), "from");
  for (const df of dfs) for (const via of VIA) for (const fr of fracs) parse(df, rng.pick(TF), rng.pick(real), rng.pick(times), fr, via);
  for (let ms = 0; ms < 1000; ms++) if (job.first) parse("y:MM:dd ", "HH:mm:ss.u", { y: 2021, m: 3, d: 14 }, { h: 2, mi: 30, s: ms % 60 }, [Math.floor(ms / 100), Math.floor(ms / 10) % 10, ms % 10], "from");
  // days on which clocks change, in the system's zone or the caller's
  const dst = [[2021, 3, 14], [2021, 11, 7], [2021, 3, 28], [2021, 10, 31], [2021, 4, 4], [2021, 10, 3], [2011, 12, 30], [1986, 1, 1], [2000, 2, 29], [1999, 12, 31]];
  for (const [y, m, d] of dst) for (const h of [0, 1, 2, 3]) for (const mi of [0, 15, 30]) parse(rng.pick(dfs), rng.pick(TF), { y, m, d }, { h, mi, s: 0 }, rng.pick(fracs), rng.pick(VIA));
  const n = job.thorough ? 6000 : 700;
  const anyDate = () => { const d = new Date(rng.int(-1500000, 3500000) * 1e6 * (rng.bool(0.1) ? 30 : 1)); return { y: Math.min(9999, Math.max(2, d.getUTCFullYear())), m: d.getUTCMonth() + 1, d: rng.bool(0.9) ? Math.min(28, d.getUTCDate()) : rng.int(28, 31) }; };
  const anyTime = () => ({ h: rng.int(0, 23), mi: rng.int(0, 59), s: rng.int(0, 59) });
  for (let i = 0; i < n; i++) parse(rng.pick(dfs), rng.pick(TF), anyDate(), anyTime(), rng.bool() ? rng.pick(fracs) : [rng.int(0, 9), rng.int(0, 9), rng.int(0, 9)], rng.pick(VIA));
  const looseText = (lf, f, wd) => lf.replace(/MMM|ccc|HH|mm|ss|\bd\b|\by\b|\bh\b|\ba\b/g, (t) => ({ MMM: mons[f.m - 1], ccc: wds[wd - 1], HH: p2(f.h), mm: p2(f.mi), ss: p2(f.s), d: f.d, y: f.y, h: ((f.h + 11) % 12) + 1, a: f.h < 12 ? "AM" : "PM" })[t]);
  const loose = (lf, date, time) => {
    const f = { ...date, ...time, ms: -1 };
    const real = new Date(wall(f)).getUTCDay() || 7;
    const wd = rng.bool(0.8) ? real : rng.int(1, 7);
    const k = rng.int(0, 3);
    let z = { kind: "none", text: "", name: "", secs: [] };
    if (k === 0) z = zoneFor(f);
    // an offset directly behind a year or "AM" is not a form in use
    if (z.kind === "text") z = { kind: "text", text: " PDT", name: "", secs: [-25200] };
    const text = looseText(lf, f, wd) + z.text;
    const def = z.kind === "def" ? z.name : undefined;
    const x = rng.bool() ? ExifDateTime.from(text, def) : ExifDateTime.fromEXIF(text, def);
    events.push({ op: "loose", lf, f, wd, z, text, ...trips(x) });
  };
  const named = dates.filter((d) => d.m >= 1 && d.m <= 12 && d.d >= 1 && d.y >= 1000);
  for (const lf of lfs) for (let i = 0; i < (job.thorough ? 300 : 60); i++) loose(lf, rng.bool() ? rng.pick(named) : { ...anyDate(), y: rng.int(1900, 2100) }, lf.includes("h:") || rng.bool(0.7) ? anyTime() : rng.pick(times));
  const num = (t) => [...(t.match(/\d+/g) ?? []).map(Number).filter((x) => x < 2e9), ...mons.flatMap((m, i) => (new RegExp(m, "i").test(t) ? [i + 1] : []))];
  const mutate = (t) => {
    let s = t;
    for (let k = rng.int(1, 3); k > 0; k--) {
      const i = rng.int(0, s.length);
      const r = rng.int(0, 5);
      if (r === 0) s = s.slice(0, i) + s.slice(i + 1);
      else if (r === 1) s = s.slice(0, i) + rng.pick([..."0123456789: -.,T/+Z", " ", "AM", "Jan", "12"]) + s.slice(i);
      else if (r === 2) s = s.slice(0, i) + rng.pick([..."0123456789"]) + s.slice(i + 1);
      else if (r === 3) s = s.slice(0, i);
      else if (r === 4) s = s + rng.pick([" ", "x", "0", " foo", "\u0000", "Z", "+25:00", "-00:61", ":00", ".", " 2020"]);
      else s = rng.pick([" ", "-", "0", "x", "+"]) + s;
    }
    return s;
  };
  const texts = events.map((e) => e.text);
  for (let i = 0; i < n * 2; i++) {
    const text = mutate(rng.pick(texts));
    if (/24/.test(text)) continue;
    const x = attempt(() => ExifDateTime.from(text));
    if (x?.thrown) { events.push({ op: "rj", a: "no throw", b: x.thrown, text }); continue; }
    events.push({ op: "fuzz", text, nums: num(text), ampm: /[ap]\.?m/i.test(text), ...trips(x) });
  }
  // dates
  const dtrips = (x) => {
    const res = O.date(x);
    if (!res.ok) return { res, rexif: res, riso: res, json: res };
    return { res, rexif: O.date(ExifDate.from(res.exif)), riso: O.date(ExifDate.from(res.iso)), json: O.date(parseJSON(JSON.stringify(x))) };
  };
  const dayText = (yf, f) => yf.replace(/y|MMMM|MMM|MM|M|dd|d/g, (t) => ({ y: /MM|^y$/.test(yf) && !/ /.test(yf) ? p4(f.y) : f.y, MMMM: months[f.m - 1], MMM: mons[f.m - 1], MM: p2(f.m), M: f.m, dd: p2(f.d), d: f.d })[t]);
  const day = (yf, f) => {
    if (yf.includes("MMM") && (f.m < 1 || f.m > 12)) return;
    const text = dayText(yf, f);
    const full = !["y:MM", "y-MM", "y:M", "y-M", "y"].includes(yf);
    events.push({ op: "day", yf, f, text, ...dtrips(full && rng.bool(0.3) ? ExifDate.fromEXIF(text) : ExifDate.from(text)) });
  };
  if (job.first || job.thorough) for (const yf of yfs) for (const f of dates) day(yf, f);
  for (let i = 0; i < n; i++) day(rng.pick(yfs), anyDate());
  const dtexts = [...events.filter((e) => e.op === "day").map((e) => e.text), "20:30:40", "12:00", "00", "01", "20200102", "2020-W05-1", "2020-032", "T12", "10:11:12Z"];
  for (let i = 0; i < n; i++) {
    const text = mutate(rng.pick(dtexts));
    const x = attempt(() => ExifDate.from(text));
    events.push(x?.thrown ? { op: "rj", a: "no throw", b: x.thrown, text } : { op: "dayfuzz", text, nums: num(text), ...dtrips(x) });
  }
  // times of day, on ordinary days and on days when clocks change
  const now = Date.now;
  const ttrips = (x, at) => {
    const off = (z) => offsetAt(z, at);
    const res = O.time(x, off);
    if (!res.ok) return { res, rexif: res, json: res };
    return { res, rexif: O.time(ExifTime.fromEXIF(res.exif), off), json: O.time(parseJSON(JSON.stringify(x)), off) };
  };
  const ttexts = [];
  const time = (tf, t, frac) => {
    const q = tf === "HH:mm:ss.u" ? (frac.length ? frac : [7]) : [];
    const f = { ...t, ms: ms3(q) };
    if (tf === "HH:mm") f.s = 0;
    const [y, m, d] = rng.pick(dst);
    const at = Date.UTC(y, m - 1, d, rng.int(0, 23), 5);
    Date.now = () => at;
    const k = rng.int(0, 2);
    let z = { kind: "none", text: "", name: "", secs: [] };
    if (k === 1) { const [text, sec] = rng.pick(zones); z = { kind: "text", text, name: "", secs: [sec] }; }
    if (k === 2) { const d = rng.pick(defs); const name = Array.isArray(d) ? d[0] : d; z = { kind: "def", text: "", name, secs: [offsetAt(name, at)] }; }
    const text = timeText(tf, f, q) + z.text;
    ttexts.push(text);
    events.push({ op: "time", tf, f, frac: q, z, text, ...ttrips(ExifTime.fromEXIF(text, z.kind === "def" ? z.name : undefined), at) });
    Date.now = now;
  };
  for (const t of times) for (const tf of TF) time(tf, t, rng.pick(fracs));
  for (let i = 0; i < n; i++) time(rng.pick(TF), anyTime(), rng.pick(fracs));
  for (let i = 0; i < n; i++) {
    const text = mutate(rng.pick(ttexts));
    if (/24/.test(text)) continue;
    const at = now();
    const x = attempt(() => ExifTime.fromEXIF(text));
    events.push(x?.thrown ? { op: "rj", a: "no throw", b: x.thrown, text } : { op: "timefuzz", text, nums: num(text), ...ttrips(x, at) });
  }
  // values that were not parsed, with any of the optional parts missing
  const { BinaryField } = req("BinaryField.js");
  const maybe = (x) => (rng.bool(0.3) ? undefined : x);
  for (let i = 0; i < n; i++) {
    const d = anyDate(), t = anyTime(), z = rng.pick([undefined, ["UTC", 0], ["UTC+5:30", 330], ["America/New_York", -300], ["UTC-8", -480]]);
    const raw = maybe(rng.pick(["raw", "", "2020:01:02"])), ms = maybe(rng.pick([0, 7, 999])), inf = maybe(rng.bool());
    const x = [
      () => new ExifDateTime(d.y, d.m, d.d, t.h, t.mi, t.s, ms, z?.[1], raw, z == null ? undefined : maybe(z[0]), inf),
      () => new ExifDate(d.y, maybe(d.m), undefined, raw),
      () => new ExifDate(d.y, d.m, maybe(d.d), raw),
      () => new ExifTime(t.h, t.mi, t.s, ms, raw, z?.[0], inf),
      () => ExifDateTime.fromMillis(rng.int(-1000000, 2000000) * 1e6 + rng.int(0, 999), { zone: rng.pick([undefined, "UTC", "Asia/Tokyo", "UTC+3"]) }),
      () => ExifDateTime.from(rng.pick(texts))?.setZone(rng.pick(["UTC", "Europe/Paris", "UTC-3"]), { keepLocalTime: rng.bool(), inferredZone: maybe(rng.bool()) }),
      () => new BinaryField(rng.int(0, 5000), rng.pick(["(Binary data 12 bytes, use -b option to extract)", "x", ""])),
    ][rng.int(0, 6)]();
    if (x == null) continue;
    const bag = rng.bool() ? x : { a: [x], b: { c: x } };
    events.push({ op: "rj", a: O.canon(bag), b: O.canon(parseJSON(JSON.stringify(bag))), text: JSON.stringify(bag) });
  }
  return events;
};
