"use strict";
// P17: zone names and offsets, against spec/Zones.tla.
const { generate, judge } = require("../lib/tlc");
const { knownZone, offsetAt } = require("../lib/intl");

exports.assumptions = [
  "named zones are those of the platform's Intl; their offsets are taken from it",
  "ties between equally near offsets may be resolved either way",
];

exports.run = async (ctx) => {
  const { model, rows } = await generate("MC_Zones");
  ctx.addModel(model);
  const { rng } = ctx;
  const TZ = ctx.req("Timezones.js");
  const { Settings } = ctx.req("Settings.js");
  const { Info } = require(ctx.REPO + "/node_modules/luxon");
  const NONE = { ok: false, name: "", sec: 0 };
  const AT = Date.UTC(2021, 0, 15, 12);
  const zone = (z, at = AT) => (z == null ? NONE : { ok: true, name: String(z.name), sec: Math.round(z.offset(at) * 60) });
  const norm = (x, at) => zone(TZ.normalizeZone(x), at);
  const src = (s) => {
    if (s == null) return NONE;
    const z = s.zone === s.tz ? TZ.normalizeZone(s.zone) : undefined;
    return { ok: true, name: String(s.zone), sec: z == null ? 99999 : Math.round(z.offset(AT) * 60) };
  };
  const state = () => ({
    arch: Settings.allowArchaicTimezoneOffsets.value, baker: Settings.allowBakerIslandTime.value, tol: Settings.maxValidOffsetMinutes.value,
    abbr: Object.entries(Settings.tzAbbreviationOffsets.value).map(([k, min]) => ({ k, min })),
  });
  let st = state();
  const events = [];
  const change = () => {
    const k = rng.int(0, 5);
    if (k === 0) Settings.allowArchaicTimezoneOffsets.value = rng.bool();
    if (k === 1) Settings.allowBakerIslandTime.value = rng.bool();
    if (k === 2) Settings.maxValidOffsetMinutes.value = rng.pick([0, 10, 15, 30, 45]);
    if (k === 3) Settings.tzAbbreviationOffsets.value = rng.pick([{}, { CST: -360 }, { IST: 330, PST: -420 }, { XYZ: 100 }, { BST: 60, QQ: 345 }]);
    if (k === 4) Settings.reset();
    if (k === 5) Settings[rng.pick(["allowArchaicTimezoneOffsets", "allowBakerIslandTime", "maxValidOffsetMinutes", "tzAbbreviationOffsets"])].reset();
    st = state();
  };
  const spell = (row) => {
    const uni = row.sp.sign === "-" && rng.bool(0.2);
    const t = uni ? row.text.replace("-", "\u2212") : row.text;
    const res = norm(t);
    const stamp = "2021:01:02 03:04:05" + (rng.bool(0.3) ? ".678" : "");
    // "GMT+8" behind a timestamp is not a form of the library
    const hasEmb = row.sp.pre !== "GMT" && !(row.sp.pre === "" && row.sp.hw === 1 && row.sp.m < 0 && false);
    const emb = TZ.extractZone(stamp + t);
    const sec = (row.sp.sign === "+" ? 1 : -1) * (row.sp.h * 3600 + Math.max(0, row.sp.m) * 60 + Math.max(0, row.sp.s));
    events.push({
      op: "spell", st, sp: row.sp, text: row.text, res, again: res.ok ? norm(res.name) : NONE, ext: src(TZ.extractZone(t)),
      hasEmb, emb: hasEmb ? src(emb) : NONE, left: emb == null || emb.leftovers === stamp, short: TZ.zoneToShortOffset(t),
      equiv: TZ.equivalentZones(t, sec / 60) && TZ.equivalentZones(row.text, t),
    });
  };
  const num = (min) => {
    const res = norm(min);
    const h = min / 60;
    events.push({
      op: "num", st, sec: Math.round(min * 60), res, again: res.ok ? norm(res.name) : NONE, valid: TZ.validTzOffsetMinutes(min), name: TZ.offsetMinutesToZoneName(min) ?? "",
      hasHour: Number.isInteger(h * 4), hour: Number.isInteger(h * 4) ? src(TZ.extractZone(rng.bool() ? h : [h, 3])) : NONE,
    });
  };
  const names = Intl.supportedValuesOf("timeZone");
  const odd = ["Etc/GMT+5", "Etc/GMT-14", "Etc/GMT-3", "Etc/UTC+1", "America/Port-au-Prince", "America/Blanc-Sablon", "W-SU", "GB-Eire", "GB", "NZ", "NZ-CHAT", "PST8PDT", "WET", "Japan", "Asia/Ust-Nera", "Africa/Porto-Novo",
    "America/Argentina/ComodRivadavia", "America/North_Dakota/New_Salem", "Antarctica/DumontDUrville"];
  const nonsense = ["America/Atlantis", "Europe/Gotham", "Foo/Bar", "local", "system", "default", "Local", "SYSTEM", "invalid", "none", "unknown", "zone", "Asia/", "XX", "A_B", "Mars/Phobos-Base"];
  const iana = (text) => {
    const at = rng.int(Date.UTC(1980, 0, 1) / 1e6, Date.UTC(2030, 0, 1) / 1e6) * 1e6;
    const known = knownZone(text) && !/^(utc|gmt|z|zulu|default|local|system|Etc\/UTC)$/i.test(text);
    const res = norm(text, at);
    events.push({ op: "iana", text, known, sec: known ? offsetAt(text, at) : 0, res, again: res.ok ? norm(res.name, at) : NONE, short: TZ.zoneToShortOffset(text, at) });
  };
  const words = ["Zurich", "New Zealand", "New Zealand Standard Time", "AZ", "Zone 5", "Zebra", "unknown", "Local", "system", "-", "+", "UTC+", "+a", "12:00", "2020", "GMT 5", "five", "0x5", "+1:2", "+05:0", "UTCC", "(not set)", "No", "+05:60", "-03:75", "+5:99", "UTC+05:90"];
  const word = (t) => events.push({ op: "word", text: t, res: norm(t), ext: src(TZ.extractZone(t)) });
  const utcs = ["UTC", "GMT", "Z", "Zulu", "zulu", "utc", "gmt", "z", "+00:00", "-00:00", "+0000", "UTC+0", "GMT-0", "UTC+00:00", "+0", "-0", "\u221200:00", "Etc/UTC", 0, -0];
  const utc = (t) => {
    const res = norm(t);
    events.push({ op: "utc", text: String(t), res, again: norm(res.name), ext: src(TZ.extractZone(t)) });
  };
  const pool = ["UTC", "+05:30", "UTC+5:30", 330, "Asia/Kolkata", "America/New_York", "-05:00", "-04:00", "Etc/GMT+5", "invalid", "+20:00", "-10:30", "-12:00", "Z", "Europe/London", "+01:00", 0, "local"];
  const equiv = () => {
    const at = rng.int(Date.UTC(1990, 0, 1) / 1e6, Date.UTC(2030, 0, 1) / 1e6) * 1e6;
    const side = () => {
      let x = rng.bool(0.3) ? rng.pick(rows).text : rng.bool(0.2) ? rng.pick(names) : rng.pick(pool);
      const m = typeof x === "string" && /^(?:UTC|GMT)?([+-])(\d{1,2}):?(\d\d)?(?::(\d\d))?$/.exec(x);
      let r;
      if (typeof x === "number") r = { ok: true, sec: x * 60 };
      else if (m) r = { ok: norm(x).ok, sec: (m[1] === "-" ? -1 : 1) * (m[2] * 3600 + (m[3] ?? 0) * 60 + Number(m[4] ?? 0)) };
      else if (/^(UTC|Z)$/.test(x)) r = { ok: true, sec: 0 };
      else r = knownZone(x) && x !== "local" ? { ok: true, sec: offsetAt(x, at) } : { ok: false, sec: 0 };
      if (rng.bool(0.1) && typeof x === "string" && r.ok && !m && x !== "Z") x = Info.normalizeZone(x);
      return [x, r];
    };
    const [[a, ar], [b, br]] = [side(), side()];
    events.push({ op: "equiv", text: String(a) + "~" + String(b), a: ar, b: br, res: TZ.equivalentZones(a, b, at) });
  };
  const infer = () => {
    const d = rng.bool(0.5) ? rng.int(-800, 900) * 60 : rng.int(-47000, 54000);
    const own = rng.bool(0.3);
    const tol = own ? rng.pick([0, 1, 14, 15, 30, 90]) : st.tol;
    const near = own ? TZ.inferLikelyOffsetMinutes(d / 60, tol) : TZ.inferLikelyOffsetMinutes(d / 60);
    // whole seconds in minutes are not exact: stay clear of the limits
    events.push({ op: "infer", st, d, tol, near: { ok: near != null, sec: Math.round((near ?? 0) * 60) } });
  };
  const keys = ["UTC", "GMT", "NST", "NDT", "ADT", "EST", "EDT", "CDT", "MST", "MDT", "PST", "PDT", "AKST", "AKDT", "HST", "WET", "WEST", "CET", "CEST", "EET", "EEST", "MSK", "TRT", "WAT", "CAT", "SAST", "EAT", "IRST", "IRDT", "AFT", "PKT", "NPT", "MMT", "ICT", "SGT", "HKT", "PHT", "JST", "KST", "AWST", "ACST", "ACDT", "AEST", "AEDT", "NZST", "NZDT", "CHAST", "CHADT", "COT", "PET", "VET", "BOT", "CLT", "CLST", "ART", "BRT", "UYT", "CVT", "AZOT", "MUT", "SCT",
    "CST", "IST", "BST", "AST", "GST", "AMT", "SST", "WST", "XYZ", "QQ", "ABC", "DST"].filter((k) => k !== "UTC");
  const abbr = (k) => {
    const stamp = "2021:07:02 03:04:05";
    const t = rng.bool(0.2) ? k.toLowerCase() : k;
    const row = rng.pick(rows.filter((r) => r.sp.pre === "" && r.sp.hw === 2 && r.sp.m >= 0 && r.sp.m < 60 && r.sp.s < 0 && r.sp.h <= 14));
    const hasOff = rng.bool(0.3);
    const x = TZ.extractZone(stamp + (hasOff ? row.text : "") + " " + t);
    events.push({ op: "abbr", st, k, hasOff, off: (row.sp.sign === "+" ? 1 : -1) * (row.sp.h * 3600 + row.sp.m * 60), ext: src(x), left: x == null || x.leftovers === stamp });
  };
  // exhaustively at the defaults, then along histories of settings changes
  Settings.reset(); st = state();
  for (const r of rows) spell(r);
  for (let m = -900; m <= 900; m++) num(m);
  for (const n of [...names, ...odd, ...nonsense]) iana(n);
  for (const w of words) word(w);
  for (const u of utcs) utc(u);
  for (const k of keys) abbr(k);
  Settings.allowArchaicTimezoneOffsets.value = true; Settings.allowBakerIslandTime.value = true; st = state();
  for (const r of rows) spell(r);
  for (let m = -900; m <= 900; m++) num(m);
  num(-25.35);
  Settings.reset(); st = state();
  const steps = ctx.thorough ? 200000 : 20000;
  for (let i = 0; i < steps; i++) {
    if (rng.bool(0.25)) change();
    const k = rng.int(0, 9);
    if (k <= 2) spell(rng.pick(rows));
    else if (k <= 4) num(rng.bool(0.2) ? rng.pick([-630, -720, 291, 440, 20, 345, 30.5, -1, -25]) : rng.int(-900, 900));
    else if (k === 5) iana(rng.pick(rng.bool(0.3) ? [...odd, ...nonsense] : names));
    else if (k === 6) equiv();
    else if (k === 7) infer();
    else if (k === 8) abbr(rng.pick(keys));
    else rng.bool() ? utc(rng.pick(utcs)) : word(rng.pick(words));
  }
  Settings.reset();
  const key = (e) => (e.op === "spell" && e.st.arch && /-00?:?25:21$/.test(e.text) ? "spell|-00:25:21" : e.op === "num" && e.sec === -1521 ? "spell|-00:25:21" : e.op + "|" + JSON.stringify([e.text ?? e.sec ?? e.k ?? e.d, e.st ?? ""]));
  for (let i = 0; i < events.length; i += 20000) await judge(ctx, "ZonesTrace", events.slice(i, i + 20000), { key });
};
