"use strict";
// Files with sources of time zones (spec/ZoneSource.tla), as ExifTool reports them.
const two = (n) => String(n).padStart(2, "0");
const CAPTURED = ["SubSecDateTimeOriginal", "SubSecCreateDate", "DateTimeOriginal", "CreateDate", "MediaCreateDate", "CreationDate", "DateTimeCreated", "TimeCreated"];
const OFFSETS = [0, 60, 120, 180, 210, 240, 270, 300, 330, 345, 390, 480, 525, 540, 570, 600, 630, 660, 720, 765, 780, 840, -60, -120, -150, -180, -210, -240, -300, -360, -420, -480, -540, -570, -600, -660];
const NAMED = ["America/New_York", "America/Los_Angeles", "Asia/Kolkata", "America/Port-au-Prince", "Europe/Paris", "Australia/Lord_Howe", "Asia/Tokyo", "America/Argentina/Buenos_Aires", "Pacific/Auckland", "Africa/Casablanca"];
const offText = (min) => (min < 0 ? "-" : "+") + two(Math.floor(Math.abs(min) / 60)) + ":" + two(Math.abs(min) % 60);
const dateText = (f) => `${f[0]}:${two(f[1])}:${two(f[2])}`;
const timeText = (f) => `${two(f[3])}:${two(f[4])}:${two(f[5])}` + (f[6] ? "." + String(f[6]).padStart(3, "0") : "");
const toMs = (f) => Date.UTC(f[0], f[1] - 1, f[2], f[3], f[4], f[5], f[6]);
const fromMs = (ms) => { const d = new Date(ms); return [d.getUTCFullYear(), d.getUTCMonth() + 1, d.getUTCDate(), d.getUTCHours(), d.getUTCMinutes(), d.getUTCSeconds(), d.getUTCMilliseconds()]; };
module.exports = (rng) => {
  const none = { k: "none", zone: "", sec: 0 };
  const fixed = () => ({ k: "fixed", zone: "", sec: rng.pick(OFFSETS) * 60 });
  const named = () => ({ k: "named", zone: rng.pick(NAMED), sec: 0 });
  const bad = { k: "bad", zone: "", sec: 0 };
  const clock = () => fromMs(Date.UTC(rng.int(1995, 2035), rng.int(0, 11), rng.int(1, 31), rng.int(0, 23), rng.int(0, 59), rng.int(0, 59)));
  /** a random x */
  function random() {
    const p = rng.pick([0.1, 0.3, 0.6]); // how likely each source is there
    const zone = () => (rng.bool(p) ? rng.pick([fixed, named, () => bad])() : none);
    const base = clock();
    const off = rng.pick(OFFSETS);
    const stamps = [];
    for (const tag of [...CAPTURED, "ModifyDate"]) {
      if (!rng.bool(0.3)) continue;
      const k = rng.pick(["dt", "dt", "dt", "junk", tag === "TimeCreated" ? "time" : "dt"]);
      const f = rng.bool(0.8) ? fromMs(toMs(base) + rng.int(-2, 2) * 1000) : clock();
      stamps.push({ tag, k, f, off: k === "junk" ? 9999 : rng.pick([9999, 9999, 0, rng.pick(OFFSETS)]) });
    }
    const at = () => fromMs(toMs(base) - off * 60000 + rng.pick([0, rng.int(-1790, 1790), rng.int(-4000, 4000), rng.int(-900000, 900000), 864000000]) * 1000);
    const utc = [0, 1, 2, 3].map(() => ({ k: rng.bool(p) ? rng.pick(["utc", "utc", "zoned", "junk"]) : "none", f: at() }));
    const list = rng.bool(0.6) ? CAPTURED : rng.sample([...CAPTURED, "ModifyDate"], rng.int(0, 5));
    const tsOff = rng.pick(OFFSETS);
    return {
      ex: [zone(), zone(), zone(), zone()], nikon: rng.bool(0.2), gps: rng.pick(["none", "ok", "dropped"]), geo: zone(), fn: rng.pick([none, bad, { ...bad, k: "throw" }, named(), fixed()]),
      stamps, utc, ts: rng.bool(0.5) ? { k: "dt", f: fromMs(toMs(at()) + tsOff * 60000), off: tsOff } : { k: "none", f: base, off: 0 },
      video: rng.bool(0.3), optVideo: rng.bool(0.7), optStamps: rng.bool(), list, optTs: rng.bool(), prefer: rng.bool(0.3),
    };
  }
  /** the tags and options of x */
  function build(x) {
    const tags = {};
    const fixedText = (sec) => (sec === 0 ? rng.pick(["+00:00", "Z", "UTC", "-00:00"]) : rng.pick([offText(sec / 60), offText(sec / 60), "UTC" + offText(sec / 60)]));
    const zoneText = (z) => (z.k === "fixed" ? fixedText(z.sec) : z.k === "named" ? z.zone : rng.pick(["foo", "", " ", "Nowhere/City", "+25:00", "undef", "+05:07", "local", "--"]));
    const names = ["TimeZone", "OffsetTimeOriginal", "OffsetTimeDigitized", "TimeZoneOffset"];
    x.ex.forEach((z, i) => {
      if (z.k === "none") return;
      const h = z.sec / 3600;
      if (names[i] === "TimeZoneOffset" && z.k === "fixed" && Number.isInteger(h) && rng.bool(0.8)) tags.TimeZoneOffset = rng.pick([h, [h, h + 1], `${h} ${h - 1}`, `${h} ${h + 1}`]);
      else if (names[i] === "TimeZoneOffset" && z.k === "bad") tags.TimeZoneOffset = rng.pick([99, "x", "", -23, [99]]);
      else tags[names[i]] = zoneText(z);
    });
    if (x.nikon) { tags.Make = rng.pick(["NIKON", "NIKON CORPORATION", "Nikon", "FS-Nikon"]); tags.DaylightSavings = rng.pick(["Yes", true, "yes"]); }
    else if (rng.bool(0.5)) { tags.Make = rng.pick(["NIKON", "Canon", "Nikonos"]); tags.DaylightSavings = tags.Make === "NIKON" ? rng.pick(["No", false, "Unknown"]) : rng.pick(["Yes", true]); }
    const options = {};
    if (x.gps === "ok") { tags.GPSLatitude = 10.5; tags.GPSLongitude = rng.pick([-20.5, 0]); }
    if (x.gps === "dropped") rng.bool() ? ((tags.GPSLatitude = 0), (tags.GPSLongitude = 0)) : ((tags.GPSLatitude = 10), (tags.GPSLongitude = rng.pick([181, -200])));
    if (x.geo.k !== "none") tags.GeolocationTimeZone = zoneText(x.geo);
    options.geoTz = () => { if (x.fn.k === "throw") throw new Error("lookup"); return x.fn.k === "none" ? undefined : x.fn.k === "bad" ? rng.pick(["", "Nowhere/City", "foo"]) : zoneText(x.fn); };
    for (const s of x.stamps) tags[s.tag] = s.k === "junk" ? rng.pick(["foo", "0000:00:00 00:00:00", "2020-01-02", "", "    :  :     :  :  ", "2020:01:02"]) : (s.k === "time" ? "" : dateText(s.f) + " ") + timeText(s.f) + (s.off === 9999 ? "" : s.off === 0 ? rng.pick(["Z", "+00:00"]) : offText(s.off));
    const un = ["GPSDateTime", "DateTimeUTC", "", "SonyDateTime2"];
    x.utc.forEach((u, i) => {
      const tail = u.k === "zoned" ? rng.pick(["+05:00", "-08:00"]) : u.k === "utc" ? rng.pick(["", "Z", i === 0 ? "Z" : ""]) : "";
      if (i === 2) {
        if (u.k === "none") { if (rng.bool(0.2)) tags[rng.pick(["GPSDateStamp", "GPSTimeStamp"])] = ""; }
        else { tags.GPSDateStamp = u.k === "junk" ? rng.pick(["", "foo"]) : dateText(u.f); tags.GPSTimeStamp = timeText(u.f) + (tail === "Z" ? "" : tail); }
      } else if (u.k !== "none") tags[un[i]] = u.k === "junk" ? rng.pick(["foo", "0000:00:00 00:00:00Z", "", "2020:01:02"]) : dateText(u.f) + " " + timeText(u.f) + tail;
    });
    if (x.ts.k !== "none") tags.TimeStamp = dateText(x.ts.f) + " " + timeText(x.ts.f) + (x.ts.off === 0 ? "Z" : offText(x.ts.off));
    if (x.video) tags.MIMEType = rng.pick(["video/mp4", "video/quicktime"]);
    else if (rng.bool()) tags.MIMEType = rng.pick(["image/jpeg", "application/video", "audio/mp4"]);
    Object.assign(options, { defaultVideosToUTC: x.optVideo, inferTimezoneFromDatestamps: x.optStamps, inferTimezoneFromDatestampTags: x.list, inferTimezoneFromTimeStamp: x.optTs, preferTimezoneInferenceFromGps: x.prefer, ignoreZeroZeroLatLon: true });
    return { tags, options };
  }
  return { random, build, clock, dateText, timeText, offText, toMs, fromMs, OFFSETS, NAMED };
};
