"use strict";
// P14: texts of coordinates and positions, against spec/Coord.tla.
const { generate, judge } = require("../lib/tlc");
exports.assumptions = ["values are compared in millionths of a degree; exact ties of the rounding may go either way", "pairs of plain decimals name no axis and are not range checked"];
exports.run = async (ctx) => {
  const { model, rows } = await generate("MC_Coord");
  ctx.addModel(model);
  const { rng } = ctx;
  const C = ctx.req("CoordinateParser.js");
  const axis = { N: "lat", S: "lat", E: "lon", W: "lon" };
  const NONE = { ok: false, u: 0, ex: false, dir: "none" };
  const num = (x, dir) => { const u = Math.round(x * 1e6); return { ok: true, u: Object.is(u, -0) ? 0 : u, ex: Number.isFinite(x) && Math.abs(x * 1e6 - u) < 1e-3, dir: dir == null ? "none" : axis[dir] ?? "?" }; };
  const one = (t) => { try { const r = C.parseCoordinate(t); return num(r.decimal, r.direction); } catch { return NONE; } };
  const dec = (t) => { try { const r = C.parseDecimalCoordinate(t); return r == null ? NONE : num(r.decimal, r.direction); } catch { return NONE; } };
  const two = (t) => { try { const r = C.parseCoordinates(t); return { ok: true, lat: num(r.latitude), lon: num(r.longitude) }; } catch { return { ok: false, lat: NONE, lon: NONE }; } };
  const d = (n, f) => String(n) + (f.length ? "." + f.join("") : "");
  const text = (c) => (c.neg ? "-" : "") + { plain: () => d(c.deg, c.frac), D: () => d(c.deg, c.frac) + c.sp + c.ds, DM: () => c.deg + c.sp + c.ds + c.sp + d(c.min, c.frac) + c.ms, DMS: () => c.deg + c.sp + c.ds + c.sp + c.min + c.ms + c.sp + d(c.sec, c.frac) + c.ss }[c.fmt]() + (c.dir === "" ? "" : c.sp + c.dir) + c.tail;
  const dress = (c) => ({ ...c, ds: rng.pick(["°", "deg", "DEG", " deg", "Deg"]), ms: rng.pick(["'", "′"]), ss: rng.pick(['"', "″"]), sp: rng.pick(["", " "]), dir: rng.bool(0.2) ? c.dir.toLowerCase() : c.dir });
  const tails = ["", "", "", " ", ",", ", ", "x", " 5", " 12", "°", " N", "'", ".", "1", " foo", "\n7", "deg", "N", " S", "-", "e5"];
  const events = [];
  const pushOne = (c0, tail) => {
    const c = { ...c0, tail };
    // these continue the number or the coordinate instead of following it
    if (c.fmt === "plain" && /^[.\de°d]|^\s*deg/i.test(tail)) return;
    if (c.dir === "" && /^ ?[NS]$/.test(tail)) return;
    if (c.fmt !== "plain" && c.dir === "" && tail.startsWith(c.fmt === "D" ? "°" : "'")) return;
    const t = text(c);
    const pad = rng.bool(0.1) ? rng.pick([" ", "  ", "\t", "\n"]) : ""; // surrounding whitespace means nothing
    events.push({ op: "one", c, text: t, pad, must: tail === "", res: one(pad + t + pad), dec: dec(pad + t + pad) });
  };
  for (const c of rows) pushOne(dress(c), "");
  for (const c of rng.sample(rows, ctx.thorough ? rows.length : 3000)) pushOne(dress(c), rng.pick(tails));
  const digits = (n) => Array.from({ length: n }, () => rng.int(0, 9));
  const any = () => {
    const fmt = rng.pick(["plain", "D", "DM", "DMS"]);
    return dress({ fmt, neg: rng.bool(0.3), deg: rng.pick([0, 0, rng.int(0, 95), rng.int(0, 185)]), min: fmt === "DM" || fmt === "DMS" ? rng.int(0, 61) : 0, sec: fmt === "DMS" ? rng.int(0, 61) : 0, frac: digits(rng.int(0, { plain: 8, D: 8, DM: 4, DMS: 3 }[fmt])), dir: fmt === "plain" ? "" : rng.pick(["", "N", "S", "E", "W"]), tail: "" });
  };
  const N = ctx.thorough ? 60000 : 8000;
  for (let i = 0; i < N; i++) pushOne(any(), rng.pick(tails));
  for (let i = 0; i < N; i++) {
    let a = rng.bool() ? any() : dress(rng.pick(rows)), b = rng.bool() ? any() : dress(rng.pick(rows));
    if (rng.bool(0.6)) { a.dir = rng.pick(["N", "S"]); b.dir = rng.pick(["E", "W"]); if (a.fmt === "plain") a.fmt = "D"; if (b.fmt === "plain") b.fmt = "D"; if (rng.bool(0.3)) [a, b] = [b, a]; }
    if (rng.bool(0.2)) { a = { ...a, fmt: "plain", dir: "", min: 0, sec: 0 }; b = { ...b, fmt: "plain", dir: "", min: 0, sec: 0 }; }
    if ((a.fmt === "plain") !== (b.fmt === "plain") && a.fmt === "plain") continue;
    a = { ...a, tail: "" }; b = { ...b, tail: rng.bool(0.9) ? "" : rng.pick(["x", " 5", "°", ",", ", 12"]) };
    if (b.fmt === "plain" && /^[.\d°]/.test(b.tail)) b.tail = "x";
    if (b.dir === "" && b.fmt === "D" && b.tail === "°") b.tail = "x";
    const plain = a.fmt === "plain" && b.fmt === "plain";
    const sep = rng.pick(plain ? [", ", ",", " ", "  ", ";", "/"] : a.fmt === "DMS" ? [", ", ",", " "] : [" "]);
    if (plain && /[;/]/.test(sep)) { const t = text(a) + sep + text(b); events.push({ op: "two", a: { ...a, tail: sep }, b, sep: "", text: t, must: false, res: two(t) }); continue; }
    const t = text(a) + sep + text(b);
    events.push({ op: "two", a, b, sep, text: t, must: a.dir !== "" || plain, res: two(t) });
  }
  // fuzz: the coordinate that a mutated text consists of, if any
  const shape = /^\s*(-?)(\d{1,3})(?:\.(\d{1,8}))?\s*(?:(?:°|deg)\s*(?:(\d{1,2})(?:\.(\d{1,4}))?\s*['′]\s*(?:(\d{1,2})(?:\.(\d{1,3}))?\s*["″]\s*)?)?([NSEW])?)?[\s,]*$/i;
  const read = (t) => {
    const m = shape.exec(t);
    const z = { fmt: "plain", neg: false, deg: 0, min: 0, sec: 0, frac: [], dir: "", ds: "", ms: "", ss: "", sp: "", tail: "" };
    if (m == null) return [false, z];
    const [, neg, deg, df, min, mf, sec, sf, dir] = m;
    const fmt = sec != null ? "DMS" : min != null ? "DM" : /°|deg/i.test(t) ? "D" : "plain";
    if ((df && fmt.startsWith("DM")) || (mf && fmt === "DMS")) return [false, z];
    return [true, { ...z, fmt, neg: neg === "-", deg: Number(deg), min: Number(min ?? 0), sec: Number(sec ?? 0), frac: [...(df ?? mf ?? sf ?? "")].map(Number), dir: dir ?? "" }];
  };
  const texts = events.filter((e) => e.op === "one").map((e) => e.text);
  for (let i = 0; i < N; i++) {
    let t = rng.pick(texts);
    for (let k = rng.int(1, 3); k > 0; k--) {
      const p = rng.int(0, t.length), r = rng.int(0, 3);
      const ch = rng.pick([..."0123456789.-°'\"NSEWnsew ,x", "deg", " "]);
      t = r === 0 ? t.slice(0, p) + t.slice(p + 1) : r === 1 ? t.slice(0, p) + ch + t.slice(p) : r === 2 ? t.slice(0, p) + ch + t.slice(p + 1) : t + ch;
    }
    if (/\.\d{9}/.test(t) || /\d{4}/.test(t.replace(/\.\d+/g, ""))) continue; // beyond what the specification counts with
    if (/\.\d{5,}\s*['′]|\.\d{4,}\s*["″]|\d{3,}(\.\d+)?\s*['′"″]/.test(t)) continue;
    const [known, c] = read(t);
    events.push({ op: "fuzz", text: t, known, c, res: one(t) });
  }
  const key = (e) => e.op + "|" + e.text;
  for (let i = 0; i < events.length; i += 20000) await judge(ctx, "CoordTrace", events.slice(i, i + 20000), { key });
};
