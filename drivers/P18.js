"use strict";
// P18: extraction of embedded binaries, against spec/Extract.tla: histories of
// extractions between real files with the real ExifTool, and scripted answers.
const fs = require("node:fs");
const path = require("node:path");
const crypto = require("node:crypto");
const { generate, judge } = require("../lib/tlc");
const { stubbed, settle } = require("../lib/stub");
const { scratch } = require("../lib/build");
const { jpeg } = require("../lib/media");

exports.level = "model_checking";
exports.assumptions = [
  "the embedded values begin with a JPEG signature, as ExifTool itself discards others",
  "unwritable destinations are directories and names below regular files (checks run as root)",
];

const dig = (b) => crypto.createHash("sha1").update(b).digest("hex").slice(0, 12);

/** A TIFF-based raw file (ARW layout) with up to three embedded images. */
function raw({ PreviewImage: preview, ThumbnailImage: thumb, JpgFromRaw: jfr }) {
  const size = (n) => 2 + 12 * n + 4;
  const ifd = (es, next) => {
    const b = Buffer.alloc(size(es.length));
    b.writeUInt16LE(es.length, 0);
    es.forEach(([t, ty, v], i) => {
      const o = 2 + 12 * i;
      b.writeUInt16LE(t, o); b.writeUInt16LE(ty, o + 2); b.writeUInt32LE(1, o + 4);
      if (ty === 3) b.writeUInt16LE(v, o + 8); else b.writeUInt32LE(v, o + 8);
    });
    b.writeUInt32LE(next, 2 + 12 * es.length);
    return b;
  };
  const o1 = 8 + size(1 + (preview ? 2 : 0) + (jfr ? 1 : 0));
  const o2 = o1 + (thumb ? size(3) : 0);
  let p = o2 + (jfr ? size(2) : 0);
  const pos = [preview, thumb, jfr].map((v) => { const r = p; p += v ? v.length : 0; return r; });
  const head = Buffer.from("49492a0008000000", "hex");
  const e0 = [[0x112, 3, 1]];
  if (jfr) e0.push([0x14a, 4, o2]);
  if (preview) e0.push([0x201, 4, pos[0]], [0x202, 4, preview.length]);
  return Buffer.concat([
    head, ifd(e0, thumb ? o1 : 0),
    thumb ? ifd([[0x103, 3, 6], [0x201, 4, pos[1]], [0x202, 4, thumb.length]], 0) : Buffer.alloc(0),
    jfr ? ifd([[0x201, 4, pos[2]], [0x202, 4, jfr.length]], 0) : Buffer.alloc(0),
    ...[preview, thumb, jfr].filter(Boolean),
  ]);
}
const TAGS = ["ThumbnailImage", "PreviewImage", "JpgFromRaw"];

exports.run = async (ctx) => {
  const { rng } = ctx;
  const { model, rows } = await generate("MC_Extract");
  ctx.addModel(model);
  const ops = rows.filter((r) => r.kind === "op").map((r) => r.v);
  const answers = rows.filter((r) => r.kind === "answer").map((r) => r.v);
  const { ExifTool } = ctx.req("ExifTool.js");
  const events = [];
  const root = scratch("p18");

  const noise = (n) => {
    const b = Buffer.alloc(n);
    for (let i = 0; i < n; i++) b[i] = rng.int(0, 255);
    return b;
  };
  const sizes = [1, 2, 3, 4, 60, 61, 1000, 4093, 4096, 8192, 20000, 65533, 65536];
  const image = (n) => Buffer.concat([Buffer.from("ffd8ff", "hex"), noise(n ?? rng.pick(sizes))]);
  // an extracted image that itself embeds a thumbnail is a JPEG written by ExifTool
  const et0 = new ExifTool({ maxProcs: 1 });
  const ets = { no: new ExifTool({ maxProcs: 4 }), yes: new ExifTool({ maxProcs: 2, forceWrite: true }) };
  const minor = new ExifTool({ maxProcs: 1, ignoreMinorErrors: false });
  const plain = Buffer.concat([jpeg.subarray(0, jpeg.length - 2), Buffer.from("00010a0d", "hex"), jpeg.subarray(-2)]);
  const thumbOf = plain;
  const nestedFile = path.join(root, "nested.jpg");
  const thumbFile = path.join(root, "thumb.bin");
  fs.writeFileSync(nestedFile, jpeg);
  fs.writeFileSync(thumbFile, thumbOf);
  await et0.write(nestedFile, {}, { writeArgs: ["-m", "-overwrite_original", "-EXIF:ThumbnailImage<=" + thumbFile] });
  const nested = fs.readFileSync(nestedFile);
  fs.rmSync(nestedFile); fs.rmSync(thumbFile);
  await et0.end();

  let hist = 0;
  const blocksOf = (dir) => [path.join(dir, "dir"), path.join(dir, "plain", "below"), path.join(dir, "plain", "a", "b")];
  /** Lays out a fresh tree; `make` gives the files of names other than the sources. */
  function tree(files) {
    const dir = path.join(root, "h" + ++hist);
    fs.mkdirSync(path.join(dir, "dir"), { recursive: true });
    fs.writeFileSync(path.join(dir, "plain"), "plain file");
    const emb = new Map();
    for (const [n, v] of Object.entries(files)) {
      const body = Buffer.isBuffer(v) ? v : v.body;
      fs.writeFileSync(path.join(dir, n), body);
      if (!Buffer.isBuffer(v)) emb.set(dig(body), Object.entries(v.tags).map(([k, b]) => [k, dig(b)]));
    }
    emb.set(dig(nested), [["ThumbnailImage", dig(thumbOf)]]);
    return { dir, emb: [...emb] };
  }
  const snapshot = (dir) => {
    const r = [];
    const walk = (d) => {
      for (const e of fs.readdirSync(d, { withFileTypes: true })) {
        const p = path.join(d, e.name);
        if (e.isDirectory()) walk(p); else r.push([p, dig(fs.readFileSync(p))]);
      }
    };
    walk(dir);
    return r;
  };
  const cased = (t) => (rng.bool(0.25) ? rng.pick([t.toLowerCase(), t.toUpperCase(), t[0].toLowerCase() + t.slice(1)]) : t);
  const rel = (p) => (rng.bool(0.2) ? path.relative(process.cwd(), p) : p);

  /** Performs one extraction; returns the promise of its outcome. */
  function extract(o) {
    const et = o.minor ? minor : ets[o.instance];
    const opts = o.call === "unset" ? rng.pick([undefined, {}]) : { forceWrite: o.call === "yes" };
    const how = { ThumbnailImage: "extractThumbnail", PreviewImage: "extractPreview", JpgFromRaw: "extractJpgFromRaw" }[o.asked];
    const src = rel(o.src), dest = rel(o.dest);
    return settle(() => (how && rng.bool(0.5) ? et[how](src, dest, opts) : et.extractBinaryTag(o.asked, src, dest, opts)), 60000);
  }
  const buffered = (o) => settle(() => (o.minor ? minor : ets[o.instance]).extractBinaryTagToBuffer(o.asked, rel(o.src)), 60000);

  async function history({ dir, emb }, steps) {
    const start = snapshot(dir);
    const h = [];
    for (const step of steps) {
      const batch = Array.isArray(step) ? step : [step];
      const outs = await Promise.all(batch.map((o) => (o.op === "buffer" ? buffered(o) : extract(o))));
      batch.forEach((o, i) => {
        const quiet = i === batch.length - 1;
        h.push({
          op: o.op, tag: o.tag, asked: String(o.asked), src: o.src, dest: o.dest ?? "", call: o.call ?? "unset", instance: o.instance,
          badtag: o.badtag ?? false, odd: o.odd ?? false,
          st: outs[i].st, got: Buffer.isBuffer(outs[i].v) ? dig(outs[i].v) : "", quiet, seen: quiet ? snapshot(dir) : [],
          why: outs[i].msg ? String(outs[i].msg).slice(0, 200) : "",
        });
      });
    }
    events.push({ op: "history", fs: start, emb, blocked: blocksOf(dir), h });
    fs.rmSync(dir, { recursive: true, force: true });
  }

  // 1. every pair of operations of the model
  const pairs = [];
  for (const a of ops) for (const b of ops) pairs.push([a, b]);
  const chosen = ctx.thorough ? rng.sample(pairs, 4000) : rng.sample(pairs, 420);
  const src = () => {
    const tags = { ThumbnailImage: image(), PreviewImage: nested };
    return { body: raw(tags), tags };
  };
  async function modelPair(seq) {
    const t = tree({ s: src(), e: { body: raw({}), tags: {} }, d2: Buffer.from("already here") });
    // ExifTool knows the raw format by its extension
    for (const n of ["s", "e"]) fs.renameSync(path.join(t.dir, n), path.join(t.dir, n + ".arw"));
    const name = (x) => path.join(t.dir, x === "s" || x === "e" ? x + ".arw" : x === "no" ? "missing.arw" : x);
    const named = { T: "ThumbnailImage", P: "PreviewImage" };
    await history(t, seq.map((o) => {
      // the same effective option, set on the instance instead
      const inst = o.call === "yes" && rng.bool(0.3) ? { call: "unset", instance: "yes" } : o.call === "no" && rng.bool(0.3) ? { call: "no", instance: "yes" } : { call: o.call, instance: "no" };
      return { op: "file", tag: named[o.tag], asked: cased(named[o.tag]), src: name(o.src), dest: name(o.dest), ...inst };
    }));
  }
  // 2. longer histories, with concurrent extractions, odd names and all three tags
  const ODD = ["100%.jpg", "50% off.jpg", "a%d.jpg", "%f", "%-.1f.x", "%%c", "x%3c.jpg", "%le", "%1:2e", "%t", "new\nline", "cr\rx"];
  const NAMES = ["a b.jpg", "ünï©.jpg", "写真.jpg", "-dash", "#hash", "semi;colon&.jpg", "quote'\"`.jpg", "$HOME.jpg", "{a,b}.jpg", "[x]*?.jpg", "deep/er/dir/x.jpg", "back\\slash", "a=b", "😀.bin", "@file", "no-ext", "trail ", "tab\tname", " lead", "double//slash.jpg", "dir/../d3"];
  const BAD = ["Thumbnail Image", "-ThumbnailImage", "ThumbnailImage\n-o\nx", "", "ThumbnailImage=", "ThumbnailImage<", "execute"];
  async function longHistory(len) {
    const full = { ThumbnailImage: image(rng.pick([50, 500, 3000])), PreviewImage: rng.bool(0.4) ? nested : image(), JpgFromRaw: image() };
    const some = {};
    for (const t of TAGS) if (rng.bool(0.5)) some[t] = image();
    // cut in the middle of the last embedded image: that one is gone
    const cutTags = { ThumbnailImage: image(40), PreviewImage: image(80) };
    const cutBody = raw({ ...cutTags, JpgFromRaw: image(5000) });
    const t = tree({
      "s.arw": { body: raw(full), tags: full }, "some.arw": { body: raw(some), tags: some },
      "cut.arw": { body: cutBody.subarray(0, cutBody.length - 1000), tags: cutTags },
      "n.jpg": nested, "text.jpg": Buffer.from("not an image at all"), "empty.jpg": Buffer.alloc(0), "d2": noise(rng.int(1, 9000)),
    });
    const at = (n) => path.join(t.dir, n);
    const srcs = ["s.arw", "s.arw", "s.arw", "some.arw", "cut.arw", "n.jpg", "text.jpg", "empty.jpg", "missing.arw", "d0", "dir"];
    const pool = ["d0", "d1", "d2", "n.jpg", "some.arw", "dir", "plain/below", "plain/a/b", ...rng.sample(NAMES, 4)];
    const one = (dest) => {
      const bad = rng.bool(0.04);
      const tag = rng.pick(TAGS);
      const asked = bad ? rng.pick(BAD) : cased(tag);
      const base = { tag, asked, badtag: bad, src: at(rng.pick(srcs)), instance: rng.bool(0.2) ? "yes" : "no", minor: false };
      if (rng.bool(0.15)) { base.minor = true; base.instance = "no"; }
      if (rng.bool(0.25)) return { op: "buffer", ...base };
      const odd = dest == null && rng.bool(0.08);
      return { op: "file", ...base, odd, dest: at(odd ? rng.pick(ODD) : dest ?? rng.pick(pool)), call: rng.pick(["unset", "unset", "no", "yes"]) };
    };
    const steps = [];
    for (let i = 0; i < len; i++) {
      if (rng.bool(0.15)) {
        // concurrent: distinct destinations, none of which is a source
        const ds = rng.sample([...NAMES.filter((n) => !n.includes("..")), "c1", "c2", "c3", "d2"], rng.int(2, 6));
        steps.push(ds.map((d) => ({ ...one(d), src: at(rng.pick(["s.arw", "cut.arw", "missing.arw"])) })));
      } else steps.push(one());
    }
    await history(t, steps);
  }
  const runAll = async (jobs, width) => {
    let k = 0;
    await Promise.all(Array.from({ length: width }, async () => { while (k < jobs.length) await jobs[k++](); }));
  };
  const deadline = Date.now() + (ctx.thorough ? 360000 : 60000);
  const guard = (f) => async () => { if (Date.now() < deadline) await f(); };
  const jobs = [
    ...Array.from({ length: ctx.thorough ? 500 : 45 }, () => guard(() => longHistory(rng.int(4, 14)))),
    ...chosen.map((p) => guard(() => modelPair(p))),
  ];
  await runAll(jobs, 1);
  // 3. a big one, which arrives in many pieces
  {
    const tags = { PreviewImage: image(ctx.thorough ? 8000000 : 1500000), ThumbnailImage: image(30) };
    const t = tree({ "big.arw": { body: raw(tags), tags } });
    const s = path.join(t.dir, "big.arw");
    await history(t, [
      { op: "buffer", tag: "PreviewImage", asked: "PreviewImage", src: s, instance: "no" },
      { op: "file", tag: "PreviewImage", asked: "PreviewImage", src: s, dest: path.join(t.dir, "o"), call: "unset", instance: "no" },
      { op: "buffer", tag: "ThumbnailImage", asked: "thumbnailimage", src: s, instance: "no" },
    ]);
  }
  for (const e of [...Object.values(ets), minor]) await e.end();

  // 4. scripted answers
  let cur;
  const st = stubbed(ctx, { taskRetries: 0 }, () => cur);
  const where = path.join(root, "stub");
  for (const a of answers) {
    cur = { stdout: a.so.map((l) => l.text + "\n").join(""), stderr: a.se.map((l) => l.text + "\n").join("") };
    const r = await settle(() => st.extractBinaryTag("ThumbnailImage", "/tmp/does-not-matter.jpg", path.join(where, "x.jpg")));
    events.push({ op: "answer", so: a.so, se: a.se, st: r.st });
  }
  const b64 = (b) => "base64:" + b.toString("base64");
  for (let i = 0; i < (ctx.thorough ? 4000 : 600); i++) {
    const tag = rng.pick(TAGS);
    const body = rng.bool(0.1) ? Buffer.alloc(rng.int(1, 3)) : noise(rng.int(1, 400));
    const other = noise(rng.int(1, 200));
    const kind = rng.pick(["exact", "exact", "case", "other", "none", "junk", "empty", "plain", "cutjson"]);
    const obj = { SourceFile: "/tmp/x" };
    const noisy = () => { for (const t of rng.sample(TAGS.filter((x) => x !== tag), 1)) obj[t] = b64(other); };
    if (rng.bool()) noisy();
    if (kind === "exact") obj[tag] = b64(body);
    if (kind === "case") obj[tag.toUpperCase()] = b64(body);
    if (kind === "plain") obj[tag] = "(Binary data 12 bytes)";
    if (kind === "exact" && rng.bool(0.3)) noisy();
    let stdout = JSON.stringify([obj]);
    if (kind === "junk") stdout = "Output? not JSON";
    if (kind === "empty") stdout = "";
    if (kind === "cutjson") stdout = JSON.stringify([{ ...obj, [tag]: b64(body) }]).slice(0, -rng.int(1, 20));
    cur = { stdout, stderr: rng.bool(0.3) ? "Warning: [minor] Possibly incorrect maker notes offsets - /tmp/x\n" : "" };
    const r = await settle(() => st.extractBinaryTagToBuffer(tag, "/tmp/does-not-matter.jpg"));
    events.push({ op: "json", kind, tag, want: kind === "exact" || kind === "case" ? dig(body) : "", st: r.st, got: Buffer.isBuffer(r.v) ? dig(r.v) : "" });
  }
  fs.rmSync(root, { recursive: true, force: true });
  const strip = (x) => JSON.stringify(x).split(root).join("").replace(/\/h\d+\//g, "");
  await judge(ctx, "ExtractTrace", events, {
    key: (e) => (e.op === "history" ? "history|" + strip(e.h.map((x) => [x.op, x.asked, x.src, x.dest, x.call, x.instance])) : e.op + "|" + JSON.stringify([e.so, e.se, e.kind, e.tag])),
    message: (e, want) => `${strip(e.op === "history" ? e.h.map((x) => [x.op, x.asked, x.src, x.dest, x.call, x.instance, x.st, x.why]) : e).slice(0, 1500)} want ${want.slice(0, 300)}`,
    heap: "4g",
  });
};
