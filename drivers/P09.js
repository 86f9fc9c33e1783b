"use strict";
// P09: classification of ExifTool's answers, against spec/Outcome.tla.
const { generate, judge } = require("../lib/tlc");
const { stubbed, settle } = require("../lib/stub");

exports.level = "model_checking";
exports.assumptions = [
  "ExifTool's status, warning and error lines are those of the templates in spec/Outcome.tla (taken from the vendored exiftool script)",
];

exports.run = async (ctx) => {
  const { model, rows } = await generate("MC_Outcome");
  ctx.addModel(model);
  const { rng } = ctx;
  // longer, seeded random responses over the lines of the model
  const outs = [...new Map(rows.flatMap((r) => r.so).map((x) => [x.text, x])).values()];
  const errs = [...new Map(rows.flatMap((r) => r.se).map((x) => [x.text, x])).values()];
  const count = (x) => {
    if (x.k === "other" || rng.bool()) return x;
    const n = rng.pick([0, 1, 1, 2, 9, 10, 11, 21, 100, 101, 111, 1001, 10001, 100001, rng.int(0, 200000)]);
    return { k: x.k, n, text: x.text.replace(/^\s*\d+/, String(n).padStart(5)) };
  };
  const extra = ctx.thorough ? 20000 : 2500;
  for (let i = 0; i < extra; i++) {
    rows.push({
      so: Array.from({ length: rng.int(0, 5) }, () => count(rng.pick(outs))),
      se: Array.from({ length: rng.int(0, 5) }, () => rng.pick(errs)).filter((e) => i % 2 || !/rror/.test(e.text) || /Nothing/.test(e.text)),
    });
  }
  const join = (lines, nl) => lines.map((l) => l.text + nl).join("");
  let cur;
  const et = stubbed(ctx, { taskRetries: 0 }, () => cur);
  const file = "/tmp/does-not-matter.jpg";
  const events = [];
  for (let i = 0; i < rows.length; i++) {
    const resp = rows[i];
    const nl = i % 7 === 3 ? "\r\n" : "\n";
    cur = { stdout: join(resp.so, nl), stderr: join(resp.se, nl) };
    const known = new Set(resp.se.map((l) => l.text));
    const unknown = resp.so.map((l) => l.text.trim());
    const mapW = (w) => {
      if (known.has(w)) return w;
      const u = unknown.filter((t) => w.includes(JSON.stringify(t)) || w.includes(t)).sort((a, b) => b.length - a.length)[0];
      return u ? "UNEXPECTED " + u : "?? " + w;
    };
    {
      const r = await settle(() => et.write(file, { Title: "x" }));
      const v = r.v || {};
      const n = (x) => (Number.isInteger(x) ? x : -1);
      events.push({
        op: "write", resp,
        out: r.st === "ok"
          ? { st: "ok", msg: "", created: n(v.created), updated: n(v.updated), unchanged: n(v.unchanged), warnings: (v.warnings || []).map(mapW) }
          : { st: r.st, msg: r.msg || "", created: 0, updated: 0, unchanged: 0, warnings: [] },
      });
    }
    if (i % 3 === 0 || resp.so.some((l) => l.k === "created" && l.n > 2) || resp.so.some((l) => l.k === "copied" || l.k === "dirs")) {
      const r = await settle(() => et.rewriteAllTags(file, "/tmp/dest-does-not-matter.jpg"));
      events.push({ op: "rewrite", resp, out: { st: r.st, msg: r.st === "ok" ? "" : r.msg || "" } });
    }
    if (i % 3 === 1) {
      // reads: JSON may accompany any stderr; without it the call must fail
      for (const json of [true, false]) {
        for (const raw of [false, true]) {
          cur = { stdout: json ? JSON.stringify([{ SourceFile: file, Title: "t" }]) : "", stderr: join(resp.se, nl) };
          const r = await settle(() => (raw ? et.readRaw(file) : et.read(file)));
          const v = r.v || {};
          events.push({
            op: "read", json, resp: { so: [], se: resp.se },
            out: r.st === "ok"
              ? { st: "ok", msg: v.Title === "t" ? "" : "lost", warnings: v.warnings || [], errors: v.errors || [] }
              : { st: r.st, msg: r.msg || "", warnings: [], errors: [] },
          });
        }
      }
    }
  }
  const versions = [];
  for (const a of ["1", "13", "130", "1300", "", "x"]) for (const b of ["", ".", ".5", ".59", ".123", ".1234", ".x"]) for (const c of ["", ".1", ".12", ".1234", "-beta", " 7"])
    versions.push(a + b + c);
  for (const text of versions) {
    // A version is 1-3 digits, a dot, 1-3 digits and optionally a third such part.
    const parts = text.split(".");
    const wellformed = (parts.length === 2 || parts.length === 3) && parts.every((p) => p.length >= 1 && p.length <= 3 && [...p].every((ch) => ch >= "0" && ch <= "9"));
    cur = { stdout: text + "\n", stderr: "" };
    const r = await settle(() => et.version());
    events.push({ op: "version", text, wellformed, out: { st: r.st, v: r.st === "ok" ? String(r.v) : "" } });
  }
  await judge(ctx, "OutcomeTrace", events, {
    key: (e) => e.op + "|" + (e.text ?? JSON.stringify([e.resp.so.map((x) => x.text), e.resp.se.map((x) => x.text), e.json])),
  });
};
