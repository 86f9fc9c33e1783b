"use strict";
// Runs TLC: exhaustive model checks and trace validation.
const cp = require("node:child_process");
const fs = require("node:fs");
const path = require("node:path");
const { VERIF, scratch } = require("./build");

const JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar";
const SPEC = path.join(VERIF, "spec");

class InfraError extends Error {}

/** Starts TLC on spec/<module>.tla with spec/<cfg>.cfg. */
function tlc(module, { cfg = module, env = {}, workers = 4, args = [], timeoutMs = 600000, heap = "3g", dfs = false } = {}) {
  const meta = scratch("tlc");
  const jopts = ["-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta];
  if (dfs) jopts.push("-Dtlc2.tool.queue.IStateQueue=StateDeque");
  const a = [
    ...jopts, "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-workers", String(workers),
    "-noGenerateSpecTE", "-config", cfg + ".cfg", ...args, module + ".tla",
  ];
  return new Promise((resolve, reject) => {
    const p = cp.spawn("java", a, { cwd: SPEC, env: { ...process.env, ...env } });
    let out = "";
    let killed = false;
    const t = setTimeout(() => { killed = true; p.kill("SIGKILL"); }, timeoutMs);
    p.stdout.on("data", (d) => (out += d));
    p.stderr.on("data", (d) => (out += d));
    p.on("error", reject);
    p.on("close", (code) => {
      clearTimeout(t);
      fs.rmSync(meta, { recursive: true, force: true });
      if (killed) return reject(new InfraError("TLC timed out on " + module));
      const m = /([\d,]+) states generated, ([\d,]+) distinct states found/.exec(out.split("\n").reverse().find((l) => /distinct states found/.test(l)) || "");
      resolve({
        code, out,
        generated: m ? Number(m[1].replace(/,/g, "")) : 0,
        distinct: m ? Number(m[2].replace(/,/g, "")) : 0,
        prints: out.split("\n").filter((l) => l.startsWith('"')).map((l) => l.replace(/^"|"$/g, "")),
      });
    });
  });
}

/** Exhaustive check of a model; its failure is an error of the spec, not of the code. */
async function modelCheck(module, opts = {}) {
  const r = await tlc(module, opts);
  if (r.code !== 0) throw new InfraError("model check of " + module + " failed (" + r.code + ")\n" + r.out.slice(-4000));
  return { module: opts.cfg || module, states: r.distinct, transitions: r.generated, prints: r.prints };
}

/** What TLC cannot read (null, fractions, large numbers) is no value of any specification here. */
const expressible = (k, v) => (v === null ? "<null>" : typeof v === "number" && !(Number.isInteger(v) && Math.abs(v) < 2 ** 31) ? `<number ${v}>` : v);

/**
 * Validates recorded events against <module>: the trace spec consumes one event
 * per step, in `chunks` independent pieces, and prints "MISMATCH|<line>|<detail>" for
 * an event that is not a step of the specification.
 */
async function validate(module, events, { chunks = 8, ...opts } = {}) {
  if (events.length === 0) throw new InfraError("no events for " + module);
  const dir = scratch("trace");
  const file = path.join(dir, "trace.ndjson");
  fs.writeFileSync(file, events.map((e) => JSON.stringify(e, expressible)).join("\n") + "\n");
  const n = Math.min(chunks, events.length);
  const r = await tlc(module, { ...opts, env: { ...(opts.env || {}), TRACE: file, CHUNKS: String(n) }, workers: opts.workers || n, args: ["-deadlock", ...(opts.args || [])] });
  fs.rmSync(dir, { recursive: true, force: true });
  const bad = new Map();
  for (const l of r.prints) {
    const m = /^MISMATCH\|(\d+)\|(.*)$/.exec(l);
    if (m) bad.set(Number(m[1]), m[2]);
  }
  if (r.code !== 0) {
    // An evaluation error while consuming an event: the event is outside of the
    // universe of the specification (e.g. a value of a type it does not allow).
    const lm = /\bl = (\d+)/g;
    let last, x;
    while ((x = lm.exec(r.out))) last = Number(x[1]);
    if (last == null && /The error occurred when TLC was evaluating/.test(r.out)) last = 1;
    if (last != null && /behavior up to this point|The error occurred when TLC was evaluating/.test(r.out) && !/OutOfMemory|StackOverflow|Java heap/.test(r.out)) {
      bad.set(last, "not an event of the specification: " + r.out.split("\n").filter((l) => /rror/.test(l)).slice(0, 3).join(" ").slice(0, 600));
      return { bad, states: r.distinct, transitions: r.generated, out: r.out, partial: true };
    }
    throw new InfraError("TLC failed on " + module + " (" + r.code + ")\n" + r.out.slice(-4000));
  }
  const expect = events.length + n;
  if (r.distinct < expect) throw new InfraError(`TLC consumed ${r.distinct} of ${expect} states of the ${module} trace\n` + r.out.slice(-2000));
  return { bad, states: r.distinct, transitions: r.generated, out: r.out };
}

module.exports = { tlc, expressible, modelCheck, validate, InfraError, SPEC };

/** Model check that also exports generated inputs/behaviours as ndjson to $GEN. */
async function generate(module, opts = {}) {
  const dir = scratch("gen");
  const file = path.join(dir, "gen.ndjson");
  const m = await modelCheck(module, { ...opts, env: { ...(opts.env || {}), GEN: file } });
  const rows = fs.readFileSync(file, "utf8").split("\n").filter((l) => l.length > 0).map((l) => JSON.parse(l));
  fs.rmSync(dir, { recursive: true, force: true });
  return { model: m, rows };
}

/**
 * Validates events and reports each rejected one as a violation.
 * key(e) names the failing input, for the known-findings file.
 */
async function judge(ctx, module, events, { key = (e) => JSON.stringify(e), message, ...opts } = {}) {
  const r = await validate(module, events, opts);
  ctx.events += events.length;
  ctx.states += r.states;
  ctx.transitions += r.transitions;
  for (const e of events) ctx.kinds[e.op || e.event || "event"] = (ctx.kinds[e.op || e.event || "event"] || 0) + 1;
  for (const [line, want] of r.bad) {
    const e = events[line - 1];
    ctx.report({ key: key(e), message: message ? message(e, want) : `${module}: ${JSON.stringify(e).slice(0, 300)} want ${want.slice(0, 300)}`, spec: module, event: e, want });
  }
  return r;
}
module.exports.generate = generate;
module.exports.judge = judge;
