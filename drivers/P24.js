"use strict";
// P24: how children are started and who hears of it, against spec/Launch.tla.
const fs = require("node:fs");
const path = require("node:path");
const cp = require("node:child_process");
const { generate, judge } = require("../lib/tlc");
const newRng = require("../lib/rng");
const { settle } = require("../lib/stub");

exports.assumptions = [
  "Linux: what a child was started with is read from /proc",
  "calls wait for as long as no child can be started (batch-cluster's design)",
];

const MS = 60000;
const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
let late = 0; // something that never comes is a violation already: no need to wait long for the next
const until = async (f, ms = 30000) => {
  if (late > 3) ms = Math.min(ms, late > 20 ? 100 : 1000);
  for (const t = Date.now(); Date.now() - t < ms; await sleep(8)) if (f()) return true;
  late++;
  return false;
};
const PROGRAM = (perl) => `#!${perl} -w
$| = 1;
my $f = $0; $f =~ s{[^/]*$}{started}; open(my $l, '>>', $f); syswrite($l, "$$\\n"); close($l);
while (<STDIN>) {
  if (/^False$/) { exit 0 }
  if (/^-execute/) { print "13.59\\n{ready}\\n" }
}
`;

exports.run = async (ctx) => {
  const { model, rows } = await generate("MC_Launch");
  ctx.addModel(model);
  const { rng } = ctx;
  const top = ctx.scratch("p24");
  const { ExifTool } = ctx.req("ExifTool.js");
  const vendored = await ctx.req("ExiftoolPath.js").exiftoolPath(() => ({ trace() {}, debug() {}, info() {}, warn() {}, error() {} }));
  const events = [];
  let launched = 0, failed = 0;

  const instance = async (n, cfg) => {
    const rng = newRng(ctx.seed * 100003 + n); // the same whatever runs meanwhile
    const dir = path.join(top, `i${n}`);
    const sub = rng.pick(["", "with blank", "ü-日本", "a'b\"c$d;e"]);
    fs.mkdirSync(path.join(dir, sub), { recursive: true });
    const prog = path.join(dir, sub, "my exiftool");
    // perl under another name, so that it shows who found it
    const perl = path.join(top, "perl-of-first-line");
    fs.writeFileSync(prog, PROGRAM(perl), { mode: 0o755 });
    const own = cfg.factory || !["blank", "unset"].includes(cfg.path);
    let pathCalls = 0, factoryCalls = 0, factoryFailures = 0, broken = false;
    const max = rng.int(1, 2);
    const o = {
      maxProcs: max, minDelayBetweenSpawnMillis: rng.pick([0, 5, 30]), exiftoolArgs: cfg.args, exiftoolEnv: Object.fromEntries(cfg.env),
      maxTasksPerProcess: 1000, taskRetries: 0, onIdleIntervalMillis: 50, spawnTimeoutMillis: 30000, taskTimeoutMillis: 30000, maxReasonableProcessFailuresPerMinute: 0,
      logger: () => ({ trace() {}, debug() {}, info() {}, warn() {}, error() {} }),
    };
    // (left to the library)
    if (cfg.args[0] === "unset") delete o.exiftoolArgs;
    if (cfg.env.length === 0 && rng.bool()) delete o.exiftoolEnv;
    if (cfg.shebang !== "unset") o.ignoreShebang = cfg.shebang === "yes";
    if (cfg.path === "text") o.exiftoolPath = prog;
    if (cfg.path === "promise") o.exiftoolPath = Promise.resolve(prog);
    if (cfg.path === "fn") o.exiftoolPath = () => (pathCalls++, prog);
    if (cfg.path === "asyncfn") o.exiftoolPath = async () => { pathCalls++; await sleep(rng.int(0, 20)); return prog; };
    if (cfg.path === "blank") o.exiftoolPath = rng.pick(["", "  "]);
    if (cfg.factory) {
      o.processFactory = async () => {
        factoryCalls++;
        if (broken) { factoryFailures++; throw new Error("no program"); }
        return cp.spawn(prog, ["-made", "by caller"], { stdio: "pipe", env: { MADE: "1" } });
      };
    }
    if (cfg.home === "") delete process.env.EXIFTOOL_HOME; else process.env.EXIFTOOL_HOME = cfg.home;
    const et = new ExifTool(o);
    delete process.env.EXIFTOOL_HOME;

    // what each child was started with, by its pid
    const seen = new Map();
    const known = new Set();
    const look = (pid) => {
      if (seen.has(pid)) return true;
      let argv, env;
      try {
        argv = fs.readFileSync(`/proc/${pid}/cmdline`, "utf8").split("\0").slice(0, -1);
        env = fs.readFileSync(`/proc/${pid}/environ`, "utf8").split("\0").slice(0, -1);
      } catch { return false; }
      const at = argv.findIndex((x) => x === prog || x === vendored);
      // still on its way from the first line to perl
      if (at < 1 || !/perl/.test(path.basename(argv[0])) || argv[0] === process.execPath) return false;
      const e = env.map((x) => [x.slice(0, x.indexOf("=")), x.slice(x.indexOf("=") + 1)]).sort((a, b) => (a[0] < b[0] ? -1 : 1));
      const made = cfg.factory && argv[at + 1] === "-made" && env.includes("MADE=1");
      const program = argv[at] === prog ? (made ? "factory" : "own") : "vendored";
      // the shebang of the caller's program names its perl; that of the vendored one leaves it to env
      const by = argv[0] === perl || argv[0] === "perl" ? "shebang" : "perl";
      const skip = argv.slice(1, at).filter((x) => x !== "-w"); // of the first line
      seen.set(pid, { program, by, args: [...skip, ...argv.slice(at + 1)], env: e });
      return true;
    };
    const heard = { starts: 0, ends: 0, s2: 0, e2: 0, before: 0, over: 0, failures: 0 };
    const l2s = () => void heard.s2++, l2e = () => void heard.e2++;
    et.on("childStart", (p) => { heard.starts++; known.add(p?.pid); });
    et.on("childEnd", () => void heard.ends++);
    et.on("childStart", l2s);
    et.on("childEnd", l2e);
    et.on("beforeEnd", () => void heard.before++);
    et.on("end", () => void heard.over++);
    et.on("startError", () => void heard.failures++);

    const h = [];
    let good = 0, bad = 0, ended = false, off = false, waiting = 0;
    const log = (op, k) => { h.push({ op, n: k, good, bad, ...heard }); good = bad = 0; };
    const call = () => et.version().then(() => void good++, () => void bad++);
    const looked = () => until(() => et.pids.every(look), 20000);
    const gone = () => until(() => heard.ends === heard.starts && et.pids.length === 0);
    const step = async (op) => {
      if (op === "call") {
        const k = rng.int(1, 3);
        const t = heard.failures;
        const all = Promise.all(Array.from({ length: k }, call));
        if (broken && !ended) { waiting += k; await until(() => heard.failures > t || good + bad > 0); await sleep(20); } else { await settle(() => all, late > 3 ? 1000 : MS); if (!ended) await looked(); }
        log(op, k);
      } else if (op === "close") {
        await settle(() => et.closeChildProcesses(rng.bool()), MS);
        await gone();
        log(op, 0);
      } else if (op === "kill") {
        for (const pid of et.pids) { try { process.kill(pid, "SIGKILL"); } catch { /* gone */ } }
        await gone();
        log(op, 0);
      } else if (op === "break") {
        broken = true;
        fs.renameSync(prog, prog + ".away");
        await settle(() => et.closeChildProcesses(true), MS);
        await gone();
        log(op, 0);
      } else if (op === "mend") {
        fs.renameSync(prog + ".away", prog);
        broken = false;
        await until(() => good + bad >= waiting);
        await looked();
        waiting = 0;
        log(op, 0);
      } else if (op === "off") {
        off = true;
        et.off("childStart", l2s);
        et.off("childEnd", l2e);
        log(op, 0);
      } else if (op === "end") {
        await settle(() => et.end(rng.bool(0.8)), MS);
        ended = true;
        await until(() => heard.ends === heard.starts && good + bad >= waiting && heard.over > 0);
        waiting = 0;
        log(op, 0);
      }
    };
    const len = rng.int(2, 7);
    await step("call").catch((e) => ctx.report({ key: "exception", message: String(e) }));
    for (let i = 0; i < len; i++) {
      const can = ["call", "call", ...(broken ? ["mend", "mend"] : own && cfg.shebang !== "yes" ? ["break", "close", "kill"] : ["close", "kill"]), ...(off ? [] : ["off"])];
      await step(rng.pick(can));
    }
    await step("end");
    if (rng.bool()) await step("call");
    // no process was started that nobody was told of
    let strays = 0;
    try { strays = fs.readFileSync(path.join(path.dirname(prog), "started"), "utf8").split("\n").filter((x) => x && !known.has(Number(x))).length; } catch { /* none */ }
    failed += heard.failures;
    launched += heard.starts;
    const children = [...seen.values()];
    if (children.length) for (const c of children) if (cfg.factory) Object.assign(c, { by: "", args: [], env: [] });
    events.push({ op: "instance", cfg, max, children, pathCalls, factoryCalls, factoryFailures, strays, h });
    fs.rmSync(dir, { recursive: true, force: true });
  };

  fs.symlinkSync("/usr/bin/perl", path.join(top, "perl-of-first-line"));
  const pairs = (e) => (Array.isArray(e) ? e : Object.entries(e));
  const all = rng.shuffle(rows).map((c) => ({ ...c, env: pairs(c.env) }));
  // every way to name the program and to find perl, and many of the combinations
  const plain = all.filter((c) => !c.factory);
  const q = [...plain.slice(0, ctx.thorough ? plain.length : 330), ...all.filter((c) => c.factory).slice(0, ctx.thorough ? 150 : 50)];
  let n = 0;
  await Promise.all(Array.from({ length: 6 }, async () => {
    while (q.length) await instance(n++, q.shift());
  }));
  await judge(ctx, "LaunchTrace", events, {
    key: (e) => JSON.stringify([e.cfg, e.h.map((x) => x.op)]).slice(0, 400),
    message: (e, w) => `${JSON.stringify(e).slice(0, 1200)} :: ${String(w).slice(0, 400)}`,
  });
  Object.assign(ctx.coverage, { instances: n, children: launched, failed_starts: failed });
};
