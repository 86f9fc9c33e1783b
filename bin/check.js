#!/usr/bin/env node
"use strict";
// node bin/check.js <property> [quick|thorough]
const fs = require("node:fs");
const path = require("node:path");
if (process.env.VERIF_SUPERVISED !== "1") return void require("../lib/supervise")(__filename, process.argv.slice(2));
delete process.env.VERIF_SUPERVISED;
process.env.TZ = process.env.VERIF_TZ || "UTC";
process.env.LANG = "C.UTF-8";
const { build, scratch, VERIF, REPO } = require("../lib/build");
const { InfraError } = require("../lib/tlc");
process.setMaxListeners(0);
const rng = require("../lib/rng");

const id = process.argv[2];
const tier = process.argv[3] || process.env.VERIF_TIER || "quick";
const seed = Number(process.env.VERIF_SEED || 1);
const t0 = Date.now();

let current, finished = false;
// the supervisor takes a main thread that stays blocked for a loop that does not end
if (process.send) {
  setInterval(() => process.connected && process.send("alive"), 1000).unref();
  process.channel?.unref?.();
}
// everything the harness awaits is backed by a timer or a process: when nothing
// is left to wait for, a call of the library can never settle
process.on("exit", (code) => {
  if (finished || code !== 0 || !current) return;
  current.ctx.report({ key: "never-settles", message: "a call never settles (nothing is left that could settle it)" });
  finish();
});
/**
 * The harness runs without exceptions on code that behaves: an exception is the
 * code's own or the consequence of a result of an unexpected shape. Failures of the
 * machine (and of TLC) are no verdict.
 */
const MACHINE = /^(ENOSPC|ENOMEM|EMFILE|ENFILE|EAGAIN|EACCES|EROFS|EDQUOT|MODULE_NOT_FOUND|ERR_OUT_OF_MEMORY|ERR_WORKER_.*)$/;
function crashed(e) {
  const dist = current?.ctx.dist;
  if (dist && !(e instanceof InfraError) && !MACHINE.test(String(e?.code ?? ""))) {
    current.ctx.report({ key: "exception|" + String(e?.message ?? e).slice(0, 200), message: "unexpected exception: " + String(e?.stack ?? e).split(dist).join("").slice(0, 600) });
    finish();
  }
  console.error(e instanceof InfraError ? "check error: " + e.message : e);
  process.exit(2);
}

async function main() {
  const driver = require(path.join(VERIF, "drivers", id + ".js"));
  const findings = JSON.parse(fs.readFileSync(path.join(VERIF, "known-findings.json"), "utf8")).findings.filter((f) => f.property === id);
  let dist;
  try {
    dist = build();
  } catch (e) {
    console.error("cannot build /repo: " + e.message);
    process.exit(2);
  }
  const ctx = {
    id, tier, seed, dist, VERIF, REPO,
    thorough: tier === "thorough",
    rng: rng(seed),
    req: (m) => require(path.join(dist, m)),
    scratch: (n) => scratch(n || "work"),
    models: [], violations: [], known: new Map(), coverage: {},
    events: 0, states: 0, transitions: 0, samples: 0, kinds: {},
    log: (...a) => process.env.VERIF_VERBOSE && console.error(...a),
    /** kind+key identify the failing input; a listed finding suppresses exactly that. */
    report(v) {
      const f = findings.find((x) => x.match === v.key);
      if (f) ctx.known.set(f.match, f);
      else ctx.violations.push(v);
    },
    addModel(m) {
      ctx.models.push(m);
      ctx.states += m.states;
      ctx.transitions += m.transitions;
    },
  };
  current = { ctx, driver };
  await driver.run(ctx);
  finish();
}

function finish() {
  const { ctx, driver } = current;
  finished = true;
  const evDir = path.join(VERIF, "evidence");
  fs.mkdirSync(evDir, { recursive: true });
  for (const f of fs.readdirSync(evDir)) if (f.startsWith(id + "-")) fs.rmSync(path.join(evDir, f), { force: true });
  const out = ctx.violations.slice(0, 20).map((v, i) => {
    const f = path.join(evDir, `${id}-violation-${i + 1}.json`);
    fs.writeFileSync(f, JSON.stringify(v, null, 1) + "\n");
    return { file: f, v };
  });
  const evidence = {
    property: id, tier, seed,
    level: driver.level || "model_checking",
    coverage: {
      states: ctx.states, transitions: ctx.transitions,
      traces_validated_against_impl: ctx.traces || 0,
      events_validated_against_impl: ctx.events,
      samples: ctx.events,
      event_kinds: ctx.kinds,
      models: ctx.models.map((m) => ({ module: m.module, states: m.states, transitions: m.transitions })),
      ...ctx.coverage,
    },
    wall_s: Math.round((Date.now() - t0) / 100) / 10,
    assumptions: driver.assumptions || [],
    violations: ctx.violations.length,
  };
  fs.writeFileSync(path.join(evDir, id + ".json"), JSON.stringify(evidence, null, 1) + "\n");
  for (const f of ctx.known.values()) console.log(`KNOWN-FINDING: property=${id} ${f.what}`);
  for (const { file, v } of out) {
    console.log(`VIOLATION property=${id} replay=${file}`);
    console.log("  " + String(v.message || v.key).slice(0, 400));
  }
  console.log(`${id} ${tier}: ${ctx.violations.length} violation(s), ${ctx.events} events, ${ctx.states} states, ${evidence.wall_s} s`);
  process.exit(ctx.violations.length > 0 ? 1 : 0);
}

process.on("uncaughtException", crashed);
process.on("unhandledRejection", crashed);
main().catch(crashed);
