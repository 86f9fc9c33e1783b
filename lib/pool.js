"use strict";
process.setMaxListeners(0);
// Runs schedules against the real ExifTool class with gated stand-in children
// (fake/exiftool) and records what happened, in the vocabulary of spec/Pool.tla.
const net = require("node:net");
const path = require("node:path");
const fs = require("node:fs");
const { VERIF } = require("./build");

const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
const hex = (s) => Buffer.from(s).toString("hex");
const alive = (pid) => { try { process.kill(pid, 0); return true; } catch { return false; } };

class Run {
  constructor(ctx, sched, n) {
    Object.assign(this, { ctx, sched, n });
    this.dir = ctx.poolDir ??= ctx.scratch("pool");
    this.events = [];
    this.kids = new Map(); // name -> {name,pid,sock,busy}
    this.calls = new Map();
    this.tokens = new Map(); // token -> {id}
    this.toks = 0;
    this.waiters = [];
    this.versions = 0;
  }
  log(ev, f = {}) {
    this.events.push({ ev, ...f });
    if (ev !== "sample") this.lastAt = Date.now();
    for (const w of this.waiters.splice(0)) w();
  }
  /** Waits until f() or the deadline; polls after each event and every 20 ms. */
  async until(f, ms) {
    const t = Date.now() + ms;
    for (;;) {
      const v = f();
      if (v) return v;
      if (Date.now() > t) return undefined;
      await new Promise((r) => {
        this.waiters.push(r);
        setTimeout(r, 20);
      });
    }
  }
  async start() {
    const { ExifTool } = this.ctx.req("ExifTool.js");
    const sockPath = path.join(this.dir, `s${this.n}`);
    this.server = net.createServer((sock) => this.onKid(sock));
    await new Promise((r) => this.server.listen(sockPath, r));
    this.server.unref();
    const c = this.sched.cfg;
    this.et = new ExifTool({
      exiftoolPath: path.join(VERIF, "fake/exiftool"),
      exiftoolEnv: { VP_SOCK: sockPath, ...(c.stubborn ? { VP_STUBBORN: "1" } : {}) },
      maxProcs: c.maxProcs, maxTasksPerProcess: c.maxTasks, taskRetries: c.retries,
      taskTimeoutMillis: c.timeout, minDelayBetweenSpawnMillis: 0, healthCheckCommand: c.health ? "-health\n-execute\n" : "",
      cleanupChildProcsOnExit: true, onIdleIntervalMillis: 200,
      ...(c.disposeMs ? { disposalTimeoutMs: c.disposeMs, asyncDisposalTimeoutMs: c.disposeMs } : {}),
    });
    this.et.on("taskTimeout", (_ms, _task, proc) => {
      const k = [...this.kids.values()].find((x) => x.pid === proc?.pid);
      if (k) { k.off = true; k.busy = undefined; this.log("timeout", { c: k.name }); }
    });
  }
  onKid(sock) {
    let buf = "";
    let kid;
    sock.on("error", () => {});
    sock.on("data", (d) => {
      buf += d;
      let i;
      while ((i = buf.indexOf("\n")) >= 0) {
        const line = buf.slice(0, i);
        buf = buf.slice(i + 1);
        const [what, arg] = line.split(" ");
        if (what === "start") {
          kid = { name: "p" + arg, pid: Number(arg), sock, busy: undefined };
          this.kids.set(kid.name, kid);
          this.log("start", { c: kid.name });
        } else if (what === "recv") {
          const cmd = Buffer.from(arg, "hex").toString();
          const id = this.identify(cmd);
          kid.busy = id;
          kid.cmd = cmd;
          this.log("recv", { c: kid.name, id });
        } else if (what === "overlap") this.log("overlap", { c: kid.name, id: kid.busy ?? "?" });
      }
    });
    sock.on("close", () => { if (kid) { kid.gone = true; kid.busy = undefined; } for (const w of this.waiters.splice(0)) w(); });
  }
  identify(cmd) {
    const m = /call-(c\w+?)[.\n]/.exec(cmd);
    if (m) return m[1];
    // no name in the command: an open call of that kind that no child is serving
    const serving = new Set([...this.kids.values()].map((k) => k.busy));
    for (const [id, c] of this.calls) if (c.anon && !c.done && !serving.has(id)) return id;
    return "c?";
  }
  call(id, kind) {
    const { et } = this;
    const twin = this.sched.cfg.twins;
    const file = path.join(this.dir, twin ? `twin.jpg` : `call-${id}.jpg`);
    const dest = path.join(this.dir, `out-call-${id}.jpg`);
    // every method in several forms: what is promised does not depend on the form
    const pick = (...a) => (twin ? a[0] : this.rng.pick(a));
    const tag = pick("ThumbnailImage", "PreviewImage", "JpgFromRaw");
    const ed = (operation, value = "x") => ({ tag: "XMP-dc:Subject", operation, value });
    const f = {
      read: pick(() => et.read(file), () => et.read(file, { numericTags: ["ISO"] }), () => et.read(file, ["-fast"]), () => et.read(file, ["-fast"], { useMWG: false }), () => et.read(file, undefined, { ignoreMinorErrors: false })),
      readRaw: pick(() => et.readRaw(file), () => et.readRaw(file, { readArgs: ["-fast"] }), () => et.readRaw(file, ["-n"]), () => et.readRaw(file, ["-n"], { useMWG: true })),
      write: pick(
        () => et.write(file, { Title: "x" }), () => et.write(file, { Title: null }), () => et.write(file, { GPSLatitude: 1, GPSLongitude: 2 }), () => et.write(file, {}),
        () => et.write(file, { Title: "x" }, ["-overwrite_original"]), () => et.write(file, { Title: "x" }, { ignoreMinorErrors: true }),
        () => et.write(file, { AllDates: "+=1" }, { writeArgs: ["-overwrite_original"] }), () => et.write(file, { Rating: 3 }, undefined, { useMWG: false }),
      ),
      edit: pick(
        () => et.editTags(file, [ed("add")]), () => et.editTags(file, [ed("remove")]), () => et.editTags(file, [ed("remove"), ed("remove", "y")]), () => et.editTags(file, [ed("remove"), ed("add")]),
        () => et.editTags(file, [{ tag: "XMP-mwg-rs:RegionName", operation: "remove", value: "x" }]), () => et.editTags(file, [ed("add")], { ignoreMinorErrors: true, writeArgs: ["-overwrite_original"] }),
      ),
      delete: pick(() => et.deleteAllTags(file), () => et.deleteAllTags(file, { retain: ["Orientation"] }), () => et.deleteAllTags(file, { retain: [], ignoreMinorErrors: true })),
      version: () => et.version(),
      binary: pick(
        () => et.extractBinaryTag(tag, file, dest), () => et.extractThumbnail(file, dest), () => et.extractPreview(file, dest), () => et.extractJpgFromRaw(file, dest),
        () => et.extractBinaryTag(tag, file, dest, { forceWrite: true }), () => et.extractPreview(file, dest, { ignoreMinorErrors: true }),
      ),
      buffer: pick(() => et.extractBinaryTagToBuffer(tag, file), () => et.extractBinaryTagToBuffer(tag, file, { ignoreMinorErrors: true })),
      rewrite: pick(() => et.rewriteAllTags(file, dest), () => et.rewriteAllTags(file, dest, { allowMakerNoteRepair: true }), () => et.rewriteAllTags(file, dest, { ignoreMinorErrors: true })),
    }[kind];
    const c = { id, kind, file, tag, anon: kind === "version" || twin, done: false, settles: 0 };
    this.calls.set(id, c);
    this.log("call", { id, kind });
    let p;
    try {
      p = Promise.resolve(f());
    } catch (e) {
      p = Promise.reject(e);
    }
    c.p = p.then((v) => this.settled(c, "ok", v), (e) => this.settled(c, "err", e));
  }
  settled(c, st, v) {
    c.done = true;
    const find = (text) => [...this.tokens.values()].filter((t) => text.includes(t.tok)).map((t) => t.tok);
    let toks = [];
    let warns = [];
    if (st === "err") toks = find(String(v?.message ?? v));
    else {
      const k = c.kind;
      if (k === "read" || k === "readRaw") toks = this.payload(v?.Payload, c);
      else if (k === "version") toks = this.byNum(v);
      else if (k === "buffer") toks = Buffer.isBuffer(v) ? this.payload(v.toString(), c) : ["?"];
      else if (k === "binary" || k === "rewrite") toks = v === undefined ? [] : ["?"];
      else toks = v?.created === 0 && v?.unchanged === 0 ? this.byNum(v.updated) : ["?"];
      for (const w of [...(v?.warnings ?? []), ...(v?.errors ?? [])]) warns.push(find(w)[0] ?? "?" + w);
    }
    this.log("settle", { id: c.id, st, toks, warns, ...(st === "err" ? { msg: String(v?.message ?? v).slice(0, 200) } : {}) });
  }
  payload(text, c) {
    const t = [...this.tokens.values()].find((x) => x.payload === text && (x.kind === c.kind));
    return t ? [t.tok] : ["?" + String(text).slice(0, 60)];
  }
  byNum(x) {
    const t = [...this.tokens.values()].find((y) => y.num === x);
    return t ? [t.tok] : ["?" + x];
  }
  /** The child of call id answers. */
  release(kid, out, style) {
    const id = kid.busy;
    const c = this.calls.get(id);
    if (!c) return;
    const n = ++this.toks;
    const tok = `tok${this.n}x${n}z`;
    const t = { tok, id, n, kind: c.kind };
    this.tokens.set(tok, t);
    let so = "";
    let se = "";
    const file = c.file;
    const json = (o) => JSON.stringify([{ SourceFile: file, ...o }], null, 2) + "\n";
    const deco = ["", " {ready}", "{ready}\n{ready}", "é漢😀".repeat(40), "x".repeat(70000) + "漢".repeat(9000)][style.deco] ?? "";
    t.payload = tok + deco;
    switch (c.kind) {
      case "read": case "readRaw":
        if (out === "ok" || out === "warn") so = json({ Payload: t.payload });
        if (out === "wrongfile") so = JSON.stringify([{ SourceFile: file + ".other", Payload: t.payload }]) + "\n";
        if (out === "garbage") so = "{not json " + tok + "\n";
        break;
      case "version":
        t.num = `${1 + (n % 900)}.${this.n % 1000}`;
        so = out === "ok" || out === "warn" ? t.num + "\n" : `garbage ${tok}\n`;
        break;
      case "buffer":
        if (out === "ok" || out === "warn") so = json({ [c.tag]: "base64:" + Buffer.from(t.payload).toString("base64") });
        if (out === "missing") so = json({});
        if (out === "garbage") so = "{not json " + tok + "\n";
        break;
      case "binary":
        if (out === "ok" || out === "warn") so = "    1 output files created\n";
        if (out === "missing") so = "    0 output files created\n";
        if (out === "garbage") so = "nothing here " + tok + "\n";
        break;
      case "rewrite":
        if (out === "ok" || out === "warn") so = "    1 image files created\n";
        if (out === "garbage") so = "nothing here " + tok + "\n";
        break;
      default:
        t.num = n;
        so = out === "err" ? "    0 image files updated\n" : `    ${n} image files updated\n`;
    }
    if (out === "warn") se = `Warning: ${tok} odd - ${file}\n`;
    if (out === "err") se = `Error: ${tok} failed - ${file}\n`;
    const outBuf = Buffer.concat([Buffer.from(so), Buffer.from("{ready}\n")]);
    const cmds = ["peek"];
    if (se) cmds.push("err " + hex(se));
    if (style.split > 0) {
      // cut anywhere, also within a character or the ready line
      const cuts = style.cuts(outBuf.length);
      let at = 0;
      for (const x of [...cuts, outBuf.length]) {
        if (x <= at) continue;
        cmds.push("out " + outBuf.subarray(at, x).toString("hex"));
        if (x < outBuf.length) cmds.push("wait 2");
        at = x;
      }
    } else cmds.push("out " + outBuf.toString("hex"));
    cmds.push("done");
    kid.busy = undefined;
    this.log("rel", { c: kid.name, id, out, tok });
    this.write(kid, cmds);
  }
  write(kid, cmds) {
    try { kid.sock.write(cmds.join("\n") + "\n"); } catch {}
  }
  serving() {
    return [...this.kids.values()].filter((k) => k.busy !== undefined && !k.gone && !k.off);
  }
  open() {
    return [...this.calls.values()].filter((c) => !c.done);
  }
  sample(quiet = false) {
    const { et } = this;
    this.log("sample", {
      quiet, exact: quiet || Date.now() - this.lastAt >= 15, ended: et.ended, busy: et.busyProcs, pending: et.pendingTasks, spawned: et.spawnedProcs,
      pids: et.pids.map((p) => "p" + p),
    });
  }
  async go() {
    await this.start();
    const { rng } = this;
    const steps = [...this.sched.steps];
    const style = () => ({ deco: this.sched.plain ? 0 : rng.int(0, 4), split: rng.bool(0.5) ? 1 : 0, cuts: (n) => Array.from({ length: rng.int(1, 3) }, () => rng.int(1, n - 1)).sort((a, b) => a - b) });
    const kidOf = (id) => this.serving().find((k) => k.busy === id);
    const enabled = (e) => (e.ev === "rel" || e.ev === "crash" || e.ev === "hang" ? kidOf(e.id) != null : true);
    const act = (e) => {
      const k = e.id && kidOf(e.id);
      switch (e.ev) {
        case "call": this.call(e.id, e.kind); break;
        case "rel": this.release(k, e.out, style()); break;
        case "crash":
          this.log("crash", { c: k.name }); k.off = true; k.busy = undefined;
          this.write(k, rng.bool() ? ["exit"] : ["out " + hex('[{\n  "SourceFile": "' + e.id), "exit"]); break;
        case "hang":
          this.log("hang", { c: k.name }); k.off = true; k.busy = undefined;
          this.write(k, rng.bool() ? ["hang"] : ["out " + hex("[{"), "hang"]); break;
        case "close": {
          this.log("close");
          const p = this.et.closeChildProcesses(e.graceful ?? rng.bool());
          Promise.resolve(p).then(() => this.log("closeok"), (x) => this.log("closefail", { msg: String(x) }));
          break;
        }
        case "end": case "dispose": case "asyncDispose": this.endNow(e); break;
        case "sample": this.sample(); break;
        case "steady": break;
      }
    };
    while (steps.length > 0) {
      let i = enabled(steps[0]) ? 0 : -1;
      if (steps[0].ev === "steady") {
        // wait until as many children serve as possible, then read the accessors
        const want = Math.min(this.sched.cfg.maxProcs, this.open().length);
        await this.until(() => this.serving().length >= want, 8000);
        // calls reach the queue asynchronously: the accessors are exact once nothing happened for a moment
        await this.until(() => Date.now() - this.lastAt >= 15, 2000);
        steps.shift();
        this.sample();
        continue;
      }
      if (i < 0) {
        // the head's call may be backing off or queued: give it a moment, then do what is possible
        await this.until(() => enabled(steps[0]) || this.calls.get(steps[0].id)?.done, 250);
        i = enabled(steps[0]) ? 0 : steps.findIndex((e) => enabled(e) && e.ev !== "call" && e.ev !== "end");
        if (i < 0 && this.calls.get(steps[0].id)?.done) { steps.shift(); continue; }
        if (i < 0) {
          // nothing served at all: wait for a child
          const ok = await this.until(() => steps.some((e) => enabled(e) && (e.ev === "rel" || e.ev === "crash" || e.ev === "hang")) || this.calls.get(steps[0].id)?.done, 10000);
          if (!ok) { steps.shift(); this.skipped = (this.skipped ?? 0) + 1; }
          continue;
        }
      }
      const [e] = steps.splice(i, 1);
      act(e);
      if (e.ev !== "call" && rng.bool(0.3)) await sleep(rng.int(0, 4));
      if (rng.bool(0.15)) this.sample();
    }
    // whatever is left is answered
    const fate = () => this.sched.after ?? "ok";
    const until = Date.now() + 40000;
    while (this.open().length > 0 && Date.now() < until) {
      const k = this.serving()[0];
      if (k) this.release(k, this.calls.get(k.busy)?.kind === "version" ? "ok" : fate(), style());
      else await this.until(() => this.open().length === 0 || this.serving().length > 0, 500);
    }
    if (!this.endedAt) {
      await this.until(() => this.et.spawnedProcs === this.kids.size, 3000);
      await this.until(() => this.et.busyProcs === 0, 5000);
      this.sample(true);
      this.endNow({ ev: "end", graceful: true });
    }
    await this.until(() => this.endOk, 20000);
    const pids = [...this.kids.values()].map((k) => k.pid);
    await this.until(() => pids.every((p) => !alive(p)), 15000);
    this.sample();
    // ending again is harmless
    for (const f of [() => this.et.end(), () => this.et.end(false), () => this.et[Symbol.dispose](), () => this.et[Symbol.asyncDispose]()]) {
      let st = "hang";
      await Promise.race([Promise.resolve().then(f).then(() => (st = "ok"), () => (st = "err")), sleep(10000)]);
      this.log("again", { st });
    }
    await this.until(() => total(this.et.childEndCounts()) >= this.et.spawnedProcs, 3000);
    this.log("final", {
      alive: pids.filter(alive).map((p) => "p" + p), spawned: this.et.spawnedProcs,
      ends: { total: total(this.et.childEndCounts()), timeout: this.et.childEndCounts().timeout ?? 0 },
    });
    for (const p of pids) if (alive(p)) { try { process.kill(p, "SIGKILL"); } catch {} }
    this.server.close();
    for (const k of this.kids.values()) k.sock.destroy();
    if (this.sched.cfg.twins) this.bindTwins();
    return this;
  }
  endNow(e) {
    const { et } = this;
    this.endedAt = true;
    this.log("end");
    const ok = () => { this.endOk = true; this.log("endok"); };
    let p;
    if (e.ev === "dispose") { et[Symbol.dispose](); p = et.end(); }
    else if (e.ev === "asyncDispose") p = et[Symbol.asyncDispose]();
    else p = et.end(e.graceful ?? this.rng.bool());
    Promise.resolve(p).then(ok, (x) => this.log("endfail", { msg: String(x) }));
  }
  /** Identical calls cannot be told apart by their commands: bind each answer to the call that got it. */
  bindTwins() {
    const byTok = new Map();
    for (const e of this.events) if (e.ev === "settle" && e.toks.length === 1 && !byTok.has(e.toks[0])) byTok.set(e.toks[0], e.id);
    const rels = this.events.filter((e) => e.ev === "rel");
    const rename = new Map(); // index of rel -> id
    const free = new Set([...this.calls.keys()].filter((id) => ![...byTok.values()].includes(id)));
    for (const r of rels) rename.set(r, byTok.get(r.tok) ?? [...free][0] ?? r.id);
    for (const r of rels) {
      const at = this.events.indexOf(r);
      for (let i = at - 1; i >= 0; i--) if (this.events[i].ev === "recv" && this.events[i].c === r.c) { this.events[i].id = rename.get(r); break; }
      r.id = rename.get(r);
    }
  }
}
const total = (o) => Object.values(o).reduce((a, b) => a + b, 0);

async function runAll(ctx, scheds, par = 16) {
  const rngf = require("./rng");
  const out = [];
  let i = 0, stuck = 0;
  await Promise.all(Array.from({ length: par }, async () => {
    while (i < scheds.length) {
      const n = i++;
      const r = new Run(ctx, scheds[n], n + 1);
      r.rng = rngf(ctx.seed * 7919 + n);
      const t0 = Date.now();
      out[n] = await r.go();
      // a run that has to wait for something that never comes: a few of them tell enough
      if (Date.now() - t0 > 25000 && ++stuck >= par) i = scheds.length;
    }
  }));
  return out.filter((r) => r);
}
module.exports = { Run, runAll };
