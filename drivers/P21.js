"use strict";
// P21: settings, observers and lazy values, against spec/Settings.tla.
const { generate, judge } = require("../lib/tlc");

exports.assumptions = [
  "an observer that registers while a change is being delivered may or may not hear of that change",
  "one function registered once; values compare by identity",
];

exports.run = async (ctx) => {
  const { model, rows } = await generate("MC_Settings");
  ctx.addModel(model);
  const { rng } = ctx;
  const { Setting, Settings } = ctx.req("Settings.js");
  const { lazy } = ctx.req("Lazy.js");
  const TZ = ctx.req("Timezones.js");

  /** runs a program on a fresh setting and records its history */
  function play(kinds, ops, def = 0) {
    const s = new Setting(def);
    const h = [];
    const un = {};
    let depth = 0;
    const read = () => h.push({ op: "read", v: depth % 2 ? s.valueOf() : s.value });
    const request = (op, v) => {
      h.push(op === "set" ? { op, v } : { op });
      depth++;
      try {
        if (op === "set") s.value = v;
        else s.reset();
      } catch {
        // an observer's error may reach the caller
      }
      depth--;
      h.push({ op: "done" });
      read();
    };
    const fns = {};
    kinds.forEach((k, ix) => {
      const i = ix + 1;
      fns[i] = (o, n) => {
        h.push({ op: "call", i, o, n });
        const other = (i % kinds.length) + 1;
        if (k === "unself") drop(i);
        if (k === "unother") drop(other);
        if (k === "subother") add(other);
        if (k === "again" && depth < 3) request("set", (n + 1) % 3);
        if (k === "backagain" && depth < 3) request("reset");
        if (k === "throw") throw new Error("observer " + i);
        if (k === "throwself") { drop(i); throw "text"; }
      };
    });
    const add = (i) => { if (un[i]) return; h.push({ op: "sub", i }); un[i] = s.onChange(fns[i]); };
    const drop = (i) => { if (!un[i]) return; const f = un[i]; delete un[i]; f(); h.push({ op: "unsub", i }); };
    for (const o of ops) {
      if (o.o === "sub") add(o.i);
      else if (o.o === "unsub") drop(o.i);
      else request(o.o, o.v);
      if (s.toString() !== String(s.value) || s.valueOf() !== s.value) h.push({ op: "read", v: -99 });
    }
    read();
    return { op: "history", default: def, h };
  }
  const events = [];
  const picks = ctx.thorough ? rows : rng.sample(rows, 6000);
  for (const r of picks) events.push(play(r.kind, r.ops));
  const K = ["plain", "plain", "throw", "unself", "unother", "again", "subother", "backagain", "throwself"];
  for (let n = 0; n < (ctx.thorough ? 20000 : 3000); n++) {
    const kinds = Array.from({ length: rng.int(1, 4) }, () => rng.pick(K));
    const ops = Array.from({ length: rng.int(2, 14) }, () => {
      const o = rng.pick(["sub", "sub", "unsub", "set", "set", "set", "reset"]);
      return { o, i: rng.int(1, kinds.length), v: rng.int(0, 2) };
    });
    events.push(play(kinds, ops, rng.int(0, 2)));
  }
  // lazy values
  for (let n = 0; n < (ctx.thorough ? 8000 : 1500); n++) {
    let calls = 0;
    const plan = Array.from({ length: 8 }, () => rng.pick(["v", "v", "u", "n", "f", "throw"]));
    const made = []; // the outcome of each computation
    const f = lazy(() => {
      const p = plan[calls++ % 8];
      made.push(p === "throw" ? "err e" + calls : "ok " + (p === "v" ? "v" + calls : p === "u" ? undefined : p === "n" ? null : false));
      if (p === "throw") throw new Error("e" + calls);
      return p === "v" ? "v" + calls : p === "u" ? undefined : p === "n" ? null : false;
    });
    const h = [];
    for (let i = 0; i < rng.int(1, 8); i++) {
      if (rng.bool(0.3)) { f.clear(); h.push({ op: "clear" }); }
      else {
        let r;
        try { r = "ok " + String(f()); } catch (e) { r = "err " + (e && e.message); }
        h.push({ op: "call", r, n: calls, made: made[calls - 1] ?? "" });
      }
    }
    events.push({ op: "lazy", h: h.length ? h : [{ op: "clear" }] });
  }
  // global settings: what is derived from them follows every change, also when
  // observers fail, and one reset restores them all
  const names = ["allowArchaicTimezoneOffsets", "allowBakerIslandTime", "maxValidOffsetMinutes"];
  const defaults = [false, false, 30];
  const probes = [-630, -270, -44, 20, 30, 84, 90, 150, 291, 340, 440, 450, -720, -660, 0, 480, 345, 100, 1000, 345.5, -750, -745, 495];
  for (let n = 0; n < (ctx.thorough ? 1500 : 250); n++) {
    Settings.reset();
    const uns = [];
    const logs = names.map((_, i) => ({ op: "history", default: Number(defaults[i]), h: [] }));
    for (let i = 0; i < rng.int(1, 9); i++) {
      const o = rng.pick(["set", "set", "set", "reset", "sub", "subthrow", "unsub"]);
      const k = rng.int(0, 2);
      const st = Settings[names[k]];
      if (o === "sub" || o === "subthrow") {
        const id = i + 1;
        logs[k].h.push({ op: "sub", i: id });
        uns.push([k, id, st.onChange((a, b) => { logs[k].h.push({ op: "call", i: id, o: Number(a), n: Number(b) }); if (o === "subthrow") throw new Error("observer"); })]);
      } else if (o === "unsub") {
        if (uns.length) { const [kk, id, f] = uns.splice(rng.int(0, uns.length - 1), 1)[0]; f(); logs[kk].h.push({ op: "unsub", i: id }); }
      } else if (o === "set") {
        const v = k === 2 ? rng.pick([0, 5, 15, 30, 60]) : rng.bool();
        logs[k].h.push({ op: "set", v: Number(v) });
        try { st.value = v; } catch { /* */ }
        logs[k].h.push({ op: "done" });
      } else {
        for (const g of logs) g.h.push({ op: "reset" });
        try { Settings.reset(); } catch { /* */ }
        for (const g of logs) g.h.push({ op: "done" });
      }
      logs.forEach((g, j) => g.h.push({ op: "read", v: Number(Settings[names[j]].value) }));
      events.push({
        op: "offsets", st: { arch: Settings.allowArchaicTimezoneOffsets.value, baker: Settings.allowBakerIslandTime.value, tol: Settings.maxValidOffsetMinutes.value, abbr: [] },
        q: rng.sample(probes, 8).map((m) => {
          const near = TZ.inferLikelyOffsetMinutes(m);
          return { sec: m * 60, valid: TZ.validTzOffsetMinutes(m), near: { ok: near != null, sec: Math.round((near ?? 0) * 60) } };
        }),
      });
    }
    for (const [, , f] of uns) f();
    events.push(...logs.filter((g) => g.h.length));
  }
  Settings.reset();
  await judge(ctx, "SettingsTrace", events, { key: (e) => e.op + "|" + JSON.stringify(e.h ?? e.q).slice(0, 200) });
};
