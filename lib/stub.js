"use strict";
process.setMaxListeners(0);
// Drives the public API with scripted ExifTool output: the pool's enqueueTask is
// replaced, everything in /repo/src runs for real (argument building, retry,
// parsing). `reply(cmdLines, n)` returns {stdout, stderr, passed, fail}.
function stubbed(ctx, options, reply) {
  const { ExifTool } = ctx.req("ExifTool.js");
  const et = new ExifTool({ checkPerl: false, ...options });
  const sent = [];
  et.batchCluster.enqueueTask = async (task) => {
    const command = task.command;
    sent.push(command);
    const r = (await reply(command, sent.length)) || {};
    if (r.fail) throw r.fail;
    if (r.stderr) task.onStderr?.(Buffer.from(r.stderr));
    return await task.parser(r.stdout ?? "", r.stderr ?? "", r.passed ?? true);
  };
  et.sent = sent;
  return et;
}

/** Runs f with a deadline: a call that never settles is an outcome, too. */
let hangs = 0;
async function settle(f, ms = 20000) {
  if (hangs > 2) ms = hangs > 20 ? 20 : 1000; // (it is a violation already)
  let t;
  const hang = new Promise((r) => (t = setTimeout(() => { hangs++; r({ st: "hang", v: undefined }); }, ms)));
  const run = (async () => {
    try {
      return { st: "ok", v: await f() };
    } catch (e) {
      return { st: "err", e, msg: e instanceof Error ? e.message : String(e) };
    }
  })();
  const r = await Promise.race([run, hang]);
  clearTimeout(t);
  return r;
}
module.exports = { stubbed, settle };
