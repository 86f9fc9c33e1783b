"use strict";
// node timeworker.js <job.json>: runs in its own process so that TZ is the job's.
const fs = require("node:fs");
const path = require("node:path");
const job = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
const rng = require("./rng")(job.seed);
const { knownZone, offsetAt, instantsOf } = require("./intl");
const O = require("./timeobs");
const req = (m) => require(path.join(job.dist, m));
const events = require("./" + job.script + ".js")({ job, rng, req, knownZone, offsetAt, instantsOf, O });
fs.writeFileSync(job.out, events.map((e) => JSON.stringify(e)).join("\n") + "\n");
