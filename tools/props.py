#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": x, "meaning": x, "where": files[0]} for x in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("P01", "Every call settles exactly once, with the answer to that very call",
  "Under any interleaving of concurrent calls, replies, child crashes, hangs, timeouts and process recycling, every accepted call settles exactly once. What it settles with (value, warnings or error) comes from a child's answer to that call and no other: data, warnings and errors of another call, or of an earlier call or attempt, never leak into it.",
  ["schedules", "fault_sequences", "histories"],
  "All interleavings of calls on a pool of child processes, with any reply, crash, hang or garbage per attempt.",
  "Existing tests run a handful of happy-path calls; cross-talk and lost or doubled settlement need specific interleavings of replies, faults and recycling.",
  ["src/ExifTool.ts", "src/ExifToolTask.ts", "src/ReadTask.ts", "src/AsyncRetry.ts"],
  [("task submission", "src/ExifTool.ts enqueueTask"), ("answer parsing", "src/ExifToolTask.ts #parser"), ("source file check", "src/ReadTask.ts parse")],
  ["calls in flight", "child processes and the task each serves", "per-call warnings/errors"],
  ["promise settlement of the public methods", "command log of the child process"])

p("P02", "Writes are sent at most once; retries are bounded and only for safe calls",
  "A write, tag edit or delete-all is transmitted to ExifTool at most once per call, whatever fails. Reads, raw reads, version, binary extraction and rewrites are retransmitted only after a failed attempt, at most the configured number of extra times; such a call is retried until one attempt succeeds or that number is used up, and then rejects with the last attempt's failure. A missing binary payload is a final answer and is not retried.",
  ["fault_sequences", "configurations"],
  "All sequences of per-attempt outcomes, for every public method and every configured retry count.",
  "The tests cover one retry count and few outcome sequences; at-most-once for writes is only visible when a write fails after transmission.",
  ["src/ExifTool.ts", "src/AsyncRetry.ts", "src/BinaryExtractionTask.ts", "src/BinaryToBufferTask.ts"],
  [("retry loop", "src/AsyncRetry.ts retryOnReject"), ("retriable flag", "src/ExifTool.ts enqueueTask/write/editTags")],
  ["attempt counter per call"], ["commands received by the child", "promise settlement"])

p("P03", "Shutdown settles everything and leaves no child process behind",
  "Once an instance has been ended or disposed (synchronously or asynchronously), new calls are rejected, every outstanding call settles, the returned promise resolves, and every child process the instance spawned exits, even one that hangs or ignores the exit request. Ending or disposing again is harmless. Closing only the child processes leaves the instance usable: later calls get fresh children.",
  ["schedules", "crash_points", "histories"],
  "All orders of calls, end, dispose and child-close requests relative to task progress, with hung or crashed children.",
  "Tests end an idle or lightly loaded instance; leaks and unsettled calls appear only for particular points of a running or hung task.",
  ["src/ExifTool.ts"],
  [("end", "src/ExifTool.ts end"), ("disposal", "src/ExifTool.ts Symbol.dispose / Symbol.asyncDispose"), ("child close", "src/ExifTool.ts closeChildProcesses")],
  ["ended flag", "child processes", "outstanding calls"], ["pids of children", "promise settlement", "ended accessor"])

p("P04", "Pool limits hold and broken children are replaced",
  "At no time do more children serve tasks than the configured maximum, no child serves two tasks at once, and no child serves more tasks than the configured per-process limit. A child that crashes or times out is never reused, and later calls are served by a replacement. The instance's accessors for child pids, pending and busy counts, spawned children and end reasons agree with what actually happened.",
  ["schedules", "fault_sequences", "configurations"],
  "All schedules of tasks over the pool, all limits, all crash/timeout points.",
  "Limits are only observable under load and faults the test-suite does not generate.",
  ["src/ExifTool.ts", "src/DefaultExifToolOptions.ts"],
  [("pool construction", "src/ExifTool.ts constructor"), ("accessors", "src/ExifTool.ts pids/pendingTasks/busyProcs/spawnedProcs/childEndCounts")],
  ["children, tasks served per child"], ["command log of the child processes", "public accessors"])

p("P05", "No caller-supplied text can inject or alter ExifTool arguments",
  "For every public method and any file path, tag name, retained tag, extra argument or tag value, the call is either rejected with nothing transmitted, or exactly one command is transmitted whose lines are precisely the intended arguments followed by one execute line. No input adds, splits, merges or drops an argument; file paths are always sent absolute, so a path can never be taken for an option. Tag names outside the allowed characters or that would delimit commands, output paths that ExifTool would expand to another path, and any text that would break a line are rejected; extra arguments are otherwise passed on verbatim, one line each.",
  ["inputs", "configurations"],
  "All strings as paths, tag names, retained tags, extra arguments and values, for each method and option set.",
  "Tests sample a dozen hostile strings; injection needs a particular character at a particular site.",
  ["src/ExifToolTask.ts", "src/TagNameValidation.ts", "src/WriteTask.ts", "src/ReadTask.ts", "src/ReadRawTask.ts", "src/BinaryExtractionTask.ts", "src/BinaryToBufferTask.ts", "src/RewriteAllTagsTask.ts", "src/ExifTool.ts"],
  [("command rendering", "src/ExifToolTask.ts renderCommand"), ("tag name validation", "src/TagNameValidation.ts validateTagName")],
  None, ["bytes sent to the child process"])

p("P06", "Written values decode to exactly what the caller supplied",
  "For any combination of strings, numbers, booleans, dates, lists and structures passed to a write, the transmitted text decodes, under ExifTool's rules for character entities, list separators and structure serialization, to the caller's value (character entities spelled out in the caller's own plain text are decoded, as documented). Values that cannot be represented are rejected. No character of a value can end the value, split it into extra list items, or add or change structure fields. Null and undefined values clear the tag.",
  ["inputs"],
  "All values over an alphabet of delimiters, escapes, whitespace, control and multi-byte characters, nested in lists and structures (text that spells a complete HTML entity is documented as decoded by plain writes and is excluded there).",
  "Encoding is a composition of three escaping layers; tests sample a few strings and never the delimiter combinations in nested positions.",
  ["src/WriteTask.ts", "src/DateTime.ts", "src/Struct.ts"],
  [("value encoder", "src/WriteTask.ts enc/htmlEncode")],
  None, ["argument lines sent to the child", "tags read back by the real ExifTool"])

p("P07", "GPS writes carry matching references and never leak into the caller's object",
  "Writing a numeric GPSLatitude, GPSLongitude or GPSAltitude also writes the matching hemisphere or sea-level reference unless the caller supplied one, writing both numeric coordinates also writes the matching combined position, and clearing a coordinate with null clears its reference. A write depends only on its own arguments: the caller's tag object and options are left unmodified, so reusing an object with changed coordinates never sends stale references.",
  ["histories", "inputs"],
  "All combinations of present/absent/null/numeric GPS fields and references, and all sequences of writes reusing and editing one tag object.",
  "Tests write each object once, so state carried from one write to the next is invisible.",
  ["src/WriteTask.ts"],
  [("GPS handling", "src/WriteTask.ts for")], ["the caller's tag object"], ["argument lines sent to the child", "caller's object after the call", "tags read back"])

p("P08", "Tag edits are exact list operations, and ambiguous edits are refused",
  "For any accepted sequence of add/remove edits, the list stored in the file afterwards holds the items of the previous list that no removal matches exactly, in their order, and each addition, in order, after them or in place of removed items; values are taken literally (text the file's own character set cannot hold is reported by a warning) and all other tags are untouched. Edits that are malformed, not exactly representable, not in the supported vocabulary, or that remove a value the same call added before are rejected with nothing transmitted, as are extra arguments that would change edit semantics.",
  ["inputs", "histories"],
  "All sequences of edits over add/remove values (entities, delimiters, whitespace, multi-byte) and collection structures, applied over successive calls to one file.",
  "Tests check fixed edit lists; the property ranges over histories of list contents and literal values.",
  ["src/TagEdit.ts", "src/WriteTask.ts", "src/ExifTool.ts"],
  [("validation", "src/TagEdit.ts validateTagEdits"), ("edit encoding", "src/WriteTask.ts forTagEdits")],
  ["list values stored in the file"], ["tags read back by the real ExifTool", "argument lines"])

p("P09", "A failed operation is never reported as success, nor the reverse",
  "For any output of ExifTool, a write resolves only if no error was reported, and its created/updated/unchanged counts equal the sums of ExifTool's status lines; every warning and every unrecognised line is listed in its warnings. A rewrite resolves only when ExifTool reports exactly one created image, version only for a well-formed version number, and warnings alone never turn a successful write, rewrite or read into a failure.",
  ["inputs"],
  "All sequences of status, warning, error and unknown lines on stdout and stderr, for each method.",
  "Tests see the few outputs real files produce; mixed and repeated status lines are not generated.",
  ["src/ExifToolTask.ts", "src/IsWarning.ts", "src/WriteTask.ts", "src/RewriteAllTagsTask.ts", "src/VersionTask.ts", "src/ErrorsAndWarnings.ts"],
  [("stderr classification", "src/ExifToolTask.ts #parser, src/IsWarning.ts"), ("status lines", "src/WriteTask.ts parse")],
  None, ["promise settlement and result"])

p("P10", "A read returns the requested file's tags, none lost or invented",
  "A read resolves with one entry for every tag ExifTool reported for the requested file, under the tag's name, either typed (date, time, boolean, binary marker, version text) according to its name and text or as the unchanged raw value when it cannot be parsed; only placeholder values and GPS/geolocation tags of an invalid position are omitted. Output that names a different file is rejected, and every error and warning ExifTool reported appears in the result. A raw read returns ExifTool's values unchanged.",
  ["inputs"],
  "All tag names from the typing classes combined with all value shapes, with and without group prefixes.",
  "Typing is a name-and-text driven case analysis with exceptions; tests sample files, not the case matrix.",
  ["src/ReadTask.ts", "src/ReadRawTask.ts", "src/BinaryField.ts", "src/Boolean.ts", "src/ErrorsAndWarnings.ts"],
  [("per-tag typing", "src/ReadTask.ts #parseTag"), ("file check", "src/ReadTask.ts parse")],
  None, ["resolved tags"])

p("P11", "The inferred time zone follows the documented source priority",
  "The time zone reported for a read is the one given by the highest-priority source present: explicit offset tags, then the GPS position, then offsets embedded in timestamps, then the UTC default for videos, then the difference to a UTC timestamp, then the optional file timestamp; preferring GPS moves it first. A source that is absent, invalid or disabled by options never contributes and never blocks a lower-priority one, and the reported source names the tag used.",
  ["inputs", "configurations"],
  "All subsets of zone sources with valid and invalid values, and all settings of the inference options.",
  "There are thousands of source/option combinations; tests fix a few.",
  ["src/ReadTask.ts", "src/Timezones.ts", "src/GeoTz.ts"],
  [("zone extraction", "src/ReadTask.ts #extractTzOffset"), ("tag offsets", "src/Timezones.ts extractTzOffsetFromTags")],
  None, ["zone and zone source of the read result"])

p("P12", "Each timestamp keeps its wall-clock time and gets the right zone",
  "A timestamp with an explicit offset keeps that offset; UTC-named and GPS timestamps are UTC; a zone-less timestamp of a video defaulting to UTC denotes UTC (shown in the inferred zone, same instant, when backfilling) and every other zone-less timestamp gets the inferred zone when backfilling is on and no zone otherwise. Otherwise, assigning a zone to a zone-less timestamp never changes its wall-clock fields (unless that zone's clocks skip that time), and whether the zone was inferred is reported.",
  ["inputs", "configurations"],
  "All tag classes, embedded-offset forms, file types, inferred zones and option settings.",
  "The combination of tag class, file type, embedded offset and options is not enumerated by tests.",
  ["src/ReadTask.ts", "src/ExifDateTime.ts", "src/Timezones.ts"],
  [("default zone choice", "src/ReadTask.ts #defaultToUTC / #parseTag"), ("zone application", "src/ExifDateTime.ts setZone")],
  None, ["date fields of the read result"])

p("P13", "GPS positions are normalised or dropped as a whole",
  "A numeric position of latitude and longitude in range is reported with its magnitude rounded to six decimals, negative when its reference is S or W, with hemisphere references corrected to agree with the signs (where the geolocation result is within one degree of the coordinate with the other sign, but not of the coordinate itself, the sign is corrected, too); each correction is reported by a warning. A position out of range, and zero-zero when so configured, removes every GPS and geolocation tag (grouped or not) and adds a warning; other tags stay. A half-missing or unparsable position is passed on as reported. Coordinates are never altered beyond sign correction and rounding.",
  ["inputs", "configurations"],
  "All combinations of numeric/DMS/combined positions, references, geolocation hints and the zero-zero option.",
  "Sign, reference and fallback sources interact; tests sample a few.",
  ["src/GPS.ts", "src/ReadTask.ts", "src/CoordinateParser.ts"],
  [("normalisation", "src/GPS.ts parseGPSLocation"), ("dropping", "src/ReadTask.ts #extractGpsMetadata")],
  None, ["GPS fields of the read result"])

p("P14", "Coordinates parse to their exact value or are rejected",
  "Parsing a coordinate or position in decimal, degrees-minutes or degrees-minutes-seconds form, with any accepted symbols and hemisphere letter, yields the sum of its parts, negative for a minus sign or a S or W letter, rounded to six decimals. Text with minutes or seconds of sixty or more, degrees beyond the range of the axis its letter names, a letter of the wrong axis or two of the same axis, missing parts or anything following it is rejected rather than guessed.",
  ["inputs"],
  "All coordinate texts over the grammar's alphabet.",
  "The grammar has many optional parts; tests sample a few dozen texts.",
  ["src/CoordinateParser.ts"],
  [("parser", "src/CoordinateParser.ts")], None, ["returned coordinates or thrown error"])

p("P15", "Dates, times and timestamps survive every text and JSON round trip",
  "Every accepted date, time or timestamp text (years 2 to 9999) is a real calendar date and clock time with exactly the fields, precision and offset the text states, whatever the system's time zone is; formatting it and parsing it back (ExifTool form, ISO form) yields the same fields, precision and UTC offset, and a JSON round trip yields an equal value including zone name, zone-inference flag and raw text. Impossible or malformed texts (13th month, 31 April, hour 25, wrong weekday) are rejected instead of rolled over to another date. A whole read result serialised to JSON and revived equals the original.",
  ["inputs"],
  "All calendar dates, partial dates, times, fractional seconds, offsets and zone names, including leap years and impossible dates.",
  "Round trips must hold for every date and fraction; tests sample a handful.",
  ["src/ExifDate.ts", "src/ExifTime.ts", "src/ExifDateTime.ts", "src/TimeParsing.ts", "src/JSON.ts", "src/DateTime.ts", "src/BinaryField.ts", "src/InvalidUtf8Bytes.ts"],
  [("parsers and formatters", "src/ExifDate.ts, src/ExifTime.ts, src/ExifDateTime.ts"), ("JSON", "src/JSON.ts")],
  None, ["parsed values, formatted text, revived values"])

p("P16", "Changing zone preserves the instant; arithmetic is exact",
  "Converting a timestamp or time with a known zone to another zone keeps the instant it denotes and reports the new zone, while keeping local time (or declaring the zone of a zone-less value) keeps every wall-clock field, unless the zone's clocks skip that time. Adding a duration moves the instant by exactly that duration, carrying into days, months (clamped to the month's last day) and years, and the result keeps zone, zone-inference flag and precision. Values are immutable, and none of this depends on the system's time zone.",
  ["inputs", "histories"],
  "All timestamps, offsets and durations, and all sequences of zone changes and additions.",
  "Carries across day, month and year ends and chained conversions are not enumerated by tests.",
  ["src/ExifDateTime.ts", "src/ExifTime.ts"],
  [("zone change", "src/ExifDateTime.ts setZone, src/ExifTime.ts setZone"), ("addition", "src/ExifDateTime.ts plus")],
  None, ["resulting values"])

p("P17", "Zone text is normalised consistently, and only to real offsets",
  "A text or number is accepted as a zone only if it denotes an offset the current settings consider valid or a known zone name, all accepted spellings of one offset normalise to one name, normalising twice changes nothing, and equivalent zones have equal offsets. Offsets inferred from a time difference are the nearest valid offset within the configured tolerance. After any sequence of settings changes, results depend only on the current settings, never on earlier ones.",
  ["inputs", "histories", "configurations"],
  "All offset spellings and minute offsets, all settings histories interleaved with queries.",
  "Derived tables are cached; staleness only shows after particular settings histories.",
  ["src/Timezones.ts", "src/Settings.ts", "src/Lazy.ts"],
  [("normalisation", "src/Timezones.ts normalizeZone/extractZone"), ("offset tables", "src/Timezones.ts validTzOffsetMinutes")],
  ["current settings", "cached tables"], ["returned zones and offsets"])

p("P18", "Binary extraction delivers the exact bytes or fails, never clobbering",
  "Extracting a binary tag to a file or buffer yields exactly the embedded bytes, or the call rejects. An existing destination file is left untouched unless forced writing was requested, in which case it is replaced; a missing tag, missing source or unwritable destination rejects.",
  ["inputs", "histories", "configurations"],
  "All combinations of tag presence, destination state, force option and ExifTool outcome, over sequences of extractions to the same destinations.",
  "The destination's history and the option interact; tests check each once.",
  ["src/BinaryExtractionTask.ts", "src/BinaryToBufferTask.ts", "src/ExifTool.ts"],
  [("extraction", "src/BinaryExtractionTask.ts"), ("buffer", "src/BinaryToBufferTask.ts")],
  ["destination files"], ["files on disk", "promise settlement"])

p("P19", "Malformed UTF-8 is repaired visibly and its bytes are recoverable",
  "Text that is not valid UTF-8 is reported with replacement characters and, under exactly the same tag name and list or structure position, its original bytes are available; valid text is reported unchanged and has no byte record. Metadata that merely looks like the internal transport marker is passed through unharmed. Supplying a custom filter disables both.",
  ["inputs"],
  "All byte strings in tag values, at any nesting of lists and structures.",
  "Byte-level repair must hold for every byte string and position; tests sample a few.",
  ["src/InvalidUtf8Bytes.ts", "src/Utf8JsonFilter.ts", "src/ReadTask.ts", "src/ReadRawTask.ts"],
  [("filter", "src/Utf8JsonFilter.ts"), ("unwrapping", "src/InvalidUtf8Bytes.ts")],
  None, ["read results", "byte sidecar"])

p("P20", "Per-call options beat instance options beat defaults, without leaking",
  "The effective options of a call are the library defaults overridden by the instance's options overridden by the call's own, for every method and both call signatures; an explicit argument list always replaces the inherited one. No call or instance changes the defaults, another instance's options, or any later call's options, and deprecated option names act as their replacements.",
  ["histories", "configurations"],
  "All combinations of options at the three levels and all call sequences on several instances.",
  "Leaks between calls and instances only show in particular call histories.",
  ["src/ExifTool.ts", "src/ExifToolOptions.ts", "src/DefaultExifToolOptions.ts", "src/ReadTask.ts", "src/WriteTask.ts"],
  [("option merge", "src/ExifTool.ts read/readRaw/write/editTags"), ("deprecated options", "src/ExifToolOptions.ts handleDeprecatedOptions")],
  ["defaults, instance options"], ["argument lines sent to the child"])

p("P21", "Settings notify observers exactly on change and reset to their defaults",
  "Reading a global setting returns the last value assigned, or its default when none was assigned or it was reset; each registered observer hears of every actual change exactly once with the old and new value, none after it unregisters, and a failing observer never prevents the change or other notifications. Lazily computed values are computed at most once until cleared, and never served stale after a settings change.",
  ["histories"],
  "All sequences of assign, reset, observe, unobserve, compute and clear.",
  "Ordering and re-entrancy of observers need specific histories.",
  ["src/Settings.ts", "src/Lazy.ts"],
  [("observable setting", "src/Settings.ts Setting"), ("lazy", "src/Lazy.ts")],
  ["setting values, observers"], ["returned values, observer calls"])

p("P22", "Tag descriptions come from the matching ExifTool, whatever the cache state",
  "Looking up a tag's description returns the curated text when there is one, otherwise the description produced by the ExifTool version and language in use, and nothing for unknown names. A disk cache that is missing, truncated, unparsable, of the wrong shape, or written for another ExifTool version or language never changes an answer: it is regenerated, and a failure to read or write the cache or a failed generation does not poison later lookups after clearing.",
  ["histories", "crash_points"],
  "All sequences of lookups, clears and cache corruptions at any byte.",
  "Cache states after crashes or version changes are not generated by tests.",
  ["src/TagDescriptions.ts", "src/ListXTask.ts"],
  [("description cache", "src/TagDescriptions.ts")],
  ["memory and disk cache"], ["returned descriptions"])

p("P23", "A file holds what the sequence of operations on it says",
  "After any sequence of writes, tag edits, tag deletions, rewrites to a new file and reads, on any number of files at once and whatever the files are called, each file holds exactly the tags those operations gave it: set and cleared tags as asked, edited lists with what was added and without what was removed, only the retained tags after a deletion, and every tag that was not addressed, every other file and the source of a rewrite as before. The reported counts (created, updated, unchanged) say what happened; an operation that is rejected or reports no change leaves every byte as it was; the backup ExifTool keeps is the file as it was before its first backed-up change. When a child process dies in the middle, the file is as before or as after the one operation, never something else, and reads deliver the same values as an independent ExifTool.",
  ["histories", "fault_sequences", "inputs"],
  "All sequences of operations over several files, file names, tags and values, including concurrent ones and ones whose child process is killed.",
  "Tests do one or two operations on a freshly made file with a plain name; damage shows in particular sequences, names and combinations of options.",
  ["src/ExifTool.ts", "src/WriteTask.ts", "src/RewriteAllTagsTask.ts", "src/DeleteAllTagsArgs.ts", "src/ReadTask.ts", "src/ReadRawTask.ts"],
  [("write", "src/WriteTask.ts for / forEdits"), ("deletion", "src/ExifTool.ts deleteAllTags"), ("rewrite", "src/RewriteAllTagsTask.ts")],
  ["files, their tags and bytes, their backups"], ["the files themselves, read by the library and by a fresh ExifTool", "promise settlement"])

p("P24", "Children are started exactly as configured, and listeners hear of each",
  "Every child process of an instance, be it the first, a replacement for one that died or one started after all were closed, is the configured program with exactly the configured arguments and environment: the program named by text, promise or function (the vendored one when blank), worked out once; through perl when the shebang is to be ignored; with the configured environment variables and no others, except that LANG is always C and EXIFTOOL_HOME is inherited from the host unless configured. A caller's own process factory replaces all that and is used once per child. Nothing else is started, and instances do not affect each other. Life-cycle listeners hear of each child's start and end exactly once, until they unregister, and of the instance's end once. A program that cannot be started never takes down the host process: each failure is announced, waiting calls are served once it can be started, and rejected when the instance ends.",
  ["histories", "fault_sequences", "configurations"],
  "All configurations of path, shebang, arguments, environment and factory, with all sequences of calls, closings, killings, failures to start, unregistrations and end.",
  "Tests start the default program once in the default way; replacements, failing starts and unusual environments are not sampled.",
  ["src/ExifTool.ts", "src/ExiftoolPath.ts", "src/Which.ts", "src/DefaultExifToolOptions.ts", "src/Lazy.ts"],
  [("process factory", "src/ExifTool.ts constructor"), ("program", "src/ExifTool.ts exiftoolPath, src/ExiftoolPath.ts"), ("listeners", "src/ExifTool.ts on / off")],
  ["child processes, their command lines and environments"], ["/proc of the children", "life-cycle events, promise settlement"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
