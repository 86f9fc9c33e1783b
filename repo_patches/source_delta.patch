From d5329e3e535cb78c1c91e05cd52c8d8f2990aed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:06 +0000
Subject: [PATCH 01/47] fix: only a {ready} line ends an ExifTool response

The pass/fail tokens were matched anywhere in the child's output, so a tag
value or filename containing the text {ready} ended the response early: the
read was rejected (or its text altered) and the rest of the output was
attributed to no task.
---
 src/DefaultExifToolOptions.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/DefaultExifToolOptions.ts b/src/DefaultExifToolOptions.ts
index a330767..2af44e0 100644
--- a/src/DefaultExifToolOptions.ts
+++ b/src/DefaultExifToolOptions.ts
@@ -60,8 +60,11 @@ export const DefaultExifToolOptions: Omit<
   exiftoolArgs: DefaultExiftoolArgs,
   exiftoolEnv: {},
   checkPerl: !isWin32(),
-  pass: "{ready}",
-  fail: "{ready}",
+  // ExifTool ends every response with a `{ready}` line on stdout. The bare text
+  // "{ready}" can also be part of a tag value, a filename, or a warning, which
+  // must not be mistaken for the end of the response.
+  pass: /\{ready\}\r?\n$/,
+  fail: /(?:^|\n)\{ready\}\r?\n$/,
   exitCommand: "-stay_open\nFalse\n",
   versionCommand: new VersionTask().command,
   healthCheckIntervalMillis: 30000,
-- 
2.43.0


From bb15c0ed6de7408b2642d57d325d6386ddb3d19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:12 +0000
Subject: [PATCH 02/47] fix: decode child output that splits a multi-byte
 character across chunks

Each chunk was decoded on its own, so text larger than one pipe read had
multi-byte characters replaced with U+FFFD.
---
 src/ExifToolTask.ts | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ExifToolTask.ts b/src/ExifToolTask.ts
index c3557d6..d4e6f94 100644
--- a/src/ExifToolTask.ts
+++ b/src/ExifToolTask.ts
@@ -1,4 +1,5 @@
 import * as bc from "batch-cluster";
+import { StringDecoder } from "node:string_decoder";
 import { ExifToolOptions } from "./ExifToolOptions";
 import { isWarning } from "./IsWarning";
 import { Maybe } from "./Maybe";
@@ -35,6 +36,11 @@ export abstract class ExifToolTask<T> extends bc.Task<T> {
   readonly errors: string[] = [];
   readonly warnings: string[] = [];
 
+  // The child's output arrives in arbitrary chunks, which may split a
+  // multi-byte character:
+  readonly #stdoutDecoder = new StringDecoder("utf8");
+  readonly #stderrDecoder = new StringDecoder("utf8");
+
   constructor(
     readonly args: string[],
     readonly options?: ExifToolTaskOptions,
@@ -44,6 +50,12 @@ export abstract class ExifToolTask<T> extends bc.Task<T> {
     );
   }
 
+  override onStdout(buf: string | Buffer): void {
+    super.onStdout(
+      typeof buf === "string" ? buf : this.#stdoutDecoder.write(buf),
+    );
+  }
+
   override onStderr(buf: string | Buffer): void {
     if (BadPerlInstallationRE.test(buf.toString())) {
       // This isn't an error we can recover from: there's a Perl module that
@@ -52,7 +64,9 @@ export abstract class ExifToolTask<T> extends bc.Task<T> {
       // details.
       throw new Error(buf.toString());
     }
-    super.onStderr(buf);
+    super.onStderr(
+      typeof buf === "string" ? buf : this.#stderrDecoder.write(buf),
+    );
   }
 
   #parser(stdout: string, stderr: string | undefined, passed: boolean): T {
-- 
2.43.0


From 107468ad10dfdf74f5f9ed9575cfde28bf57bb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:12 +0000
Subject: [PATCH 03/47] fix: rewriteAllTags() into a directory that ExifTool
 creates

ExifTool reports '1 directories created' before '1 image files created', and
only the start of the output was matched, so the call was rejected (and
retried) although the output file had been written.
---
 src/RewriteAllTagsTask.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RewriteAllTagsTask.ts b/src/RewriteAllTagsTask.ts
index 61a4d9d..7344db4 100644
--- a/src/RewriteAllTagsTask.ts
+++ b/src/RewriteAllTagsTask.ts
@@ -49,7 +49,7 @@ export class RewriteAllTagsTask extends ExifToolTask<void> {
         throw error;
       }
     }
-    if (null == data.match(/^\s*1 image files creat/i)) {
+    if (null == data.match(/^\s*1 image files creat/im)) {
       throw (
         error ??
         new Error(
-- 
2.43.0


From 7578bbd561b29392b9ae9019b8046866df5f6318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:30 +0000
Subject: [PATCH 04/47] fix: don't count created directories as created files

A write with -o into a new directory reported created: 2.
---
 src/WriteTask.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 10aa6b2..91e0428 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -291,6 +291,9 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
     let unchanged = 0;
 
     for (const line of splitLines(data)) {
+      // new directories aren't created files:
+      if (DirectoriesCreatedRE.test(line)) continue;
+
       const m_created = CreatedRE.exec(line)?.groups?.count;
       if (m_created != null) {
         created += toInt(m_created) ?? 0;
@@ -329,6 +332,9 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
   }
 }
 
+// "    1 directories created" (when -o or -out names a new directory)
+const DirectoriesCreatedRE = /^\d+ directories created$/i;
+
 // "0 files created" | "0 file created" | "    1 image files created"
 const CreatedRE = /(?<count>\d{1,5}) [\w ]{1,12}\bcreated$/i;
 
-- 
2.43.0


From 04959208be470c9db095eed95e7e91dcc6d1f5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:52 +0000
Subject: [PATCH 05/47] fix: report write counts of 100000 files and more

The count pattern was limited to the last five digits of the status line.
---
 src/WriteTask.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 91e0428..da8a19f 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -336,10 +336,10 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
 const DirectoriesCreatedRE = /^\d+ directories created$/i;
 
 // "0 files created" | "0 file created" | "    1 image files created"
-const CreatedRE = /(?<count>\d{1,5}) [\w ]{1,12}\bcreated$/i;
+const CreatedRE = /^(?<count>\d+) [\w ]{1,12}\bcreated$/i;
 
 const UnchangedRE =
-  /(?<count>\d{1,5}) [\w ]{1,12}\b(?:weren't updated|unchanged)$/i;
+  /^(?<count>\d+) [\w ]{1,12}\b(?:weren't updated|unchanged)$/i;
 
 // "1 image files updated"
-const UpdatedRE = /(?<count>\d{1,5}) [\w ]{1,12}\bupdated$/i;
+const UpdatedRE = /^(?<count>\d+) [\w ]{1,12}\bupdated$/i;
-- 
2.43.0


From 280e271356e52a3d08cfa3d3cd78b5713770e2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:55 +0000
Subject: [PATCH 06/47] fix: rewriteAllTags() of an image without metadata

ExifTool then reports '1 image files copied': the output file is written, but
the call was rejected.
---
 src/RewriteAllTagsTask.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RewriteAllTagsTask.ts b/src/RewriteAllTagsTask.ts
index 7344db4..7957188 100644
--- a/src/RewriteAllTagsTask.ts
+++ b/src/RewriteAllTagsTask.ts
@@ -49,7 +49,7 @@ export class RewriteAllTagsTask extends ExifToolTask<void> {
         throw error;
       }
     }
-    if (null == data.match(/^\s*1 image files creat/im)) {
+    if (null == data.match(/^\s*1 image files (?:creat|copied)/im)) {
       throw (
         error ??
         new Error(
-- 
2.43.0


From b104172ad42e2b45a711e9ad48ddbf220680a370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:32 +0000
Subject: [PATCH 07/47] fix: preserve leading whitespace of written strings

ExifTool strips one space after the '=' of an argument and leading whitespace
of structure fields; editTags() already encoded both, write() did not.
---
 src/WriteTask.ts | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index da8a19f..0b4d4bc 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -45,18 +45,16 @@ function enc(
     // Structs need their own escaping here.
     // See https://exiftool.org/struct.html#Serialize
     const structurallyEscaped = structValue
-      ? (htmlDecodeLayers > 0 && /^\s/.test(o) ? "|" : "") +
+      ? // ExifTool skips unescaped leading whitespace:
+        (/^\s/.test(o) ? "|" : "") +
         o.replace(/[,[\]{}|]/g, (ea) => "|" + ea)
       : o;
     let entityProtected = structurallyEscaped;
     for (let i = 0; i < htmlDecodeLayers; i++) {
       entityProtected = entityProtected.replace(/&/g, "&#38;");
     }
-    if (
-      !structValue &&
-      htmlDecodeLayers > 0 &&
-      entityProtected.startsWith(" ")
-    ) {
+    // ExifTool drops an unencoded space after the `=` of an argument:
+    if (!structValue && entityProtected.startsWith(" ")) {
       entityProtected = "&#32;" + entityProtected.slice(1);
     }
     return htmlEncode(entityProtected);
-- 
2.43.0


From 0ca8a599775435b20060096eed74cea84c1d0f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:49 +0000
Subject: [PATCH 08/47] fix: serialize lists within structures when writing

Lists of strings or numbers within a structure were joined with the unit
separator, which ExifTool only splits at the top level, and their items were
not escaped: items were merged, and everything after a comma was lost.
---
 src/WriteTask.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 0b4d4bc..9f94dd6 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -61,10 +61,13 @@ function enc(
   } else if (isDateOrTime(o)) {
     return toExifString(o);
   } else if (Array.isArray(o)) {
-    const primitiveArray = o.every((ea) => isString(ea) || isNumber(ea));
+    // ExifTool doesn't split structure fields by -sep, so lists within
+    // structures must always be serialized:
+    const primitiveArray =
+      !structValue && o.every((ea) => isString(ea) || isNumber(ea));
     return primitiveArray
       ? `${o.map((ea) => enc(ea, false, htmlDecodeLayers)).join(sep)}`
-      : `[${o.map((ea) => enc(ea, false, htmlDecodeLayers)).join(",")}]`;
+      : `[${o.map((ea) => enc(ea, true, htmlDecodeLayers)).join(",")}]`;
   } else if (isStruct(o)) {
     // See https://exiftool.org/struct.html#Serialize
     return `{${keys(o)
-- 
2.43.0


From a468f6040ac5953ddf9df9509e66fa9db8b2575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:53 +0000
Subject: [PATCH 09/47] fix: write every item of a list of dates or booleans

Lists with items other than strings and numbers were serialized as [a,b],
which ExifTool only parses for structures: only the first date was written.
---
 src/WriteTask.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 9f94dd6..f6c00e5 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -62,10 +62,11 @@ function enc(
     return toExifString(o);
   } else if (Array.isArray(o)) {
     // ExifTool doesn't split structure fields by -sep, so lists within
-    // structures must always be serialized:
-    const primitiveArray =
-      !structValue && o.every((ea) => isString(ea) || isNumber(ea));
-    return primitiveArray
+    // structures must always be serialized. It only parses the serialization
+    // for structures, so all other lists (like dates) must use -sep.
+    const separable =
+      !structValue && !o.some((ea) => Array.isArray(ea) || isStruct(ea));
+    return separable
       ? `${o.map((ea) => enc(ea, false, htmlDecodeLayers)).join(sep)}`
       : `[${o.map((ea) => enc(ea, true, htmlDecodeLayers)).join(",")}]`;
   } else if (isStruct(o)) {
-- 
2.43.0


From 564d4e044c27115134e48b3a1495b41649cd7778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:08 +0000
Subject: [PATCH 10/47] fix: write() no longer edits the caller's tags object

The inferred GPS references were stored in the caller's object, so reusing it
with other coordinates wrote the references of the previous write.
---
 src/WriteTask.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index f6c00e5..1e1f6dc 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -161,6 +161,10 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
     tags: WriteTags,
     options: Partial<WriteTaskOptions> & Required<ExifToolTaskOptions>,
   ): WriteTask {
+    // Don't edit the caller's object: inferred values would be stale if it's
+    // reused for another write.
+    tags = { ...tags };
+
     // Special handling for GPSLatitude and GPSLongitude (due to differences
     // in EXIF, XMP, and MIE encodings). See
     // https://exiftool.org/forum/index.php?topic=14488.0 and
-- 
2.43.0


From 109804888108160d2a65a6b4ac7b9e42abc5b801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:10 +0000
Subject: [PATCH 11/47] fix: reject tag names that delimit ExifTool commands

extractBinaryTag*() with the tag name 'execute' sent two commands in one, so
the answer to the second was attributed to the next call.
---
 src/TagNameValidation.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/TagNameValidation.ts b/src/TagNameValidation.ts
index e1d8585..a9c143a 100644
--- a/src/TagNameValidation.ts
+++ b/src/TagNameValidation.ts
@@ -21,6 +21,12 @@
  */
 const ValidTagNameRE = /^[A-Za-z0-9_:*?+#^][A-Za-z0-9_:\-*?+#^]*$/;
 
+/**
+ * These would be taken for the options that delimit commands in `-stay_open`
+ * mode, and would desynchronize commands and responses.
+ */
+const ReservedNameRE = /^(?:execute\d*|stay_open)$/i;
+
 /**
  * Throw if `name` is not a safe ExifTool tag reference.
  *
@@ -33,7 +39,11 @@ const ValidTagNameRE = /^[A-Za-z0-9_:*?+#^][A-Za-z0-9_:\-*?+#^]*$/;
  * interpolated into an exiftool argument.
  */
 export function validateTagName(name: string, context = "tag name"): void {
-  if (typeof name !== "string" || !ValidTagNameRE.test(name)) {
+  if (
+    typeof name !== "string" ||
+    !ValidTagNameRE.test(name) ||
+    ReservedNameRE.test(name)
+  ) {
     throw new Error(
       `Invalid ${context}: ${JSON.stringify(name)}. ` +
         `Tag names must match ${ValidTagNameRE}.`,
-- 
2.43.0


From 2ee1d3e77a6d72b3e99b5b10b008b07342300b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:53 +0000
Subject: [PATCH 12/47] fix: reject output paths that ExifTool would expand to
 some other path

---
 src/BinaryExtractionTask.ts |  4 +++-
 src/OutputPath.ts           | 22 ++++++++++++++++++++++
 src/RewriteAllTagsTask.ts   |  3 ++-
 3 files changed, 27 insertions(+), 2 deletions(-)
 create mode 100644 src/OutputPath.ts

diff --git a/src/BinaryExtractionTask.ts b/src/BinaryExtractionTask.ts
index 5f71225..b3b7d7f 100644
--- a/src/BinaryExtractionTask.ts
+++ b/src/BinaryExtractionTask.ts
@@ -4,6 +4,7 @@ import { ExifToolOptions } from "./ExifToolOptions";
 import { ExifToolTask } from "./ExifToolTask";
 import { Utf8FilenameCharsetArgs } from "./FilenameCharsetArgs";
 import { Maybe } from "./Maybe";
+import { resolveOutputPath } from "./OutputPath";
 import { toS } from "./String";
 import { validateTagName } from "./TagNameValidation";
 
@@ -39,6 +40,7 @@ export class BinaryExtractionTask extends ExifToolTask<Maybe<string>> {
     options?: BinaryExtractionTaskOptions,
   ): BinaryExtractionTask {
     validateTagName(tagname);
+    const dest = resolveOutputPath(imgDest);
     // Ensure the destination directory exists:
     mkdirSync(path.dirname(imgDest), { recursive: true });
 
@@ -58,7 +60,7 @@ export class BinaryExtractionTask extends ExifToolTask<Maybe<string>> {
       // I also tried `-out` instead of `-W`, and that didn't work at least on
       // ExifTool 13.17.
       forceWrite ? "-W!" : "-W",
-      path.resolve(imgDest),
+      dest,
       path.resolve(imgSrc),
     ];
     return new BinaryExtractionTask(args, options);
diff --git a/src/OutputPath.ts b/src/OutputPath.ts
new file mode 100644
index 0000000..42aefdb
--- /dev/null
+++ b/src/OutputPath.ts
@@ -0,0 +1,22 @@
+import { resolve } from "node:path";
+
+// See `FilenameSPrintf` and `NextUnusedFilename` in ExifTool's source.
+const FormatCodeRE = /%[-+]?\d*[.:]?\d*[lun]?[dDfFeEtgsocC]/;
+
+/**
+ * ExifTool expands printf-like format codes (like `%d` or `%f`) in output
+ * paths, and doesn't support escaping them: the output for "100%done.jpg" would
+ * silently be written to some other path.
+ *
+ * @return the absolute path to `dest`
+ * @throws if ExifTool would not write to `dest`
+ */
+export function resolveOutputPath(dest: string): string {
+  const result = resolve(dest);
+  if (FormatCodeRE.test(result)) {
+    throw new Error(
+      `Cannot write to ${JSON.stringify(dest)}: it contains an ExifTool filename format code`,
+    );
+  }
+  return result;
+}
diff --git a/src/RewriteAllTagsTask.ts b/src/RewriteAllTagsTask.ts
index 7957188..2e2dd28 100644
--- a/src/RewriteAllTagsTask.ts
+++ b/src/RewriteAllTagsTask.ts
@@ -2,6 +2,7 @@ import * as _path from "node:path";
 import { compact } from "./Array";
 import { ExifToolTask, ExifToolTaskOptions } from "./ExifToolTask";
 import { Utf8FilenameCharsetArgs } from "./FilenameCharsetArgs";
+import { resolveOutputPath } from "./OutputPath";
 
 /**
  * Task for rewriting all metadata tags in a file, which can repair corrupted metadata.
@@ -35,7 +36,7 @@ export class RewriteAllTagsTask extends ExifToolTask<void> {
       "-icc_profile",
       opts.allowMakerNoteRepair ? "-F" : undefined,
       "-out",
-      _path.resolve(imgDest),
+      resolveOutputPath(imgDest),
       _path.resolve(imgSrc),
     ]);
     return new RewriteAllTagsTask(args, opts);
-- 
2.43.0


From a3a9af7a8f2ee6b20719df3ce5abf432bd4681c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:43 +0000
Subject: [PATCH 13/47] fix: includeImageDataMD5 was ignored in favour of
 imageHashType's default

---
 src/ExifTool.ts | 12 ++++++++----
 src/ReadTask.ts |  6 +++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index 4eb6ea3..b80448f 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -249,10 +249,12 @@ export class ExifTool {
         "Please update caller to the new ExifTool constructor API",
       );
     }
-    const o = handleDeprecatedOptions({
+    // Deprecated options must be handled before applying the defaults, as the
+    // defaults specify a value for the replacement option.
+    const o = {
       ...DefaultExifToolOptions,
-      ...options,
-    });
+      ...handleDeprecatedOptions({ ...options }),
+    };
 
     // Backward compatibility: if options.logger is provided, set it as the global logger
     const options_logger = options.logger;
@@ -381,7 +383,9 @@ export class ExifTool {
   ): Promise<T> {
     const opts = {
       ...pick(this.options, ...ReadTaskOptionFields),
-      ...(isObject(argsOrOptions) ? argsOrOptions : options),
+      ...handleDeprecatedOptions({
+        ...(isObject(argsOrOptions) ? argsOrOptions : options),
+      }),
     };
     opts.readArgs =
       ifArray(argsOrOptions) ?? ifArray(opts.readArgs) ?? this.options.readArgs;
diff --git a/src/ReadTask.ts b/src/ReadTask.ts
index c8d7dbf..338481f 100644
--- a/src/ReadTask.ts
+++ b/src/ReadTask.ts
@@ -112,10 +112,10 @@ export class ReadTask extends ExifToolTask<Tags> {
   }
 
   static for(filename: string, options: ReadTaskOptions): ReadTask {
-    const opts: Required<ReadTaskOptions> = handleDeprecatedOptions({
+    const opts: Required<ReadTaskOptions> = {
       ...DefaultReadTaskOptions,
-      ...options,
-    });
+      ...handleDeprecatedOptions({ ...options }),
+    };
     const sourceFile = _path.resolve(filename);
     const readArgs = toArray(opts.readArgs);
     const args = [
-- 
2.43.0


From 7399a6ffbce1136701ac29fe5a1b05fdee223621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:58 +0000
Subject: [PATCH 14/47] fix: honour the instance's forceWrite option

---
 src/ExifTool.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index b80448f..964e796 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -711,6 +711,7 @@ export class ExifTool {
     const maybeError = await this.enqueueTask(() =>
       BinaryExtractionTask.for(tagname, src, dest, {
         ...this.#taskOptions(),
+        ...pick(this.options, "forceWrite"),
         ...opts,
       }),
     );
-- 
2.43.0


From fb78de449826e9f5db0329e4291a9c4cfe42f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:03 +0000
Subject: [PATCH 15/47] fix: reject structure field names that would be taken
 for another field or value

---
 src/WriteTask.ts | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 1e1f6dc..d38c362 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -30,6 +30,10 @@ export function htmlEncode(s: string): string {
   );
 }
 
+// This is what ExifTool accepts as a field name. Field names can't be escaped, so
+// anything else would be taken for some other field or value.
+const StructFieldRE = /^[-\w:.]+#?$/;
+
 function enc(
   o: unknown,
   structValue = false,
@@ -72,12 +76,12 @@ function enc(
   } else if (isStruct(o)) {
     // See https://exiftool.org/struct.html#Serialize
     return `{${keys(o)
-      .map(
-        (k) =>
-          enc(k, true, htmlDecodeLayers) +
-          "=" +
-          enc(o[k], true, htmlDecodeLayers),
-      )
+      .map((k) => {
+        if (!StructFieldRE.test(k)) {
+          throw new Error(`Invalid structure field: ${JSON.stringify(k)}`);
+        }
+        return k + "=" + enc(o[k], true, htmlDecodeLayers);
+      })
       .join(",")}}`;
   } else {
     throw new Error("cannot encode " + JSON.stringify(o));
-- 
2.43.0


From a027ce708cd0949d1cd44b2bc110bb719717f6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:04 +0000
Subject: [PATCH 16/47] fix: reject list items that ExifTool would split

---
 src/WriteTask.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index d38c362..982afe5 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -70,6 +70,13 @@ function enc(
     // for structures, so all other lists (like dates) must use -sep.
     const separable =
       !structValue && !o.some((ea) => Array.isArray(ea) || isStruct(ea));
+    // ExifTool decodes entities before it splits lists, so this can't be escaped:
+    if (separable && o.some((ea) => isString(ea) && ea.includes(sep))) {
+      throw new Error(
+        "cannot encode list item that contains ExifTool's list separator: " +
+          JSON.stringify(o),
+      );
+    }
     return separable
       ? `${o.map((ea) => enc(ea, false, htmlDecodeLayers)).join(sep)}`
       : `[${o.map((ea) => enc(ea, true, htmlDecodeLayers)).join(",")}]`;
-- 
2.43.0


From 09a0b987778d7402a3a0b8914e5c0b3d9bb5cd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:34 +0000
Subject: [PATCH 17/47] fix: ExifTime.setZone() reports the new zone

---
 src/ExifTime.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ExifTime.ts b/src/ExifTime.ts
index 491e734..9094b01 100644
--- a/src/ExifTime.ts
+++ b/src/ExifTime.ts
@@ -120,7 +120,7 @@ export class ExifTime {
     return ExifTime.fromDateTime(
       dt,
       this.rawValue,
-      this.zone,
+      getZoneName({ zone: dt.zone }),
       this.inferredZone,
       this.millisecond == null,
     );
-- 
2.43.0


From bdb3fd3e5bec2ef34642056f8361b5ece654b589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:35 +0000
Subject: [PATCH 18/47] fix: timestamps without a zone don't depend on the
 system's DST rules

---
 src/ExifDateTime.ts | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/ExifDateTime.ts b/src/ExifDateTime.ts
index e7d2fd7..bfdd2d0 100644
--- a/src/ExifDateTime.ts
+++ b/src/ExifDateTime.ts
@@ -275,7 +275,10 @@ export class ExifDateTime {
   ): Maybe<ExifDateTime> {
     const dt = setZone({
       zone,
-      src: this.toDateTime(),
+      src:
+        opts?.keepLocalTime === false
+          ? this.toDateTime()
+          : this.#toLocalDateTime(),
       srcHasZone: this.hasZone,
       opts,
     });
@@ -317,6 +320,16 @@ export class ExifDateTime {
     }));
   }
 
+  /**
+   * Like {@link toDateTime}, but if this has no zone, the result is in UTC
+   * rather than in the system zone. All local times exist in UTC: if the system
+   * zone observes daylight saving time, some don't exist there, and would be
+   * shifted by an hour.
+   */
+  #toLocalDateTime(): DateTime {
+    return this.toDateTime(this.hasZone ? undefined : "UTC");
+  }
+
   toEpochSeconds(overrideZone?: Maybe<string>) {
     return this.toDateTime(overrideZone).toUnixInteger();
   }
@@ -327,7 +340,7 @@ export class ExifDateTime {
 
   toISOString(options: ToISOTimeOptions = {}): Maybe<string> {
     return denull(
-      this.toDateTime().toISO({
+      this.#toLocalDateTime().toISO({
         suppressMilliseconds:
           options.suppressMilliseconds ?? this.millisecond == null,
         includeOffset: this.hasZone && options.includeOffset !== false,
@@ -336,7 +349,7 @@ export class ExifDateTime {
   }
 
   toExifString() {
-    return dateTimeToExif(this.toDateTime(), {
+    return dateTimeToExif(this.#toLocalDateTime(), {
       includeOffset: this.hasZone,
       includeMilliseconds: this.millisecond != null,
     });
@@ -423,7 +436,7 @@ export class ExifDateTime {
   }
 
   plus(duration: DurationLike) {
-    let dt = this.toDateTime().plus(duration);
+    let dt = this.#toLocalDateTime().plus(duration);
     if (!this.hasZone) {
       dt = dt.setZone(UnsetZone, { keepLocalTime: true });
     }
-- 
2.43.0


From 28e2735a27f8d015bdb640e066dc5d2d3628d957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:35 +0000
Subject: [PATCH 19/47] fix: a throwing settings listener must not silence the
 others

---
 src/Settings.ts | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/Settings.ts b/src/Settings.ts
index 7b572ab..833914e 100644
--- a/src/Settings.ts
+++ b/src/Settings.ts
@@ -7,6 +7,22 @@ import { debuglog } from "node:util";
  */
 export type UnsubscribeFunction = () => void;
 
+/**
+ * Applies `f` to every item, even if some throw. The first error is rethrown
+ * when done.
+ */
+function runAll<T>(items: Iterable<T>, f: (item: T) => void): void {
+  const errors: unknown[] = [];
+  for (const ea of items) {
+    try {
+      f(ea);
+    } catch (e) {
+      errors.push(e);
+    }
+  }
+  if (errors.length > 0) throw errors[0];
+}
+
 /**
  * A setting value that can be observed for changes.
  *
@@ -31,9 +47,10 @@ export class Setting<T> {
     if (this.#value !== newValue) {
       const old = this.#value;
       this.#value = newValue;
-      for (const ea of this.#listeners) {
-        ea(old, newValue);
-      }
+      runAll([...this.#listeners], (ea) => {
+        // it may have been unsubscribed by a prior listener:
+        if (this.#listeners.has(ea)) ea(old, newValue);
+      });
     }
   }
 
@@ -176,8 +193,8 @@ export const Settings = {
 
   /** Reset all settings to their default values */
   reset() {
-    for (const ea of Object.values(this)) {
+    runAll(Object.values(this), (ea) => {
       if (ea instanceof Setting) ea.reset();
-    }
+    });
   },
 };
-- 
2.43.0


From 017efe03190bf0a7b5651992c3f19fcc24d4a779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:35 +0000
Subject: [PATCH 20/47] fix: parseJSON() of a _ctor that is a property of
 Object.prototype

---
 src/JSON.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/JSON.ts b/src/JSON.ts
index 695fd3a..2c2a76a 100644
--- a/src/JSON.ts
+++ b/src/JSON.ts
@@ -44,7 +44,9 @@ export function parseJSON(s: string) {
       "_ctor" in value &&
       typeof value._ctor === "string"
     ) {
-      return Revivers[value._ctor]?.(value as JsonObject) ?? value;
+      return Object.hasOwn(Revivers, value._ctor)
+        ? (Revivers[value._ctor]?.(value as JsonObject) ?? value)
+        : value;
     }
     if (key === "invalidUtf8Bytes") {
       return reviveInvalidUtf8Bytes(value);
-- 
2.43.0


From 586590b7e0e64f92ce6c7a246de09544bda54c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:35 +0000
Subject: [PATCH 21/47] fix: keep ExifToolVersion as text when reading with
 groups

---
 src/ReadTask.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ReadTask.ts b/src/ReadTask.ts
index 338481f..0c88a4f 100644
--- a/src/ReadTask.ts
+++ b/src/ReadTask.ts
@@ -169,8 +169,8 @@ export class ReadTask extends ExifToolTask<Tags> {
     try {
       // Fix ExifToolVersion to be a string to preserve version distinctions like 12.3 vs 12.30
       const versionFixedData = data.replace(
-        /"ExifToolVersion"\s*:\s*(\d+(?:\.\d+)?)/,
-        '"ExifToolVersion":"$1"',
+        /"((?:\w+:)?ExifToolVersion)"\s*:\s*(\d+(?:\.\d+)?)/,
+        '"$1":"$2"',
       );
       const parsed = JSON.parse(versionFixedData)[0] as Record<string, unknown>;
       const decoded = this.#unwrapInvalidUtf8
-- 
2.43.0


From 79766668525da1e45e852963bb025955b01d9865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:35 +0000
Subject: [PATCH 22/47] fix: don't omit tags named like properties of
 Object.prototype

---
 src/ReadTask.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReadTask.ts b/src/ReadTask.ts
index 0c88a4f..3147d25 100644
--- a/src/ReadTask.ts
+++ b/src/ReadTask.ts
@@ -240,7 +240,7 @@ export class ReadTask extends ExifToolTask<Tags> {
     for (const [key, value] of Object.entries(this.#raw)) {
       const k = this.#tagName(key);
       // Did something already set this? (like GPS tags)
-      if (key in tags) continue;
+      if (Object.hasOwn(tags, key)) continue;
       const v = this.#parseTag(k, value);
       // Note that we set `key` (which may include a group prefix):
       if (v == null) {
-- 
2.43.0


From 0c6881552d31a147b0f58b563c420e1fa3e480f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:35 +0000
Subject: [PATCH 23/47] fix: don't parse times as today's date

---
 src/ExifDate.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ExifDate.ts b/src/ExifDate.ts
index 05a284b..fba2c15 100644
--- a/src/ExifDate.ts
+++ b/src/ExifDate.ts
@@ -30,7 +30,8 @@ export interface ExifDateFull extends ExifDateYearMonth {
  */
 export type ExifDatePartial = ExifDateYearOnly | ExifDateYearMonth;
 
-const StrictExifRE = /^\d{1,4}:\d{1,2}:\d{1,2}|\d{1,4}-\d{1,2}-\d{1,2}$/;
+const StrictExifRE = /^(?:\d{1,4}:\d{1,2}:\d{1,2}|\d{1,4}-\d{1,2}-\d{1,2})$/;
+const IsoDateRE = /^\d{4}-\d{2}-\d{2}$/;
 const YearMonthRE = /^\d{1,4}[:-]\d{1,2}$/;
 const YearOnlyRE = /^\d{1,4}$/;
 const LooseExifRE = /^\S+\s+\S+\s+\S+$/;
@@ -53,8 +54,9 @@ export class ExifDate {
     );
   }
   static fromISO(text: string): Maybe<ExifDate> {
-    return StrictExifRE.test(toS(text).trim())
-      ? this.fromDateTime(DateTime.fromISO(text), text)
+    // Luxon accepts ISO times, too, and would take "20:30:40" for today.
+    return IsoDateRE.test(toS(text).trim())
+      ? this.fromDateTime(DateTime.fromISO(toS(text).trim()), text)
       : undefined;
   }
 
-- 
2.43.0


From b22a2a6f77d6f8dac77c74c5753c1b955d9d0644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:35 +0000
Subject: [PATCH 24/47] fix: accept IANA zone names that include hyphens or
 plus signs

---
 src/Timezones.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 7180b4a..38446f3 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -431,8 +431,8 @@ export const defaultVideosToUTC = "defaultVideosToUTC";
 
 // https://en.wikipedia.org/wiki/List_of_tz_database_time_zones -- note that
 // "WET" and "W-SU" are full TZs (!!!), and "America/Indiana/Indianapolis" is
-// also a thing.
-const IanaFormatRE = /^\w{2,15}(?:\/\w{3,15}){0,2}$/;
+// also a thing, as are "America/Port-au-Prince" and "Etc/GMT+5".
+const IanaFormatRE = /^\w[\w-]{1,14}(?:\/[\w+-]{3,15}){0,2}$/;
 
 /**
  * Regex for parsing timezone offset strings.
-- 
2.43.0


From 9fc268261dcb99a8023b9f2259b7bd0cca6748dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:35 +0000
Subject: [PATCH 25/47] fix: don't take the words "local", "system", or
 "default" for a zone

---
 src/Timezones.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 38446f3..17f4d72 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -434,6 +434,10 @@ export const defaultVideosToUTC = "defaultVideosToUTC";
 // also a thing, as are "America/Port-au-Prince" and "Etc/GMT+5".
 const IanaFormatRE = /^\w[\w-]{1,14}(?:\/[\w+-]{3,15}){0,2}$/;
 
+// Luxon resolves these to the zone of this system, which says nothing about the
+// zone of a file.
+const LuxonZoneKeywordRE = /^(?:default|local|system)$/i;
+
 /**
  * Regex for parsing timezone offset strings.
  *
@@ -683,7 +687,7 @@ export function normalizeZone(input: unknown): Maybe<Zone> {
         return Info.normalizeZone(fixed);
       }
 
-      if (!IanaFormatRE.test(s)) {
+      if (!IanaFormatRE.test(s) || LuxonZoneKeywordRE.test(s)) {
         return;
       }
     }
-- 
2.43.0


From 39728641bf7611d62bd7f4ec86f4c8ce8111c941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:35 +0000
Subject: [PATCH 26/47] fix: timestamps within the hour that DST repeats keep
 their offset

---
 src/ExifDateTime.ts | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/ExifDateTime.ts b/src/ExifDateTime.ts
index bfdd2d0..be372c4 100644
--- a/src/ExifDateTime.ts
+++ b/src/ExifDateTime.ts
@@ -314,10 +314,23 @@ export class ExifDateTime {
     }
 
     // Cache the DateTime for performance
-    return (this.#dt ??= DateTime.fromObject(this.toDateTimeObject(), {
-      // Convert zone name string to Zone object so Luxon can recognize it
-      zone: normalizeZone(this.zone) ?? this.zone,
-    }));
+    if (this.#dt == null) {
+      const dt = DateTime.fromObject(this.toDateTimeObject(), {
+        // Convert zone name string to Zone object so Luxon can recognize it
+        zone: normalizeZone(this.zone) ?? this.zone,
+      });
+      // The hour when daylight saving time ends happens twice: if we know the
+      // offset, we know which one this is.
+      this.#dt =
+        this.hasZone &&
+        this.tzoffsetMinutes != null &&
+        this.tzoffsetMinutes !== dt.offset
+          ? (dt
+              .getPossibleOffsets()
+              .find((ea) => ea.offset === this.tzoffsetMinutes) ?? dt)
+          : dt;
+    }
+    return this.#dt;
   }
 
   /**
-- 
2.43.0


From 2096931ef74e02b01c5d5fd368c87425ba89c2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:35 +0000
Subject: [PATCH 27/47] fix: coordinates of less than one degree keep their
 minus sign

---
 src/CoordinateParser.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CoordinateParser.ts b/src/CoordinateParser.ts
index 945897f..ccf7b33 100644
--- a/src/CoordinateParser.ts
+++ b/src/CoordinateParser.ts
@@ -275,13 +275,14 @@ export function parseCoordinate(
 
 function toDecimalDegrees(coord: Omit<Coordinate, "decimal">): number {
   const degrees = toFloat(coord.degrees) ?? 0;
-  const sign = Math.sign(degrees);
+  // "-0° 30'" is south (or west) of zero, too:
+  const negative = degrees < 0 || Object.is(degrees, -0);
   let decimal = Math.abs(degrees);
 
   decimal += Math.abs(toFloat(coord.minutes) ?? 0) / 60.0;
   decimal += Math.abs(toFloat(coord.seconds) ?? 0) / 3600.0;
 
-  if (coord.direction === "S" || coord.direction === "W" || sign < 0) {
+  if (coord.direction === "S" || coord.direction === "W" || negative) {
     decimal = -decimal;
   }
 
-- 
2.43.0


From 46f393ed658499fe57ed21dae159a65d25997c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:45 +0000
Subject: [PATCH 28/47] fix: don't take a Z within other text for UTC

---
 src/Timezones.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 17f4d72..7e08d94 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -813,7 +813,7 @@ function tzHourToOffset(n: unknown): Maybe<string> {
 // "+02:00", and "+0200" (ISO 8601 basic format). Also accepts seconds like
 // "-00:25:21" for archaic offsets. Handles Unicode minus (−, U+2212).
 const tzRe =
-  /(?<Z>Z)|((UTC)?(?<sign>[+−-])(?<hours>\d\d?)(?::?(?<minutes>\d\d)(?::(?<seconds>\d\d))?)?)$/;
+  /(?<![A-Za-z])(?<Z>Z)(?:\[UTC\])?$|((UTC)?(?<sign>[+−-])(?<hours>\d\d?)(?::?(?<minutes>\d\d)(?::(?<seconds>\d\d))?)?)$/;
 
 export interface TzSrc {
   /**
-- 
2.43.0


From af1fed80b2931abf8f2ff4538869db909e748685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:45 +0000
Subject: [PATCH 29/47] fix: reject offsets of sixty minutes and more past the
 hour

---
 src/Timezones.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 7e08d94..66127bf 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -1001,7 +1001,10 @@ export function extractZone(
     // Handle both ASCII minus (-) and Unicode minus (−, U+2212)
     const sign = MinusRE.test(capturedGroups.sign ?? "") ? -1 : 1;
     const offsetMinutes = sign * (hours * 60 + minutes + seconds / 60);
-    const zone = offsetMinutesToZoneName(offsetMinutes);
+    const zone =
+      minutes < 60 && seconds < 60
+        ? offsetMinutesToZoneName(offsetMinutes)
+        : undefined;
     if (zone != null) {
       return {
         zone,
-- 
2.43.0


From 35eddd49901f15f199d12580acbc515a85664894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:07 +0000
Subject: [PATCH 30/47] fix: times don't depend on whether DST starts today

---
 src/ExifTime.ts | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/ExifTime.ts b/src/ExifTime.ts
index 9094b01..e8e8a83 100644
--- a/src/ExifTime.ts
+++ b/src/ExifTime.ts
@@ -14,8 +14,12 @@ export class ExifTime {
     if (s.length === 0) return;
     const result = parseDateTime(text, timeFormats({ defaultZone }));
     if (result != null) {
+      // The default zone's clocks may skip this time today:
+      const dt = result.inferredZone
+        ? parseDateTime(text, timeFormats({ defaultZone: undefined }))?.dt
+        : result.dt;
       return this.fromDateTime(
-        result.dt,
+        dt,
         text,
         result.unsetZone ? undefined : getZoneName({ zone: result.dt.zone }),
         result.inferredZone,
@@ -117,6 +121,18 @@ export class ExifTime {
       srcHasZone: this.hasZone,
       opts,
     });
+    if (dt.isValid && (opts?.keepLocalTime ?? !this.hasZone)) {
+      // The clocks of either zone may skip this time today:
+      return new ExifTime(
+        this.hour,
+        this.minute,
+        this.second,
+        this.millisecond,
+        this.rawValue,
+        getZoneName({ zone: dt.zone }),
+        this.inferredZone,
+      );
+    }
     return ExifTime.fromDateTime(
       dt,
       this.rawValue,
-- 
2.43.0


From 78b75571f147182200ead14491fdb11522e630a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:54 +0000
Subject: [PATCH 31/47] fix: don't move positions near the equator or prime
 meridian to the other side

A photo within one degree of the equator (or the prime meridian) whose nearest
place lies on the other side of it had the sign of its coordinate flipped.
---
 src/CoordinateParser.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/CoordinateParser.ts b/src/CoordinateParser.ts
index ccf7b33..7d6ee27 100644
--- a/src/CoordinateParser.ts
+++ b/src/CoordinateParser.ts
@@ -371,7 +371,12 @@ export function processCoordinate(
     geoValue != null &&
     Math.abs(Math.abs(geoValue) - Math.abs(value)) < MAX_LAT_LON_DIFF
   ) {
-    if (Math.sign(geoValue) !== Math.sign(value)) {
+    // If we're already nearby, the place is just on the other side of the
+    // equator or prime meridian, and the sign is fine:
+    if (
+      Math.sign(geoValue) !== Math.sign(value) &&
+      Math.abs(geoValue - value) >= MAX_LAT_LON_DIFF
+    ) {
       value = -value;
       warnings.push(
         `Corrected GPS${coordinateType} sign based on GeolocationPosition`,
@@ -379,8 +384,7 @@ export function processCoordinate(
     }
 
     // Force ref to correct value
-    const expectedRef =
-      geoValue < 0 ? expectedRefNegative : expectedRefPositive;
+    const expectedRef = value < 0 ? expectedRefNegative : expectedRefPositive;
     if (ref !== expectedRef) {
       ref = expectedRef;
       if (!blank(config.ref)) {
-- 
2.43.0


From 180fb7cf3827a1d8c6220f1d49d3a5199f87b662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:25 +0000
Subject: [PATCH 32/47] fix: use the first value of TimeZoneOffset, not the
 last

ExifTool renders the two values of TimeZoneOffset as "-5 -4". The second is the
offset of ModifyDate.
---
 src/Timezones.ts | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 66127bf..f505b52 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -849,6 +849,16 @@ function extractOffsetFromHours(
       : undefined;
 }
 
+/**
+ * ExifTool renders the two values of TimeZoneOffset as "-5 -4". Only the first
+ * is for DateTimeOriginal: see {@link TimezoneOffsetTagnames}.
+ */
+function firstHourOffset(value: unknown): unknown {
+  return isString(value) && /^\s*[+-]?\d{1,2}\s+[+-]?\d{1,2}\s*$/.test(value)
+    ? toInt(value.trim().split(/\s+/)[0])
+    : value;
+}
+
 /**
  * Extract timezone information from various value types.
  *
@@ -1125,7 +1135,9 @@ export function extractTzOffsetFromTags(
     opts?.adjustTimeZoneIfDaylightSavings ??
     defaultAdjustTimeZoneIfDaylightSavings;
   for (const tagName of TimezoneOffsetTagnames) {
-    const offset = extractZone(t[tagName]);
+    const offset = extractZone(
+      tagName === "TimeZoneOffset" ? firstHourOffset(t[tagName]) : t[tagName],
+    );
     if (offset == null) continue;
 
     // UGH. See https://github.com/photostructure/exiftool-vendored.js/issues/215
-- 
2.43.0


From aeaf25dd7158b4ce9555104ecef08ab0e859e57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:03 +0000
Subject: [PATCH 33/47] fix: the day of a date is not a time zone offset

A date like "2020-01-02" (from "-d %Y-%m-%d", say) was taken to have an offset
of -02:00.
---
 src/Timezones.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index f505b52..5929ab5 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -993,7 +993,8 @@ export function extractZone(
     }
   }
 
-  const match = tzRe.exec(str);
+  // "2020-01-02" is just a date: "-02" isn't an offset.
+  const match = /^\d{4}-\d\d(?:-\d\d)?$/.test(str) ? null : tzRe.exec(str);
   const capturedGroups = match?.groups;
 
   if (match != null && capturedGroups != null) {
-- 
2.43.0


From 30e15178ee57398a978ee91a55c92e4ead46676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:38 +0000
Subject: [PATCH 34/47] fix: don't report a time zone that doesn't exist after
 adjusting for daylight savings

A Nikon set to +14:00 or +05:45 with daylight savings was reported in UTC+15 or
UTC+6:45, which the timestamps of the same read don't accept.
---
 src/Timezones.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 5929ab5..3d0e43e 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -1145,7 +1145,8 @@ export function extractTzOffsetFromTags(
     const minutes = adjustFn(t, offset.tz);
     if (minutes != null) {
       const adjustedZone = incrementZone(offset.tz, minutes);
-      if (adjustedZone != null)
+      // (there's no UTC+15, for example)
+      if (isZoneValid(adjustedZone))
         return {
           zone: adjustedZone.name,
           tz: adjustedZone.name,
-- 
2.43.0


From fe71542339cac63ec7fcf882a3f0c12618f99a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:18 +0000
Subject: [PATCH 35/47] fix: keep metadata fields named __proto__ in nested
 structures

---
 src/ReadTask.ts | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ReadTask.ts b/src/ReadTask.ts
index 3147d25..717d394 100644
--- a/src/ReadTask.ts
+++ b/src/ReadTask.ts
@@ -384,11 +384,13 @@ export class ReadTask extends ExifToolTask<Tags> {
         return value.map((ea) => this.#parseTag(tagName, ea));
       }
       if (isObject(value)) {
-        const result: Record<string, unknown> = {};
-        for (const [k, v] of Object.entries(value)) {
-          result[k] = this.#parseTag(tagName + "." + k, v);
-        }
-        return result;
+        // (assigning to a "__proto__" key would set the result's prototype)
+        return Object.fromEntries(
+          Object.entries(value).map(([k, v]) => [
+            k,
+            this.#parseTag(tagName + "." + k, v),
+          ]),
+        );
       }
       if (typeof value === "string") {
         const b = BinaryField.fromRawValue(value);
-- 
2.43.0


From 8f9503c8a494625097fb430e9b1c7e06810c580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:18 +0000
Subject: [PATCH 36/47] fix: metadata that imitates the invalid-UTF-8 marker
 was unwrapped

---
 src/InvalidUtf8Bytes.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/InvalidUtf8Bytes.ts b/src/InvalidUtf8Bytes.ts
index 2f1aeaa..ccbc7b6 100644
--- a/src/InvalidUtf8Bytes.ts
+++ b/src/InvalidUtf8Bytes.ts
@@ -1,3 +1,5 @@
+import { randomBytes } from "node:crypto";
+
 /**
  * Original bytes for metadata strings that contained malformed UTF-8.
  *
@@ -11,7 +13,12 @@ export interface InvalidUtf8Bytes {
   [tagOrIndex: string]: Uint8Array | InvalidUtf8Bytes;
 }
 
-export const InvalidUtf8Marker = "__etvInvalidUtf8V1";
+/**
+ * Metadata may hold any text (including this prefix), so the marker must not be
+ * predictable.
+ */
+export const InvalidUtf8Marker =
+  "__etvInvalidUtf8V1" + randomBytes(16).toString("hex");
 
 const StringPrefix = "s:";
 const Base64Prefix = "b64:";
-- 
2.43.0


From 40bd4f1f7a21c89e2adf58b7aa614aa8d86b5bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:41 +0000
Subject: [PATCH 37/47] fix: TagDescriptions described tags named after
 Object.prototype members

---
 src/TagDescriptions.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index cc12083..740a06b 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -404,6 +404,12 @@ export class TagDescriptions {
     return this.#options.language === "en" ? CuratedDescriptions : {};
   }
 
+  // (tag names may be those of Object.prototype's members)
+  #curatedFor(tagName: string): Maybe<TagDescription> {
+    const curated = this.#curated;
+    return Object.hasOwn(curated, tagName) ? curated[tagName] : undefined;
+  }
+
   /**
    * Synchronous lookup of a tag description.
    * Returns undefined if descriptions haven't been loaded or tag is unknown.
@@ -414,7 +420,7 @@ export class TagDescriptions {
    * @returns Tag description or undefined
    */
   get(tagName: string): TagDescription | undefined {
-    return this.#curated[tagName] ?? this.#cacheSync?.get(tagName);
+    return this.#curatedFor(tagName) ?? this.#cacheSync?.get(tagName);
   }
 
   /**
@@ -425,7 +431,7 @@ export class TagDescriptions {
    * @returns Promise resolving to tag description or undefined
    */
   async getAsync(tagName: string): Promise<TagDescription | undefined> {
-    return this.#curated[tagName] ?? (await this.#cache()).get(tagName);
+    return this.#curatedFor(tagName) ?? (await this.#cache()).get(tagName);
   }
 
   /**
-- 
2.43.0


From 01e15779a8ed5a70bee77ead773b7a285e43bb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:41 +0000
Subject: [PATCH 38/47] fix: decode apostrophes in tag descriptions

---
 src/TagDescriptions.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index 740a06b..f08399b 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -589,7 +589,7 @@ export class TagDescriptions {
       .replace(/&lt;/g, "<")
       .replace(/&gt;/g, ">")
       .replace(/&quot;/g, '"')
-      .replace(/&apos;/g, "'")
+      .replace(/&(?:apos|#39);/g, "'")
       .replace(/&amp;/g, "&");
   }
 }
-- 
2.43.0


From 73545bf26d4e812ddcb32dcb7ef8dc08d3c51e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:41 +0000
Subject: [PATCH 39/47] fix: ignore disk caches that don't hold tag
 descriptions

---
 src/TagDescriptions.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index f08399b..8acaf60 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -5,6 +5,7 @@ import type { ExifTool } from "./ExifTool";
 import { lazy } from "./Lazy";
 import { ListXTask } from "./ListXTask";
 import { Maybe } from "./Maybe";
+import { isObject } from "./Object";
 
 /**
  * Description information for a metadata tag.
@@ -518,7 +519,15 @@ export class TagDescriptions {
         return;
       }
 
-      return new Map(Object.entries(parsed.descriptions));
+      const entries = Object.entries(parsed.descriptions);
+      if (
+        !isObject(parsed.descriptions) ||
+        !entries.every(([, ea]) => typeof ea.desc === "string")
+      ) {
+        return;
+      }
+
+      return new Map(entries);
     } catch {
       // Cache miss or corrupt - will regenerate
       return;
-- 
2.43.0


From aef733945ee86793d55376555c1a3c51d575fede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:41 +0000
Subject: [PATCH 40/47] fix: don't cache tag descriptions from a failed listing

---
 src/ListXTask.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ListXTask.ts b/src/ListXTask.ts
index 6f39558..4a5fc97 100644
--- a/src/ListXTask.ts
+++ b/src/ListXTask.ts
@@ -13,7 +13,9 @@ export class ListXTask extends ExifToolTask<string> {
     super(["-listx"], options);
   }
 
-  protected parse(input: string): string {
+  protected parse(input: string, err?: Error): string {
+    // A failed listing must not be cached:
+    if (err != null) throw err;
     // Return raw XML - parsing is handled by TagDescriptions
     return input;
   }
-- 
2.43.0


From 8adc3e2adbfc437d34997f76239573cf959f23b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:42 +0000
Subject: [PATCH 41/47] fix: TagDescriptions defaults to English if language is
 undefined

---
 src/TagDescriptions.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index 8acaf60..72a93c8 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -367,9 +367,9 @@ export class TagDescriptions {
   constructor(exiftool: ExifTool, options?: TagDescriptionsOptions) {
     this.#exiftool = exiftool;
     this.#options = {
-      language: "en",
       disableDiskCache: false,
       ...options,
+      language: options?.language ?? "en",
     };
   }
 
-- 
2.43.0


From a55b33029c131612e749512f5468576e0e13d83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:24 +0000
Subject: [PATCH 42/47] fix: curated tag descriptions take priority over cached
 ones

---
 src/TagDescriptions.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index 72a93c8..26e237c 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -463,6 +463,10 @@ export class TagDescriptions {
     if (!this.#options.disableDiskCache) {
       const cached = this.#readDiskCache(version, lang);
       if (cached != null) {
+        // It may have been written by another release of this library:
+        for (const [name, desc] of Object.entries(this.#curated)) {
+          cached.set(name, desc);
+        }
         this.#cacheSync = cached;
         return cached;
       }
-- 
2.43.0


From 69cfbe8cd5d0152683226045617f38eda00f8b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:00 +0000
Subject: [PATCH 43/47] fix: an error about a pathname that looks like a
 warning is an error

---
 src/IsWarning.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/IsWarning.ts b/src/IsWarning.ts
index 0ff52f5..3a16e3a 100644
--- a/src/IsWarning.ts
+++ b/src/IsWarning.ts
@@ -9,6 +9,9 @@ export interface IgnorableError {
 
 const WarningRE = /\bwarning: |\bnothing to (?:write|do)\b/i;
 
+// The text after "Error" may include a pathname that looks like a warning:
+const ErrorRE = /^error\b(?!: nothing to (?:write|do)\b)/i;
+
 /**
  * This is the default implementation of IgnorableError, and ignores null,
  * undefined, errors without a message, warnings about duplicate tags, and
@@ -17,5 +20,5 @@ const WarningRE = /\bwarning: |\bnothing to (?:write|do)\b/i;
 export function isWarning(err: Maybe<Error | string>): boolean {
   if (err == null) return true;
   const msg = (err instanceof Error ? err.message : toS(err)).trim();
-  return blank(msg) || WarningRE.test(msg);
+  return blank(msg) || (!ErrorRE.test(msg) && WarningRE.test(msg));
 }
-- 
2.43.0


From 9021de10bd2af707d7f94e9e18aa789efc7e6dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:25 +0000
Subject: [PATCH 44/47] fix: rewriting rejects for errors about a pathname that
 looks like a warning

---
 src/RewriteAllTagsTask.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/RewriteAllTagsTask.ts b/src/RewriteAllTagsTask.ts
index 2e2dd28..4ef36b4 100644
--- a/src/RewriteAllTagsTask.ts
+++ b/src/RewriteAllTagsTask.ts
@@ -45,8 +45,11 @@ export class RewriteAllTagsTask extends ExifToolTask<void> {
   parse(data: string, error?: Error): void {
     if (error != null) {
       const str = String(error);
-      // Ignore warnings:
-      if (str.match(/\berror\b/i) != null && !str.match(/\bwarning\b/i)) {
+      // Ignore warnings (but not errors about a pathname that looks like one):
+      if (
+        this.errors.some((ea) => /^error\b/i.test(ea)) ||
+        (str.match(/\berror\b/i) != null && !str.match(/\bwarning\b/i))
+      ) {
         throw error;
       }
     }
-- 
2.43.0


From 0b5f8a46051b2d888aff4f77c1b21e164fe0a8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:51 +0000
Subject: [PATCH 45/47] fix: don't rename or copy files with % or backslash in
 their name when there are no fields to set

deleteAllTags() and write() without tags sent -FileName<FileName to keep
ExifTool in write mode. ExifTool expands percent codes in new filenames, so
deleteAllTags("100%d.jpg") left all tags in that file, and wrote a stripped copy
elsewhere, and write("a%c.jpg", {}) renamed the file.
---
 src/WriteTask.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 982afe5..f132de0 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -286,7 +286,13 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
       // mode, and not "write" mode. It _should_ be a no-op, but there are some
       // cases that this can cause ExifTool to behave oddly, so we only apply it
       // if we have no other fields to set.
-      fieldsToSet.push("-FileName<FileName");
+      fieldsToSet.push(
+        // ExifTool expands `%` codes and replaces backslashes in new filenames,
+        // so we can't assign these names, and try to remove a name no file has:
+        /[%\\]/.test(_path.basename(sourceFile))
+          ? "-FileName-=/"
+          : "-FileName<FileName",
+      );
     }
 
     args.push(...fieldsToSet, ...toArray(options.writeArgs), sourceFile);
-- 
2.43.0


From 426e5a30722dc046c2d86c6c5cf6322813a987c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:51 +0000
Subject: [PATCH 46/47] fix: don't HTML-escape tags retained by deleteAllTags()
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

With useMWG (the default), retained list tags like XMP-dc:Subject came out
HTML-escaped: ExifTool applies -E to copied values, and to those of MWG
composites twice. "Zürich" became "Z&uuml;rich".
---
 src/WriteTask.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index f132de0..2c6f116 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -263,14 +263,24 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
     options: Partial<WriteTaskOptions> & Required<ExifToolTaskOptions>,
   ): WriteTask {
     const sourceFile = _path.resolve(filename);
+    const writeArgs = toArray(options.writeArgs);
     const args: string[] = [
       // ensure exiftool thinks this is a write command:
       ...Utf8FilenameCharsetArgs,
       `-sep`,
       `${sep}`,
-      "-E", // < html encoding https://exiftool.org/faq.html#Q10
     ];
 
+    // ExifTool also applies -E to values it copies (like the tags retained by
+    // `deleteAllTags()`), and with MWG, escapes some of those twice: so we only
+    // ask for it if there's something to decode.
+    if (
+      fieldsToSet.length > 0 ||
+      writeArgs.some((ea) => String(ea).includes("&"))
+    ) {
+      args.push("-E"); // < html encoding https://exiftool.org/faq.html#Q10
+    }
+
     // "undef" doesn't work: but undef works the same as 2
     args.push(
       "-api",
@@ -295,7 +305,7 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
       );
     }
 
-    args.push(...fieldsToSet, ...toArray(options.writeArgs), sourceFile);
+    args.push(...fieldsToSet, ...writeArgs, sourceFile);
 
     return new WriteTask(sourceFile, args, options);
   }
-- 
2.43.0


From 2636f344b638ccabbf4112287b509970b3eff993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:15 +0000
Subject: [PATCH 47/47] fix: don't take down the host process if ExifTool can't
 be started

batch-cluster only listens for errors of child processes that have a pid. If
exiftoolPath was missing or not executable, or the fork failed, the unhandled
"error" event of the ChildProcess was thrown.
---
 src/ExifTool.ts | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index 964e796..6b7535f 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -278,6 +278,15 @@ export class ExifTool {
       env,
     };
 
+    const spawn = (command: string, args: readonly string[]) => {
+      const proc = _cp.spawn(command, args, spawnOpts);
+      // If the command can't be started, batch-cluster rejects the proc (it has
+      // no pid) before it listens for errors, and an "error" event without
+      // listeners would take down the host process.
+      proc.on("error", (err) => this.options.logger().warn(String(err)));
+      return proc;
+    };
+
     // Allow callers to provide a custom processFactory (e.g., for Flatpak
     // sandboxes that need flatpak-spawn --host). If not provided, use the
     // default factory that spawns perl directly.
@@ -285,12 +294,11 @@ export class ExifTool {
       options.processFactory ??
       (async () =>
         ignoreShebang
-          ? _cp.spawn(
-              await whichPerl(),
-              [await this.exiftoolPath(), ...o.exiftoolArgs],
-              spawnOpts,
-            )
-          : _cp.spawn(await this.exiftoolPath(), o.exiftoolArgs, spawnOpts));
+          ? spawn(await whichPerl(), [
+              await this.exiftoolPath(),
+              ...o.exiftoolArgs,
+            ])
+          : spawn(await this.exiftoolPath(), o.exiftoolArgs));
 
     this.options = {
       ...o,
-- 
2.43.0

