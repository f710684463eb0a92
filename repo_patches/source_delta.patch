From b35a0579a0d927fdded325cc4cb48a3466252630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 01/48] fix: serialize drains of the edge sidecar's session
 object

An alarm and a /flush (or two flushes) could drain at the same time while an upload was in flight: both uploaded
the same batches under the same chunk index, and the later write could overwrite a larger chunk, losing batches.
A /flush also answered 204 after one capped drain, with batches still buffered.
---
 .../src/recorder-session-object.ts            | 31 ++++++++++++++++---
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/packages/backend-recorder-sidecar-worker/src/recorder-session-object.ts b/packages/backend-recorder-sidecar-worker/src/recorder-session-object.ts
index a67c09d..bbdd696 100644
--- a/packages/backend-recorder-sidecar-worker/src/recorder-session-object.ts
+++ b/packages/backend-recorder-sidecar-worker/src/recorder-session-object.ts
@@ -76,6 +76,8 @@ export class MeticulousRecorderSession {
   private readonly storage: DurableStorage;
   private readonly env: SidecarEnv;
   private storageBackend: StorageBackend | undefined;
+  /** The drain last asked for. Drains run one after another — see {@link drain}. */
+  private lastDrain: Promise<unknown> = Promise.resolve();
 
   constructor(ctx: DurableContext, env: SidecarEnv) {
     this.storage = ctx.storage;
@@ -90,7 +92,12 @@ export class MeticulousRecorderSession {
   async fetch(request: Request): Promise<Response> {
     const url = new URL(request.url);
     if (url.pathname === "/flush") {
-      await this.drain();
+      // One drain takes a capped number of batches, and the answer promises that whatever was
+      // buffered has been uploaded.
+      let mayHaveLeftBatches = true;
+      while (mayHaveLeftBatches) {
+        mayHaveLeftBatches = await this.drain();
+      }
       return new Response(null, { status: 204 });
     }
 
@@ -136,14 +143,28 @@ export class MeticulousRecorderSession {
     await this.storage.put(entries);
   }
 
-  private async drain(): Promise<void> {
+  /**
+   * Uploads one chunk of what is pending. Resolves to whether the drain was capped.
+   *
+   * Drains are serialized: waiting for the upload lets the runtime deliver other events to this
+   * object, and an alarm and a flush draining at once would upload the same batches under the same
+   * chunk index, the later write overwriting the earlier one.
+   */
+  private drain(): Promise<boolean> {
+    const result = this.lastDrain.then(() => this.drainOnce());
+    this.lastDrain = result.catch(() => undefined);
+    return result;
+  }
+
+  private async drainOnce(): Promise<boolean> {
     const pending = await this.storage.list<CaptureEvent[]>({
       prefix: BATCH_KEY_PREFIX,
       limit: MAX_BATCHES_PER_FLUSH,
     });
     if (pending.size === 0) {
-      return;
+      return false;
     }
+    const wasCapped = pending.size === MAX_BATCHES_PER_FLUSH;
 
     const events = [...pending.values()].flat();
     const config = resolveSidecarConfig(this.env);
@@ -171,7 +192,7 @@ export class MeticulousRecorderSession {
       // Nothing more can be uploaded under this session, and holding batches for one that will
       // never be read would grow storage without limit.
       await this.dropEverythingPending();
-      return;
+      return false;
     }
 
     // More arrived while this chunk was uploading, or the drain was capped.
@@ -182,11 +203,11 @@ export class MeticulousRecorderSession {
     if (remaining.size > 0 && (await this.storage.getAlarm()) === null) {
       // A capped drain is a backlog, not a batch waiting for company: work it off now rather than
       // letting a burst take an extra interval per MAX_BATCHES_PER_FLUSH of it.
-      const wasCapped = pending.size === MAX_BATCHES_PER_FLUSH;
       await this.storage.setAlarm(
         wasCapped ? Date.now() : Date.now() + FLUSH_DELAY_MS,
       );
     }
+    return wasCapped;
   }
 
   private async dropEverythingPending(): Promise<void> {
-- 
2.43.0


From 534b9341aaa82277dd8e007bc4bd313c8ec86d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 02/48] fix: a malformed capture event no longer blocks an edge
 sidecar shard

Building its span threw out of the drain before the batch was deleted, so every later drain failed on it too and
nothing reported afterwards was ever uploaded.
---
 .../src/session-store.ts                      | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/packages/backend-recorder-sidecar-worker/src/session-store.ts b/packages/backend-recorder-sidecar-worker/src/session-store.ts
index 70277a2..df598d5 100644
--- a/packages/backend-recorder-sidecar-worker/src/session-store.ts
+++ b/packages/backend-recorder-sidecar-worker/src/session-store.ts
@@ -124,9 +124,8 @@ export const flushChunk = async (
 
   const builder = new SpanBuilder();
   const spans = events
-    .map((event) => builder.build(event))
-    .filter((span) => span !== null)
-    .map((span) => serializeSpan(span));
+    .map((event) => buildSpan(builder, event))
+    .filter((span) => span !== null);
   if (spans.length === 0) {
     return { state: current, rolledOver };
   }
@@ -193,6 +192,23 @@ export const flushChunk = async (
   }
 };
 
+/**
+ * Null for an event no span can be built from. A malformed event must not throw: the events it was
+ * buffered with could then never be uploaded, and neither could anything reported after them.
+ */
+const buildSpan = (
+  builder: SpanBuilder,
+  event: CaptureEvent,
+): ReturnType<typeof serializeSpan> | null => {
+  try {
+    const span = builder.build(event);
+    return span === null ? null : serializeSpan(span);
+  } catch (error) {
+    log.warn(`Skipping a malformed capture event: ${String(error)}`);
+    return null;
+  }
+};
+
 const abandonCooldownElapsed = (state: SessionState, nowMs: number): boolean =>
   // A state written before this field existed has no timestamp to measure from; treating it as
   // elapsed recovers such an object on its next report rather than leaving it dead forever.
-- 
2.43.0


From 660a189d6230d7461c7e8cb9f44100b301c6d6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 03/48] fix: capture work outlasting the buffer's drain rounds
 keeps the request alive

---
 packages/backend-recorder-workerd/src/capture-buffer.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/backend-recorder-workerd/src/capture-buffer.ts b/packages/backend-recorder-workerd/src/capture-buffer.ts
index 5560204..4c6439d 100644
--- a/packages/backend-recorder-workerd/src/capture-buffer.ts
+++ b/packages/backend-recorder-workerd/src/capture-buffer.ts
@@ -87,6 +87,11 @@ export class CaptureBuffer {
       await Promise.all([...this.pending]);
     }
     this.closed = true;
+    // Whatever is still running after the last round has no `close()` awaiting it any more, so it
+    // needs its own lifetime extension, as work tracked from here on does.
+    for (const promise of this.pending) {
+      this.waitUntil(promise);
+    }
     await this.flush();
   }
 
-- 
2.43.0


From 3dea5cb881b88c34263289c460ca3ebf86488e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 04/48] fix: a failed replay handshake no longer drops another
 handshake's remembered answer

---
 .../src/with-meticulous.ts                    | 38 ++++++++++---------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/packages/backend-recorder-workerd/src/with-meticulous.ts b/packages/backend-recorder-workerd/src/with-meticulous.ts
index 56fc186..55e4c0d 100644
--- a/packages/backend-recorder-workerd/src/with-meticulous.ts
+++ b/packages/backend-recorder-workerd/src/with-meticulous.ts
@@ -327,23 +327,27 @@ const getCachedReplaySessionInfo = (
   if (cached !== undefined) {
     return cached;
   }
-  const pending = getReplaySessionInfo(
-    getOriginalFetch(),
-    sidecarUrl,
-    frontendSessionId,
-  ).then((result) => {
-    if (result.outcome === "unreachable") {
-      // Only settled answers are worth keeping. Caching a timeout or transport blip would
-      // disable mocking for this session for the life of the isolate, quietly sending every
-      // later outbound call to the real service — the failure this path exists to prevent.
-      // Dropping the entry costs one extra handshake and lets the next request recover.
-      replaySessionInfoCache.delete(key);
-      return null;
-    }
-    return result.outcome === "found"
-      ? { clockAnchorMs: result.clockAnchorMs }
-      : null;
-  });
+  const pending: Promise<{ clockAnchorMs: number | undefined } | null> =
+    getReplaySessionInfo(
+      getOriginalFetch(),
+      sidecarUrl,
+      frontendSessionId,
+    ).then((result) => {
+      if (result.outcome === "unreachable") {
+        // Only settled answers are worth keeping. Caching a timeout or transport blip would
+        // disable mocking for this session for the life of the isolate, quietly sending every
+        // later outbound call to the real service — the failure this path exists to prevent.
+        // Dropping the entry costs one extra handshake and lets the next request recover.
+        // Unless it is another handshake's by now: this one's entry may have been evicted meanwhile.
+        if (replaySessionInfoCache.get(key) === pending) {
+          replaySessionInfoCache.delete(key);
+        }
+        return null;
+      }
+      return result.outcome === "found"
+        ? { clockAnchorMs: result.clockAnchorMs }
+        : null;
+    });
   if (replaySessionInfoCache.size >= MAX_CACHED_SESSIONS) {
     const oldest = replaySessionInfoCache.keys().next();
     if (!oldest.done) {
-- 
2.43.0


From 25ad3217be31c52562c534c6cf8826f78f6aa5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 05/48] fix: subclasses of Date keep their class once the
 replay clock is installed

---
 packages/backend-recorder-workerd/src/virtual-clock.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/backend-recorder-workerd/src/virtual-clock.ts b/packages/backend-recorder-workerd/src/virtual-clock.ts
index 1c30074..178c717 100644
--- a/packages/backend-recorder-workerd/src/virtual-clock.ts
+++ b/packages/backend-recorder-workerd/src/virtual-clock.ts
@@ -138,11 +138,12 @@ class VirtualDateClass extends OriginalDate {
 
 // Classes cannot be called without `new`, but native `Date()` can be (returning a string),
 // so wrap the class in a plain function supporting both.
-function VirtualDate(this: unknown, ...args: unknown[]): Date | string {
-  if (!(this instanceof VirtualDate)) {
+function VirtualDate(...args: unknown[]): Date | string {
+  if (new.target === undefined) {
     return new VirtualDateClass().toString();
   }
-  return new VirtualDateClass(...args);
+  // Through new.target, so that a subclass of Date constructs instances of itself.
+  return Reflect.construct(VirtualDateClass, args, new.target) as Date;
 }
 
 VirtualDate.now = virtualDateNow;
-- 
2.43.0


From 7297db50be2bd21fedd05f7f05cf6eb7552e99fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:22 +0000
Subject: [PATCH 06/48] fix: a bodyless response shared by requests no longer
 accumulates their session ids

---
 .../src/publish-session-id.ts                        | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/packages/backend-recorder-workerd/src/publish-session-id.ts b/packages/backend-recorder-workerd/src/publish-session-id.ts
index 89cdfc6..20f7ccc 100644
--- a/packages/backend-recorder-workerd/src/publish-session-id.ts
+++ b/packages/backend-recorder-workerd/src/publish-session-id.ts
@@ -26,10 +26,14 @@ export const publishSessionIdOnResponse = (
   const entry = buildServerTimingSessionEntry(sessionId);
 
   try {
-    // Appends rather than replaces: apps publish their own server timings, and clobbering
-    // them would be a visible regression in their tooling.
-    response.headers.append(SERVER_TIMING_HEADER, entry);
-    return response;
+    // A response without a body can be a constant that the app returns for several requests:
+    // it must not carry one request's session id into the next, so it is rebuilt instead.
+    if (response.body !== null || hasWebSocket(response)) {
+      // Appends rather than replaces: apps publish their own server timings, and clobbering
+      // them would be a visible regression in their tooling.
+      response.headers.append(SERVER_TIMING_HEADER, entry);
+      return response;
+    }
   } catch {
     // Immutable headers. Fall through and rebuild.
   }
-- 
2.43.0


From 9bffbd44e3147143f578b64e1960ea525197a558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 07/48] fix: a "__proto__" field is kept when a captured
 request body is redacted

---
 packages/backend-recorder-workerd/src/redact-body.ts | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/packages/backend-recorder-workerd/src/redact-body.ts b/packages/backend-recorder-workerd/src/redact-body.ts
index 6e7ae25..ff37b45 100644
--- a/packages/backend-recorder-workerd/src/redact-body.ts
+++ b/packages/backend-recorder-workerd/src/redact-body.ts
@@ -67,9 +67,11 @@ const redactValue = (value: unknown): unknown => {
   if (value === null || typeof value !== "object") {
     return value;
   }
-  const result: Record<string, unknown> = {};
-  for (const [key, nested] of Object.entries(value)) {
-    result[key] = isSecretKey(key) ? STR_REDACTED : redactValue(nested);
-  }
-  return result;
+  // `fromEntries` rather than assignment, which would drop a "__proto__" key.
+  return Object.fromEntries(
+    Object.entries(value).map(([key, nested]) => [
+      key,
+      isSecretKey(key) ? STR_REDACTED : redactValue(nested),
+    ]),
+  );
 };
-- 
2.43.0


From f227632c2cc56a600ab496925ab16a8275da8a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:06 +0000
Subject: [PATCH 08/48] fix: a failed part of a multipart upload is not an
 unhandled rejection while the archive is still being read

---
 .../src/upload-utils/multipart-buffer-manager.ts               | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/remote-replay-launcher/src/upload-utils/multipart-buffer-manager.ts b/packages/remote-replay-launcher/src/upload-utils/multipart-buffer-manager.ts
index d2a1bb5..45eb6dc 100644
--- a/packages/remote-replay-launcher/src/upload-utils/multipart-buffer-manager.ts
+++ b/packages/remote-replay-launcher/src/upload-utils/multipart-buffer-manager.ts
@@ -81,6 +81,9 @@ export class MultipartBufferManager {
     const uploadPromise = this.uploadLimiter(() =>
       this.uploadPart(bufferToUpload, partNumber, isLastPart),
     ).then((eTag) => ({ partNumber, eTag }));
+    // `finalize` reports a failure, but it may only be called much later (or never, if
+    // reading the archive fails): until then this must not be an unhandled rejection.
+    uploadPromise.catch(() => {});
     this.pendingUploads.push(uploadPromise);
 
     if (remainingBuffer) {
-- 
2.43.0


From f850c754a7b9bde909ded64b94830a98d5ac8fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:18 +0000
Subject: [PATCH 09/48] fix: a failing archive of an asset chunk is reported
 instead of raising an uncaught error event

---
 packages/remote-replay-launcher/src/upload-asset-chunk.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/remote-replay-launcher/src/upload-asset-chunk.ts b/packages/remote-replay-launcher/src/upload-asset-chunk.ts
index 3722122..93c2d51 100644
--- a/packages/remote-replay-launcher/src/upload-asset-chunk.ts
+++ b/packages/remote-replay-launcher/src/upload-asset-chunk.ts
@@ -228,6 +228,10 @@ export const writeCompressedTar = ({
     const onError = (err: unknown) => {
       tarStream.removeAllListeners();
       outStream.removeAllListeners();
+      // Writes that are still queued fail once the file is closed: that must not be an
+      // uncaught error event.
+      tarStream.on("error", () => {});
+      outStream.on("error", () => {});
       outStream.destroy();
       reject(err instanceof Error ? err : new Error(String(err)));
     };
-- 
2.43.0


From f6c0b8eae16ae6dfaf220800fbfcd745f972c74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:19 +0000
Subject: [PATCH 10/48] fix: an image reference whose registry has a port is
 tagged as itself

---
 packages/remote-replay-launcher/src/docker-utils.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/remote-replay-launcher/src/docker-utils.ts b/packages/remote-replay-launcher/src/docker-utils.ts
index 09876f1..684661c 100644
--- a/packages/remote-replay-launcher/src/docker-utils.ts
+++ b/packages/remote-replay-launcher/src/docker-utils.ts
@@ -73,7 +73,14 @@ export const tagImage = async (
   const logger = initLogger();
   try {
     const image = docker.getImage(sourceImage);
-    const [repo, tag] = targetImage.split(":");
+    // A colon before the last slash separates the registry's port, not the tag.
+    const tagSeparator = targetImage.indexOf(
+      ":",
+      targetImage.lastIndexOf("/") + 1,
+    );
+    const repo =
+      tagSeparator === -1 ? targetImage : targetImage.slice(0, tagSeparator);
+    const tag = tagSeparator === -1 ? "" : targetImage.slice(tagSeparator + 1);
     await image.tag({ repo, tag: tag || "latest" });
     logger.info(`Tagged image ${sourceImage} as ${targetImage}`);
   } catch (error) {
-- 
2.43.0


From b6d013f7766f80f5224aa3f88ae9966187a97017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:56 +0000
Subject: [PATCH 11/48] fix: an upload whose response breaks off fails instead
 of never ending

---
 packages/client/src/utils/put-file-to-signed-url.ts       | 3 +++
 packages/remote-replay-launcher/src/asset-upload-utils.ts | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/packages/client/src/utils/put-file-to-signed-url.ts b/packages/client/src/utils/put-file-to-signed-url.ts
index 1447ba9..b3eddc3 100644
--- a/packages/client/src/utils/put-file-to-signed-url.ts
+++ b/packages/client/src/utils/put-file-to-signed-url.ts
@@ -52,6 +52,9 @@ export const putFileToSignedUrl = async ({
           responseData += chunk;
         });
 
+        // The connection can break before the response is complete.
+        response.on("error", reject);
+
         response.on("end", () => {
           if (response.statusCode === 200) {
             resolve();
diff --git a/packages/remote-replay-launcher/src/asset-upload-utils.ts b/packages/remote-replay-launcher/src/asset-upload-utils.ts
index 22b1613..c136e08 100644
--- a/packages/remote-replay-launcher/src/asset-upload-utils.ts
+++ b/packages/remote-replay-launcher/src/asset-upload-utils.ts
@@ -438,6 +438,9 @@ const putBufferToSignedUrl = async (
           responseData += chunk;
         });
 
+        // The connection can break before the response is complete.
+        response.on("error", reject);
+
         response.on("end", () => {
           if (response.statusCode === 200) {
             resolve(response.headers["etag"] ?? "");
-- 
2.43.0


From 0c60b1f3fa89b42016c57986cee8ecfff562422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 12/48] fix: concurrent refreshes of a login no longer discard
 the tokens of each other, or of a newer login

---
 packages/client/src/oauth/oauth-refresh.ts | 66 +++++++++++++++++++---
 1 file changed, 57 insertions(+), 9 deletions(-)

diff --git a/packages/client/src/oauth/oauth-refresh.ts b/packages/client/src/oauth/oauth-refresh.ts
index 77ab348..dfb5771 100644
--- a/packages/client/src/oauth/oauth-refresh.ts
+++ b/packages/client/src/oauth/oauth-refresh.ts
@@ -1,4 +1,5 @@
 import { CLI_CLIENT_ID, getTokenEndpoint } from "./oauth-constants";
+import type { StoredOAuthTokens } from "./oauth-token-store";
 import {
   clearOAuthTokens,
   getStoredOAuthTokens,
@@ -7,22 +8,74 @@ import {
 
 const TOKEN_EXPIRY_BUFFER_SECONDS = 30;
 
+// A refresh token may be usable only once, so callers that find the same login
+// expired share one refresh.
+const refreshesInFlight = new Map<string, Promise<string | null>>();
+
 export const getValidAccessToken = async (): Promise<string | null> => {
   const tokens = getStoredOAuthTokens();
   if (!tokens) {
     return null;
   }
 
-  const now = Math.floor(Date.now() / 1000);
-  if (tokens.expiresAt > now + TOKEN_EXPIRY_BUFFER_SECONDS) {
+  if (isAccessTokenValid(tokens)) {
     return tokens.accessToken;
   }
 
-  if (!tokens.refreshToken) {
+  const { refreshToken } = tokens;
+  if (!refreshToken) {
+    clearOAuthTokens();
+    return null;
+  }
+
+  let refresh = refreshesInFlight.get(refreshToken);
+  if (!refresh) {
+    refresh = refreshStoredTokens(tokens).finally(() => {
+      refreshesInFlight.delete(refreshToken);
+    });
+    refreshesInFlight.set(refreshToken, refresh);
+  }
+  return refresh;
+};
+
+const isAccessTokenValid = (tokens: StoredOAuthTokens): boolean =>
+  tokens.expiresAt >
+  Math.floor(Date.now() / 1000) + TOKEN_EXPIRY_BUFFER_SECONDS;
+
+const refreshStoredTokens = async (
+  tokens: StoredOAuthTokens,
+): Promise<string | null> => {
+  const refreshedTokens = await requestRefreshedTokens(tokens);
+
+  // Another process may have logged in or out, or refreshed the login, in the
+  // meantime: what it stored wins over the outcome of this refresh.
+  const storedTokens = getStoredOAuthTokens();
+  if (
+    storedTokens?.accessToken !== tokens.accessToken ||
+    storedTokens.refreshToken !== tokens.refreshToken
+  ) {
+    return storedTokens && isAccessTokenValid(storedTokens)
+      ? storedTokens.accessToken
+      : null;
+  }
+
+  if (!refreshedTokens) {
     clearOAuthTokens();
     return null;
   }
 
+  try {
+    storeOAuthTokens(refreshedTokens);
+  } catch {
+    clearOAuthTokens();
+    return null;
+  }
+  return refreshedTokens.accessToken;
+};
+
+const requestRefreshedTokens = async (
+  tokens: StoredOAuthTokens,
+): Promise<StoredOAuthTokens | null> => {
   try {
     const body = new URLSearchParams({
       grant_type: "refresh_token",
@@ -38,7 +91,6 @@ export const getValidAccessToken = async (): Promise<string | null> => {
     });
 
     if (!response.ok) {
-      clearOAuthTokens();
       return null;
     }
 
@@ -49,18 +101,14 @@ export const getValidAccessToken = async (): Promise<string | null> => {
       id_token?: string;
     };
 
-    const updatedTokens = {
+    return {
       ...tokens,
       accessToken: data.access_token,
       refreshToken: data.refresh_token ?? tokens.refreshToken,
       expiresAt: Math.floor(Date.now() / 1000) + data.expires_in,
       ...(data.id_token !== undefined ? { idToken: data.id_token } : {}),
     };
-
-    storeOAuthTokens(updatedTokens);
-    return updatedTokens.accessToken;
   } catch {
-    clearOAuthTokens();
     return null;
   }
 };
-- 
2.43.0


From da2b3bd1547ecc00ba7a13dbe3066e54a323a577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 13/48] fix: keep the configured retry delay for every download
 retry

---
 packages/downloading-helpers/src/file-downloads/download-file.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/downloading-helpers/src/file-downloads/download-file.ts b/packages/downloading-helpers/src/file-downloads/download-file.ts
index 784996b..4d002b0 100644
--- a/packages/downloading-helpers/src/file-downloads/download-file.ts
+++ b/packages/downloading-helpers/src/file-downloads/download-file.ts
@@ -154,6 +154,7 @@ export const downloadFile = async (
       firstDataTimeoutInMs,
       downloadCompleteTimeoutInMs,
       maxDownloadContentRetries: maxDownloadContentRetries - 1,
+      downloadContentRetryDelay,
     });
   }
 };
-- 
2.43.0


From 6ab15c2785747a7b41d0f92c6c8be0a15e8cce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 14/48] fix: parallel tar extraction keeps entries whose name
 starts with two dots

---
 .../src/file-downloads/download-file.ts                  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/downloading-helpers/src/file-downloads/download-file.ts b/packages/downloading-helpers/src/file-downloads/download-file.ts
index 4d002b0..1e64fbf 100644
--- a/packages/downloading-helpers/src/file-downloads/download-file.ts
+++ b/packages/downloading-helpers/src/file-downloads/download-file.ts
@@ -1,6 +1,6 @@
 import { createWriteStream, existsSync } from "fs";
 import { mkdir, rm, writeFile } from "fs/promises";
-import { dirname, isAbsolute, relative, resolve } from "path";
+import { dirname, isAbsolute, relative, resolve, sep } from "path";
 import type { Readable, Stream } from "stream";
 import { finished, Transform } from "stream";
 import { pipeline } from "stream/promises";
@@ -568,7 +568,12 @@ const extractTarWithParallelWrites = async ({
   const resolveSafeTarget = (entryPath: string): string | null => {
     const target = resolve(extractPath, entryPath);
     const rel = relative(extractPath, target);
-    if (rel === "" || rel.startsWith("..") || isAbsolute(rel)) {
+    if (
+      rel === "" ||
+      rel === ".." ||
+      rel.startsWith(`..${sep}`) ||
+      isAbsolute(rel)
+    ) {
       return null;
     }
     return target;
-- 
2.43.0


From e5f2e5d25d8e2117f8cba45216caff08df89a144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 15/48] fix: let in-flight writes finish before a failed
 extraction is deleted

---
 .../src/file-downloads/download-file.ts       | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/packages/downloading-helpers/src/file-downloads/download-file.ts b/packages/downloading-helpers/src/file-downloads/download-file.ts
index 1e64fbf..36a470f 100644
--- a/packages/downloading-helpers/src/file-downloads/download-file.ts
+++ b/packages/downloading-helpers/src/file-downloads/download-file.ts
@@ -536,6 +536,7 @@ const extractTarWithParallelWrites = async ({
   const pendingWrites: Promise<void>[] = [];
   const entries: string[] = [];
   let firstError: Error | null = null;
+  let sourceFailed = false;
 
   const recordError = (err: unknown): void => {
     if (firstError == null) {
@@ -553,7 +554,16 @@ const extractTarWithParallelWrites = async ({
       : new Error(String(reason ?? "aborted"));
   };
 
+  // Once the source has failed the whole attempt is discarded, so writes that
+  // are still queued must not start.
+  const throwIfSourceFailed = (): void => {
+    if (sourceFailed) {
+      throw new Error("Archive stream failed");
+    }
+  };
+
   const ensureDir = async (dir: string): Promise<void> => {
+    throwIfSourceFailed();
     if (mkdirCache.has(dir)) {
       return;
     }
@@ -631,6 +641,7 @@ const extractTarWithParallelWrites = async ({
           // an unhandled rejection before allSettled attaches a handler.
           limit(async () => {
             await ensureDir(dirname(target));
+            throwIfSourceFailed();
             // Passing the abort signal to writeFile means that if the outer
             // totalTimeoutInMs fires while writes are draining (common on
             // stalled EFS), the in-flight fs call rejects promptly instead
@@ -644,9 +655,18 @@ const extractTarWithParallelWrites = async ({
     },
   });
 
-  await pipeline(sourceStream, decompressFactory(), parser, {
-    signal: abortSignal,
-  });
+  try {
+    await pipeline(sourceStream, decompressFactory(), parser, {
+      signal: abortSignal,
+    });
+  } catch (err) {
+    // The caller is about to delete `extractPath`. Let the writes that are
+    // already in flight finish first, otherwise they can recreate files and
+    // directories after the deletion.
+    sourceFailed = true;
+    await raceAgainstAbort(Promise.allSettled(pendingWrites), abortSignal);
+    throw err;
+  }
 
   // The pipeline resolves as soon as Parser has consumed all input bytes; the
   // file writes scheduled above may still be outstanding. Drain them before
-- 
2.43.0


From 8653dc3d30ad200fe37602a1a11dcb814578e3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 16/48] fix: hold the lock of a cached download until all of
 its files have settled

---
 .../src/file-downloads/app-container-logs.ts     |  3 ++-
 .../src/file-downloads/local-data.utils.ts       | 16 ++++++++++++++++
 .../src/file-downloads/test-runs.ts              |  3 ++-
 .../downloading-helpers/src/scripts/replays.ts   |  3 ++-
 4 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/packages/downloading-helpers/src/file-downloads/app-container-logs.ts b/packages/downloading-helpers/src/file-downloads/app-container-logs.ts
index dcda5c1..3ed6f34 100644
--- a/packages/downloading-helpers/src/file-downloads/app-container-logs.ts
+++ b/packages/downloading-helpers/src/file-downloads/app-container-logs.ts
@@ -2,6 +2,7 @@ import { appendFile, mkdir } from "fs/promises";
 import { join } from "path";
 import type { AppContainerLogsLocations } from "@alwaysmeticulous/api";
 import { initLogger } from "@alwaysmeticulous/common";
+import { waitForAll } from "./local-data.utils";
 
 export const downloadAppContainerLogs = async (
   appContainerLogs: AppContainerLogsLocations,
@@ -17,7 +18,7 @@ export const downloadAppContainerLogs = async (
   const logsDir = join(testRunDir, "app-container-logs");
   await mkdir(logsDir, { recursive: true });
 
-  await Promise.all(
+  await waitForAll(
     appContainerLogs.pods.map(async ({ podName, chunkKeys }) => {
       await downloadPodLogs({
         podName,
diff --git a/packages/downloading-helpers/src/file-downloads/local-data.utils.ts b/packages/downloading-helpers/src/file-downloads/local-data.utils.ts
index 55f65be..c546f38 100644
--- a/packages/downloading-helpers/src/file-downloads/local-data.utils.ts
+++ b/packages/downloading-helpers/src/file-downloads/local-data.utils.ts
@@ -129,6 +129,22 @@ export const waitToAcquireLockOnFile = async (
   });
 };
 
+/**
+ * Like `Promise.all`, but if any promise rejects it only rejects once all of them
+ * have settled. Use it while holding a lock, so that the lock isn't released while
+ * some of the work it protects is still running.
+ */
+export const waitForAll = async (
+  promises: readonly Promise<unknown>[],
+): Promise<void> => {
+  const results = await Promise.allSettled(promises);
+  for (const result of results) {
+    if (result.status === "rejected") {
+      throw result.reason;
+    }
+  }
+};
+
 export const fileExists = (filePath: string) =>
   access(filePath)
     .then(() => true)
diff --git a/packages/downloading-helpers/src/file-downloads/test-runs.ts b/packages/downloading-helpers/src/file-downloads/test-runs.ts
index b85b449..c9b5030 100644
--- a/packages/downloading-helpers/src/file-downloads/test-runs.ts
+++ b/packages/downloading-helpers/src/file-downloads/test-runs.ts
@@ -12,6 +12,7 @@ import { downloadAndExtractFile } from "./download-file";
 import {
   fileExists,
   sanitizeFilename,
+  waitForAll,
   waitToAcquireLockOnDirectory,
 } from "./local-data.utils";
 
@@ -164,7 +165,7 @@ export const getOrFetchTestRunData = async (
       })
       .filter((promise): promise is () => Promise<void> => promise !== null);
 
-    await Promise.all(downloadPromises.map((fn) => fn()));
+    await waitForAll(downloadPromises.map((fn) => fn()));
 
     if (testRunData.appContainerLogs != null) {
       logger.info("Downloading app container logs...");
diff --git a/packages/downloading-helpers/src/scripts/replays.ts b/packages/downloading-helpers/src/scripts/replays.ts
index 83f77fd..dade5f3 100644
--- a/packages/downloading-helpers/src/scripts/replays.ts
+++ b/packages/downloading-helpers/src/scripts/replays.ts
@@ -14,6 +14,7 @@ import {
 import {
   fileExists,
   getOrDownloadJsonFile,
+  waitForAll,
   waitToAcquireLockOnDirectory,
 } from "../file-downloads/local-data.utils";
 import { ReplayHasNoArtifactsError } from "../errors";
@@ -525,7 +526,7 @@ const downloadReplayV3Files = async (
       : [];
 
   const limited = pLimit(MAX_DOWNLOAD_CONCURRENCY);
-  await Promise.all(
+  await waitForAll(
     [
       ...filePromises,
       ...screenshotPromises,
-- 
2.43.0


From 5de472465e9219e7cef175ee8779d7a32f0c5e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 17/48] fix: a crash while noting a completed download no
 longer blocks the item

---
 .../src/file-downloads/local-data.utils.ts        | 15 ++++++++++++++-
 .../src/file-downloads/test-runs.ts               |  3 ++-
 .../downloading-helpers/src/scripts/replays.ts    |  3 ++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/packages/downloading-helpers/src/file-downloads/local-data.utils.ts b/packages/downloading-helpers/src/file-downloads/local-data.utils.ts
index c546f38..aeaaa9c 100644
--- a/packages/downloading-helpers/src/file-downloads/local-data.utils.ts
+++ b/packages/downloading-helpers/src/file-downloads/local-data.utils.ts
@@ -1,4 +1,4 @@
-import { access, mkdir, readFile, writeFile } from "fs/promises";
+import { access, mkdir, readFile, rename, writeFile } from "fs/promises";
 import { dirname, join } from "path";
 import { initLogger } from "@alwaysmeticulous/common";
 import { Duration } from "luxon";
@@ -150,6 +150,19 @@ export const fileExists = (filePath: string) =>
     .then(() => true)
     .catch(() => false);
 
+/**
+ * Writes the file such that it either has the new contents or, if the process
+ * crashes, is left as it was.
+ */
+export const writeFileAtomically = async (
+  filePath: string,
+  contents: string,
+): Promise<void> => {
+  const tmpFilePath = `${filePath}.tmp`;
+  await writeFile(tmpFilePath, contents, "utf-8");
+  await rename(tmpFilePath, filePath);
+};
+
 export const waitToAcquireLockOnDirectory = (
   directoryPath: string,
 ): Promise<ReleaseLock> => {
diff --git a/packages/downloading-helpers/src/file-downloads/test-runs.ts b/packages/downloading-helpers/src/file-downloads/test-runs.ts
index c9b5030..dbb3e3b 100644
--- a/packages/downloading-helpers/src/file-downloads/test-runs.ts
+++ b/packages/downloading-helpers/src/file-downloads/test-runs.ts
@@ -14,6 +14,7 @@ import {
   sanitizeFilename,
   waitForAll,
   waitToAcquireLockOnDirectory,
+  writeFileAtomically,
 } from "./local-data.utils";
 
 /**
@@ -172,7 +173,7 @@ export const getOrFetchTestRunData = async (
       await downloadAppContainerLogs(testRunData.appContainerLogs, testRunDir);
     }
 
-    await writeFile(previouslyDownloadedFile, downloadScope, "utf-8");
+    await writeFileAtomically(previouslyDownloadedFile, downloadScope);
     logger.info("Test run data downloaded.");
 
     return { fileName: testRunDir, data: testRunData };
diff --git a/packages/downloading-helpers/src/scripts/replays.ts b/packages/downloading-helpers/src/scripts/replays.ts
index dade5f3..ec25203 100644
--- a/packages/downloading-helpers/src/scripts/replays.ts
+++ b/packages/downloading-helpers/src/scripts/replays.ts
@@ -16,6 +16,7 @@ import {
   getOrDownloadJsonFile,
   waitForAll,
   waitToAcquireLockOnDirectory,
+  writeFileAtomically,
 } from "../file-downloads/local-data.utils";
 import { ReplayHasNoArtifactsError } from "../errors";
 
@@ -279,7 +280,7 @@ export const getOrFetchReplayArchive = async (
     // unfiltered callers even though a swallowed best-effort failure (or an
     // exclusion) may have left it incomplete.
     if (!bypassCache) {
-      await writeFile(previouslyDownloadedFile, downloadScope, "utf-8");
+      await writeFileAtomically(previouslyDownloadedFile, downloadScope);
     }
     logger.debug(`Extracted replay archive in ${replayDir}`);
     return { fileName: replayDir };
-- 
2.43.0


From 768efc1dd5aa7a2923f0ef732fdc4a14678b4d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 18/48] fix: a cached download that is being overwritten is not
 taken to be complete

---
 .../src/file-downloads/test-runs.ts           |  6 +++-
 .../src/scripts/replays.ts                    | 31 +++++++++++++++++--
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/packages/downloading-helpers/src/file-downloads/test-runs.ts b/packages/downloading-helpers/src/file-downloads/test-runs.ts
index dbb3e3b..0bf4a9c 100644
--- a/packages/downloading-helpers/src/file-downloads/test-runs.ts
+++ b/packages/downloading-helpers/src/file-downloads/test-runs.ts
@@ -1,4 +1,4 @@
-import { mkdir, readFile, writeFile } from "fs/promises";
+import { mkdir, readFile, rm, writeFile } from "fs/promises";
 import { join } from "path";
 import type { TestRunDataLocations } from "@alwaysmeticulous/api";
 import type { MeticulousClient } from "@alwaysmeticulous/client";
@@ -130,6 +130,10 @@ export const getOrFetchTestRunData = async (
       process.exit(1);
     }
 
+    // The files are about to be overwritten, so until that has completed the
+    // marker must not claim that they are there.
+    await rm(previouslyDownloadedFile, { force: true });
+
     logger.info("Downloading test run data...");
     const downloadPromises = Object.entries(testRunData)
       .filter(([fileType]) =>
diff --git a/packages/downloading-helpers/src/scripts/replays.ts b/packages/downloading-helpers/src/scripts/replays.ts
index ec25203..df50e7d 100644
--- a/packages/downloading-helpers/src/scripts/replays.ts
+++ b/packages/downloading-helpers/src/scripts/replays.ts
@@ -1,4 +1,4 @@
-import { readFile, writeFile, mkdir } from "fs/promises";
+import { readFile, writeFile, mkdir, rm } from "fs/promises";
 import { dirname, join } from "path";
 import type { MeticulousClient } from "@alwaysmeticulous/client";
 import { getReplay, getReplayV3DownloadUrls } from "@alwaysmeticulous/client";
@@ -250,8 +250,9 @@ export const getOrFetchReplayArchive = async (
 
     const replay = await getReplay(client, replayId);
 
+    let completedEverything = true;
     if (replay.version === "v3") {
-      await downloadReplayV3Files(
+      completedEverything = await downloadReplayV3Files(
         client,
         replayId,
         replayDir,
@@ -268,6 +269,14 @@ export const getOrFetchReplayArchive = async (
         // arbitrary keys returned by the server.
         excludeFileTypes as ReadonlySet<string> | undefined,
         bestEffortFileTypes as ReadonlySet<string> | undefined,
+        // The files are about to be overwritten, so until that has completed the
+        // marker must not claim that they are there. Screenshots are never
+        // overwritten when they have been downloaded previously.
+        async () => {
+          if (previouslyDownloadedScope !== "screenshots-only") {
+            await rm(previouslyDownloadedFile, { force: true });
+          }
+        },
       );
     } else {
       throw new Error(
@@ -281,6 +290,12 @@ export const getOrFetchReplayArchive = async (
     // exclusion) may have left it incomplete.
     if (!bypassCache) {
       await writeFileAtomically(previouslyDownloadedFile, downloadScope);
+    } else if (previouslyDownloadedScope != null && completedEverything) {
+      // What was downloaded previously has been kept, or replaced completely.
+      await writeFileAtomically(
+        previouslyDownloadedFile,
+        previouslyDownloadedScope,
+      );
     }
     logger.debug(`Extracted replay archive in ${replayDir}`);
     return { fileName: replayDir };
@@ -289,6 +304,9 @@ export const getOrFetchReplayArchive = async (
   }
 };
 
+/**
+ * Returns false if some best-effort file types could not be downloaded.
+ */
 const downloadReplayV3Files = async (
   client: MeticulousClient,
   replayId: string,
@@ -300,7 +318,8 @@ const downloadReplayV3Files = async (
   includeDiffs: boolean,
   excludeFileTypes: ReadonlySet<string> | undefined,
   bestEffortFileTypes: ReadonlySet<string> | undefined,
-) => {
+  beforeOverwritingFiles: () => Promise<void>,
+): Promise<boolean> => {
   const logger = initLogger();
 
   const includes = (fileType: string): boolean =>
@@ -318,6 +337,8 @@ const downloadReplayV3Files = async (
     throw new ReplayHasNoArtifactsError(replayId);
   }
 
+  let completedEverything = true;
+
   // Wrap a download thunk so that, for file types the caller marked best-effort,
   // a failure (e.g. a 403/404 on a pruned artifact) is logged and swallowed
   // rather than failing the whole archive.
@@ -330,6 +351,7 @@ const downloadReplayV3Files = async (
           try {
             await thunk();
           } catch (error) {
+            completedEverything = false;
             const message =
               error instanceof Error ? error.message : String(error);
             logger.warn(
@@ -526,6 +548,8 @@ const downloadReplayV3Files = async (
         ]
       : [];
 
+  await beforeOverwritingFiles();
+
   const limited = pLimit(MAX_DOWNLOAD_CONCURRENCY);
   await waitForAll(
     [
@@ -536,6 +560,7 @@ const downloadReplayV3Files = async (
       ...appContainerLogsPromises,
     ].map((p) => limited(p)),
   );
+  return completedEverything;
 };
 
 export const getReplayDir = (replayId: string) =>
-- 
2.43.0


From 87b74d42fd5ee967215715e0a3efa1fcd0f29edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 19/48] fix: app container logs are not duplicated when an
 earlier download of them failed

---
 .../src/file-downloads/app-container-logs.ts                  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/downloading-helpers/src/file-downloads/app-container-logs.ts b/packages/downloading-helpers/src/file-downloads/app-container-logs.ts
index 3ed6f34..0397a4c 100644
--- a/packages/downloading-helpers/src/file-downloads/app-container-logs.ts
+++ b/packages/downloading-helpers/src/file-downloads/app-container-logs.ts
@@ -1,4 +1,4 @@
-import { appendFile, mkdir } from "fs/promises";
+import { appendFile, mkdir, writeFile } from "fs/promises";
 import { join } from "path";
 import type { AppContainerLogsLocations } from "@alwaysmeticulous/api";
 import { initLogger } from "@alwaysmeticulous/common";
@@ -45,6 +45,8 @@ const downloadPodLogs = async ({
   // The S3 objects have both Content-Type: application/gzip and Content-Encoding: gzip set,
   // so fetch automatically decompresses the response body. We save as .log (not .log.gz).
   const outputPath = join(logsDir, `${podName}.log`);
+  // Start afresh: an earlier attempt may have failed part-way through.
+  await writeFile(outputPath, "");
   for (const chunkKey of chunkKeys) {
     const url = buildChunkUrl(signedBaseUrl, chunkKey);
     const response = await fetch(url);
-- 
2.43.0


From bc62ed4e957c9106f3ce329dd4746b36dc7c3ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 20/48] fix: a snippet whose update was interrupted is not
 taken for the version before it

---
 packages/downloading-helpers/src/scripts/replay-assets.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/downloading-helpers/src/scripts/replay-assets.ts b/packages/downloading-helpers/src/scripts/replay-assets.ts
index 160bb6a..2a55073 100644
--- a/packages/downloading-helpers/src/scripts/replay-assets.ts
+++ b/packages/downloading-helpers/src/scripts/replay-assets.ts
@@ -158,6 +158,13 @@ const fetchAndCacheFile = async (
       return filePath;
     }
 
+    if (entry && entry.etag !== "") {
+      // The file is about to be overwritten: if that doesn't complete then it must
+      // not be taken for the version that we had, even if that is served again.
+      entry.etag = "";
+      await saveAssetMetadata(assetMetadata);
+    }
+
     await downloadFile(urlToDownloadFrom, filePath);
     if (entry) {
       logger.debug(`${urlToDownloadFrom} updated`);
-- 
2.43.0


From 9d97e89e1ad9daa362faf9a60f6f4cc4c22e5dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 21/48] fix: one failed poll no longer ends the wait for a test
 run before its timeout

---
 .../custom-checks/src/wait-for-test-run.ts    | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/packages/custom-checks/src/wait-for-test-run.ts b/packages/custom-checks/src/wait-for-test-run.ts
index 6c2f12f..2fa2539 100644
--- a/packages/custom-checks/src/wait-for-test-run.ts
+++ b/packages/custom-checks/src/wait-for-test-run.ts
@@ -245,7 +245,18 @@ export const pollUntilTestRunComplete = async ({
   let lastLoggedElapsedMs = 0;
 
   for (;;) {
-    const testRun = await getTestRun({ client, testRunId });
+    let testRun: TestRun;
+    try {
+      testRun = await getTestRun({ client, testRunId });
+    } catch (error) {
+      // A single failed poll says nothing about the run: keep polling until the
+      // timeout, unless the backend refuses the request itself (e.g. no such run).
+      if (isRefused(error) || clock.now() - startTime > timeoutMs) {
+        throw error;
+      }
+      await clock.sleep(pollIntervalMs);
+      continue;
+    }
     // Done once the run leaves the in-progress states — matching how the rest of
     // the SDK determines completion. This also returns for `Partial` (lazy
     // session pools), which is terminal enough and would otherwise hang here
@@ -535,6 +546,19 @@ const markExpectsCustomChecksBestEffort = async (
   }
 };
 
+// A client error other than "timed out" or "too many requests" won't go away by
+// asking again.
+const isRefused = (error: unknown): boolean => {
+  const status = isFetchError(error) ? error.response?.status : undefined;
+  return (
+    status != null &&
+    status >= 400 &&
+    status < 500 &&
+    status !== 408 &&
+    status !== 429
+  );
+};
+
 // Log progress at most once every PROGRESS_LOG_INTERVAL_MS so a script blocked
 // here for minutes isn't silent.
 const shouldLogProgress = (
-- 
2.43.0


From 1e08b6f345cba50f6c31550218d1f79812a6d333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 22/48] fix: redactors are looked up by the own name of a
 field, whatever it is

Fields named like a property of every object (constructor) were garbled or made
the redactor throw, and a redactor given for the empty field name was ignored.
---
 .../redact-nested-fields.ts                   | 43 +++++++++++++------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/packages/redaction/src/generic/redact-nested-fields/redact-nested-fields.ts b/packages/redaction/src/generic/redact-nested-fields/redact-nested-fields.ts
index 719186e..0fc5826 100644
--- a/packages/redaction/src/generic/redact-nested-fields/redact-nested-fields.ts
+++ b/packages/redaction/src/generic/redact-nested-fields/redact-nested-fields.ts
@@ -221,14 +221,15 @@ const createRedactor = <T>({
     }
 
     if (typeof value === "string") {
-      const fieldRedactor = key && strings ? (strings as any)[key] : undefined;
+      const fieldRedactor = findFieldRedactor(strings, key);
       if (!fieldRedactor) {
-        const patternBasedRedactor = key
-          ? findApplicablePatternBasedStringRedactor(
-              key,
-              indexedPatternBasedStringRedactors,
-            )
-          : null;
+        const patternBasedRedactor =
+          key != null
+            ? findApplicablePatternBasedStringRedactor(
+                key,
+                indexedPatternBasedStringRedactors,
+              )
+            : null;
         if (patternBasedRedactor) {
           return patternBasedRedactor.redactor(value) as T;
         }
@@ -240,7 +241,7 @@ const createRedactor = <T>({
     }
 
     if (typeof value === "number") {
-      const fieldRedactor = key && numbers ? (numbers as any)[key] : undefined;
+      const fieldRedactor = findFieldRedactor(numbers, key);
       if (!fieldRedactor) {
         return value;
       }
@@ -248,7 +249,7 @@ const createRedactor = <T>({
     }
 
     if (typeof value === "bigint") {
-      const fieldRedactor = key && bigints ? (bigints as any)[key] : undefined;
+      const fieldRedactor = findFieldRedactor(bigints, key);
       if (!fieldRedactor) {
         return value;
       }
@@ -256,11 +257,15 @@ const createRedactor = <T>({
     }
 
     if (value instanceof Date) {
-      const fieldRedactor = key && dates ? (dates as any)[key] : undefined;
+      const fieldRedactor = findFieldRedactor(dates, key);
       if (!fieldRedactor) {
-        const patternBasedRedactor = key
-          ? findApplicablePatternBasedRedactor(key, patternBasedRedactors.dates)
-          : null;
+        const patternBasedRedactor =
+          key != null
+            ? findApplicablePatternBasedRedactor(
+                key,
+                patternBasedRedactors.dates,
+              )
+            : null;
         if (patternBasedRedactor) {
           return patternBasedRedactor.redactor(value) as T;
         }
@@ -305,6 +310,18 @@ const createRedactor = <T>({
   return redactFn;
 };
 
+// Only considers the redactors that were actually given: field names such as "constructor"
+// also exist on every object's prototype.
+const findFieldRedactor = (
+  redactors: unknown,
+  key: string | undefined,
+): Redactor<any> | undefined =>
+  redactors != null &&
+  key != null &&
+  Object.prototype.hasOwnProperty.call(redactors, key)
+    ? (redactors as Record<string, Redactor<any>>)[key]
+    : undefined;
+
 const findApplicablePatternBasedRedactor = <T>(
   key: string,
   redactors: PatternBasedRedactor<string, T>[],
-- 
2.43.0


From 21ee30bca1107f45a2f0559a4c90875d24ddc534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 23/48] fix: the default string redactor given to the builder
 is applied

---
 .../redact-nested-fields.ts                   | 30 ++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/packages/redaction/src/generic/redact-nested-fields/redact-nested-fields.ts b/packages/redaction/src/generic/redact-nested-fields/redact-nested-fields.ts
index 0fc5826..a43f459 100644
--- a/packages/redaction/src/generic/redact-nested-fields/redact-nested-fields.ts
+++ b/packages/redaction/src/generic/redact-nested-fields/redact-nested-fields.ts
@@ -53,7 +53,11 @@ export class NestedFieldsRedactor<
     return new NestedFieldsRedactor<
       HANDLED_STRING_KEY_TYPES & KEY_TYPE,
       HANDLED_DATE_KEY_TYPES
-    >([...this.stringRedactors, redactor], this.dateRedactors);
+    >(
+      [...this.stringRedactors, redactor],
+      this.dateRedactors,
+      this.defaultStringRedactor,
+    );
   }
 
   public withPatternBasedStringRedactors<KEY_TYPE extends string>(
@@ -65,7 +69,11 @@ export class NestedFieldsRedactor<
     return new NestedFieldsRedactor<
       HANDLED_STRING_KEY_TYPES | KEY_TYPE,
       HANDLED_DATE_KEY_TYPES
-    >([...this.stringRedactors, ...set.redactors], this.dateRedactors);
+    >(
+      [...this.stringRedactors, ...set.redactors],
+      this.dateRedactors,
+      this.defaultStringRedactor,
+    );
   }
 
   public withPatternBasedDateRedactor<KEY_TYPE extends string>(
@@ -77,7 +85,11 @@ export class NestedFieldsRedactor<
     return new NestedFieldsRedactor<
       HANDLED_STRING_KEY_TYPES,
       HANDLED_DATE_KEY_TYPES | KEY_TYPE
-    >(this.stringRedactors, [...this.dateRedactors, redactor]);
+    >(
+      this.stringRedactors,
+      [...this.dateRedactors, redactor],
+      this.defaultStringRedactor,
+    );
   }
 
   public withPatternBasedDateRedactors<KEY_TYPE extends string>(
@@ -89,7 +101,11 @@ export class NestedFieldsRedactor<
     return new NestedFieldsRedactor<
       HANDLED_STRING_KEY_TYPES,
       HANDLED_DATE_KEY_TYPES | KEY_TYPE
-    >(this.stringRedactors, [...this.dateRedactors, ...set.redactors]);
+    >(
+      this.stringRedactors,
+      [...this.dateRedactors, ...set.redactors],
+      this.defaultStringRedactor,
+    );
   }
 
   /**
@@ -109,6 +125,8 @@ export class NestedFieldsRedactor<
   }) {
     return createRedactor({
       ...opts,
+      defaultStringRedactor:
+        opts.defaultStringRedactor ?? this.defaultStringRedactor,
       patternBasedRedactors: {
         strings: this.stringRedactors,
         dates: this.dateRedactors,
@@ -134,6 +152,8 @@ export class NestedFieldsRedactor<
   }) {
     return createRedactor({
       ...opts,
+      defaultStringRedactor:
+        opts.defaultStringRedactor ?? this.defaultStringRedactor,
       patternBasedRedactors: {
         strings: this.stringRedactors,
         dates: this.dateRedactors,
@@ -156,6 +176,8 @@ export class NestedFieldsRedactor<
   }): ((value: T) => T) => {
     return createRedactor({
       ...opts,
+      defaultStringRedactor:
+        opts.defaultStringRedactor ?? this.defaultStringRedactor,
       patternBasedRedactors: {
         strings: this.stringRedactors,
         dates: this.dateRedactors,
-- 
2.43.0


From 238088bff6f74d1e9031dcb447654521145014ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 24/48] fix: redactUrl redacts URLs without a host, such as
 mailto: and data: ones

---
 packages/redaction/src/generic/redact-url.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/redaction/src/generic/redact-url.ts b/packages/redaction/src/generic/redact-url.ts
index 2b6b5c6..09fae6b 100644
--- a/packages/redaction/src/generic/redact-url.ts
+++ b/packages/redaction/src/generic/redact-url.ts
@@ -3,6 +3,10 @@ import { asterixOut } from "./asterix-out";
 export const redactUrl = (url: string) => {
   try {
     const parsedUrl = new URL(url);
+    if (parsedUrl.host === "" && !parsedUrl.pathname.startsWith("/")) {
+      // The parts of a URL like "mailto:..." or "data:..." can't be replaced one by one
+      return parsedUrl.protocol + asterixOut(url.slice(url.indexOf(":") + 1));
+    }
     parsedUrl.password = asterixOut(parsedUrl.password);
     parsedUrl.username = asterixOut(parsedUrl.username);
     parsedUrl.hostname = "redacted.com";
-- 
2.43.0


From 80149044a2102e2b5f3382019348f6d1cd2c1569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 25/48] fix: a URL pattern with the g or y flag applies to
 every response it matches

---
 .../src/network-responses/transform-json-response.ts      | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/redaction/src/network-responses/transform-json-response.ts b/packages/redaction/src/network-responses/transform-json-response.ts
index e53d589..fd0f44b 100644
--- a/packages/redaction/src/network-responses/transform-json-response.ts
+++ b/packages/redaction/src/network-responses/transform-json-response.ts
@@ -40,8 +40,12 @@ export const transformJsonResponse = <T>({
       response: HarResponse,
       metadata: NetworkResponseMetadata,
     ) => {
-      if (urlRegExp && !urlRegExp.test(metadata.request.url)) {
-        return response;
+      if (urlRegExp) {
+        // Expressions with the "g" or "y" flag otherwise continue from their last match
+        urlRegExp.lastIndex = 0;
+        if (!urlRegExp.test(metadata.request.url)) {
+          return response;
+        }
       }
 
       let parsed: T;
-- 
2.43.0


From 6d1655433faa97a156b986050249a966115db256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:45 +0000
Subject: [PATCH 26/48] fix: validating a session filter never throws, whatever
 its type is

---
 packages/session-filters/src/session-filters.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/session-filters/src/session-filters.ts b/packages/session-filters/src/session-filters.ts
index 9b0f483..e8210b2 100644
--- a/packages/session-filters/src/session-filters.ts
+++ b/packages/session-filters/src/session-filters.ts
@@ -7,6 +7,15 @@ export type SessionFilterValidationResult =
   | { valid: true; filter: SessionFilter }
   | { valid: false; error: string };
 
+const describeValue = (value: unknown): string | undefined => {
+  try {
+    return JSON.stringify(value);
+  } catch {
+    // Not representable as JSON: a bigint, or an object that contains itself
+    return typeof value;
+  }
+};
+
 /**
  * Validates an untrusted value as a {@link SessionFilter}, including structural
  * validation of the filter object and basic constraints (length, count).
@@ -25,7 +34,7 @@ export const validateSessionFilter = (
   if (type !== "session-start-url-matches-any-regex") {
     return {
       valid: false,
-      error: `Unknown session filter type ${JSON.stringify(type)}. Supported types: "session-start-url-matches-any-regex".`,
+      error: `Unknown session filter type ${describeValue(type)}. Supported types: "session-start-url-matches-any-regex".`,
     };
   }
 
-- 
2.43.0


From b4c246b1a54653dff79b76e7262c2d17ad96c2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:12 +0000
Subject: [PATCH 27/48] fix: DOM diffs: a failed write, a malformed response or
 entry does not stop the others

---
 packages/debug-workspace/src/fetch-dom-diffs.ts | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/packages/debug-workspace/src/fetch-dom-diffs.ts b/packages/debug-workspace/src/fetch-dom-diffs.ts
index 8f1ad94..0265003 100644
--- a/packages/debug-workspace/src/fetch-dom-diffs.ts
+++ b/packages/debug-workspace/src/fetch-dom-diffs.ts
@@ -227,7 +227,8 @@ const resolveScreenshot = async (args: {
     client,
   } = args;
 
-  const identifier = result.identifier;
+  // Server data: an entry may be null, whatever the declared type says.
+  const identifier = result?.identifier;
   if (identifier == null) {
     return null;
   }
@@ -286,13 +287,19 @@ const resolveScreenshot = async (args: {
   }
 
   return limit(async () => {
+    const diffFilename = `${pair.label}-${screenshotBaseName}.diff`;
     let response;
+    let diffBody: string | null = null;
     try {
       response = await fetchScreenshotDiff(
         client,
         pair.replayDiffId,
         backendName,
       );
+      if (response.totalDiffs !== 0 && response.diffs.length !== 0) {
+        diffBody = response.diffs.map((d) => d.content).join("\n\n");
+        writeFileSync(join(domDiffsDir, diffFilename), diffBody);
+      }
     } catch (error) {
       const message = error instanceof Error ? error.message : String(error);
       console.warn(
@@ -312,7 +319,7 @@ const resolveScreenshot = async (args: {
       };
     }
 
-    if (response.totalDiffs === 0 || response.diffs.length === 0) {
+    if (diffBody == null) {
       // Pixel-diffed but DOM-identical — same as `no-diff`: nothing to navigate
       // to, so no map entry (the identical status is in the summary).
       return {
@@ -327,9 +334,6 @@ const resolveScreenshot = async (args: {
       };
     }
 
-    const diffBody = response.diffs.map((d) => d.content).join("\n\n");
-    const diffFilename = `${pair.label}-${screenshotBaseName}.diff`;
-    writeFileSync(join(domDiffsDir, diffFilename), diffBody);
     const bytes = Buffer.byteLength(diffBody, "utf-8");
 
     // Fetch the same hunks with full-file context so the agent never has to
@@ -464,7 +468,8 @@ const readScreenshotDiffResults = (
     const raw = JSON.parse(readFileSync(file, "utf-8")) as {
       data?: { screenshotDiffResults?: ScreenshotDiffResultEntry[] };
     };
-    return raw?.data?.screenshotDiffResults ?? null;
+    const results = raw?.data?.screenshotDiffResults;
+    return Array.isArray(results) ? results : null;
   } catch (error) {
     // Malformed JSON (e.g. a truncated download) — log the actual parse error
     // so a real breakage is distinguishable from a benign absent/empty file.
-- 
2.43.0


From 60c436ff84e17575c0555b07de0f7efea2e0b2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:46 +0000
Subject: [PATCH 28/48] fix: debug workspaces keep no unredacted cookies of
 malformed files and lines, and no __proto__ key is lost

---
 .../src/generate-debug-workspace.ts           | 35 ++++++++++++-------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/packages/debug-workspace/src/generate-debug-workspace.ts b/packages/debug-workspace/src/generate-debug-workspace.ts
index 2c63614..a4654bd 100644
--- a/packages/debug-workspace/src/generate-debug-workspace.ts
+++ b/packages/debug-workspace/src/generate-debug-workspace.ts
@@ -6,6 +6,7 @@ import {
   mkdirSync,
   readFileSync,
   readdirSync,
+  rmSync,
   statSync,
   unlinkSync,
   writeFileSync,
@@ -567,7 +568,7 @@ export const redactCookiesAndHeadersInJson = (
     return value.map((item) => redactCookiesAndHeadersInJson(item));
   }
   if (value !== null && typeof value === "object") {
-    const result: Record<string, unknown> = {};
+    const result: Array<[string, unknown]> = [];
     for (const [childKey, childValue] of Object.entries(
       value as Record<string, unknown>,
     )) {
@@ -575,21 +576,21 @@ export const redactCookiesAndHeadersInJson = (
         SENSITIVE_SCALAR_KEYS.has(childKey) &&
         typeof childValue === "string"
       ) {
-        result[childKey] = REDACTED_VALUE_MARKER;
+        result.push([childKey, REDACTED_VALUE_MARKER]);
       } else if (
         HTTP_HEADER_ATTRIBUTE_KEY_RE.test(childKey) &&
         Array.isArray(childValue)
       ) {
-        result[childKey] = childValue.map(() => REDACTED_VALUE_MARKER);
+        result.push([childKey, childValue.map(() => REDACTED_VALUE_MARKER)]);
       } else {
-        result[childKey] = redactCookiesAndHeadersInJson(
-          childValue,
+        result.push([
           childKey,
-          key,
-        );
+          redactCookiesAndHeadersInJson(childValue, childKey, key),
+        ]);
       }
     }
-    return result;
+    // Unlike assignment, keeps a `__proto__` key.
+    return Object.fromEntries(result);
   }
   return value;
 };
@@ -641,8 +642,10 @@ const redactCookiesAndHeadersInFile = (
   } catch (error) {
     const message = error instanceof Error ? error.message : String(error);
     console.warn(
-      `  Warning: Could not redact cookies/headers/storage in ${filePath}: ${message}`,
+      `  Warning: Could not redact cookies/headers/storage in ${filePath}, so it was removed: ${message}`,
     );
+    // Never leave the original values in the workspace.
+    rmSync(filePath, { recursive: true, force: true });
     return false;
   }
 };
@@ -651,7 +654,8 @@ const redactCookiesAndHeadersInFile = (
 // `redactCookiesAndHeadersInJson` over each line independently. Used for
 // `timeline.ndjson`, which -- unlike `timeline.json` -- is sometimes already
 // present in the downloaded replay archive rather than generated fresh from
-// the (by-then-redacted) `timeline.json`.
+// the (by-then-redacted) `timeline.json`. A line that is not valid JSON cannot
+// be redacted selectively, so all of it is.
 const redactCookiesAndHeadersInNdjsonFile = (filePath: string): boolean => {
   if (!existsSync(filePath)) {
     return false;
@@ -662,15 +666,22 @@ const redactCookiesAndHeadersInNdjsonFile = (filePath: string): boolean => {
       if (line.trim() === "") {
         return line;
       }
-      return JSON.stringify(redactCookiesAndHeadersInJson(JSON.parse(line)));
+      let parsed: unknown;
+      try {
+        parsed = JSON.parse(line);
+      } catch {
+        return JSON.stringify(REDACTED_VALUE_MARKER);
+      }
+      return JSON.stringify(redactCookiesAndHeadersInJson(parsed));
     });
     writeFileSync(filePath, redactedLines.join("\n"));
     return true;
   } catch (error) {
     const message = error instanceof Error ? error.message : String(error);
     console.warn(
-      `  Warning: Could not redact cookies/headers/storage in ${filePath}: ${message}`,
+      `  Warning: Could not redact cookies/headers/storage in ${filePath}, so it was removed: ${message}`,
     );
+    rmSync(filePath, { recursive: true, force: true });
     return false;
   }
 };
-- 
2.43.0


From cd2ffebbc29d2d15e8be6537dde69e005b498740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 29/48] fix: replay logs: redact credentials of quoted header
 names, escaped values and malformed lines

---
 .../src/generate-debug-workspace.ts            | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/packages/debug-workspace/src/generate-debug-workspace.ts b/packages/debug-workspace/src/generate-debug-workspace.ts
index a4654bd..f000cac 100644
--- a/packages/debug-workspace/src/generate-debug-workspace.ts
+++ b/packages/debug-workspace/src/generate-debug-workspace.ts
@@ -867,10 +867,11 @@ const LOG_CREDENTIAL_REPLACEMENTS: Array<{
   replacement: string;
 }> = [
   {
-    // Plain `Header-Name: <value>` dumps -- redact the rest of the line
-    // after the colon, preserving the header name.
+    // Plain `Header-Name: <value>` dumps, with or without quotes around the
+    // name -- redact the rest of the line after the colon, preserving the
+    // header name.
     pattern: new RegExp(
-      `\\b(${CREDENTIAL_HEADER_NAMES})(\\s*:\\s*)\\S.*`,
+      `\\b(${CREDENTIAL_HEADER_NAMES})(['"]?\\s*:\\s*)\\S.*`,
       "gi",
     ),
     replacement: `$1$2${REDACTED_VALUE_MARKER}`,
@@ -880,7 +881,7 @@ const LOG_CREDENTIAL_REPLACEMENTS: Array<{
     // (HAR-style header/cookie entries), whether logged via `util.inspect`
     // (unquoted keys, single-quoted strings) or `JSON.stringify`.
     pattern: new RegExp(
-      `(['"]?name['"]?\\s*:\\s*['"]?(?:${CREDENTIAL_HEADER_NAMES})['"]?[\\s\\S]{0,80}?['"]?value['"]?\\s*:\\s*(['"]))[^'"\n]*\\2`,
+      `(['"]?name['"]?\\s*:\\s*['"]?(?:${CREDENTIAL_HEADER_NAMES})['"]?[\\s\\S]{0,80}?['"]?value['"]?\\s*:\\s*(['"]))(?:\\\\.|(?!\\2)[^\\\\\n])*\\2`,
       "gi",
     ),
     replacement: `$1${REDACTED_VALUE_MARKER}$2`,
@@ -933,13 +934,16 @@ const redactLogCredentialsInNdjsonFile = (filePath: string): boolean => {
       if (line.trim() === "") {
         return line;
       }
-      let entry: Record<string, unknown>;
+      let entry: Record<string, unknown> | null;
       try {
         entry = JSON.parse(line);
       } catch {
-        return line;
+        // Escape sequences of a truncated line hide credentials from the
+        // patterns, so none of it is kept.
+        changed = true;
+        return JSON.stringify(REDACTED_VALUE_MARKER);
       }
-      if (typeof entry.message !== "string") {
+      if (typeof entry?.message !== "string") {
         return line;
       }
       const redactedMessage = redactLogCredentials(entry.message);
-- 
2.43.0


From 65a6d0e4a434590825058c03fa8de1b8064579ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:52 +0000
Subject: [PATCH 30/48] fix: a log line that is null does not stop the debug
 workspace from being generated

---
 .../debug-workspace/src/generate-debug-derived-files.ts     | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/debug-workspace/src/generate-debug-derived-files.ts b/packages/debug-workspace/src/generate-debug-derived-files.ts
index c51234c..9d1c16b 100644
--- a/packages/debug-workspace/src/generate-debug-derived-files.ts
+++ b/packages/debug-workspace/src/generate-debug-derived-files.ts
@@ -172,13 +172,17 @@ const generateLogsIndex = (
       continue;
     }
 
-    let entry: Record<string, unknown>;
+    let entry: Record<string, unknown> | null;
     try {
       entry = JSON.parse(rawLine);
     } catch {
       lineIndex++;
       continue;
     }
+    if (entry == null) {
+      lineIndex++;
+      continue;
+    }
 
     if (entry.type === "virtual-time-change" && entry.virtualTime != null) {
       const newVt = Number(entry.virtualTime);
-- 
2.43.0


From 558eb8b96f450753b73e90bfdd8357822cf61a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:53 +0000
Subject: [PATCH 31/48] fix: tunnel: answer every request that cannot be
 forwarded, and reach hosts named with a port

A request naming a host with an explicit port was sent to the host
"name:port", which does not resolve. A response with an Upgrade header or
with a status that HTTP2 does not have crashed the worker, and with it every
other request of the tunnel, and an upstream that closed the connection after
the request had been sent left the request unanswered forever.
---
 .../src/lib/tunnel-http2-cluster.ts           | 80 +++++++++++++------
 1 file changed, 55 insertions(+), 25 deletions(-)

diff --git a/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts b/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
index d49db55..1e897d4 100644
--- a/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
+++ b/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
@@ -1,7 +1,7 @@
 /* eslint-disable @typescript-eslint/no-unused-vars */
 
 import EventEmitter from "events";
-import { request as httpRequest } from "http";
+import { ClientRequest, request as httpRequest } from "http";
 import { request as httpsRequest } from "https";
 import * as net from "net";
 import { createServer, Http2Server } from "node:http2";
@@ -134,8 +134,19 @@ export class TunnelHTTP2Cluster extends (EventEmitter as new () => TypedEmitter<
         protocolToRequest === "https" ? httpsRequest : httpRequest;
       const agent = protocolToRequest === "https" ? httpsAgent : httpAgent;
 
-      const clientReq = request(
-        {
+      // Once the response has begun, the response pipeline deals with failures
+      const answerBadGateway = (err: unknown) => {
+        this.logger.error("Request pipeline error", err);
+        if (!res.headersSent) {
+          res.getHeaderNames().forEach((name) => res.removeHeader(name));
+          res.writeHead(502);
+          res.end();
+        }
+      };
+
+      let clientReq: ClientRequest;
+      try {
+        clientReq = request({
           agent,
           host: hostToRequest,
           port: portToRequest,
@@ -143,35 +154,54 @@ export class TunnelHTTP2Cluster extends (EventEmitter as new () => TypedEmitter<
           method: req.method,
           headers: headersToForward,
           ...getLocalAddress(),
-        },
-        (clientRes) => {
-          // Drop HTTP1 specific headers
-          const {
-            connection,
+        });
+      } catch (err) {
+        // E.g. a path or header that HTTP1 does not allow
+        answerBadGateway(err);
+        return;
+      }
+
+      clientReq.on("response", (clientRes) => {
+        // Drop HTTP1 specific headers
+        const {
+          connection,
 
-            "keep-alive": _,
+          "keep-alive": _,
 
-            "transfer-encoding": __,
-            ...headersToForward
-          } = clientRes.headers;
+          "transfer-encoding": __,
+          upgrade,
+          "proxy-connection": ___,
+          "http2-settings": ____,
+          ...headersToForward
+        } = clientRes.headers;
 
+        try {
           res.writeHead(clientRes.statusCode as number, headersToForward);
+        } catch (err) {
+          // E.g. a status that HTTP2 does not allow
+          answerBadGateway(err);
+          clientRes.destroy();
+          return;
+        }
 
-          pipeline(clientRes, res, (err) => {
-            if (err) {
-              this.logger.error("Response pipeline error", err);
-            }
-          });
-        },
-      );
+        pipeline(clientRes, res, (err) => {
+          if (err) {
+            this.logger.error("Response pipeline error", err);
+          }
+        });
+      });
+
+      // The connection can still fail, or close, once the request has been sent in full
+      clientReq.on("error", answerBadGateway);
+      clientReq.on("close", () => {
+        if (!res.headersSent) {
+          answerBadGateway(new Error("Connection closed without a response"));
+        }
+      });
 
       pipeline(req, clientReq, (err) => {
         if (err) {
-          this.logger.error("Request pipeline error", err);
-          if (!res.headersSent) {
-            res.writeHead(502);
-          }
-          res.end();
+          answerBadGateway(err);
         }
       });
     });
@@ -204,7 +234,7 @@ export class TunnelHTTP2Cluster extends (EventEmitter as new () => TypedEmitter<
         return defaultTarget;
       }
       const parsed = new URL(originalUrl.toString());
-      const hostToRequest = parsed.host;
+      const hostToRequest = parsed.hostname.replace(/^\[(.*)\]$/, "$1");
       if (this.isRequestToTunnelServer(hostToRequest)) {
         // This is actually a request to the tunnel server itself. If we forward it, we will
         // end up in an infinite loop. We want to dispatch this request to the local server.
-- 
2.43.0


From 0aba54ac0dd4fc46d1a7f16b842abba4036e88ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:23 +0000
Subject: [PATCH 32/48] fix: tunnel: settle the opening of a tunnel, and open
 the connections asked for

A refusal of the credentials whose body was not JSON was retried forever, a
tunnel closed while it was opening kept trying and then started its workers,
and the number of connections asked for was ignored. Through a proxy, a
connection without TLS never authenticated, one that the proxy closed was
waited for forever, and one that it refused stayed open.
---
 packages/tunnel-client/src/lib/tunnel.ts        | 13 +++++++++++--
 packages/tunnel-client/src/utils/open-socket.ts | 15 +++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/packages/tunnel-client/src/lib/tunnel.ts b/packages/tunnel-client/src/lib/tunnel.ts
index 9ef8e95..06875a0 100644
--- a/packages/tunnel-client/src/lib/tunnel.ts
+++ b/packages/tunnel-client/src/lib/tunnel.ts
@@ -84,6 +84,7 @@ export class Tunnel extends (EventEmitter as new () => TypedEmitter<TunnelEvents
       proxyAllUrls,
       rewriteHostnameToAppUrl,
       enableDnsCache,
+      http2Connections,
     } = this.opts;
     const parsedHost = new URL(url);
 
@@ -117,6 +118,7 @@ export class Tunnel extends (EventEmitter as new () => TypedEmitter<TunnelEvents
       proxyAllUrls,
       rewriteHostnameToAppUrl,
       enableDnsCache,
+      http2Connections,
     };
   }
 
@@ -145,6 +147,10 @@ export class Tunnel extends (EventEmitter as new () => TypedEmitter<TunnelEvents
     const uri = `${baseUriWithDomain}?${urlSearchParams.toString()}`;
 
     const getUrl = () => {
+      if (this.closed) {
+        return cb(new Error("Tunnel was closed"));
+      }
+
       const headers: Record<string, string> = {
         "Content-Type": "application/json",
       };
@@ -157,8 +163,6 @@ export class Tunnel extends (EventEmitter as new () => TypedEmitter<TunnelEvents
         headers,
       })
         .then(async (res) => {
-          const body = await res.json();
-          this.logger.debug("got tunnel information", body);
           if (res.status === 401 || res.status === 403) {
             return cb(
               new Error(
@@ -168,6 +172,11 @@ export class Tunnel extends (EventEmitter as new () => TypedEmitter<TunnelEvents
               ),
             );
           }
+          const body = await res.json();
+          this.logger.debug("got tunnel information", body);
+          if (this.closed) {
+            return cb(new Error("Tunnel was closed"));
+          }
           if (res.status !== 200) {
             const err = new Error(
               (body &&
diff --git a/packages/tunnel-client/src/utils/open-socket.ts b/packages/tunnel-client/src/utils/open-socket.ts
index b5e7688..c25f5b9 100644
--- a/packages/tunnel-client/src/utils/open-socket.ts
+++ b/packages/tunnel-client/src/utils/open-socket.ts
@@ -53,6 +53,7 @@ const createProxyConnection = async (
           resolve();
         } else {
           proxySocket.removeListener("data", onData);
+          proxySocket.destroy();
           reject(
             new Error(`Proxy CONNECT failed: ${response.split("\r\n")[0]}`),
           );
@@ -63,6 +64,9 @@ const createProxyConnection = async (
     });
 
     proxySocket.once("error", reject);
+    proxySocket.once("close", () => {
+      reject(new Error("Proxy closed the connection"));
+    });
   });
 
   if (useTls) {
@@ -145,7 +149,7 @@ export const openSocket = async ({
   const connectEvent = useTls ? "secureConnect" : "connect";
 
   await new Promise<void>((resolve, reject) => {
-    socket.once(connectEvent, () => {
+    const authenticate = () => {
       // Send the tunnel passphrase to the server
       socket.write(`AUTH ${tunnelPassphrase}`);
 
@@ -171,7 +175,14 @@ export const openSocket = async ({
           resolve();
         }
       });
-    });
+    };
+
+    if (proxyUrl && !useTls) {
+      // The connection to the proxy is the connection to the server
+      authenticate();
+    } else {
+      socket.once(connectEvent, authenticate);
+    }
 
     socket.once("error", reject);
   });
-- 
2.43.0


From 27c19985e8e44d7b20a10cb17eef1184660f5628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:27 +0000
Subject: [PATCH 33/48] fix: recorder-loader: an early network recorder asked
 to stop does not start afterwards, and is stopped once

---
 .../src/install-meticulous-intercepts.ts      | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/packages/recorder-loader/src/install-meticulous-intercepts.ts b/packages/recorder-loader/src/install-meticulous-intercepts.ts
index 080710b..66a9acb 100644
--- a/packages/recorder-loader/src/install-meticulous-intercepts.ts
+++ b/packages/recorder-loader/src/install-meticulous-intercepts.ts
@@ -75,8 +75,8 @@ export const tryInstallMeticulousIntercepts = async (
     const disposeFunction = (window as PrivateWindowApi)?.__meticulous
       ?.earlyNetworkRecorder?.dispose;
     if (disposeFunction && !disposedEarlyNetworkRecorder) {
-      await disposeFunction();
       disposedEarlyNetworkRecorder = true;
+      await disposeFunction();
     }
   };
   const interceptor = {
@@ -105,6 +105,10 @@ export const tryInstallMeticulousIntercepts = async (
         window.clearTimeout(timeout);
       }
       resolve(interceptor);
+      if (requestedToStopIntercepting) {
+        // We were asked to stop after the time limit, but before the script had loaded
+        stopIntercepting().catch(console.error);
+      }
     };
     script.onerror = () => {
       if (timeout) {
@@ -119,14 +123,8 @@ export const tryInstallMeticulousIntercepts = async (
   });
 
   // Try to load the early network recorder and silence any initialisation error.
-  return promise
-    .catch((error) => {
-      console.error(error);
-      return interceptor;
-    })
-    .finally(() => {
-      if (requestedToStopIntercepting) {
-        void stopIntercepting();
-      }
-    });
+  return promise.catch((error) => {
+    console.error(error);
+    return interceptor;
+  });
 };
-- 
2.43.0


From dd56f39c266f5a477c00892ae3c8146cdeb47a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:27 +0000
Subject: [PATCH 34/48] fix: recorder-plugin: skip commented out and lookalike
 markup, and inject at most once into a page

---
 .../recorder-plugin/src/core/inject-html.ts   | 38 +++++++++++++++----
 .../src/core/rspack-html-hooks.ts             |  7 +++-
 packages/recorder-plugin/src/index.ts         |  9 +++++
 3 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/packages/recorder-plugin/src/core/inject-html.ts b/packages/recorder-plugin/src/core/inject-html.ts
index bef56bc..ea24f69 100644
--- a/packages/recorder-plugin/src/core/inject-html.ts
+++ b/packages/recorder-plugin/src/core/inject-html.ts
@@ -7,33 +7,55 @@ export interface InjectResult {
 const escapeForRegex = (value: string): string =>
   value.replace(/[-/\\^$*+?.()|[\]{}]/g, "\\$&");
 
+// Commented out markup is skipped: nothing there would take effect.
+const COMMENT = "<!--[\\s\\S]*?-->";
+
+// The inside of a tag: an attribute's value may contain a `>`.
+const IN_TAG = `(?:"[^"]*"|'[^']*'|[^>"'])*`;
+
 const buildPlaceholderRegex = (placeholderAttribute: string): RegExp =>
   new RegExp(
     // Also matches the JSX self-closing form `<script data-meticulous />`:
-    // the `/` is captured by `[^>]*` and the closing `</script>` is optional.
-    `<script\\b[^>]*\\b${escapeForRegex(placeholderAttribute)}(?![-\\w])[^>]*>(?:\\s*<\\/script>)?`,
-    "i",
+    // the `/` is captured as part of the tag and the closing `</script>` is optional.
+    `${COMMENT}|<script(?=\\s)${IN_TAG}?\\s${escapeForRegex(placeholderAttribute)}(?=[\\s=/>])${IN_TAG}>(?:[^<]*<\\/script>)?`,
+    "gi",
   );
 
-const HEAD_OPEN_REGEX = /<head\b[^>]*>/i;
+const HEAD_OPEN_REGEX = new RegExp(
+  `${COMMENT}|<head(?=[\\s/>])${IN_TAG}>`,
+  "gi",
+);
+
+const findMarkup = (html: string, regex: RegExp): RegExpMatchArray | null => {
+  for (const match of html.matchAll(regex)) {
+    if (!match[0].startsWith("<!--")) {
+      return match;
+    }
+  }
+  return null;
+};
 
 const replacePlaceholder = (
   html: string,
   scriptTag: string,
   placeholderAttribute: string,
 ): { matched: boolean; html: string } => {
-  const regex = buildPlaceholderRegex(placeholderAttribute);
-  if (!regex.test(html)) {
+  const match = findMarkup(html, buildPlaceholderRegex(placeholderAttribute));
+  if (!match || match.index === undefined) {
     return { matched: false, html };
   }
-  return { matched: true, html: html.replace(regex, () => scriptTag) };
+  const end = match.index + match[0].length;
+  return {
+    matched: true,
+    html: html.slice(0, match.index) + scriptTag + html.slice(end),
+  };
 };
 
 const insertAfterHead = (
   html: string,
   scriptTag: string,
 ): { matched: boolean; html: string } => {
-  const match = html.match(HEAD_OPEN_REGEX);
+  const match = findMarkup(html, HEAD_OPEN_REGEX);
   if (!match || match.index === undefined) {
     return { matched: false, html };
   }
diff --git a/packages/recorder-plugin/src/core/rspack-html-hooks.ts b/packages/recorder-plugin/src/core/rspack-html-hooks.ts
index 8bf1084..298623b 100644
--- a/packages/recorder-plugin/src/core/rspack-html-hooks.ts
+++ b/packages/recorder-plugin/src/core/rspack-html-hooks.ts
@@ -64,10 +64,12 @@ const hasRecorderTokenAttribute = (html: string, token: string): boolean => {
 };
 
 export const isAlreadyInjected = (
-  html: string,
+  fullHtml: string,
   options: ResolvedOptions,
   scriptTag: string,
 ): boolean => {
+  // A commented out recorder script does not count.
+  const html = fullHtml.replace(/<!--[\s\S]*?-->/g, "");
   if (html.includes(scriptTag)) {
     return true;
   }
@@ -81,7 +83,8 @@ export const isAlreadyInjected = (
     return true;
   }
 
-  return /<script\b[^>]*\bdata-recording-token(?:=["']|\s|>)/i.test(html);
+  // Minifiers may have removed the quotes around the attribute's value.
+  return /<script\b[^>]*\bdata-recording-token(?=[\s=/>])/i.test(html);
 };
 
 export const applyInjection = (
diff --git a/packages/recorder-plugin/src/index.ts b/packages/recorder-plugin/src/index.ts
index 7f1ed12..e2a7fd4 100644
--- a/packages/recorder-plugin/src/index.ts
+++ b/packages/recorder-plugin/src/index.ts
@@ -8,6 +8,7 @@ import type { ConfigEnv } from "vite";
 import { resolveOptions } from "./core/options";
 import {
   applyInjection,
+  isAlreadyInjected,
   tapHtmlBeforeEmitHooks,
   tapHtmlProcessAssetsFallback,
 } from "./core/rspack-html-hooks";
@@ -65,6 +66,9 @@ export const unpluginFactory: UnpluginFactory<Options | undefined, false> = (
           const scriptTag = buildScriptTag(options, {
             isProduction: ctx.isProduction,
           });
+          if (isAlreadyInjected(html, options, scriptTag)) {
+            return html;
+          }
           return applyInjection(html, scriptTag, options, {
             warn: (message) => console.warn(`[${PLUGIN_NAME}] ${message}`),
           });
@@ -114,6 +118,10 @@ export const unpluginFactory: UnpluginFactory<Options | undefined, false> = (
         const hooks = HtmlWebpackPlugin?.getHooks?.(compilation);
         if (hooks) {
           hooks.beforeEmit.tapAsync(PLUGIN_NAME, (data, cb) => {
+            if (isAlreadyInjected(data.html, options, scriptTag)) {
+              cb(null, data);
+              return;
+            }
             const html = applyInjection(data.html, scriptTag, options, logger);
             cb(null, { ...data, html });
           });
@@ -133,6 +141,7 @@ export const unpluginFactory: UnpluginFactory<Options | undefined, false> = (
               const original = source.source().toString();
               // Skip partial/fragment HTML that isn't a full document.
               if (!/<html\b/i.test(original)) continue;
+              if (isAlreadyInjected(original, options, scriptTag)) continue;
               const updated = applyInjection(
                 original,
                 scriptTag,
-- 
2.43.0


From df77956c36f766e8a5acddd9eee4d796ec8c4b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:35 +0000
Subject: [PATCH 35/48] fix: record: always close the browser, finish a login
 flow once, and ignore incomplete cookies

---
 .../record/src/record/record-login-flow.ts    | 211 +++++++++---------
 packages/record/src/record/record.ts          | 189 ++++++++--------
 2 files changed, 210 insertions(+), 190 deletions(-)

diff --git a/packages/record/src/record/record-login-flow.ts b/packages/record/src/record/record-login-flow.ts
index 296ada5..a929438 100644
--- a/packages/record/src/record/record-login-flow.ts
+++ b/packages/record/src/record/record-login-flow.ts
@@ -92,119 +92,128 @@ export const recordLoginFlowSession = async ({
     args: COMMON_RECORD_CHROME_LAUNCH_ARGS,
   });
 
-  const context = await browser.createBrowserContext();
-
-  await Promise.all((await browser.pages()).map((page) => page.close()));
-
-  const loginFlowPage = await context.newPage();
-
+  let isFinishing = false;
   let isRecordingComplete = false;
   let onDataSessionSaved = false;
   let startedLoginSessionRecording = false;
 
-  const recordingCompleteCallback = defer();
+  try {
+    const context = await browser.createBrowserContext();
 
-  loginFlowPage.on("close", () => {
-    if (!isRecordingComplete) {
-      printPageClosedWarning();
+    await Promise.all((await browser.pages()).map((page) => page.close()));
 
-      // Resolve the callback only if the page is closed before the recording is complete.
-      // Cases where the page is closed after the recording is complete are handled
-      // in the `__meticulousFinishRecording` callback.
-      recordingCompleteCallback.resolve();
-    }
-  });
+    const loginFlowPage = await context.newPage();
 
-  // Expose login page functions
-  await exposeNewRecordingCallback(loginFlowPage, ({ sessionId }) => {
-    startedLoginSessionRecording = true;
-    logger.debug(`Recording login flow: ${sessionId}`);
-  });
+    const recordingCompleteCallback = defer();
 
-  await loginFlowPage.exposeFunction(
-    "__meticulousFinishRecording",
-    async () => {
-      logger.debug("Finish recording button clicked");
-      const loginDataPage = await context.newPage();
-      const finalLoginUrl = loginFlowPage.url();
+    loginFlowPage.on("close", () => {
+      if (!isRecordingComplete) {
+        printPageClosedWarning();
 
-      loginDataPage.on("close", () => {
-        if (!onDataSessionSaved) {
-          printPageClosedWarning();
-        }
-      });
-
-      try {
-        const recordingSavingScreenPage = await context.newPage();
-        await recordingSavingScreenPage.goto(
-          METICULOUS_RECORD_LOGIN_FLOW_SAVING_DOCS_URL,
-        );
-
-        // Flush any pending payloads from the main login flow recording page and close it
-        await flushPendingPayloads(loginFlowPage, logger);
-        isRecordingComplete = true;
-        await loginFlowPage.close();
-
-        await exposeNewRecordingCallback(loginDataPage, ({ sessionId }) => {
-          logger.debug(`Recording login data: ${sessionId}`);
-        });
-
-        await bootstrapLoginFlowRecordingPage({
-          page: loginDataPage,
-          recordingToken,
-          recordingSnippet,
-          workerRecordingSnippet,
-          uploadIntervalMs: uploadIntervalMs,
-          captureHttpOnlyCookies: captureHttpOnlyCookies,
-          bypassCSP,
-          recordingSource: LOGIN_FLOW_DATA_SESSION_RECORDING_SOURCE,
-        });
-
-        // Navigate to the final login flow url and flush any pending payloads
-        logger.debug("Reloading page to capture application storage...");
-        await loginDataPage.goto(finalLoginUrl, {
-          waitUntil: "domcontentloaded",
-        });
-        await flushPendingPayloads(loginDataPage, logger);
-        onDataSessionSaved = true;
-
-        await loginDataPage.close();
-      } catch (error) {
-        logger.error(error);
-      } finally {
+        // Resolve the callback only if the page is closed before the recording is complete.
+        // Cases where the page is closed after the recording is complete are handled
+        // in the `__meticulousFinishRecording` callback.
         recordingCompleteCallback.resolve();
       }
-    },
-  );
-
-  await injectFinishRecordingFrame(
-    loginFlowPage,
-    "__meticulousFinishRecording",
-  );
-
-  await bootstrapLoginFlowRecordingPage({
-    page: loginFlowPage,
-    recordingToken,
-    recordingSnippet,
-    workerRecordingSnippet,
-    uploadIntervalMs,
-    captureHttpOnlyCookies,
-    bypassCSP,
-    recordingSource: LOGIN_FLOW_SESSION_RECORDING_SOURCE,
-  });
-
-  await loginFlowPage.goto(
-    appUrl ?? INITIAL_METICULOUS_RECORD_LOGIN_FLOW_DOCS_URL,
-  );
-
-  // Wait for the recording to complete or the page to close.
-  await recordingCompleteCallback.promise;
-
-  if (!loginFlowPage.isClosed()) {
-    await loginFlowPage.close();
+    });
+
+    // Expose login page functions
+    await exposeNewRecordingCallback(loginFlowPage, ({ sessionId }) => {
+      startedLoginSessionRecording = true;
+      logger.debug(`Recording login flow: ${sessionId}`);
+    });
+
+    await loginFlowPage.exposeFunction(
+      "__meticulousFinishRecording",
+      async () => {
+        logger.debug("Finish recording button clicked");
+        if (isFinishing) {
+          return;
+        }
+        isFinishing = true;
+
+        try {
+          const loginDataPage = await context.newPage();
+          const finalLoginUrl = loginFlowPage.url();
+
+          loginDataPage.on("close", () => {
+            if (!onDataSessionSaved) {
+              printPageClosedWarning();
+            }
+          });
+
+          const recordingSavingScreenPage = await context.newPage();
+          await recordingSavingScreenPage.goto(
+            METICULOUS_RECORD_LOGIN_FLOW_SAVING_DOCS_URL,
+          );
+
+          // Flush any pending payloads from the main login flow recording page and close it
+          await flushPendingPayloads(loginFlowPage, logger);
+          isRecordingComplete = true;
+          await loginFlowPage.close();
+
+          await exposeNewRecordingCallback(loginDataPage, ({ sessionId }) => {
+            logger.debug(`Recording login data: ${sessionId}`);
+          });
+
+          await bootstrapLoginFlowRecordingPage({
+            page: loginDataPage,
+            recordingToken,
+            recordingSnippet,
+            workerRecordingSnippet,
+            uploadIntervalMs: uploadIntervalMs,
+            captureHttpOnlyCookies: captureHttpOnlyCookies,
+            bypassCSP,
+            recordingSource: LOGIN_FLOW_DATA_SESSION_RECORDING_SOURCE,
+          });
+
+          // Navigate to the final login flow url and flush any pending payloads
+          logger.debug("Reloading page to capture application storage...");
+          await loginDataPage.goto(finalLoginUrl, {
+            waitUntil: "domcontentloaded",
+          });
+          await flushPendingPayloads(loginDataPage, logger);
+          onDataSessionSaved = true;
+
+          await loginDataPage.close();
+        } catch (error) {
+          logger.error(error);
+        } finally {
+          recordingCompleteCallback.resolve();
+        }
+      },
+    );
+
+    await injectFinishRecordingFrame(
+      loginFlowPage,
+      "__meticulousFinishRecording",
+    );
+
+    await bootstrapLoginFlowRecordingPage({
+      page: loginFlowPage,
+      recordingToken,
+      recordingSnippet,
+      workerRecordingSnippet,
+      uploadIntervalMs,
+      captureHttpOnlyCookies,
+      bypassCSP,
+      recordingSource: LOGIN_FLOW_SESSION_RECORDING_SOURCE,
+    });
+
+    await loginFlowPage.goto(
+      appUrl ?? INITIAL_METICULOUS_RECORD_LOGIN_FLOW_DOCS_URL,
+    );
+
+    // Wait for the recording to complete or the page to close.
+    await recordingCompleteCallback.promise;
+
+    if (!loginFlowPage.isClosed()) {
+      await loginFlowPage.close();
+    }
+    await context.close();
+  } finally {
+    await browser.close();
   }
-  await context.close();
-  await browser.close();
 
   if (!onDataSessionSaved || !isRecordingComplete) {
     throw new Error("Recording of login flow failed");
diff --git a/packages/record/src/record/record.ts b/packages/record/src/record/record.ts
index 398277b..7c8dafa 100644
--- a/packages/record/src/record/record.ts
+++ b/packages/record/src/record/record.ts
@@ -14,6 +14,15 @@ import { bootstrapPage } from "./record.utils";
 
 const COOKIE_FILENAME = "cookies.json";
 
+// The file may be incomplete, if we were stopped while writing it.
+const parseCookies = (cookiesStr: string) => {
+  try {
+    return JSON.parse(cookiesStr);
+  } catch {
+    return null;
+  }
+};
+
 export const recordSession = async ({
   recordingToken,
   appCommitHash,
@@ -98,102 +107,104 @@ export const recordSession = async ({
     args: buildRecordChromeLaunchArgs(remoteDebuggingPort),
   });
 
-  const context = useIncognito
-    ? await browser.createBrowserContext()
-    : browser.defaultBrowserContext();
-
-  (await browser.defaultBrowserContext().pages()).forEach((page) => {
-    void page.close();
-  });
-
-  const page = await context.newPage();
-  page.setDefaultNavigationTimeout(DEFAULT_NAVIGATION_TIMEOUT_MS); // 2 minutes
-  if (maxPayloadSize) {
-    await page.evaluateOnNewDocument((maxPayloadSize) => {
-      (window as any).METICULOUS_MAX_PAYLOAD_SIZE = maxPayloadSize;
-    }, maxPayloadSize);
-  }
-
-  if (bypassCSP) {
-    await page.setBypassCSP(true);
-  }
-
-  // Restore cookies when not in incognito context
-  if (!useIncognito && cookieDir) {
-    await mkdir(cookieDir, { recursive: true });
-    const cookiesStr = await readFile(
-      join(cookieDir, COOKIE_FILENAME),
-      "utf-8",
-    ).catch(() => "");
-    if (cookiesStr) {
-      const cookies = JSON.parse(cookiesStr);
-      await page.setCookie(...cookies);
+  try {
+    const context = useIncognito
+      ? await browser.createBrowserContext()
+      : browser.defaultBrowserContext();
+
+    (await browser.defaultBrowserContext().pages()).forEach((page) => {
+      void page.close();
+    });
+
+    const page = await context.newPage();
+    page.setDefaultNavigationTimeout(DEFAULT_NAVIGATION_TIMEOUT_MS); // 2 minutes
+    if (maxPayloadSize) {
+      await page.evaluateOnNewDocument((maxPayloadSize) => {
+        (window as any).METICULOUS_MAX_PAYLOAD_SIZE = maxPayloadSize;
+      }, maxPayloadSize);
     }
-  }
-
-  const closePromise = new Promise<void>((resolve) => {
-    page.on("close", resolve);
-  });
 
-  await bootstrapPage({
-    page,
-    recordingToken,
-    appCommitHash,
-    recordingSnippet,
-    workerRecordingSnippet,
-    uploadIntervalMs: uploadIntervalMs || DEFAULT_UPLOAD_INTERVAL_MS,
-    captureHttpOnlyCookies: captureHttpOnlyCookies ?? true,
-  });
+    if (bypassCSP) {
+      await page.setBypassCSP(true);
+    }
 
-  await page.goto(appUrl ?? INITIAL_METICULOUS_RECORD_DOCS_URL);
+    // Restore cookies when not in incognito context
+    if (!useIncognito && cookieDir) {
+      await mkdir(cookieDir, { recursive: true });
+      const cookiesStr = await readFile(
+        join(cookieDir, COOKIE_FILENAME),
+        "utf-8",
+      ).catch(() => "");
+      const cookies = parseCookies(cookiesStr);
+      if (cookies) {
+        await page.setCookie(...cookies);
+      }
+    }
 
-  logger.info("Browser ready");
-  if (remoteDebuggingPort != null) {
-    logger.info(
-      `Remote debugging enabled on port ${remoteDebuggingPort}. Connect an agent with: agent-browser connect ${remoteDebuggingPort}`,
-    );
-    logger.info(`Recording page URL: ${page.url()}`);
-  }
+    const closePromise = new Promise<void>((resolve) => {
+      page.on("close", resolve);
+    });
+
+    await bootstrapPage({
+      page,
+      recordingToken,
+      appCommitHash,
+      recordingSnippet,
+      workerRecordingSnippet,
+      uploadIntervalMs: uploadIntervalMs || DEFAULT_UPLOAD_INTERVAL_MS,
+      captureHttpOnlyCookies: captureHttpOnlyCookies ?? true,
+    });
+
+    await page.goto(appUrl ?? INITIAL_METICULOUS_RECORD_DOCS_URL);
+
+    logger.info("Browser ready");
+    if (remoteDebuggingPort != null) {
+      logger.info(
+        `Remote debugging enabled on port ${remoteDebuggingPort}. Connect an agent with: agent-browser connect ${remoteDebuggingPort}`,
+      );
+      logger.info(`Recording page URL: ${page.url()}`);
+    }
 
-  // Collect and show recorded session ids
-  // Also save page cookies if not in incognito context
-  const sessionIds: string[] = [];
-  const interval = setInterval(() => {
-    void (async () => {
-      try {
-        const sessionId = await page.evaluate<[], () => string | undefined>(
-          "window?.__meticulous?.config?.sessionId",
-        );
-        if (sessionId && !sessionIds.find((id) => id === sessionId)) {
-          sessionIds.push(sessionId);
-          if (onDetectedSession) {
-            onDetectedSession(sessionId);
-          }
-        }
-        if (!useIncognito && cookieDir) {
-          const cookies = await page.cookies();
-          await writeFile(
-            join(cookieDir, COOKIE_FILENAME),
-            JSON.stringify(cookies, null, 2),
-            "utf-8",
+    // Collect and show recorded session ids
+    // Also save page cookies if not in incognito context
+    const sessionIds: string[] = [];
+    const interval = setInterval(() => {
+      void (async () => {
+        try {
+          const sessionId = await page.evaluate<[], () => string | undefined>(
+            "window?.__meticulous?.config?.sessionId",
           );
+          if (sessionId && !sessionIds.find((id) => id === sessionId)) {
+            sessionIds.push(sessionId);
+            if (onDetectedSession) {
+              onDetectedSession(sessionId);
+            }
+          }
+          if (!useIncognito && cookieDir) {
+            const cookies = await page.cookies();
+            await writeFile(
+              join(cookieDir, COOKIE_FILENAME),
+              JSON.stringify(cookies, null, 2),
+              "utf-8",
+            );
+          }
+        } catch (error) {
+          // Suppress expected errors due to page navigation
+          if (
+            error instanceof Error &&
+            error.message.startsWith("Execution context was destroyed")
+          ) {
+            return;
+          }
+          logger.error(error);
         }
-      } catch (error) {
-        // Suppress expected errors due to page navigation
-        if (
-          error instanceof Error &&
-          error.message.startsWith("Execution context was destroyed")
-        ) {
-          return;
-        }
-        logger.error(error);
-      }
-    })();
-  }, 1000);
+      })();
+    }, 1000);
 
-  await closePromise;
+    await closePromise;
 
-  clearInterval(interval);
-
-  await browser.close();
+    clearInterval(interval);
+  } finally {
+    await browser.close();
+  }
 };
-- 
2.43.0


From 7b4185b052370278a0f0bc0599d99aaefcbca681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 36/48] fix: record backend: never leave a half-started or
 unspawnable sidecar behind

---
 .../commands/record/backend-sidecar.utils.ts  | 41 ++++++++++++++-----
 .../src/commands/record/backend.command.ts    |  2 +
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/packages/cli/src/commands/record/backend-sidecar.utils.ts b/packages/cli/src/commands/record/backend-sidecar.utils.ts
index 1dfc892..3179d26 100644
--- a/packages/cli/src/commands/record/backend-sidecar.utils.ts
+++ b/packages/cli/src/commands/record/backend-sidecar.utils.ts
@@ -12,6 +12,7 @@ const HEALTH_TIMEOUT_MS = 15_000;
 const FLUSH_TIMEOUT_MS = 10_000;
 const STOP_SIGTERM_TIMEOUT_MS = 5_000;
 const STDERR_TAIL_LINES = 20;
+const STARTUP_SIGNALS: NodeJS.Signals[] = ["SIGINT", "SIGTERM", "SIGHUP"];
 
 export interface SidecarHandle {
   url: string;
@@ -135,6 +136,9 @@ const spawnSidecarProcess = (options: StartSidecarOptions): SpawnedSidecar => {
   });
 
   const stderrTail: string[] = [];
+  // E.g. the process could not be spawned: reported when it does not become
+  // healthy. Without a listener the error would crash the CLI.
+  child.on("error", (error) => stderrTail.push(String(error)));
   const prefix = chalk.dim("[meticulous sidecar]");
   if (child.stdout) {
     prefixPipe(child.stdout, (line) => logger.info(`${prefix} ${line}`));
@@ -162,6 +166,9 @@ const awaitHealthy = async (
     exited = true;
     exitCode = code;
   });
+  spawned.child.once("error", () => {
+    exited = true;
+  });
 
   while (Date.now() < deadline) {
     if (exited) {
@@ -181,7 +188,7 @@ const awaitHealthy = async (
         { method: "GET" },
         1_000,
       );
-      if (response.ok) {
+      if (response.ok && !exited) {
         return;
       }
     } catch {
@@ -254,6 +261,9 @@ export const startSidecar = async (
             watchExit(current);
             logger.warn("Meticulous sidecar restarted.");
           } catch (error) {
+            if (stopping) {
+              return;
+            }
             current.child.kill("SIGKILL");
             logger.error(
               `Could not restart the Meticulous sidecar — backend recording has stopped. Your dev server is unaffected. ${String(
@@ -272,6 +282,24 @@ export const startSidecar = async (
     });
   };
 
+  // Don't let a crashed CLI orphan the detached sidecar.
+  const terminateCurrent = (): void => {
+    try {
+      current.child.kill("SIGTERM");
+    } catch {
+      // Already gone.
+    }
+  };
+  process.once("exit", terminateCurrent);
+
+  // Nor one that is interrupted during startup, while nobody else handles it.
+  const onSignal = (signal: NodeJS.Signals): void => {
+    terminateCurrent();
+    STARTUP_SIGNALS.forEach((name) => process.off(name, onSignal));
+    process.kill(process.pid, signal);
+  };
+  STARTUP_SIGNALS.forEach((name) => process.on(name, onSignal));
+
   try {
     await awaitHealthy(current, url);
   } catch (error) {
@@ -279,20 +307,13 @@ export const startSidecar = async (
     // the failed CLI run and hold the port. (No-op if it already exited.)
     current.child.kill("SIGKILL");
     throw error;
+  } finally {
+    STARTUP_SIGNALS.forEach((name) => process.off(name, onSignal));
   }
   // Supervision starts only once the sidecar is healthy: an exit during
   // startup is a startup failure (reported above), not a crash to restart.
   watchExit(current);
 
-  // Don't let a crashed CLI orphan the detached sidecar.
-  process.once("exit", () => {
-    try {
-      current.child.kill("SIGTERM");
-    } catch {
-      // Already gone.
-    }
-  });
-
   const flush = async (): Promise<void> => {
     try {
       await fetchWithTimeout(
diff --git a/packages/cli/src/commands/record/backend.command.ts b/packages/cli/src/commands/record/backend.command.ts
index 3c7b174..4c81d34 100644
--- a/packages/cli/src/commands/record/backend.command.ts
+++ b/packages/cli/src/commands/record/backend.command.ts
@@ -119,6 +119,7 @@ const runWrappedDevCommand = async (
   };
   process.on("SIGINT", () => forwardSignal("SIGINT"));
   process.on("SIGTERM", () => forwardSignal("SIGTERM"));
+  process.on("SIGHUP", () => forwardSignal("SIGHUP"));
 
   const exitCode = await done.promise;
   if (exitCode !== 0) {
@@ -142,6 +143,7 @@ const runSidecarOnly = async (options: Options): Promise<void> => {
   logger.info("Press Ctrl-C to stop recording.");
   process.on("SIGINT", () => void shutdown(0));
   process.on("SIGTERM", () => void shutdown(0));
+  process.on("SIGHUP", () => void shutdown(0));
 
   await done.promise;
 };
-- 
2.43.0


From 37c14de077fd0060692dadb8586a1eb53f2ec98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:11 +0000
Subject: [PATCH 37/48] fix: onboard: tell TOML tables from text that looks
 like one when merging Codex config

---
 .../cli/src/commands/onboard/codex-mcp.ts     | 163 +++++++++++++++---
 1 file changed, 141 insertions(+), 22 deletions(-)

diff --git a/packages/cli/src/commands/onboard/codex-mcp.ts b/packages/cli/src/commands/onboard/codex-mcp.ts
index 8baee66..3bc8514 100644
--- a/packages/cli/src/commands/onboard/codex-mcp.ts
+++ b/packages/cli/src/commands/onboard/codex-mcp.ts
@@ -22,6 +22,7 @@ export const mergeCodexMcp = (
   // Strip every Meticulous table (duplicates and nested
   // `[mcp_servers.Meticulous.*]` included). A single canonical body is the
   // only case that may stay as-is.
+  const sectionHeaders: string[] = [];
   const sectionBodies: string[] = [];
   let remainder = existing;
   for (;;) {
@@ -30,6 +31,7 @@ export const mergeCodexMcp = (
       remainder = split.remainder;
       break;
     }
+    sectionHeaders.push(split.sectionHeader ?? "");
     sectionBodies.push(split.sectionBody);
     remainder = split.remainder;
   }
@@ -43,7 +45,10 @@ export const mergeCodexMcp = (
       blocker.kind === "meticulous-definition"
         ? `${relativePath} defines the Meticulous MCP server as \`${blocker.line}\`, ` +
             `which onboard cannot safely rewrite. Remove that entry and re-run onboard.`
-        : `${relativePath} assigns \`mcp_servers\` a complete value ` +
+        : blocker.kind === "unterminated-value"
+          ? `${relativePath} has a value that is never closed (\`${blocker.line}\`), ` +
+            `so onboard cannot safely rewrite it. Fix the file, then re-run onboard.`
+          : `${relativePath} assigns \`mcp_servers\` a complete value ` +
             `(\`${blocker.line}\`). TOML does not allow adding ` +
             `\`[mcp_servers.Meticulous]\` to it, so onboard cannot configure the ` +
             `MCP server. Rewrite it as a \`[mcp_servers]\` table (removing any ` +
@@ -53,9 +58,10 @@ export const mergeCodexMcp = (
 
   // Same rule as JSON: the section must exist *and* contain only the
   // canonical `url` — a bare header (or a header with `command`/`args`/etc.)
-  // must be overwritten.
+  // must be overwritten. So must a nested or an array-of-tables header.
   if (
     sectionBodies.length === 1 &&
+    isMeticulousMcpTableHeader(sectionHeaders[0]) &&
     isCanonicalCodexMeticulousSectionBody(sectionBodies[0], mcpUrl)
   ) {
     return;
@@ -158,7 +164,9 @@ const skipTomlSpace = (line: string, start: number): number => {
  * indentation, whitespace around `[`, `.` and `]`, quoted keys, array-of-table
  * `[[...]]` headers, and a trailing comment.
  */
-const parseTomlTableHeaderPath = (line: string): string[] | null => {
+const parseTomlTableHeader = (
+  line: string,
+): { path: string[]; isArrayOfTables: boolean } | null => {
   let index = skipTomlSpace(line, 0);
   if (line[index] !== "[") {
     return null;
@@ -203,7 +211,84 @@ const parseTomlTableHeaderPath = (line: string): string[] | null => {
   if (trailing.length > 0 && !trailing.startsWith("#")) {
     return null;
   }
-  return path;
+  return { path, isArrayOfTables };
+};
+
+/** A line of a TOML file, with its terminator. */
+interface TomlLine {
+  text: string;
+  /** False when the line lies within a value that began on an earlier line. */
+  isStatement: boolean;
+}
+
+/**
+ * Splits a TOML file into lines, telling those that can be a header or an
+ * assignment from those inside a multi-line string or array, which may look
+ * just the same. `unterminated` is the statement whose value is never closed.
+ */
+const splitTomlLines = (
+  contents: string,
+): { lines: TomlLine[]; unterminated: string | null } => {
+  let openString: string | null = null;
+  let openBrackets = 0;
+  let statement = "";
+
+  const scan = (text: string): void => {
+    let index = 0;
+    while (index < text.length) {
+      if (openString !== null) {
+        if (openString.startsWith('"') && text[index] === "\\") {
+          index += 2;
+        } else if (text.startsWith(openString, index)) {
+          index += openString.length;
+          // Up to two more quotes still belong to a multi-line string.
+          while (openString.length === 3 && text[index] === openString[0]) {
+            index += 1;
+          }
+          openString = null;
+        } else {
+          index += 1;
+        }
+        continue;
+      }
+      const char = text[index];
+      if (char === "#") {
+        return;
+      }
+      if (char === '"' || char === "'") {
+        openString = text.startsWith(char.repeat(3), index)
+          ? char.repeat(3)
+          : char;
+        index += openString.length;
+        continue;
+      }
+      if (char === "[" || char === "{") {
+        openBrackets += 1;
+      } else if ((char === "]" || char === "}") && openBrackets > 0) {
+        openBrackets -= 1;
+      }
+      index += 1;
+    }
+  };
+
+  const lines = contents.split(/(?<=\n)/u).map((text): TomlLine => {
+    const isStatement = openString === null && openBrackets === 0;
+    if (isStatement) {
+      statement = text.trim();
+    }
+    if (!isStatement || parseTomlTableHeader(text) === null) {
+      scan(text);
+    }
+    // Only a triple-quoted string continues on the next line.
+    if (openString !== null && openString.length === 1) {
+      openString = null;
+    }
+    return { text, isStatement };
+  });
+  return {
+    lines,
+    unterminated: openString !== null || openBrackets > 0 ? statement : null,
+  };
 };
 
 /**
@@ -237,10 +322,22 @@ const parseTomlAssignmentKeyPath = (line: string): string[] | null => {
 const isMeticulousMcpPath = (path: string[]): boolean =>
   path.length >= 2 && path[0] === "mcp_servers" && path[1] === "Meticulous";
 
+/** True for `[mcp_servers.Meticulous]` itself: neither nested nor an array. */
+const isMeticulousMcpTableHeader = (line: string): boolean => {
+  const header = parseTomlTableHeader(line);
+  return (
+    header !== null &&
+    !header.isArrayOfTables &&
+    header.path.length === 2 &&
+    isMeticulousMcpPath(header.path)
+  );
+};
+
 /** Why onboard cannot rewrite a Codex config in place. */
 type CodexBlocker =
   | { kind: "meticulous-definition"; line: string }
-  | { kind: "inextensible-mcp-servers"; line: string };
+  | { kind: "inextensible-mcp-servers"; line: string }
+  | { kind: "unterminated-value"; line: string };
 
 /**
  * Finds an assignment that stops onboard from writing the canonical table:
@@ -249,17 +346,30 @@ type CodexBlocker =
  *   an inline table under `[mcp_servers]`), which can carry `command`/`args`;
  * - a direct value assignment to root `mcp_servers` (`mcp_servers = { … }` or a
  *   scalar). TOML treats those as complete values, so appending
- *   `[mcp_servers.Meticulous]` would produce a file Codex cannot parse.
+ *   `[mcp_servers.Meticulous]` would produce a file Codex cannot parse. So is
+ *   an array of tables (`[[mcp_servers]]`);
+ * - a value that is never closed, which swallows whatever follows it.
  *
  * A dotted `mcp_servers.Other = …` is fine — TOML allows adding sub-tables to
  * tables defined that way.
  */
 const findCodexBlocker = (contents: string): CodexBlocker | null => {
   let table: string[] = [];
-  for (const rawLine of contents.split(/\r?\n/u)) {
-    const headerPath = parseTomlTableHeaderPath(rawLine);
-    if (headerPath) {
-      table = headerPath;
+  const { lines, unterminated } = splitTomlLines(contents);
+  for (const { text: rawLine, isStatement } of lines) {
+    if (!isStatement) {
+      continue;
+    }
+    const header = parseTomlTableHeader(rawLine);
+    if (header) {
+      table = header.path;
+      if (
+        header.isArrayOfTables &&
+        table.length === 1 &&
+        table[0] === "mcp_servers"
+      ) {
+        return { kind: "inextensible-mcp-servers", line: rawLine.trim() };
+      }
       continue;
     }
     const keyPath = parseTomlAssignmentKeyPath(rawLine);
@@ -274,7 +384,9 @@ const findCodexBlocker = (contents: string): CodexBlocker | null => {
       return { kind: "inextensible-mcp-servers", line: rawLine.trim() };
     }
   }
-  return null;
+  return unterminated === null
+    ? null
+    : { kind: "unterminated-value", line: unterminated };
 };
 
 /**
@@ -285,20 +397,27 @@ const findCodexBlocker = (contents: string): CodexBlocker | null => {
  */
 export const splitCodexMeticulousSection = (
   contents: string,
-): { remainder: string; sectionBody: string | null } => {
-  const lines = contents.split(/(?<=\n)/u);
-  const headerIndex = lines.findIndex((line) => {
-    const path = parseTomlTableHeaderPath(line);
-    return path !== null && isMeticulousMcpPath(path);
-  });
+): {
+  remainder: string;
+  sectionHeader: string | null;
+  sectionBody: string | null;
+} => {
+  const { lines: tomlLines } = splitTomlLines(contents);
+  const lines = tomlLines.map(({ text }) => text);
+  const headers = tomlLines.map(({ text, isStatement }) =>
+    isStatement ? parseTomlTableHeader(text) : null,
+  );
+  const headerIndex = headers.findIndex(
+    (header) => header !== null && isMeticulousMcpPath(header.path),
+  );
   if (headerIndex === -1) {
-    return { remainder: contents, sectionBody: null };
+    return { remainder: contents, sectionHeader: null, sectionBody: null };
   }
 
   // The section body runs until the next header of any table.
   let bodyEndIndex = lines.length;
   for (let index = headerIndex + 1; index < lines.length; index += 1) {
-    if (parseTomlTableHeaderPath(lines[index]) !== null) {
+    if (headers[index] !== null) {
       bodyEndIndex = index;
       break;
     }
@@ -314,7 +433,7 @@ export const splitCodexMeticulousSection = (
       ? afterSection.replace(/^(?:\r?\n)+/u, "")
       : `${cleanedBefore}${afterSection}`;
 
-  return { remainder, sectionBody };
+  return { remainder, sectionHeader: lines[headerIndex], sectionBody };
 };
 
 /**
@@ -331,11 +450,11 @@ export const isCanonicalCodexMeticulousSectionBody = (
     if (line.length === 0 || line.startsWith("#")) {
       continue;
     }
-    const match = /^url\s*=\s*(?:"([^"]*)"|'([^']*)'|(\S+))\s*$/u.exec(line);
+    const match = /^url\s*=\s*(?:"([^"]*)"|'([^']*)')\s*$/u.exec(line);
     if (!match || sawUrl) {
       return false;
     }
-    const value = match[1] ?? match[2] ?? match[3];
+    const value = match[1] ?? match[2];
     if (value !== mcpUrl) {
       return false;
     }
-- 
2.43.0


From 1ef72cb18eeffbf0d5643a4ed59d5f513eb105e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:25 +0000
Subject: [PATCH 38/48] fix: backend-recorder-workerd: keep the app's own error
 when it cannot be converted to a string

Any value can be thrown. Reporting one that has no string form raised a TypeError that the
app then saw instead of its own error.
---
 .../backend-recorder-workerd/src/error-capture.ts   | 13 +++++++++++++
 packages/backend-recorder-workerd/src/kv-patch.ts   |  3 ++-
 .../src/outbound-capture.ts                         |  3 ++-
 .../backend-recorder-workerd/src/with-meticulous.ts |  3 ++-
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/packages/backend-recorder-workerd/src/error-capture.ts b/packages/backend-recorder-workerd/src/error-capture.ts
index 914d510..f864d94 100644
--- a/packages/backend-recorder-workerd/src/error-capture.ts
+++ b/packages/backend-recorder-workerd/src/error-capture.ts
@@ -17,6 +17,19 @@
  * is here. `packages/backend-recorder-js/src/error-capture-shared.ts` re-exports both halves.
  */
 
+/**
+ * A thrown value as text, for an event that reports it. Any value can be thrown, including one
+ * that cannot be converted to a string (`Object.create(null)`, a failing `toString`), and the app
+ * must see its own value rather than the conversion's TypeError.
+ */
+export const describeThrown = (error: unknown): string => {
+  try {
+    return String(error);
+  } catch {
+    return "unknown error";
+  }
+};
+
 /**
  * Serializes a thrown value to a JSON string.
  *
diff --git a/packages/backend-recorder-workerd/src/kv-patch.ts b/packages/backend-recorder-workerd/src/kv-patch.ts
index 9d124a9..0b1ba55 100644
--- a/packages/backend-recorder-workerd/src/kv-patch.ts
+++ b/packages/backend-recorder-workerd/src/kv-patch.ts
@@ -1,4 +1,5 @@
 import { type RequestCaptureContext, requestCaptureContext } from "./context";
+import { describeThrown } from "./error-capture";
 import { type KvCaptureOutcome, serializeKvCaptureFields } from "./kv-capture";
 import { warnOnce } from "./log";
 import type { KvOperation, KvOperationEvent } from "./protocol";
@@ -267,7 +268,7 @@ const captureKvOperation = async (
     result = await invoke();
   } catch (error) {
     report(ctx, operation, bindingName, args, startTimeMs, {
-      error: String(error),
+      error: describeThrown(error),
     });
     throw error;
   }
diff --git a/packages/backend-recorder-workerd/src/outbound-capture.ts b/packages/backend-recorder-workerd/src/outbound-capture.ts
index 6d85701..6835b75 100644
--- a/packages/backend-recorder-workerd/src/outbound-capture.ts
+++ b/packages/backend-recorder-workerd/src/outbound-capture.ts
@@ -1,5 +1,6 @@
 import { readBodyWithCap, readRequestBodyWithCap } from "./body-capture";
 import type { RequestCaptureContext } from "./context";
+import { describeThrown } from "./error-capture";
 import { warnOnce } from "./log";
 import {
   CAPTURED_HEADERS,
@@ -125,7 +126,7 @@ export const captureOutboundCall = async (
     if (meta) {
       const frozenMeta = meta;
       const endTimeMs = Date.now();
-      const errorMessage = String(error);
+      const errorMessage = describeThrown(error);
       // Tracked rather than reported directly: the request body is still being read, and the
       // buffer's `close()` is what waits for it before sending the batch.
       ctx.buffer.track(
diff --git a/packages/backend-recorder-workerd/src/with-meticulous.ts b/packages/backend-recorder-workerd/src/with-meticulous.ts
index 55e4c0d..31c2ab1 100644
--- a/packages/backend-recorder-workerd/src/with-meticulous.ts
+++ b/packages/backend-recorder-workerd/src/with-meticulous.ts
@@ -6,6 +6,7 @@ import {
   requestCaptureContext,
 } from "./context";
 import { runReplayWithCoverage } from "./coverage/replay-coverage";
+import { describeThrown } from "./error-capture";
 import { installFetchPatch } from "./fetch-patch";
 import { installKvPatch } from "./kv-patch";
 import { warnOnce } from "./log";
@@ -216,7 +217,7 @@ export const runWithMeticulous = async (
   try {
     response = await requestCaptureContext.run(captureCtx, invokeHandler);
   } catch (error) {
-    reportInbound({ error: String(error) });
+    reportInbound({ error: describeThrown(error) });
     closeBuffer(captureCtx);
     throw error;
   }
-- 
2.43.0


From 99fc25ed07e50e4eccabe63e5cd14e302446bfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:15 +0000
Subject: [PATCH 39/48] fix: redact repeated credential parameters whose first
 value is empty

---
 packages/backend-recorder-workerd/src/spans/url-redaction.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/backend-recorder-workerd/src/spans/url-redaction.ts b/packages/backend-recorder-workerd/src/spans/url-redaction.ts
index 5c666f5..e3bda91 100644
--- a/packages/backend-recorder-workerd/src/spans/url-redaction.ts
+++ b/packages/backend-recorder-workerd/src/spans/url-redaction.ts
@@ -26,7 +26,8 @@ const QUERY_STRINGS_TO_REDACT = [
 export const redactUrlCredentials = (url: URL): URL => {
   const redacted = new URL(url.href);
   for (const sensitiveParam of QUERY_STRINGS_TO_REDACT) {
-    if (redacted.searchParams.get(sensitiveParam)) {
+    // A repeated parameter may well be empty the first time.
+    if (redacted.searchParams.getAll(sensitiveParam).some(Boolean)) {
       redacted.searchParams.set(sensitiveParam, STR_REDACTED);
     }
   }
-- 
2.43.0


From cfa0451cae7302ccb115d24608880eb654e7ddae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:16 +0000
Subject: [PATCH 40/48] fix: close the tunnel and stop polling when a tunnelled
 test run fails

executeRemoteTestRun closed the tunnel only when everything had gone well: when
the tunnel's details were incomplete, the run could not be triggered, a poll or
a lock check failed or the caller's promise was rejected, the tunnel stayed open
and the intervals kept polling the server (and kept the process alive).
---
 .../src/execute-remote-test-run.ts            | 303 +++++++++---------
 1 file changed, 155 insertions(+), 148 deletions(-)

diff --git a/packages/remote-replay-launcher/src/execute-remote-test-run.ts b/packages/remote-replay-launcher/src/execute-remote-test-run.ts
index 0761498..bba1a7f 100644
--- a/packages/remote-replay-launcher/src/execute-remote-test-run.ts
+++ b/packages/remote-replay-launcher/src/execute-remote-test-run.ts
@@ -111,174 +111,181 @@ export const executeRemoteTestRun = async ({
     silenceTunnelWorker,
   });
 
-  logger.debug(`Creating test run`);
+  let progressUpdateInterval: NodeJS.Timeout | undefined = undefined;
+  let tunnelCheckInterval: NodeJS.Timeout | undefined = undefined;
 
-  if (!tunnel.url || !tunnel.basicAuthUser || !tunnel.basicAuthPassword) {
-    throw new Error(
-      "Either Tunnel URL, basic auth user or basic auth password were not set",
-    );
-  }
+  try {
+    logger.debug(`Creating test run`);
 
-  onTunnelCreated?.({
-    url: tunnel.url,
-    basicAuthUser: tunnel.basicAuthUser,
-    basicAuthPassword: tunnel.basicAuthPassword,
-  });
+    if (!tunnel.url || !tunnel.basicAuthUser || !tunnel.basicAuthPassword) {
+      throw new Error(
+        "Either Tunnel URL, basic auth user or basic auth password were not set",
+      );
+    }
 
-  const response = await executeSecureTunnelTestRun({
-    client,
-    headSha: commitSha,
-    tunnelUrl: tunnel.url,
-    basicAuthUser: tunnel.basicAuthUser,
-    basicAuthPassword: tunnel.basicAuthPassword,
-    environment,
-    isLockable,
-    postComment,
-    ...(companionAssetsInfo ? { companionAssetsInfo } : {}),
-    ...(pullRequestHostingProviderId ? { pullRequestHostingProviderId } : {}),
-    ...(debugContext ? { debugContext } : {}),
-  });
-  if (!response.testRun) {
-    throw new Error(`${response.message ?? "Test run was not created"}`);
-  }
+    onTunnelCreated?.({
+      url: tunnel.url,
+      basicAuthUser: tunnel.basicAuthUser,
+      basicAuthPassword: tunnel.basicAuthPassword,
+    });
+
+    const response = await executeSecureTunnelTestRun({
+      client,
+      headSha: commitSha,
+      tunnelUrl: tunnel.url,
+      basicAuthUser: tunnel.basicAuthUser,
+      basicAuthPassword: tunnel.basicAuthPassword,
+      environment,
+      isLockable,
+      postComment,
+      ...(companionAssetsInfo ? { companionAssetsInfo } : {}),
+      ...(pullRequestHostingProviderId ? { pullRequestHostingProviderId } : {}),
+      ...(debugContext ? { debugContext } : {}),
+    });
+    if (!response.testRun) {
+      throw new Error(`${response.message ?? "Test run was not created"}`);
+    }
 
-  const { testRun, deploymentId } = response;
-  onTestRunCreated?.(testRun);
+    const { testRun, deploymentId } = response;
+    onTestRunCreated?.(testRun);
 
-  const testRunCompleted = defer<TestRun>();
+    const testRunCompleted = defer<TestRun>();
 
-  let progressUpdateInterval: NodeJS.Timeout | undefined = undefined;
-  let startedWaitingForRetryAt: number | undefined = undefined;
+    let startedWaitingForRetryAt: number | undefined = undefined;
 
-  const onTestRunCompleted = (completedTestRun: TestRun) => {
-    if (
-      completedTestRun.status === "ExecutionError" &&
-      (startedWaitingForRetryAt === undefined ||
-        Date.now() - startedWaitingForRetryAt < MS_TO_WAIT_FOR_RETRY)
-    ) {
-      // It may get re-triggered: let's wait to see if it does: we keep progressUpdateInterval
-      // so it'll keep polling for updates. Eventually it'll either hit the timeout or the test run
-      // will move to the Running state again and we'll wait a while more.
-      if (startedWaitingForRetryAt === undefined) {
-        startedWaitingForRetryAt = Date.now();
-        logger.info(
-          `Test run failed with execution error. Waiting for ${
-            MS_TO_WAIT_FOR_RETRY / 1_000
-          } seconds to see if it gets automatically retried...`,
-        );
+    const onTestRunCompleted = (completedTestRun: TestRun) => {
+      if (
+        completedTestRun.status === "ExecutionError" &&
+        (startedWaitingForRetryAt === undefined ||
+          Date.now() - startedWaitingForRetryAt < MS_TO_WAIT_FOR_RETRY)
+      ) {
+        // It may get re-triggered: let's wait to see if it does: we keep progressUpdateInterval
+        // so it'll keep polling for updates. Eventually it'll either hit the timeout or the test run
+        // will move to the Running state again and we'll wait a while more.
+        if (startedWaitingForRetryAt === undefined) {
+          startedWaitingForRetryAt = Date.now();
+          logger.info(
+            `Test run failed with execution error. Waiting for ${
+              MS_TO_WAIT_FOR_RETRY / 1_000
+            } seconds to see if it gets automatically retried...`,
+          );
+        }
+        return;
       }
-      return;
-    }
 
-    switch (completedTestRun.status) {
-      case "Failure":
-        logger.info(
-          `Test run completed with differences. See the test run page to view the differences.`,
-        );
-        break;
-      case "Success":
-        logger.info(`Test run completed with 0 differences.`);
-        break;
-      case "Aborted":
-        logger.info(
-          `Test run aborted because a newer commit was pushed. A new test run will start shortly.`,
-        );
-        break;
-      case "Skipped":
-        logger.info(
-          `Test run skipped because no base test run was found. No sessions were executed.`,
-        );
-        break;
-      case "ExecutionError":
-        logger.info(`Test run failed with execution error.`);
-        break;
-      case "Partial":
-        logger.info(
-          `Test run partially completed. Some test cases may not have been executed.`,
-        );
-        break;
-      case "PreProcessing":
-      case "Scheduled":
-      case "Running":
-      case "PostProcessing":
-        logger.warn(`Test run is still executing. This should never happen.`);
-        break;
-      default:
-        assertNever(completedTestRun.status);
-    }
+      switch (completedTestRun.status) {
+        case "Failure":
+          logger.info(
+            `Test run completed with differences. See the test run page to view the differences.`,
+          );
+          break;
+        case "Success":
+          logger.info(`Test run completed with 0 differences.`);
+          break;
+        case "Aborted":
+          logger.info(
+            `Test run aborted because a newer commit was pushed. A new test run will start shortly.`,
+          );
+          break;
+        case "Skipped":
+          logger.info(
+            `Test run skipped because no base test run was found. No sessions were executed.`,
+          );
+          break;
+        case "ExecutionError":
+          logger.info(`Test run failed with execution error.`);
+          break;
+        case "Partial":
+          logger.info(
+            `Test run partially completed. Some test cases may not have been executed.`,
+          );
+          break;
+        case "PreProcessing":
+        case "Scheduled":
+        case "Running":
+        case "PostProcessing":
+          logger.warn(`Test run is still executing. This should never happen.`);
+          break;
+        default:
+          assertNever(completedTestRun.status);
+      }
 
-    if (progressUpdateInterval) {
-      clearInterval(progressUpdateInterval);
-    }
+      if (progressUpdateInterval) {
+        clearInterval(progressUpdateInterval);
+      }
 
-    testRunCompleted.resolve(completedTestRun);
-  };
+      testRunCompleted.resolve(completedTestRun);
+    };
 
-  // Poll every few seconds for progress updates and exit when the test run is completed
-  const resourceTracker = new ResourceTracker(logger, testRun);
-  progressUpdateInterval = setInterval(() => {
-    void (async () => {
-      const updatedTestRun = await getTestRun({
-        client,
-        testRunId: testRun.id,
-      });
-      onProgressUpdate?.(updatedTestRun);
+    // Poll every few seconds for progress updates and exit when the test run is completed
+    const resourceTracker = new ResourceTracker(logger, testRun);
+    progressUpdateInterval = setInterval(() => {
+      void (async () => {
+        const updatedTestRun = await getTestRun({
+          client,
+          testRunId: testRun.id,
+        });
+        onProgressUpdate?.(updatedTestRun);
 
-      if (!IN_PROGRESS_TEST_RUN_STATUS.includes(updatedTestRun.status)) {
-        onTestRunCompleted(updatedTestRun);
+        if (!IN_PROGRESS_TEST_RUN_STATUS.includes(updatedTestRun.status)) {
+          onTestRunCompleted(updatedTestRun);
 
-        return;
-      } else if (startedWaitingForRetryAt !== undefined) {
-        logger.info(
-          `Retrying test run... (status is now ${updatedTestRun.status})`,
+          return;
+        } else if (startedWaitingForRetryAt !== undefined) {
+          logger.info(
+            `Retrying test run... (status is now ${updatedTestRun.status})`,
+          );
+          startedWaitingForRetryAt = undefined;
+        }
+        await resourceTracker.checkUsage();
+      })().catch((error: unknown) => {
+        testRunCompleted.reject(
+          error instanceof Error ? error : new Error(String(error)),
         );
-        startedWaitingForRetryAt = undefined;
-      }
-      await resourceTracker.checkUsage();
-    })().catch((error: unknown) => {
-      testRunCompleted.reject(
-        error instanceof Error ? error : new Error(String(error)),
-      );
-    });
-  }, PROGRESS_UPDATE_INTERVAL_MS);
+      });
+    }, PROGRESS_UPDATE_INTERVAL_MS);
 
-  const completedTestRun = await testRunCompleted.promise;
+    const completedTestRun = await testRunCompleted.promise;
 
-  const tunnelUnlocked = defer<void>();
-  let tunnelCheckInterval: NodeJS.Timeout | undefined = undefined;
-  const checkUnlocked = async () => {
-    const isLocked = await getIsLocked({ client, deploymentId });
-    if (isLocked) {
-      onTunnelStillLocked?.();
-      await resourceTracker.checkUsage();
-      return false;
+    const tunnelUnlocked = defer<void>();
+    const checkUnlocked = async () => {
+      const isLocked = await getIsLocked({ client, deploymentId });
+      if (isLocked) {
+        onTunnelStillLocked?.();
+        await resourceTracker.checkUsage();
+        return false;
+      }
+      tunnelUnlocked.resolve();
+      return true;
+    };
+    const alreadyUnlocked = await checkUnlocked();
+    if (!alreadyUnlocked) {
+      tunnelCheckInterval = setInterval(() => {
+        checkUnlocked().catch((error: unknown) => {
+          tunnelUnlocked.reject(
+            error instanceof Error ? error : new Error(String(error)),
+          );
+        });
+      }, POLL_LOCK_INTERVAL_MS);
+      await tunnelUnlocked.promise;
+    }
+    if (tunnelCheckInterval) {
+      clearInterval(tunnelCheckInterval);
     }
-    tunnelUnlocked.resolve();
-    return true;
-  };
-  const alreadyUnlocked = await checkUnlocked();
-  if (!alreadyUnlocked) {
-    tunnelCheckInterval = setInterval(() => {
-      checkUnlocked().catch((error: unknown) => {
-        tunnelUnlocked.reject(
-          error instanceof Error ? error : new Error(String(error)),
-        );
-      });
-    }, POLL_LOCK_INTERVAL_MS);
-    await tunnelUnlocked.promise;
-  }
-  if (tunnelCheckInterval) {
-    clearInterval(tunnelCheckInterval);
-  }
 
-  if (keepTunnelOpenPromise) {
-    await keepTunnelOpenPromise;
-  }
-  tunnel.close();
+    if (keepTunnelOpenPromise) {
+      await keepTunnelOpenPromise;
+    }
 
-  return {
-    testRun: completedTestRun,
-  };
+    return {
+      testRun: completedTestRun,
+    };
+  } finally {
+    // Also if the test run failed: otherwise the tunnel and the polling outlive it.
+    clearInterval(progressUpdateInterval);
+    clearInterval(tunnelCheckInterval);
+    tunnel.close();
+  }
 };
 
 const assertNever = (value: never): never => {
-- 
2.43.0


From f736326ed8f3194be174a7c00230b7a680eb4ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:31 +0000
Subject: [PATCH 41/48] fix: keep the trailing blank lines of the diff that is
 uploaded

getGitDiff() trimmed git's output, so a diff whose last hunk ends in blank
context lines was truncated and could not be applied.
---
 packages/common/src/commit-sha.utils.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/common/src/commit-sha.utils.ts b/packages/common/src/commit-sha.utils.ts
index d084491..9251400 100644
--- a/packages/common/src/commit-sha.utils.ts
+++ b/packages/common/src/commit-sha.utils.ts
@@ -17,6 +17,7 @@ const execFilePromise = (
   file: string,
   args: string[],
   cwd?: string,
+  { trim = true }: { trim?: boolean } = {},
 ): Promise<string> => {
   return new Promise((resolve, reject) => {
     execFile(file, args, { encoding: "utf-8", cwd }, (error, output) => {
@@ -24,7 +25,7 @@ const execFilePromise = (
         reject(error instanceof Error ? error : new Error(String(error)));
         return;
       }
-      resolve(output.trim());
+      resolve(trim ? output.trim() : output);
     });
   });
 };
@@ -220,7 +221,7 @@ export const getGitDiff = async (
   options?: { cwd?: string },
 ): Promise<string> => {
   const args = headSha ? ["diff", baseSha, headSha] : ["diff", baseSha];
-  return execFilePromise("git", args, options?.cwd);
+  return execFilePromise("git", args, options?.cwd, { trim: false });
 };
 
 /**
-- 
2.43.0


From bfd9ed8e4f59b7916b265080648ddf5977537000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:31 +0000
Subject: [PATCH 42/48] fix: look for untracked files in the whole working tree

git ls-files only lists files below the current directory, so untracked files
elsewhere in the repository were silently left out of agent builds run in a
subdirectory.
---
 packages/common/src/commit-sha.utils.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/common/src/commit-sha.utils.ts b/packages/common/src/commit-sha.utils.ts
index 9251400..2b91e1b 100644
--- a/packages/common/src/commit-sha.utils.ts
+++ b/packages/common/src/commit-sha.utils.ts
@@ -198,7 +198,7 @@ export const getUntrackedFiles = async (options?: {
   try {
     const output = await execFilePromise(
       "git",
-      ["ls-files", "--others", "--exclude-standard"],
+      ["ls-files", "--others", "--exclude-standard", "--", ":/"],
       options?.cwd,
     );
     return output
-- 
2.43.0


From 3775bdca9a00fbf344777d33277bd10555300048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:31 +0000
Subject: [PATCH 43/48] fix: do not cut off git's output at 1 MB

Beyond exec's default maxBuffer the calls failed, which was taken for 'no
untracked files' / 'no uncommitted changes', and failed the diff.
---
 packages/common/src/commit-sha.utils.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/common/src/commit-sha.utils.ts b/packages/common/src/commit-sha.utils.ts
index 2b91e1b..d0ff05d 100644
--- a/packages/common/src/commit-sha.utils.ts
+++ b/packages/common/src/commit-sha.utils.ts
@@ -1,9 +1,12 @@
 import { exec, execFile } from "child_process";
 import { initLogger } from "./logger/console-logger";
 
+// Diffs and file lists can exceed Node's default `maxBuffer` of 1 MB.
+const EXEC_OPTIONS = { encoding: "utf-8", maxBuffer: Infinity } as const;
+
 const execPromise = (command: string, cwd?: string): Promise<string> => {
   return new Promise((resolve, reject) => {
-    exec(command, { encoding: "utf-8", cwd }, (error, output) => {
+    exec(command, { ...EXEC_OPTIONS, cwd }, (error, output) => {
       if (error) {
         reject(error);
         return;
@@ -20,7 +23,7 @@ const execFilePromise = (
   { trim = true }: { trim?: boolean } = {},
 ): Promise<string> => {
   return new Promise((resolve, reject) => {
-    execFile(file, args, { encoding: "utf-8", cwd }, (error, output) => {
+    execFile(file, args, { ...EXEC_OPTIONS, cwd }, (error, output) => {
       if (error) {
         reject(error instanceof Error ? error : new Error(String(error)));
         return;
-- 
2.43.0


From 591ff1cafc9246e0cca56937e649f043fa13ec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:43 +0000
Subject: [PATCH 44/48] fix: local relevant-sessions: lines between two
 deletions are not edited

---
 .../cli/src/commands/local/get-edited-files.utils.ts   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/cli/src/commands/local/get-edited-files.utils.ts b/packages/cli/src/commands/local/get-edited-files.utils.ts
index 5f70682..db5de1e 100644
--- a/packages/cli/src/commands/local/get-edited-files.utils.ts
+++ b/packages/cli/src/commands/local/get-edited-files.utils.ts
@@ -81,10 +81,14 @@ export const parseGitDiffToEditedFiles = (
           }
         }
       }
-    }
 
-    if (firstDeletedLine !== null && lastDeletedLine !== null) {
-      editedRanges.push([firstDeletedLine, lastDeletedLine]);
+      // A chunk without context ends with a change: what it deleted must not be
+      // joined with what the next chunk deletes.
+      if (firstDeletedLine !== null && lastDeletedLine !== null) {
+        editedRanges.push([firstDeletedLine, lastDeletedLine]);
+        firstDeletedLine = null;
+        lastDeletedLine = null;
+      }
     }
 
     result.push({
-- 
2.43.0


From 2ce5de68531dc2ff966fc06b294fc4c60ac9bfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:43 +0000
Subject: [PATCH 45/48] fix: local relevant-sessions: the lines around an
 addition are those before and after it

---
 packages/cli/src/commands/local/get-edited-files.utils.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/cli/src/commands/local/get-edited-files.utils.ts b/packages/cli/src/commands/local/get-edited-files.utils.ts
index db5de1e..10b5eb7 100644
--- a/packages/cli/src/commands/local/get-edited-files.utils.ts
+++ b/packages/cli/src/commands/local/get-edited-files.utils.ts
@@ -44,7 +44,9 @@ export const parseGitDiffToEditedFiles = (
     let lastDeletedLine: number | null = null;
 
     for (const chunk of modifiedFile.chunks) {
-      let currentOriginalLine = chunk.oldStart - 1;
+      // A chunk that covers no original line starts after the line it names.
+      let currentOriginalLine =
+        chunk.oldLines === 0 ? chunk.oldStart : chunk.oldStart - 1;
 
       for (const change of chunk.changes) {
         if (change.type === "del") {
-- 
2.43.0


From fa2bd36da8487a788e62989e0f2305c2fabf5a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:43 +0000
Subject: [PATCH 46/48] fix: local relevant-sessions: do not fail on diffs of
 more than 1 MB

---
 packages/cli/src/commands/local/get-edited-files.utils.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/cli/src/commands/local/get-edited-files.utils.ts b/packages/cli/src/commands/local/get-edited-files.utils.ts
index 10b5eb7..d78ec0f 100644
--- a/packages/cli/src/commands/local/get-edited-files.utils.ts
+++ b/packages/cli/src/commands/local/get-edited-files.utils.ts
@@ -7,7 +7,8 @@ export const getGitDiff = (baseSha: string, cwd?: string): Promise<string> => {
     execFile(
       "git",
       ["diff", baseSha, "--unified=0"],
-      { encoding: "utf-8", cwd },
+      // A diff can exceed the default `maxBuffer` of 1 MB.
+      { encoding: "utf-8", cwd, maxBuffer: Infinity },
       (error, output) => {
         if (error) {
           reject(error instanceof Error ? error : new Error(String(error)));
-- 
2.43.0


From 0a425a0bb51a0ec56e0f0d507f3a7960ccdf61db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:01 +0000
Subject: [PATCH 47/48] fix: git diffs do not depend on how the user's
 configuration shows diffs

---
 packages/common/src/commit-sha.utils.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/common/src/commit-sha.utils.ts b/packages/common/src/commit-sha.utils.ts
index d0ff05d..24e40e5 100644
--- a/packages/common/src/commit-sha.utils.ts
+++ b/packages/common/src/commit-sha.utils.ts
@@ -223,7 +223,13 @@ export const getGitDiff = async (
   headSha: string | undefined,
   options?: { cwd?: string },
 ): Promise<string> => {
-  const args = headSha ? ["diff", baseSha, headSha] : ["diff", baseSha];
+  const args = [
+    // The diff is read by a program: keep the user's configuration of how diffs
+    // are shown (external tools, colors, prefixes, ...) out of it.
+    ...["-c", "diff.relative=false", "diff", "--no-color", "--no-ext-diff"],
+    ...["--no-textconv", "--src-prefix=a/", "--dst-prefix=b/"],
+    ...(headSha ? [baseSha, headSha] : [baseSha]),
+  ];
   return execFilePromise("git", args, options?.cwd, { trim: false });
 };
 
-- 
2.43.0


From 40ee6903b476514bf5f3baf64f99615dc3a6535f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:01 +0000
Subject: [PATCH 48/48] fix: local relevant-sessions: the git diff does not
 depend on how the user's configuration shows diffs

---
 packages/cli/src/commands/local/get-edited-files.utils.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/cli/src/commands/local/get-edited-files.utils.ts b/packages/cli/src/commands/local/get-edited-files.utils.ts
index d78ec0f..706a2c7 100644
--- a/packages/cli/src/commands/local/get-edited-files.utils.ts
+++ b/packages/cli/src/commands/local/get-edited-files.utils.ts
@@ -6,7 +6,12 @@ export const getGitDiff = (baseSha: string, cwd?: string): Promise<string> => {
   return new Promise((resolve, reject) => {
     execFile(
       "git",
-      ["diff", baseSha, "--unified=0"],
+      [
+        // Keep the user's configuration of how diffs are shown out of it.
+        ...["-c", "diff.relative=false", "diff", "--no-color", "--no-ext-diff"],
+        ...["--no-textconv", "--src-prefix=a/", "--dst-prefix=b/"],
+        ...[baseSha, "--unified=0"],
+      ],
       // A diff can exceed the default `maxBuffer` of 1 MB.
       { encoding: "utf-8", cwd, maxBuffer: Infinity },
       (error, output) => {
-- 
2.43.0

