import { EventEmitter } from "node:events";
import { mkdtempSync, rmSync, mkdirSync, writeFileSync, readdirSync, existsSync } from "node:fs";
import { tmpdir } from "node:os"; import { join } from "node:path";
import { isDeepStrictEqual } from "node:util";
import { bundle } from "../lib/bundle.mjs";
import { FakeClock, settle } from "../lib/clock.mjs";
import { track, deferred, settleUntil } from "../lib/util.mjs";
import { Net, pLimitModule } from "../harness/net.mjs";

const S3 = "https://s3.example/", API = "https://app.meticulous.ai/api/";
const BYTES = Buffer.from("the archive's bytes \u2713"), ZIP = Buffer.from("PK zipped content"), DIFF = "diff --git a/ü b/ü\n+✓\n", INSTR = "# log in as ü";
const FILES = [["Directory", "./"], ["File", "./index.html"], ["File", "./a/ü.js"], ["Directory", "./a"], ["File", "./b.css"]];
// a registry may be addressed by its port
const repo = (o) => `harbor.example${o.project ? ":8443" : ""}/proj/app`;
const RUN = { id: "run-1", url: "https://app/run-1", project: { name: "p", organization: { name: "o" } } };
const MANIFEST = [{ name: "one", versionId: "v1" }, { name: "two", versionLookup: "latest-in-history" }];

const driver = (inst) => ({
  async setup(init) {
    const s = { init, docker: [], dir: mkdtempSync(join(tmpdir(), "verif-u02-")) };
    s.tmp = join(s.dir, "tmp"); s.app = join(s.dir, "app"); s.zip = join(s.dir, "app.zip"); s.instr = join(s.dir, "instructions.md");
    mkdirSync(s.tmp); mkdirSync(s.app); writeFileSync(join(s.app, "index.html"), "x"); writeFileSync(s.zip, ZIP); writeFileSync(s.instr, INSTR);
    s.oldTmp = process.env.TMPDIR; process.env.TMPDIR = s.tmp;
    s.clock = new FakeClock().install(); s.random = Math.random; Math.random = () => 0.5;
    const net = s.net = new Net(); const { flow, opt } = init;
    class DeflateRaw { process(chunk, flag) { return flag !== undefined ? Buffer.from("END") : chunk; } }
    s.tars = [];
    const create = (o, paths) => { const e = new EventEmitter(); s.tars.push({ e, o, paths, open: true }); return e; };
    s.dcall = (name, extra = {}) => { const d = deferred(); s.docker.push({ name, d, open: true, ...extra }); return d.promise; };
    class Docker {
      ping() { return s.dcall("ping"); }
      getImage(ref) { return { inspect: () => s.dcall("inspect", { ref }), tag: (o) => s.dcall("tag", { ref, o }), push: (o, cb) => { s.docker.push({ name: "push", ref, o, cb, open: true }); } }; }
      createContainer(o) { return s.dcall("container", { o }); }
      modem = { followProgress: (stream, done, progress) => stream(done, progress) };
    }
    const mod = inst({ ...net.doubles(), "p-limit": pLimitModule, "fast-zlib": { DeflateRaw }, tar: { create, c: create }, dockerode: { __esModule: true, default: Docker } });
    const A = { apiToken: "token", commitSha: "c0ffee", ...(opt.project ? { projectId: "proj" } : {}) };
    const D = opt.diff ? { gitDiffOutput: DIFF, baseSha: "ba5e" } : {};
    const client = mod.createClient({ apiToken: "token" });
    const given = new EventEmitter(); if (flow === "stream") s.tars.push({ e: given, open: true });
    s.out = track(({
      chunk: () => mod.uploadAssetChunk({ ...A, chunkName: "main", chunkVersionId: "v9", chunkAssetsDirectory: s.app, ...(opt.extra ? { chunkAssetsDirectoryPrefix: "pre/fix", force: true } : {}) }),
      dir: () => mod.uploadAssets({ ...A, ...D, appDirectory: s.app, rewrites: opt.extra ? [{ source: "/a", destination: "/b" }] : [] }),
      stream: () => mod.uploadAssetsFromTarStream({ ...A, ...D, tarStream: given }),
      zip: () => mod.uploadAssetsFromZip({ ...A, ...D, zipPath: s.zip, deleteAfterUpload: opt.extra }),
      buildDir: () => mod.uploadBuild({ ...A, appDirectory: s.app }),
      buildZip: () => mod.uploadBuild({ ...A, appZip: s.zip }),
      buildImage: () => mod.uploadBuild({ ...A, localImageTag: "app:local", containerPort: 3000 }),
      chunksRun: () => mod.runWithUploadedAssetChunks({ ...A, ...D, client, waitForBase: opt.extra, rewrites: [], assetReferencesManifest: MANIFEST, ...(opt.extra ? { sessionFilter: { type: "urlRegexes" } } : {}) }),
      agentRun: () => mod.triggerTestRun({ apiToken: "token", baseSha: "ba5e", ...(opt.extra ? { deploymentId: "dep" } : { commitSha: "c0ffee" }), ...(opt.diff ? { gitDiffOutput: DIFF } : {}), ...(opt.project ? { project: "proj" } : {}), ...(opt.extra ? { sessionIds: [], maxDurationSeconds: null } : {}) }),
      image: () => mod.uploadContainer({ ...A, ...D, localImageTag: "app:local", containerPort: 3000, waitForBase: opt.extra,
        ...(opt.companion !== "none" ? { companionAssets: { regex: "^/static", ...{ folder: { folder: s.app }, zip: { zip: s.zip }, path: { pathInImage: "/srv/www/" } }[opt.companion] } } : {}) }),
      sessionsImage: () => mod.generateSessions({ ...A, localImageTag: "app:local", ...(opt.extra ? { instructionsFile: s.instr } : {}) }),
      sessionsDir: () => mod.generateSessions({ ...A, assetsDirectory: s.app, ...(opt.extra ? { instructionsFile: s.instr } : {}) }),
    })[flow]());
    await settle({ io: true, rounds: 5 });
    return s;
  },
  // the open calls, by name
  calls(s) {
    const { net, init } = s; const { opt, flow } = init; const out = [];
    const q = opt.project ? "?projectId=proj" : "";
    const api = { "project-deployments/request-multipart-asset-upload": "mp-request", "project-deployments/request-asset-upload": "zip-request", "project-deployments/request-git-diff-upload": "diff-request", "project-deployments/complete-asset-upload-and-maybe-trigger-run": "complete",
      "project-deployments/request-asset-chunk-upload": "chunk-request", "project-deployments/complete-asset-chunk-upload": "chunk-complete", "project-deployments/create-run-with-uploaded-asset-chunks": "create", "project-deployments/trigger-run-with-uploaded-asset-chunks": "trigger-chunks",
      "project-deployments/complete-container-upload": "complete-image", "registry/auth": "registry" };
    const put = { "part-1": ["part-put", Buffer.concat([BYTES, Buffer.from("END")])], zip: ["zip-put", ZIP, "application/zip"], diff: ["diff-put", Buffer.from(DIFF), "text/plain"], instr: ["instr-put", Buffer.from(INSTR), "text/markdown"],
      "chunk-tar": ["chunk-tar", Buffer.concat([BYTES, Buffer.from("END")]), "application/octet-stream"], "chunk-index": ["chunk-index", Buffer.from(JSON.stringify(FILES.filter(([t]) => t === "File").map(([, p]) => p))), "application/json"] };
    for (const c of net.open()) {
      if (c.kind === "request") { const p = put[c.url.slice(S3.length)];
        if (!p) { out.push({ name: `PUT ${c.url}`, c }); continue; }
        out.push({ name: p[0], c, same: c.method === "PUT" && c.body.equals(p[1]) && Number(c.headers["content-length"]) === p[1].length && c.headers["content-type"] === p[2] }); continue; }
      const path = c.url.slice(API.length).replace(/\?.*$/, ""); const query = c.url.includes("?") ? c.url.slice(c.url.indexOf("?")) : "";
      const b = c.body === undefined ? undefined : JSON.parse(c.body);
      let name = api[path];
      const body = { "mp-request": { archiveType: "tar.d" }, "zip-request": { size: ZIP.length }, registry: undefined,
        "chunk-request": { chunkName: "main", chunkVersionId: "v9", tarballSize: BYTES.length + 3, commitSha: "c0ffee", ...(opt.extra ? { force: true } : {}) },
        "chunk-complete": { chunkName: "main", chunkVersionId: "v9", commitSha: "c0ffee" },
        "diff-request": { uploadId: flow === "chunksRun" ? "dep-1" : flow === "image" ? "img-1" : "up-1", size: Buffer.byteLength(DIFF) },
        complete: flow === "image" ? { uploadId: "up-1", commitSha: "c0ffee", mustHaveBase: false, rewrites: [], createDeployment: false, ...this.archive(opt.companion === "zip") }
          : { uploadId: "up-1", commitSha: "c0ffee", ...(opt.diff ? { baseSha: "ba5e", hasGitDiff: true } : {}), mustHaveBase: false, rewrites: flow === "dir" && opt.extra ? [{ source: "/a", destination: "/b" }] : [], createDeployment: true, ...this.archive(flow === "zip") },
        create: { commitSha: "c0ffee", createDeployment: true, assetReferencesManifest: MANIFEST, rewrites: [] },
        "trigger-chunks": { sourceDeploymentId: "dep-1", commitSha: "c0ffee", ...(opt.diff ? { baseSha: "ba5e", hasGitDiff: true } : {}), mustHaveBase: opt.extra, ...(opt.extra ? { sessionFilter: { type: "urlRegexes" } } : {}) },
        "complete-image": { uploadId: "img-1", commitSha: "c0ffee", ...(opt.diff ? { baseSha: "ba5e", hasGitDiff: true } : {}), mustHaveBase: opt.extra, containerPort: 3000,
          ...(opt.companion !== "none" ? { companionAssetsInfo: { deploymentUploadId: "up-1", regex: "^/static", archiveType: opt.companion === "zip" ? "zip" : "tar.d" } } : {}) } };
      if (name && name in body) { out.push({ name, c, same: isDeepStrictEqual(b, body[name]) && query === q && c.headers.authorization === "token" && c.method === (name === "registry" ? "GET" : "POST") }); continue; }
      // the agent's own interface
      name = this.agentName(path);
           const ab = { "agent-diff": { ...(opt.extra ? { deploymentId: "dep" } : { commitSha: "c0ffee" }), baseSha: "ba5e", size: Buffer.byteLength(DIFF) },
        "agent-trigger": { ...(opt.diff ? { deploymentId: "pinned" } : opt.extra ? { deploymentId: "dep" } : { commitSha: "c0ffee" }), baseSha: "ba5e", ...(opt.extra ? { sessionIds: [], maxDurationSeconds: null } : {}) },
        "register-assets": { uploadId: "up-1", commitSha: "c0ffee", rewrites: [], ...this.archive(flow === "buildZip") },
        "register-image": { uploadId: "img-1", commitSha: "c0ffee", containerPort: 3000 },
        "instr-request": { size: Buffer.byteLength(INSTR) },
        generate: { commitSha: "c0ffee", ...(opt.extra ? { instructionsId: "instr-1" } : {}), appTarget: flow === "sessionsImage" ? { type: "container", uploadId: "img-1" } : { type: "assets", assetsUploadId: "up-1" } } }[name];
      out.push({ name: name ?? `${c.method} ${c.url}`, c, same: ab && isDeepStrictEqual(b, JSON.parse(JSON.stringify(ab))) && query === (name === "instr-request" || name === "generate" ? q : q.replace("projectId", "project")) && c.headers.authorization === "token" && c.method === "POST" || { b, ab, query } });
    }
    for (const t of s.tars) if (t.open && t.e.listenerCount("data") > 0) { const o = t.o; out.push({ name: flow === "chunk" ? "chunk-archive" : "tar", t,
      same: flow === "stream" || t.archive ? true : o.cwd === s.app && o.follow === true && [...FILES.map(([, f]) => f), ".env", "./.well-known/x", "a/node_modules/b.js", "a/.hidden"].every((f) => !o.filter || o.filter(f, {})) && isDeepStrictEqual(t.paths, ["."]) && (o.prefix ?? null) === (flow === "chunk" && opt.extra ? "pre/fix" : null) }); }
    for (const d of s.docker) if (d.open) out.push({ name: d.name, d, same: { ping: true, inspect: d.ref === "app:local", tag: d.ref === "app:local" && isDeepStrictEqual(d.o, { repo: repo(opt), tag: "v1" }), container: d.o?.Image === "app:local", archive: d.o?.path === "/srv/www/.",
      push: d.ref === `${repo(opt)}:v1` && isDeepStrictEqual(d.o, { authconfig: { username: "robot", password: "secret", serveraddress: "harbor.example" } }) }[d.name] });
    return out.sort((a, b) => (a.name < b.name ? -1 : 1));
  },
  archive: (zip) => (zip ? { archiveType: "zip" } : { archiveType: "tar.d", multipartUploadInfo: { awsUploadId: "aws", eTags: ["tag-1"] } }),
  agentName(path) {
    return { "agent/upload-build/git-diff": "agent-diff", "agent/trigger-test-run": "agent-trigger", "agent/upload-build/asset": "register-assets", "agent/upload-build/container": "register-image",
      "agentic-session-generation/request-instructions-upload": "instr-request", "agentic-session-generation/launch": "generate" }[path];
  },
  async step(s, act, to) {
    const k = this.calls(s).find((x) => x.name === act.call);
    if (!k) return `there is no such call under way: ${this.calls(s).map((x) => x.name)}`;
    const prev = s.init.opt.prev;
    const OK = { "mp-request": { uploadId: "up-1", awsUploadId: "aws", uploadPartUrls: [`${S3}part-0`], uploadChunkSize: 1e6 }, "zip-request": { uploadId: "up-1", uploadUrl: `${S3}zip` }, "diff-request": { uploadUrl: `${S3}diff` }, complete: { testRun: RUN }, "chunk-complete": { message: "ok" },
      "chunk-request": { alreadyUploaded: false, tarballUploadUrl: `${S3}chunk-tar`, filesIndexUploadUrl: `${S3}chunk-index`, previousStatus: prev === "new" ? null : prev }, create: { sourceDeploymentId: "dep-1" }, "trigger-chunks": { testRun: RUN }, "complete-image": { testRun: RUN },
      registry: { uploadId: "img-1", imageReference: `${repo(s.init.opt)}:v1`, registryUrl: "harbor.example", robotAccountName: "robot", robotAccountSecret: "secret" }, "agent-diff": { uploadUrl: `${S3}diff`, deploymentId: "pinned" }, "agent-trigger": { testRun: RUN, commitSha: "c0ffee" },
      "register-assets": { deploymentId: "d1" }, "register-image": { deploymentId: "d1" }, "instr-request": { uploadUrl: `${S3}instr`, instructionsId: "instr-1" }, generate: { workflowRunId: "wf" } };
    if ((k.t?.archive) || (k.name === "archive" && act.n === "fail")) s.archiveDone = true;
    if (k.t) { k.t.open = false;
      if (act.n === "ok") { for (const [type, path] of FILES) k.t.o?.onWriteEntry?.({ type, path }); k.t.e.emit("data", BYTES.subarray(0, 7)); k.t.e.emit("data", BYTES.subarray(7)); k.t.e.emit("end"); }
      else { k.t.e.emit("data", BYTES.subarray(0, 7)); k.t.e.emit("error", new Error("archive failed")); } }
    else if (k.d) { const d = k.d; d.open = false; const finish = (err, out) => d.cb(null, (done, progress) => { progress({ status: "Pushing", id: "layer" }); done(err, out); });
      if (d.name === "push") { const good = { status: `v1: digest: sha256:${"ab".repeat(32)} size: 1` };
        if (act.n === "ok") finish(null, [{ status: "Pushed" }, good]); else if (act.n === "fail") d.cb(new Error("denied"));
        else if (act.kind === "network") finish(null, [{ status: "Pushed" }]); else finish(null, [good, { error: "denied: quota", errorDetail: { message: "quota" } }]); }
      else if (act.n === "fail") d.d.reject(new Error("docker failed"));
      else if (d.name === "container") d.d.resolve({ getArchive: (o) => s.dcall("archive", { o }), remove: async () => { s.removed = (s.removed ?? 0) + 1; } });
      else if (d.name === "archive") { const e = new EventEmitter(); s.tars.push({ e, open: true, archive: true }); d.d.resolve(e); }
      else d.d.resolve({ Id: "x" }); }
    else if (k.c.kind === "request") { if (act.n === "ok") k.c.answer(200, "", { etag: "tag-1" }); else if (act.n === "fail") k.c.answer(s.init.opt.extra ? 301 : 403, "denied"); else if (act.kind === "status") k.c.answer(503, "slow"); else k.c.fail("ECONNRESET"); }
    else { let a = OK[act.call]; if (act.n === "already") a = { alreadyUploaded: true }; if (act.n === "dry") a = { overlaps: [] }; if (act.n === "norun") a = {};
      if (act.call === "mp-request" && act.n === "ok") { // the only part is the last one, so its address is asked for
        s.net.auto = [(c) => { if (c.url.includes("request-upload-part")) { const b = JSON.parse(c.body); s.asked = b; c.answer(200, { uploadPartUrl: `${S3}part-${b.partNumber}` }); return true; } }]; }
      if (act.n === "fail") k.c.answer(400, { message: "no" }); else if (act.n === "hiccup") { if (act.kind === "status") k.c.answer(503, { message: "busy" }); else k.c.fail("ECONNRESET"); } else k.c.answer(200, a); }
    await settle({ io: true, rounds: 4 });
    if (act.n === "hiccup") { await s.clock.advance(1600, { io: true }); await settle({ io: true, rounds: 3 }); }
    // files are read and written meanwhile: give the real file system its time
    const names = (l) => JSON.stringify(l.map((x) => x[0]));
    await settleUntil(() => (to.out === "pending" ? s.out.state !== "pending" || names(this.observe(s).open) === names(this.expect(to, act, s).open) : s.out.state !== "pending"), { maxMs: 5000 });
  },
  observe(s) {
    const v = s.out.value;
    return { open: this.calls(s).filter((c) => s.out.state !== "error").map((c) => [c.name, c.same]), out: s.out.state, value: s.out.state === "ok" ? v ?? null : null,
      // temporary files are there only while they are needed
      tmp: s.out.state === "pending" ? null : readdirSync(s.tmp), zip: s.out.state === "pending" ? null : existsSync(s.zip),
      // a container created to read the image's files is removed once they are read, or cannot be
      removed: s.removed ?? 0 };
  },
  expect(m, act, s) {
    const { flow, opt } = m;
    const out = { pending: "pending", ok: "ok", failed: "error" }[m.out];
    const value = m.out !== "ok" ? null : { chunk: null, dir: { uploadId: "up-1", archiveType: "tar.d", testRun: RUN }, stream: { uploadId: "up-1", archiveType: "tar.d", testRun: RUN }, zip: { uploadId: "up-1", archiveType: "zip", testRun: RUN },
      buildDir: { deploymentId: "d1" }, buildZip: { deploymentId: "d1" }, buildImage: { deploymentId: "d1" }, chunksRun: act?.n === "dry" ? { testRun: null } : { testRun: RUN }, agentRun: { testRun: RUN, headCommitSha: "c0ffee" }, image: { uploadId: "img-1", testRun: RUN },
      sessionsImage: { uploadId: "img-1", workflowRunId: "wf" }, sessionsDir: { uploadId: "up-1", workflowRunId: "wf" } }[flow];
    return { open: m.out === "pending" ? m.stage.filter((_c, i) => m.st[i] === "open").map((c) => [c, true]).sort((a, b) => (a[0] < b[0] ? -1 : 1)) : [], out, value,
      tmp: m.out === "pending" ? null : [], zip: m.out === "pending" ? null : !(flow === "zip" && opt.extra),
      removed: s.archiveDone ? 1 : 0 };
  },
  async finish(s, m) {
    // after a failure the calls still under way lead to nothing else
    if (m.out !== "failed") return;
    const before = s.net.calls.length;
    for (const c of s.net.open()) c.answer(200, c.kind === "request" ? "" : {}, { etag: "tag-1" });
    await settle({ io: true }); await s.clock.advance(120_000, { io: true });
    if (s.net.calls.length !== before) return `after the failure: ${s.net.calls[before].method} ${s.net.calls[before].url}`;
    if (s.out.state !== "error") return `it ended ${s.out.state}`;
    if (readdirSync(s.tmp).length) return `left behind: ${readdirSync(s.tmp)}`;
  },
  async teardown(s) { s.clock.uninstall(); Math.random = s.random; if (s.oldTmp === undefined) delete process.env.TMPDIR; else process.env.TMPDIR = s.oldTmp; rmSync(s.dir, { recursive: true, force: true }); },
});
const set = (...a) => `{${a.map((x) => `"${x}"`).join(", ")}}`;
const B = "{TRUE, FALSE}";
const BASE = { Flows: set("chunk"), Diffs: B, Projects: B, Companions: set("none"), Previous: set("new"), Extras: B, MaxHic: 1 };
const INV = { invariants: ["FinalIsLast"], properties: ["NothingAfterFailure", "OnlyWhenAllOk"] };
const ALL = ["chunk", "dir", "stream", "zip", "buildDir", "buildZip", "buildImage", "chunksRun", "agentRun", "image", "sessionsImage", "sessionsDir"];
export default {
  property: "U02",
  assumptions: ["the archive and compression libraries and the Docker daemon are replaced by doubles", "files are written to a scratch directory"],
  models: [{
    name: "flows", spec: "AssetFlow",
    driver: async () => driver(await bundle({ a: "remote-replay-launcher/src/index.ts", b: "remote-replay-launcher/src/asset-upload-utils.ts", c: "client/src/client.ts", d: "remote-replay-launcher/src/upload-asset-chunk.ts", e: "remote-replay-launcher/src/upload-build.ts", f: "remote-replay-launcher/src/trigger-test-run.ts", g: "remote-replay-launcher/src/generate-sessions.ts", h: "remote-replay-launcher/src/upload-container.ts", i: "remote-replay-launcher/src/run-with-uploaded-asset-chunks.ts" })
      .then((inst) => (doubles) => Object.assign({}, ...Object.values(inst(doubles))))),
    runs: ({ tier }) => {
      const t = tier === "thorough";
      return [
        { name: "all", cfg: { constants: { ...BASE, Flows: set(...ALL) }, ...INV }, maxPaths: t ? undefined : 2500 },
        { name: "chunks", cfg: { constants: { ...BASE, Flows: set("chunk", "chunksRun"), Previous: set("new", "deleted", "failed_uploading", "pending_upload", "uploaded"), MaxHic: t ? 3 : 2 }, ...INV }, maxPaths: t ? undefined : 1200 },
        { name: "companions", cfg: { constants: { ...BASE, Flows: set("image"), Companions: set("folder", "zip", "path"), MaxHic: t ? 2 : 1 }, ...INV }, maxPaths: t ? undefined : 1200 },
      ];
    },
  }],
};
