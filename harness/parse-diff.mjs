/** The parse-diff package, which is not installed here, as far as its documentation tells: files with chunks of changes. */
export const parseDiff = (text) => {
  const files = []; let file, chunk, o = 0, n = 0, left = 0, leftNew = 0;
  const name = (s) => { s = s.replace(/\t.*$/, ""); return s === "/dev/null" ? s : s.replace(/^[a-z]\//, ""); };
  for (const line of (text ?? "").split("\n")) {
    if (chunk && (left > 0 || leftNew > 0)) {
      if (line[0] === "-") { chunk.changes.push({ type: "del", del: true, ln: o++, content: line }); file.deletions++; left--; continue; }
      if (line[0] === "+") { chunk.changes.push({ type: "add", add: true, ln: n++, content: line }); file.additions++; leftNew--; continue; }
      if (line[0] === "\\") continue;
      chunk.changes.push({ type: "normal", normal: true, ln1: o++, ln2: n++, content: line }); left--; leftNew--; continue;
    }
    let m;
    if ((m = /^diff --git a\/(.*) b\/(.*)$/.exec(line))) { file = { chunks: [], deletions: 0, additions: 0, from: m[1], to: m[2] }; files.push(file); chunk = undefined; }
    else if (!file) continue;
    else if (/^new file mode /.test(line)) { file.new = true; file.from = "/dev/null"; }
    else if (/^deleted file mode /.test(line)) { file.deleted = true; file.to = "/dev/null"; }
    else if (/^index /.test(line)) file.index = line.split(" ").slice(1);
    else if ((m = /^--- (.*)$/.exec(line))) file.from = name(m[1]);
    else if ((m = /^\+\+\+ (.*)$/.exec(line))) file.to = name(m[1]);
    else if ((m = /^@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@/.exec(line))) {
      o = +m[1]; n = +m[3]; left = +(m[2] ?? 1); leftNew = +(m[4] ?? 1);
      chunk = { content: line, changes: [], oldStart: o, oldLines: left, newStart: n, newLines: leftNew }; file.chunks.push(chunk);
    }
  }
  return files;
};
export const parseDiffModule = Object.assign((t) => parseDiff(t), { default: parseDiff, __esModule: true });
