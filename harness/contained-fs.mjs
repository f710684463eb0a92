// node:fs for code that writes: every change outside the scratch directory is refused before it happens, and noted.
import fs from "node:fs";
import { dirname, join, resolve, basename, sep } from "node:path";
/** where a path really leads: links resolved, also for what does not exist yet */
export const leadsTo = (p, hops = 0) => {
  p = resolve(String(p)); if (hops > 40) return p;
  let st; try { st = fs.lstatSync(p); } catch { st = null; }
  if (st?.isSymbolicLink()) return leadsTo(resolve(dirname(p), fs.readlinkSync(p)), hops + 1);
  if (st) return fs.realpathSync(p);
  const up = dirname(p); return up === p ? p : join(leadsTo(up, hops), basename(p));
};
/** allowed: a directory; escapes: what was attempted elsewhere; changes: [operation, where it really leads] */
export const containedFs = (allowed, log = { escapes: [], changes: [] }) => {
  const root = fs.realpathSync(allowed);
  const guard = (op, path, follow = true) => {
    const p = follow ? leadsTo(path) : join(leadsTo(dirname(resolve(String(path)))), basename(resolve(String(path))));
    if (p !== root && !p.startsWith(root + sep)) { log.escapes.push(`${op} ${p}`); throw Object.assign(new Error(`contained: ${op} ${p}`), { code: "EACCES" }); }
    log.changes.push([op, p]);
  };
  const wrap = (base, sync) => {
    const out = { ...base };
    const names = { writeFile: [0], appendFile: [0], mkdir: [0], truncate: [0], chmod: [0], chown: [0], utimes: [0] };
    for (const [n, at] of Object.entries(names)) { const k = sync ? `${n}Sync` : n; if (base[k]) out[k] = (...a) => { at.forEach((i) => guard(n, a[i])); return base[k](...a); }; }
    for (const [n, at] of Object.entries({ copyFile: [1], cp: [1], rename: [0, 1], link: [1], symlink: [1], rm: [0], rmdir: [0], unlink: [0] })) { const k = sync ? `${n}Sync` : n; if (base[k]) out[k] = (...a) => { at.forEach((i) => guard(n, a[i], n === "copyFile" || n === "cp")); return base[k](...a); }; }
    const t = sync ? "mkdtempSync" : "mkdtemp"; out[t] = (p, ...a) => { guard("mkdtemp", `${p}x`); return base[t](p, ...a); };
    const o = sync ? "openSync" : "open"; out[o] = (p, flags = "r", ...a) => { if (typeof flags !== "string" || !/^rs?$/.test(flags)) guard("open", p); return base[o](p, flags, ...a); };
    return out;
  };
  const sync = wrap(fs, true); const promises = wrap(fs.promises, false);
  for (const n of ["createWriteStream"]) sync[n] = (p, ...a) => { guard(n, p); return fs[n](p, ...a); };
  for (const n of ["writeFile", "appendFile", "mkdir", "copyFile", "rename", "rm", "unlink", "symlink", "rmdir", "cp", "open", "link", "truncate", "chmod"]) sync[n] = () => { throw new Error(`contained: ${n} with a callback is not expected`); };
  sync.promises = promises; sync.default = sync; promises.default = promises;
  return { fs: sync, promises, log };
};
/** everything below a directory: path -> "dir", "link …" or its content */
export const snapshot = (dir, at = "", out = {}) => {
  for (const e of fs.readdirSync(join(dir, at), { withFileTypes: true }).sort((a, b) => (a.name < b.name ? -1 : 1))) {
    const p = at ? `${at}/${e.name}` : e.name;
    if (e.isSymbolicLink()) out[p] = `link ${fs.readlinkSync(join(dir, p))}`;
    else if (e.isDirectory()) { out[p] = "dir"; snapshot(dir, p, out); } else out[p] = `file ${fs.readFileSync(join(dir, p), "utf8")}`;
  }
  return out;
};
