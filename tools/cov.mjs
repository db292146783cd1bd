// node tools/cov.mjs ID : the parts of the repository's code in a check's bundle that its generated cases never reached
import { execSync } from "node:child_process"; import fs from "node:fs"; import os from "node:os"; import path from "node:path";
const root = path.dirname(path.dirname(new URL(import.meta.url).pathname)), id = process.argv[2], all = process.argv.includes("--all");
const dir = fs.mkdtempSync(path.join(os.tmpdir(), "cov-"));
execSync(`node run.mjs ${id}`, { cwd: root, env: { ...process.env, VERIF_COV: dir }, stdio: "ignore" });
const { props } = await import("./props.mjs");
const own = [...(props.find((p) => p.id === id)?.files ?? []), ...(props.find((p) => p.id === id)?.mech.map((m) => m[1]) ?? [])];
const hits = new Map(); let text;
for (const f of fs.readdirSync(dir)) for (const r of JSON.parse(fs.readFileSync(path.join(dir, f))).result) {
  if (!r.url.includes("/.build/")) continue;
  const file = r.url.replace("file://", ""); if (!fs.existsSync(file)) continue; text = fs.readFileSync(file, "utf8");
  const mark = new Uint8Array(text.length).fill(1);
  for (const fn of r.functions) for (const g of fn.ranges) mark.fill(g.count ? 1 : 0, g.startOffset, g.endOffset);
  const heads = [...text.matchAll(/^\/\/ (?:\.\.\/)+(repo\/\S+)$/gm)];
  const any = [...text.matchAll(/^\/\/ \S+$/gm)].map((m) => m.index);
  for (const h of heads) {
    if (h[1].includes("node_modules")) continue;
    const end = any.find((i) => i > h.index) ?? text.length;
    let i = h.index; const out = [];
    while (i < end) { if (mark[i]) { i++; continue; } let j = i; while (j < end && !mark[j]) j++; const t = text.slice(i, j).trim(); if (t.length > 3) out.push(t.replace(/\s+/g, " ").slice(0, 150)); i = j; }
    if (out.length) hits.set(h[1], out);
  }
  execSync(`rm -rf ${path.dirname(file)}`);
}
fs.rmSync(dir, { recursive: true, force: true });
for (const [f, o] of hits) { if (!all && own.length && !own.some((m) => f.endsWith(m))) continue; console.log(f); for (const t of o) console.log("    " + t); }
