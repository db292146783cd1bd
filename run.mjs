#!/usr/bin/env node
// node run.mjs <ID> [--replay FILE]
// Bundles checks/<ID>.mjs together with the CURRENT sources of /repo and runs it in a child process.
import { spawn } from "node:child_process";
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { bundle } from "./harness/bundle.mjs";

const root = path.dirname(fileURLToPath(import.meta.url));
const id = process.argv[2];
const replayArg = process.argv.indexOf("--replay");
const tier = process.env.VERIF_TIER === "thorough" ? "thorough" : "quick";
const seed = Number.parseInt(process.env.VERIF_SEED ?? "1", 10) || 1;
const repo = process.env.VERIF_REPO ?? "/repo";

const out = path.join(root, ".build", `${id}-${process.pid}`);
fs.mkdirSync(out, { recursive: true });
const cleanup = () => { if (!process.env.VERIF_COV) fs.rmSync(out, { recursive: true, force: true }); };
let file;
try {
  file = await bundle({ root, repo, entry: path.join(root, "checks", `${id}.mjs`), out });
} catch (e) {
  console.log(`ERROR check ${id} could not be built against ${repo}: ${e.message}`);
  cleanup();
  process.exit(2);
}

const child = spawn(process.execPath, ["--max-old-space-size=6144", "--no-warnings", "--enable-source-maps", file], {
  cwd: out,
  stdio: ["ignore", "inherit", "inherit", "ipc"],
  env: {
    PATH: process.env.PATH, HOME: out, TMPDIR: out, TZ: "UTC",
    AWS_REGION: "eu-west-1", AWS_ACCESS_KEY_ID: "x", AWS_SECRET_ACCESS_KEY: "y", AWS_EC2_METADATA_DISABLED: "true",
    NODE_OPTIONS: "",
    VERIF_SEED: String(seed), VERIF_TIER: tier, VERIF_ID: id, VERIF_ROOT: root, VERIF_REPO: repo,
    ...(replayArg > 0 ? { VERIF_REPLAY: path.resolve(process.argv[replayArg + 1]) } : {}),
    ...(process.env.VERIF_ONLY ? { VERIF_ONLY: process.env.VERIF_ONLY } : {}),
    ...(process.env.VERIF_COV ? { NODE_V8_COVERAGE: process.env.VERIF_COV } : {}),
    ...(process.env.VERIF_DEBUG ? { VERIF_DEBUG: process.env.VERIF_DEBUG } : {}),
  },
});

// A case that neither finishes nor yields for this long is a non-termination (cases take milliseconds).
const STALL_MS = 180_000;
let last = { t: Date.now(), part: "(start-up)", desc: "" };
child.on("message", (m) => { last = { t: Date.now(), ...m }; });
let stalled = false;
const timer = setInterval(() => {
  if (Date.now() - last.t > STALL_MS && last.part !== "(start-up)") {
    stalled = true;
    clearInterval(timer);
    child.kill("SIGKILL");
  }
}, 2000);

child.on("exit", (code, signal) => {
  clearInterval(timer);
  cleanup();
  // V8 aborts when a case fills the heap: what it does not stop building, it never finishes
  const full = signal === "SIGABRT" && last.part !== "(start-up)";
  if (stalled || full) {
    fs.mkdirSync(path.join(root, ".replay"), { recursive: true });
    const rp = path.join(root, ".replay", `${id}-stall.json`);
    fs.writeFileSync(rp, JSON.stringify({ property: id, part: last.part, seed, tier, stall: true, ...(full ? { memory: true } : {}), near: last.desc }, null, 1));
    console.log(`part ${last.part}: a case ${full ? "fills the memory" : "did not terminate"}`);
    console.log(`VIOLATION property=${id} replay=${rp}`);
    process.exit(1);
  }
  if (code === 0 || code === 1) process.exit(code);
  console.log(`ERROR check ${id} ended with code=${code} signal=${signal}`);
  process.exit(2);
});
