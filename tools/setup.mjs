// Checks that what the harness needs is installed; nothing has to be built ahead of a check.
import fs from "node:fs";
for (const f of ["/opt/veriftools/node/node_modules/esbuild", "/opt/veriftools/node/node_modules/fast-check", process.env.VERIF_REPO ?? "/repo"]) {
  if (!fs.existsSync(f)) { console.error("missing", f); process.exit(1); }
}
console.log("ready");
