// The library's sources compiled file by file, unbundled, as they are published (function sources stay as written).
import fs from "node:fs";
import path from "node:path";
import { createRequire } from "node:module";
const REPO = process.env.VERIF_REPO;
export function plainLib() {
  const require = createRequire("/opt/veriftools/node/package.json");
  const esbuild = require("esbuild");
  const lib = path.join(REPO, "lib/digitraffic-common"), out = path.join(process.cwd(), "plainlib");
  const files = fs.readdirSync(path.join(lib, "src"), { recursive: true }).filter((f) => f.endsWith(".ts") && !f.startsWith("__test__"));
  esbuild.buildSync({
    entryPoints: files.map((f) => path.join(lib, "src", f)), outdir: path.join(out, "dist"), outbase: path.join(lib, "src"), bundle: false, format: "esm", target: "es2024", platform: "node", logLevel: "silent",
    tsconfigRaw: { compilerOptions: { target: "es2024", useDefineForClassFields: true, verbatimModuleSyntax: true } },
  });
  fs.symlinkSync(path.join(lib, "node_modules"), path.join(out, "node_modules"));
  fs.writeFileSync(path.join(out, "package.json"), '{"type":"module"}');
  return (p) => import(path.join(out, "dist", p));
}
