import fs from "node:fs";
import path from "node:path";
import { createRequire } from "node:module";

const VT = "/opt/veriftools/node/node_modules";
const require = createRequire(import.meta.url);

// Bundles a check with the repository's sources. Bare imports resolve, in this order, to:
// a stub in /verif/stubs, the library's own sources (for @digitraffic/common/dist/..), the library's
// installed dependencies, the verification tools, and last a recording auto-stub.
export async function bundle({ root, repo, entry, out }) {
  const esbuild = require(path.join(VT, "esbuild"));
  const lib = path.join(repo, "lib/digitraffic-common");
  const stubs = path.join(root, "stubs");
  const cfgFile = entry.replace(/\.mjs$/, ".build.json");
  const cfg = fs.existsSync(cfgFile) ? JSON.parse(fs.readFileSync(cfgFile, "utf8")) : {};
  const mocks = cfg.mocks ?? {}; // bare specifier or repo-relative path (no extension) -> file under stubs/
  const real = new Set(cfg.real ?? []); // specifiers for which the default stub is not used
  const stubFile = (spec) => {
    const base = path.join(stubs, spec.replace(/[@]/g, "").replace(/[/:]/g, "__"));
    for (const e of [".mjs", ".cjs"]) if (fs.existsSync(base + e)) return base + e;
    return undefined;
  };
  const tsOf = (p) => {
    const c = [p, p.replace(/\.js$/, ".ts"), `${p}.ts`, `${p}.mjs`, path.join(p, "index.ts")];
    return c.find((f) => fs.existsSync(f) && fs.statSync(f).isFile());
  };
  const plugin = {
    name: "repo",
    setup(b) {
      b.onResolve({ filter: /.*/ }, async (a) => {
        if (a.pluginData?.skip || a.kind === "entry-point") return undefined;
        let s = a.path;
        if (s.startsWith("#harness")) return { path: path.join(root, "harness", s === "#harness" ? "h.mjs" : s.slice("#harness/".length)) };
        if (s.startsWith("#repo/")) {
          // "…?n" is another instance of the module (which has read its environment at another time)
          const suffix = /\?.*$/.exec(s)?.[0], rel = s.slice(6).replace(/\?.*$/, "");
          if (mocks[rel.replace(/\.[jt]s$/, "")]) return { path: path.join(stubs, mocks[rel.replace(/\.[jt]s$/, "")]) };
          const f = tsOf(path.join(repo, rel));
          if (f) return suffix ? { path: f, suffix } : { path: f };
          return { path: s, namespace: "gone" }; // the parts that need it are reported as not driven
        }
        if (s.startsWith("#stub/")) return { path: path.join(stubs, s.slice(6)) };
        if (s.startsWith(".") || s.startsWith("/")) {
          // relative import in the repository: ".js" means ".ts"; a check may replace such a module
          const abs = path.resolve(a.resolveDir, s);
          if (abs.startsWith(repo + "/") && !abs.includes("/node_modules/")) {
            const f = tsOf(abs);
            const rel = path.relative(repo, f ?? abs).replace(/\.[jt]s$/, "");
            if (mocks[rel]) return { path: path.join(stubs, mocks[rel]) };
            if (f) return { path: f };
          }
          return undefined;
        }
        if ((s === "node:timers/promises" || s === "timers/promises") && !a.resolveDir.includes("/node_modules/")) return { path: path.join(stubs, "timers-promises.mjs") };
        if (mocks[s] && !a.resolveDir.includes("/node_modules/")) return { path: path.join(stubs, mocks[s]) };
        const m = /^@digitraffic\/common\/dist\/(.*)$/.exec(s) ?? /^@digitraffic\/common$/.exec(s);
        if (m) {
          const sub = (m[1] ?? "index").replace(/^test\//, "__test__/");
          const f = tsOf(path.join(lib, "src", sub));
          const rel = f && path.relative(repo, f).replace(/\.ts$/, "");
          if (rel && mocks[rel]) return { path: path.join(stubs, mocks[rel]) };
          if (f) return { path: f };
        }
        if (s === "#vt/fast-check") return { path: path.join(VT, "fast-check/lib/fast-check.js") };
        if (s === "#vt/fake-timers") return { path: path.join(VT, "@sinonjs/fake-timers/src/fake-timers-src.js") };
        if (!real.has(s)) {
          const st = stubFile(s);
          if (st) return { path: st };
        }
        if (require("node:module").builtinModules.includes(s.replace(/^node:/, "")))
          return { path: s.startsWith("node:") ? s : `node:${s}`, external: true };
        const inRepoModules = a.resolveDir.includes("/node_modules/");
        if (/^(aws-cdk-lib|constructs)(\/|$)/.test(s)) {
          const req = createRequire(path.join(lib, "package.json"));
          return { path: req.resolve(s), external: true };
        }
        for (const dir of inRepoModules ? [a.resolveDir] : [lib, "/opt/veriftools/node"]) {
          const r = await b.resolve(s, { resolveDir: dir, kind: a.kind, importer: a.importer, pluginData: { skip: true } });
          if (r.errors.length === 0) return { path: r.path, external: r.external, sideEffects: r.sideEffects };
        }
        return { path: s, namespace: "autostub" };
      });
      b.onLoad({ filter: /.*/, namespace: "gone" }, () => ({ contents: "module.exports = {};", loader: "js" }));
      b.onLoad({ filter: /.*/, namespace: "autostub" }, (a) => ({
        contents: `module.exports = require(${JSON.stringify(path.join(stubs, "auto.cjs"))})(${JSON.stringify(a.path)});`,
        loader: "js", resolveDir: stubs,
      }));
    },
  };
  const file = path.join(out, "check.mjs");
  await esbuild.build({
    entryPoints: [entry], outfile: file, bundle: true, platform: "node", format: "esm", target: "node22",
    sourcemap: "inline", sourcesContent: false, logLevel: "silent", legalComments: "none",
    keepNames: true, plugins: [plugin],
    tsconfigRaw: { compilerOptions: { target: "es2022", useDefineForClassFields: true, experimentalDecorators: false } },
    loader: { ".html": "text", ".txt": "text", ".svg": "text" },
    define: {},
    banner: { js: `import { createRequire as __cr } from "node:module"; const require = __cr("${lib}/package.json"); const __filename = ${JSON.stringify(file)}; const __dirname = ${JSON.stringify(out)};` },
  });
  return file;
}
