// CloudFront of other/cloudfront: its lambdas bundled where the stack reads them, and a distribution read back from its
// template as CloudFront would run it.
import fs from "node:fs";
import path from "node:path";
import { createRequire, builtinModules } from "node:module";
import * as secretsManager from "@aws-sdk/client-secrets-manager";
const REPO = process.env.VERIF_REPO;
const nodeRequire = createRequire(import.meta.url);

export async function buildLambdas() {
  const esbuild = createRequire("/opt/veriftools/node/package.json")("esbuild");
  const app = path.join(REPO, "other/cloudfront/src/lambda"), lib = path.join(REPO, "lib/digitraffic-common");
  const ts = (p) => [p, p.replace(/\.js$/, ".ts"), `${p}.ts`].find((f) => fs.existsSync(f) && fs.statSync(f).isFile());
  const plugin = { name: "lib", setup(b) {
    b.onResolve({ filter: /^@digitraffic\/common\/dist\// }, (a) => ({ path: ts(path.join(lib, "src", a.path.slice("@digitraffic/common/dist/".length))) }));
    b.onResolve({ filter: /^@aws-sdk\// }, (a) => ({ path: a.path, external: true }));
    b.onResolve({ filter: /^[a-z@]/ }, (a) => {
      if (a.kind === "entry-point" || builtinModules.includes(a.path.replace(/^node:/, "")) || a.resolveDir.includes("node_modules")) return undefined;
      return { path: createRequire(path.join(lib, "package.json")).resolve(a.path) };
    });
  } };
  const files = fs.readdirSync(app, { recursive: true }).filter((f) => f.endsWith(".ts"));
  fs.mkdirSync("dist/lambda", { recursive: true });
  await Promise.all(files.map(async (f) => {
    const isFunction = path.basename(f).startsWith("function-");
    const out = path.join("dist/lambda", f.replace(/\.ts$/, ".cjs"));
    fs.mkdirSync(path.dirname(out), { recursive: true });
    const r = await esbuild.build({
      entryPoints: [path.join(app, f)], bundle: true, write: false, platform: "node", format: isFunction ? "esm" : "cjs", target: "es2022", minifyWhitespace: !isFunction, minifyIdentifiers: !isFunction, logLevel: "silent", legalComments: "none", plugins: [plugin],
      tsconfigRaw: { compilerOptions: { target: "es2022" } },
    });
    let code = r.outputFiles[0].text;
    // as the real bundler writes a function: its declarations, then its exports
    if (isFunction) code = `'use strict';\n\n${code.replace(/export\s*\{([\s\S]*?)\};?\s*$/, (_, names) => names.split(",").map((n) => n.trim()).filter(Boolean).map((n) => { const [local, , as] = n.split(/\s+/); return `exports.${as ?? local} = ${local};\n`; }).join(""))}`;
    fs.writeFileSync(out, code);
  }));
}

const fakeRequire = (name) => (name === "@aws-sdk/client-secrets-manager" ? secretsManager : nodeRequire(name));
export function edgeLambda(code) {
  const module = { exports: {} };
  new Function("exports", "module", "require", code)(module.exports, module, fakeRequire);
  return module.exports.handler;
}
export const edgeFunction = (code) => new Function(`${code}\nreturn handler;`)();

// The distributions of a synthesised template, by their first alias
export function distributions(template) {
  const res = template.Resources;
  const idOf = (v) => v?.Ref ?? v?.["Fn::GetAtt"]?.[0];
  const compiled = new Map();
  const compile = (id, how, code) => { if (!compiled.has(id)) compiled.set(id, how(code)); return compiled.get(id); };
  const behaviour = (config, b) => {
    const events = {};
    for (const l of b.LambdaFunctionAssociations ?? []) {
      const fn = idOf(res[idOf(l.LambdaFunctionARN)].Properties.FunctionName);
      (events[l.EventType] ??= []).push({ kind: "lambda", id: fn, resource: res[fn].Properties, get run() { return compile(fn, edgeLambda, res[fn].Properties.Code.ZipFile); } });
    }
    for (const f of b.FunctionAssociations ?? []) {
      const fn = idOf(f.FunctionARN);
      (events[f.EventType] ??= []).push({ kind: "function", id: fn, resource: res[fn].Properties, get run() { return compile(fn, edgeFunction, res[fn].Properties.FunctionCode); } });
    }
    return { raw: b, events, origin: config.Origins.find((o) => o.Id === b.TargetOriginId), cachePolicy: res[idOf(b.CachePolicyId)]?.Properties?.CachePolicyConfig };
  };
  return Object.entries(res).filter(([, r]) => r.Type === "AWS::CloudFront::Distribution").map(([id, r]) => {
    const config = r.Properties.DistributionConfig;
    return { id, resource: r.Properties, config, acl: res[idOf(config.WebACLId)]?.Properties, aliases: config.Aliases ?? [],
      behaviours: new Map([["*", behaviour(config, config.DefaultCacheBehavior)], ...(config.CacheBehaviors ?? []).map((b) => [b.PathPattern, behaviour(config, b)])]),
      paths: (config.CacheBehaviors ?? []).map((b) => b.PathPattern) };
  });
}
