// C40: the joined OpenAPI document, and the documentation versions of the APIs it is made of.
import vm from "node:vm";
import { check, fc, must, same, alike, show, outcome, fakeClock } from "#harness";
import { APIGatewayClient } from "@aws-sdk/client-api-gateway";
import { S3Client, S3 } from "@aws-sdk/client-s3";
process.env.AWS_REGION ??= "eu-west-1"; process.env.AWS_ACCESS_KEY_ID ??= "x"; process.env.AWS_SECRET_ACCESS_KEY ??= "x";
const KEYS = ["BUCKET_NAME", "REGION", "APP_URL", "APP_BETA_URL", "APIGW_APPS", "DIRECTORY", "HOST", "TITLE", "DESCRIPTION", "TERMS_OF_SERVICE", "CONTACT_NAME", "CONTACT_URL", "LICENSE_NAME", "LICENSE_URL", "REMOVESECURITY"];
const APP = "https://app.example/v3/api-docs", BETA = "https://beta.example/v3/api-docs";
const CONFIGS = [
  { APIGW_APPS: '["g1","g2"]', APP_URL: APP, APP_BETA_URL: BETA, DIRECTORY: "swagger", HOST: "https://h.example", TITLE: "T", DESCRIPTION: "D `x` </script>", TERMS_OF_SERVICE: "https://t", CONTACT_NAME: "C", CONTACT_URL: "https://c", LICENSE_NAME: "L", LICENSE_URL: "https://l", REMOVESECURITY: "true" },
  { APIGW_APPS: '["g1","g2","g3"]' }, { APIGW_APPS: '["g1"]' }, { APIGW_APPS: "[]", APP_URL: APP, HOST: "https://h.example", REMOVESECURITY: "false" },
  { APIGW_APPS: '["g1"]', APP_BETA_URL: BETA, CONTACT_NAME: "C", LICENSE_URL: "https://l", REMOVESECURITY: "true" }, { APIGW_APPS: '["g1","g2"]', APP_URL: APP, CONTACT_URL: "https://c", LICENSE_NAME: "L", DIRECTORY: "a/b", TITLE: "T" },
];
const load = async (i, f) => { for (const k of KEYS) delete process.env[k]; Object.assign(process.env, { BUCKET_NAME: `bucket-${i}`, REGION: "eu-west-1" }, CONFIGS[i]); return (await f()).handler; };
const handlers = [
  await load(0, () => import("#repo/other/swagger-joiner/src/lambda/update-swagger/lambda-update-swagger.ts?0")), await load(1, () => import("#repo/other/swagger-joiner/src/lambda/update-swagger/lambda-update-swagger.ts?1")),
  await load(2, () => import("#repo/other/swagger-joiner/src/lambda/update-swagger/lambda-update-swagger.ts?2")), await load(3, () => import("#repo/other/swagger-joiner/src/lambda/update-swagger/lambda-update-swagger.ts?3")),
  await load(4, () => import("#repo/other/swagger-joiner/src/lambda/update-swagger/lambda-update-swagger.ts?4")), await load(5, () => import("#repo/other/swagger-joiner/src/lambda/update-swagger/lambda-update-swagger.ts?5")),
];
const { handler: updateVersions } = await import("#repo/other/swagger-joiner/src/lambda/update-api-gateway-documentation/lambda-update-api-gateway-documentation.ts");
let gateway, bucket; APIGatewayClient.prototype.send = async (c) => gateway(c.constructor.name, c.input); const put = async (c) => bucket(c.constructor.name, c.input); S3Client.prototype.send = put; S3.prototype.send = put;
let web; globalThis.fetch = async (req, init) => web(req instanceof Request ? req : new Request(req, init));
const rare = (v, weight) => fc.oneof({ weight, arbitrary: fc.constant(undefined) }, v);
const clean = (o) => JSON.parse(JSON.stringify(o)), quiet = async (f) => outcome(f);

// ---------- documents: every operation belongs to one of them, a path to several
const WORD = fc.constantFrom("Get things", "ok", "Headers of responses", "`${x}` \u2028 \\ \" '", "</script>", "ä\u{1F600}");
const schemaOf = (depth) => (depth ? fc.oneof(schemaOf(0), fc.record({ type: fc.constant("object"), properties: fc.dictionary(fc.constantFrom("a", "b", "anyOf", "items"), fc.oneof(schemaOf(depth - 1), broken(depth - 1)), { maxKeys: 2 }) }), fc.record({ type: fc.constant("array"), items: fc.oneof(schemaOf(depth - 1), broken(depth - 1)) }), fc.record({ anyOf: fc.array(schemaOf(depth - 1), { minLength: 2, maxLength: 3 }) }), fc.record({ anyOf: fc.tuple(fc.constant({ type: "string" }), fc.constant({ type: "number" }), fc.constant(null)) }), fc.record({ allOf: fc.array(fc.oneof(schemaOf(depth - 1), broken(depth - 1)), { minLength: 1, maxLength: 2 }) }), fc.record({ oneOf: fc.tuple(schemaOf(depth - 1), schemaOf(depth - 1)) })) : fc.constantFrom({ type: "string" }, { type: "number", description: "n" }, { $ref: "#/components/schemas/S" }, { enum: ["a", null] }, { type: "string", nullable: true }));
const broken = (depth) => fc.tuple(schemaOf(depth).filter((s) => !s.anyOf && !s.oneOf), fc.constantFrom("anyOf", "oneOf"), fc.boolean(), fc.boolean()).map(([s, k, first, desc]) => ({ ...(desc ? { title: "x" } : {}), [k]: first ? [null, s] : [s, null] }));
const schema = fc.oneof(schemaOf(2), broken(1));
const fixed = (v) => { if (Array.isArray(v)) return v.map(fixed); if (v === null || typeof v !== "object") return v; for (const k of ["anyOf", "oneOf"]) if (Array.isArray(v[k]) && v[k].length === 2 && v[k].includes(null)) { const { [k]: pair, ...rest } = v; return fixed({ ...rest, ...pair.find((x) => x !== null), nullable: true }); } return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, fixed(x)])); };
const headers = fc.constantFrom({}, { Deprecation: { schema: { type: "string" } } }, { sunset: { description: "d" } }, { Deprecation: { schema: { type: "string" } }, Sunset: { description: "d" } }, { SUNSET: {}, "X-A": {}, deprecation: {} });
const operation = fc.record({ tags: rare(fc.array(fc.constantFrom("A", "B"), { maxLength: 2 }), 2), summary: rare(fc.oneof(WORD, fc.constantFrom("Old. Will be removed after 2026", "This WILL BE REMOVED")), 1), operationId: rare(fc.constantFrom("x", "y"), 2), parameters: rare(fc.array(fc.oneof(fc.record({ name: fc.constantFrom("p", "q"), in: fc.constantFrom("query", "path", "header"), schema }), fc.constant({ $ref: "#/components/parameters/P" })), { maxLength: 2 }), 2), headers, schema: rare(schema, 1), security: rare(fc.constantFrom([], [{ api_key: [] }]), 1), deprecated: rare(fc.constantFrom(true, false), 4) })
  .map(({ headers: h, schema: s, ...o }) => clean({ ...o, responses: { 200: { description: "r", ...(Object.keys(h).length ? { headers: h } : {}), ...(s ? { content: { "application/json": { schema: s } } } : {}) } } }));
const METHODS = ["get", "put", "post", "delete", "patch", "trace", "head", "options"], PATHS = ["/a", "/a/{b}", "/c.json", "/__proto", "/d"];
const SOURCES = ["beta", "g1", "g2", "g3", "app"];
const world = fc.record({ ops: fc.array(fc.record({ from: fc.constantFrom(...SOURCES, "app"), path: fc.constantFrom(...PATHS), method: fc.oneof({ weight: 3, arbitrary: fc.constantFrom("get", "post", "put") }, fc.constantFrom(...METHODS)), o: operation }), { minLength: 1, maxLength: 8 }), empty: fc.array(fc.tuple(fc.constantFrom(...SOURCES), fc.constantFrom(...PATHS), rare(fc.constant("about"), 2)), { maxLength: 2 }), schemas: fc.array(fc.tuple(fc.constantFrom(...SOURCES), fc.constantFrom("S", "U", "V", "W"), schema), { maxLength: 4 }), info: fc.array(fc.record({ description: rare(WORD, 1), termsOfService: rare(fc.constant("https://own"), 3) }), { minLength: 5, maxLength: 5 }), tags: fc.array(fc.array(fc.constantFrom("A", "B", "C", "Z"), { maxLength: 2 }), { minLength: 5, maxLength: 5 }), extras: fc.array(fc.boolean(), { minLength: 5, maxLength: 5 }) });
function documents(w) {
  const seen = new Set(), used = new Set(), docs = {};
  SOURCES.forEach((s, i) => { docs[s] = { openapi: "3.0.1", info: clean({ title: `title of ${s}`, version: "1", ...w.info[i] }), paths: {}, ...(w.tags[i].length ? { tags: [...new Set(w.tags[i])].map((name) => ({ name, description: `about ${name}` })) } : {}), ...(w.extras[i] ? { servers: [{ url: `https://${s}.example` }], security: [{ api_key: [] }] } : {}) }; });
  for (const [s, p, summary] of w.empty) { docs[s].paths[p] ??= {}; if (summary) docs[s].paths[p].summary = summary; }
  for (const { from, path, method, o } of w.ops) { const k = `${path} ${method}`; if (seen.has(k)) continue; seen.add(k); (docs[from].paths[path] ??= {})[method] = o; }
  for (const [s, name, x] of w.schemas) { if (used.has(name)) continue; used.add(name); ((docs[s].components ??= {}).schemas ??= {})[name] = x; }
  SOURCES.forEach((s, i) => { if (w.extras[i]) (docs[s].components ??= {}).securitySchemes = { api_key: { type: "apiKey", name: "x-api-key", in: "header" } }; });
  return docs;
}
function joined(docs, c) {
  const apis = JSON.parse(c.APIGW_APPS), list = [...(c.APP_BETA_URL ? ["beta"] : []), ...apis, ...(c.APP_URL ? ["app"] : [])], out = { openapi: "3.0.1", info: {}, paths: {} };
  for (const s of list) {
    const d = apis.includes(s) ? fixed(docs[s]) : docs[s]; Object.assign(out.info, d.info);
    for (const [p, item] of Object.entries(d.paths)) out.paths[p] = { ...out.paths[p], ...item };
    for (const [k, v] of Object.entries(d.components ?? {})) { out.components ??= {}; out.components[k] = { ...out.components[k], ...v }; }
    for (const t of d.tags ?? []) if (!(out.tags ??= []).some((x) => x.name === t.name)) out.tags.push(t);
  }
  if (c.HOST) out.servers = [{ url: c.HOST }]; if (c.TITLE) out.info.title = c.TITLE; if (c.DESCRIPTION) out.info.description = c.DESCRIPTION; if (c.TERMS_OF_SERVICE) out.info.termsOfService = c.TERMS_OF_SERVICE; if (c.CONTACT_NAME && c.CONTACT_URL) out.info.contact = { name: c.CONTACT_NAME, url: c.CONTACT_URL }; if (c.LICENSE_NAME && c.LICENSE_URL) out.info.license = { name: c.LICENSE_NAME, url: c.LICENSE_URL };
  if (c.REMOVESECURITY === "true" && out.components) delete out.components.securitySchemes;
  for (const [p, item] of Object.entries(out.paths)) {
    const ops = Object.keys(item).filter((m) => METHODS.includes(m) && m !== "head" && m !== "options"); if (!ops.length) { delete out.paths[p]; continue; } const to = {}; if (item.summary) to.summary = item.summary;
    for (const m of ops) { const o = { ...item[m] }, h = Object.keys(o.responses[200].headers ?? {}).map((x) => x.toLowerCase()); if (/will be removed/i.test(o.summary ?? "") || (h.includes("deprecation") && h.includes("sunset"))) o.deprecated = true; if (c.REMOVESECURITY === "true") delete o.security; to[m] = o; }
    out.paths[p] = to;
  }
  return out;
}
const sorted = (d) => ({ ...d, ...(d.tags ? { tags: [...d.tags].sort((a, b) => (a.name < b.name ? -1 : 1)) } : {}) });
// runs the page's script: what it shows, for the query given
function shown(js, search) {
  const made = [], html = {}, g = { URLSearchParams, window: { location: { search } }, document: { querySelector: () => html }, SwaggerUIStandalonePreset: [1, 2], SwaggerUIBundle: Object.assign((o) => (made.push(o), {}), { presets: {}, plugins: {} }) };
  vm.runInNewContext(js, g); g.window.onload?.(); return { made, html: html.innerHTML };
}

await check({
  rule: "a document is non-trivial if two sources contribute operations to it; a history of versions if one is created",
  assumptions: ["an operation, a component and a setting of the paths belongs to one source; the title, description and terms of the last source that has them count", "the documents are valid OpenAPI 3.0 without extensions", "six configurations of the stack stand for all: the module reads its environment when it is loaded"],
}, async ({ prop }) => {
  await prop("joined", fc.record({ i: fc.nat(CONFIGS.length - 1), w: world, fault: rare(fc.constantFrom("gateway", "nobody", "app", "invalid", "notjson", "put0", "put1"), 6), query: fc.constantFrom("?url=https://evil", "?spec=x", "?urls=x", "?configUrl=https://evil/c", "?a=1&configUrl=x") }), async ({ i, w, fault, query }) => {
    const c = CONFIGS[i], docs = documents(w), files = {}; let hit = false, puts = 0;
    gateway = (name, input) => { same([name, input.stageName, input.exportType], ["GetExportCommand", "prod", "oas30"], "what is asked of API Gateway"); if (fault === "gateway") { hit = true; throw new Error("refused"); } if (fault === "nobody") { hit = true; return {}; } let text = JSON.stringify(docs[input.restApiId]); if (fault === "invalid") { hit = true; text = JSON.stringify({ ...docs[input.restApiId], openapi: "2.0" }); } if (fault === "notjson") { hit = true; text = "<html>"; } return { body: Uint8Array.from(Buffer.from(text)) }; };
    web = async (req) => { const from = req.url === APP ? "app" : "beta"; must(req.url === (from === "app" ? c.APP_URL : c.APP_BETA_URL), `asked for ${req.url}`); if (fault === "app") { hit = true; return new Response("no", { status: 404 }); } return new Response(JSON.stringify(docs[from]), { headers: { "content-type": "application/json" } }); };
    bucket = (name, input) => { same([name, input.Bucket], ["PutObjectCommand", `bucket-${i}`], "what is asked of S3"); if (fault === `put${puts++}`) { hit = true; throw new Error("no space"); } files[input.Key] = input; return {}; };
    const r = await quiet(() => handlers[i]()); if (hit) { must("error" in r, `nothing is said of a failure: ${fault}`); if (!/^put/.test(fault)) same(Object.keys(files), [], `files written although ${fault}`); return "failing"; }
    must(!("error" in r), `fails: ${r.error?.message}`); const dir = c.DIRECTORY ? `${c.DIRECTORY}/` : ""; same(Object.keys(files).sort(), [`${dir}dt-swagger.js`, `${dir}openapi.json`], "the files written");
    const json = files[`${dir}openapi.json`], doc = JSON.parse(json.Body), want = joined(docs, c); same(json.ContentType, "application/json", "content type of the document"); same(json.ACL, "private", "who may read the document");
    alike(sorted(doc), sorted(clean(want)), "the document joined");
    const page = shown(files[`${dir}dt-swagger.js`].Body, ""); same(page.made.length, 1, "how many documents the page shows"); same(clean(page.made[0].spec), doc, "the document the page shows"); const other = shown(files[`${dir}dt-swagger.js`].Body, query); same(other.made.length, 0, `documents shown for ${query}`); must(/not supported/.test(other.html ?? ""), `what is shown for ${query}`);
    const contributing = SOURCES.filter((s) => (JSON.parse(c.APIGW_APPS).includes(s) || (s === "app" && c.APP_URL) || (s === "beta" && c.APP_BETA_URL)) && Object.values(docs[s].paths).some((p) => Object.keys(p).length)).length; return contributing > 1 && (contributing > 2 ? "many" : "two");
  }, { runs: 1500, thorough: 12000, needs: handlers });

  const versionName = fc.oneof({ weight: 4, arbitrary: fc.integer({ min: 1, max: 40 }).map(String) }, fc.constantFrom("a3f8b2c1", "12345678", "9", "10", "099", "1e3", "-4", "1.5", ""), fc.integer({ min: 1, max: 3 }).map((n) => `v${n}`));
  await prop("versions", fc.record({ apis: fc.uniqueArray(fc.constantFrom("g1", "g2", "g3"), { minLength: 1, maxLength: 3 }), plain: fc.boolean(), have: fc.array(fc.option(fc.array(versionName, { maxLength: 5 }), { nil: undefined, freq: 5 }), { minLength: 3, maxLength: 3 }), runs: fc.integer({ min: 1, max: 3 }), now: fc.integer({ min: 1.7e12, max: 1.9e12 }) }), async (o) => {
    process.env.APIGW_IDS = JSON.stringify(o.apis); process.env.REGION = "eu-west-1"; const state = new Map(o.apis.map((a, i) => [a, o.have[i] && (o.plain ? o.have[i].filter((v) => /^\d+$/.test(v)) : [...o.have[i]])])), before = new Map([...state].map(([k, v]) => [k, v && v.length])); let made = 0;
    gateway = (name, input) => { if (name === "GetDocumentationVersionsCommand") { const v = state.get(input.restApiId); return v ? { items: [...v].map((version) => ({ version })) } : {}; } same([name, input.stageName], ["CreateDocumentationVersionCommand", "prod"], "what is asked of API Gateway"); const v = state.get(input.restApiId), x = input.documentationVersion; must(v && /^\d+$/.test(x) && !v.includes(x), `version ${x} of ${input.restApiId}, which has ${show(v)}`); if (v.every((y) => /^\d+$/.test(y))) same(x, String(Math.max(0, ...v.map(Number)) + 1), `the next version after ${show(v)}`); v.push(x); made++; return {}; };
    for (let n = 0; n < o.runs; n++) { const c = fakeClock(o.now + n * 1000, ["Date"]); let r; try { r = await outcome(() => updateVersions()); } finally { c.uninstall(); } must(!("error" in r), `fails: ${r.error?.message}`); }
    for (const [a, v] of state) same(v?.length, v && before.get(a) + o.runs, `versions of ${a}`);
    return made > 0 && (o.plain ? "numbers" : "mixed");
  }, { runs: 400, thorough: 3000, needs: [updateVersions] });
});
