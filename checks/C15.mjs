// C15: canaries fail exactly when what they watch is broken, and are set up to watch it.
import { check, fc, must, same, alike, show, outcome, throwsSync } from "#harness";
import { PgServer } from "#harness/pgserver.mjs";
import { PassThrough } from "node:stream";
import zlib from "node:zlib";
import fs from "node:fs";
import { App, Duration } from "aws-cdk-lib";
import { Template } from "aws-cdk-lib/assertions";
import { MockIntegration } from "aws-cdk-lib/aws-apigateway";
import { Schedule } from "aws-cdk-lib/aws-events";
import { APIGatewayClient } from "@aws-sdk/client-api-gateway";
import { SecretsManager } from "@aws-sdk/client-secrets-manager";
import * as UC from "#repo/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts";
import * as DC from "#repo/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts";
import * as UCan from "#repo/lib/digitraffic-common/src/aws/infra/canaries/url-canary.ts";
import * as DCan from "#repo/lib/digitraffic-common/src/aws/infra/canaries/database-canary.ts";
import * as CR from "#repo/lib/digitraffic-common/src/aws/infra/canaries/canary-role.ts";
import * as S from "#repo/lib/digitraffic-common/src/aws/infra/stack/stack.ts";
import * as R from "#repo/lib/digitraffic-common/src/aws/infra/stack/rest-api.ts";

const JPEG = "image/jpeg", OLD = { forJson: "application/json", forGeojson: "application/geo+json;charset=UTF-8", forCSV: "text/csv", forJpeg: "image/jpeg" };
const JSONT = "application/json", GEO = "application/geo+json;charset=UTF-8", CSV = "text/csv", TXT = "text/plain";
/** Synthetics as documented: a step gets the response, fails when its callback does, and reports to the caller. */
function synthetics(respond, log) {
  const conf = new Proxy({}, { get: (_t, k) => (...a) => { log.config.push([k, ...a]); return conf; } });
  return {
    getConfiguration: () => conf,
    executeHttpStep: async (name, options, callback) => { log.steps.push({ name, options }); const res = respond(options); if (callback) await callback(res); else if (res.statusCode > 299) throw new Error("status"); },
    executeStep: async (name, fn, config) => { log.steps.push({ name, config }); for (let i = 0; i < (log.delay ?? 0); i++) await new Promise((r) => setImmediate(r)); try { return await fn(); } catch (e) { log.failed.push(name); if (!config?.continueOnStepFailure) throw e; } },
  };
}
function responseOf(r) {
  const s = new PassThrough(); s.statusCode = r.status; s.statusMessage = "message";
  s.headers = { ...(r.type ? { "content-type": r.type } : {}), ...(r.cors ? { "access-control-allow-origin": "*" } : {}), ...(r.gzip ? { "content-encoding": "gzip" } : {}), ...(r.extra ? { "x-extra": "yes" } : {}) };
  const raw = r.gzip ? zlib.gzipSync(r.body) : Buffer.from(r.body);
  setImmediate(() => { let at = 0; for (const n of r.chunks) { if (at >= raw.length) break; s.write(raw.subarray(at, at + n)); at += n; } s.end(raw.subarray(at)); });
  return s;
}
const geoOk = { type: "FeatureCollection", features: [{ type: "Feature", properties: {}, geometry: { type: "Point", coordinates: [25, 60] } }] };
const value = fc.oneof(fc.jsonValue({ maxDepth: 2 }), fc.array(fc.string({ unit: "grapheme", maxLength: 8 }), { maxLength: 5 }));
const body = fc.oneof({ weight: 5, arbitrary: value.map((v) => JSON.stringify(v)) }, { weight: 3, arbitrary: fc.constant(JSON.stringify(geoOk)) }, fc.constantFrom(JSON.stringify({ type: "Feature", properties: {}, geometry: null }), JSON.stringify({ type: "FeatureCollection", features: [{ type: "Feature", geometry: { type: "Point", coordinates: [1] }, properties: {} }] }), "{broken", "", "a,b\n1,ä"));
const response = fc.record({ status: fc.oneof({ weight: 6, arbitrary: fc.constant(200) }, fc.constantFrom(201, 202, 204, 206, 301, 302, 304, 400, 403, 404, 500, 503)), type: fc.oneof({ weight: 6, arbitrary: fc.constantFrom(JSONT, GEO) }, fc.constantFrom(CSV, TXT, JPEG, "application/json;charset=UTF-8", undefined)), cors: fc.oneof({ weight: 7, arbitrary: fc.constant(true) }, fc.constant(false)), gzip: fc.boolean(), extra: fc.boolean(), body, chunks: fc.array(fc.integer({ min: 1, max: 9 }), { maxLength: 12 }) });
const checker = fc.oneof(
  fc.record({ k: fc.constant("type"), type: fc.constantFrom(JSONT, GEO, CSV) }), fc.record({ k: fc.constant("json"), fails: fc.boolean() }), fc.record({ k: fc.constant("body"), fails: fc.boolean() }),
  fc.record({ k: fc.constant("geo"), fails: fc.constantFrom(false, false, true) }), fc.record({ k: fc.constantFrom("has", "hasNot"), name: fc.constantFrom("x-extra", "content-type") }), fc.record({ k: fc.constant("old"), type: fc.constantFrom(...Object.keys(OLD)), how: fc.constantFrom("fn", "json", "none"), fails: fc.boolean() }), fc.record({ k: fc.constant("own"), how: fc.constantFrom("ok", "throw", "reject", "late") }),
);
const parses = (b) => !throwsSync(() => JSON.parse(b)).error;
const geoFine = (b) => b === JSON.stringify(geoOk);
const SURE_GEO = (b) => geoFine(b) || !b.includes("FeatureCollection") || b.includes('"coordinates":[1]');
function build(c, seen) {
  const see = (b, res) => { seen.push(b); must(res?.statusCode !== undefined, "the check is given the response"); };
  if (c.k === "type") return UC.ContentTypeChecker.checkContentType(c.type);
  if (c.k === "json") return UC.ContentChecker.checkJson((j, b, res) => { see(b, res); same(JSON.stringify(j), JSON.stringify(JSON.parse(b)), "parsed body"); if (c.fails) throw new Error("check failed"); });
  if (c.k === "body") return UC.ContentChecker.checkResponse((b, res) => { see(b, res); if (c.fails) throw new Error("check failed"); });
  if (c.k === "geo") return UC.GeoJsonChecker.validFeatureCollection(c.fails ? () => { throw new Error("check failed"); } : undefined);
  if (c.k === "has") return UC.HeaderChecker.checkHeaderExists(c.name);
  if (c.k === "hasNot") return UC.HeaderChecker.checkHeaderMissing(c.name);
  if (c.k === "old" && c.how === "none") return UC.ResponseChecker[c.type]().check();
  if (c.k === "old" && c.how === "json") return UC.ResponseChecker[c.type]().checkJson((j, b, res) => { see(b, res); same(JSON.stringify(j), JSON.stringify(JSON.parse(b)), "parsed body"); if (c.fails) throw new Error("check failed"); });
  if (c.k === "old") return UC.ResponseChecker[c.type]().responseChecker((b, res) => { see(b, res); if (c.fails) throw new Error("check failed"); });
  return { ok: async () => {}, throw: () => { throw new Error("own"); }, reject: () => Promise.reject(new Error("own")), late: async () => { await new Promise((r) => setImmediate(r)); await new Promise((r) => setImmediate(r)); throw new Error("own"); } }[c.how];
}
const ok2xx = (r) => r.status >= 200 && r.status <= 299;
function passes(c, r) {
  if (c.k === "type") return ok2xx(r) && r.cors && r.type === c.type;
  if (c.k === "json") return parses(r.body) && !c.fails;
  if (c.k === "body") return !c.fails;
  if (c.k === "geo") return ok2xx(r) && r.cors && r.type === GEO && parses(r.body) && geoFine(r.body) && !c.fails;
  if (c.k === "has" || c.k === "hasNot") return (c.k === "has") === (c.name === "x-extra" ? r.extra : !!r.type);
  if (c.k === "old") return ok2xx(r) && r.cors && r.type === OLD[c.type] && (c.how === "none" || !c.fails) && (c.how !== "json" || parses(r.body));
  return c.how === "ok";
}
const url = fc.oneof(fc.constantFrom("/api/v1/things", "/api/x?auth=secret&b=1", "/a?b=ä&c=%20", "/a/b?x=1&auth=topsecret", "/a?user_auth=secret", "/a;auth=secret1?b=2"), fc.webPath().map((p) => `/${p}`));
const stepName = (n, secret) => { must(/^[A-Za-z0-9\-_. ]+$/.test(n), () => `step name ${n}`); must(!/secret/.test(n), "a secret is in the name of a step"); };
APIGatewayClient.prototype.send = async function (cmd) { return { id: cmd.input.apiKey, value: cmd.input.includeValue ? `value-of-${cmd.input.apiKey}` : undefined }; };

const srv = await new PgServer().start();
SecretsManager.prototype.getSecretValue = async () => ({ SecretString: JSON.stringify({ username: "u", password: "p", proxy_host: "127.0.0.1:1/none", proxy_ro_host: `127.0.0.1:${srv.port}/db`, host: "127.0.0.1:1/none", ro_host: `127.0.0.1:${srv.port}/db` }) });
fs.mkdirSync("dist/nodejs/node_modules", { recursive: true }); for (const n of ["things", "things-db", "other"]) fs.writeFileSync(`dist/nodejs/node_modules/${n}.js`, "exports.handler=()=>{}"); fs.writeFileSync("dist/x.js", "1");
const of = (t, type) => Object.entries(t.toJSON().Resources).filter(([, r]) => r.Type === type).map(([id, r]) => ({ id, p: r.Properties ?? {}, r }));
const flat = (v) => (typeof v === "string" ? v : v?.["Fn::Join"] ? v["Fn::Join"][1].map(flat).join(v["Fn::Join"][0]) : v?.Ref ? `<${v.Ref}>` : v?.["Fn::GetAtt"] ? `<${v["Fn::GetAtt"].join(".")}>` : JSON.stringify(v));

await check({
  rule: "generated responses (status, headers, compression, chunking) and checks, and generated row counts and step timing over the wire, run through a model of the Synthetics runtime and compared with the verdict the documentation gives; non-trivial: a canary that has to fail, a compressed body or several checks",
  assumptions: ["Synthetics gives the callback the response and fails the step exactly when the callback fails; executeStep is asynchronous", "bodies are UTF-8 and checks do not consume the response themselves"],
}, async ({ prop }) => {
  await prop("an URL canary succeeds exactly when the response is right", fc.record({ url, response, checkers: fc.oneof({ weight: 5, arbitrary: fc.array(checker, { maxLength: 4 }) }, { weight: 1, arbitrary: fc.array(checker, { minLength: 5, maxLength: 9, size: "max" }) }), via: fc.constantFrom("create", "createV2", "new") }), async (c) => {
    if (c.checkers.some((k) => k.k === "geo") && parses(c.response.body) && !SURE_GEO(c.response.body)) return false;
    const log = { steps: [], config: [], failed: [] }; globalThis.__synthetics = synthetics(() => responseOf(c.response), log);
    Object.assign(process.env, { hostname: "host.example", apiKeyId: "kid" });
    const u = c.via === "create" ? await UC.UrlChecker.create("host.example", "kid") : c.via === "createV2" ? await UC.UrlChecker.createV2() : new UC.UrlChecker("host.example", "value-of-kid");
    const seen = [], { error } = await outcome(() => u.expect200(c.url, ...c.checkers.map((k) => build(k, seen))));
    if (error?.name === "Violation") throw error;
    same(!error, c.response.status === 200 && c.checkers.every((k) => passes(k, c.response)), `canary succeeded: ${error?.message}`);
    for (const b of seen) same(b, c.response.body, "body given to the check");
    same(log.steps.length, 1); const { name, options } = log.steps[0]; stepName(name);
    alike({ h: options.hostname, p: options.path, m: options.method, s: options.protocol, k: options.headers["x-api-key"], u: options.headers["Digitraffic-User"] }, { h: "host.example", p: c.url, m: "GET", s: "https:", k: "value-of-kid", u: "internal-digitraffic-canary" }, "request");
    for (const k of ["withIncludeRequestBody", "withIncludeRequestHeaders", "withIncludeResponseBody", "withIncludeResponseHeaders"]) same(log.config.filter((x) => x[0] === k).at(-1), [k, false], "nothing secret is stored");
    same(u.done(), "Canary successful");
    return c.checkers.length > 0;
  }, { runs: 1500, thorough: 60000, needs: [UC.UrlChecker] });

  await prop("refusals are recognised", fc.record({ url, response, type: fc.constantFrom(TXT, JSONT, CSV), what: fc.constantFrom("expect404", "expect400", "expect403WithoutApiKey", "expectStatus"), status: fc.constantFrom(404, 400, 403, 200), media: fc.option(fc.constantFrom(TXT, CSV), { nil: undefined }), right: fc.boolean(), key: fc.boolean() }), async (c) => {
    const code = { expect404: 404, expect400: 400, expect403WithoutApiKey: 403, expectStatus: c.status }[c.what];
    const need = c.what === "expect403WithoutApiKey" ? c.media ?? JSONT : TXT;
    const r = c.right ? { ...c.response, status: code, type: need } : { ...c.response, status: c.status, type: c.type };
    const log = { steps: [], config: [], failed: [] }; globalThis.__synthetics = synthetics(() => responseOf(r), log);
    const u = new UC.UrlChecker("h", c.key ? "the-key" : undefined);
    let given = 0;
    const { error } = await outcome(() => (c.what === "expectStatus" ? u.expectStatus(code, c.url, async () => { given++; }) : u[c.what](c.url, ...(c.media && c.what === "expect403WithoutApiKey" ? [c.media] : []))));
    same(!error, r.status === code && (c.what === "expectStatus" || r.type === need), `${c.what}: ${r.status} ${r.type}`);
    if (c.what === "expectStatus" && !error) same(given, 1, "the check was run");
    const { name, options } = log.steps[0]; stepName(name); same(options.path, c.url);
    same(Object.keys(options.headers).some((k) => k.toLowerCase() === "x-api-key"), c.key && c.what !== "expect403WithoutApiKey", "API key sent");
    // the next request has its key again
    await outcome(() => u.expect404(c.url)); same("x-api-key" in log.steps[1].options.headers, c.key, "API key of the next request");
    return true;
  }, { runs: 800, thorough: 30000, needs: [UC.UrlChecker] });

  const dbCheck = fc.record({ what: fc.constantFrom("expectOne", "expectZero", "expectOneOrMore"), count: fc.oneof({ weight: 4, arbitrary: fc.constantFrom(0, 1) }, fc.integer({ min: 2, max: 10 ** 9 })) });
  const holds = (k) => ({ expectOne: k.count === 1, expectZero: k.count === 0, expectOneOrMore: k.count >= 1 })[k.what];
  await prop("a database canary succeeds exactly when every count is right", fc.record({ checks: fc.array(fc.oneof(dbCheck, dbCheck.map((k) => ({ ...k, count: { expectOne: 1, expectZero: 0, expectOneOrMore: 1 + (k.count % 50) }[k.what] }))), { maxLength: 14 }), delay: fc.integer({ min: 0, max: 3 }), rds: fc.boolean(), fault: fc.constantFrom(undefined, undefined, undefined, "error", "noCount", "noRow"), at: fc.nat(4) }), async (c) => {
    const log = { steps: [], config: [], failed: [], delay: c.delay }; globalThis.__synthetics = synthetics(() => {}, log); process.env.SECRET_ID = "sid";
    srv.reset();
    const fault = c.checks.length ? c.fault : undefined, at = c.checks.length ? c.at % c.checks.length : 0;
    srv.handler = (sql) => { const m = /count\(\*\) from t(\d+)/i.exec(sql); if (!m) return {}; const i = Number(m[1]); if (fault && i === at) return fault === "error" ? { error: { code: "42P01", message: "no table" } } : { fields: [{ name: fault === "noCount" ? "total" : "count", oid: 20 }], rows: fault === "noRow" ? [] : [["1"]] }; return { fields: [{ name: "count", oid: 20 }], rows: [[String(c.checks[i].count)]] }; };
    const d = c.rds ? DC.DatabaseCountChecker.createForRds() : DC.DatabaseCountChecker.createForProxy();
    c.checks.forEach((k, i) => { const sql = i % 2 ? `SELECT COUNT(*) FROM T${i}` : `select count(*) from t${i}`; must(d[k.what](`check ${i}`, sql) === d, "chainable"); });
    const { value, error } = await outcome(() => d.expect());
    const right = c.checks.length > 0 && !fault && c.checks.every(holds);
    same(!error, right, `canary succeeded with counts ${show(c.checks.map((k) => [k.what, k.count]))} ${fault ?? ""}: ${error?.message}`);
    if (right) same(value, "OK");
    if (!c.checks.length) same(srv.conns.length, 0, "nothing to check");
    if (!fault) same(log.steps.map((s) => s.name), c.checks.map((_, i) => `check ${i}`), "every check is a step of its own");
    if (!fault) same(log.failed, c.checks.flatMap((k, i) => (holds(k) ? [] : [`check ${i}`])), "failed steps");
    const writes = srv.conns.flatMap((x) => x.queries).filter((q) => !/^\s*(select|discard)/i.test(q)); same(writes, [], "only reads");
    return c.checks.length > 1 || !right;
  }, { runs: 350, thorough: 8000, needs: [DC.DatabaseCountChecker], examples: [false, true].map((right) => ({ checks: Array.from({ length: 24 }, (_, i) => ({ what: i % 2 ? "expectOne" : "expectOneOrMore", count: i === 23 && !right ? 0 : 1 })), delay: 0, rds: false, fault: undefined, at: 0 })) });

  await prop("only counting statements are accepted", fc.record({ sql: fc.constantFrom("select * from t", "delete from t", "select count(*) from t", "SELECT Count(id) from t where x", "count", ""), what: fc.constantFrom("expectOne", "expectZero", "expectOneOrMore") }), (c) => {
    globalThis.__synthetics = synthetics(() => {}, { steps: [], config: [], failed: [] });
    const d = DC.DatabaseCountChecker.createForRds(); const r = throwsSync(() => d[c.what]("n", c.sql));
    same(!r.error, /select/i.test(c.sql) && /count/i.test(c.sql)); same(d.checks.length, r.error ? 0 : 1);
    return true;
  }, { runs: 60, thorough: 100, needs: [DC.DatabaseCountChecker] });

  const stackOf = (c) => new S.DigitrafficStack(new App(), "St", { shortName: "Road", production: c.production, trafficType: null, alarmTopicArn: "arn:aws:sns:eu-west-1:1:alarm", warningTopicArn: "arn:aws:sns:eu-west-1:1:warn", secretId: c.secret ? "the-secret" : undefined, ...(c.vpc ? { vpcId: "vpc-1", privateSubnetIds: ["subnet-a", "subnet-b"], availabilityZones: ["a", "b"], lambdaDbSgId: "sg-db" } : {}), stackProps: { env: { account: "123456789012", region: "eu-west-1" } } });
  const alarm = fc.option(fc.record({ alarmName: fc.option(fc.constant("own-alarm"), { nil: undefined }), description: fc.option(fc.constant("why"), { nil: undefined }), evalutionPeriods: fc.option(fc.integer({ min: 1, max: 3 }), { nil: undefined }), threshold: fc.option(fc.constantFrom(50, 90), { nil: undefined }), topicArn: fc.option(fc.constant("arn:aws:sns:eu-west-1:1:own"), { nil: undefined }) }), { nil: undefined });
  await prop("a canary is set up to watch, and to raise its alarm", fc.record({ production: fc.boolean(), secret: fc.constantFrom(true, true, false), vpc: fc.constantFrom(true, true, false), how: fc.constantFrom("url", "url", "db", "dbV2", "dbV2"), keys: fc.integer({ min: 0, max: 2 }), inVpc: fc.boolean(), canaryName: fc.constantFrom(undefined, "other"), alarm, minutes: fc.constantFrom(undefined, 5, 60), env: fc.option(fc.constant({ EXTRA: "1", hostname: "own" }), { nil: undefined }), hostname: fc.constantFrom(undefined, "given.example"), reads: fc.boolean(), vpcRole: fc.boolean() }), (c) => {
    const stack = stackOf(c), role = new CR.DigitrafficCanaryRole(stack, "x"); if (c.vpcRole) must(role.withVpcAccess() === role, "chainable"); const info = console.info; console.info = () => {};
    let apiKeys = [];
    const extra = { ...(c.alarm ? { alarm: c.alarm } : {}), ...(c.minutes ? { schedule: Schedule.rate(Duration.minutes(c.minutes)) } : {}), ...(c.env ? { canaryEnv: c.env } : {}) };
    const r = throwsSync(() => {
      if (c.how === "url") {
        const api = new R.DigitrafficRestApi(stack, "api", "API"); api.root.addMethod("GET", new MockIntegration());
        for (let i = 0; i < c.keys; i++) api.createUsagePlanV2(`K${i}`); apiKeys = api.apiKeyIds.map((k) => stack.resolve(k));
        UCan.UrlCanary.create(stack, role, api, { name: "things", ...extra, ...(c.hostname ? { hostname: c.hostname } : {}), ...(c.inVpc ? { inVpc: true } : {}), ...(c.reads && c.secret ? { secret: "the-secret" } : {}) }, ...(c.reads && c.secret ? [stack.getSecret()] : []));
      } else if (c.how === "db") DCan.DatabaseCanary.create(stack, role.withDatabaseAccess(), { name: "things", handler: "things-db.handler", ...extra });
      else DCan.DatabaseCanary.createV2(stack, role.withDatabaseAccess(), "things", extra, ...(c.canaryName ? [c.canaryName] : []));
      return Template.fromStack(stack);
    });
    console.info = info;
    if (c.how !== "url" && !c.secret) { must(r.error, "a database canary without a secret"); return "refused"; }
    must(!r.error, () => `refused: ${r.error?.stack}`);
    const t = r.value, [can] = of(t, "AWS::Synthetics::Canary"), p = can.p, base = c.how === "dbV2" && c.canaryName ? c.canaryName : "things";
    same(p.Name, `${base}-${c.how === "url" ? "url" : "db"}`, "name");
    same(p.Code.Handler, c.how === "url" ? "things.handler" : "things-db.handler", "handler");
    const minutes = c.minutes ?? (c.how === "url" ? 15 : 60); same(p.Schedule.Expression, minutes === 60 ? "rate(1 hour)" : `rate(${minutes} minutes)`, "schedule");
    const env = Object.fromEntries(Object.entries(p.RunConfig?.EnvironmentVariables ?? {}).map(([k, v]) => [k, flat(v)]));
    const apiId = of(t, "AWS::ApiGateway::RestApi")[0]?.id;
    alike(env, c.how === "url" ? { hostname: c.hostname ?? `<${apiId}>.execute-api.eu-west-1.amazonaws.com`, ...(apiKeys.length ? { apiKeyId: flat(apiKeys[0]) } : {}), ...(c.reads && c.secret ? { secret: "the-secret" } : {}), ...c.env } : { SECRET_ID: "the-secret", DB_APPLICATION: `Synthetics-${p.Name}`, ...c.env }, "environment");
    const inVpc = c.how === "url" ? c.inVpc : true;
    if (inVpc && c.vpc) alike({ s: p.VPCConfig?.SubnetIds, g: p.VPCConfig?.SecurityGroupIds, v: p.VPCConfig?.VpcId }, { s: ["subnet-a", "subnet-b"], g: ["sg-db"], v: "vpc-1" }, "network"); else if (!inVpc) must(!p.VPCConfig, "no network was asked for");
    const al = of(t, "AWS::CloudWatch::Alarm"); same(al.length, 1, "alarm"); const a = al[0].p;
    const given = c.alarm ?? (c.how === "dbV2" ? { alarmName: base === "things" ? "Road-DB-Alarm" : "other-DB-Alarm", topicArn: "arn:aws:sns:eu-west-1:1:alarm" } : {});
    alike({ n: a.AlarmName, m: a.MetricName, s: a.Namespace, op: a.ComparisonOperator, th: a.Threshold, ev: a.EvaluationPeriods, de: a.AlarmDescription, act: a.AlarmActions ?? [], dim: a.Dimensions.map((d) => [d.Name, d.Value.Ref]) }, { n: given.alarmName ?? `${base}-alarm`, m: "SuccessPercent", s: "CloudWatchSynthetics", op: "LessThanThreshold", th: given.threshold ?? 100, ev: given.evalutionPeriods ?? 1, de: given.description ?? "", act: given.topicArn ? [given.topicArn] : [], dim: [["CanaryName", can.id]] }, "alarm");
    const st = of(t, "AWS::IAM::Policy").flatMap((x) => x.p.PolicyDocument.Statement), can_ = (act) => st.some((s) => s.Effect === "Allow" && [s.Action].flat().includes(act));
    same(can_("secretsmanager:GetSecretValue"), c.how !== "url" || (c.reads && c.secret), "secret access"); same(can_("apigateway:GET"), c.how === "url", "API key access"); must(can_("s3:PutObject") && can_("cloudwatch:PutMetricData"), "results and metrics can be written");
    const arns = of(t, "AWS::IAM::Role").flatMap((x) => x.p.ManagedPolicyArns ?? []).map(flat), inNet = (x) => x.endsWith("service-role/AWSLambdaVPCAccessExecutionRole");
    same(arns.some(inNet), c.how !== "url" || c.vpcRole, "access to the network"); must(arns.some((x) => x.endsWith("CloudWatchSyntheticsFullAccess")), "the role may run canaries");
    return true;
  }, { runs: 110, thorough: 3000, needs: [UCan.UrlCanary, DCan.DatabaseCanary] });
});
await srv.stop();
