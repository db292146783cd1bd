// C31: every behaviour of every distribution gets what it was configured with.
import { check, fc, must, same, show, outcome, capture, fakeClock } from "#harness";
import { buildLambdas, distributions } from "#harness/cloudfront.mjs";
import "#harness/app.mjs";
import { APIGateway, APIGatewayClient } from "@aws-sdk/client-api-gateway";
import { App } from "aws-cdk-lib";
import { Template } from "aws-cdk-lib/assertions";
import { CloudfrontCdkStack } from "#repo/other/cloudfront/src/cloudfront-cdk-stack.ts";
import { Behavior, Origin } from "#repo/other/cloudfront/src/distribution/behavior.ts";
import { WafRules } from "#repo/other/cloudfront/src/acl/waf-rules.ts";

const ssm = { values: {}, calls: [] };
globalThis.__stubs = { "@aws-sdk/client-ssm": { SSM: class { constructor(c) { this.config = c; } async getParameter({ Name }) { ssm.calls.push([this.config.region, Name]); if (ssm.fault) throw ssm.fault; return ssm.values[Name] === undefined ? {} : { Parameter: { Value: ssm.values[Name] } }; } } } };
const gateway = { keys: {}, calls: [] };
APIGateway.prototype.send = APIGatewayClient.prototype.send = async function (cmd) { gateway.calls.push([await this.config.region(), cmd.input]); return cmd.input.includeValue ? { id: cmd.input.apiKey, value: gateway.keys[cmd.input.apiKey] } : { id: cmd.input.apiKey }; };
const { readApiKey } = await import("#repo/other/cloudfront/src/util/apikey-util.ts");
await buildLambdas();
fakeClock(Date.UTC(2026, 10, 19), ["Date"]);

const HOSTS = ["api1.example.fi", "api2.example.fi", "www.example.fi"], KEYS = ["key-a", "key-b"], BUCKETS = ["data", "docs.s3.eu-west-1.amazonaws.com"], VPCS = ["web", "road"];
const IPS = { office: "10.0.0.1,10.0.0.2", lab: "192.168.1.1" };
const LOG = (n) => `arn:aws:kinesis:eu-west-1:123456789012:stream/${n}`;
const clone = (x) => JSON.parse(JSON.stringify(x));
const origins = {}; // an origin may be given to several behaviours
const sharedOrigin = (host, rest) => (origins[host + rest] ??= new Origin("https", host, rest));
// how a behaviour is made; `origin` and `events` say what it should amount to
const kinds = {
  apiGateway: (p, v) => ({ b: v.key ? Behavior.apiGateway(p, { endpointUrl: v.host, apiKey: v.key }) : Behavior.apiGateway(p, v.host), origin: { type: "https", host: v.host, path: "/prod", key: v.key }, events: { "viewer-request": "gzip", "viewer-response": "cors" }, policy: "api-gateway" }),
  apiGatewayPlain: (p, v) => ({ b: v.key ? Behavior.apiGatewayPlain(p, { endpointUrl: v.host, apiKey: v.key }) : Behavior.apiGatewayPlain(p, v.host), origin: { type: "https", host: v.host, path: "/prod", key: v.key }, events: {}, all: true, policy: "api-gateway" }),
  nginx: (p, v) => ({ b: Behavior.nginx(p, v.host), origin: { type: "http", host: v.host }, events: { "viewer-request": "gzip", "viewer-response": "cors" }, policy: "http" }),
  nginxPlain: (p, v) => ({ b: Behavior.nginxPlain(p, v.host), origin: { type: "http", host: v.host }, events: {}, policy: "http" }),
  https: (p, v) => ({ b: new Behavior(p, sharedOrigin(v.host, v.rest)), origin: { type: "https", host: v.host, path: v.rest }, events: {}, policy: "http" }),
  vpcLb: (p, v) => ({ b: Behavior.vpcLb(p, v.vpc), origin: { type: "vpc", name: v.vpc }, events: { "viewer-request": "gzip", "viewer-response": "cors" }, policy: "http" }),
  s3: (p, v) => ({ b: Behavior.s3(p, v.bucket), origin: { type: "s3", bucket: v.bucket }, events: {}, policy: "s3" }),
  swagger: (p, v) => ({ b: Behavior.swagger(p, v.bucket), origin: { type: "s3", bucket: v.bucket }, events: { "viewer-request": "index" }, policy: "s3" }),
  redirect: (_p, v) => ({ b: Behavior.redirect(v.url), path: "*", origin: { type: "https", host: "www.digitraffic.fi" }, events: { "viewer-request": "redirect" }, policy: "http" }),
  weathercam: (p, v) => ({ b: Behavior.s3(p, v.bucket).withWeathercamLambdas("old.example.fi", "store.example.fi"), origin: { type: "s3", bucket: v.bucket }, events: { "origin-request": "weathercam", "origin-response": "image", "viewer-response": "cors" }, policy: "s3" }),
  lam: (p, v) => ({ b: Behavior.s3(p, v.bucket).withLamLambdas("arn:aws:secretsmanager:eu-west-1:123456789012:secret:road-AbCdEf"), origin: { type: "s3", bucket: v.bucket }, events: { "origin-request": "lam", "origin-response": "lamfile", "viewer-response": "cors" }, policy: "s3" }),
};
// changes made to a behaviour afterwards, in any order; each also changes what is expected, or is to be refused
const changes = {
  withoutApiKey: (e) => { e.b.withoutApiKey(); e.origin.key = undefined; },
  key: (e, v) => { e.b.withApiKey(v.key ?? "key-c"); e.origin.key = v.key ?? "key-c"; },
  all: (e) => { e.b.withAllowAllMethods(); e.all = true; },
  ttl: (e, v) => { e.b.withCacheTtl(v.ttl); e.ttl = v.ttl; },
  query: (e, v) => { e.b.withQueryCacheKeys(...v.query); e.query = [...(e.query ?? []), ...v.query]; },
  headers: (e, v) => { e.b.withCacheHeaders(...v.headers); e.headers = [...(e.headers ?? []), ...v.headers]; },
  timeout: (e, v) => { e.b.withReadTimeout(v.timeout); e.timeout = v.timeout; },
  ip: (e, v) => add(e, v.ipAt, `ip:${v.ip}`, () => e.b.withIpRestrictionLambda(v.ip, IPS[v.ip], v.ipAt)),
  noGzip: (e) => { e.b.withoutGzipRequirementLambda(); for (const k of Object.keys(e.events)) if (e.events[k] === "gzip") delete e.events[k]; },
  gzip: (e, v) => add(e, v.ipAt, "gzip", () => (v.ipAt === "viewer-request" ? e.b.withGzipRequirementLambda() : e.b.withGzipRequirementLambda(v.ipAt))),
  cors: (e) => add(e, "viewer-response", "cors", () => e.b.withHttpHeadersLambda()),
  corsFunction: (e) => add(e, "viewer-response", "corsf", () => e.b.withHttpHeadersFunction()),
  index: (e) => add(e, "viewer-request", "index", () => e.b.withIndexHtmlFunction()),
  cut: (e, v) => add(e, "viewer-request", `cut:${v.cut}`, () => e.b.withRemovePathFunction(v.cut)),
  noCors: (e) => { e.b.removeViewerResponseLambda(); if (e.events["viewer-response"] !== "corsf") delete e.events["viewer-response"]; },
  noFunction: (e) => { e.b.removeViewerRequestFunction(); if (/^(index|cut|redirect)/.test(e.events["viewer-request"] ?? "")) delete e.events["viewer-request"]; },
};
function add(e, event, what, make) {
  const r = (() => { try { make(); return undefined; } catch (x) { return x; } })();
  if (e.events[event] || (what.startsWith("ip:") && Object.values(e.events).some((x) => x.startsWith("ip:")))) must(r, () => `${e.path}: a second ${event} ${what} beside ${e.events[event]} was accepted`);
  else { must(!r, () => `${e.path}: ${what} refused: ${r?.stack}`); e.events[event] = what; }
}
const values = fc.record({ host: fc.constantFrom(...HOSTS), key: fc.constantFrom(undefined, ...KEYS), rest: fc.constantFrom(undefined, "/a", "/b"), vpc: fc.constantFrom(...VPCS), bucket: fc.constantFrom(...BUCKETS), url: fc.constant("https://new.example.fi/"), ttl: fc.constantFrom(30, 60, 120, 600), query: fc.uniqueArray(fc.constantFrom("a", "b", "Accept"), { minLength: 1, maxLength: 2 }), headers: fc.uniqueArray(fc.constantFrom("x-api-key", "Authorization", "Accept"), { minLength: 1, maxLength: 2 }), timeout: fc.constantFrom(5, 45, 60), ip: fc.constantFrom("office", "lab"), ipAt: fc.constantFrom("viewer-request", "viewer-request", "origin-request"), cut: fc.integer({ min: 1, max: 3 }) });
const behaviour = fc.record({ kind: fc.constantFrom(...Object.keys(kinds)), v: values, changes: fc.array(fc.tuple(fc.constantFrom(...Object.keys(changes)), values), { maxLength: 3 }) });
const PATHS = ["/api/*", "/api/v1/*", "/swagger/*", "mqtt*", "/img/*.jpg"];
const limit = fc.integer({ min: 50, max: 5000 });
const distribution = fc.record({ first: behaviour, rest: fc.uniqueArray(fc.tuple(fc.constantFrom(...PATHS), behaviour), { selector: (x) => x[0], maxLength: 4 }), at: fc.nat(4), alias: fc.integer({ min: 1, max: 2 }), log: fc.constantFrom(undefined, undefined, "own"), limits: fc.option(fc.tuple(limit, limit, fc.option(limit), fc.option(limit)), { nil: undefined }), root: fc.constantFrom(undefined, "home.html"), logical: fc.constantFrom(undefined, undefined, "OldId"), fault: fc.constantFrom(...Array(12).fill(undefined), "no default", "two defaults", "no behaviours", "same path") });

const event = (req, res) => ({ Records: [{ cf: { config: {}, request: req, ...(res ? { response: res } : {}) } }] });
const REQ = { clientIp: "9.9.9.9", method: "GET", uri: "/x/y/z/", querystring: "", headers: {} };
const RES = { status: "404", headers: {} };
const probes = { // tells from its answers which function this is
  async gzip(run) { const r = await run(event(clone(REQ))); return r.status === "406"; },
  async cors(run) { const r = await run(event(clone(REQ), clone(RES))); return r.status === "404" && !!r.headers["access-control-allow-origin"]; },
  async image(run) { const r = await run(event(clone(REQ), clone(RES))); return r.status === "200" && !!r.body; },
  async lamfile(run) { const r = await run(event(clone(REQ), { status: "200", headers: { "x-api-key": [{ value: "k" }] } })); return !r.headers["x-api-key"] && !r.headers["access-control-allow-origin"]; },
  async weathercam(run) { const r = await run(event({ ...clone(REQ), querystring: "a=1" })); return r.origin?.custom?.domainName === "store.example.fi" && r.headers.host[0].value === "old.example.fi"; },
  async lam(run) { const r = await run(event({ ...clone(REQ), uri: "/ui/tms/history" })); return r.status === "301"; },
  async ip(run, list) { for (const ip of [...Object.values(IPS).flatMap((x) => x.split(",")), "9.9.9.9"]) { const r = await run(event({ ...clone(REQ), clientIp: ip })); if ((r.status !== "403") !== IPS[list].split(",").includes(ip)) return false; } return true; },
  async corsf(run) { const r = run({ request: clone(REQ), response: { statusCode: 200, headers: {} } }); return !!r.headers["access-control-allow-origin"]; },
  async index(run) { return run({ request: clone(REQ) }).uri === "/x/y/z/index.html"; },
  async cut(run, n) { return run({ request: { ...clone(REQ), uri: "/a/b/c/d/e" } }).uri === `/${["a", "b", "c", "d", "e"].slice(Number(n)).join("/")}`; },
  async redirect(run) { const r = run({ request: clone(REQ) }); return r.statusCode === 302 && r.headers.location.value === "https://new.example.fi/"; },
};
const FUNCTIONS = new Set(["corsf", "index", "cut", "redirect"]);
async function functionsOf(g, e, at) {
  same(Object.keys(g.events).sort(), Object.keys(e.events).sort(), `${at}: events`);
  for (const [ev, what] of Object.entries(e.events)) {
    const [name, arg] = what.split(":"), fns = g.events[ev];
    must(fns.length === 1 && fns[0].kind === (FUNCTIONS.has(name) ? "function" : "lambda"), () => `${at}: ${ev} is ${show(fns.map((f) => f.id))}`);
    const r = await outcome(() => probes[name](fns[0].run, arg));
    must(r.value === true, () => `${at}: ${ev} is not ${what}: ${r.error?.stack ?? r.value}`);
  }
}
function cachingOf(g, e, at) {
  const c = g.cachePolicy, p = c.ParametersInCacheKeyAndForwardedToOrigin, ttl = e.ttl ?? 60;
  same([c.DefaultTTL, c.MaxTTL, c.MinTTL], [ttl, ttl, 0], `${at}: cache time`);
  same(p.HeadersConfig.HeaderBehavior === "whitelist" ? [...new Set(p.HeadersConfig.Headers)].sort() : [], [...new Set(e.headers ?? [])].sort(), `${at}: cached by headers`);
  same(p.QueryStringsConfig.QueryStringBehavior === "whitelist" ? [...new Set(p.QueryStringsConfig.QueryStrings)].sort() : p.QueryStringsConfig.QueryStringBehavior, e.query ? [...new Set(e.query)].sort() : "all", `${at}: cached by parameters`);
  must(p.EnableAcceptEncodingGzip === true, `${at}: gzip not cached apart`);
}
const METHODS = { all: ["GET", "HEAD", "OPTIONS", "PUT", "PATCH", "POST", "DELETE"].sort(), read: ["GET", "HEAD", "OPTIONS"].sort() };
const POLICY = { "api-gateway": "b689b0a8-53d0-40ab-baf2-68738e2966ac", s3: "88a5eaf4-2fd4-4709-b370-b4c650ea3fcf", http: "216adef6-5c7f-47e4-b989-5492eafa07d3" }; // all but host, CORS of S3, all of the viewer

const rates = (acl) => acl.Rules.map((r) => r.Statement?.RateBasedStatement?.Limit).filter((x) => x !== undefined).sort((a, b) => a - b);

await check({
  rule: "generated stacks of 1-3 distributions whose behaviours differ in origin, key, time-out, caching and functions, synthesised; each behaviour is read back from the template and its functions are run; non-trivial: a distribution with two behaviours or more, or one to be refused",
  assumptions: ["a name of an IP list stands for one list", "a bucket, a VPC origin and a redirect belong to one distribution of a stack"],
}, async ({ prop }) => {
  await prop("every behaviour gets its own origin, caching and functions", fc.record({ dists: fc.array(distribution, { minLength: 1, maxLength: 3 }), stackLog: fc.boolean(), stackLimits: fc.tuple(limit, limit), reads: fc.boolean() }), async ({ dists, stackLog, stackLimits }) => {
    const app = new App(), stack = new CloudfrontCdkStack(app, "S", { env: { account: "123456789012", region: "us-east-1" } });
    if (stackLog) stack.withLogConfig(LOG("stack"));
    stack.withAclRule(WafRules.per5min(...stackLimits));
    const wanted = []; let several = 0, refused = 0;
    for (const [i, d] of dists.entries()) {
      const list = [["*", d.first], ...d.rest].map(([path, spec], n) => {
        let kind = spec.kind;
        if (n && kind === "redirect") kind = "nginx";
        if (["s3", "swagger", "weathercam", "lam", "vpcLb", "redirect"].includes(kind) && i > 0) kind = "nginx";
        const e = { path, ...kinds[kind](path, spec.v) };
        for (const [name, v] of spec.changes) changes[name](e, v);
        return e;
      });
      const log = d.log ? LOG(`own${i}`) : stackLog ? LOG("stack") : undefined;
      let behaviours = list.map((e) => e.b);
      const at = d.at % behaviours.length; behaviours.splice(at, 0, behaviours.shift()); // the default one is not always first
      if (d.fault === "no default") behaviours = behaviours.filter((b) => b.behaviorPath !== "*");
      if (d.fault === "two defaults") behaviours.push(Behavior.nginxPlain("*", HOSTS[2]));
      if (d.fault === "no behaviours") behaviours = [];
      if (d.fault === "same path") behaviours.push(Behavior.nginxPlain("/twice/*", HOSTS[0]), Behavior.nginxPlain("/twice/*", HOSTS[1]));
      const aliases = [`d${i}.example.fi`, `e${i}.example.fi`].slice(0, d.alias);
      const { error } = await capture(() => stack.withDistribution(`D${i}`, `arn:aws:acm:us-east-1:123456789012:certificate/${i}`, (b) => {
        b.withAliasName(...aliases).withBehaviors(...behaviours);
        for (const v of VPCS) if (i === 0) b.withVpcOrigin(v, `arn:aws:elasticloadbalancing:eu-west-1:123456789012:loadbalancer/app/${v}/1`);
        if (d.log) b.withLogConfig(log);
        if (d.limits) b.withAclRule(WafRules.per5min(...d.limits.map((x) => x ?? undefined)));
        if (d.root) b.withDefaultRootObject(d.root);
        if (d.logical && i === 0) b.withLogicalId(d.logical);
      }));
      if (d.fault || !log) { must(error, () => `D${i} was accepted with ${d.fault ?? "no log"}`); refused++; break; } // the stack is given up
      must(!error, () => `D${i}: ${error?.stack}`);
      several += list.length > 1;
      wanted.push({ i, list, log, aliases, d, limits: d.limits ?? stackLimits });
    }
    if (refused) return "refused";
    const template = Template.fromStack(stack).toJSON();
    const all = distributions(template);
    same(all.length, wanted.length, "distributions");
    for (const { i, list, log, aliases, d, limits } of wanted) {
      const got = all.find((x) => x.aliases.includes(`d${i}.example.fi`));
      must(got, () => `no distribution D${i}`);
      same(got.aliases, aliases, "aliases");
      same(got.config.ViewerCertificate?.AcmCertificateArn, `arn:aws:acm:us-east-1:123456789012:certificate/${i}`, "certificate");
      same(got.config.DefaultRootObject, d.root ?? "index.html", "root object");
      if (d.logical && i === 0) same(got.id, d.logical, "logical id");
      must(got.resource.Tags?.some((t) => t.Key === "EnableShieldAdvanced" && t.Value === "true"), "not protected by Shield");
      must(got.acl, "no web ACL");
      same(rates(got.acl), limits.filter((x) => x !== null && x !== undefined).sort((a, b) => a - b), "limits of the web ACL");
      must(got.config.Enabled === true, "disabled");
      same(got.paths.slice().sort(), list.slice(1).map((e) => e.path).sort(), "paths");
      const ids = got.config.Origins.map((o) => o.Id);
      must(new Set(ids).size === ids.length, () => `origin ids ${ids}`);
      for (const e of list) {
        const g = got.behaviours.get(e.path), raw = g.raw, o = g.origin, at = `D${i} ${e.path}`;
        must(o, () => `${at} has no origin`);
        same(raw.RealtimeLogConfigArn, log, `${at}: log`);
        same(raw.ViewerProtocolPolicy, "redirect-to-https", `${at}: protocol`);
        same((raw.AllowedMethods ?? ["GET", "HEAD"]).slice().sort(), METHODS[e.all ? "all" : "read"], `${at}: methods`);
        same(raw.OriginRequestPolicyId, POLICY[e.policy], `${at}: request policy`);
        must(raw.ResponseHeadersPolicyId, `${at}: no CORS policy`);
        must(raw.Compress !== false, `${at}: not compressed`);
        // origin
        const key = (o.OriginCustomHeaders ?? []).find((h) => h.HeaderName.toLowerCase() === "x-api-key")?.HeaderValue;
        if (e.origin.type === "s3") {
          same(o.DomainName, e.origin.bucket.includes(".") ? e.origin.bucket : `${e.origin.bucket}.s3.eu-west-1.amazonaws.com`, `${at}: bucket`);
          must(o.S3OriginConfig && !o.CustomOriginConfig, () => `${at}: ${show(o)}`);
        } else {
          same(key, e.origin.key, `${at}: key sent to the origin`);
          same(o.OriginPath, e.origin.path, `${at}: path at the origin`);
          const timeout = e.timeout ?? 30;
          if (e.origin.type === "vpc") {
            const v = template.Resources[o.VpcOriginConfig.VpcOriginId.Ref ?? o.VpcOriginConfig.VpcOriginId["Fn::GetAtt"][0]].Properties.VpcOriginEndpointConfig;
            must(v.Arn.includes(`/${e.origin.name}/`), () => `${at}: VPC origin ${show(v)}`);
            same(o.VpcOriginConfig.OriginReadTimeout, timeout, `${at}: time-out`);
          } else {
            same(o.DomainName, e.origin.host, `${at}: host`);
            same(o.CustomOriginConfig.OriginProtocolPolicy, e.origin.type === "http" ? "http-only" : "https-only", `${at}: protocol to the origin`);
            same(o.CustomOriginConfig.OriginReadTimeout, timeout, `${at}: time-out`);
          }
        }
        // caching
        cachingOf(g, e, at);
        // functions
        await functionsOf(g, e, at);
        for (const [ev, what] of Object.entries(e.events)) {
          const [name] = what.split(":"), fns = g.events[ev];
          if (fns[0].kind === "lambda") {
            const role = template.Resources[fns[0].resource.Role["Fn::GetAtt"][0]].Properties;
            const who = JSON.stringify(role.AssumeRolePolicyDocument);
            must(who.includes("edgelambda.amazonaws.com") && who.includes("lambda.amazonaws.com"), () => `${at}: role ${who}`);
            must(fns[0].resource.Handler === "index.handler", "handler");
            if (name === "lam") must(Object.values(template.Resources).some((r) => r.Type === "AWS::IAM::Policy" && JSON.stringify(r.Properties.Roles).includes(fns[0].resource.Role["Fn::GetAtt"][0]) && JSON.stringify(r.Properties.PolicyDocument).includes("secretsmanager:GetSecretValue")), "may not read its secret");
          }
        }
      }
    }
    return several > 0 && `${dists.length} distributions`;
  }, { runs: 120, thorough: 3000, needs: [Behavior, CloudfrontCdkStack] });

  const cacheWord = fc.subarray(["Accept", "a", "x"], { maxLength: 2 });
  await prop("each behaviour is cached by its own time, headers and parameters", fc.array(fc.record({ ttl: fc.constantFrom(30, 60, 120), headers: cacheWord, query: cacheWord }), { minLength: 2, maxLength: 6 }), async (list) => {
    const shared = Origin.http(HOSTS[0]);
    const all = list.map((c, n) => { const e = { path: n ? `/p${n}` : "*", ttl: c.ttl, headers: c.headers, query: c.query.length ? c.query : undefined }; e.b = new Behavior(e.path, n % 2 ? Origin.http(HOSTS[1]) : shared).withCacheTtl(c.ttl).withCacheHeaders(...c.headers).withQueryCacheKeys(...c.query); return e; });
    const stack = new CloudfrontCdkStack(new App(), "S", { env: { account: "123456789012", region: "us-east-1" } }).withLogConfig(LOG("x")).withAclRule(WafRules.per5min(50, 50));
    stack.withDistribution("D", "arn:aws:acm:us-east-1:123456789012:certificate/1", (b) => b.withAliasName("a.fi").withBehaviors(...all.map((e) => e.b)));
    const got = distributions(stack.resolve(stack._toCloudFormation()))[0];
    for (const e of all) { must(got.behaviours.get(e.path), () => `${e.path} is missing`); cachingOf(got.behaviours.get(e.path), e, e.path); }
    return new Set(list.map((c) => JSON.stringify(c))).size > 1;
  }, { runs: 80, thorough: 1500, needs: [Behavior, CloudfrontCdkStack] });

  const ofFunctions = ["ip", "ip", "noGzip", "gzip", "cors", "corsFunction", "index", "cut", "noCors", "noFunction"];
  await prop("functions are added and taken away one by one", fc.record({ kind: fc.constantFrom(...Object.keys(kinds)), v: values, steps: fc.array(fc.tuple(fc.constantFrom(...ofFunctions), values), { minLength: 1, maxLength: 6 }) }), async ({ kind, v, steps }) => {
    const e = { path: "*", ...kinds[kind]("*", v) };
    for (const [name, x] of steps) changes[name](e, x);
    const stack = new CloudfrontCdkStack(new App(), "S", { env: { account: "123456789012", region: "us-east-1" } }).withLogConfig(LOG("x")).withAclRule(WafRules.per5min(50, 50));
    stack.withDistribution("D", "arn:aws:acm:us-east-1:123456789012:certificate/1", (b) => { b.withAliasName("a.fi").withBehaviors(e.b); for (const n of VPCS) b.withVpcOrigin(n, "arn:x"); });
    await functionsOf(distributions(stack.resolve(stack._toCloudFormation()))[0].behaviours.get("*"), e, "*");
    return Object.keys(e.events).length > 0 && Object.values(e.events).map((x) => x.split(":")[0]).sort().join("+");
  }, { runs: 200, thorough: 4000, needs: [Behavior, CloudfrontCdkStack] });

  await prop("the same function is made once for a stack, other stacks stand apart", fc.record({ sizes: fc.array(fc.array(fc.constantFrom("index", "cut1", "cut2", "cors", "corsf"), { minLength: 1, maxLength: 4 }), { minLength: 1, maxLength: 2 }) }), async ({ sizes }) => {
    const app = new App();
    const stacks = sizes.map((uses, i) => {
      const stack = new CloudfrontCdkStack(app, `S${i}`, { env: { account: `12345678901${i}`, region: "us-east-1" } }).withLogConfig(LOG("x")).withAclRule(WafRules.per5min(50, 50));
      const make = (p, u) => { const b = Behavior.nginxPlain(p, HOSTS[0]); return u === "index" ? b.withIndexHtmlFunction() : u === "cors" ? b.withHttpHeadersLambda() : u === "corsf" ? b.withHttpHeadersFunction() : b.withRemovePathFunction(Number(u[3])); };
      stack.withDistribution("D", "arn:aws:acm:us-east-1:123456789012:certificate/1", (b) => b.withAliasName("d.fi").withBehaviors(...uses.map((u, n) => make(n ? `/p${n}` : "*", u))));
      return { stack, uses };
    });
    for (const { stack, uses } of stacks) {
      const r = outcome(() => Template.fromStack(stack).toJSON());
      const { value, error } = await r;
      must(!error, () => error?.stack);
      must(stack.dependencies.length === 0, () => `${stack.node.id} depends on ${stack.dependencies.map((s) => s.node.id)}`);
      const fns = Object.entries(value.Resources).filter(([, x]) => x.Type === "AWS::CloudFront::Function");
      same(fns.length, new Set(uses.filter((u) => u !== "cors")).size, "functions");
      same(Object.values(value.Resources).filter((x) => x.Type === "AWS::Lambda::Function").length, uses.includes("cors") ? 1 : 0, "lambdas");
      // CloudFront deploys one function at a time: each waits for another
      const ids = new Set(fns.map(([id]) => id));
      const waits = fns.filter(([, x]) => [x.DependsOn ?? []].flat().some((d) => ids.has(d)));
      same(waits.length, Math.max(0, fns.length - 1), "functions that wait for another");
    }
    return (sizes.length > 1 || sizes[0].length > 1) && `${sizes.length} stacks`;
  }, { runs: 30, thorough: 300, needs: [Behavior, CloudfrontCdkStack] });

  await prop("a function made for one list of addresses or one host serves no other", fc.record({ kind: fc.constantFrom("ip", "weathercam"), a: fc.constantFrom("10.0.0.1", "10.0.0.1,10.0.0.2"), b: fc.constantFrom("10.0.0.1", "10.0.0.9"), apart: fc.boolean(), name: fc.constantFrom("same", "other") }), async ({ kind, a, b, apart, name }) => {
    const stack = new CloudfrontCdkStack(new App(), "S", { env: { account: "123456789012", region: "us-east-1" } }).withLogConfig(LOG("x")).withAclRule(WafRules.per5min(50, 50));
    const make = (p, v, n) => (kind === "ip" ? Behavior.nginxPlain(p, HOSTS[0]).withIpRestrictionLambda(n, v) : Behavior.nginxPlain(p, HOSTS[0]).withWeathercamLambdas(`h${v}`, `u${v}`));
    const r = await outcome(async () => {
      const one = make("*", a, "same"), two = make(apart ? "*" : "/b", b, name);
      stack.withDistribution("D0", "arn:aws:acm:us-east-1:123456789012:certificate/1", (x) => x.withAliasName("a.fi").withBehaviors(one, ...(apart ? [] : [two])));
      if (apart) stack.withDistribution("D1", "arn:aws:acm:us-east-1:123456789012:certificate/1", (x) => x.withAliasName("b.fi").withBehaviors(two));
      return distributions(Template.fromStack(stack).toJSON());
    });
    if (r.error) { must(a !== b && !(kind === "ip" && name === "other"), () => r.error.stack); return "refused"; }
    const get = (n) => { const d = r.value.find((x) => x.aliases.includes(apart && n ? "b.fi" : "a.fi")); return d.behaviours.get(n && !apart ? "/b" : "*"); };
    for (const [n, v] of [a, b].entries()) {
      if (kind === "ip") for (const ip of ["10.0.0.1", "10.0.0.2", "10.0.0.9"]) { const got = await get(n).events["viewer-request"][0].run(event({ ...clone(REQ), clientIp: ip })); same(got.status !== "403", v.split(",").includes(ip), `${ip} through ${v}`); }
      else { const got = await get(n).events["origin-request"][0].run(event({ ...clone(REQ), querystring: "a=1" })); same([got.origin.custom.domainName, got.headers.host[0].value], [`u${v}`, `h${v}`], "host"); }
    }
    return kind;
  }, { runs: 40, thorough: 200, needs: [Behavior, CloudfrontCdkStack] });

  await prop("the key of an API comes from where its name says", fc.record({ names: fc.uniqueArray(fc.stringMatching(/^[a-z]{1,6}$/), { minLength: 1, maxLength: 3 }), missing: fc.constantFrom(undefined, undefined, undefined, "endpointUrl", "apiKeyId", "key", "fault"), stage: fc.constantFrom("prod", "test", "") }), async ({ names, missing, stage }) => {
    ssm.values = {}; gateway.keys = {}; ssm.fault = missing === "fault" ? new Error("denied") : undefined; ssm.calls.length = gateway.calls.length = 0;
    names.forEach((n, i) => {
      ssm.values[`/digitraffic/${n}/endpointUrl`] = `https://${n}${i}.execute-api.eu-west-1.amazonaws.com/${stage}/`;
      ssm.values[`/digitraffic/${n}/apiKeyId`] = `id-${n}`;
      gateway.keys[`id-${n}`] = `value-${n}`;
    });
    const n = names[0];
    if (missing === "key") delete gateway.keys[`id-${n}`]; else if (missing) delete ssm.values[`/digitraffic/${n}/${missing}`];
    const r = await outcome(() => readApiKey(n));
    if (missing) { must(r.error, () => `${missing} missing: ${show(r.value)}`); return "missing"; }
    must(!r.error, () => r.error?.stack);
    same(r.value, { endpointUrl: `${n}0.execute-api.eu-west-1.amazonaws.com`, apiKey: `value-${n}` }, "endpoint");
    for (const [region] of [...ssm.calls, ...gateway.calls]) same(region, "eu-west-1", "region");
    return "found";
  }, { runs: 60, thorough: 500, needs: [readApiKey] });
});
