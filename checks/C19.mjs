// C19: a REST API as synthesised: who may call it, its keys, documentation, models, CORS and exports.
import { check, fc, must, same, alike, show, throwsSync } from "#harness";
import { App, Stack } from "aws-cdk-lib";
import { Template } from "aws-cdk-lib/assertions";
import { MockIntegration, RestApi } from "aws-cdk-lib/aws-apigateway";
import { Effect } from "aws-cdk-lib/aws-iam";
import { Bucket } from "aws-cdk-lib/aws-s3";
import * as S from "#repo/lib/digitraffic-common/src/aws/infra/stack/stack.ts";
import * as R from "#repo/lib/digitraffic-common/src/aws/infra/stack/rest-api.ts";
import * as D from "#repo/lib/digitraffic-common/src/aws/infra/documentation.ts";
import * as U from "#repo/lib/digitraffic-common/src/aws/infra/usage-plans.ts";
import * as B from "#repo/lib/digitraffic-common/src/aws/infra/bucket-policy.ts";
import * as AM from "#repo/lib/digitraffic-common/src/utils/api-model.ts";

const asList = (v) => (v === undefined ? [] : Array.isArray(v) ? v : [v]);
const of = (t, type) => Object.entries(t.toJSON().Resources).filter(([, r]) => r.Type === type).map(([id, r]) => ({ id, p: r.Properties ?? {}, r }));
const flat = (v) => (typeof v === "string" ? v : v?.["Fn::Join"] ? v["Fn::Join"][1].map(flat).join(v["Fn::Join"][0]) : v?.Ref ? `<${v.Ref}>` : v?.["Fn::GetAtt"] ? `<${v["Fn::GetAtt"].join(".")}>` : JSON.stringify(v));
const stackOf = (c) => new S.DigitrafficStack(new App(), "St", { shortName: c.shortName ?? "Road", production: false, trafficType: null, alarmTopicArn: "u", warningTopicArn: "u", stackProps: { env: { account: "123456789012", region: "eu-west-1" } }, ...(c.docs === undefined ? {} : { stackFeatures: { enableDocumentation: c.docs } }) });
const quietly = (fn) => { const i = console.info; console.info = () => {}; try { return fn(); } finally { console.info = i; } };

// reference evaluation of an API's resource policy
const ipOf = (s) => s.split(".").reduce((a, b) => a * 256 + Number(b), 0);
const inCidr = (ip, cidr) => { const [a, n = "32"] = cidr.split("/"), size = 2 ** (32 - Number(n)); return Math.floor(ipOf(ip) / size) === Math.floor(ipOf(a) / size); };
function permits(policy, ip) {
  let ok = false;
  for (const s of asList(policy.Statement)) {
    must(["*", "execute-api:*", "execute-api:Invoke"].some((a) => asList(s.Action).includes(a)), "the statement is about calling the API");
    must(asList(s.Resource).length > 0 && asList(s.Resource).every((r) => r === "*" || r === "execute-api:/*"), () => `the statement covers the whole API: ${show(s.Resource)}`);
    const who = s.Principal; must(who === "*" || who?.AWS === "*" || asList(who?.AWS).includes("*"), "callers are not authenticated users");
    let match = true;
    for (const [op, cond] of Object.entries(s.Condition ?? {})) {
      must(["IpAddress", "NotIpAddress"].includes(op) && Object.keys(cond).length === 1 && cond["aws:SourceIp"] !== undefined, () => `condition ${op}`);
      const hit = asList(cond["aws:SourceIp"]).some((c) => inCidr(ip, c)); if (op === "IpAddress" ? !hit : hit) match = false;
    }
    if (match && s.Effect === "Deny") return false;
    if (match) ok = true;
  }
  return ok;
}
const octet = fc.integer({ min: 0, max: 255 });
const address = fc.tuple(octet, octet, octet, octet).map((a) => a.join("."));
const cidr = fc.oneof(address, fc.tuple(address, fc.constantFrom(8, 16, 24, 31, 32)).map(([a, n]) => `${a}/${n}`));
const near = (cidrs) => fc.oneof(address, ...(cidrs?.length ? [fc.constantFrom(...cidrs).chain((c) => fc.integer({ min: -2, max: 300 }).map((d) => { const v = (ipOf(c.split("/")[0]) + d + 2 ** 32) % 2 ** 32; return [24, 16, 8, 0].map((s) => Math.floor(v / 2 ** s) % 256).join("."); }))] : []));

const text = fc.oneof(fc.string({ minLength: 1, maxLength: 15, unit: fc.constantFrom("a", "B", "ä", '"', "\\", "'", " ", "\n", "{", "😀") }), fc.constantFrom("Not Found", "gone", 'say "hi"'));
const seg = fc.constantFrom("api", "v1", "things", "{id}", "data");
const part = fc.oneof(
  fc.record({ kind: fc.constant("queryParameter"), name: fc.constantFrom("from", "to", "id"), text, note: fc.option(text, { nil: undefined }) }),
  fc.record({ kind: fc.constant("pathParameter"), name: fc.constantFrom("id", "vessel"), text, note: fc.option(text, { nil: undefined }) }),
  fc.record({ kind: fc.constant("method"), name: fc.constantFrom("getThings", "postThing"), text, tags: fc.array(fc.constantFrom("Beta", "Marine"), { maxLength: 2 }), note: fc.option(text, { nil: undefined }) }),
);
const makePart = (p) => { const d = p.kind === "method" ? D.DocumentationPart.method([...p.tags], p.name, p.text) : D.DocumentationPart[p.kind](p.name, p.text); return p.note === undefined ? d : d.deprecated(p.note); };
const wantPart = (p, path) => {
  const props = p.kind === "method" ? { tags: p.tags, summary: p.note === undefined ? p.text : `${p.text}. ${p.note}` } : { description: p.text, ...(p.note === undefined ? {} : { summary: p.note }) };
  if (p.note !== undefined) props.deprecated = true;
  return { loc: { Path: path, Type: { queryParameter: "QUERY_PARAMETER", pathParameter: "PATH_PARAMETER", method: "METHOD" }[p.kind], ...(p.kind === "method" ? {} : { Name: p.name }) }, props };
};
const CORS_HEADERS = ["Content-Type", "X-Amz-Date", "Authorization", "X-Api-Key", "X-Amz-Security-Token", "Digitraffic-User"];
function preflight(m) {
  const r = m.p.Integration.IntegrationResponses.flatMap((x) => Object.entries(x.ResponseParameters ?? {}));
  const get = (h) => { const e = r.find(([k]) => k.toLowerCase() === `method.response.header.access-control-allow-${h}`); return e && e[1].replace(/^'|'$/g, ""); };
  same(get("origin"), "*", "allowed origins"); same(get("headers")?.split(","), CORS_HEADERS, "allowed headers"); same(get("methods")?.split(",").sort(), ["GET", "HEAD", "OPTIONS"], "allowed methods");
  must(!m.p.ApiKeyRequired && m.p.AuthorizationType === "NONE", "a preflight needs no key");
}

await check({
  rule: "generated address lists, keys, resource trees, documentation, models and grants; the synthesised template is compared with a reference and its policy evaluated for generated callers; non-trivial: an address list, or more than one key, part or resource",
  assumptions: ["a resource policy admits a caller when an allowing statement matches and no denying one does", "messages do not contain $, which starts a variable in a gateway response"],
}, async ({ prop }) => {
  await prop("an API answers exactly the callers it is meant for", fc.option(fc.uniqueArray(cidr, { maxLength: 4 }), { nil: undefined }).chain((allow) => fc.record({ allow: fc.constant(allow), ask: fc.array(near(allow), { minLength: 3, maxLength: 12 }), how: fc.constantFrom("class", "class", "function", "config"), name: fc.constantFrom("Road API", "Marine public API") })), (c) => {
    const stack = stackOf({});
    const api = c.how === "function" ? R.createRestApi(stack, "api", c.name, c.allow) : new R.DigitrafficRestApi(stack, "api", c.name, c.allow, c.how === "config" ? { description: "described", binaryMediaTypes: ["image/png"] } : undefined);
    api.root.addMethod("GET", new MockIntegration());
    const t = Template.fromStack(stack), [a] = of(t, "AWS::ApiGateway::RestApi").map((x) => x.p);
    same(a.Name, c.name, "name"); same(a.EndpointConfiguration?.Types, ["REGIONAL"], "regional");
    if (c.how === "config") same([a.Description, a.BinaryMediaTypes], ["described", ["image/png"]], "own configuration");
    must(a.Policy, "a policy");
    for (const ip of c.ask) same(permits(a.Policy, ip), c.allow === undefined || c.allow.some((x) => inCidr(ip, x)), `${ip} may call`);
    const st = of(t, "AWS::ApiGateway::Stage")[0].p; same(st.MethodSettings?.map((m) => [m.HttpMethod, m.ResourcePath, m.LoggingLevel, m.DataTraceEnabled]), [["*", "/*", "ERROR", false]], "errors are logged, data is not");
    const gr = of(t, "AWS::ApiGateway::GatewayResponse"); same(gr.length, 1);
    same([gr[0].p.ResponseType, gr[0].p.StatusCode, JSON.parse(gr[0].p.ResponseTemplates["application/json"])], ["MISSING_AUTHENTICATION_TOKEN", "404", { message: "Not Found" }], "unknown paths are not found");
    return !!c.allow;
  }, { runs: 100, thorough: 4000, needs: [R.DigitrafficRestApi], examples: [{ allow: [], ask: ["1.2.3.4", "0.0.0.0"], how: "class", name: "n" }, { allow: [], ask: ["1.2.3.4"], how: "function", name: "n" }] });

  const keyOp = fc.oneof({ weight: 3, arbitrary: fc.record({ op: fc.constant("v2"), name: fc.constantFrom("Road", "Marine", "Rail"), value: fc.option(fc.constantFrom("secret-value-of-at-least-20", "another-value-of-20-chars"), { nil: undefined }) }) }, fc.record({ op: fc.constant("v1"), name: fc.constantFrom("Old", "Older") }), fc.record({ op: fc.constant("fn"), name: fc.constantFrom("Fn1") }));
  await prop("keys, plans and exports belong together", fc.record({ shortName: fc.constantFrom("Road", "Marine"), keys: fc.uniqueArray(keyOp, { maxLength: 4, selector: (k) => k.op + k.name }), which: fc.option(fc.nat(3), { nil: undefined }), exportName: fc.constantFrom(undefined, undefined, "own"), twice: fc.boolean() }), (c) => {
    const stack = stackOf(c), api = new R.DigitrafficRestApi(stack, "api", "API"); api.root.addMethod("GET", new MockIntegration());
    const ids = c.keys.map((k) => (k.op === "v2" ? api.createUsagePlanV2(k.name, k.value) : k.op === "v1" ? api.createUsagePlan(`${k.name}Id`, k.name) : U.createDefaultUsagePlan(api, k.name).keyId));
    const known = ids.filter((_, i) => c.keys[i].op !== "fn"); same(api.apiKeyIds, known, "known keys, in order");
    const pick = c.which !== undefined && ids.length > 0 ? ids[c.which % ids.length] : undefined;
    const params = pick || c.exportName ? { ...(pick ? { apiKeyId: pick } : {}), ...(c.exportName ? { exportName: c.exportName } : {}) } : undefined;
    const r = throwsSync(() => api.exportEndpoint(...(params ? [params] : [])));
    if (!r.error) must(Array.isArray(r.value) && r.value.length === 2, "the exported parameters are returned");
    const chosen = pick ?? (known.length === 1 ? known[0] : undefined);
    same(!r.error, chosen !== undefined, `export with ${known.length} keys${pick ? " and one given" : ""}: ${r.error?.message}`);
    const t = Template.fromStack(stack), keys = of(t, "AWS::ApiGateway::ApiKey"), plans = of(t, "AWS::ApiGateway::UsagePlan"), links = of(t, "AWS::ApiGateway::UsagePlanKey"), stage = of(t, "AWS::ApiGateway::Stage")[0], apiId = of(t, "AWS::ApiGateway::RestApi")[0].id;
    same([keys.length, plans.length, links.length], [c.keys.length, c.keys.length, c.keys.length], "one key and plan each");
    const refs = ids.map((id) => stack.resolve(id).Ref); same(new Set(refs).size, refs.length, "distinct keys");
    c.keys.forEach((k, i) => {
      const key = keys.find((x) => x.id === refs[i]); must(key, "the key"); must(key.p.Enabled, "enabled");
      const link = links.filter((l) => l.p.KeyId.Ref === key.id); same(link.length, 1); same(link[0].p.KeyType, "API_KEY");
      const plan = plans.find((p) => p.id === link[0].p.UsagePlanId.Ref); must(plan, "its plan");
      same(links.filter((l) => l.p.UsagePlanId.Ref === plan.id).length, 1, "a plan of its own");
      same(plan.p.ApiStages?.map((s) => [s.ApiId.Ref, s.Stage.Ref]), [[apiId, stage.id]], "the plan covers the API");
      same(plan.p.UsagePlanName, k.op === "v1" ? k.name : `${k.name} API Usage Plan`, "plan name");
      if (k.op !== "v1") same(key.p.Name, `${k.name} API Key`, "key name"); same(key.p.Value, k.op === "v2" ? k.value : undefined, "key value");
    });
    const sps = of(t, "AWS::SSM::Parameter").map((x) => x.p); const n = c.exportName ?? c.shortName;
    if (!chosen) { same(sps.length, 0, "nothing exported"); return true; }
    const by = (name) => sps.find((p) => p.Name === `/digitraffic/${n}/${name}`)?.Value; same(sps.length, 2, "exports");
    same(stack.resolve(chosen), by("apiKeyId"), "exported key"); must(/^https:\/\/<[^>]+>\.execute-api\.eu-west-1\./.test(flat(by("endpointUrl"))) && flat(by("endpointUrl")).includes(`<${stage.id}>`) && flat(by("endpointUrl")).includes(`<${apiId}>`), () => `exported endpoint ${flat(by("endpointUrl"))}`);
    same(stack.resolve(api.hostname()) && flat(stack.resolve(api.hostname())), `<${apiId}>.execute-api.eu-west-1.amazonaws.com`, "host name");
    return c.keys.length > 1;
  }, { runs: 90, thorough: 3000, needs: [R.DigitrafficRestApi] });

  await prop("documentation says what was written, where it was written", fc.record({ docs: fc.constantFrom(undefined, true, true, false), resources: fc.uniqueArray(fc.record({ path: fc.array(seg, { minLength: 1, maxLength: 3 }), parts: fc.uniqueArray(part, { maxLength: 4, selector: (p) => p.name }), spread: fc.boolean() }), { minLength: 1, maxLength: 3, selector: (r) => r.path.join("/") }), tagged: fc.boolean() }), (c) => quietly(() => {
    const stack = stackOf(c), api = new R.DigitrafficRestApi(stack, "api", "API"); api.root.addMethod("GET", new MockIntegration());
    same(api.enableDocumentation, c.docs ?? true, "documentation enabled");
    const want = [];
    for (const r of c.resources) {
      const res = api.root.resourceForPath(`/${r.path.join("/")}`);
      const ps = r.parts.map(makePart); if (r.spread) api.documentResource(res, ...ps); else ps.forEach((p) => api.documentResource(res, p));
      if (c.docs !== false) want.push(...r.parts.map((p) => wantPart(p, `/${r.path.join("/")}`)));
    }
    if (c.tagged) { const res = api.root.resourceForPath("/tagged/x"); D.addTags("T1", ["a", "b"], res, stack); D.addTagsAndSummary("T2", ["c"], "the summary", res, stack); D.addQueryParameterDescription("q1", "the description", res, stack); D.addDocumentation("T3", { deprecated: true, description: "any \"text\"", responses: { 200: { of: ["x"] } } }, res, stack); want.push({ loc: { Path: "/tagged/x", Type: "METHOD" }, props: { deprecated: true, description: "any \"text\"", responses: { 200: { of: ["x"] } } } }, { loc: { Path: "/tagged/x", Type: "METHOD" }, props: { tags: ["a", "b"] } }, { loc: { Path: "/tagged/x", Type: "METHOD" }, props: { tags: ["c"], summary: "the summary" } }, { loc: { Path: "/tagged/x", Type: "QUERY_PARAMETER", Name: "q1" }, props: { description: "the description" } }); }
    const t = Template.fromStack(stack), apiId = of(t, "AWS::ApiGateway::RestApi")[0].id;
    const got = of(t, "AWS::ApiGateway::DocumentationPart").map((d) => { same(d.p.RestApiId.Ref, apiId); return { loc: d.p.Location, props: JSON.parse(d.p.Properties) }; });
    const key = (x) => JSON.stringify([x.loc.Path, x.loc.Type, x.loc.Name ?? "", Object.entries(x.props).sort()]);
    same(got.map(key).sort(), want.map(key).sort(), "documentation parts");
    return want.length > 1;
  }), { runs: 90, thorough: 3000, needs: [R.DigitrafficRestApi, D.DocumentationPart] });

  await prop("browsers may call the resources opened to them", fc.record({ opened: fc.uniqueArray(fc.record({ at: fc.constantFrom("a", "b", "c"), below: fc.uniqueArray(fc.constantFrom("x", "y", "{id}"), { maxLength: 2 }), how: fc.constantFrom("tree", "tree", "own", "single", "none") }), { minLength: 1, selector: (x) => x.at }) }), (c) => {
    const stack = stackOf({}), api = new R.DigitrafficRestApi(stack, "api", "API"); api.root.addMethod("GET", new MockIntegration());
    const want = [];
    const base = api.root.addResource("base");
    for (const o of c.opened) {
      const res = o.how === "tree" || o.how === "own" ? api.addResourceWithCorsOptionsSubTree(base, o.at, ...(o.how === "own" ? [{ defaultCorsPreflightOptions: { allowOrigins: ["https://own.example"], allowMethods: ["GET"] } }] : [])) : base.addResource(o.at);
      if (o.how === "single") api.addCorsOptions(res);
      if (o.how !== "none") want.push(`/base/${o.at}`);
      let r = res; for (const b of o.below) { r = r.addResource(b); r.addMethod("GET", new MockIntegration()); if (o.how === "tree" || o.how === "own") want.push(r.path); }
    }
    const t = Template.fromStack(stack), rs = Object.fromEntries(of(t, "AWS::ApiGateway::Resource").map((r) => [r.id, r.p]));
    const pathOf = (id) => (rs[id] ? `${pathOf(rs[id].ParentId.Ref)}/${rs[id].PathPart}` : "");
    const opts = of(t, "AWS::ApiGateway::Method").filter((m) => m.p.HttpMethod === "OPTIONS"); const own = c.opened.filter((o) => o.how === "own").map((o) => `/base/${o.at}`);
    for (const m of opts) { const path = pathOf(m.p.ResourceId.Ref); if (own.some((x) => path === x || path.startsWith(`${x}/`))) must(JSON.stringify(m.p.Integration.IntegrationResponses).includes("https://own.example"), "the origins given are the ones allowed"); else preflight(m); }
    same(opts.map((m) => pathOf(m.p.ResourceId.Ref)).sort(), want.sort(), "resources with a preflight");
    return want.length > 1;
  }, { runs: 70, thorough: 2000, needs: [R.DigitrafficRestApi] });

  const schema = fc.record({ type: fc.constantFrom("object", "array", "string"), description: fc.option(fc.constantFrom("a thing"), { nil: undefined }) });
  await prop("models and gateway responses are what was asked for", fc.record({ models: fc.uniqueArray(fc.record({ name: fc.constantFrom("A", "B", "C"), how: fc.constantFrom("json", "csv", "service", "simple", "xml"), schema }), { minLength: 1, selector: (m) => m.name }), code: fc.integer({ min: 200, max: 599 }), message: text, auth: fc.boolean(), validate: fc.boolean() }), (c) => {
    const stack = stackOf({}), api = new R.DigitrafficRestApi(stack, "api", "API"); api.root.addMethod("GET", new MockIntegration());
    const made = c.models.map((m) => (m.how === "json" ? api.addJsonModel(m.name, m.schema) : m.how === "csv" ? api.addCSVModel(m.name) : m.how === "service" ? AM.addServiceModel(m.name, api, m.schema) : AM.addSimpleServiceModel(m.name, api, ...(m.how === "xml" ? [] : ["text/plain"]))));
    const plain = new RestApi(stack, "plain", { restApiName: "plain" }); plain.root.addMethod("GET", new MockIntegration());
    R.setReturnCodeForMissingAuthenticationToken(c.code, c.message, plain, stack);
    if (c.auth) R.add401Support(api, stack);
    const validator = c.validate ? AM.addDefaultValidator(api) : undefined;
    const t = Template.fromStack(stack), apis = of(t, "AWS::ApiGateway::RestApi"), apiId = apis.find((x) => x.p.Name === "API").id, plainId = apis.find((x) => x.p.Name === "plain").id;
    for (const [s, type, req, at] of [[AM.featureSchema("ref:x"), "Feature", ["geometry", "properties", "type"], (p) => p.properties.ref], [AM.geojsonSchema("ref:x"), "FeatureCollection", ["features", "type"], (p) => [p.features.type, p.features.items.ref].join()]]) same([s.type, [...s.required].sort(), s.properties.type.enum, s.properties.type.type, at(s.properties)], ["object", req, [type], "string", type === "Feature" ? "ref:x" : "array,ref:x"], `schema of a ${type}`);
    const ms = of(t, "AWS::ApiGateway::Model"); same(ms.length, c.models.length);
    c.models.forEach((m, i) => {
      const x = ms.find((y) => y.p.Name === m.name); must(x, "model"); same(x.p.RestApiId.Ref, apiId);
      same(x.p.ContentType, { json: "application/json", csv: "text/csv", service: "application/json", simple: "text/plain", xml: "application/xml" }[m.how], "content type");
      const s = x.p.Schema ?? {}; if (m.how === "json" || m.how === "service") { same([s.type, s.description], [m.schema.type, m.schema.description], "schema"); same(flat(stack.resolve(made[i].modelReference)), `https://apigateway.amazonaws.com/restapis/<${apiId}>/models/<${x.id}>`, "reference"); const arr = AM.createArraySchema(made[i], api); same([arr.type, flat(stack.resolve(arr.items.ref))], ["array", flat(stack.resolve(made[i].modelReference))], "array of the model"); }
    });
    const g = of(t, "AWS::ApiGateway::GatewayResponse").map((x) => x.p).filter((x) => x.RestApiId.Ref === plainId); same(g.length, 1);
    const body = throwsSync(() => JSON.parse(g[0].ResponseTemplates["application/json"])); must(!body.error, () => `the body is not JSON: ${g[0].ResponseTemplates["application/json"]}`);
    same([g[0].StatusCode, body.value], [String(c.code), { message: c.message }], "custom response");
    const vs = of(t, "AWS::ApiGateway::RequestValidator"); same(vs.map((v) => [v.p.RestApiId.Ref, v.p.ValidateRequestBody, v.p.ValidateRequestParameters]), c.validate ? [[apiId, true, true]] : [], "request validator");
    if (c.validate) same(stack.resolve(validator.requestValidatorId).Ref, vs[0].id, "the validator is returned");
    const auth = of(t, "AWS::ApiGateway::GatewayResponse").map((x) => x.p).filter((x) => x.ResponseType === "UNAUTHORIZED");
    if (c.auth) same(auth.map((x) => [x.StatusCode, Object.values(x.ResponseParameters), Object.keys(x.ResponseParameters)[0].toLowerCase()]), [["401", ["'Basic'"], "gatewayresponse.header.www-authenticate"]], "a login is asked for"); else same(auth.length, 0);
    return true;
  }, { runs: 80, thorough: 2000, needs: [R.setReturnCodeForMissingAuthenticationToken, AM.addServiceModel, AM.addDefaultValidator] });

  await prop("a bucket is opened only to the given distribution", fc.record({ grants: fc.array(fc.record({ how: fc.constantFrom("OAC", "OAI"), who: fc.constantFrom("one", "two"), resources: fc.option(fc.constantFrom(["arn:aws:s3:::b/public/*"], ["arn:aws:s3:::b/x", "arn:aws:s3:::b/y"]), { nil: undefined }), actions: fc.option(fc.constantFrom(["s3:PutObject"], ["s3:GetObject", "s3:ListBucket"]), { nil: undefined }), effect: fc.option(fc.constantFrom("Allow", "Deny"), { nil: undefined }) }), { minLength: 1, maxLength: 3 }) }), (c) => {
    const stack = new Stack(new App(), "s"), bucket = new Bucket(stack, "b");
    for (const g of c.grants) { const base = { bucket, ...(g.resources ? { resources: g.resources } : {}), ...(g.actions ? { actions: g.actions } : {}), ...(g.effect ? { effect: g.effect === "Allow" ? Effect.ALLOW : Effect.DENY } : {}) }; g.how === "OAC" ? B.grantOACRights({ ...base, distributionArn: `arn:aws:cloudfront::1:distribution/E${g.who}X` }) : B.grantOAIRights({ ...base, canonicalUserId: g.who }); }
    const t = Template.fromStack(stack), bid = of(t, "AWS::S3::Bucket")[0].id, pol = of(t, "AWS::S3::BucketPolicy"); same(pol.length, 1);
    const norm = []; for (const s of pol[0].p.PolicyDocument.Statement) for (const a of asList(s.Action)) for (const r of asList(s.Resource)) norm.push([s.Effect, JSON.stringify(s.Principal), a, flat(r), JSON.stringify(s.Condition ?? {})].join(" "));
    const want = []; for (const g of c.grants) for (const a of g.actions ?? ["s3:GetObject"]) for (const r of g.resources ?? [`<${bid}.Arn>/*`]) want.push([g.effect ?? "Allow", g.how === "OAC" ? '{"Service":"cloudfront.amazonaws.com"}' : `{"CanonicalUser":"${g.who}"}`, a, r, g.how === "OAC" ? JSON.stringify({ StringEquals: { "AWS:SourceArn": `arn:aws:cloudfront::1:distribution/E${g.who}X` } }) : "{}"].join(" "));
    same([...new Set(norm)].sort(), [...new Set(want)].sort(), "grants");
    return c.grants.length > 1;
  }, { runs: 80, thorough: 2000, needs: [B.grantOACRights] });
});
