// C08: what an API request becomes when it reaches the Lambda.
import { check, fc, must, same, alike, show, capture } from "#harness";
import velocity from "velocityjs";
import { App, Stack } from "aws-cdk-lib";
import { Template } from "aws-cdk-lib/assertions";
import { RestApi } from "aws-cdk-lib/aws-apigateway";
import { Function as Fn, Code, Runtime } from "aws-cdk-lib/aws-lambda";
import { javaStrings, escapeJavaScript } from "#harness/vtl.mjs";
import * as I from "#repo/lib/digitraffic-common/src/aws/infra/api/integration.ts";
import * as SI from "#repo/lib/digitraffic-common/src/aws/infra/sqs-integration.ts";
import { Queue } from "aws-cdk-lib/aws-sqs";

const name = fc.constantFrom("id", "from_date", "to", "v1", "name", "fields", "domain_name", "x9");
const ctx = fc.constantFrom("requestid", "authorizer.key", "stage");
const text = fc.oneof({ weight: 3, arbitrary: fc.string({ maxLength: 12, unit: "grapheme" }) }, fc.string({ maxLength: 10, unit: fc.constantFrom("'", '"', "\\", "a", "ä", "/", "\n", "\t", "$", "#", "{", "}", "<", "&", "%", " ", "€", "\u2028", "\u0001", "😀", ",", ":") }), fc.constantFrom("it's", '","admin":"true', "\\'", "\\\\'", "$paramMap", "#end", "${x}", "''", "{\"a\":1}", "null"));
const anyName = fc.oneof({ weight: 3, arbitrary: name }, fc.string({ minLength: 1, maxLength: 6, unit: fc.constantFrom("a", "b", '"', "'", ":", ",", "ö", "-", ".", "[", " ", "\\") }).filter((s) => !s.startsWith("_")), fc.constantFrom("_id", "_from_date", "_zz", "payload", "authorizer.key", "q".repeat(65), "r".repeat(300)));
const headerName = fc.oneof(name, fc.constantFrom("X-Api-Key", "Accept", "If-Modified-Since", "x-request-id"));
const step = fc.oneof(
  fc.record({ op: fc.constant("path"), names: fc.array(name, { minLength: 1, maxLength: 2 }) }),
  fc.record({ op: fc.constant("query"), names: fc.array(name, { minLength: 1, maxLength: 3 }) }),
  fc.record({ op: fc.constant("multi"), names: fc.array(name, { minLength: 1, maxLength: 2 }) }),
  fc.record({ op: fc.constant("header"), names: fc.array(headerName, { minLength: 1, maxLength: 2 }) }),
  fc.record({ op: fc.constant("context"), names: fc.array(ctx, { minLength: 1, maxLength: 2 }) }),
  fc.record({ op: fc.constant("all") }), fc.record({ op: fc.constant("body") }),
  { weight: 1, arbitrary: fc.record({ op: fc.constant("reserved"), how: fc.constantFrom("addPathParameter", "addQueryParameter", "addHeaderParameter", "addContextParameter", "addMultiValueQueryParameter") }) },
);
const METHOD = { path: "addPathParameter", query: "addQueryParameter", multi: "addMultiValueQueryParameter", header: "addHeaderParameter", context: "addContextParameter" };

await check({
  rule: "generated sets of declared parameters and generated requests with hostile values and names; the synthesised request template is rendered (velocityjs with Java string semantics) and the Lambda event compared with the request; non-trivial: a parameter whose value needs escaping, or an undeclared one",
  assumptions: ["escapeJavaScript behaves as API Gateway documents it (single quotes come out escaped); a missing parameter renders as an empty string", "one declaration per parameter name"],
}, async ({ prop }) => {
  await prop("the Lambda receives exactly the declared parameters", fc.record({
    steps: fc.array(step, { maxLength: 5 }),
    request: fc.record({ path: fc.dictionary(name, text, { maxKeys: 4 }), query: fc.dictionary(anyName, text, { maxKeys: 5 }), header: fc.dictionary(headerName, text, { maxKeys: 3 }), multi: fc.dictionary(name, fc.array(text, { minLength: 1, maxLength: 3 }), { maxKeys: 3 }), context: fc.record({ requestid: text, stage: text, authorizer: fc.record({ key: text }) }), body: fc.string({ maxLength: 30, unit: "grapheme" }) }),
  }), async (c) => {
    const stack = new Stack(new App());
    const fn = new Fn(stack, "f", { runtime: Runtime.NODEJS_22_X, code: Code.fromInline("x"), handler: "h" });
    const integration = new I.DigitrafficIntegration(fn);
    const declared = new Map(); let all = false, body = false, usedQuery = false;
    for (const s of c.steps) {
      if (s.op === "all") {
        const { error } = await capture(() => integration.passAllQueryParameters());
        must(!!error === usedQuery, () => `pass-all after single query parameters: ${usedQuery}, refused: ${!!error}`);
        if (!error) all = true;
      } else if (s.op === "body") { integration.passBody(); body = true; }
      else if (s.op === "reserved") { const { error } = await capture(() => integration[s.how]("_x")); must(error, "a reserved parameter name was accepted"); }
      else {
        const names = s.names.filter((n) => !declared.has(n));
        if (names.length === 0) continue;
        const { error } = await capture(() => integration[METHOD[s.op]](...names));
        if (s.op === "query" && all) { must(error, "a single query parameter was accepted after pass-all"); continue; }
        must(!error, () => `refused: ${error}`);
        if (s.op === "query") usedQuery = true;
        for (const n of names) declared.set(n, s.op);
      }
    }
    const api = new RestApi(stack, "api");
    api.root.addMethod("GET", integration.build());
    const m = Object.values(Template.fromStack(stack).findResources("AWS::ApiGateway::Method"))[0].Properties;
    same(m.Integration.Type, "AWS", "a mapped (non-proxy) integration");
    const template = m.Integration.RequestTemplates?.["application/json"];
    if (declared.size === 0 && !all && !body) return false; // the template may be left out
    must(template, "no request template");
    const r = c.request;
    const q = { ...r.query };
    for (const [k, v] of Object.entries(r.multi)) q[k] ??= v.at(-1); // the single-valued view of a repeated parameter
    const multi = Object.fromEntries(Object.entries(q).map(([k, v]) => [k, r.multi[k] ?? [v]]));
    const rendered = javaStrings(() => new velocity.Compile(velocity.parse(template.trim())).render({
      method: { request: { multivaluequerystring: multi } },
      input: { body: r.body, params: () => ({ path: { ...r.path }, querystring: { ...q }, header: { ...r.header } }) },
      util: { base64Encode: (s) => Buffer.from(s).toString("base64"), base64Decode: (s) => Buffer.from(s, "base64").toString(), escapeJavaScript, urlEncode: encodeURIComponent },
      context: structuredClone(r.context),
    }));
    const expected = {};
    for (const [n, kind] of declared) {
      const v = kind === "path" ? r.path[n] : kind === "query" ? q[n] : kind === "header" ? r.header[n] : kind === "multi" ? multi[n] ?? [] : n === "authorizer.key" ? r.context.authorizer.key : r.context[n];
      expected[n] = v ?? "";
    }
    if (all) for (const [k, v] of Object.entries(q)) if (!k.startsWith("_") && !(k in expected)) expected[k] = v;
    if (body) expected.payload = Buffer.from(r.body).toString("base64");
    let event;
    try { event = JSON.parse(rendered); } catch (e) { must(false, `the Lambda event is not JSON: ${e.message}\n   ${rendered.replace(/\s+/g, " ").slice(0, 400)}`); }
    alike(event, expected, "the Lambda event");
    return JSON.stringify(expected).includes("\\") ? "escaped" : Object.keys(expected).length > 1 ? "several" : false;
  }, { runs: 420, needs: [I.DigitrafficIntegration] });

  await prop("declared parameters are forwarded to the integration", fc.array(fc.record({ kind: fc.constantFrom("path", "query", "multi", "header", "context"), name }), { maxLength: 5 }), async (ps) => {
    const stack = new Stack(new App());
    const fn = new Fn(stack, "f", { runtime: Runtime.NODEJS_22_X, code: Code.fromInline("x"), handler: "h" });
    const i = new I.DigitrafficIntegration(fn);
    if (i.createRequestParameters === undefined) return false;
    for (const p of ps) i[METHOD[p.kind]](p.name);
    const got = i.createRequestParameters();
    for (const [to, from] of Object.entries(got)) same(to.split(".")[2], from.split(".")[2].replace("multivalue", ""), "kind of the forwarded parameter");
    const want = [...new Set(ps.filter((p) => p.kind !== "context").map((p) => `${p.kind === "query" || p.kind === "multi" ? "querystring" : p.kind}.${p.name}`))].sort();
    same(Object.keys(got).map((k) => k.replace("integration.request.", "")).sort(), want, "forwarded parameters");
    return ps.length > 1;
  }, { runs: 80, needs: [I.DigitrafficIntegration] });

  await prop("a queue integration sends the whole body as one message", fc.record({ body: fc.tuple(fc.constantFrom("", "", " ", "\n", "\t"), fc.string({ maxLength: 60, unit: "grapheme" }), fc.constantFrom("", "", " ", "\n", "  ")).map((x) => x.join("")), fifo: fc.boolean(), apiKey: fc.boolean() }), async (c) => {
    const stack = new Stack(new App());
    const api = new RestApi(stack, "api");
    const queue = new Queue(stack, "q", c.fifo ? { fifo: true } : {});
    const validator = api.addRequestValidator("v", { validateRequestBody: true });
    SI.attachQueueToApiGatewayResource(stack, queue, api.root.addResource("r"), validator, "R", c.apiKey);
    const t = Template.fromStack(stack).toJSON().Resources;
    const ms = Object.values(t).filter((x) => x.Type === "AWS::ApiGateway::Method");
    must(ms.length === 1 && ms[0].Properties.HttpMethod === "POST", "one POST method");
    const m = ms[0].Properties;
    same(m.ApiKeyRequired ?? false, c.apiKey, "API key requirement");
    same(m.Integration.PassthroughBehavior, "NEVER", "unmapped bodies are refused");
    same(m.Integration.RequestParameters["integration.request.header.Content-Type"], "'application/x-www-form-urlencoded'", "content type sent to the queue");
    must(m.RequestValidatorId, "the body is validated");
    const rendered = new velocity.Compile(velocity.parse(m.Integration.RequestTemplates["application/json"])).render({ input: { body: c.body }, util: { urlEncode: encodeURIComponent } });
    const form = new URLSearchParams(rendered);
    same(form.get("Action"), "SendMessage", "action"); same(form.get("MessageBody"), c.body, "message body"); same(form.has("MessageGroupId"), c.fifo, "a group is given for ordered queues");
    // whatever the queue refuses or fails is a failure for the client
    const answers = m.Integration.IntegrationResponses, chosen = (s) => (answers.find((a) => a.SelectionPattern !== undefined && new RegExp(`^(?:${a.SelectionPattern})$`).test(String(s))) ?? answers.find((a) => a.SelectionPattern === undefined))?.StatusCode;
    same(chosen(200), "200", "answer to an accepted message");
    for (const s of [400, 403, 404, 413, 429, 499, 500, 502, 503, 599]) same(chosen(s), "500", `answer when the queue says ${s}`);
    const uri = JSON.stringify(m.Integration.Uri), qid = Object.entries(t).find(([, x]) => x.Type === "AWS::SQS::Queue")[0];
    must(uri.includes("sqs:path") && uri.includes(`"${qid}","QueueName"`), () => `the call goes to the queue: ${uri}`);
    // the caller role may send to that queue and to no other
    const role = Object.entries(t).find(([, x]) => x.Type === "AWS::IAM::Role" && JSON.stringify(x.Properties.AssumeRolePolicyDocument).includes("apigateway") && /SQS/.test(JSON.stringify(m.Integration.Credentials)));
    must(role, "a role for the API");
    const st = Object.values(t).filter((x) => x.Type === "AWS::IAM::Policy").flatMap((p) => p.Properties.PolicyDocument.Statement).filter((s) => [s.Action].flat().some((a) => a.startsWith("sqs:")));
    same(st.map((s) => [s.Effect, [s.Action].flat(), s.Resource]), [["Allow", ["sqs:SendMessage"], { "Fn::GetAtt": [qid, "Arn"] }]], "queue permissions");
    return c.body.length > 0;
  }, { runs: 60, needs: [SI.attachQueueToApiGatewayResource] });
});
