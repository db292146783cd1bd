// C09: what a client receives from mapped and static API responses, and the Lambda handler factory.
import { check, fc, must, same, alike, show, capture, outcome } from "#harness";
import velocity from "velocityjs";
import { App, Stack } from "aws-cdk-lib";
import { Template } from "aws-cdk-lib/assertions";
import { RestApi, Model, PassthroughBehavior } from "aws-cdk-lib/aws-apigateway";
import { Function as Fn, Code, Runtime } from "aws-cdk-lib/aws-lambda";
import { javaStrings } from "#harness/vtl.mjs";
import * as I from "#repo/lib/digitraffic-common/src/aws/infra/api/integration.ts";
import * as R from "#repo/lib/digitraffic-common/src/aws/infra/api/response.ts";
import * as D from "#repo/lib/digitraffic-common/src/aws/infra/../runtime/digitraffic-integration-response.ts";
import * as ST from "#repo/lib/digitraffic-common/src/aws/infra/api/static-integration.ts";
import * as H from "#repo/lib/digitraffic-common/src/aws/infra/api/handler-factory.ts";
import * as LR from "#repo/lib/digitraffic-common/src/aws/types/lambda-response.ts";
import * as RS from "#repo/lib/digitraffic-common/src/aws/infra/api/responses.ts";
import * as E from "#repo/lib/digitraffic-common/src/aws/types/errors.ts";
import { MediaType } from "#repo/lib/digitraffic-common/src/aws/types/mediatypes.ts";

/** renders an integration response the way the API does */
function render(template, response, mediaType) {
  const override = { status: undefined, header: {} };
  const c = new velocity.Compile(velocity.parse(template));
  const body = javaStrings(() => c.render({ input: { path: () => ({ ...response }) }, util: { base64Decode: (s) => Buffer.from(s ?? "", "base64").toString() }, context: { responseOverride: override } }));
  const o = c.context?.context?.responseOverride ?? override;
  return { status: o.status === undefined ? 200 : Number(o.status), headers: { "Content-Type": mediaType, ...Object.fromEntries(Object.entries(o.header).filter(([, v]) => v !== undefined)) }, body };
}
const renderBody = (template, root) => javaStrings(() => new velocity.Compile(velocity.parse(template)).render({ input: { path: () => ({ ...root }), body: JSON.stringify(root) } }));
const media = fc.constantFrom(...Object.values(MediaType ?? { J: "application/json" }));
const text = fc.oneof(fc.string({ minLength: 1, maxLength: 40, unit: "grapheme" }), fc.constantFrom('{"a":1}', "$inputRoot.status", "#set($x=1)", "åäö €", "##comment", "<a href='x'/>", "FN", "\n\n"));
const fileName = fc.constantFrom("data.csv", "FN.txt", "maintenance 2024.xml", "a(1).json", "äö.csv", "x");
const sunset = fc.option(fc.date({ min: new Date("1971-01-02"), max: new Date("2099-12-31"), noInvalidDate: true }).map((d) => d.toISOString().slice(0, 10)), { nil: undefined });

await check({
  rule: "generated Lambda answers (status, body, file name, timestamp, ETag) rendered through the synthesised response template as the API does; generated static responses; generated handler outcomes; non-trivial: a non-200 status, a header-bearing answer or a failing handler",
  assumptions: ["API Gateway renders the template as velocityjs does; whitespace after the body of a deprecated API is not significant"],
}, async ({ prop }) => {
  await prop("the client receives the Lambda's body, status and headers", fc.record({
    body: text, status: fc.constantFrom(200, 200, 201, 204, 301, 304, 400, 401, 403, 404, 410, 429, 500, 501, 503), fileName: fc.option(fileName, { nil: undefined }), time: fc.option(fc.date({ min: new Date(0), max: new Date("2100-01-01"), noInvalidDate: true }), { nil: undefined }), etag: fc.option(fc.constantFrom('"abc"', 'W/"a-b"', "xyz"), { nil: undefined }), media, deprecated: fc.boolean(), sunset, direct: fc.boolean(),
  }), async (c) => {
    let template;
    if (c.direct) {
      const r = D.DigitrafficIntegrationResponse.ok(c.media, c.deprecated, c.sunset);
      same(r.statusCode, "200", "default status"); same(Object.keys(r.responseTemplates), [c.media], "media types mapped");
      template = r.responseTemplates[c.media];
    } else {
      const stack = new Stack(new App());
      const fn = new Fn(stack, "f", { runtime: Runtime.NODEJS_22_X, code: Code.fromInline("x"), handler: "h" });
      const api = new RestApi(stack, "api");
      api.root.addMethod("GET", new I.DigitrafficIntegration(fn, c.media, c.deprecated, c.sunset).build(), { methodResponses: [R.DigitrafficMethodResponse.response200(Model.EMPTY_MODEL, c.media, c.deprecated, !!c.sunset)] });
      const m = Object.values(Template.fromStack(stack).findResources("AWS::ApiGateway::Method"))[0].Properties;
      const rs = m.Integration.IntegrationResponses;
      const r = rs.find((x) => x.StatusCode === "200" && x.SelectionPattern === undefined);
      must(r, () => `no default response: ${show(rs)}`);
      same(Object.keys(r.ResponseTemplates), [c.media], "media types mapped");
      template = r.ResponseTemplates[c.media];
    }
    const answer = { status: c.status, body: Buffer.from(c.body).toString("base64"), ...(c.fileName ? { fileName: c.fileName } : {}), ...(c.time ? { timestamp: c.time.toUTCString() } : {}), ...(c.etag ? { etag: c.etag } : {}) };
    const got = render(template, answer, c.media);
    if (c.deprecated) { must(got.body.startsWith(c.body) && got.body.slice(c.body.length).trim() === "", () => `body ${show(got.body)} instead of ${show(c.body)}`); } else same(got.body, c.body, "body");
    same(got.status, c.status, "status");
    alike(got.headers, {
      "Content-Type": c.status === 200 ? c.media : "text/plain", "Access-Control-Allow-Origin": "*",
      ...(c.fileName ? { "Content-Disposition": `attachment; filename="${c.fileName}"` } : {}), ...(c.time ? { "Last-Modified": c.time.toUTCString() } : {}), ...(c.etag ? { ETag: c.etag } : {}),
      ...(c.deprecated ? { Deprecation: "true", ...(c.sunset ? { Sunset: new Date(c.sunset).toUTCString() } : {}) } : {}),
    }, "headers");
    return c.status !== 200 ? "not 200" : c.fileName || c.time || c.etag || c.deprecated ? "headers" : false;
  }, { runs: 500, thorough: 5000, needs: [D.DigitrafficIntegrationResponse, I.DigitrafficIntegration, R.DigitrafficMethodResponse] });

  await prop("answers built by a handler survive the mapping", fc.record({ body: text, kind: fc.constantFrom("ok", "okJson", "badRequest", "notFound", "internalError", "unauthorized", "notImplemented", "okBinary"), fileName: fc.option(fileName, { nil: undefined }), time: fc.option(fc.date({ min: new Date(0), max: new Date("2100-01-01"), noInvalidDate: true }), { nil: undefined }) }), async (c) => {
    const B = LR.LambdaResponse;
    if (!B[c.kind]) return false;
    const { value: r, error } = await capture(() => {
      const value = c.kind === "okJson" ? { v: c.body } : c.kind === "okBinary" ? Buffer.from(c.body).toString("base64") : c.body;
      let r = ["notFound", "internalError"].includes(c.kind) ? B[c.kind]() : B[c.kind](value);
      if (c.fileName && r.withFileName) r = r.withFileName(c.fileName);
      if (c.time && r.withTimestamp) r = r.withTimestamp(c.time);
      return r.build ? r.build() : r;
    });
    must(!error, () => `${error?.stack}`);
    const got = render(D.DigitrafficIntegrationResponse.ok("application/json").responseTemplates["application/json"], JSON.parse(JSON.stringify(r)), "application/json");
    const status = { ok: 200, okJson: 200, okBinary: 200, badRequest: 400, unauthorized: 401, notFound: 404, internalError: 500, notImplemented: 501 }[c.kind];
    same(got.status, status, "status");
    if (status === 200 || c.kind === "badRequest") same(got.body, c.kind === "okJson" ? JSON.stringify({ v: c.body }) : c.body, "body");
    must(got.body.length > 0, "an empty body");
    same(got.headers["Content-Type"], status === 200 ? "application/json" : "text/plain", "content type");
    if (c.fileName && r.fileName !== undefined) same(got.headers["Content-Disposition"], `attachment; filename="${c.fileName}"`, "file name");
    if (c.time && r.timestamp !== undefined) same(got.headers["Last-Modified"], c.time.toUTCString(), "last modified");
    return c.kind;
  }, { runs: 800, needs: [LR.LambdaResponse, D.DigitrafficIntegrationResponse] });

  await prop("declared method responses carry the promised headers", fc.record({ which: fc.constantFrom("response", "response200", "response400", "response500"), media, status: fc.constantFrom("200", "404", "501"), noCors: fc.boolean(), deprecated: fc.boolean(), sunset: fc.boolean() }), async (c) => {
    const M = R.DigitrafficMethodResponse, model = { modelId: "m" };
    const r = c.which === "response" ? M.response(c.status, model, c.media, c.noCors, c.deprecated, c.sunset) : c.which === "response200" ? M.response200(model, c.media, c.deprecated, c.sunset) : M[c.which](model, c.media);
    same(r.statusCode, c.which === "response" ? c.status : c.which.slice(8), "status");
    same(r.responseModels, { [c.media]: model }, "models");
    const dep = c.which === "response" || c.which === "response200";
    const want = [...(c.which === "response" && c.noCors ? [] : ["Access-Control-Allow-Origin"]), ...(dep && c.deprecated ? ["Deprecation"] : []), ...(dep && c.sunset ? ["Sunset"] : [])].map((h) => [`method.response.header.${h}`, true]);
    alike(r.responseParameters, Object.fromEntries(want), "declared headers");
    return want.length > 1;
  }, { runs: 300, needs: [R.DigitrafficMethodResponse] });

  await prop("static resources answer with exactly their content", fc.record({ json: fc.option(fc.dictionary(fc.constantFrom("a", "b", "teksti"), fc.oneof(fc.string({ maxLength: 8 }), fc.constantFrom("\u0000", "a\u0000b", "$x #set", " trailing ", "line\nbreak"), fc.integer(), fc.boolean()), { maxKeys: 3 }), { nil: undefined }), raw: fc.string({ minLength: 1, maxLength: 30 }), media, cors: fc.constantFrom(true, false, undefined), key: fc.constantFrom(true, false, undefined), headers: fc.option(fc.dictionary(fc.constantFrom("X-One", "Cache-Control", "X-Two", "Access-Control-Allow-Origin"), fc.constantFrom("a", "no-store", "b c", "public, max-age=3600", "a, b,c"), { maxKeys: 3 }), { nil: undefined }) }), async (c) => {
    const stack = new Stack(new App());
    const api = new RestApi(stack, "api");
    const res = api.root.addResource("r");
    const given = c.headers && structuredClone(c.headers);
    const model = Model.EMPTY_MODEL;
    if (c.json) ST.DigitrafficStaticIntegration.json(res, c.json, model, c.cors, c.key, c.headers); else new ST.DigitrafficStaticIntegration(res, c.media, c.raw, model, c.cors, c.key, c.headers);
    alike(c.headers, given, "the caller's headers are not changed");
    const ms = Object.values(Template.fromStack(stack).findResources("AWS::ApiGateway::Method")).map((m) => m.Properties);
    same(ms.map((m) => m.HttpMethod).sort(), ["GET", "HEAD"], "methods");
    const type = c.json ? "application/json" : c.media, body = c.json ? JSON.stringify(c.json) : c.raw;
    const headers = { ...(c.headers ?? {}), ...(c.cors === false ? {} : { "Access-Control-Allow-Origin": "*" }) };
    for (const m of ms) {
      same(m.ApiKeyRequired ?? false, c.key !== false, "API key requirement");
      same(m.Integration.Type, "MOCK"); same(JSON.parse(m.Integration.RequestTemplates[type]), { statusCode: 200 }, "mock status");
      const rs = m.Integration.IntegrationResponses;
      same(rs.length, 1); same(rs[0].StatusCode, "200"); same(rs[0].ResponseTemplates, { [type]: body }, "content");
      alike(rs[0].ResponseParameters ?? {}, Object.fromEntries(Object.entries(headers).map(([k, v]) => [`method.response.header.${k}`, `'${v}'`])), "headers sent");
      const mr = m.MethodResponses;
      same(mr.length, 1); same(mr[0].StatusCode, "200"); alike(mr[0].ResponseParameters ?? {}, Object.fromEntries(Object.keys(headers).map((k) => [`method.response.header.${k}`, true])), "headers declared");
      must(type in mr[0].ResponseModels, "the media type is declared");
    }
    return Object.keys(headers).length > 1;
  }, { runs: 120, needs: [ST.DigitrafficStaticIntegration] });

  await prop("legacy integrations: every response allows cross-origin use unless disabled", fc.record({
    cors: fc.option(fc.boolean(), { nil: undefined }), xml: fc.option(fc.boolean(), { nil: undefined }), own: fc.boolean(), none: fc.boolean(), body: text,
    params: fc.option(fc.dictionary(fc.constantFrom("integration.request.header.a", "integration.request.querystring.b"), fc.constantFrom("method.request.header.a", "'x'"), { minKeys: 1 }), { nil: undefined }), templates: fc.option(fc.dictionary(fc.constantFrom("application/json", "text/xml"), fc.constantFrom("{}", "$input.body"), { minKeys: 1 }), { nil: undefined }), pass: fc.option(fc.constantFrom(PassthroughBehavior.NEVER, PassthroughBehavior.WHEN_NO_TEMPLATES, PassthroughBehavior.WHEN_NO_MATCH), { nil: undefined }),
    declared: fc.record({ status: fc.constantFrom("200", "404"), media, params: fc.option(fc.dictionary(fc.constantFrom("method.response.header.A", "method.response.header.B"), fc.boolean()), { nil: undefined }) }),
  }), async (c) => {
    const stack = new Stack(new App());
    const fn = new Fn(stack, "f", { runtime: Runtime.NODEJS_22_X, code: Code.fromInline("x"), handler: "h" });
    const api = new RestApi(stack, "api");
    const opts = { ...(c.cors === undefined ? {} : { disableCors: c.cors }), ...(c.xml === undefined ? {} : { xml: c.xml }), ...(c.own ? { responses: [{ statusCode: "202" }] } : {}), ...(c.params ? { requestParameters: c.params } : {}), ...(c.templates ? { requestTemplates: c.templates } : {}), ...(c.pass ? { passthroughBehavior: c.pass } : {}) };
    const o = c.none ? undefined : opts, given = o ?? {};
    api.root.addMethod("GET", RS.defaultIntegration(fn, ...(c.none ? [] : [opts])), { requestParameters: { "method.request.header.a": false }, methodResponses: ["200", "202", "400", "404", "500"].map((s) => ({ statusCode: s, responseParameters: { "method.response.header.Access-Control-Allow-Origin": true } })) });
    const integration = Object.values(Template.fromStack(stack).findResources("AWS::ApiGateway::Method"))[0].Properties.Integration, rs = integration.IntegrationResponses;
    same(integration.Type, "AWS", "the answer is mapped, not passed through");
    alike(integration.RequestParameters ?? {}, given.requestParameters ?? {}, "request parameters"); alike(integration.RequestTemplates ?? {}, given.requestTemplates ?? {}, "request templates");
    same(integration.PassthroughBehavior ?? "WHEN_NO_MATCH", given.passthroughBehavior ?? "WHEN_NO_MATCH", "bodies without a template");
    same(rs.map((r) => r.StatusCode).sort(), given.responses ? ["202"] : ["200", "400", "404", "500"], "statuses");
    if (!given.responses) for (const r of rs) {
      same(r.ResponseParameters?.["method.response.header.Access-Control-Allow-Origin"], given.disableCors ? undefined : "'*'", "cross-origin header");
      must((r.SelectionPattern === undefined) === (r.StatusCode === "200"), "only the default response is chosen without a pattern");
      // a Lambda fails with one of the shared messages
      for (const [status, message] of [["400", E.BAD_REQUEST_MESSAGE], ["404", E.NOT_FOUND_MESSAGE], ["500", E.ERROR_MESSAGE]]) if (r.SelectionPattern !== undefined) same(new RegExp(`^(?:${r.SelectionPattern})$`).test(message), r.StatusCode === status, `the ${r.StatusCode} response is for ${message}`);
      if (given.xml) { same(Object.keys(r.ResponseTemplates ?? {}), ["application/xml"], "XML only"); same(renderBody(r.ResponseTemplates["application/xml"], { body: c.body }), c.body, "the XML body is the Lambda's"); }
      else if (r.StatusCode === "200") same(r.ResponseTemplates ?? {}, {}, "the default answer is not rewritten");
      else { same(Object.keys(r.ResponseTemplates ?? {}), ["application/json"]); same(JSON.parse(renderBody(r.ResponseTemplates["application/json"], { errorMessage: c.body })), { message: { 400: "Bad Request", 404: "Not Found", 500: "Error" }[r.StatusCode] }, "error body"); }
    }
    must(RS.RESPONSE_200_OK.responseParameters === undefined, "the shared response is not changed");
    const model = { modelId: "m" }, d = RS.methodResponse(c.declared.status, c.declared.media, model, ...(c.declared.params ? [c.declared.params] : []));
    alike(d, { statusCode: c.declared.status, responseModels: { [c.declared.media]: model }, responseParameters: c.declared.params ?? {} }, "declared response");
    return true;
  }, { runs: 60, thorough: 2000, needs: [RS.defaultIntegration, RS.methodResponse] });

  await prop("shared response pieces are what their names say", fc.record({ media: fc.option(media, { nil: undefined }), deprecated: fc.constantFrom(undefined, true, false), sunset, body: text, model: fc.boolean() }), async (c) => {
    const IR = D.DigitrafficIntegrationResponse, given = c.media ? [c.media] : [];
    for (const [r, status] of [[IR.badRequest(...given), "400"], [IR.notImplemented(...given), "501"]]) {
      same(r.statusCode, status, "status"); same(Object.keys(r.responseTemplates), [c.media ?? "text/plain"], "media type");
      same(render(r.responseTemplates[c.media ?? "text/plain"], { status: Number(status), body: Buffer.from(c.body).toString("base64") }, "x").body, c.body, "body");
      must(!("Deprecation" in render(Object.values(r.responseTemplates)[0], { status: 200, body: "" }, "x").headers), "not deprecated");
    }
    const m = c.media ?? "application/json", created = IR.create("418", m, ...(c.deprecated === undefined ? [] : [c.deprecated, c.sunset]));
    same(created.statusCode, "418"); const seen = render(created.responseTemplates[m], { status: 200, body: "" }, m).headers;
    same([seen.Deprecation, seen.Sunset], c.deprecated ? ["true", c.sunset && new Date(c.sunset).toUTCString()] : [undefined, undefined], "deprecation headers");
    const x = { modelId: "m" };
    const declared = (r) => [r.statusCode, Object.keys(r.responseModels), Object.keys(r.responseParameters).map((k) => k.split(".").at(-1)).sort()];
    same(declared(R.DigitrafficMethodResponse.response("418", x, m)), ["418", [m], ["Access-Control-Allow-Origin"]], "a response by default");
    same(declared(R.DigitrafficMethodResponse.response200(x)), ["200", ["application/json"], ["Access-Control-Allow-Origin"]], "an OK response by default");
    for (const [f, s] of [["response400", "400"], ["response500", "500"]]) { const r = c.model ? R.DigitrafficMethodResponse[f](x) : R.DigitrafficMethodResponse[f](); same(declared(r), [s, ["application/json"], ["Access-Control-Allow-Origin"]], `a ${s} by default`); must(r.responseModels["application/json"] === (c.model ? x : Model.EMPTY_MODEL), "its model"); }
    for (const [t, v] of [[R.BadRequestResponseTemplate, { message: "Bad Request" }], [R.NotFoundResponseTemplate, { message: "Not Found" }], [R.InternalServerErrorResponseTemplate, { message: "Error" }]]) same([Object.keys(t), JSON.parse(renderBody(t["application/json"], {}))], [["application/json"], v], "error template");
    const mm = R.MessageModel; same([mm.contentType, mm.modelName, mm.schema.type, mm.schema.properties?.message?.type], ["application/json", "MessageResponseModel", "object", "string"], "message model");
    for (const k of ["badRequest", "notFound", "internalError", "unauthorized", "contentTooLarge", "notImplemented"]) { const r = LR.LambdaResponse[k](); must(Buffer.from(r.body, "base64").toString().length > 0 && r.etag, "an error says something"); same(r.status, { badRequest: 400, notFound: 404, internalError: 500, unauthorized: 401, contentTooLarge: 413, notImplemented: 501 }[k], k); same(Buffer.from(LR.LambdaResponse[k](c.body).body, "base64").toString(), c.body, "the error given"); }
    return c.deprecated ? "deprecated" : true;
  }, { runs: 60, thorough: 2000, needs: [R.MessageModel, R.BadRequestResponseTemplate, D.DigitrafficIntegrationResponse.badRequest] });

  // ---------- handler factory ----------
  await prop("a handler's answer or failure passes through exactly once", fc.record({ empty: fc.constantFrom(false, false, false, "null", "undefined"), outcome: fc.constantFrom("value", "reject", "throw"), thrown: fc.constantFrom("error", "error", "string", "undefined", "object"), own: fc.record({ log: fc.constantFrom("default", "json", "own"), err: fc.constantFrom("default", "own", "ownThrows") }), events: fc.array(fc.anything(), { minLength: 1, maxLength: 3 }) }), async (c) => {
    const logged = [], handled = [], calls = [];
    const logger = { info: (m) => logged.push(["info", m]), warn: (m) => logged.push(["warn", m]), error: (m) => logged.push(["error", m]), debug: (m) => logged.push(["debug", m]) };
    const boom = { error: new Error("boom"), string: "boom", undefined: undefined, object: { status: 500 } }[c.thrown], other = new Error("other"), answer = c.empty === "null" ? null : c.empty === "undefined" ? undefined : { status: 200, body: "eA==" }, errAnswer = { status: 500, body: "eQ==" };
    const f = new H.HandlerFactory();
    if (c.own.log === "json") must(f.withLoggingHandler(H.createJsonLoggingHandler()) === f, "chainable");
    let wrapped = 0;
    if (c.own.log === "own") f.withLoggingHandler(async (m, l) => { must(l === logger, "the given logger"); wrapped++; return await m(); });
    if (c.own.err !== "default") f.withErrorHandler((e, l) => { must(l === logger, "the given logger"); handled.push(e); if (c.own.err === "ownThrows") throw other; return errAnswer; });
    const h = f.createEventHandler((ev) => { calls.push(ev); if (c.outcome === "throw") throw boom; return c.outcome === "reject" ? Promise.reject(boom) : Promise.resolve(answer); }, logger);
    for (const ev of c.events) {
      const before = { calls: calls.length, handled: handled.length, logged: logged.length, wrapped };
      let threw = false;
      const { value: { value, error }, out } = await capture(async () => { try { return { value: await h(ev) }; } catch (e) { threw = true; return { error: e }; } });
      same(calls.length, before.calls + 1, "handler calls"); must(Object.is(calls.at(-1), ev), "the event is passed on");
      const ok = c.outcome === "value";
      same(handled.length - before.handled, ok || c.own.err === "default" ? 0 : 1, "error handler calls");
      if (handled.length > before.handled) must(Object.is(handled.at(-1), boom), "the handler's own error");
      if (ok) must(value === answer && !threw, "the handler's answer");
      else if (c.own.err === "default") must(threw && Object.is(error, boom), "the error is passed on");
      else if (c.own.err === "own") must(value === errAnswer && !threw, "the error handler's answer");
      else must(error === other, "the error handler's error");
      if (c.own.log === "own") same(wrapped - before.wrapped, 1, "logging handler calls");
      if (c.own.log === "json") { same(logged.length - before.logged, 1, "log lines"); must(logged.at(-1)[0] === "info" && logged.at(-1)[1].tookMs >= 0 && logged.at(-1)[1].method.endsWith(".handler"), "execution time line"); }
      if (c.own.log === "default") { const l = out.trim().split("\n").filter(Boolean).map((x) => JSON.parse(x)); must(l.length === 1 && l[0].tookMs >= 0, () => `one execution time line: ${out}`); }
    }
    return c.outcome !== "value" && `${c.outcome} ${c.own.err}`;
  }, { runs: 400, needs: [H.HandlerFactory, H.createJsonLoggingHandler] });
});
